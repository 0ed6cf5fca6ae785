#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, groups, statement, over, text, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, groups=groups, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, note=note, state=state))


prop("C01", "Altered or relocated file content is never returned as valid", ["content", "tree"],
     "Whatever bytes the remote returns in place of a stored file, every block of content the proxy hands out was sealed under the file system's key for exactly that file and that block position, or is an all-zero hole. Blocks that are changed, reordered, duplicated, moved from another file, cut inside a block or re-labelled make the whole read fail, and a failed read hands out no content.",
     ["inputs"], "over all byte strings a remote can return for a file, all file ids, block positions and symbolic plaintexts within the bounds",
     "Tests decrypt a handful of fixed well-formed blocks; authenticity is a claim about every possible alteration.",
     ["gocrypt/contentenc/content.go", "filetree/decrypt.go", "gocrypt/contentenc/file_header.go", "gocrypt/cryptocore/cryptocore.go"],
     [("block authentication with block number and file id as associated data", "gocrypt/contentenc/content.go:DecryptBlock"), ("whole-file failure on any bad block", "gocrypt/contentenc/content.go:DecryptBlocks"), ("header parsing", "filetree/decrypt.go:decryptFile")],
     ["contentenc.ContentEnc.DecryptBlocks", "filetree.FileTree.ReadFile"],
     "AES-GCM is replaced by an ideal authenticated cipher (what was not sealed does not open); block size 4 with up to 3 blocks for the exhaustive adversary, 4096 with structured alterations and all contents up to 60 bytes through the whole read path.")

prop("C02", "Well-formed files read back exactly as they were stored", ["content", "tree", "proxy", "format", "wire"],
     "Reading a file that was stored correctly returns exactly its plaintext, of exactly its length, for every size including empty files, files with only a header, files with holes and files larger than the internal buffers. Repeated and interleaved reads return the same bytes, and bytes handed out earlier never change afterwards.",
     ["inputs", "histories"], "over file sizes at every block and buffer boundary, all contents (symbolic bytes at the boundaries), hole patterns and read histories within the bounds, files of up to 1 MiB + 1, also through the whole proxy with both SFTP libraries",
     "No test reads a file through the tree at all; the block tests use a few fixed sizes.",
     ["filetree/decrypt.go", "filetree/filetree.go", "gocrypt/contentenc/content.go", "gocrypt/contentenc/bpool.go", "gocrypt/contentenc/offsets.go"],
     [("file decryption", "filetree/decrypt.go:decryptFile"), ("buffer pools", "gocrypt/contentenc/bpool.go"), ("block splitting", "gocrypt/contentenc/content.go:DecryptBlocks")],
     ["filetree.FileTree.ReadFile", "handlers Fileread"],
     "sizes 0 to 139265 at 26 boundary points with symbolic bytes around each block edge; cryptographic primitives are models, replays use the real ones.")

prop("C03", "Nothing a remote returns can crash the proxy", ["tree", "names", "malice"],
     "Whatever the remote returns for the configuration, directory listings, directory IVs, file names, sizes and file contents, every request ends with a result or an error; none of these makes the process panic or exit after it has started serving, and a bad configuration at start-up is reported as an error.",
     ["inputs"], "over remote-supplied contents, names, IV lengths, sizes and configurations within the bounds",
     "Tests never feed malformed remote data to the tree; a crash needs one specific length or flag.",
     ["filetree/filetree.go", "filetree/decrypt.go", "gocrypt/nametransform/names.go", "gocrypt/configfile/config_file.go", "gocrypt/cryptocore/cryptocore.go"],
     [("IV length check", "filetree/filetree.go:rangeInDir"), ("name validation", "gocrypt/nametransform/names.go:DecryptName"), ("file length checks", "filetree/decrypt.go:decryptFile"), ("configuration checks", "gocrypt/configfile/config_file.go:Load")],
     ["filetree.Init", "filetree.FileTree.ReadFile/ReadDir/Stat"],
     "all file contents up to 60 bytes, all IV lengths 0 to 40, all names up to 8 bytes and structured ones up to 2080, symbolic configuration fields; panics and process exits are violations. Messages that break the SFTP protocol itself are parsed by the library and are outside.")

prop("C04", "File names survive encryption and decryption unchanged", ["names", "format"],
     "Every legal file name of 1 to 255 bytes, encrypted for a directory and decrypted with the same directory IV, comes back unchanged, in both base64 variants. Stored names never contain a slash and never exceed 255 bytes when long names are enabled, and names of more than 255 bytes are refused.",
     ["inputs"], "over all names (every byte symbolic) of 26 lengths from 1 to 255 and all IVs, and names of all 255 lengths with 5 symbolic bytes",
     "Tests round-trip a few fixed strings with one length each.",
     ["gocrypt/nametransform/names.go", "gocrypt/nametransform/pad16.go", "gocrypt/nametransform/diriv.go", "gocrypt/nametransform/longnames.go"],
     [("padding", "gocrypt/nametransform/pad16.go"), ("encryption and encoding", "gocrypt/nametransform/names.go:EncryptName"), ("long names", "gocrypt/nametransform/diriv.go:EncryptAndHashName")],
     ["nametransform.NameTransform.EncryptName/DecryptName/EncryptAndHashName"],
     "EME is a self-inverse model in the engine and the real cipher in replays; 26 lengths.")

prop("C05", "Decrypted names are safe single path components", ["names", "paths"],
     "Whatever name the remote lists, it is either refused or decrypts to a non-empty name that contains no NUL byte and no slash and is neither '.' nor '..'. A name whose padding or encoding is not exactly what encryption produces is refused, with nothing returned.",
     ["inputs"], "over all stored names up to 8 bytes, all without line breaks up to 44 bytes, all decrypted values of 1 to 3 (thorough 6) cipher blocks, overlong names up to 130 blocks, and trees with names of up to 33 symbolic bytes",
     "Tests decrypt only names the code itself encrypted.",
     ["gocrypt/nametransform/names.go", "gocrypt/nametransform/pad16.go"],
     [("padding check", "gocrypt/nametransform/pad16.go:unPad16"), ("component check", "gocrypt/nametransform/names.go:DecryptName")],
     ["nametransform.NameTransform.DecryptName", "filetree.FileTree.ReadDir"],
     "decryption is a bijection, so the decrypted bytes are the symbolic variables; up to 48 decrypted bytes.")

prop("C07", "The path cache answers correctly and evicts the least recently used", ["fastcache"],
     "After any history of stores, lookups and clears, a lookup in the path cache returns the value last stored for exactly that path or nothing. The cache holds the most recently used entries up to its capacity: an entry is dropped only when the cache is full and it is the least recently used one.",
     ["histories", "inputs"], "over all histories of 6 (thorough 8) operations at capacities 1 to 4, stored values symbolic, histories of 2500 operations in 4 patterns at capacities to 1000, and all schedules of concurrent users",
     "Tests run five fixed histories of at most four stores at capacity 3.",
     ["filetree/fastcache.go"],
     [("recency list", "filetree/fastcache.go:refreshNode"), ("eviction", "filetree/fastcache.go:Store")],
     ["filetree.FastCache.Find/Store/Clear"],
     "all histories up to the stated length, compared with a reference cache.")

prop("C16", "Stored and plain sizes are exact inverses", ["offsets"],
     "For every plaintext size, the stored size computed from it converts back to the same plaintext size, sizes that no stored file can have never yield more bytes than could be stored, and conversion of block numbers and offsets is consistent in both directions.",
     ["inputs"], "over all 64-bit sizes below 2^62 (symbolic)",
     "Tests check a few sizes; the arithmetic must hold for all of them.",
     ["gocrypt/contentenc/offsets.go"],
     [("size conversion", "gocrypt/contentenc/offsets.go:CipherSizeToPlainSize, PlainSizeToCipherSize")],
     ["contentenc.ContentEnc.CipherSizeToPlainSize/PlainSizeToCipherSize"],
     "no bound on sizes below 2^62; block size fixed to the one in use.")

NA = []

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None
P.sort(key=lambda p: p["id"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")

checks = []
for p in P:
    if not p["groups"]:
        continue
    cmd = "bash check.sh %s %s" % (p["id"], " ".join(p["groups"]))
    checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick " + cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "technique": "symbolic execution of the real Go SSA with SMT (z3, cvc5) deciding every branch and assertion",
                   "level": "model_checking",
                   "level_note": "Bounded: " + p["note"] + " Trusted: go/ssa, the engine in gosym/ (sampled paths are replayed natively), the SMT solvers and the listed models."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA,
     "notes": "Counterexamples are replayed against the compiled code before they are reported, except for schedules, which the engine re-executes concretely. known_findings.json lists repaired and open findings."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

# harness names must be unique among the groups of one property
def unique():
    import collections, glob, re
    man = json.load(open("/verif/MANIFEST.json"))
    for c in man["checks"]:
        n = collections.Counter()
        for g in c["quick_cmd"].split("check.sh ")[1].split()[1:]:
            for f in glob.glob("/verif/harness/%s/*.go" % g):
                for m in re.finditer(r"//verif:prop=(\S+).*\nfunc (H_\w+)", open(f).read()):
                    n[m[2]] += c["property"] in m[1].split(",")
        for k in n:
            assert n[k] < 2, (c["property"], k)
unique()
