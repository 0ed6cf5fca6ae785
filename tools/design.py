#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, one section per property made from the
property table and the comments of the harnesses that decide it, then tools/design_tail.md
with the detection matrix (tools/matrix.txt, output of tools/detect.py) filled in."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
H = {}
for f in sorted(glob.glob(V + "/harness/*/*.go")):
    g = os.path.basename(os.path.dirname(f))
    if g in ("lib", "vrt", "zz", "libtree", "libsftp"):
        continue
    for m in re.finditer(r"((?:^//.*\n)+)^func (H_\w+)\(", open(f).read(), re.M):
        doc = [l[2:].strip() for l in m.group(1).splitlines()]
        d = [l for l in doc if l.startswith("verif:")]
        if not d:
            continue
        ps = re.search(r"prop=([\w,]+)", d[0]).group(1).split(",")
        text = " ".join(l for l in doc if not l.startswith("verif:"))
        for p in ps:
            H.setdefault(p, []).append((g, m.group(2), text, "sched" in d[0].split()))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties", "",
       "Each harness drives the real functions; its comment says what is symbolic or enumerated, the",
       "oracle and the bounds (\"thorough:\" the deeper ones of the thorough command). [S] marks harnesses",
       "in which the schedule is symbolic as well.", ""]
for p in props:
    out += ["### %s %s" % (p["id"], p["title"]), ""]
    if p["id"] not in man:
        out += ["Not claimed, see MANIFEST.json.", ""]
        continue
    gs = man[p["id"]]["quick_cmd"].split("check.sh ")[1].split()[1:]
    out += ["Groups: %s. %s" % (", ".join(gs), p["quantifier"]["text"][0].upper() + p["quantifier"]["text"][1:] + "."),
            "Bounds and models: %s" % man[p["id"]]["level_note"].split("Bounded: ")[1].split(" Trusted:")[0],
            "Beyond the tests: %s" % p["why_tests_cant"], ""]
    for g, n, t, s in H.get(p["id"], []):
        if g in gs:
            out.append("* `%s/%s`%s %s" % (g, n, " [S]" if s else "", t))
    out.append("")
tail = open(V + "/tools/design_tail.md").read()
mx = []
for l in open(V + "/tools/matrix.txt") if os.path.exists(V + "/tools/matrix.txt") else []:
    m = re.match(r"(\w+) \[(C\d+)\] (.*)", l.strip())
    if m:
        try:
            need = json.load(open(V + "/seeded/%s/meta.json" % m.group(1)))
        except OSError:
            continue
        mx.append("| %s | %s | %s | %s |" % (m.group(1), m.group(2), need["what_it_breaks"].split("\n")[0][:140].replace("|", "/"),
                                             "caught" if m.group(2) + " CAUGHT" in m.group(3) else "missed"))
tail = tail.replace("MATRIX", "\n".join(["| bug | property | what it breaks | its check |", "|---|---|---|---|"] + mx))
out.append(tail.rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
