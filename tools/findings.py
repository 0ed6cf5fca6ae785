#!/usr/bin/env python3
"""Writes known_findings.json: repaired findings (by commit subject) and open ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
fixed = [
    ("C07", "fix: keep the back link of the following entry when an entry is refreshed in the path cache", "after refreshing an entry in the middle of the recency list a later eviction corrupted the list: wrong entry evicted, entries lost"),
    ("C02", "fix: treat empty files, listings and names as results in the requester", "an empty file or empty directory was retried three times and reported as an error"),
    ("C10", "fix: treat empty files, listings and names as results in the requester", "a response carrying data together with an error was cached as a success"),
    ("C02", "fix: read empty files as empty and refuse files that end inside the first block", "empty and header-only files could not be read"),
    ("C03", "fix: read empty files as empty and refuse files that end inside the first block", "a file of 19 to 50 bytes made the process panic"),
    ("C03", "fix: refuse directory IVs of the wrong length", "a directory IV that is not 16 bytes long made the process panic"),
    ("C03", "fix: refuse encrypted names that are too long to decrypt", "a listed name of more than 2048 decoded bytes made the process panic"),
    ("C15", "fix: let Stat find regular files", "Stat failed for every regular file"),
    ("C03", "fix: end the lookup of relative paths at the root", "looking up a relative path recursed until the stack overflowed"),
    ("C18", "fix: exit on scrypt parameters that cannot be used instead of panicking", "scrypt key lengths above 32 and costs that are no power of two made the process panic"),
    ("C18", "fix: refuse to unlock a master key of the wrong length", "an empty or all-zero wrapped key was passed through unauthenticated and made the process panic"),
    ("C18", "fix: refuse to open a file system without a password", "an empty password skipped unlocking and made the process panic"),
    ("C08", "fix: keep answers for different directory IVs apart in the requester", "a name decrypted for one directory was returned for the same stored name in another directory"),
    ("C11", "fix: keep workers of the requester alive when a request times out", "a worker blocked forever on the response of a request that had timed out; after as many time-outs as workers nothing was served"),
    ("C21", "fix: refuse to start with an incomplete config", "with no proxy password configured every client with an empty password was let in"),
    ("C22", "fix: refuse to start with an incomplete config", "the proxy started serving with an incomplete configuration"),
    ("C22", "fix: deny subsystem requests without a name instead of panicking", "a subsystem request with a payload of less than four bytes ended the process"),
    ("C22", "fix: do not let a client that hangs in the handshake block others", "a client that did not finish its handshake kept all others from connecting"),
    ("C23", "fix: report private keys that are not in PEM format instead of panicking", "a private key file that is not in PEM format made the process panic"),
    ("C25", "fix: use the AES-SIV backend for file systems that were created with it", "a file system created with AES-SIV opened, but none of its files could be read"),
    ("C02", "fix: use the AES-SIV backend for file systems that were created with it", "a file system created with AES-SIV opened, but none of its files could be read"),
    ("C13", "fix: report that Mkdir is not supported instead of success", "a request to make a directory was answered with success although nothing was made"),
    ("C10", "fix: report a listing or look-up as failed when a name request gets no answer", "a name request that timed out left its entry out of a listing that was reported as complete"),
    ("C15", "fix: report a listing or look-up as failed when a name request gets no answer", "a name request that timed out left its entry out of a listing that was reported as complete"),
    ("C10", "fix: do not take the end of a connection for the end of a file or listing", "when the connection ended during a transfer, what had arrived of a file or listing was returned, and remembered, as the whole"),
    ("C12", "fix: do not keep connections whose sftp session is over", "a connection whose SFTP session had ended while its SSH connection had not was put back into the pool after every failure, so that the server was never reached again"),
    ("C10", "fix: tell requests that meet failed ones the error instead of giving up after retries", "requests for something that fails, made while others asked for it as well, could use up their retries and were reported as not answered, which made whole listings and look-ups fail"),
    ("C08", "fix: tell requests that meet failed ones the error instead of giving up after retries", "concurrent look-ups of files that exist failed now and then, since the name of gocryptfs.diriv cannot be decrypted"),
]
out = []
for p, s, w in fixed:
    h = log[s]
    out.append({"property": p, "status": "fixed", "commit": h, "what": w, "line": "fixed: property=%s %s %s" % (p, h, w)})
# crashes in the SFTP server library (pkg/sftp v1.10.0) on malformed messages of a logged-in
# client: repaired by a newer release of the library, which cannot be had here
open_ = []
for h in ("H_malformed", "H_cut_messages"):
    for m, at, w in [
        ("index out of range [0] with length 0", "github.com/pkg/sftp.recvPacket", "an SFTP message without content from a logged-in client ends the process (pkg/sftp v1.10.0, recvPacket)"),
        ("nil pointer dereference", "(github.com/pkg/sftp.orderedRequest).id", "an SFTP message of an unknown type from a logged-in client ends the process (pkg/sftp v1.10.0, packetManager.controller)"),
        ("interface conversion", "github.com/pkg/sftp.requestFromPacket", "a SETSTAT message without attributes from a logged-in client ends the process (pkg/sftp v1.10.0, requestFromPacket)"),
    ]:
        open_.append({"property": "C22", "status": "open", "harness": h, "match": m, "at": at, "what": w})
out += open_
json.dump(out, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
