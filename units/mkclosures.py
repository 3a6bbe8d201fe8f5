#!/usr/bin/env python3
"""closures.txt: what each closure of a function under contract is passed to on the tree the annotations were written for.
usage: mkclosures.py VX REPO  (run by hand; the checks only read the file)"""
import glob, json, os, re, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
vx, repo = sys.argv[1:3]
out = {}
table = os.path.join(here, "closures.txt")
if os.path.exists(table): os.unlink(table)
for t in sorted(glob.glob(os.path.join(here, "c[0-9][0-9].rs"))):
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([vx, repo, t, d + "/u.rs", d + "/u.json"], check=True)
        for f in json.load(open(d + "/u.json"))["functions"]:
            if f["closures"]: out[f["file"] + " :: " + f["item"]] = ",".join(f["closures"])
open(table, "w").write("".join("%s\t%s\n" % kv for kv in sorted(out.items())))
