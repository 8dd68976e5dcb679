#!/usr/bin/env python3
"""Which checks catch which planted bug: applies each patch to a scratch copy of /repo, runs its own rule (--all: every rule) on it and rewrites the table in DESIGN.md."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(V + "/sa/rules/c*.py"))
ALL = "--all" in sys.argv
rows = []
for d in sorted(glob.glob(V + "/seeded/*/")):
    name = os.path.basename(d[:-1])
    meta = json.load(open(d + "meta.json"))
    w = tempfile.mkdtemp(prefix="seeded_")
    subprocess.run(["cp", "-a", "/repo/.", w], check=True)
    subprocess.run(["git", "-C", w, "apply", d + "patch.diff"], check=True)
    hit = []
    for r in rules if ALL else [meta["property"]]:
        p = subprocess.run(["python3-vt", V + "/sa/run.py", r, "--repo", w], capture_output=True, text=True, env=dict(os.environ, SA_OUT=w + "/out"))
        if p.returncode == 1:
            hit.append(r)
    shutil.rmtree(w)
    rows.append("| %s | %s | %s | %s |" % (name, meta["property"], meta["needs"], ", ".join(hit) or "none"))
    print(rows[-1], file=sys.stderr)
s = open(V + "/DESIGN.md").read()
t = "<!-- table -->\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->"
s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda m: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
