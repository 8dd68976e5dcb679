"""Development aid: apply source edits to a scratch copy of the package and run checks on it.
usage: mut.py FILE [ids...]     FILE holds entries:  == id | rules(comma) | expect(catch/quiet) | path  then  <<< old >>> new ==="""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
RUN = os.path.join(os.path.dirname(HERE), "sa", "run.py")


def parse(p):
    out = []
    cur = None
    for blk in re.split(r"^== ", open(p).read(), flags=re.M)[1:]:
        head, body = blk.split("\n", 1)
        mid, rules, expect, path = [x.strip() for x in head.split("|")]
        edits = []
        for m in re.finditer(r"^<<<\n(.*?)^>>>\n(.*?)^===", body, flags=re.M | re.S):
            # a backslash at the end of a block: no newline there
            edits.append(tuple(x[:-2] if x.endswith("\\\n") else x for x in m.groups()))
        out.append((mid, rules.split(","), expect, path, edits))
    return out


def one(m):
    mid, rules, expect, path, edits = m
    d = tempfile.mkdtemp(prefix="mut")
    res = []
    try:
        shutil.copytree("/repo/arcticpy", d + "/arcticpy", ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
        f = d + "/arcticpy/" + path
        s = open(f).read()
        for a, b in edits:
            if s.count(a) != 1:
                return mid, "EDIT-DOES-NOT-APPLY (%d)" % s.count(a), []
            s = s.replace(a, b)
        open(f, "w").write(s)
        env = dict(os.environ, SA_OUT=d + "/out")
        for r in rules:
            p = subprocess.run(["python3-vt", RUN, r, "--repo", d], capture_output=True, text=True, env=env)
            viol = [l for l in p.stdout.split("\n") if l.startswith("  [")]
            res.append((r, p.returncode, viol[:3], p.stdout.strip().split("\n")[-1 if p.returncode == 0 else -2]))
    finally:
        shutil.rmtree(d)
    caught = any(x[1] == 1 for x in res)
    ok = caught == (expect == "catch") and all(x[1] in (0, 1) for x in res)
    return mid, "ok" if ok else ("MISSED" if expect == "catch" else "FALSE-ALARM"), res


def concerned(path, edits, rules):
    """the rules whose last evidence says that they analyse a function that is edited (all of them when unsure)"""
    import json
    src = open("/repo/arcticpy/" + path).read()
    names = set()
    for a, _ in edits:
        pos = src.find(a)
        head = re.findall(r"^\s*(?:cp?def\s+(?:[\w.]+\s+)?|def )(\w+)\s*\(", src[:pos + len(a.split("\n")[0]) + 1], flags=re.M)
        names.add(head[-1] if head else None)
    out = []
    for r in rules:
        try:
            fs = json.load(open(os.environ.get("MUTEV", "/verif/evidence") + "/%s.json" % r))["coverage"]["functions_analysed"]
        except Exception:
            fs = None
        if fs is None or None in names or any(f.split(".")[-1] in names or f.split(".")[-1] == "<module>" and False for f in fs):
            out.append(r)
    return out or rules


if __name__ == "__main__":
    ALL = "--all" in sys.argv      # every rule on every edit that keeps the behaviour
    sys.argv = [a for a in sys.argv if a != "--all"]
    ms = parse(sys.argv[1])
    if ALL:
        rules = sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(RUN), "rules")) if re.match(r"c\d", f))
        ms = [(m[0], concerned(m[3], m[4], rules), m[2], m[3], m[4]) for m in ms if m[2] != "catch"]
    if len(sys.argv) > 2:
        ms = [m for m in ms if any(m[0].startswith(x) for x in sys.argv[2:])]
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for mid, st, res in ex.map(one, ms):
            bad += st != "ok"
            print("%-28s %s" % (mid, st))
            for r, rc, v, last in res:
                if st != "ok" or "-v" in os.environ.get("MUTV", ""):
                    print("     ", r, rc, last[:150])
                    for x in v:
                        print("        ", x[:220])
    print(len(ms), "edits,", bad, "unexpected")
