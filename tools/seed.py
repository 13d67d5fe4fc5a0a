"""Builds a planted change: tools/seed.py DEF.py -- DEF.py sets ID, PROP, EDITS = [(file, old, new)], DEMO, NEEDS, BREAKS.

Applies the edits in a scratch copy of /repo, runs the stable tests and the demonstration there and in an unchanged copy, and keeps the
change as /verif/seeded/<ID>/ only if everything a planted change needs is confirmed; then runs the property's check on the copy."""
import json, os, runpy, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PIP_NO_INDEX="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=dict(ENV, **kw))


def main(path, check=True):
    d = runpy.run_path(path)
    work = "/tmp/seedwork/" + d["ID"]
    shutil.rmtree(work, ignore_errors=True)
    copy = work + "/repo"
    shutil.copytree("/repo", copy, symlinks=True)
    demo = work + "/demo"
    os.makedirs(demo)
    with open(demo + "/demo.py", "w") as f:
        f.write("import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n" + d["DEMO"].lstrip("\n"))
    with open(demo + "/demo.sh", "w") as f:
        f.write('#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python -W ignore -B "$d/demo.py"\n')
    r = sh(["sh", demo + "/demo.sh"], copy)
    if r.returncode:
        print(d["ID"], "demo FAILS unchanged", r.stderr[-800:])
        return
    for file, old, new in d["EDITS"]:
        p = os.path.join(copy, file)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print(d["ID"], "edit matches", n, "times:", old[:80])
            return
        open(p, "w").write(s.replace(old, new))
    r = sh(["sh", demo + "/demo.sh"], copy)
    if r.returncode == 0:
        print(d["ID"], "demo PASSES with the change")
        return
    shown = r.stderr.strip().split("\n")[-1][:200]
    test = open("/opt/vp/test.sh").read().replace("/repo", copy)
    open(work + "/test.sh", "w").write(test)
    sh(["bash", work + "/test.sh", work + "/o.json"], copy)
    o, b = json.load(open(work + "/o.json")), json.load(open("/opt/vp/BASELINE.json"))
    missing = set(b["stable"]) - set(o["passed"])
    if missing:
        print(d["ID"], "tests notice:", sorted(missing)[:5])
        return
    out = os.path.join(VERIF, "seeded", d["ID"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    diff = sh(["git", "diff"], copy).stdout
    open(out + "/patch.diff", "w").write(diff)
    shutil.copy(demo + "/demo.py", out)
    shutil.copy(demo + "/demo.sh", out)
    with open(out + "/meta.json", "w") as f:
        json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, f, indent=1)
    print(d["ID"], "kept; demo says:", shown)
    if check:
        r = sh(["python3-vt", "-B", VERIF + "/check.py", d["PROP"], "quick"], VERIF, PYVC_REPO=copy, PYVC_OUT=work + "/out")
        print("  check exit", r.returncode, [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")][:4], r.stderr[-300:] if r.returncode not in (0, 1) else "")
    shutil.rmtree(work, ignore_errors=True)


for p in sys.argv[1:]:
    main(p)
