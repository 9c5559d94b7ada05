"""Confirm and store a planted bug.
usage: tools_seed.py ID PROPERTY FILE  (stdin: JSON {old,new,needs,breaks,demo}) """
import json, os, shutil, subprocess, sys
WT = "/tmp/seedwt"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(sid, pid, edits, needs, breaks, demo, tests=True):
    """edits: list of (file, old, new)"""
    shutil.rmtree(WT, ignore_errors=True)
    sh("cp -a /repo %s" % WT)
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=pid, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, cwd=WT)
    if r.returncode:
        print(sid, "DEMO FAILS CLEAN", r.stdout[-500:], r.stderr[-1500:]); return False
    for f, old, new in edits:
        p = WT + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(sid, "old text occurs", s.count(old), "times in", f); return False
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=WT).stdout)
    r = sh("bash %s/demo.sh" % d, cwd=WT)
    if not r.returncode:
        print(sid, "DEMO PASSES WITH BUG"); return False
    print(sid, "demo with bug:", (r.stdout + r.stderr).strip().splitlines()[-1][:150])
    if tests:
        mods = sh("cd %s && git diff --name-only" % WT).stdout
        r = sh("cd %s && PYTHONPATH=src /opt/venv/bin/python -m pytest -q -x src 2>&1 | tail -3" % WT)
        print("   tests:", r.stdout.strip().splitlines()[-1])
    shutil.rmtree(WT, ignore_errors=True)
    return True
