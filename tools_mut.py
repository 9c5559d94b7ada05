"""Mutation campaign: tools_mut.py FILE [names]; FILE defines M = [(name, props, file, old, new)].
Each mutant is tried in its own scratch copy of /repo/src (never in /repo)."""
import os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor

M = runpy.run_path(sys.argv[1])["M"]
names = sys.argv[2:]


def one(m):
    name, props, f, old, new = m
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        p = d + "/src/" + f
        s = open(p).read()
        if s.count(old) != 1:
            return "%s: text occurs %d times" % (name, s.count(old))
        open(p, "w").write(s.replace(old, new))
        out = []
        for q in props.split():
            e = dict(os.environ, VC_SRC=d + "/src", VC_OUT=d, VERIF_SEED="1")
            try:
                r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", q], capture_output=True, text=True, env=e, timeout=900)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                out.append("%s rc=%d %s" % (q, r.returncode, (os.path.basename(v[0].split("replay=")[1]) if v else "; ".join(l for l in r.stdout.splitlines() if "note:" in l)[:200])))
            except subprocess.TimeoutExpired:
                out.append(q + " TIMEOUT")
        ok = any("rc=1" in o for o in out)
        return "%-4s %s: %s" % ("ok" if ok else "MISS", name, " | ".join(out))
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = [m for m in M if not names or m[0] in names]
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(one, todo):
        print(r, flush=True)
