import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

from . import loader

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VC_OUT", VERIF)
REPLAYS = os.path.join(OUT, "replays")
EVID = os.path.join(OUT, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")


def load_registry(pid):
    sys.path.insert(0, os.path.join(VERIF, "contracts"))
    import glob

    for f in sorted(glob.glob(os.path.join(VERIF, "contracts", pid.lower() + "_*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        return m.REG
    raise SystemExit("no contract module for " + pid)


# --------------------------------------------------------------- workers
def _quiet():
    import warnings

    warnings.filterwarnings("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("PYVC_DEBUG"):
        os.dup2(devnull, 2)


def sym_worker(conn, reg, idx, opts):
    _quiet()
    sys.setrecursionlimit(20000)
    from . import loader, engine, sym

    t0 = time.time()
    out = {"status": "ok", "reason": "", "obls": [], "paths": 0}
    h = reg.items[idx]
    c = None
    try:
        from . import loops

        loops.install(h.opts.get("loops"))
        loader.install_symbolic()
        o = dict(opts)
        o.update(h.opts)
        if opts.get("tier") == "thorough":
            o["timeout_ms"] = 4 * o.get("timeout_ms", 8000)
            o["budget_s"] = max(o.get("budget_s", 0), 700)
        if opts.get("retry"):
            o["timeout_ms"] = 4 * o.get("timeout_ms", 8000)
        c = engine.SymCtx(o)
        c.explore(h.fn, h.name)
    except sym.Unsupported as e:
        out["status"], out["reason"] = "unsupported", str(e) + " @ " + _where()
    except engine.Budget as e:
        out["status"], out["reason"] = "budget", str(e)
    except BaseException as e:
        out["status"], out["reason"] = "error", "".join(traceback.format_exception(e))[-1800:]
    if c is not None:
        for o in c.obligations:
            out["obls"].append([o.name, o.status, o.backend, round(o.secs, 4), o.detail, o.model])
        out["paths"], out["queries"], out["solver_s"] = c.paths, c.queries, round(c.solver_s, 2)
        out["unknown_branches"] = c.unknown_branches
        out["trusted"] = sorted(c.trusted)
        out["loops"] = getattr(c, "loop_log", [])
    out["secs"] = round(time.time() - t0, 2)
    try:
        conn.send(out)
    except Exception as e:
        for o in out["obls"]:
            o[5] = None
        conn.send(out)
    conn.close()


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    r = [f for f in tb if loader.SRC + "/" in f.filename] or list(tb)
    f = r[-1]
    return "%s:%d" % (os.path.basename(f.filename), f.lineno)


def conc_worker(conn, reg, jobs, seed, seconds):
    """jobs: list of (idx, [models], nsamples) -> list of results"""
    _quiet()
    from . import loader, engine

    loader.install_concrete()
    res = []
    for idx, models, n in jobs:
        h = reg.items[idx]
        r = {"idx": idx, "n": 0, "discarded": 0, "checks": 0, "fail": None}
        rng = random.Random("%s-%s" % (seed, h.name))
        t0 = time.time()
        plans = [("model", m) for m in models if m is not None]
        k = 0
        while True:
            if k < len(plans):
                c = engine.ConcCtx(plans[k][1], random.Random("%s-%d" % (seed, k)))
            elif k < len(plans) + n:
                # half of the samples perturb a counterexample model
                if models and models[0] and rng.random() < 0.5:
                    m = rng.choice([m for m in models if m])
                    keep = {a: b for a, b in m.items() if rng.random() < 0.8}
                    c = engine.ConcCtx(keep, rng)
                else:
                    c = engine.ConcCtx(None, rng)
            else:
                break
            k += 1
            if time.time() - t0 > seconds:
                break
            c.hname = h.name
            try:
                h.fn(c)
                r["n"] += 1
                r["checks"] += c.nchecks
            except engine.Discard:
                r["discarded"] += 1
            except engine.Failed as e:
                r["fail"] = {"obligation": e.name, "detail": e.detail, "inputs": c.inputs}
            except (KeyboardInterrupt,):
                raise
            except BaseException as e:
                tb = traceback.extract_tb(sys.exc_info()[2])
                inside = [f for f in tb if loader.SRC + "/" in f.filename]
                if inside:
                    r["fail"] = {
                        "obligation": h.name + ".no-exception",
                        "detail": "%s: %s at %s:%d" % (type(e).__name__, e, inside[-1].filename, inside[-1].lineno),
                        "inputs": c.inputs,
                    }
                else:
                    r["error"] = "".join(traceback.format_exception(e))[-1500:]
                    c.close()
                    break
            finally:
                c.close()
            if r["fail"]:
                break
        r["secs"] = round(time.time() - t0, 2)
        res.append(r)
    conn.send(res)
    conn.close()


def _spawn(target, *a):
    ctx = mp.get_context("fork")
    p, q = ctx.Pipe(False)
    pr = ctx.Process(target=target, args=(q,) + a)
    pr.start()
    q.close()
    return pr, p


def run_parallel(tasks, limit, timeout, deadline=None, hurry=None):
    """tasks: list of (key, target, args) -> {key: result or None}
    deadline: absolute time at which everything still running is given up;
    hurry(key, result) -> True: something is already decided, give the rest 15 s"""
    deadline = deadline or time.time() + 10 ** 6
    pend = list(tasks)
    live = []
    out = {}
    while pend or live:
        while pend and len(live) < limit:
            if time.time() > deadline:
                for k, _t, _a in pend:
                    out[k] = None
                pend = []
                break
            key, target, args = pend.pop(0)
            pr, conn = _spawn(target, *args)
            live.append((key, pr, conn, time.time()))
        time.sleep(0.01)
        nl = []
        for key, pr, conn, t0 in live:
            done = False
            if conn.poll(0):
                try:
                    out[key] = conn.recv()
                except EOFError:
                    out[key] = None
                if hurry is not None and out[key] is not None and hurry(key, out[key]):
                    deadline = min(deadline, time.time() + 15)
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                done = True
            elif not pr.is_alive():
                out[key] = None
                done = True
            elif time.time() - t0 > timeout or time.time() > deadline:
                pr.kill()
                out[key] = None
                done = True
            if not done:
                nl.append((key, pr, conn, t0))
        live = nl
    return out


def known_findings(pid):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    r.append(d)
    return r


def check(pid, tier, seed):
    t0 = time.time()
    reg = load_registry(pid)
    items = [(i, h) for i, h in enumerate(reg.items) if tier == "thorough" or not h.thorough_only]
    cpu = int(os.environ.get("PYVC_JOBS", "8"))
    opts = {"tier": tier, "seed": seed}
    symto = 420 if tier == "quick" else 3000
    mult = 1 if tier == "quick" else 25
    tasks = [(("s", i), sym_worker, (reg, i, opts)) for i, h in items if h.kind != "sample"]
    conc = [(i, [], h.samples * mult) for i, h in items if h.samples]
    nb = 2 if tier == "quick" else 6
    for b in range(nb):
        js = conc[b::nb]
        if js:
            tasks.insert(0, (("c", b), conc_worker, (reg, js, seed, 30 if tier == "quick" else 240)))
    quick = tier == "quick"
    hurry = lambda key, r: key[0] == "c" and any(x["fail"] for x in r)
    res = run_parallel(tasks, cpu, symto, t0 + (300 if quick else 6000), hurry if quick else None)

    findings = []  # (harness, obligation, detail, inputs or None)
    suspects = {}
    report = {}
    conc_res = {}
    errors = []
    for k, v in res.items():
        if k[0] == "c":
            if v is None:
                errors.append("concrete worker died")
                continue
            for r in v:
                conc_res[r["idx"]] = r
                if r.get("error"):
                    errors.append("%s: %s" % (reg.items[r["idx"]].name, r["error"]))
                if r["fail"]:
                    f = r["fail"]
                    findings.append((r["idx"], f["obligation"], f["detail"], f["inputs"], "sampled input on the real code"))
    retry = []
    for i, h in items:
        if h.kind == "sample":
            continue
        v = res.get(("s", i))
        if v is None:
            report[i] = {"status": "budget", "reason": "worker killed", "obls": []}
            continue
        report[i] = v
        if any(o[1] == "unknown" for o in v["obls"]):
            retry.append(i)
    if retry and not (findings and quick):
        o2 = dict(opts)
        o2["retry"] = True
        rr = run_parallel([(i, sym_worker, (reg, i, o2)) for i in retry], max(1, cpu // 2), symto, t0 + (480 if quick else 9000))
        for i in retry:
            if rr.get(i) is not None:
                report[i] = rr[i]
    weak = []
    for i, h in items:
        if h.kind == "sample":
            continue
        v = report[i]
        bad = [o for o in v["obls"] if o[1] != "proved"]
        if bad:
            suspects[i] = bad
        elif v["status"] in ("unsupported", "budget", "error") or not v["obls"]:
            weak.append(i)
            if v["status"] == "error":
                errors.append("%s: %s" % (h.name, v["reason"]))
    already = {f[0] for f in findings}
    jobs = []
    for i, bad in suspects.items():
        if i in already:
            continue
        models = [o[5] for o in bad if o[5]]
        jobs.append((("r", i), conc_worker, (reg, [(i, models, 3000)], seed + 1, 45)))
    # out-of-reach constructs: bounded stand-in = heavier sampling of the same contract
    for i in weak if not (findings and quick) else []:
        jobs.append((("w", i), conc_worker, (reg, [(i, [], 1500)], seed + 2, 40)))
    standin = {}
    if jobs:
        rr = run_parallel(jobs, cpu, 120, t0 + (700 if quick else 12000))
        for (kind, i), v in rr.items():
            r = v[0] if v else None
            if kind == "w":
                standin[i] = r
                if r and r["fail"] and i not in already:
                    f = r["fail"]
                    findings.append((i, f["obligation"], f["detail"], f["inputs"], "sampled input on the real code"))
                continue
            bad = suspects[i]
            if r and r["fail"]:
                f = r["fail"]
                findings.append((i, f["obligation"], f["detail"], f["inputs"], "counterexample replayed on the real code; failed obligation(s): " + ", ".join(sorted({o[0] for o in bad})[:6])))
            elif reg.items[i].opts.get("loops") and (all(o[1] == "unknown" for o in bad) or r is None) or all(o[0].endswith(".no-exception") and o[4].startswith("[type]") for o in bad):
                # a type error on symbolic values that no concrete input shows:
                # a construct out of the verifier's reach, not a verdict
                del suspects[i]
                weak.append(i)
                report[i]["status"], report[i]["reason"] = "unsupported", "%s %s" % (bad[0][0], bad[0][4])
                report[i]["obls"] = [o for o in report[i]["obls"] if o[1] == "proved"]
                standin[i] = r
            else:
                o = bad[0]
                findings.append((i, o[0], "%s by %s; %s; model %s" % (o[1], o[2], o[4], o[5]), None, "verifier output: %d failed obligations: %s" % (len(bad), [(x[0], x[1], x[4]) for x in bad[:8]])))

    kf = known_findings(pid)
    lines, viol = [], []
    os.makedirs(REPLAYS, exist_ok=True)
    for i, ob, det, inp, how in findings:
        h = reg.items[i]
        hit = [k for k in kf if k["harness"] == h.name and k["obligation"] == ob]
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
            continue
        path = os.path.join(REPLAYS, "%s_%s.json" % (pid, h.name))
        with open(path, "w") as fh:
            json.dump(
                {"property": pid, "harness": h.name, "functions": h.functions, "obligation": ob, "detail": det, "inputs": inp,
                 "how": how, "replay_cmd": "/opt/venv/bin/python /verif/check.py %s --replay %s" % (pid, path)}, fh, indent=1, default=str)
        print("  failed obligation %s: %s" % (ob, det))
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if inp is not None else " no-failing-input-found"))
        viol.append({"obligation": ob, "detail": str(det)[:500], "replay": path})
    wall = time.time() - t0
    ev = evidence(pid, tier, seed, reg, items, report, conc_res, weak, suspects, viol, standin, wall)
    for w in weak:
        print("  note: %s out of the verifier's reach (%s: %s); bounded stand-in ran" % (reg.items[w].name, report[w]["status"], " ".join(report[w]["reason"].split())[-300:]))
    for e in errors:
        print("  engine error: " + " | ".join(x.strip() for x in e.strip().splitlines()[-3:])[-400:])
    seen = set()
    for l in lines:
        if l not in seen:
            print(l)
        seen.add(l)
    nob = ev["coverage"]["obligations"]
    print("%s %s: %d obligations, %d discharged; %d bounded obligations discharged; %d harnesses, %.1fs" % (pid, tier, nob, ev["coverage"]["discharged"], ev["coverage"]["bounded_obligations_discharged"], len(items), wall))
    if viol:
        return 1
    ran = sum(r.get("n", 0) for r in list(conc_res.values()) + [x for x in standin.values() if x])
    if nob == 0 and ran == 0:
        print("no obligations were generated and no stand-in ran: the check gives no answer")
        return 3
    return 0


def evidence(pid, tier, seed, reg, items, report, conc_res, weak, suspects, viol, standin, wall):
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = "proof"
    for c in man["checks"]:
        if c["property"] == pid:
            level = c["level"]
    backs, nob, ndis, ss, q, paths = {}, 0, 0, 0.0, 0, 0
    funcs, bounded, hs, trusted, names = set(), [], [], set(), set()
    nb_ob = 0
    for i, h in items:
        v = report.get(i)
        c = conc_res.get(i, {})
        e = {"harness": h.name, "kind": h.kind, "functions": h.functions, "concrete_samples": c.get("n", 0), "concrete_discarded": c.get("discarded", 0)}
        if h.bound:
            e["bound"] = h.bound
        if v:
            e.update(status=v["status"] if not suspects.get(i) else "failed", obligations=len(v["obls"]), paths=v.get("paths", 0), secs=v.get("secs"))
            if v.get("reason"):
                e["reason"] = v["reason"][:400]
            if v.get("loops"):
                e["loops"] = v["loops"]
            if h.kind == "proof" and i not in weak:
                nob += len(v["obls"])
                ndis += sum(1 for o in v["obls"] if o[1] == "proved")
                funcs.update(h.functions)
            else:
                nb_ob += sum(1 for o in v["obls"] if o[1] == "proved")
                bounded.append({"harness": h.name, "functions": h.functions, "bound": h.bound or "sampled inputs of the same contract (construct out of reach: %s)" % v.get("reason", "")[:200]})
            for o in v["obls"]:
                backs[o[2]] = backs.get(o[2], 0) + 1
                names.add(o[0])
            ss += v.get("solver_s", 0) or 0
            q += v.get("queries", 0) or 0
            paths += v.get("paths", 0) or 0
            trusted.update(v.get("trusted", []))
        hs.append(e)
    from . import sym as S

    tb = [
        "pyvc (this VC generator: CPython execution of the current /repo source on symbolic values, %s/pyvc)" % VERIF,
        "z3 5.x, cvc5 1.1.2, exact rational-function normaliser (pyvc/poly.py)",
        "numpy object-array semantics and the shims in pyvc/shims.py",
    ] + sorted(trusted)
    assumptions = [
        "A-REAL: floating point is treated as exact real arithmetic (decimal literals denote themselves); sampled against the real code each run",
        "A-AXIOMS: " + "; ".join(S.AXIOMS),
        "A-FINITE: symbolic numbers are finite (no NaN/inf inputs)",
        "A-RANGE: inputs range over the intervals stated in the contract (e.g. |velocity| <= 20 m/s); angles over several turns",
    ] + list(getattr(reg, "assumptions", []))
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "wall_s": round(wall, 1),
        "violations": len(viol),
        "coverage": {
            "obligations": nob,
            "discharged": ndis,
            "distinct_obligations": len(names),
            "bounded_obligations_discharged": nb_ob,
            "checker_cmd": "/opt/venv/bin/python /verif/check.py %s --tier %s" % (pid, tier),
            "trusted_base": tb,
            "functions_under_contract": sorted(funcs),
            "bounded": bounded,
            "back_ends": backs,
            "solver_s": round(ss, 2),
            "solver_queries": q,
            "paths": paths,
            "harnesses": hs,
            "explanation": "contracts discharged by symbolic execution of the real functions; %d obligations are unbounded proofs, %d more are bounded symbolic stand-ins (list lengths fixed, contents symbolic), and every contract is also sampled on the unmodified code" % (ndis, nb_ob),
        },
        "assumptions": assumptions,
    }
    if viol:
        ev["violation_list"] = viol
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    return ev


def replay(pid, path):
    d = json.load(open(path))
    reg = load_registry(pid)
    idx = [i for i, h in enumerate(reg.items) if h.name == d["harness"]][0]
    if d.get("inputs") is None:
        print("no failing input recorded; obligation %s: %s" % (d["obligation"], d["detail"]))
        return 1
    pr, conn = _spawn(conc_worker, reg, [(idx, [d["inputs"]], 0)], 1, 120)
    r = conn.recv()[0]
    print(json.dumps(r, indent=1, default=str))
    return 1 if r["fail"] else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        sys.exit(replay(a.property, a.replay))
    sys.exit(check(a.property, a.tier, seed))
