"""Runs the configurations of a property in parallel, replays counterexamples on the real code,
writes evidence."""
import argparse
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECK = os.path.join(HERE, "check.py")
ASSUME = [
    "floating point arithmetic is treated as exact real arithmetic (rounding, overflow and underflow are outside the claim); "
    "exp, log, sqrt and pi are exact functions with the axioms listed in DESIGN.md",
    "numpy, scipy and the standard library behave as modelled in sx/npx.py, sx/env.py and sx/cfg.py (models are cross-checked by the concrete runs of this check)",
    "bdld.helpers is an empty git submodule here; it is replaced by sx/standin.py",
    "a draw of the random generator can be any value of its documented range",
]


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


# ------------------------------------------------------------------ workers
class Prof:
    def __init__(self):
        self.seen = set()

    def __call__(self, frame, event, arg):
        if event == "call":
            c = frame.f_code
            if "/bdld/" in c.co_filename:
                self.seen.add((c.co_filename, c.co_qualname))


def symbolic(prop, cfgname, tier, out):
    """explore one configuration; result as JSON in out"""
    from . import harness, explore, env as envm

    harness.load_all()
    cfgname, _, sh = cfgname.partition("@")
    shard = tuple(int(x) for x in sh.split("/")) if sh else None
    cfg = harness.REG[prop][cfgname]
    ex = explore.Explorer(
        max_paths=cfg.max_paths * (4 if tier == "thorough" else 1),
        max_time=cfg.max_time or (2400.0 if tier == "thorough" else 420.0),
        query_timeout_ms=cfg.query_ms,
    )
    prof = Prof()
    n = [0]

    def fn(ctx):
        n[0] += 1
        if n[0] <= 40 or n[0] % 50 == 0:
            sys.setprofile(prof)
        try:
            e = envm.SymEnv(ctx, tier)
            cfg.fn(e)
        finally:
            sys.setprofile(None)

    cands = []

    def part():
        """what is known so far, in case the time runs out"""
        d = {"config": cfgname, "stats": ex.stats.asdict(), "candidates": cands, "nfail": ex.nfail, "incomplete": "stopped at the time limit", "wall_s": round(time.time() - t0, 3)}
        with open(out + ".new", "w") as f:
            json.dump(d, f)
        os.replace(out + ".new", out + ".part")

    def on_failure(f):
        key = (f.msg.split(":")[0], f.status)
        same = [c for c in cands if (c["msg"].split(":")[0], c["status"]) == key]
        nf = ex.nfail = getattr(ex, "nfail", 0) + 1
        if len(same) < 3:
            cands.append({"msg": f.msg, "status": f.status, "values": f.values, "choices": f.choices, "detail": f.detail})
            part()
        el = time.time() - t0
        sure = any(c["status"] in ("sat", "definite", "exception") for c in cands)
        if sure and (nf >= 60 or (nf >= 10 and el > 90)) or nf >= 30 and el > 240:
            ex.stop = True
            ex.incomplete = "stopped after %d candidate violations" % nf

    def on_reset():
        del cands[:]
        ex.nfail = 0

    ex.on_failure = on_failure
    ex.on_reset = on_reset
    t0 = time.time()
    err = None
    try:
        ex.run(fn, shard)
    except BaseException as e:  # bug in the engine itself
        err = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    import random

    r = random.Random(seed())
    wit = list(ex.witness_paths)
    r.shuffle(wit)
    d = {
        "config": cfgname, "bounds": cfg.bounds, "stats": ex.stats.asdict(), "candidates": cands, "nfail": getattr(ex, "nfail", 0),
        "engine_errors": [list(x) for x in ex.engine_errors[:5]], "n_engine_errors": len(ex.engine_errors),
        "incomplete": ex.incomplete, "crash": err, "wall_s": round(time.time() - t0, 3),
        "functions": sorted("%s:%s" % (f.split("/bdld/", 1)[1], q) for f, q in prof.seen),
        "witness": wit[:12], "sample": ex.sample,
    }
    json.dump(d, open(out, "w"))


def one_conc(cfg, values, choices, sd, tier, script=True, corner=False):
    """-> (status, message, used values, used choices)   status: ok / unmet / fail"""
    from . import env as envm
    from .core import CheckFailed

    e = envm.ConcEnv(values, choices, sd, script, tier)
    e.corner = corner
    with e:
        try:
            (cfg.conc or cfg.fn)(e)
            st = ("ok", "")
        except envm.Unmet as x:
            st = ("unmet", str(x))
        except CheckFailed as x:
            st = ("fail", str(x))
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            inrepo = [t for t in tb if "/bdld/" in t.filename]
            if isinstance(x, (AttributeError, TypeError)) and "RNG" in str(x):
                inrepo = []  # the scripted generator lacks something the code uses
            st = ("fail" if inrepo else "error", "uncaught %s: %s%s" % (
                type(x).__name__, x, " at %s:%s" % (os.path.basename(inrepo[-1].filename), inrepo[-1].lineno) if inrepo else
                " " + " ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-4:])))
        except SystemExit as x:
            st = ("fail", "unexpected exit %s" % x)
    return st + (e.used, e.used_choices, e.nchecks)


def concrete(prop, cfgname, tier, inp, out):
    from . import harness

    harness.load_all()
    cfg = harness.REG[prop][cfgname]
    jobs = json.load(open(inp))
    res = []
    t0 = time.time()
    found = {}
    for j in jobs["jobs"]:
        if found.get(j.get("group"), 0) >= 1:
            continue
        if time.time() - t0 > jobs.get("limit", 120):
            break
        st, msg, used, uc, nc = one_conc(cfg, j["values"], j["choices"], j["seed"], tier, j.get("script", True), j.get("kind") == "corner")
        if st == "fail" and j.get("kind") == "corner" and not msg.startswith(j["match"]):
            continue  # ties are sensitive to rounding: only the predicted failure counts
        res.append({"status": st, "msg": msg, "values": used, "choices": uc, "group": j.get("group"), "checks": nc, "seed": j["seed"],
                    "kind": j.get("kind")})
        if st == "fail":
            found[j.get("group")] = found.get(j.get("group"), 0) + 1
        json.dump(res, open(out + ".part", "w"))
    json.dump(res, open(out, "w"))


# ------------------------------------------------------------------ parent
def spawn(args, errfile):
    with open(errfile, "wb") as err:  # a file: a full pipe would block the worker
        return subprocess.Popen(
            [sys.executable, CHECK] + args, cwd=HERE, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True,
            env=dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0"),
        )


def tail(path, n=2000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - n))
            return f.read().decode(errors="replace")
    except OSError:
        return ""


def run_pool(tasks, nproc, deadline):
    """tasks: list of (key, args, outfile); -> {key: result or None}"""
    res, running, todo = {}, [], list(tasks)
    while todo or running:
        while todo and len(running) < nproc:
            k, a, o = todo.pop(0)
            running.append((k, o, spawn(a, o + ".err"), time.time()))
        time.sleep(0.05)
        for item in running[:]:
            k, o, p, t0 = item
            if p.poll() is None and time.time() > deadline:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            if p.poll() is not None:
                running.remove(item)
                errtxt = tail(o + ".err")
                src = o if os.path.exists(o) else (o + ".part" if os.path.exists(o + ".part") else None)
                try:
                    res[k] = json.load(open(src)) if src else None
                except Exception:
                    res[k] = None
                if res[k] is None:
                    res[k] = {"crash": errtxt or "killed (time limit)"}
    return res


def merge(rs):
    """results of the shards of one configuration"""
    if len(rs) == 1:
        return rs[0]
    out = {"stats": {}, "candidates": [], "nfail": 0, "engine_errors": [], "incomplete": None, "crash": None, "wall_s": 0, "functions": [], "witness": [], "sample": None}
    for r in rs:
        for x, y in r.get("stats", {}).items():
            out["stats"][x] = out["stats"].get(x, 0) + y
        for c in r.get("candidates", []):
            same = [d for d in out["candidates"] if d["msg"].split(":")[0] == c["msg"].split(":")[0]]
            if len(same) < 3:
                out["candidates"].append(c)
        out["nfail"] += r.get("nfail", 0)
        out["engine_errors"] += r.get("engine_errors", [])
        out["incomplete"] = out["incomplete"] or r.get("incomplete")
        out["crash"] = out["crash"] or r.get("crash")
        out["wall_s"] = max(out["wall_s"], r.get("wall_s") or 0)
        out["functions"] = sorted(set(out["functions"]) | set(r.get("functions", [])))
        out["witness"] += r.get("witness", [])[: max(2, 12 // len(rs))]
        out["sample"] = out["sample"] or r.get("sample")
    return out


def mkjobs(cands, witness, sd, trials, tier):
    jobs = []
    s = sd * 1000003
    for g, c in enumerate(cands):
        s += 1
        jobs.append({"values": c["values"], "choices": c["choices"], "seed": s, "group": g, "kind": "model"})
        for _ in range(12):
            s += 1
            jobs.append({"values": {}, "choices": c["choices"], "seed": s, "group": g, "kind": "same choices"})
        for _ in range(16):
            s += 1
            jobs.append({"values": {}, "choices": c["choices"], "seed": s, "group": g, "kind": "corner", "match": c["msg"].split(":")[0]})
    for w in witness:
        for _ in range(2):
            s += 1
            jobs.append({"values": {}, "choices": w, "seed": s, "group": "validate", "kind": "witness path"})
    n = trials if trials is not None else (40 if tier == "quick" else 200)
    if cands:
        n *= 4
    for _ in range(n):
        s += 1
        jobs.append({"values": {}, "choices": {}, "seed": s, "group": "validate", "kind": "random"})
    return jobs


def known_findings():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--config")
    ap.add_argument("--replay")
    ap.add_argument("--worker", nargs=3)
    ap.add_argument("--conc", nargs=4)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-j", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    a = ap.parse_args(argv)
    if a.worker:
        symbolic(a.worker[0], a.worker[1], a.tier, a.worker[2])
        return 0
    if a.conc:
        concrete(a.conc[0], a.conc[1], a.tier, a.conc[2], a.conc[3])
        return 0
    from . import harness

    harness.load_all()
    if a.list:
        for p in sorted(harness.REG):
            print(p, [c.name for c in harness.REG[p].values()])
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        cfg = harness.REG[r["property"]][r["config"]]
        st = one_conc(cfg, r["values"], r["choices"], r.get("seed", 0), r.get("tier", "quick"))
        print(st[0], st[1])
        return 1 if st[0] == "fail" else 0
    return check(a, harness)


def check(a, harness):
    t0 = time.time()
    prop, tier = a.prop, a.tier
    cfgs = harness.configs(prop, tier)
    if a.config:
        cfgs = [c for c in cfgs if c.name.startswith(a.config)]
    if not cfgs:
        print("no configuration for", prop)
        return 2
    # a limit for everything, so that the check always answers
    budget = 5400.0 if tier == "thorough" else 780.0
    deadline_sym = t0 + budget * 0.72
    tmp = tempfile.mkdtemp(prefix="sxchk_")
    try:
        order = sorted(cfgs, key=lambda c: -c.weight)
        tasks = []
        for i, c in enumerate(order):
            for k in range(c.shards):
                o = os.path.join(tmp, "s_%d_%d.json" % (i, k))
                tasks.append(((c.name, k), ["--tier", tier, "--worker", prop, c.name + ("@%d/%d" % (k, c.shards) if c.shards > 1 else ""), o], o))
        parts = run_pool(tasks, a.j, deadline_sym)
        sym = {c.name: merge([parts[c.name, k] for k in range(c.shards)]) for c in order}
        tasks = []
        for i, c in enumerate(order):
            r = sym[c.name]
            jf, of = os.path.join(tmp, "c_%d.in" % i), os.path.join(tmp, "c_%d.json" % i)
            jobs = mkjobs(r.get("candidates", []), r.get("witness", []), seed(), c.trials, tier)
            json.dump({"jobs": jobs, "limit": 100 if tier == "quick" else 600}, open(jf, "w"))
            tasks.append((c.name, ["--tier", tier, "--conc", prop, c.name, jf, of], of))
        conc = run_pool(tasks, a.j, t0 + budget)
        return report(a, prop, tier, order, sym, conc, t0, harness)
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def report(a, prop, tier, cfgs, sym, conc, t0, harness):
    known = [k for k in known_findings().get("findings", []) if k["property"] == prop]
    viol, undecided, lines = [], [], []
    tot = {}
    funcs = set()
    samples = []
    per = []
    nval = 0
    nvac = []
    for c in cfgs:
        s, k = sym[c.name], conc[c.name]
        if not isinstance(k, list):
            undecided.append("%s: concrete runs failed: %s" % (c.name, str(k.get("crash"))[-400:]))
            k = []
        st = s.get("stats", {})
        for x, y in st.items():
            tot[x] = tot.get(x, 0) + y
        funcs |= set(s.get("functions", []))
        ok = [r for r in k if r["status"] == "ok"]
        nval += len(ok)
        fails = [r for r in k if r["status"] == "fail"]
        for r in k:
            if r["status"] == "error":
                undecided.append("%s: harness error in concrete run: %s" % (c.name, r["msg"]))
                break
        confirmed = set()
        for r in fails:
            confirmed.add(r["group"])
            src = s.get("candidates", [])
            sm = src[r["group"]]["msg"] if isinstance(r["group"], int) else None
            viol.append((c, r, sm))
        for g, cand in enumerate(s.get("candidates", [])):
            if g not in confirmed and not ("validate" in confirmed):
                undecided.append("%s: %s (%s) not reproduced on the real code%s" % (c.name, cand["msg"], cand["status"], " " + cand["detail"] if a.v else ""))
        if s.get("crash"):
            undecided.append("%s: %s" % (c.name, s["crash"][-1500 if a.v else -300:]))
        for m, tb in s.get("engine_errors", [])[:2]:
            if a.v:
                undecided.append("%s: engine: %s" % (c.name, tb[-1500:]))
            else:
                undecided.append("%s: engine: %s" % (c.name, m))
        if s.get("incomplete"):
            undecided.append("%s: %s" % (c.name, s["incomplete"]))
        if st.get("completed", 0) == 0 and not s.get("candidates") and not s.get("crash"):
            undecided.append("%s: no path reached the end (vacuous)" % c.name)
        if not ok and not fails:
            undecided.append("%s: no concrete run met the assumptions" % c.name)
        if s.get("sample"):
            samples.append({"config": c.name, **s["sample"]})
        per.append({"config": c.name, "bounds": c.bounds, "paths": st.get("completed", 0), "aborted": st.get("aborted", 0),
                    "assertions": st.get("assertions", 0), "solver_queries": st.get("queries", 0),
                    "solver_s": round(st.get("solver_s", 0), 2), "wall_s": s.get("wall_s"), "concrete_ok": len(ok)})
        if a.v:
            print("%-34s paths %6d (+%d) assert %7d (nf %d) queries %6d solver %6.1fs wall %6.1fs conc ok %d fail %d unmet %d cand %d" % (
                c.name, st.get("completed", 0), st.get("aborted", 0), st.get("assertions", 0), st.get("normalised", 0), st.get("queries", 0), st.get("solver_s", 0),
                s.get("wall_s") or 0, len(ok), len(fails), len([r for r in k if r["status"] == "unmet"]), s.get("nfail", 0)))
    # classify violations
    new = []
    shown = set()
    for c, r, sm in viol:
        text = r["msg"]
        kf = next((x for x in known if x["config"] == c.name and x["match"] in text), None)
        if kf:
            shown.add(kf["id"])
        else:
            new.append((c, r, sm))
    for kf in known:
        if kf["id"] in shown:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    out = 0
    repdir = os.path.join(HERE, "replays")
    seen = set()
    for c, r, sm in new:
        key = (c.name, r["msg"].split(":")[0])
        if key in seen or len(seen) >= 6:
            continue
        seen.add(key)
        os.makedirs(repdir, exist_ok=True)
        body = {"property": prop, "config": c.name, "tier": tier, "message": r["msg"], "solver_message": sm,
                "found_by": r["kind"], "values": r["values"], "choices": r["choices"], "seed": r["seed"]}
        h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(repdir, "%s-%s.json" % (prop, h))
        json.dump(body, open(path, "w"), indent=1)
        print("%s: %s" % (c.name, r["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        out = 1
    us = set()
    for u in undecided:
        k = u.split(": ", 1)[-1][:60]
        if k not in us and len(us) < 8:
            us.add(k)
            print("UNDECIDED:", u)
    nv = len(new)
    ev = {
        "property": prop, "tier": tier, "seed": seed(), "level": "model_checking",
        "coverage": {
            "states": tot.get("completed", 0), "transitions": tot.get("decisions", 0),
            "traces_validated_against_impl": nval,
            "exhaustive": not undecided,
            "explanation": "states = execution paths of the real code explored to the end with symbolic inputs; transitions = branch and schedule decisions with more than one feasible outcome; traces = runs of the unmodified code in CPython with concrete inputs that passed the same assertions",
            "infeasible_or_assumed_away_paths": tot.get("aborted", 0),
            "assertions": tot.get("assertions", 0),
            "assertions_closed_by_normal_form": tot.get("normalised", 0),
            "solver_queries": tot.get("queries", 0), "solver_unsat": tot.get("unsat", 0), "solver_sat": tot.get("sat", 0),
            "solver_unknown": tot.get("unknown", 0), "query_cache_hits": tot.get("cache_hits", 0),
            "solver_s": round(tot.get("solver_s", 0), 2),
            "functions_encoded": sorted(funcs),
            "configurations": per,
            "undecided": undecided[:40],
            "samples": samples[:12],
        },
        "assumptions": ASSUME + harness.META.get(prop, {}).get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nv,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.config and not os.environ.get("SX_NOEVID"):
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d configurations, %d paths, %d assertions, %d solver queries (%.1f s), %d concrete runs, %d violations, %d undecided, %.1f s" % (
        prop, tier, len(cfgs), tot.get("completed", 0), tot.get("assertions", 0), tot.get("queries", 0), tot.get("solver_s", 0), nval, nv,
        len(undecided), time.time() - t0))
    if out:
        return 1
    if undecided and os.environ.get("SX_STRICT"):
        return 2
    # nothing violated: if not a single configuration could be decided there is no answer
    if tot.get("completed", 0) == 0:
        return 2
    return 0
