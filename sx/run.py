"""
Decide one property.

usage: python -m sx.run PROP [--tier quick|thorough] [--only SCENARIO] [--serial]

1. load dascore from /repo with instrumentation (fresh parse of every module)
2. explore every scenario symbolically (worker processes)
3. replay counterexamples and path witnesses on the unmodified package
4. write evidence, print VIOLATION lines, exit 0 or 1
"""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MOD = None
TIER = "quick"
DEADLINE = None


def _explore(task):
    """Worker: explore one scenario (possibly with some inputs pinned)."""
    name, pins, deadline, query_ms, choose_limit, max_wit = task
    import warnings

    warnings.simplefilter("ignore")
    from . import engine as E, harness as H, instrument, sym

    func, opts = MOD.SCENARIOS[name]
    e = E.Engine(query_ms=query_ms, deadline=deadline, choose_limit=choose_limit)
    ctx = H.SymCtx(e, name)
    ctx.pins = pins
    sp = opts.get("split") or {}
    ctx.pinned = sp(TIER) if callable(sp) else sp
    ctx.tier = TIER
    wit = []
    errs = Counter()
    n_end = 0

    def body():
        ctx.reset()
        sym._TOKENS.clear()
        try:
            func(ctx)
        except Exception as ex:  # noqa
            errs[f"{type(ex).__name__}: {str(ex)[:160]}"] += 1
            ctx.unexpected(ex)
            raise E.PathAbort

    def end():
        nonlocal n_end
        n_end += 1
        if len(wit) < max_wit:
            m = e.path_model()
            if m is not None:
                wit.append(ctx._inputs(m))

    t = time.time()
    crash = None
    complete = False
    try:
        complete = e.explore(body, end)
    except BaseException as ex:  # engine failure: report, never guess
        crash = "".join(traceback.format_exception(ex))[-2000:]
    return {
        "scenario": name, "pins": pins, "complete": bool(complete and not ctx.unknown and not crash),
        "stats": dict(e.stats), "incomplete": dict(e.incomplete), "solver_s": e.solver_s,
        "sites": dict(e.sites.most_common(12)), "obligations": ctx.obligations, "discharged": ctx.discharged,
        "unknown": ctx.unknown, "violations": [vars(v) for v in ctx.violations[:400]],
        "n_violations": len(ctx.violations), "witnesses": wit, "errors": dict(errs), "crash": crash,
        "covers": dict(ctx.covers), "wall": time.time() - t, "functions": instrument.functions_seen(),
        "decisions": e.stats["forks"], "pid": os.getpid(),
    }


def _split(opts, tier):
    """Expand the split option into lists of pinned inputs."""
    sp = opts.get("split") or {}
    if callable(sp):
        sp = sp(tier)
    combos = [{}]
    for k, n in sp.items():
        combos = [dict(c, **{k: i}) for c in combos for i in range(n)]
    return combos


def replay(prop, tier, cases, timeout=600):
    """Run cases [(scenario, inputs)] on the unmodified package; parallel batches."""
    if not cases:
        return []
    nproc = min(8, max(1, len(cases) // 20 + 1))
    procs = []
    out = [None] * len(cases)
    with tempfile.TemporaryDirectory(prefix="sxreplay") as td:
        for w in range(nproc):
            idx = list(range(w, len(cases), nproc))
            f = os.path.join(td, f"in{w}.json")
            o = os.path.join(td, f"out{w}.json")
            json.dump({"property": prop, "tier": tier, "cases": [cases[i] for i in idx]}, open(f, "w"))
            p = subprocess.Popen([PY, "-W", "ignore", "-m", "sx.replay", f, o], cwd=ROOT, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            procs.append((p, idx, o))
        t_end = time.time() + timeout
        for p, idx, o in procs:
            try:
                _, err = p.communicate(timeout=max(1, t_end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                err = b"timeout"
            res = []
            if os.path.exists(o):
                res = [json.loads(l) for l in open(o) if l.strip()]
            for i, r in zip(idx, res):
                out[i] = r
            for i in idx[len(res):]:
                out[i] = {"status": "error", "detail": f"replay process ended: {err[-300:]!r}"}
    return out


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def match_known(known, prop, v, rep):
    for k in known:
        if k.get("status") != "known" or k["property"] != prop or k["scenario"] != v["scenario"]:
            continue
        if k.get("message") and k["message"] not in rep.get("detail", "") and k["message"] not in v["msg"]:
            continue
        cond = k.get("when")
        try:
            if cond and not eval(cond, {"__builtins__": {"abs": abs, "min": min, "max": max}}, dict(v["inputs"])):
                continue
        except Exception:
            continue
        return k
    return None


def main(argv=None):
    global MOD, TIER
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args(argv)
    prop, TIER = a.prop, a.tier
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = a.budget or (480 if TIER == "quick" else 780)
    from . import instrument

    instrument.install(instrument.TREE)
    load_err = None
    try:
        import dascore  # noqa

        instrument.lazy_models()
        MOD = importlib.import_module(f"checks.{prop.lower()}")
    except Exception:
        load_err = traceback.format_exc()
        print(load_err, file=sys.stderr)
    deadline = t0 + budget
    opts0 = getattr(MOD, "OPTIONS", {}) if MOD else {}
    query_ms = opts0.get("query_ms", 6000)
    choose_limit = opts0.get("choose_limit", 48)
    max_wit = opts0.get("witnesses", {}).get(TIER, 60 if TIER == "quick" else 400)
    tasks = []
    for name, (func, opts) in (MOD.SCENARIOS if MOD else {}).items():
        if a.only and a.only not in name:
            continue
        if TIER == "quick" and opts.get("thorough_only"):
            continue
        for pins in _split(opts, TIER):
            tasks.append((name, pins, deadline, query_ms, choose_limit, max_wit))
    results = []
    if tasks:
        if a.serial:
            results = [_explore(t) for t in tasks]
        else:
            with mp.get_context("fork").Pool(min(8, len(tasks)), maxtasksperchild=4) as pool:
                pend = [pool.apply_async(_explore, (t,)) for t in tasks]
                for t, r in zip(tasks, pend):
                    try:
                        results.append(r.get(timeout=max(5, deadline + 60 - time.time())))
                    except Exception as ex:
                        results.append({"scenario": t[0], "pins": t[1], "complete": False, "stats": {}, "incomplete": {"worker": 1},
                                        "solver_s": 0, "sites": {}, "obligations": 0, "discharged": 0, "unknown": 0, "violations": [],
                                        "n_violations": 0, "witnesses": [], "errors": {}, "crash": repr(ex), "covers": {}, "wall": 0,
                                        "functions": [], "decisions": 0})
                pool.terminate()
    # ---- replay candidates
    groups = {}
    for r in results:
        for v in r["violations"]:
            groups.setdefault((v["scenario"], v["msg"][:80]), []).append(v)
    known = load_known()
    cand = []
    for key, vs in groups.items():
        step = max(1, len(vs) // 12)
        cand.extend(vs[::step][:14])
    cases = [(v["scenario"], v["inputs"]) for v in cand]
    wit_cases = [(r["scenario"], w) for r in results for w in r["witnesses"]]
    t_rep = time.time()
    rep = replay(prop, TIER, cases + wit_cases, timeout=240)
    rep_c, rep_w = rep[: len(cases)], rep[len(cases):]
    confirmed, known_hit, spurious = [], {}, Counter()
    for v, r in zip(cand, rep_c):
        if r["status"] == "violation":
            k = match_known(known, prop, v, r)
            if k:
                known_hit[k["id"]] = k
            else:
                confirmed.append((v, r))
        else:
            spurious[f"{v['scenario']}: {v['msg'][:100]} -> {r['status']}: {r.get('detail', '')[:100]}"] += 1
    wit_ok = 0
    for (sc, inp), r in zip(wit_cases, rep_w):
        if r["status"] == "ok":
            wit_ok += 1
        elif r["status"] == "violation":
            v = {"scenario": sc, "inputs": inp, "msg": "path witness: " + r["detail"][:200]}
            k = match_known(known, prop, v, r)
            if k:
                known_hit[k["id"]] = k
            else:
                confirmed.append((v, r))
    # ---- when the instrumented package cannot be loaded, try plain replay inputs
    # ---- evidence
    tot = Counter()
    for r in results:
        for k, n in r["stats"].items():
            tot[k] += n
    covers = Counter()
    for r in results:
        for k, n in r["covers"].items():
            covers[k] += n
    declared = set(getattr(MOD, "COVERS", []) if MOD else [])
    missing = sorted(c for c in declared if not covers.get(c))
    funcs = sorted({f for r in results for f in r["functions"]})
    incomplete = Counter()
    errors = Counter()
    sites = Counter()
    for r in results:
        for k, n in r["incomplete"].items():
            incomplete[f"{r['scenario']}: {k}"] += n
        for k, n in r["errors"].items():
            errors[f"{r['scenario']}: {k}"] += n
        for k, n in r["sites"].items():
            sites[k] += n
        if r["crash"]:
            errors[f"{r['scenario']} crash: {r['crash'][-600:]}"] += 1
    samples = []
    for r in results:
        for w in r["witnesses"][:1]:
            samples.append({"scenario": r["scenario"], "inputs": w})
    complete = bool(results) and all(r["complete"] for r in results) and not spurious and not load_err
    ev = {
        "property": prop, "tier": TIER, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot["paths"]), "transitions": int(tot["forks"]),
            "traces_validated_against_impl": wit_ok,
            "samples": samples[:12],
            "exhaustive": complete,
            "explanation": "states = execution paths of the real code completed symbolically (each covers every input satisfying its path condition); "
                           "transitions = two-way forks decided by z3; traces = path witnesses re-run on the unmodified package with the same assertions",
            "scenarios": {r["scenario"] + (str(r["pins"]) if r["pins"] else ""): {
                "paths": r["stats"].get("paths", 0), "obligations": r["obligations"], "discharged": r["discharged"],
                "complete": r["complete"], "wall_s": round(r["wall"], 2)} for r in results},
            "obligations": sum(r["obligations"] for r in results), "discharged": sum(r["discharged"] for r in results),
            "undecided": sum(r["unknown"] for r in results),
            "solver_queries": int(tot["queries"]), "solver_sat": int(tot["q_sat"]), "solver_unsat": int(tot["q_unsat"]),
            "solver_unknown": int(tot["q_unknown"]), "solver_s": round(sum(r["solver_s"] for r in results), 2),
            "concretisations": dict(sites.most_common(15)), "incomplete": dict(incomplete), "engine_errors": dict(errors),
            "spurious_counterexamples": dict(spurious), "covers": dict(covers), "covers_missing": missing,
            "functions_encoded": funcs, "n_functions_encoded": len(funcs),
            "bounds": getattr(MOD, "BOUNDS", "") if MOD else "",
        },
        "assumptions": list(getattr(MOD, "ASSUMPTIONS", [])) if MOD else [],
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    if load_err:
        ev["coverage"]["load_error"] = load_err[-3000:]
    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop} tier={TIER} scenarios={len(results)} paths={tot['paths']} forks={tot['forks']} queries={tot['queries']} "
          f"obligations={ev['coverage']['obligations']} discharged={ev['coverage']['discharged']} undecided={ev['coverage']['undecided']} "
          f"solver_s={ev['coverage']['solver_s']} witnesses_replayed={wit_ok}/{len(wit_cases)} exhaustive_within_bounds={complete} wall={ev['wall_s']}")
    if a.v:
        agg = {}
        for r in results:
            g = agg.setdefault(r["scenario"], Counter())
            g["tasks"] += 1
            g["complete"] += r["complete"]
            g["paths"] += r["stats"].get("paths", 0)
            g["aborted"] += r["stats"].get("aborted", 0)
            g["obl"] += r["obligations"]
            g["disch"] += r["discharged"]
            g["wall"] += r["wall"]
            g["solver"] += r["solver_s"]
            g["max_wall"] = max(g["max_wall"], r["wall"])
        for k, g in agg.items():
            print("  ", k, {i: round(j, 1) for i, j in g.items()})
        for k, n in sites.most_common(15):
            print("   site", n, k)
    for k, n in incomplete.items():
        print("   incomplete", n, k)
    for k, n in list(errors.items())[:10]:
        print("   engine-error", n, k)
    for k, n in list(spurious.items())[:10]:
        print("   spurious", n, k)
    if missing:
        print("   covers missing:", missing)
    if a.v:
        for key, vs in list(groups.items())[:6]:
            if vs[0].get("detail"):
                print("   detail", key, vs[0]["detail"][-1800:])
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if confirmed:
        seen = set()
        for v, r in confirmed:
            key = (v["scenario"], r["detail"][:60])
            if key in seen or len(seen) >= 6:
                continue
            seen.add(key)
            path = os.path.join(ROOT, "evidence", "replays", f"{prop}-{len(seen)}.json")
            json.dump({"property": prop, "tier": TIER, "cases": [(v["scenario"], v["inputs"])], "message": v["msg"], "observed": r["detail"],
                       "how": f"cd {ROOT} && {PY} -m sx.replay {path} /dev/stdout"}, open(path, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   {v['scenario']} {v['inputs']}: {r['detail'][:300]}")
        return 1
    if load_err:
        print("   the instrumented package failed to load; nothing was decided")
        return 0
    return 0


if __name__ == "__main__":
    sys.exit(main())
