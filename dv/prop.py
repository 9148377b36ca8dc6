"""Per-property harness: scenarios (deductive), cases (bounded runtime contract
checks on the real code, used to replay refutations and as labelled bounded
stand-in), evidence and outcome policy."""
import argparse
import hashlib
import inspect
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg = key, msg


class Skip(Exception):
    """case outside the property's precondition"""


class Scn:
    """One contract scenario: function under contract, precondition builder,
    postcondition."""

    def __init__(self, name, fn, build, post, contracts=None, invariants=None, call=None,
                 models=None, expect=("return",), max_paths=200, time_limit=150,
                 timeout_ms=10000, functions=()):
        self.name, self.fn, self.build, self.post = name, fn, build, post
        self.contracts, self.invariants, self.call = contracts, invariants, call
        self.models, self.expect = models, expect
        self.max_paths, self.time_limit, self.timeout_ms = max_paths, time_limit, timeout_ms
        self.functions = functions


def opt(obj, path):
    """obj.path, or a Missing when the current tree has no such function"""
    from .driver import Missing

    for a in path.split("."):
        try:
            obj = inspect.getattr_static(obj, a) if isinstance(obj, type) else getattr(obj, a)
        except AttributeError:
            return Missing(f"{getattr(obj, '__name__', obj)}.{a}")
        obj = getattr(obj, "fn", obj) if type(obj).__name__ == "_AvailableIfDescriptor" else obj
        obj = getattr(obj, "__func__", obj) if isinstance(obj, (staticmethod, classmethod)) else obj
    return obj


def fq(fn):
    from .driver import Missing

    if isinstance(fn, Missing):
        return fn.name

    if fn is None:
        return None
    fn = inspect.unwrap(fn)
    fn = getattr(fn, "__func__", fn)
    return f"{getattr(fn, '__module__', '?')}:{getattr(fn, '__qualname__', fn)}"


def run_scenario(s):
    from .driver import verify
    from .skmodel import all_models

    models = all_models()
    if s.models:
        models.update(s.models)
    r = verify(s.name, s.fn, s.build, s.post, models, s.contracts, s.invariants,
               max_paths=s.max_paths, time_limit=s.time_limit, timeout_ms=s.timeout_ms, call=s.call)
    missing = [e for e in s.expect if not any(k == e or k.startswith(e + ":") for k in r.outcomes)]
    return dict(
        name=s.name, function=fq(s.fn) or "", extra_functions=[fq(f) for f in s.functions],
        obls=r.obls, paths=r.paths, feasible=r.feasible, outcomes=r.outcomes,
        unsupported=r.unsupported, where=getattr(r, "where", None),
        vacuous=(missing or None), inlined=sorted(r.inlined), contracts=sorted(r.used_contracts),
        assumed=sorted(r.assumed), bounded=sorted(r.bounded), seconds=round(r.seconds, 2),
        queries=r.queries, solver_s=round(r.solver_s, 2),
    )


# ------------------------------------------------------------- JSON of params
def enc(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return {"__nd__": [enc(x) for x in v.ravel().tolist()], "shape": list(v.shape), "dtype": str(v.dtype)}
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return enc(float(v))
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return {"__f__": repr(v)}
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return v


def dec(v):
    import numpy as np

    if isinstance(v, dict):
        if "__nd__" in v:
            return np.array([dec(x) for x in v["__nd__"]], dtype=v["dtype"]).reshape(v["shape"])
        if "__f__" in v:
            return float(v["__f__"])
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


# ------------------------------------------------------------------- workers
def _task_scn(mod, idx, conn):
    try:
        s = mod.scenarios()[idx]
        conn.send(("scn", run_scenario(s)))
    except BaseException as exc:
        conn.send(("scn-error", idx, "".join(traceback.format_exception(exc))[-1500:]))
    finally:
        conn.close()


def run_case(mod, kind, params):
    """None | Violation"""
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            mod.KINDS[kind](params)
        except Violation as v:
            return v
        except Skip:
            return "skip"
    return None


def _task_cases(mod, tier, seed, shard, nshards, seconds, known, conn):
    out = dict(evals=0, skipped=0, hashes=set(), fails=[], errors=[], samples=[], kinds={}, done=True)
    t0 = time.time()
    try:
        rng = random.Random(f"{seed}-{mod.ID}-all")
        seen_keys = {}
        for q, (kind, params) in enumerate(mod.cases(rng, tier)):
            if q % nshards != shard:
                continue
            if time.time() - t0 > seconds:
                out["done"] = False
                break
            try:
                e = json.dumps(enc(params), sort_keys=True)
                r = run_case(mod, kind, dec(json.loads(e)))
            except Exception as exc:
                out["errors"].append([kind, str(params)[:300], "".join(traceback.format_exception(exc))[-1500:]])
                continue
            if r == "skip":
                out["skipped"] += 1
                continue
            out["evals"] += 1
            out["kinds"][kind] = out["kinds"].get(kind, 0) + 1
            out["hashes"].add(hashlib.md5((kind + e).encode()).hexdigest()[:12])
            if len(out["samples"]) < 2:
                out["samples"].append([kind, e[:400]])
            if isinstance(r, Violation):
                seen_keys[r.key] = seen_keys.get(r.key, 0) + 1
                if seen_keys[r.key] <= 1:
                    out["fails"].append([kind, json.loads(e), r.key, r.msg[:1500]])
                if r.key not in known and len([f for f in out["fails"] if f[2] not in known]) >= 3:
                    out["done"] = False
                    break
    except BaseException as exc:
        out["errors"].append(["generator", "", "".join(traceback.format_exception(exc))[-1500:]])
    conn.send(("cases", out))
    conn.close()


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run_pool(tasks, nproc, deadline):
    """tasks: [(fn, args)] each run in a forked process with a pipe."""
    ctxm = mp.get_context("fork")
    pend = list(enumerate(tasks))
    live = {}
    res = {}
    while pend or live:
        while pend and len(live) < nproc and time.time() < deadline:
            q, (fn, args) = pend.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=fn, args=args + (b,), daemon=True)
            p.start()
            b.close()
            live[q] = (p, a)
        if time.time() > deadline:
            for q, (p, a) in live.items():
                p.kill()
                res[q] = ("timeout",)
            for q, _ in pend:
                res[q] = ("timeout",)
            break
        got = False
        from multiprocessing.connection import wait

        ready = wait([a for _, a in live.values()], timeout=0.5)
        for q in list(live):
            p, a = live[q]
            if a in ready:
                try:
                    res[q] = a.recv()
                except EOFError:
                    res[q] = ("died",)
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[q]
    return res


def main(mod, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--no-cases", action="store_true")
    ap.add_argument("--no-scn", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        d = json.load(open(a.replay))
        if d.get("case"):
            r = run_case(mod, d["case"]["kind"], dec(d["case"]["params"]))
            print("replay:", r)
            return 1 if isinstance(r, Violation) else 0
        print("replay: no failing input recorded; failed obligations:", json.dumps(d["obligations"], indent=1)[:4000])
        names = {o["name"].split("/")[0] for o in d["obligations"]}
        bad = 0
        for s in mod.scenarios():
            if s.name in names:
                r = run_scenario(s)
                bad += sum(o["verdict"] == "refuted" for o in r["obls"])
        return 1 if bad else 0
    t0 = time.time()
    quick = a.tier != "thorough"
    total = 420 if quick else 840
    case_s = getattr(mod, "CASE_SECONDS", 60) if quick else getattr(mod, "CASE_SECONDS_THOROUGH", 420)
    known = load_known(mod.ID)
    noscn = None
    try:
        scns = mod.scenarios()
    except Exception as exc:  # e.g. a contracted function is gone
        scns, noscn = [], f"scenarios: {type(exc).__name__}: {exc}"
    names = [s.name for s in scns]
    assert len(set(names)) == len(names), "duplicate scenario names"
    nproc = int(os.environ.get("DV_PROCS") or min(8, os.cpu_count() or 8))
    tasks = []
    labels = []
    if not a.no_scn:
        for i, s in enumerate(scns):
            if a.only and a.only not in s.name:
                continue
            tasks.append((_task_scn, (mod, i)))
            labels.append(("scn", s.name))
    nsh = getattr(mod, "SHARDS", 6)
    if not a.no_cases:
        for sh in range(nsh):
            tasks.append((_task_cases, (mod, a.tier, seed, sh, nsh, case_s, known)))
            labels.append(("cases", sh))
    # long-running case shards first so that they overlap the proofs
    order = sorted(range(len(tasks)), key=lambda q: 0 if labels[q][0] == "cases" else 1)
    res_o = run_pool([tasks[q] for q in order], nproc + 2, t0 + total)
    res = {order[q]: r for q, r in res_o.items()}
    scn_res, cs, undecided = [], [], []
    for q, lab in enumerate(labels):
        r = res.get(q, ("timeout",))
        if r[0] == "scn":
            scn_res.append(r[1])
        elif r[0] == "cases":
            cs.append(r[1])
        else:
            undecided.append(f"{lab[0]} {lab[1]}: {r[0]} {r[-1] if len(r) > 1 else ''}"[:1200])
    # ---- collect
    if noscn:
        undecided.append(noscn)
    fails = {}
    for c in cs:
        for kind, params, key, msg in c["fails"]:
            fails.setdefault(key, (kind, params, key, msg))
    obls = [o for r in scn_res for o in r["obls"]]
    refuted = [o for o in obls if o["verdict"] == "refuted"]
    unknown = [o for o in obls if o["verdict"] == "unknown"]
    for r in scn_res:
        if r["unsupported"]:
            undecided.append(f"{r['name']}: outside the verifier's subset: {r['unsupported']} {r['where'] or ''}")
        elif r["vacuous"]:
            undecided.append(f"{r['name']}: vacuous: no feasible path ends with {r['vacuous']}")
        elif not r["obls"]:
            undecided.append(f"{r['name']}: zero obligations")
    for o in unknown:
        undecided.append(f"{o['name']}: {o['detail'][:200]}")
    errors = [e for c in cs for e in c["errors"]]
    wall = time.time() - t0
    new = {k: f for k, f in fails.items() if k not in known}
    rc = 0
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    for k in known:
        if k in fails:
            print(f"KNOWN-FINDING: property={mod.ID} {k} {known[k]}")
    violations = 0
    if new:
        rc = 1
        for n, (key, (kind, params, _, msg)) in enumerate(list(new.items())[:5]):
            p = os.path.join(VERIF, "replay", f"{mod.ID}-{n}.json")
            json.dump(dict(property=mod.ID, case=dict(kind=kind, params=params), key=key, message=msg,
                           obligations=[dict(name=o["name"], detail=o["detail"][:1500]) for o in refuted[:5]]), open(p, "w"), indent=1)
            print(f"  failing input ({kind}): {key}: {msg[:600]}")
            if refuted:
                print("  failed obligations: " + "; ".join(sorted({o["name"] for o in refuted})[:5]))
            print(f"VIOLATION property={mod.ID} replay={p}")
            violations += 1
    elif refuted:
        rc = 1
        p = os.path.join(VERIF, "replay", f"{mod.ID}-obl.json")
        json.dump(dict(property=mod.ID, case=None,
                       obligations=[{k: o[k] for k in ("name", "verdict", "backend", "detail", "pc", "inexact")} for o in refuted[:10]]),
                  open(p, "w"), indent=1)
        for o in refuted[:5]:
            print(f"  failed obligation {o['name']} [{o['backend']}] {o['detail'][:160]!r}")
        print(f"VIOLATION property={mod.ID} replay={p} no-failing-input-found")
        violations += 1
    # ---- evidence
    fun = sorted({r["function"] for r in scn_res if r["function"]} | {f for r in scn_res for f in r["extra_functions"] if f})
    proved = [r["name"] for r in scn_res if not r["unsupported"] and not r["vacuous"] and r["obls"]
              and all(o["verdict"] == "discharged" for o in r["obls"])]
    back = {}
    for o in obls:
        if o["verdict"] == "discharged":
            back[o["backend"]] = back.get(o["backend"], 0) + 1
    evals = sum(c["evals"] for c in cs)
    hashes = set().union(*[c["hashes"] for c in cs]) if cs else set()
    kinds = {}
    for c in cs:
        for k, v in c["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    assumed = sorted({x for r in scn_res for x in r["assumed"]})
    cov = dict(
        obligations=len(obls), discharged=sum(o["verdict"] == "discharged" for o in obls),
        checker_cmd=f"/opt/venv/bin/python /verif/check.py {mod.ID} --tier {a.tier}  (dv VC generator; z3 python API + cvc5 CLI)",
        trusted_base=["dv/ VC generator (core, interp, loops, npmodel)", "z3", "cvc5 1.1.2", "CPython ast"] + assumed,
        back_ends=back, solver_s=round(sum(r["solver_s"] for r in scn_res), 1),
        queries=sum(r["queries"] for r in scn_res),
        functions_under_contract=fun,
        scenarios=[dict(name=r["name"], function=r["function"], proved=r["name"] in proved, paths=r["paths"], feasible=r["feasible"],
                        outcomes=r["outcomes"], obligations=len(r["obls"]), discharged=sum(o["verdict"] == "discharged" for o in r["obls"]),
                        seconds=r["seconds"], inlined=r["inlined"], callee_contracts=r["contracts"], bounded=r["bounded"]) for r in scn_res],
        undecided=undecided,
        refuted=[o["name"] for o in refuted],
        bounded_runtime_contracts=dict(
            evaluations=evals, distinct=len(hashes), kinds=kinds, harness_errors=errors[:5],
            note="bounded search on the real code: replays refutations, and stands in for what is listed as bounded in DESIGN.md; never counted as proved"),
        evaluations=evals, distinct_nontrivial=len(hashes),
        rule="cases generated by props/%s cases(): distinct by hash of their parameters; inputs outside the precondition are skipped and not counted" % mod.__name__.split(".")[-1],
        samples=[s for c in cs for s in c["samples"]][:4] or ["none"],
        known_findings_reproduced=[k for k in known if k in fails],
    )
    ev = dict(property=mod.ID, tier="thorough" if not quick else "quick", seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "floating point treated as exact reals with a NaN flag; numpy integers treated as mathematical"] + assumed,
              wall_s=round(wall, 1), violations=violations)
    if mod.LEVEL == "other":
        cov["explanation"] = getattr(mod, "EXPLANATION", "")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{mod.ID}.json"), "w"), indent=1, default=str)
    for u in undecided:
        print("UNDECIDED", u[:600])
    for e in errors[:5]:
        print("HARNESS-ERROR", e[0], e[1][:200], e[2][-600:])
    if a.v:
        for r in scn_res:
            print(f"{r['name']:50s} {'PROVED' if r['name'] in proved else '------'} obl={len(r['obls'])} paths={r['paths']} feas={r['feasible']} {r['outcomes']} {r['seconds']}s {r['unsupported'] or ''}")
            for o in r["obls"]:
                if o["verdict"] == "discharged" and o["seconds"] > 3:
                    print("     slow", o["name"], o["backend"], o["seconds"])
                if o["verdict"] != "discharged":
                    print("    ", o["verdict"], o["name"], o["backend"], o["seconds"], "pc:", [x[:80] for x in o["pc"][-2:]], o["detail"][:120].replace("\n"," "))
    print(f"{mod.ID}: {len(proved)}/{len(scn_res)} scenarios proved, {cov['discharged']}/{cov['obligations']} obligations discharged, "
          f"{evals} bounded cases ({len(hashes)} distinct), {wall:.1f}s, exit {rc}")
    return rc
