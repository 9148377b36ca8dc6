"""Runs symbolic verification of one function against one contract scenario."""
import time
import traceback

from . import core, npmodel
from .core import Ctx, PathAbort, S, Unsupported, Budget, z3
from .interp import Interp


class Missing:
    """a function under contract that the current tree does not have"""

    def __init__(self, name):
        self.name = name

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Missing(f"{self.name}.{a}")


class Result:
    def __init__(self, name, func):
        self.name, self.func = name, func
        self.obls = []
        self.paths = 0
        self.feasible = 0
        self.unsupported = None
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.bounded = set()
        self.seconds = 0.0
        self.queries = 0
        self.solver_s = 0.0
        self.outcomes = {}

    @property
    def discharged(self):
        return [o for o in self.obls if o["verdict"] == "discharged"]

    @property
    def refuted(self):
        return [o for o in self.obls if o["verdict"] == "refuted"]

    @property
    def unknown(self):
        return [o for o in self.obls if o["verdict"] == "unknown"]

    @property
    def proved(self):
        return (
            self.unsupported is None
            and self.obls
            and not self.refuted
            and not self.unknown
            and self.feasible > 0
        )


ENGINE_OK = (ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError)


class Prover:
    """handed to postconditions"""

    def __init__(self, c, res, tag):
        self.c, self.res, self.tag = c, res, tag
        self.soft = False

    def __call__(self, name, cond):
        ob = self.c.prove(f"{self.res.name}/{name}", cond)
        ob["path"] = self.tag
        if ob["verdict"] == "refuted" and self.soft:
            ob["verdict"] = "unknown"
            ob["detail"] = "exception raised inside a library model: " + ob["detail"]
        return ob["verdict"] == "discharged"

    def fail(self, name, why):
        """an obligation that is false on this (feasible) path"""
        ob = self.c.prove(f"{self.res.name}/{name}", z3.BoolVal(False))
        ob["path"] = self.tag
        ob["detail"] = f"{why}; " + ob["detail"]
        if ob["verdict"] == "refuted" and self.soft:
            ob["verdict"] = "unknown"
            ob["detail"] = "exception raised inside a library model: " + ob["detail"]
        return ob["verdict"] == "discharged"


def verify(name, fn, build, post, models, contracts=None, invariants=None, max_paths=200,
           time_limit=120, timeout_ms=8000, call=None):
    """build() -> (args, kw, inputs); post(P, outcome, inputs)

    outcome = ('return', value) | ('raise', exception)"""
    if isinstance(fn, Missing):
        res = Result(name, fn.name)
        res.unsupported = f"{fn.name} is not there any more"
        return res
    res = Result(name, getattr(fn, "__qualname__", str(fn)) if fn is not None else name)
    t0 = time.time()
    work = [[]]
    stats = {"queries": 0, "solver_s": 0.0}
    while work:
        pre = work.pop()
        res.paths += 1
        if res.paths > max_paths or time.time() - t0 > time_limit:
            res.unsupported = "path/time budget exceeded"
            break
        c = Ctx(pre, timeout_ms=timeout_ms, stats=stats)
        with c:
            it = Interp(models, contracts, invariants)
            it.verifying = fn
            soft = False
            try:
                try:
                    args, kw, inputs = build()
                except Exception as exc:
                    raise Unsupported(f"precondition builder: {type(exc).__name__}: {exc}")
                try:
                    if call is not None:
                        v = call(it, *args, **kw)
                    else:
                        v = it.call(fn, tuple(args), dict(kw))
                    out = ("return", v)
                except Exception as exc:
                    if isinstance(exc, z3.Z3Exception):
                        raise
                    tb = traceback.extract_tb(exc.__traceback__)
                    ours = getattr(exc, "_dv_raised", False) or "/dv/" not in (tb[-1].filename if tb else "/dv/")
                    if not getattr(exc, "_dv_raised", False) and tb and "/props/" in tb[-1].filename:
                        raise Unsupported(f"harness: {type(exc).__name__}: {exc}")
                    if not ours and type(exc) not in ENGINE_OK:
                        raise Unsupported(f"engine: {type(exc).__name__}: {exc}")
                    # an exception that a model raised, not a `raise` statement of the
                    # program: obligations refuted on it need a failing input
                    soft = not ours
                    # engine faults that are not the program's: tracebacks that end in
                    # dv/ with an AttributeError/TypeError on our own objects
                    if isinstance(exc, (AttributeError, TypeError, NotImplementedError)) and (
                        "SArr" in str(exc) or "'S'" in str(exc) or "SSeq" in str(exc) or "SMap" in str(exc)
                        or "SymSet" in str(exc) or "dv." in str(exc) or "RowVal" in str(exc)
                        or "<lambda>" in str(exc) or "SDtype" in str(exc)
                    ):
                        raise Unsupported(f"engine: {type(exc).__name__}: {exc}")
                    out = ("raise", exc)
                key = out[0] + (":" + type(out[1]).__name__ if out[0] == "raise" else "")
                # vacuity: is this path reachable at all?
                r, _ = c.check([], 1500)
                if r == "unsat":
                    work.extend(c.pending)
                    continue
                res.feasible += 1
                res.outcomes[key] = res.outcomes.get(key, 0) + 1
                P = Prover(c, res, f"path{res.paths}:{key}")
                P.outcome = out
                P.soft = soft
                try:
                    post(P, out, inputs)
                except Exception as exc:
                    # the result does not have the expected form: no verdict from the proof
                    raise Unsupported(f"postcondition not applicable: {type(exc).__name__}: {exc}")
            except PathAbort:
                pass
            except Unsupported as u:
                r = "sat"
                try:
                    r, _ = c.check([], 1000)
                except Exception:
                    pass
                if r != "unsat":
                    tb = traceback.extract_tb(u.__traceback__)
                    res.unsupported = f"{u}"
                    res.where = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-6:]]
            except z3.Z3Exception as u:
                res.unsupported = f"z3: {u}"
        for o in c.obls:
            res.obls.append(o)
        res.inlined |= it.inlined
        res.used_contracts |= it.used_contracts
        res.assumed |= c.assumed
        res.bounded |= set(c.bounded)
        work.extend(c.pending)
        if res.unsupported:
            break
    res.seconds = time.time() - t0
    res.queries = stats["queries"]
    res.solver_s = stats["solver_s"]
    return res
