"""Core of the deductive verifier: symbolic scalars, symbolic ndarrays of
unbounded length, the path context, and the obligation prover (z3, cvc5 as a
second back end).

Everything here is *logic*, nothing here knows about skada.  Floating point is
modelled as exact reals plus a separate NaN flag; integers are mathematical.
"""
import os
import subprocess
import sys
import tempfile
import time

_Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # z3 lives in the verification venv: import just that package
    import importlib.util

    _spec = importlib.util.spec_from_file_location(
        "z3", _Z3_SITE + "/z3/__init__.py", submodule_search_locations=[_Z3_SITE + "/z3"]
    )
    z3 = importlib.util.module_from_spec(_spec)
    sys.modules["z3"] = z3
    _spec.loader.exec_module(z3)


class Unsupported(BaseException):
    """The code under proof uses something outside the verifier's subset."""


class InfConst(Unsupported):
    def __init__(self, pos):
        super().__init__("infinite constant")
        self.pos = pos


class PathAbort(BaseException):
    """This path is infeasible (or was cut)."""


class Budget(BaseException):
    """Too many paths / too much time."""


RowSort = z3.DeclareSort("Row")
ObjSort = z3.DeclareSort("Obj")

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()

KIND = {"i": I, "f": R, "b": B, "row": RowSort, "o": ObjSort}


def kind_of(e):
    s = e.sort()
    for k, v in KIND.items():
        if s == v:
            return k
    raise Unsupported(f"sort {s}")


_ctx = []


def ctx():
    return _ctx[-1]


class Ctx:
    """One path of one function under proof."""

    def __init__(self, decisions=(), timeout_ms=10000, quick_ms=400, stats=None):
        self.facts = []
        self.pc = []
        self.decisions = list(decisions)
        self.pos = 0
        self.pending = []
        self.counter = 0
        self.trace = []
        self.compactions = []
        self.reductions = []
        self.uniques = []
        self.timeout_ms = timeout_ms
        self.quick_ms = quick_ms
        self.inexact = []  # names of abstractions that make refutations inconclusive
        self.assumed = set()
        self.obls = []
        self.loopstack = []
        self.open_facts = []
        self.bounded = []
        self.yields = None
        self.stats = stats if stats is not None else {"queries": 0, "solver_s": 0.0}
        self.memo = {}
        self.masked_stores = []  # for specifications: the sample a masked store in a loop took

    def __enter__(self):
        _ctx.append(self)
        return self

    def __exit__(self, *a):
        _ctx.pop()

    # ---- fresh symbols
    def name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    # Inside a generic loop iteration every new symbol is a function of the
    # loop indices and every new fact is generalised over them.
    def fresh(self, kind, base="v"):
        lv = self.loopvars()
        if lv:
            f = z3.Function(self.name(base), *([v.sort() for v in lv] + [KIND[kind]]))
            return f(*lv)
        return z3.Const(self.name(base), KIND[kind])

    def func(self, base, *sorts):
        lv = self.loopvars()
        f = z3.Function(self.name(base), *([v.sort() for v in lv] + list(sorts)))
        if lv:
            return lambda *a: f(*lv, *a)
        return f

    def loopvars(self):
        return [fr.j for fr in self.loopstack]

    def _close(self, vs, body, patterns):
        lv = self.loopvars()
        if not lv:
            return vs, body, patterns
        guard = []
        for fr in self.loopstack:
            guard.append(fr.range())
        guard += self.pc[self.loopstack[0].pc0:]
        body = z3.Implies(z3.And(guard), body)
        pats = []
        ids = {v.get_id() for v in lv}
        vids = {v.get_id() for v in vs}
        anchors = [
            a for a in _apps_with(body, lv)
            if not (vids & set(_const_ids(a)))
        ][:2]
        for p in patterns:
            if z3.is_app(p) and ids <= set(_const_ids(p)):
                pats.append(p)
            elif z3.is_app(p) and vids:
                pats += [z3.MultiPattern(p, a) for a in anchors]
            elif z3.is_pattern(p):
                if ids <= set(x for q in p.children() for x in _const_ids(q)):
                    pats.append(p)
        return lv + list(vs), body, pats

    # ---- facts
    def fact(self, e):
        if self.loopstack:
            self.open_facts.append(e)
            vs, body, pats = self._close([], e, _apps_with(e, self.loopvars()))
            self.facts.append(
                z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
            )
            return
        self.facts.append(e)

    def assume(self, e):
        if isinstance(e, S):
            e = e.e
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        self.pc.append(e)

    def forall(self, vs, body, patterns=()):
        vs = list(vs)
        ids0 = {v.get_id() for v in vs}
        pats = []
        for p in patterns:
            parts = p.children() if z3.is_pattern(p) else [p]
            if all(z3.is_app(q) and q.num_args() > 0 for q in parts):
                got = set().union(*[set(_const_ids(q)) for q in parts])
                if ids0 <= got and all(set(_const_ids(q)) & ids0 for q in parts):
                    pats.append(p)
        if self.loopstack:
            self.open_facts.append(
                z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
            )
            vs, body, pats = self._close(vs, body, pats)
        self.facts.append(
            z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
        )
        # the same fact with a shifted index, so that f(v) triggers it and not
        # only f(v + 1) (peeled loops)
        for v in vs:
            k = _offset(pats, v)
            if k:
                sub = (v, v - k)
                p2 = []
                for p in pats:
                    ch = p.children() if z3.is_pattern(p) else [p]
                    ch = [z3.simplify(z3.substitute(q, sub)) for q in ch]
                    if all(z3.is_app(q) and q.num_args() > 0 for q in ch):
                        p2.append(z3.MultiPattern(*ch) if len(ch) > 1 else ch[0])
                b2 = z3.simplify(z3.substitute(body, sub))
                try:
                    self.facts.append(z3.ForAll(vs, b2, patterns=p2))
                except z3.Z3Exception:
                    pass
                break

    # ---- solving
    def _solver(self, ms, extra=(), opts=None):
        s = z3.SimpleSolver() if opts else z3.Solver()
        s.set("timeout", int(ms))
        s.set("random_seed", 7)
        for k, v in (opts or {}).items():
            s.set(k, v)
        for f in self.facts:
            s.add(f)
        for f in self.open_facts:
            s.add(f)
        for f in self.pc:
            s.add(f)
        for f in extra:
            s.add(f)
        return s

    def check(self, extra, ms, opts=None):
        t = time.time()
        if opts is None:
            opts = {"mbqi": False, "auto_config": False}
        s = self._solver(ms, extra, opts)
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return str(r), s

    def check_linear(self, goal, ms):
        """Only the facts without products of unknowns (sound for unsat)."""
        tab = self.memo.setdefault("%nonlin", {})

        def nonlin(e):
            k = e.get_id()
            if k not in tab:
                r, seen, todo = False, set(), [e]
                while todo and not r:
                    t = todo.pop()
                    if t.get_id() in seen:
                        continue
                    seen.add(t.get_id())
                    if z3.is_quantifier(t):
                        todo.append(t.body())
                    elif z3.is_app(t):
                        if z3.is_mul(t) and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in t.children()) > 1:
                            r = True
                        if t.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_DIV):
                            r = True
                        todo.extend(t.children())
                tab[k] = (e, r)
            return tab[k][1]

        allf = self.facts + self.open_facts + self.pc
        keep = [f for f in allf if not nonlin(f)]
        if len(keep) == len(allf) or nonlin(goal):
            return "unknown", None
        t = time.time()
        s = z3.Solver()
        s.set("timeout", int(ms))
        s.set("mbqi", False)
        s.set("auto_config", False)
        s.add(keep)
        s.add(goal)
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return str(r), s

    def check_sliced(self, goal, depth, ms):
        """Only the facts within `depth` steps of the goal in the symbol graph
        (sound for unsat: fewer hypotheses)."""
        lens = {z3.simplify(x).get_id() for x in self.memo.get("lengths", [])}

        def syms(e):
            k = e.get_id()
            tab = self.memo.setdefault("%syms", {})
            if k not in tab:
                out, seen, todo = set(), set(), [e]
                while todo:
                    t = todo.pop()
                    if t.get_id() in seen:
                        continue
                    seen.add(t.get_id())
                    if z3.is_quantifier(t):
                        todo.append(t.body())
                    elif z3.is_app(t):
                        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                            out.add(t.decl().name())
                        todo.extend(t.children())
                tab[k] = (e, out)
            return tab[k][1]

        allf = self.facts + self.open_facts + self.pc
        lname = set()
        for x in self.memo.get("lengths", []):
            if z3.is_const(x):
                lname.add(x.decl().name())
        have = set(syms(goal))
        chosen = {}
        for _ in range(depth):
            new = set()
            for q, f in enumerate(allf):
                if q in chosen:
                    continue
                sy = syms(f)
                if (sy - lname) & have or (sy and sy <= have):
                    chosen[q] = f
                    new |= sy
            have |= new
        # length facts are always cheap
        for q, f in enumerate(allf):
            if q not in chosen and not z3.is_quantifier(f) and syms(f) <= have:
                chosen[q] = f
        s = z3.SimpleSolver()
        s.set("timeout", int(ms))
        s.set("mbqi", False)
        s.set("auto_config", False)
        for f in chosen.values():
            s.add(f)
        s.add(goal)
        t = time.time()
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return str(r), s

    def qf_entails(self, e):
        """entailment from the ground facts alone (sound, fast)"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        t = time.time()
        s = z3.SimpleSolver()
        s.set("timeout", 300)
        for f in self.facts + self.open_facts + self.pc:
            if not z3.is_quantifier(f):
                s.add(f)
        s.add(z3.Not(e))
        r = str(s.check())
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r == "unsat"

    def entails(self, e, ms=None):
        """Quick internal entailment query (sound: True only on unsat)."""
        if isinstance(e, S):
            e = e.e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e) and not self.pc and not self.facts:
            return False
        if self.qf_entails(e):
            return True
        r, _ = self.check([z3.Not(e)], ms or self.quick_ms)
        return r == "unsat"

    def branch(self, e):
        """Decide a symbolic condition: fork when both outcomes are feasible."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.pc.append(e if d else z3.Not(e))
            return d
        if self.qf_entails(e):
            self.decisions.append(True)
            self.pos += 1
            self.pc.append(e)
            return True
        can_t = self.check([e], self.quick_ms)[0] != "unsat"
        if not can_t:
            self.decisions.append(False)
            self.pos += 1
            self.pc.append(z3.Not(e))
            return False
        can_f = self.check([z3.Not(e)], self.quick_ms)[0] != "unsat"
        if can_f:
            self.pending.append(self.decisions[: self.pos] + [False])
        self.decisions.append(True)
        self.pos += 1
        self.pc.append(e)
        return True

    # ---- obligations
    def prove(self, name, e):
        if isinstance(e, S):
            e = e.e
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        t = time.time()
        verdict, backend, detail = "unknown", "z3", ""
        goal = z3.Not(e)
        if z3.is_true(z3.simplify(e)):
            verdict = "discharged"
            backend = "simplify"
        else:
            r = "unknown"
            for opts, ms in (
                ({"mbqi": False, "auto_config": False}, 1000),
                ({"linear": 1}, 2000),
                ({"slice": 1}, 1000),
                ({"slice": 2}, 1500),
                ({"slice": 3}, 1500),
                ({"mbqi": False, "auto_config": False, "relevancy": 0, "random_seed": 3}, self.timeout_ms // 3),
                ({"mbqi": False, "auto_config": False, "random_seed": 11}, self.timeout_ms // 2),
                ({}, self.timeout_ms),
            ):
                if "linear" in opts:
                    r, s = self.check_linear(goal, ms)
                    if r == "unsat":
                        break
                    continue
                if "slice" in opts:
                    r, s = self.check_sliced(goal, opts["slice"], ms)
                    if r == "unsat":
                        break
                    continue
                r, s = self.check([goal], ms, opts)
                if r == "unsat" or (r == "sat" and not opts):
                    break
            if r == "unsat":
                verdict = "discharged"
            elif r == "sat":
                verdict = "refuted"
                detail = str(s.model())[:4000]
            else:
                detail = "z3: " + s.reason_unknown()
                r2 = cvc5_check(s, 8)
                if r2 == "unsat":
                    verdict, backend = "discharged", "cvc5"
                else:
                    rr, mm = self.refute_finite(goal)
                    if rr:
                        verdict, backend, detail = "refuted", "z3-finite", mm
                    else:
                        detail += f"; cvc5: {r2}"
        ob = dict(
            name=name,
            verdict=verdict,
            backend=backend,
            detail=detail,
            seconds=round(time.time() - t, 3),
            inexact=sorted(set(self.inexact)),
            pc=[str(p)[:300] for p in self.pc[-8:]] if verdict != "discharged" else [],
        )
        self.obls.append(ob)
        return ob

    def refute_finite(self, goal, sizes=(1, 2, 3)):
        """Look for a finite counterexample: all quantifiers expanded over a
        small index range.  Only used to label an undischarged obligation as
        refuted (a candidate, always replayed on the real code)."""
        lens = self.memo.get("lengths", [])
        for n in sizes:
            s = z3.Solver()
            s.set("timeout", 4000)
            for f in self.facts + self.pc + [goal]:
                s.add(expand(f, n + 1))
            for ln in lens:
                s.add(ln <= n)
            r = s.check()
            if r == z3.sat:
                return True, f"finite model, lengths<={n}: " + str(s.model())[:3000]
        return False, ""


def _offset(pats, v):
    """k when a pattern uses v only as f(v + k)"""
    found = 0
    for p in pats:
        todo = list(p.children()) if z3.is_pattern(p) else [p]
        while todo:
            t = todo.pop()
            if z3.is_quantifier(t):
                todo.append(t.body())
            if not z3.is_app(t):
                continue
            for a in t.children():
                if z3.is_add(a) and a.num_args() == 2 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    x, y = a.children()
                    if z3.is_int_value(x):
                        x, y = y, x
                    if x.eq(v) and z3.is_int_value(y):
                        found = y.as_long()
                todo.append(a)
    return found


def _const_ids(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 0:
                out.add(t.get_id())
            todo.extend(t.children())
    return out


def _apps_with(e, vs):
    """uninterpreted applications in e mentioning all constants vs"""
    ids = {v.get_id() for v in vs}
    out, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            if (
                t.num_args() > 0
                and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
                and ids <= _const_ids(t)
                and all(z3.is_const(a) for a in t.children())
            ):
                out.append(t)
            todo.extend(t.children())
    return out


def expand(f, n):
    """Expand bounded integer quantifiers over -1..n."""
    cache = {}

    def go(e):
        k = e.get_id()
        if k in cache:
            return cache[k]
        if z3.is_quantifier(e):
            nv = e.num_vars()
            sorts = [e.var_sort(i) for i in range(nv)]
            if any(s != I for s in sorts):
                r = z3.BoolVal(True)
            else:
                import itertools

                insts = []
                for vals in itertools.product(range(0, n), repeat=nv):
                    subs = [z3.IntVal(v) for v in reversed(vals)]
                    insts.append(go(z3.substitute_vars(e.body(), *subs)))
                r = z3.And(insts) if e.is_forall() else z3.Or(insts)
        elif z3.is_app(e) and e.num_args() > 0 and e.sort() == B:
            r = e.decl()(*[go(c) for c in e.children()])
        else:
            r = e
        cache[k] = r
        return r

    return go(f)


def cvc5_check(solver, seconds):
    try:
        txt = solver.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
            fh.write("(set-logic ALL)\n" + txt)
            p = fh.name
        try:
            out = subprocess.run(
                ["cvc5", "--tlimit=%d" % (seconds * 1000), p],
                capture_output=True,
                text=True,
                timeout=seconds + 5,
            ).stdout
        finally:
            os.unlink(p)
        for ln in out.splitlines():
            if ln.strip() in ("sat", "unsat", "unknown"):
                return ln.strip()
        return "error"
    except Exception as exc:  # pragma: no cover
        return f"error {type(exc).__name__}"


# ---------------------------------------------------------------- scalars
def _toz(v, kind=None):
    """Lift a Python/numpy scalar to a z3 term; returns (term, nanflag|None)."""
    import numpy as np

    if isinstance(v, S):
        return v.e, v.nan
    if isinstance(v, (bool, np.bool_)):
        return z3.BoolVal(bool(v)), None
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v)), None
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f:
            return z3.RealVal(0), z3.BoolVal(True)
        if f in (float("inf"), float("-inf")):
            raise InfConst(f > 0)
        from fractions import Fraction

        fr = Fraction(repr(f)) if "e" not in repr(f) else Fraction(f)
        return z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator)), None
    if z3.is_expr(v):
        return v, None
    raise Unsupported(f"cannot lift {type(v).__name__} to a term")


def to_real(e):
    """an integer as a real; the choice of two numerals stays a choice"""
    if z3.is_app_of(e, z3.Z3_OP_ITE) and all(z3.is_int_value(q) for q in e.children()[1:]):
        c, a, b = e.children()
        return z3.If(c, z3.RealVal(a.as_long()), z3.RealVal(b.as_long()))
    return z3.ToReal(e)


def _arith(e):
    if e.sort() == B:
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def _pair(a, b):
    ea, na = _toz(a)
    eb, nb = _toz(b)
    return ea, na, eb, nb


def _num2(ea, eb):
    ea, eb = _arith(ea), _arith(eb)
    if ea.sort() != eb.sort():
        if ea.sort() == I:
            ea = to_real(ea)
        if eb.sort() == I:
            eb = to_real(eb)
    return ea, eb


def _or(*ns):
    ns = [n for n in ns if n is not None]
    if not ns:
        return None
    return ns[0] if len(ns) == 1 else z3.Or(*ns)


POW = z3.Function("np_pow", R, R, R)


class S:
    """A symbolic scalar."""

    __slots__ = ("e", "nan")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, e, nan=None):
        self.e = e
        self.nan = nan

    @property
    def kind(self):
        return kind_of(self.e)

    def __repr__(self):
        return f"S({z3.simplify(self.e)})"

    def __str__(self):
        return f"<{self.e}>"

    def __format__(self, spec):
        return str(self)

    def __hash__(self):
        return hash(("S", z3.simplify(self.e).hash()))

    def __bool__(self):
        e = self.e
        if e.sort() == B:
            return ctx().branch(e)
        if e.sort() == I:
            return ctx().branch(e != 0)
        if e.sort() == R:
            c = e != 0
            if self.nan is not None:
                c = z3.Or(self.nan, c)
            return ctx().branch(c)
        raise Unsupported("truth value of an opaque term")

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("symbolic integer used as a native index")

    # arithmetic
    def _bin(self, o, f, swap=False):
        if isinstance(o, (SArr,)):
            return NotImplemented
        try:
            ea, na, eb, nb = _pair(self, o)
        except Unsupported:
            import numpy as np

            if isinstance(o, np.ndarray):
                return NotImplemented
            raise
        if swap:
            ea, eb = eb, ea
        x, y = _num2(ea, eb)
        return S(f(x, y), _or(na, nb))

    def __add__(s, o):
        return s._bin(o, lambda x, y: x + y)

    def __radd__(s, o):
        return s._bin(o, lambda x, y: x + y, True)

    def __sub__(s, o):
        return s._bin(o, lambda x, y: x - y)

    def __rsub__(s, o):
        return s._bin(o, lambda x, y: x - y, True)

    def __mul__(s, o):
        if isinstance(o, list) and len(o) == 1 and isinstance(o[0], (int, float, S)):
            v = o[0] if isinstance(o[0], S) else S(*_toz(o[0]))
            return SSeq(s, lambda j: v)
        return s._bin(o, lambda x, y: x * y)

    def __rmul__(s, o):
        if isinstance(o, list):
            return s.__mul__(o)
        return s._bin(o, lambda x, y: x * y, True)

    @staticmethod
    def _div(x, y):
        if x.sort() == I:
            x = to_real(x)
        if y.sort() == I:
            y = to_real(y)
        return x / y

    def __truediv__(s, o):
        return s._bin(o, S._div)

    def __rtruediv__(s, o):
        return s._bin(o, S._div, True)

    @staticmethod
    def _fdiv(x, y):
        if x.sort() == I:
            # z3 div rounds so that the remainder is >= 0; python floors
            return z3.If(y > 0, x / y, (-x) / (-y))
        return z3.ToReal(z3.ToInt(x / y))

    def __floordiv__(s, o):
        return s._bin(o, S._fdiv)

    def __rfloordiv__(s, o):
        return s._bin(o, S._fdiv, True)

    @staticmethod
    def _mod(x, y):
        return x - y * S._fdiv(x, y)

    def __mod__(s, o):
        return s._bin(o, S._mod)

    def __rmod__(s, o):
        return s._bin(o, S._mod, True)

    def __pow__(s, o):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 4:
            r = S(z3.IntVal(1) if s.kind != "f" else z3.RealVal(1))
            for _ in range(o):
                r = r * s
            return S(r.e, s.nan)
        if isinstance(o, float) and o == int(o) and 0 <= o <= 4:
            return s.__pow__(int(o))
        if isinstance(o, SArr):
            return NotImplemented
        ea, na, eb, nb = _pair(s, o)
        from .npmodel import note

        note("power with a general exponent (uninterpreted function)")
        ctx().inexact.append("pow")
        ra, rb = (z3.ToReal(_arith(e)) if _arith(e).sort() == I else _arith(e) for e in (ea, eb))
        return S(POW(ra, rb), _or(na, nb))

    def __neg__(s):
        return S(-_arith(s.e), s.nan)

    def __pos__(s):
        return s

    def __abs__(s):
        e = _arith(s.e)
        return S(z3.If(e >= 0, e, -e), s.nan)

    # comparison (NaN compares false, except !=)
    def _cmp(self, o, f, ne=False):
        if isinstance(o, SArr):
            return NotImplemented
        if o is None or isinstance(o, str):
            return S(z3.BoolVal(bool(ne)))
        try:
            ea, na, eb, nb = _pair(self, o)
        except InfConst as inf:  # a real compared with +-inf
            r = f(0, 1) if inf.pos else f(1, 0)
            c = z3.BoolVal(bool(r))
            if self.nan is not None:
                c = z3.Or(self.nan, c) if ne else z3.And(z3.Not(self.nan), c)
            return S(c)
        if ea.sort() == B and eb.sort() == B:
            c = f(_arith(ea), _arith(eb))
        elif ea.sort() in (RowSort, ObjSort) or eb.sort() in (RowSort, ObjSort):
            if ea.sort() != eb.sort():
                raise Unsupported("comparison of opaque and numeric")
            c = f(ea, eb)
        else:
            c = f(*_num2(ea, eb))
        n = _or(na, nb)
        if n is not None:
            c = z3.Or(n, c) if ne else z3.And(z3.Not(n), c)
        return S(c)

    def __eq__(s, o):
        return s._cmp(o, lambda x, y: x == y)

    def __ne__(s, o):
        return s._cmp(o, lambda x, y: x != y, ne=True)

    def __lt__(s, o):
        return s._cmp(o, lambda x, y: x < y)

    def __le__(s, o):
        return s._cmp(o, lambda x, y: x <= y)

    def __gt__(s, o):
        return s._cmp(o, lambda x, y: x > y)

    def __ge__(s, o):
        return s._cmp(o, lambda x, y: x >= y)

    def _bool(self, o, f):
        if isinstance(o, SArr):
            return NotImplemented
        ea, _, eb, _ = _pair(self, o)
        if ea.sort() != B or eb.sort() != B:
            raise Unsupported("bitwise op on non-booleans")
        return S(f(ea, eb))

    def __and__(s, o):
        return s._bool(o, z3.And)

    __rand__ = __and__

    def __or__(s, o):
        return s._bool(o, z3.Or)

    __ror__ = __or__

    def __xor__(s, o):
        return s._bool(o, z3.Xor)

    def __invert__(s):
        if s.e.sort() == B:
            return S(z3.Not(s.e))
        return S(-s.e - 1)

    # scalar numpy-isms
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        import numpy as np

        return {"i": np.dtype(int), "f": np.dtype(float), "b": np.dtype(bool)}[self.kind]

    def item(self):
        return self

    def astype(self, dt, **kw):
        return cast(self, dtkind(dt))


def dtkind(dt):
    import numpy as np

    if isinstance(dt, str) and dt in ("i", "f", "b", "row", "o"):
        return dt
    if isinstance(dt, SDtype):
        return dt.k
    try:
        k = np.dtype(dt).kind
    except TypeError:
        raise Unsupported(f"dtype {dt!r}")
    if k in "iu":
        return "i"
    if k == "f":
        return "f"
    if k == "b":
        return "b"
    raise Unsupported(f"dtype {dt!r}")


class SDtype:
    """dtype of a symbolic array."""

    def __init__(self, k):
        self.k = k

    @property
    def kind(self):
        return {"i": "i", "f": "f", "b": "b", "row": "f", "o": "O"}[self.k]

    @property
    def type(self):
        import numpy as np

        return {"i": np.int64, "f": np.float64, "b": np.bool_, "row": np.float64}[self.k]

    def __eq__(self, o):
        try:
            return self.k == dtkind(o) or (self.k == "row" and dtkind(o) == "f")
        except Unsupported:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)


def cast(s, k):
    if not isinstance(s, S):
        s = S(*_toz(s))
    if s.kind == k:
        return s
    if k == "f":
        return S(to_real(_arith(s.e)), s.nan)
    if k == "i":
        if s.kind == "b":
            return S(_arith(s.e))
        e = s.e  # truncation towards zero
        return S(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if k == "b":
        c = _arith(s.e) != 0
        if s.nan is not None:
            c = z3.Or(s.nan, c)
        return S(c)
    raise Unsupported(f"cast {s.kind} -> {k}")


def promote(k1, k2):
    if k1 == k2:
        return k1
    order = ["b", "i", "f"]
    if k1 in order and k2 in order:
        return order[max(order.index(k1), order.index(k2))]
    if {k1, k2} == {"row", "f"}:
        return "row"
    raise Unsupported(f"promotion {k1},{k2}")


def ite(c, a, b):
    """S-level if-then-else."""
    if isinstance(c, S):
        c = c.e
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    ea, na = _toz(a)
    eb, nb = _toz(b)
    if ea.sort() != eb.sort():
        ea, eb = _num2(ea, eb)
    nan = None
    if na is not None or nb is not None:
        f = z3.BoolVal(False)
        nan = z3.If(c, na if na is not None else f, nb if nb is not None else f)
    return S(z3.If(c, ea, eb), nan)


def same(a, b):
    """Value identity as a z3 Bool: equal values, or both NaN."""
    ea, na = _toz(a)
    eb, nb = _toz(b)
    if ea.sort() in (RowSort, ObjSort) or eb.sort() in (RowSort, ObjSort):
        if ea.sort() != eb.sort():
            return z3.BoolVal(False)
        return ea == eb
    if ea.sort() == B and eb.sort() == B:
        return ea == eb
    x, y = _num2(ea, eb)
    if na is None and nb is None:
        return x == y
    f = z3.BoolVal(False)
    na = na if na is not None else f
    nb = nb if nb is not None else f
    return z3.And(na == nb, z3.Or(na, x == y))


def zi(v):
    """to z3 Int term"""
    if isinstance(v, S):
        if v.kind == "b":
            return _arith(v.e)
        if v.kind != "i":
            raise Unsupported("non-integer where an integer is needed")
        return v.e
    if z3.is_expr(v):
        return v
    import numpy as np

    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    raise Unsupported(f"integer expected, got {type(v).__name__}")


def dim(v):
    """normalise a dimension: python int when constant, else S"""
    e = z3.simplify(zi(v))
    if z3.is_int_value(e):
        return e.as_long()
    return S(e)


# ---------------------------------------------------------------- arrays
class SArr:
    """Symbolic ndarray: shape (ints or S) and an element function."""

    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, shape, k, fn, inv=None, tag=None, base=None):
        self._shape = tuple(dim(d) for d in shape)
        self.k = k
        self.fn = fn  # (z3 Int terms...) -> S
        self.tag = tag
        self.base = base  # view of (forbids in-place writes)
        self.version = 0
        self.inv = inv  # optional (member(i)->z3 Bool, pos(i)->z3 Int)

    @property
    def inv(self):
        """inverse of the element function, dropped once the array (or the one
        it is a view of) has been written to"""
        return self._inv if self._inv is not None and self._versions() == self._inv_at else None

    @inv.setter
    def inv(self, v):
        self._inv = v
        self._inv_at = self._versions() if v is not None else None

    def _versions(self):
        return (self.version,) + (self.base._versions() if self.base is not None else ())

    # row arrays: shape (n,d) but fn takes one index and returns an opaque row
    @property
    def rows(self):
        return self.k == "row"

    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = r * d
        return r

    @property
    def dtype(self):
        return SDtype(self.k)

    @property
    def T(self):
        from . import npmodel

        return npmodel.transpose(self)

    def at(self, *idx):
        return self.fn(*[zi(i) for i in idx])

    def n(self):
        return zi(self._shape[0])

    def __len__(self):
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("native len() of symbolic array")

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __iter__(self):
        d = self._shape[0]
        if isinstance(d, int):
            return iter([self[i] for i in range(d)])
        raise Unsupported("native iteration over symbolic array")

    def __repr__(self):
        return f"SArr{self._shape}:{self.k}"

    def __hash__(self):
        return id(self)

    def snapshot(self):
        """An immutable copy (value semantics)."""
        return SArr(self._shape, self.k, self.fn, self.inv, self.tag)

    def __getitem__(self, ix):
        from . import npmodel

        return npmodel.getitem(self, ix)

    def __setitem__(self, ix, v):
        from . import npmodel

        npmodel.setitem(self, ix, v)

    def _u(self, op):
        from . import npmodel

        return npmodel.unary(self, op)

    def _b(self, o, op, swap=False):
        from . import npmodel

        return npmodel.binary(o, self, op) if swap else npmodel.binary(self, o, op)

    def __add__(s, o):
        return s._b(o, "+")

    def __radd__(s, o):
        return s._b(o, "+", True)

    def __sub__(s, o):
        return s._b(o, "-")

    def __rsub__(s, o):
        return s._b(o, "-", True)

    def __mul__(s, o):
        return s._b(o, "*")

    def __rmul__(s, o):
        return s._b(o, "*", True)

    def __truediv__(s, o):
        return s._b(o, "/")

    def __rtruediv__(s, o):
        return s._b(o, "/", True)

    def __floordiv__(s, o):
        return s._b(o, "//")

    def __mod__(s, o):
        return s._b(o, "%")

    def __pow__(s, o):
        return s._b(o, "**")

    def __matmul__(s, o):
        from . import npmodel

        return npmodel.matmul(s, o)

    def __rmatmul__(s, o):
        from . import npmodel

        return npmodel.matmul(o, s)

    def __neg__(s):
        return s._u("-")

    def __invert__(s):
        return s._u("~")

    def __abs__(s):
        return s._u("abs")

    def __eq__(s, o):
        return s._b(o, "==")

    def __ne__(s, o):
        return s._b(o, "!=")

    def __lt__(s, o):
        return s._b(o, "<")

    def __le__(s, o):
        return s._b(o, "<=")

    def __gt__(s, o):
        return s._b(o, ">")

    def __ge__(s, o):
        return s._b(o, ">=")

    def __and__(s, o):
        return s._b(o, "&")

    def __rand__(s, o):
        return s._b(o, "&", True)

    def __or__(s, o):
        return s._b(o, "|")

    def __ror__(s, o):
        return s._b(o, "|", True)

    def __xor__(s, o):
        return s._b(o, "^")


def is_sym(v, depth=4):
    """Does a value contain anything symbolic?"""
    if isinstance(v, (S, SArr, SSeq, SMap, SDtype)) or getattr(v, "_dv_sym", False):
        return True
    if depth <= 0:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(is_sym(x, depth - 1) for x in v)
    if isinstance(v, dict):
        return any(is_sym(x, depth - 1) for x in v.values()) or any(
            isinstance(x, S) for x in v.keys()
        )
    if isinstance(v, slice):
        return is_sym(v.start) or is_sym(v.stop) or is_sym(v.step)
    return False


# ------------------------------------------------ symbolic python sequences
class SSeq:
    """A python list/tuple of symbolic length: item(j) gives the value."""

    def __init__(self, n, item, prefix=()):
        self.n = dim(n)
        self.item = item
        self.prefix = list(prefix)  # concrete head

    def total(self):
        return dim(S(zi(self.n) + len(self.prefix)))

    def get(self, j):
        """j: z3 Int within the whole sequence"""
        if not self.prefix:
            return self.item(zi(j))
        raise Unsupported("indexing into a mixed sequence")


class SMap:
    """A python dict filled by a loop over j<n: key(j) -> val(j), guard(j)."""

    def __init__(self, n, key, val, guard=None, injective=True):
        self.n = dim(n)
        self.key = key
        self.val = val
        self.guard = guard
        self.injective = injective
