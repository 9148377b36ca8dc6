"""Specification helpers: building symbolic inputs, stating postconditions."""
import numpy as np

from . import npmodel
from .core import (
    KIND, S, SArr, SMap, SSeq, Unsupported, _toz, ctx, dim, same, z3, zi, I, B, R, RowSort,
)
from .npmodel import arr_uf, iv, length


def And(*a):
    return S(z3.And([_b(x) for x in a]))


def Or(*a):
    return S(z3.Or([_b(x) for x in a]))


def Not(a):
    return S(z3.Not(_b(a)))


def Implies(a, b):
    return S(z3.Implies(_b(a), _b(b)))


def Iff(a, b):
    return S(_b(a) == _b(b))


def _b(x):
    if isinstance(x, S):
        if x.kind != "b":
            raise TypeError("boolean expected")
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    return x


def Same(a, b):
    """value identity (NaN equals NaN)"""
    if isinstance(a, npmodel.RowVal):
        a = a.s
    if isinstance(b, npmodel.RowVal):
        b = b.s
    return S(same(a, b))


def forall_idx(n, f, base="x"):
    """skolemised universal goal: f(i) for an arbitrary 0<=i<n"""
    i = S(ctx().fresh("i", base))
    return Implies(And(i >= 0, i < S(zi(n))), f(i))


def forall2(n, f):
    i, j = S(ctx().fresh("i", "x")), S(ctx().fresh("i", "y"))
    n = S(zi(n))
    return Implies(And(i >= 0, i < n, j >= 0, j < n), f(i, j))


def assume(e):
    ctx().assume(_b(e))


def assume_forall(n, f, patterns_of=None):
    """assume f(i) for all 0<=i<n"""
    c = ctx()
    i = iv("i")
    body = _b(f(S(i)))
    trig = npmodel.triggers(body, [i])
    c.forall([i], z3.Implies(z3.And(0 <= i, i < zi(n)), body), trig)


def ints(n, name="a"):
    return arr_uf(name, (n,), "i", tag=name)


def floats(n, name="a", nan=False):
    return arr_uf(name, (n,), "f", nan=nan, tag=name)


def bools(n, name="a"):
    return arr_uf(name, (n,), "b", tag=name)


def rows(n, d=None, name="X"):
    """rows of a 2-D array, each an opaque value carrying a ghost identity:
    tag(X[i]) == i and src(X[i]) == a number unique to this array."""
    d = length("d", 1) if d is None else d
    c = ctx()
    a = arr_uf(name, (n, d), "row", tag=name)
    q = c.memo.setdefault("nsrc", 0)
    c.memo["nsrc"] = q + 1
    i = iv("i")
    r = a.uf(i)
    c.forall([i], z3.And(TAG(r) == i, SRC(r) == q), [r])
    a.src = q
    return a


TAG = z3.Function("row_tag", RowSort, I)
SRC = z3.Function("row_src", RowSort, I)


def tag(row):
    """ghost identity (original position) of an opaque row"""
    if isinstance(row, npmodel.RowVal):
        row = row.s
    return S(TAG(row.e))


def src(row):
    if isinstance(row, npmodel.RowVal):
        row = row.s
    return S(SRC(row.e))


def matrix(n, d, name="X"):
    return arr_uf(name, (n, d), "f", tag=name)


def el(a, i):
    """element of a symbolic or concrete 1-D array (row for row arrays)"""
    a = npmodel.lit(a) if not isinstance(a, SArr) else a
    if a.ndim == 0:
        raise ValueError("0-d")
    return a.fn(zi(i))


def el2(a, i, j):
    return a.fn(zi(i), zi(j))


def ln(a):
    if isinstance(a, SSeq):
        return S(zi(a.total()))
    if isinstance(a, SMap):
        return S(zi(a.n))
    if isinstance(a, SArr):
        return S(zi(a.shape[0]))
    return S(zi(len(a)))


def arr_same(a, b):
    """same length and the same elements (skolemised)"""
    a, b = npmodel.lit(a), npmodel.lit(b)
    if isinstance(a, S) or isinstance(b, S) or a.ndim != b.ndim or a.rows != b.rows:
        return S(z3.BoolVal(False))
    cs = [S(zi(x) == zi(y)) for x, y in zip(a.shape, b.shape)]
    c = ctx()
    nd = 1 if a.rows else a.ndim
    ix = [c.fresh("i", "x") for _ in range(nd)]
    rng = And(*[And(S(0 <= q), S(q < zi(d))) for q, d in zip(ix, a.shape)])
    cs.append(Implies(rng, Same(a.fn(*ix), b.fn(*ix))))
    return And(*cs)


def is_array(v):
    return isinstance(v, (SArr, np.ndarray))




def fresh_int(base="x"):
    return S(ctx().fresh("i", base))


def cut(P, name, n, f, pats=None):
    """prove f(k) for an arbitrary 0<=k<n, then use it for all k (a lemma)"""
    k = fresh_int("k")
    ok = P(name, Implies(And(k >= 0, k < n), f(k)))
    if ok:
        q = iv("q")
        ctx().forall([q], z3.Implies(z3.And(0 <= q, q < zi(n)), _b(f(S(q)))), pats(q) if pats else [])
    return ok


def exists_idx(n, f, arr=None):
    """exists 0<=k<n. f(k) as a goal (z3 finds the witness)"""
    k = iv("k")
    return S(z3.Exists([k], z3.And(0 <= k, k < zi(n), _b(f(S(k))))))


def prove_selection(P, label, out, X, pred, companions=(), order=True):
    """out (opaque rows) is exactly the subsequence of X at the positions where
    pred holds, in order; each companion (out_c, src_c) selects the same
    positions."""
    n, m = ln(X), ln(out)
    k, k2, i = fresh_int("k"), fresh_int("k2"), fresh_int("i")
    inr = And(k >= 0, k < m)
    r = el(out, k)
    t = tag(r)
    P(f"{label}: every output row is an input row that qualifies",
      Implies(inr, And(t >= 0, t < n, Same(r, el(X, t)), pred(t))))
    if order:
        P(f"{label}: input order is kept, no row twice",
          Implies(And(inr, k2 > k, k2 < m), tag(el(out, k2)) > t))
    P(f"{label}: no qualifying row is lost",
      Implies(And(i >= 0, i < n, pred(i)), exists_idx(m, lambda q: tag(el(out, q)) == i)))
    for q, (o, s) in enumerate(companions):
        P(f"{label}: companion array {q} has the same length", ln(o) == m)
        P(f"{label}: companion array {q} stays aligned with the rows",
          Implies(inr, Same(el(o, k), el(s, t))))


__all__ = [n for n in list(globals()) if not n.startswith("__") and n not in ("I", "B", "R", "np", "S", "KIND", "RowSort")]
