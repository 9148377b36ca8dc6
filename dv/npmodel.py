"""Assumed contracts of numpy on symbolic arrays (the trusted base).

Every model here is an *assumed contract on a dependency*: it is listed in the
evidence when used and is cross-checked against the real numpy by
dv/crosscheck.py on concrete arrays.
"""
import math

import numpy as np

from .core import RowSort
from .core import (
    B, I, R, KIND, S, SArr, SDtype, Unsupported, _arith, _toz, cast, ctx, dim,
    dtkind, is_sym, ite, promote, same, z3, zi,
)


# ------------------------------------------------------------------ helpers
def note(name):
    ctx().assumed.add(name)


def iv(base="i"):
    return z3.Int(ctx().name(base))


def arr_uf(base, shape, k, nan=False, tag=None):
    """A fresh, unconstrained symbolic array."""
    c = ctx()
    nidx = 1 if k == "row" else len(shape)
    f = c.func(base, *([I] * nidx), KIND[k])
    g = c.func(base + "_nan", *([I] * nidx), B) if nan else None
    a = SArr(
        shape, k, lambda *ix: S(f(*ix), g(*ix) if g is not None else None), tag=tag
    )
    a.uf = f
    a.uf_nan = g
    return a


def length(base="n", lo=0):
    c = ctx()
    n = c.fresh("i", base)
    c.fact(n >= lo)
    c.memo.setdefault("lengths", []).append(n)
    return S(n)


def lit(a):
    """lift a concrete ndarray / list / scalar into the symbolic world"""
    if isinstance(a, (SArr, S, MatPoly)):
        return a
    if isinstance(a, (bool, int, float, np.generic)):
        return S(*_toz(a))
    if isinstance(a, (list, tuple)):
        if any(isinstance(x, (S,)) for x in a):
            items = [x if isinstance(x, S) else S(*_toz(x)) for x in a]
            k = items[0].kind
            for it in items:
                k = promote(k, it.kind)
            items = [cast(x, k) for x in items]

            def fn(i, items=items):
                i = z3.simplify(i)
                if z3.is_int_value(i) and 0 <= i.as_long() < len(items):
                    return items[i.as_long()]
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = ite(i == j, items[j], r)
                return r

            return SArr((len(items),), k, fn)
        if any(is_sym(x) for x in a):
            if all(isinstance(x, (SArr,)) for x in a) and len(a):
                return stack(list(a))
            raise Unsupported("array of mixed symbolic items")
        a = np.asarray(a)
    if isinstance(a, np.ndarray):
        if a.dtype.kind not in "iufb":
            raise Unsupported("array dtype")
        k = dtkind(a.dtype)
        vals = a.copy()

        def fn(*ix):
            ix = [z3.simplify(zi(i)) for i in ix]
            if all(z3.is_int_value(i) for i in ix):
                t = tuple(i.as_long() for i in ix)
                if all(0 <= t[d] < vals.shape[d] for d in range(len(t))):
                    return S(*_toz(vals[t]))
            if vals.size == 0:
                return S(*_toz(vals.dtype.type(0)))
            r = None
            for t in np.ndindex(*vals.shape):
                v = S(*_toz(vals[t]))
                c = z3.And([ix[d] == t[d] for d in range(len(t))])
                r = v if r is None else ite(c, v, r)
            return r

        return SArr(a.shape, k, fn)
    from .core import SSeq

    if type(a).__module__ == "torch" and hasattr(a, "detach"):
        return lit(a.detach().numpy())
    if isinstance(a, SSeq) and not a.prefix:
        probe = a.item(z3.Int("i0!canon"))
        if isinstance(probe, S):
            it = a.item
            return SArr((a.n,), probe.kind, lambda i: it(zi(i)))
    raise Unsupported(f"cannot lift {type(a).__name__}")


def deq(a, b):
    """decide equality of two dimensions (may fork)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = z3.simplify(zi(a) == zi(b))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return ctx().branch(e)


def triggers(e, vs):
    """uninterpreted applications inside e that mention all of vs directly"""
    out, seen = [], set()
    ids = {v.get_id() for v in vs}

    def go(t):
        if t.get_id() in seen or not z3.is_app(t):
            return
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            if ids <= {a.get_id() for a in t.children()}:
                if all(z3.is_var(a) or z3.is_const(a) or True for a in t.children()):
                    out.append(t)
        for ch in t.children():
            go(ch)

    go(e)
    # drop triggers nested in arithmetic arguments: keep those with plain args
    plain = [t for t in out if all(z3.is_const(a) for a in t.children())]
    return plain or out


# ------------------------------------------------------------------ ufuncs
def _pow(x, y):
    if isinstance(y, S):
        v = z3.simplify(y.e)
        if z3.is_int_value(v):
            return x ** v.as_long()
        if z3.is_rational_value(v) and v.denominator_as_long() == 1:
            return x ** v.numerator_as_long()
    return x**y


OPS = {
    "+": lambda x, y: x + y,
    "-": lambda x, y: x - y,
    "*": lambda x, y: x * y,
    "/": lambda x, y: x / y,
    "//": lambda x, y: x // y,
    "%": lambda x, y: x % y,
    "**": _pow,
    "==": lambda x, y: x == y,
    "!=": lambda x, y: x != y,
    "<": lambda x, y: x < y,
    "<=": lambda x, y: x <= y,
    ">": lambda x, y: x > y,
    ">=": lambda x, y: x >= y,
    "&": lambda x, y: x & y,
    "|": lambda x, y: x | y,
    "^": lambda x, y: x ^ y,
    "max": lambda x, y: ite(x >= y, x, y),
    "min": lambda x, y: ite(x <= y, x, y),
}
CMP = {"==", "!=", "<", "<=", ">", ">="}


def res_kind(op, k1, k2):
    if op in CMP:
        return "b"
    k = promote(k1, k2)
    if op == "/":
        return "f"
    if op in ("&", "|", "^"):
        if k != "b":
            raise Unsupported("integer bitwise operation")
        return "b"
    if op in ("+", "-", "*", "**") and k == "b":
        return "b" if op in ("+", "*") and False else "i"
    return k


class OpVec:
    """an opaque vector (a mean of rows, a bias); rows +/- it are opaque rows"""

    _dv_native = True
    _dv_sym = True

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f"OpVec({self.key})"

    def __eq__(self, o):
        return type(o) is type(self) and o.key == self.key

    __hash__ = None

    def _dv_subst(self, f):
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        r.key = f(self.key)
        return r


class OpMat(OpVec):
    """an opaque matrix, a product `word` of opaque factors; row @ (A B) is
    (row @ A) @ B by construction (associativity of the matrix product);
    `cols`: number of columns, None for a square matrix"""

    def __init__(self, *word, cols=None, nrows=None):
        self.key = tuple(word)
        self.cols = cols
        self.nrows = nrows

    def __matmul__(self, o):
        if isinstance(o, OpMat):
            return OpMat(*(self.key + o.key), cols=self.cols if o.cols is None else o.cols, nrows=self.nrows)
        return NotImplemented

    def dot(self, o):
        return matmul(self, o)

    @property
    def T(self):
        return OpMat(*[(w[0] if type(w) is tuple and w[1:] == ("T",) else (w, "T")) for w in reversed(self.key)],
                     cols=self.nrows, nrows=self.cols)


def op_id(key):
    if isinstance(key, tuple) and any(isinstance(x, S) for x in key):
        # factor (name, i): one of a family indexed by a number
        name = "op_" + "_".join(str(x) for x in key if not isinstance(x, S))
        xs = [x.e for x in key if isinstance(x, S)]
        return z3.Function(name, *([I] * len(xs)), I)(*xs)
    t = ctx().memo.setdefault("op_ids", {})
    return z3.IntVal(t.setdefault(repr(key), len(t)))


ROWMUL = z3.Function("row_mul", RowSort, I, RowSort)
ROWADD = z3.Function("row_add", RowSort, I, RowSort)
ROWSUB = z3.Function("row_sub", RowSort, I, RowSort)


def row_matmul(r, m):
    for w in m.key:
        r = S(ROWMUL(r.e, op_id(w)))
    return r


def row_op(r, v, op):
    return S({"+": ROWADD, "-": ROWSUB}[op](r.e, op_id(v.key)))


class MatPoly:
    """a matrix expression: a sum of scalar * product of leaf matrices (SArr of
    numbers), kept as written up to associativity, distributivity and scalar
    factors, which hold over the reals"""

    _dv_native = True
    _dv_sym = True
    __hash__ = None

    def __init__(self, shape, terms):
        self.shape, self.terms = shape, terms   # terms: [(coefficient, (leaf, ...))]
        self.ndim = 2

    @staticmethod
    def of(a):
        a = lit(a)
        if isinstance(a, MatPoly):
            return a
        if isinstance(a, SArr) and a.ndim == 2 and not a.rows:
            return MatPoly(a.shape, [(1, (a.snapshot(),))])
        raise Unsupported("matrix expression")

    @property
    def T(self):
        return MatPoly(self.shape[::-1], [(c, tuple(transpose(l) for l in reversed(w))) for c, w in self.terms])

    def scale(self, k):
        return MatPoly(self.shape, [(c * k, w) for c, w in self.terms])

    def mul(self, o):
        if not deq(self.shape[1], o.shape[0]):
            raise ValueError("matmul: dimension mismatch")
        note("distributivity and associativity of the matrix product")
        return MatPoly((self.shape[0], o.shape[1]), [(c * d, v + w) for c, v in self.terms for d, w in o.terms])

    def add(self, o, sign=1):
        if not (deq(self.shape[0], o.shape[0]) and deq(self.shape[1], o.shape[1])):
            raise ValueError("operands could not be broadcast together")
        return MatPoly(self.shape, self.terms + o.scale(sign).terms)

    def copy(self):
        return self

    def dot(self, o):
        return matmul(self, o)

    def _dv_subst(self, f):
        return MatPoly(f(self.shape), [(f(c), tuple(f(l) for l in w)) for c, w in self.terms])


def poly_binary(a, b, op):
    num = lambda x: isinstance(x, (S, int, float, np.generic)) or (isinstance(x, SArr) and x.ndim == 0)
    if op == "*" and num(a):
        return b.scale(a)
    if op in ("*", "/") and num(b):
        return a.scale(b if op == "*" else 1 / b)
    if op in ("+", "-") and not num(a) and not num(b):
        return MatPoly.of(a).add(MatPoly.of(b), 1 if op == "+" else -1)
    raise Unsupported(f"matrix expression: {op}")


def op_binary(a, b, op):
    if isinstance(a, SArr) and a.rows and type(b) is OpVec and op in ("+", "-"):
        f = a.fn
        return SArr(a.shape, "row", lambda *ix: row_op(f(*ix), b, op))
    if isinstance(b, SArr) and b.rows and type(a) is OpVec and op == "+":
        return op_binary(b, a, op)
    raise Unsupported("operator on opaque vectors")


def binary(a, b, op):
    if isinstance(a, MatPoly) or isinstance(b, MatPoly):
        return poly_binary(a, b, op)
    if isinstance(a, OpVec) or isinstance(b, OpVec):
        return op_binary(a, b, op)
    if op in ("==", "!=") and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
        o = a if isinstance(a, SArr) else b
        v = op == "!="
        return SArr(o.shape, "b", lambda *ix: S(z3.BoolVal(v)))
    a, b = lit(a), lit(b)
    note("numpy elementwise operators and broadcasting")
    if isinstance(a, S) and isinstance(b, S):
        return OPS[op](a, b)
    if (isinstance(a, SArr) and a.rows) or (isinstance(b, SArr) and b.rows):
        raise Unsupported("elementwise operation on opaque rows")
    if op == "+" and (a.kind if isinstance(a, S) else a.k) == "b" and (b.kind if isinstance(b, S) else b.k) == "b":
        op = "|"
    if op == "*" and (a.kind if isinstance(a, S) else a.k) == "b" and (b.kind if isinstance(b, S) else b.k) == "b":
        op = "&"
    f = OPS[op]
    if isinstance(a, S):
        bf = b.fn
        k = res_kind(op, a.kind, b.k)
        return SArr(b.shape, k, lambda *ix: f(a, bf(*ix)))
    if isinstance(b, S):
        af = a.fn
        k = res_kind(op, a.k, b.kind)
        return SArr(a.shape, k, lambda *ix: f(af(*ix), b))
    shape, ga, gb = broadcast(a, b)
    k = res_kind(op, a.k, b.k)
    return SArr(shape, k, lambda *ix: f(ga(*ix), gb(*ix)))


def broadcast(a, b):
    na, nb = a.ndim, b.ndim
    nd = max(na, nb)
    sa = (1,) * (nd - na) + a.shape
    sb = (1,) * (nd - nb) + b.shape
    shape, za, zb = [], [], []
    for i in range(nd):
        x, y = sa[i], sb[i]
        if x == 1 and isinstance(x, int):
            shape.append(y); za.append(not (isinstance(y, int) and y == 1)); zb.append(False)
        elif y == 1 and isinstance(y, int):
            shape.append(x); za.append(False); zb.append(True)
        elif deq(x, y):
            shape.append(x); za.append(False); zb.append(False)
        elif deq(x, 1):
            shape.append(y); za.append(True); zb.append(False)
        elif deq(y, 1):
            shape.append(x); za.append(False); zb.append(True)
        else:
            raise ValueError("operands could not be broadcast together")
    af, bf = a.fn, b.fn

    def ga(*ix):
        ix = ix[nd - na:]
        m = za[nd - na:]
        return af(*[z3.IntVal(0) if m[d] else ix[d] for d in range(na)])

    def gb(*ix):
        ix = ix[nd - nb:]
        m = zb[nd - nb:]
        return bf(*[z3.IntVal(0) if m[d] else ix[d] for d in range(nb)])

    return tuple(shape), ga, gb


def where3(c, a, b):
    note("numpy.where")
    c, a, b = lit(c), lit(a), lit(b)
    if isinstance(c, S):
        return ite(c, a, b)

    def wrap(x):
        return x if isinstance(x, SArr) else SArr((1,) * c.ndim, x.kind, lambda *ix: x)

    a, b = wrap(a), wrap(b)
    sh, gc, ga = broadcast(c, a)
    cc = SArr(sh, "b", gc)
    aa = SArr(sh, a.k, ga)
    sh2, gc2, gb = broadcast(cc, b)
    if len(sh2) != len(sh):
        raise Unsupported("where broadcasting")
    _, ga2, _ = broadcast(aa, SArr(sh2, "b", gc2))
    k = promote(a.k, b.k)
    return SArr(sh2, k, lambda *ix: ite(gc2(*ix), cast(ga2(*ix), k), cast(gb(*ix), k)))


def unary(a, op):
    a = lit(a)
    f = {
        "-": lambda x: -x,
        "~": lambda x: ~x,
        "abs": lambda x: abs(x),
        "isnan": lambda x: S(x.nan if x.nan is not None else z3.BoolVal(False)),
        "isfinite": lambda x: S(z3.Not(x.nan) if x.nan is not None else z3.BoolVal(True)),
    }[op]
    if isinstance(a, S):
        return f(a)
    if a.rows:
        raise Unsupported("elementwise operation on opaque rows")
    if op == "~" and a.k not in ("b", "i"):
        raise TypeError("ufunc 'invert' not supported for the input types")
    k = "b" if op in ("isnan", "isfinite") else a.k
    af = a.fn
    return SArr(a.shape, k, lambda *ix: f(af(*ix)))


def uf1(name, axioms=None):
    """a transcendental function as an uninterpreted real function"""

    def model(x, *args, **kw):
        if kw or args:
            raise Unsupported(f"{name} options")
        x = lit(x)
        c = ctx()
        key = ("uf1", name)
        if key not in c.memo:
            f = z3.Function("np_" + name, R, R)
            c.memo[key] = f
            if axioms:
                axioms(c, f)
            c.inexact.append(name)
            note(f"numpy.{name} (uninterpreted function with listed axioms)")
        f = c.memo[key]

        def g(s):
            e = _arith(s.e)
            if e.sort() == I:
                e = z3.ToReal(e)
            return S(f(e), s.nan)

        if isinstance(x, S):
            return g(x)
        xf = x.fn
        return SArr(x.shape, "f", lambda *ix: g(xf(*ix)))

    return model


def _ax_sqrt(c, f):
    t = z3.Real("t!sqrt")
    c.forall([t], z3.Implies(t >= 0, z3.And(f(t) >= 0, f(t) * f(t) == t)), [f(t)])


def _ax_exp(c, f):
    t = z3.Real("t!exp")
    c.forall([t], f(t) > 0, [f(t)])


# ------------------------------------------------------------------ masks
class Comp:
    """Compaction of a boolean mask over [0,n): the increasing enumeration of
    the positions where the mask holds."""

    def __init__(self, n, mask):
        c = ctx()
        self.n = zi(n)
        self.mask = mask
        m = c.fresh("i", "cnt")
        self.m = m
        c.memo.setdefault("lengths", []).append(m)
        sel = c.func("sel", I, I)
        rank = c.func("rank", I, I)
        self.sel, self.rank = sel, rank
        n = self.n
        k, k2, i = iv("k"), iv("k2"), iv("i")
        mk = lambda t: mask(t).e
        c.fact(z3.And(m >= 0, m <= n))
        c.forall(
            [k],
            z3.Implies(
                z3.And(0 <= k, k < m),
                z3.And(0 <= sel(k), sel(k) < n, mk(sel(k)), rank(sel(k)) == k),
            ),
            [sel(k)],
        )
        body = mk(i)
        trig = [rank(i)] + triggers(body, [i])
        c.forall(
            [i],
            z3.Implies(
                z3.And(0 <= i, i < n, body),
                z3.And(0 <= rank(i), rank(i) < m, sel(rank(i)) == i),
            ),
            trig,
        )
        c.forall(
            [k, k2],
            z3.Implies(z3.And(0 <= k, k < k2, k2 < m), sel(k) < sel(k2)),
            [z3.MultiPattern(sel(k), sel(k2))],
        )

    def index_array(self):
        return SArr(
            (S(self.m),), "i", lambda k: S(self.sel(k)),
            inv=(lambda i: z3.And(0 <= i, i < self.n, self.mask(i).e), lambda i: self.rank(i)),
            tag=("sel", self),
        )


_I0 = z3.Int("i0!canon")


def compaction(mask_arr):
    """mask_arr: 1-D boolean SArr.  Extensionally equal masks share one object."""
    c = ctx()
    note("numpy boolean-mask indexing / nonzero (order-preserving compaction)")
    f = mask_arr.fn
    n = zi(mask_arr.shape[0])
    key = (z3.simplify(n).sexpr(), z3.simplify(f(_I0).e).sexpr())
    tab = c.memo.setdefault("comp_tab", {})
    if key in tab:
        return tab[key]
    i = iv("q")
    rng = z3.And(0 <= i, i < n)
    mi = f(i).e
    negs = []
    for co in c.compactions:
        if not z3.eq(z3.simplify(co.n), z3.simplify(n)):
            if not c.entails(co.n == n, 200):
                continue
        oi = co.mask(i).e
        if c.entails(z3.Implies(rng, mi == oi)):
            tab[key] = co
            return co
        if c.entails(z3.Implies(rng, mi == z3.Not(oi))):
            negs.append(co)
    co = Comp(n, f)
    c.compactions.append(co)
    ground_uniques(mi, i)
    tab[key] = co
    for o in negs:
        c.fact(co.m + o.m == n)
    # all-true / all-false masks
    if c.entails(z3.Implies(rng, mi)):
        c.fact(co.m == n)
        k = iv("k")
        c.forall([k], z3.Implies(z3.And(0 <= k, k < n), co.sel(k) == k), [co.sel(k)])
    elif c.entails(z3.Implies(rng, z3.Not(mi))):
        c.fact(co.m == 0)
    else:
        c.forall([i], z3.Implies(z3.And(co.m == n, rng), mi), triggers(mi, [i]))
        # masks that are a prefix / suffix at a concatenation boundary
        # (lemma by induction on the count: the compaction of a contiguous
        # block enumerates the block)
        k = iv("k")
        for tot, cut in c.memo.get("cuts", [])[-6:]:
            if not (z3.eq(z3.simplify(tot), z3.simplify(n)) or c.entails(tot == n, 200)):
                continue
            if c.entails(z3.Implies(rng, mi == (i < cut)), 500):
                c.fact(co.m == cut)
                c.forall([k], z3.Implies(z3.And(0 <= k, k < co.m), co.sel(k) == k), [co.sel(k)])
                c.forall([k], z3.Implies(z3.And(0 <= k, k < co.m), co.rank(k) == k), [co.rank(k)])
                break
            if c.entails(z3.Implies(rng, mi == (i >= cut)), 500):
                c.fact(co.m == n - cut)
                c.forall([k], z3.Implies(z3.And(0 <= k, k < co.m), co.sel(k) == k + cut), [co.sel(k)])
                c.forall([k], z3.Implies(z3.And(cut <= k, k < n), co.rank(k) == k - cut), [co.rank(k)])
                break
    return co


def ground_uniques(e, i):
    """a value of an array's distinct ones, mentioned under a quantifier: its
    witness, as a ground fact (the solver matches ground terms only)"""
    c = ctx()
    if not c.uniques:
        return
    names = {q.u(_I0).decl().name(): q for q in c.uniques}
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        q = names.get(t.decl().name())
        if q is not None and t.num_args() == 1 and not contains(t, i):
            k = t.arg(0)
            w = q.wit(k)
            c.fact(z3.Implies(z3.And(0 <= k, k < q.m), z3.And(0 <= w, w < q.n, q.a.fn(w).e == t)))
        todo.extend(t.children())


def contains(t, v):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, v):
            return True
        todo.extend(x.children())
    return False


def nonzero1(mask_arr):
    if mask_arr.k != "b":
        mask_arr = cast_arr(mask_arr, "b")
    return compaction(mask_arr).index_array()


# ------------------------------------------------------------------ indexing
def in_bounds(idx, n):
    """idx: 1-D int SArr used on axis of length n; returns normalised index fn"""
    c = ctx()
    j = iv("b")
    m = zi(idx.shape[0])
    e = idx.fn(j).e
    n = zi(n)
    if c.entails(z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= e, e < n)), 1500):
        f = idx.fn
        return lambda k: f(k).e
    # out-of-range possible?
    w = c.fresh("i", "oob")
    ew = idx.fn(w).e
    bad = z3.And(0 <= w, w < m, z3.Or(ew < -n, ew >= n))
    t = iv("b")
    et = idx.fn(t).e
    p = c.fresh("b", "isoob")
    c.fact(z3.Implies(p, bad))
    c.forall(
        [t], z3.Implies(z3.And(z3.Not(p), 0 <= t, t < m), z3.And(et >= -n, et < n)),
        triggers(et, [t]),
    )
    if c.branch(p):
        raise IndexError("index out of bounds")
    f = idx.fn
    return lambda k: z3.If(f(k).e < 0, f(k).e + n, f(k).e)


def injective_inverse(ix, at):
    """the inverse of an index array whose entries are provably distinct"""
    c = ctx()
    i, j = iv("i"), iv("j")
    n = zi(ix.shape[0])
    if not c.entails(z3.Implies(z3.And(0 <= i, i < j, j < n), zi(at(i)) != zi(at(j))), 3000):
        return None
    p = c.func("where", I, I)
    k = iv("k")
    e = zi(at(k))
    c.forall([k], z3.Implies(z3.And(0 <= k, k < n), p(e) == k), triggers(e, [k]))
    return (lambda v: z3.And(0 <= p(zi(v)), p(zi(v)) < n, z3.substitute(e, (k, p(zi(v)))) == zi(v))), (lambda v: p(zi(v)))


def norm_int(i, n):
    """normalise a scalar index on an axis of length n (IndexError if outside)"""
    c = ctx()
    i, n = zi(i), zi(n)
    si = z3.simplify(i)
    if z3.is_int_value(si):
        v = si.as_long()
        ok = (n > v) if v >= 0 else (n >= -v)
        if not c.branch(ok):
            raise IndexError("index out of bounds")
        return si if v >= 0 else z3.simplify(n + v)
    if c.entails(z3.And(0 <= i, i < n)):
        return i
    if not c.branch(z3.And(i >= -n, i < n)):
        raise IndexError("index out of bounds")
    return z3.If(i < 0, i + n, i)


def named(e):
    """a name for a term that case distinctions keep out of patterns"""
    e = z3.simplify(e)
    if not any(z3.is_app_of(x, z3.Z3_OP_ITE) for x in subterms(e)):
        return e
    c = ctx()
    tab = c.memo.setdefault("named", {})
    key = e.sexpr()
    if key not in tab:
        v = c.fresh("i", "slice")
        c.fact(v == e)
        tab[key] = v
    return tab[key]


def subterms(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            yield x
            todo += x.children()


def slice_bounds(sl, n):
    """(start, length, step) for a slice on an axis of length n; step +1 / -1"""
    step = 1 if sl.step is None else sl.step
    if isinstance(step, S):
        raise Unsupported("symbolic slice step")
    n = zi(n)
    c = ctx()

    def clip(v):
        v = zi(v)
        if not c.qf_entails(v >= 0):
            if c.qf_entails(v < 0):
                v = v + n if c.qf_entails(v + n >= 0) else z3.If(v + n < 0, z3.IntVal(0), v + n)
            else:
                v = z3.If(v < 0, z3.If(v + n < 0, z3.IntVal(0), v + n), v)
        return v if c.qf_entails(v <= n) else z3.If(v > n, n, v)

    if step == 1:
        a = z3.IntVal(0) if sl.start is None else named(clip(sl.start))
        b = n if sl.stop is None else clip(sl.stop)
        ln = b - a if c.qf_entails(b >= a) else z3.If(b > a, b - a, z3.IntVal(0))
        return z3.simplify(a), z3.simplify(ln), 1
    if step == -1 and sl.start is None and sl.stop is None:
        return n - 1, n, -1
    if step > 1 and isinstance(step, int):
        a = z3.IntVal(0) if sl.start is None else clip(sl.start)
        b = n if sl.stop is None else clip(sl.stop)
        ln = z3.If(b > a, (b - a + step - 1) / step, z3.IntVal(0))
        return z3.simplify(a), z3.simplify(ln), step
    raise Unsupported("slice step")


class Ix_:
    """np.ix_"""

    _dv_sym = True

    def __init__(self, parts):
        self.parts = parts


def naxes(a):
    return 1 if a.rows else a.ndim


def axis_index(a, axis, key):
    """apply one key on one axis; returns (result array, axis kept?)"""
    nfn = naxes(a)
    af = a.fn
    live = a  # for views
    n = a.shape[axis]
    if axis >= nfn:
        if isinstance(key, slice) and key == slice(None):
            return a, True
        raise Unsupported("column access on opaque rows")

    def sub(ix, e):
        ix = list(ix)
        ix[axis] = e
        return ix

    if isinstance(key, slice):
        if key == slice(None):
            return a, True
        st, ln, step = slice_bounds(key, n)
        shape = list(a.shape)
        shape[axis] = S(ln)
        inv = None
        if a.ndim == 1 and a.inv is not None and step == 1:
            mem, pos = a.inv
            inv = (lambda v: z3.And(mem(v), st <= pos(v), pos(v) < st + ln)), (lambda v: pos(v) - st)
        r = SArr(shape, a.k, lambda *ix: live.fn(*sub(ix, st + step * ix[axis])), base=a, inv=inv)
        return r, True
    if isinstance(key, (list, np.ndarray)):
        if len(key) == 0:
            key = SArr((0,), "i", lambda i: S(z3.IntVal(0)))
        else:
            key = lit(key)
    if isinstance(key, SArr) and key.ndim == 0:
        key = key.fn()
    if isinstance(key, SArr):
        if key.ndim != 1:
            raise Unsupported("multi-dimensional fancy index")
        if key.k == "b":
            if not deq(key.shape[0], n):
                raise IndexError("boolean index did not match indexed array")
            co = compaction(key)
            shape = list(a.shape)
            shape[axis] = S(co.m)
            return SArr(shape, a.k, lambda *ix: af(*sub(ix, co.sel(ix[axis])))), True
        if key.k != "i":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        g = in_bounds(key, n)
        shape = list(a.shape)
        shape[axis] = key.shape[0]
        inv = None
        if key.inv is not None and a.inv is not None and nfn == 1:
            (m1, p1), (m2, p2) = a.inv, key.inv
            inv = (
                lambda v: z3.And(m1(v), m2(p1(v))),
                lambda v: p2(p1(v)),
            )
        return SArr(shape, a.k, lambda *ix: af(*sub(ix, g(ix[axis]))), inv=inv), True
    if isinstance(key, (S, int, np.integer)) and not isinstance(key, (bool, np.bool_)):
        if isinstance(key, S) and key.kind == "b":
            raise Unsupported("boolean scalar index")
        e = norm_int(key, n)
        if a.rows:
            r = S(af(e).e)
            return RowVal(r, a.shape[1:]), False
        shape = a.shape[:axis] + a.shape[axis + 1:]

        def fn(*ix):
            ix = list(ix)
            ix.insert(axis, e)
            return live.fn(*ix)

        if not shape:
            return af(e), False
        return SArr(shape, a.k, fn, base=a), False
    raise Unsupported(f"index {type(key).__name__}")


class RowVal:
    """one opaque row"""

    _dv_sym = True

    def __init__(self, s, shape):
        self.s = s
        self.shape = tuple(shape)
        self.ndim = len(self.shape)


def getitem(a, ix):
    note("numpy indexing (slices, integer arrays, scalars)")
    if isinstance(ix, Ix_):
        r = a
        for d, k in enumerate(ix.parts):
            r, _ = axis_index(r, d, k)
        return r
    if not isinstance(ix, tuple):
        ix = (ix,)
    if any(k is Ellipsis for k in ix):
        p = [d for d, k in enumerate(ix) if k is Ellipsis][0]
        fill = a.ndim - sum(1 for k in ix if k is not None and k is not Ellipsis)
        ix = ix[:p] + (slice(None),) * fill + ix[p + 1:]
    # boolean mask of full rank
    if len(ix) == 1 and isinstance(ix[0], SArr) and ix[0].k == "b" and ix[0].ndim == a.ndim > 1:
        raise Unsupported("2-D boolean mask read")
    adv = [d for d, k in enumerate(ix) if isinstance(k, (SArr, list, np.ndarray)) and getattr(k, "ndim", 1) > 0]
    if len(adv) > 1:
        if len(adv) == 2 and len(ix) == 2 and a.ndim == 2 and not a.rows:
            k0, k1 = lit(ix[0]), lit(ix[1])
            if k0.k == "b":
                k0 = nonzero1(k0)
            if k1.k == "b":
                k1 = nonzero1(k1)
            g0, g1 = in_bounds(k0, a.shape[0]), in_bounds(k1, a.shape[1])
            if not deq(k0.shape[0], k1.shape[0]):
                raise IndexError("shape mismatch: indexing arrays could not be broadcast")
            af = a.fn
            return SArr((k0.shape[0],), a.k, lambda k: af(g0(k), g1(k)))
        raise Unsupported("several fancy indices")
    r = a
    ax = 0
    newax = []
    for k in ix:
        if k is None:
            newax.append(ax)
            ax += 1
            # materialise the new axis
            base = r
            p = ax - 1
            shape = r.shape[:p] + (1,) + r.shape[p:]
            if r.rows:
                raise Unsupported("newaxis on opaque rows")
            r = SArr(shape, r.k, (lambda base, p: lambda *q: base.fn(*(q[:p] + q[p + 1:])))(base, p), base=base)
            continue
        if not isinstance(r, SArr) or ax >= r.ndim:
            raise IndexError("too many indices for array")
        r, kept = axis_index(r, ax, k)
        if kept:
            ax += 1
    if r is a and len(ix) == 1 and isinstance(ix[0], slice):
        v = SArr(a.shape, a.k, lambda *q: a.fn(*q), inv=a.inv, base=a)
        return v
    return r


def setitem(a, ix, v):
    note("numpy item assignment")
    c = ctx()
    if a.base is not None:
        raise Unsupported("write through a view")
    if c.loopstack:
        fr = c.loopstack[-1]
        if fr.owns(a):
            if isinstance(ix, tuple) and len(ix) == 1:
                ix = ix[0]
            if isinstance(v, RowVal):
                v = v.s
            v = lit(v)
            if isinstance(ix, SArr) and ix.k == "b" and ix.ndim == 1:
                if not deq(ix.shape[0], a.shape[0]):
                    raise IndexError("boolean index did not match indexed array")
                if isinstance(v, SArr):
                    ix = compaction(ix).index_array()
            if isinstance(ix, SArr) and ix.k == "i" and isinstance(v, SArr):
                if not deq(ix.shape[0], v.shape[0]):
                    raise ValueError("shape mismatch: value array could not be broadcast")
                if ix.inv is None:
                    raise Unsupported("store through a non-invertible index array")
                for d in range(1, a.ndim):
                    if d >= v.ndim or not deq(v.shape[d], a.shape[d]):
                        raise ValueError("shape mismatch: value array could not be broadcast")
            if isinstance(ix, slice):
                st, ln, step = slice_bounds(ix, a.shape[0])
                if step != 1:
                    raise Unsupported("strided store")
                if isinstance(v, SArr) and not deq(v.shape[0], S(ln)):
                    raise ValueError("could not broadcast input array")
                ix = SArr((S(ln),), "i", lambda q: S(st + q),
                          inv=(lambda i: z3.And(i >= st, i < st + ln), lambda i: i - st))
            fr.record_store(a, ix, v)
            return
    if isinstance(ix, tuple) and len(ix) == 1:
        ix = ix[0]
    a.version += 1
    a.inv = None
    af = a.fn
    k = a.k
    if isinstance(ix, slice) and ix == slice(None) or ix is Ellipsis:
        v = lit(v)
        if isinstance(v, S):
            vv = cast(v, k)
            a.fn = lambda *q: vv
        else:
            if v.ndim != a.ndim:
                raise Unsupported("broadcasting slice store")
            for d in range(a.ndim):
                if not deq(a.shape[d], v.shape[d]):
                    raise ValueError("could not broadcast input array")
            vf = v.fn
            a.fn = lambda *q: cast(vf(*q), k) if k != "row" else vf(*q)
        return
    if isinstance(ix, tuple):
        return setitem_nd(a, ix, v)
    if isinstance(ix, (list, np.ndarray)):
        ix = lit(ix)
    nfn = naxes(a)
    if isinstance(v, RowVal):
        v = v.s
    else:
        v = lit(v)
    n = a.shape[0]
    if isinstance(ix, SArr) and ix.k == "b" and ix.ndim == a.ndim and a.ndim > 1 and not a.rows:
        if not isinstance(v, S):
            raise Unsupported("2-D mask store of an array")
        mf, vv = ix.fn, cast(v, k)
        for d in range(a.ndim):
            if not deq(a.shape[d], ix.shape[d]):
                raise IndexError("boolean index did not match")
        a.fn = lambda *q: ite(mf(*q), vv, af(*q))
        return
    if isinstance(ix, SArr):
        if ix.ndim != 1:
            raise Unsupported("multi-dimensional fancy store")
        if ix.k == "b":
            if not deq(ix.shape[0], n):
                raise IndexError("boolean index did not match indexed array")
            mf = ix.fn
            member = lambda i: mf(i).e
            cnt = None
            if isinstance(v, SArr):
                co = compaction(ix)
                cnt, pos = S(co.m), (lambda i: co.rank(i))
        elif ix.k == "i":
            norm = in_bounds(ix, n)
            inv = ix.inv
            if inv is None and not isinstance(v, S):
                inv = injective_inverse(ix, norm)
                if inv is None:
                    raise Unsupported("store through an index array that may repeat")
            if inv is None:
                # scalar store: membership only
                mem = isin_fn(ix)
                member, cnt, pos = mem, None, None
            else:
                member, pos = inv
                cnt = ix.shape[0]
        else:
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
    elif isinstance(ix, slice):
        st, ln, step = slice_bounds(ix, n)
        if step != 1:
            raise Unsupported("strided store")
        member = lambda i: z3.And(i >= st, i < st + ln)
        cnt, pos = S(ln), (lambda i: i - st)
    elif isinstance(ix, (S, int, np.integer)):
        e = norm_int(ix, n)
        member = lambda i: i == e
        cnt, pos = None, None
        if isinstance(v, SArr):
            if nfn != 2 or v.ndim != 1:
                raise Unsupported("store of array into scalar position")
            if not deq(v.shape[0], a.shape[1]):
                raise ValueError("could not broadcast input array")
            vf = v.fn
            a.fn = lambda i, j: ite(member(i), cast(vf(j), k), af(i, j))
            return
    else:
        raise Unsupported(f"store index {type(ix).__name__}")
    if isinstance(v, S):
        vv = v if k == "row" else cast(v, k)
        a.fn = lambda *q: ite(member(q[0]), vv, af(*q))
        return
    # array value
    if v.ndim > a.ndim:
        raise Unsupported("store shape")
    if v.ndim < a.ndim and not a.rows:
        if v.ndim == 1 and a.ndim == 2:  # row broadcast
            if not deq(v.shape[0], a.shape[1]):
                raise ValueError("could not broadcast input array")
            vf = v.fn
            a.fn = lambda i, j: ite(member(i), cast(vf(j), k), af(i, j))
            return
        raise Unsupported("store shape")
    if isinstance(v.shape[0], int) and v.shape[0] == 1 and not (isinstance(cnt, int) and cnt == 1):
        vf = v.fn
        a.fn = lambda *q: ite(member(q[0]), cast(vf(z3.IntVal(0), *q[1:]), k), af(*q))
        return
    if not deq(v.shape[0], cnt):
        raise ValueError("shape mismatch: value array could not be broadcast")
    for d in range(1, a.ndim):
        if not deq(v.shape[d], a.shape[d]):
            raise ValueError("shape mismatch: value array could not be broadcast")
    vf = v.fn
    if a.k == "row" or v.k == "row":
        if a.k != v.k:
            raise Unsupported("row store into numeric array")
        a.fn = lambda i: ite(member(i), vf(pos(i)), af(i))
    else:
        a.fn = lambda *q: ite(member(q[0]), cast(vf(pos(q[0]), *q[1:]), k), af(*q))


def setitem_nd(a, ix, v):
    if a.rows:
        raise Unsupported("column store on opaque rows")
    af, k = a.fn, a.k
    v = lit(v)
    mem, pos, lens = [], [], []
    for d, key in enumerate(ix):
        n = a.shape[d]
        if isinstance(key, slice):
            st, ln, step = slice_bounds(key, n)
            if step != 1:
                raise Unsupported("strided store")
            mem.append((lambda st, ln: lambda i: z3.And(i >= st, i < st + ln))(st, ln))
            pos.append((lambda st: lambda i: i - st)(st))
            lens.append(S(ln))
        elif isinstance(key, (S, int, np.integer)):
            e = norm_int(key, n)
            mem.append((lambda e: lambda i: i == e)(e))
            pos.append(None)
            lens.append(None)
        elif isinstance(key, SArr) and key.k == "b" and key.ndim == 1:
            if not deq(key.shape[0], n):
                raise IndexError("boolean index did not match")
            mf = key.fn
            co = compaction(key)
            mem.append((lambda mf: lambda i: mf(i).e)(mf))
            pos.append((lambda co: lambda i: co.rank(i))(co))
            lens.append(S(co.m))
        elif isinstance(key, SArr) and key.inv is not None:
            in_bounds(key, n)
            m, p = key.inv
            mem.append(m)
            pos.append(p)
            lens.append(key.shape[0])
        else:
            raise Unsupported("nd store index")
    nadv = sum(isinstance(k, SArr) for k in ix)
    if nadv > 1:
        raise Unsupported("several fancy indices in a store")
    for d in range(len(ix), a.ndim):
        mem.append(lambda i: z3.BoolVal(True))
        pos.append(lambda i: i)
        lens.append(a.shape[d])
    if isinstance(v, S):
        vv = cast(v, k)
        a.fn = lambda *q: ite(z3.And([mem[d](q[d]) for d in range(len(q))]), vv, af(*q))
        return
    kept = [d for d in range(a.ndim) if pos[d] is not None]
    if v.ndim > len(kept):
        raise Unsupported("store shape")
    kept_v = kept[len(kept) - v.ndim:]
    one = []
    for j, d in enumerate(kept_v):
        if isinstance(v.shape[j], int) and v.shape[j] == 1:
            one.append(True)
            continue
        one.append(False)
        if not deq(v.shape[j], lens[d]):
            raise ValueError("could not broadcast input array")
    vf = v.fn
    a.fn = lambda *q: ite(
        z3.And([mem[d](q[d]) for d in range(len(q))]),
        cast(vf(*[z3.IntVal(0) if one[j] else pos[d](q[d]) for j, d in enumerate(kept_v)]), k),
        af(*q),
    )


def isin_fn(b):
    """membership predicate of the values of the 1-D array b: t -> z3 Bool"""
    c = ctx()
    nb = zi(b.shape[0])
    snb = z3.simplify(nb)
    bf = b.fn
    if z3.is_int_value(snb) and snb.as_long() <= 12:
        return lambda t: z3.Or(
            [same_num(bf(z3.IntVal(j)), t) for j in range(snb.as_long())] or [z3.BoolVal(False)]
        )
    srt = KIND[b.k]
    key = ("isin", snb.sexpr(), z3.simplify(bf(_I0).e).sexpr())
    if key in c.memo:
        mem = c.memo[key]
        return lambda t: mem(_coerce(t, srt))
    mem = c.func("mem", srt, B)
    wit = c.func("memw", srt, I)
    t = z3.Const(c.name("t"), srt)
    j = iv("j")
    c.forall(
        [t],
        z3.Implies(mem(t), z3.And(0 <= wit(t), wit(t) < nb, bf(wit(t)).e == t)),
        [mem(t)],
    )
    bj = bf(j).e
    trig = triggers(bj, [j]) or [mem(bj)]
    c.forall([j], z3.Implies(z3.And(0 <= j, j < nb), mem(bj)), trig)
    c.memo[key] = mem
    return lambda t: mem(_coerce(t, srt))


def _coerce(t, srt):
    e = _toz(t)[0]
    if e.sort() == srt:
        return e
    e = _arith(e)
    if e.sort() == srt:
        return e
    if srt == R and e.sort() == I:
        return z3.ToReal(e)
    raise Unsupported("isin with mixed dtypes")


def same_num(a, b):
    return (a == (b if isinstance(b, S) else S(b))).e


# ------------------------------------------------------------------ quantified bools
def any_(a, axis=None):
    a = lit(a)
    if isinstance(a, S):
        return cast(a, "b")
    if a.k != "b":
        a = cast_arr(a, "b")
    if axis is not None and a.ndim > 1:
        if axis in (1, -1) and a.ndim == 2:
            c = ctx()
            af = a.fn
            p = c.func("anyax", I, B)
            w = c.func("anyw", I, I)
            i, j = iv("i"), iv("j")
            m = zi(a.shape[1])
            c.forall([i], z3.Implies(p(i), z3.And(0 <= w(i), w(i) < m, af(i, w(i)).e)), [p(i)])
            c.forall([i, j], z3.Implies(z3.And(z3.Not(p(i)), 0 <= j, j < m), z3.Not(af(i, j).e)),
                     [z3.MultiPattern(p(i), t) for t in triggers(af(i, j).e, [i, j])])
            return SArr((a.shape[0],), "b", lambda i: S(p(i)))
        if axis == 0 and a.ndim == 2:
            return any_(transpose(a), axis=1)
        raise Unsupported("any(axis)")
    note("numpy any/all")
    c = ctx()
    if a.ndim == 1:
        n = z3.simplify(zi(a.shape[0]))
        if z3.is_int_value(n) and n.as_long() <= 8:
            return S(z3.Or([a.fn(z3.IntVal(j)).e for j in range(n.as_long())] or [z3.BoolVal(False)]))
    dims = [zi(d) for d in a.shape]
    vs = [iv("a") for _ in dims]
    ws = [c.fresh("i", "anyw") for _ in dims]
    key = ("any", tuple(z3.simplify(d).sexpr() for d in dims),
           z3.simplify(a.fn(*[z3.Int(f"i{q}!canon") for q in range(len(dims))]).e).sexpr())
    if key in c.memo:
        return S(c.memo[key])
    p = c.fresh("b", "any")
    c.memo[key] = p
    rng = lambda xs: z3.And([z3.And(0 <= x, x < d) for x, d in zip(xs, dims)])
    c.fact(z3.Implies(p, z3.And(rng(ws), a.fn(*ws).e)))
    body = a.fn(*vs).e
    trig = triggers(body, vs)
    q = z3.Implies(z3.And(z3.Not(p), rng(vs)), z3.Not(body))
    c.forall(vs, q, trig)
    return S(p)


def all_(a, axis=None):
    a = lit(a)
    if isinstance(a, S):
        return cast(a, "b")
    if a.k != "b":
        a = cast_arr(a, "b")
    r = any_(unary(a, "~"), axis)
    return ~r


# ------------------------------------------------------------------ reductions
class Red:
    def __init__(self, op, outer, n, fn, decl, k):
        self.op, self.outer, self.n, self.fn, self.decl, self.k = op, outer, n, fn, decl, k


def reduce_(op, n, fn, outer, k):
    """op-reduction over j in [0,n) of fn(*outer_idx, j).  An uninterpreted
    value; the only axioms are pairwise extensionality lemmas (equal length and
    equal elements give equal results), the empty and singleton cases."""
    c = ctx()
    nn = z3.simplify(zi(n))
    if z3.is_int_value(nn) and nn.as_long() <= 6 and op in ("sum",):
        def direct(*o):
            r = S(z3.IntVal(0) if k == "i" else z3.RealVal(0))
            for j in range(nn.as_long()):
                r = r + fn(*o, z3.IntVal(j))
            return r
        return direct
    if op == "sum":
        return linear_sum(nn, fn, outer, k)
    return reduce_atom(op, nn, fn, outer, k)


def poly(e, j, limit=24):
    """e as a sum of coef * (product of j-dependent atoms) + deltas.
    Returns (terms, deltas): terms = [(coef, [atoms])], deltas = [(k, expr(j))]
    standing for If(j == k, expr, 0); None when it does not fit."""
    def dep(t, memo={}):
        return _mentions(t, j)

    def go(t):
        if not dep(t):
            return [(t, [])], []
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            a, b = [], []
            for x in ch:
                p, q = go(x)
                a += p
                b += q
            return a, b
        if d == z3.Z3_OP_SUB:
            a, b = map(list, go(ch[0]))
            for x in ch[1:]:
                p, q = go(x)
                a += [(-c_, f) for c_, f in p]
                b += [(k, -v) for k, v in q]
            return a, b
        if d == z3.Z3_OP_UMINUS:
            p, q = go(ch[0])
            return [(-c_, f) for c_, f in p], [(k, -v) for k, v in q]
        if d == z3.Z3_OP_DIV and not dep(ch[1]):
            p, q = go(ch[0])
            return [(c_ / ch[1], f) for c_, f in p], [(k, v / ch[1]) for k, v in q]
        if d == z3.Z3_OP_MUL:
            acc, dl = go(ch[0])
            done = ch[0]
            for x in ch[1:]:
                p, q = go(x)
                if len(acc) * max(len(p), 1) > limit:
                    raise OverflowError
                # (A + da) * (P + dq): the deltas multiply the whole other factor
                nd = [(k, v * x) for k, v in dl]
                prod = [(c1 * c2, f1 + f2) for c1, f1 in acc for c2, f2 in p]
                for k, v in q:
                    # A-part only: done minus its own deltas
                    rest = done
                    for k2, v2 in dl:
                        rest = rest - z3.If(j == k2, v2, zero_of(v2))
                    nd.append((k, rest * v))
                acc, dl = prod, nd
                done = done * x
            return acc, dl
        if d == z3.Z3_OP_ITE:
            cnd, a, b = ch
            if not dep(cnd):
                p, q = go(a)
                p2, q2 = go(b)
                z = zero_of(t)
                return ([(z3.If(cnd, c_, z), f) for c_, f in p] + [(z3.If(cnd, z, c_), f) for c_, f in p2],
                        [(k, z3.If(cnd, v, z)) for k, v in q] + [(k, z3.If(cnd, z, v)) for k, v in q2])
            k = _eq_index(cnd, j)
            if k is not None and not dep(k):
                p, q = go(b)
                return p, q + [(k, a - b)]
        return [(one_of(t), [t])], []

    terms, deltas = go(e)
    if len(terms) + len(deltas) > limit:
        raise OverflowError
    return terms, deltas


def _mentions(t, j):
    seen = set()
    st = [t]
    jid = j.get_id()
    while st:
        x = st.pop()
        if x.get_id() == jid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def _eq_index(cnd, j):
    if z3.is_eq(cnd) and cnd.arg(0).sort() == I:
        a, b = cnd.arg(0), cnd.arg(1)
        if a.get_id() == j.get_id():
            return b
        if b.get_id() == j.get_id():
            return a
    return None


def zero_of(t):
    return z3.IntVal(0) if t.sort() == I else z3.RealVal(0)


def one_of(t):
    return z3.IntVal(1) if t.sort() == I else z3.RealVal(1)


def linear_sum(nn, fn, outer, k):
    """sum over j: linear in the summand (coefficients that do not depend on j
    are pulled out; a single-index term If(j==k,v,0) contributes v at k), the
    remaining atoms are uninterpreted extensional sums."""
    c = ctx()
    os_ = [iv("o") for _ in range(outer)]
    j = iv("j")
    v = fn(*os_, j)
    if v.nan is not None and not z3.is_false(z3.simplify(v.nan)):
        return reduce_atom("sum", nn, fn, outer, k)
    e = z3.simplify(v.e, som=False, flat=False, push_ite_arith=False) if False else v.e
    try:
        terms, deltas = poly(e, j)
    except OverflowError:
        return reduce_atom("sum", nn, fn, outer, k)
    bag = {}
    consts = []
    for coef, fac in terms:
        if not fac:
            consts.append(coef)
            continue
        cn = [z3.Int(f"!o{q}") for q in range(outer)] + [z3.Int("!j")]
        fac = sorted(fac, key=lambda t: z3.substitute(t, *zip([*os_, j], cn)).get_id())
        at = fac[0] if len(fac) == 1 else z3.Product(*fac)
        key = at.get_id()
        if key in bag:
            bag[key] = (bag[key][0] + coef, at)
        else:
            bag[key] = (coef, at)
    parts = []
    for coef, at in bag.values():
        if z3.is_rational_value(z3.simplify(coef)) and z3.simplify(coef).as_fraction() == 0 if coef.sort() != I else False:
            continue
        canon = [z3.Int(f"!o{q}") for q in range(outer)] + [z3.Int("!j")]
        mk = z3.substitute(at, *zip([*os_, j], canon))
        memo = c.memo.setdefault("sums", {})
        mkey = (nn.get_id(), mk.get_id(), outer, k)
        if mkey in memo:
            r = memo[mkey][0]
        else:
            r = reduce_atom("sum", nn, (lambda at: lambda *ix: S(z3.substitute(at, *zip([*os_, j], [zi(x) for x in ix]))))(at), outer, k)
            memo[mkey] = (r, mk, nn)
        parts.append((coef, r))

    def val(*o):
        sub = lambda t: z3.substitute(t, *zip(os_, [zi(x) for x in o])) if os_ else t
        tot = None
        for coef, r in parts:
            t = sub(coef) * r(*o).e if not _is_one(coef) else r(*o).e
            tot = t if tot is None else tot + t
        for coef in consts:
            t = sub(coef) * (nn if coef.sort() == I else z3.ToReal(nn))
            tot = t if tot is None else tot + t
        for kk, d in deltas:
            kk = sub(kk)
            t = z3.If(z3.And(0 <= kk, kk < nn), z3.substitute(sub(d), (j, kk)), zero_of(d))
            tot = t if tot is None else tot + t
        return S(tot if tot is not None else (z3.IntVal(0) if k == "i" else z3.RealVal(0)))

    val.parts = parts
    if c.memo.get("sum_mono") and not outer:
        # lemma: pointwise comparison carries over to the sums
        whole = c.memo.setdefault("sum_whole", [])
        me = val()
        for n2, f2, v2 in whole:
            if v2.e.get_id() == me.e.get_id():
                break
            if not z3.eq(n2, nn):
                continue
            w, w2 = c.fresh("i", "sw"), c.fresh("i", "sw")
            c.fact(z3.Or(me.e <= v2.e, nn != n2, z3.And(0 <= w, w < nn, fn(w).e > f2(w).e)))
            c.fact(z3.Or(v2.e <= me.e, nn != n2, z3.And(0 <= w2, w2 < nn, f2(w2).e > fn(w2).e)))
        if not any(v2.e.get_id() == me.e.get_id() for _, _, v2 in whole):
            c.memo["sum_whole"] = whole + [(nn, fn, me)]
    return val


def sum_ext(a, b):
    """lemma: equal lengths and equal elements give equal sums; returns both sums"""
    sa, sb = sum_(a), sum_(b)
    w = ctx().fresh("i", "sw")
    ctx().fact(z3.Or(sa.e == sb.e, zi(a.shape[0]) != zi(b.shape[0]),
                     z3.And(0 <= w, w < zi(a.shape[0]), z3.Not(same(a.fn(w), b.fn(w))))))
    return sa, sb


def sum_le(a, b):
    """lemma: a <= b elementwise gives sum a <= sum b; returns both sums"""
    sa, sb = sum_(a), sum_(b)
    w = ctx().fresh("i", "sw")
    ctx().fact(z3.Or(sa.e <= sb.e, zi(a.shape[0]) != zi(b.shape[0]),
                     z3.And(0 <= w, w < zi(a.shape[0]), a.fn(w).e > b.fn(w).e)))
    return sa, sb


def _is_one(t):
    t = z3.simplify(t)
    return (z3.is_int_value(t) or z3.is_rational_value(t)) and str(t) == "1"


def reduce_atom(op, nn, fn, outer, k):
    c = ctx()
    decl = c.func(op, *([I] * outer), KIND[k]) if outer else c.fresh(k, op)
    red = Red(op, outer, nn, fn, decl, k)
    os_ = [iv("o") for _ in range(outer)]
    app = (lambda r, xs: r.decl(*xs) if r.outer else r.decl)
    for r in c.reductions:
        if r.op != op or r.outer != outer or r.k != k:
            continue
        w = c.func("rw", *([I] * outer), I) if outer else c.fresh("i", "rw")
        we = w(*os_) if outer else w
        lem = z3.Or(
            app(red, os_) == app(r, os_),
            red.n != r.n,
            z3.And(0 <= we, we < red.n, z3.Not(same(fn(*os_, we), r.fn(*os_, we)))),
        )
        if outer:
            c.forall(os_, lem, [app(red, os_), app(r, os_)])
        else:
            c.fact(lem)
    if c.memo.get("sum_cross"):
        # the same lemma between values at different outer positions
        for r in c.reductions:
            if r.op != op or r.k != k or (not outer and not r.outer):
                continue
            o1, o2 = [iv("o") for _ in range(outer)], [iv("o") for _ in range(r.outer)]
            we = c.func("rw", *([I] * (outer + r.outer)), I)(*o1, *o2)
            x, y = app(red, o1), app(r, o2)
            lem = z3.Or(x == y, red.n != r.n, z3.And(0 <= we, we < red.n, z3.Not(same(fn(*o1, we), r.fn(*o2, we)))))
            c.forall(o1 + o2, lem, [z3.MultiPattern(x, y) if outer and r.outer else x if outer else y])
    if op == "sum" and c.memo.get("sum_pos"):
        # lemma: a non-empty sum of positive terms is positive
        w = c.func("pw", *([I] * outer), I) if outer else c.fresh("i", "pw")
        we = w(*os_) if outer else w
        lem = z3.Or(app(red, os_) > 0, red.n <= 0, z3.And(0 <= we, we < red.n, fn(*os_, we).e <= 0))
        c.forall(os_, lem, [app(red, os_)]) if outer else c.fact(lem)
    if op == "sum":
        z = z3.Implies(red.n == 0, app(red, os_) == 0)
        c.forall(os_, z, [app(red, os_)]) if outer else c.fact(z)
    c.reductions.append(red)
    c.inexact.append("reduction " + op)
    note(f"numpy {op} reduction (uninterpreted, extensional)")
    # NaN propagation: any NaN element
    def val(*o):
        return S(app(red, [zi(x) for x in o]))

    val.red = red
    return val


def sum_(a, axis=None, keepdims=False, dtype=None):
    a = lit(a)
    if isinstance(a, S):
        return a
    if a.rows:
        raise Unsupported("reduction over opaque rows")
    if a.ndim == 1 and axis in (None, 0, -1):
        if a.k == "b":
            n = z3.simplify(zi(a.shape[0]))
            if z3.is_int_value(n) and n.as_long() <= 8:
                r = S(z3.IntVal(0))
                for j in range(n.as_long()):
                    r = r + cast(a.fn(z3.IntVal(j)), "i")
                return r
            r = S(compaction(a).m)
        else:
            r = reduce_("sum", a.shape[0], a.fn, 0, a.k)()
        return r if not keepdims else SArr((1,), r.kind, lambda i: r)
    k = "i" if a.k == "b" else a.k
    af = a.fn
    if a.ndim == 2:
        if axis is None and a.k == "b" and not isinstance(a.shape[1], int):
            return S(compaction(ravel(a)).m)
        if axis is None:
            # row-major double sum
            inner = reduce_("sum", a.shape[1], lambda i, j: cast(af(i, j), k), 1, k)
            r = reduce_("sum", a.shape[0], inner, 0, k)()
            return r
        if axis in (1, -1):
            v = reduce_("sum", a.shape[1], lambda i, j: cast(af(i, j), k), 1, k)
            if keepdims:
                return SArr((a.shape[0], 1), k, lambda i, j: v(i))
            return SArr((a.shape[0],), k, lambda i: v(i))
        if axis == 0:
            v = reduce_("sum", a.shape[0], lambda j, i: cast(af(i, j), k), 1, k)
            if keepdims:
                return SArr((1, a.shape[1]), k, lambda i, j: v(j))
            return SArr((a.shape[1],), k, lambda j: v(j))
    if a.ndim == 3 and axis is not None and not keepdims:
        x = axis % 3
        put = lambda q, j: q[:x] + (j,) + q[x:]
        v = reduce_("sum", a.shape[x], lambda p, q, j: cast(af(*put((p, q), j)), k), 2, k)
        return SArr(a.shape[:x] + a.shape[x + 1:], k, lambda p, q: v(p, q))
    raise Unsupported("sum over this shape/axis")


def mean_(a, axis=None, keepdims=False):
    a = lit(a)
    if isinstance(a, S):
        return cast(a, "f")
    s = sum_(a, axis, keepdims)
    if axis is None:
        n = S(zi(a.shape[0]))
        for d in a.shape[1:]:
            n = n * d
    else:
        n = a.shape[axis]
    return s / n


def var_(a, axis=None, ddof=0):
    a = lit(a)
    if isinstance(a, S) or a.rows or ddof or (a.ndim > 1 and axis != 0):
        raise Unsupported("variance")
    d = binary(a, mean_(a, axis if a.ndim > 1 else None), "-")
    return mean_(binary(d, d, "*"), axis if a.ndim > 1 else None)


def std_(a, axis=None, ddof=0):
    return uf1("sqrt", _ax_sqrt)(var_(a, axis, ddof))


def extremum(a, op, axis=None, keepdims=False, **kw):
    if kw:
        raise Unsupported(f"{op}: {sorted(kw)}")
    a = lit(a)
    if keepdims:
        if not (isinstance(a, SArr) and a.ndim == 2 and axis is not None):
            raise Unsupported("keepdims")
        r = extremum(a, op, axis)
        f = r.fn
        if axis in (1, -1):
            return SArr((r.shape[0], 1), r.k, lambda i, j: f(i))
        return SArr((1, r.shape[0]), r.k, lambda i, j: f(j))
    if isinstance(a, S):
        return a
    if a.rows or a.k == "b":
        raise Unsupported("extremum")
    c = ctx()
    if a.ndim == 2 and axis in (1, -1):
        af, k = a.fn, a.k
        m = zi(a.shape[1])
        if not c.branch(m > 0):
            raise ValueError("zero-size array to reduction operation")
        f = c.func(op, I, KIND[k])
        w = c.func(op + "w", I, I)
        i, j = iv("i"), iv("j")
        c.forall([i], z3.And(0 <= w(i), w(i) < m, f(i) == af(i, w(i)).e), [f(i)])
        le = (lambda x, y: x <= y) if op == "max" else (lambda x, y: x >= y)
        t = triggers(af(i, j).e, [i, j])
        c.forall([i, j], z3.Implies(z3.And(0 <= j, j < m), le(af(i, j).e, f(i))),
                 [z3.MultiPattern(f(i), tt) for tt in t])
        return SArr((a.shape[0],), k, lambda i: S(f(i)))
    if a.ndim == 2 and axis == 0:
        return extremum(transpose(a), op, 1)
    dims = [zi(d) for d in a.shape]
    tot = z3.And([d > 0 for d in dims])
    if not c.branch(tot):
        raise ValueError("zero-size array to reduction operation")
    note(f"numpy {op}")
    key = (op, tuple(z3.simplify(d).sexpr() for d in dims),
           z3.simplify(a.fn(*[z3.Int(f"i{q}!canon") for q in range(len(dims))]).e).sexpr())
    if key in c.memo:
        return S(c.memo[key])
    r = c.fresh(a.k, op)
    c.memo[key] = r
    ws = [c.fresh("i", op + "w") for _ in dims]
    vs = [iv("a") for _ in dims]
    rng = lambda xs: z3.And([z3.And(0 <= x, x < d) for x, d in zip(xs, dims)])
    c.fact(z3.And(rng(ws), a.fn(*ws).e == r))
    body = a.fn(*vs).e
    cmp = body <= r if op == "max" else body >= r
    trig = triggers(body, vs)
    q = z3.Implies(rng(vs), cmp)
    c.forall(vs, q, trig)
    return S(r)


def argext(a, op, axis=None):
    a = lit(a)
    c = ctx()
    note(f"numpy arg{op} (first extremal position)")
    better = (lambda x, y: x > y) if op == "max" else (lambda x, y: x < y)
    if a.ndim == 1 and axis in (None, 0, -1):
        n = zi(a.shape[0])
        if not c.branch(n > 0):
            raise ValueError("attempt to get argmax of an empty sequence")
        w = c.fresh("i", "arg" + op)
        i = iv("i")
        aw, ai = a.fn(w).e, a.fn(i).e
        c.fact(z3.And(0 <= w, w < n))
        q = z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Not(better(ai, aw)), z3.Implies(i < w, better(aw, ai))))
        trig = triggers(ai, [i])
        c.forall([i], q, trig)
        return S(w)
    if a.ndim == 2 and axis in (1, -1):
        af = a.fn
        m = zi(a.shape[1])
        if not c.branch(m > 0):
            raise ValueError("attempt to get argmax of an empty sequence")
        w = c.func("arg" + op, I, I)
        i, j = iv("i"), iv("j")
        c.forall([i], z3.And(0 <= w(i), w(i) < m), [w(i)])
        aw, aj = af(i, w(i)).e, af(i, j).e
        c.forall([i, j], z3.Implies(z3.And(0 <= j, j < m),
                 z3.And(z3.Not(better(aj, aw)), z3.Implies(j < w(i), better(aw, aj)))),
                 [z3.MultiPattern(w(i), t) for t in triggers(aj, [i, j])] or ())
        return SArr((a.shape[0],), "i", lambda i: S(w(i)))
    if a.ndim == 2 and axis == 0:
        return argext(transpose(a), op, 1)
    raise Unsupported("argmax")


# ------------------------------------------------------------------ unique
class Uniq:
    def __init__(self, a):
        c = ctx()
        n = zi(a.shape[0])
        af = a.fn
        srt = KIND[a.k]
        self.a, self.n = a, n
        m = c.fresh("i", "nuniq")
        c.memo.setdefault("lengths", []).append(m)
        u = c.func("uniq", I, srt)
        wit = c.func("uwit", I, I)
        idx = c.func("uidx", I, I)
        self.m, self.u, self.wit, self.idx = m, u, wit, idx
        k, k2, i = iv("k"), iv("k2"), iv("i")
        c.fact(z3.And(m >= 0, m <= n, (m == 0) == (n == 0)))
        c.forall([k], z3.Implies(z3.And(0 <= k, k < m),
                 z3.And(0 <= wit(k), wit(k) < n, af(wit(k)).e == u(k), idx(wit(k)) == k)), [u(k)])
        ai = af(i).e
        c.forall([i], z3.Implies(z3.And(0 <= i, i < n),
                 z3.And(0 <= idx(i), idx(i) < m, u(idx(i)) == ai, wit(idx(i)) <= i)),
                 [idx(i)] + triggers(ai, [i]))
        if a.k in ("i", "f"):
            c.forall([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < m), u(k) < u(k2)),
                     [z3.MultiPattern(u(k), u(k2))])
        # pigeonhole: fewer distinct values than entries iff some value repeats
        p, q = c.fresh("i", "dup"), c.fresh("i", "dup2")
        c.fact(z3.Implies(m < n, z3.And(0 <= p, p < q, q < n, af(p).e == af(q).e)))
        c.forall([i], z3.Implies(z3.And(m == n, 0 <= i, i < n), wit(idx(i)) == i), [idx(i)])


def occurrences(a):
    """v -> number of positions of the integer array a that hold v; zero exactly
    for values that do not occur"""
    c = ctx()
    af, n = a.fn, zi(a.shape[0])
    occ = reduce_("sum", n, lambda v, j: S(z3.If(af(j).e == v, 1, 0)), 1, "i")
    v = iv("v")
    w = c.func("occw", I, I)
    i = iv("i")
    t = occ(v).e
    c.forall([v], z3.And(t >= 0, t <= n, z3.Implies(t > 0, z3.And(0 <= w(v), w(v) < n, af(w(v)).e == v))), [t])
    c.forall([i], z3.Implies(z3.And(0 <= i, i < n), occ(af(i)).e >= 1), triggers(af(i).e, [i]))
    return occ


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = lit(a)
    if a.ndim != 1 or a.rows or axis is not None:
        raise Unsupported("unique of a matrix")
    note("numpy.unique (sorted distinct values)")
    c = ctx()
    if isinstance(a.shape[0], int) and a.shape[0] <= 2 and a.k == "i" and not (return_index or return_inverse or return_counts):
        v = [a.fn(z3.IntVal(q)) for q in range(a.shape[0])]
        if len(v) == 2:
            v = v[:1] if bool(v[0] == v[1]) else v if bool(v[0] < v[1]) else v[::-1]
        return SArr((len(v),), "i", lambda k: S(v[0].e if len(v) == 1 else z3.simplify(z3.If(zi(k) == 0, v[0].e, v[1].e))))
    j = iv("z")
    s = a.fn(j)
    if s.nan is not None and not c.entails(z3.Implies(z3.And(0 <= j, j < zi(a.shape[0])), z3.Not(s.nan))):
        raise Unsupported("unique with NaN")
    if a.k == "b":
        raise Unsupported("unique of booleans")
    key = (z3.simplify(zi(a.shape[0])).sexpr(), z3.simplify(a.fn(_I0).e).sexpr())
    tab = c.memo.setdefault("uniq_tab", {})
    if key in tab:
        q = tab[key]
    else:
        q = None
        for o in c.uniques:
            if o.a.k == a.k and c.entails(o.n == zi(a.shape[0]), 200) and c.entails(
                z3.Implies(z3.And(0 <= j, j < o.n), o.a.fn(j).e == s.e)
            ):
                q = o
                break
        if q is None:
            q = Uniq(a.snapshot())
            c.uniques.append(q)
        tab[key] = q
    mem = isin_fn(a)
    inv = None
    if a.k == "i":
        if not hasattr(q, "pos"):
            q.pos = c.func("upos", I, I)
            kk = iv("k")
            c.forall([kk], z3.Implies(z3.And(0 <= kk, kk < q.m), q.pos(q.u(kk)) == kk), [q.u(kk)])
        inv = (lambda v: z3.And(0 <= q.pos(v), q.pos(v) < q.m, q.u(q.pos(v)) == v), lambda v: q.pos(v))
    ua = SArr((S(q.m),), a.k, lambda k: S(q.u(k)), inv=inv, tag=("uniq", q))
    out = [ua]
    if return_index:
        out.append(SArr((S(q.m),), "i", lambda k: S(q.wit(k))))
    if return_inverse:
        out.append(SArr((a.shape[0],), "i", lambda i: S(q.idx(i))))
    if return_counts:
        cnt = c.func("ucount", I, I)
        k = iv("k")
        c.forall([k], z3.Implies(z3.And(0 <= k, k < q.m), z3.And(cnt(k) >= 1, cnt(k) <= q.n)), [cnt(k)])
        if a.k == "i":
            occ = occurrences(q.a)
            c.forall([k], z3.Implies(z3.And(0 <= k, k < q.m), cnt(k) == occ(q.u(k)).e), [cnt(k)])
        else:
            c.inexact.append("unique counts")
        out.append(SArr((S(q.m),), "i", lambda k: S(cnt(k))))
    return out[0] if len(out) == 1 else tuple(out)


def isin(a, b, invert=False, **kw):
    note("numpy.isin")
    b = lit(list(b) if isinstance(b, (set, frozenset)) else b)
    if isinstance(b, S):
        b = lit([b])
    a = lit(a)
    mem = isin_fn(ravel(b)) if b.ndim != 1 else isin_fn(b)
    if isinstance(a, S):
        r = S(mem(a))
        return ~r if invert else r
    af = a.fn
    return SArr(a.shape, "b", lambda *ix: S(z3.Not(mem(af(*ix))) if invert else mem(af(*ix))))


# ------------------------------------------------------------------ construction
def shape_of(sh):
    if isinstance(sh, (list, tuple)):
        return tuple(dim(d) for d in sh)
    return (dim(sh),)


def full(shape, value, dtype=None):
    v = lit(value)
    if not isinstance(v, S):
        raise Unsupported("full with array value")
    k = v.kind if dtype is None else dtkind(dtype)
    if k == "row":
        z = z3.Const("row_zero", KIND["row"])
        sh = shape_of(shape)
        if len(sh) != 2:
            raise Unsupported("opaque rows of another rank")
        return SArr(sh, "row", lambda i: S(z))
    vv = cast(v, k)
    return SArr(shape_of(shape), k, lambda *ix: vv)


def zeros(shape, dtype=float, **kw):
    return full(shape, 0, dtype)


def ones(shape, dtype=float, **kw):
    return full(shape, 1, dtype)


def empty(shape, dtype=float, **kw):
    return arr_uf("empty", shape_of(shape), dtkind(dtype))


def like(a, value, dtype=None):
    a = lit(a)
    k = a.k if dtype is None else dtkind(dtype)
    if a.rows:
        raise Unsupported("like(opaque rows)")
    vv = cast(lit(value), k)
    return SArr(a.shape, k, lambda *ix: vv)


def zeros_like(a, dtype=None, shape=None, **kw):
    a = lit(a)
    if shape is not None:
        return full(shape, 0, a.k if dtype is None else dtype)
    if a.rows:
        return RowZero(a)
    return like(a, 0, dtype)


def RowZero(a):
    z = z3.Const("row_zero", KIND["row"])
    return SArr(a.shape, "row", lambda i: S(z))


def ones_like(a, dtype=None, **kw):
    return like(a, 1, dtype)


def full_like(a, v, dtype=None, **kw):
    return like(a, v, dtype)


def empty_like(a, dtype=None, **kw):
    a = lit(a)
    return arr_uf("empty", a.shape, a.k if dtype is None else dtkind(dtype))


def arange(*args, **kw):
    if kw:
        raise Unsupported("arange options")
    note("numpy.arange")
    a, b = (0, args[0]) if len(args) == 1 else (args[0], args[1])
    step = args[2] if len(args) > 2 else 1
    if isinstance(step, S) or step != 1:
        raise Unsupported("arange step")
    a, b = zi(a), zi(b)
    ln = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
    if not is_const_int(ln) and ctx().entails(b >= a, 150):
        ln = z3.simplify(b - a)
    return SArr((S(ln),), "i", lambda i: S(z3.simplify(a + i)),
                inv=(lambda v: z3.And(v >= a, v < b), lambda v: v - a))


def is_const_int(e):
    return z3.is_int_value(z3.simplify(e))


def cast_arr(a, k):
    if a.k == k:
        return a.snapshot()
    if a.rows and k == "f":
        return a.snapshot()
    af = a.fn
    return SArr(a.shape, k, lambda *ix: cast(af(*ix), k))


def asarray(a, dtype=None, **kw):
    if isinstance(a, SArr):
        if dtype is None or (a.k == dtkind(dtype)) or (a.rows and dtkind(dtype) == "f"):
            return a
        return cast_arr(a, dtkind(dtype))
    from .core import SSeq
    if isinstance(a, SSeq):
        from .interp import seq_to_array
        return seq_to_array(a)
    r = lit(a)
    if isinstance(r, S):
        k = r.kind if dtype is None else dtkind(dtype)
        rr = cast(r, k)
        return SArr((), k, lambda: rr)
    return r if dtype is None else cast_arr(r, dtkind(dtype))


def array(a, dtype=None, **kw):
    r = asarray(a, dtype)
    return r.snapshot()


def copy(a, **kw):
    if isinstance(a, S):
        return a
    return lit(a).snapshot()


def transpose(a, axes=None):
    a = lit(a)
    if a.rows:
        raise Unsupported("transpose of opaque rows")
    if axes is not None:
        raise Unsupported("transpose axes")
    if a.ndim == 1:
        return a
    live = a
    return SArr(tuple(reversed(a.shape)), a.k, lambda *ix: live.fn(*reversed(ix)), base=a)


def reshape(a, *shape, **kw):
    a = lit(a)
    if isinstance(a, S):
        a = SArr((), a.kind, lambda: a)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    note("numpy.reshape (rank changes by unit axes, ravel)")
    if a.rows:
        if len(shape) == 2 and shape[1] == -1 and deq(shape[0], a.shape[0]):
            return a
        raise Unsupported("reshape of opaque rows")
    nd = a.ndim
    live = a
    if nd == 1 and len(shape) == 1:
        if shape[0] == -1 or deq(shape[0], a.shape[0]):
            return SArr(a.shape, a.k, lambda i: live.fn(i), base=a, inv=a.inv)
        raise ValueError("cannot reshape array")
    if nd == 1 and len(shape) == 2:
        s0, s1 = shape
        if s1 == 1 and isinstance(s1, int):
            return SArr((a.shape[0], 1), a.k, lambda i, j: live.fn(i), base=a)
        if s0 == 1 and isinstance(s0, int):
            return SArr((1, a.shape[0]), a.k, lambda i, j: live.fn(j), base=a)
        if not any(isinstance(x, int) and x == -1 for x in shape):
            if not deq(a.shape[0], S(zi(s0)) * S(zi(s1))):
                raise ValueError("cannot reshape array")
            f = gridpos(s0, s1)
            return SArr((s0, s1), a.k, lambda i, j: live.fn(f(i, j)), base=a)
    if nd == 2 and len(shape) == 1:
        s = a.shape
        if isinstance(s[1], int) and s[1] == 1:
            return SArr((s[0],), a.k, lambda i: live.fn(i, z3.IntVal(0)), base=a)
        if isinstance(s[0], int) and s[0] == 1:
            return SArr((s[1],), a.k, lambda i: live.fn(z3.IntVal(0), i), base=a)
        if isinstance(s[1], int) and s[1] > 1:
            d = s[1]
            return SArr((s[0] * d,), a.k, lambda i: live.fn(i / d, i % d), base=a)
    if nd == 3 and len(shape) == 2 and all(isinstance(x, int) for x in a.shape[1:]):
        p, q = a.shape[1:]
        s0, s1 = shape
        minus = lambda x: isinstance(x, int) and x == -1
        if p >= 1 and q >= 1 and (deq(s1, p * q) if minus(s0) else deq(s0, a.shape[0]) and (minus(s1) or deq(s1, p * q))):
            return SArr((a.shape[0], p * q), a.k, lambda i, k: live.fn(i, k / q, k % q), base=a)
    if nd == 2 and len(shape) == 2 and isinstance(shape[0], int) and shape[0] == 1 and not (isinstance(a.shape[0], int) and a.shape[0] == 1):
        # one row of all the entries, in row-major order
        tot = gridsize(*a.shape)
        if isinstance(shape[1], int) and shape[1] == -1 or deq(shape[1], tot):
            r, q = grid(*a.shape)
            return SArr((1, tot), a.k, lambda i, k: live.fn(r(k), q(k)), base=a)
    if nd == 2 and len(shape) == 1 and (isinstance(shape[0], int) and shape[0] == -1 or deq(shape[0], gridsize(*a.shape))):
        r, q = grid(*a.shape)
        return SArr((gridsize(*a.shape),), a.k, lambda k: live.fn(r(k), q(k)), base=a)
    if nd == 2 and len(shape) == 2:
        ok = True
        for x, y in zip(shape, a.shape):
            if not (isinstance(x, int) and x == -1):
                ok = ok and deq(x, y)
        if ok:
            return a
    if nd == 0 and all(isinstance(x, int) and x in (1, -1) for x in shape):
        return SArr((1,) * len(shape), a.k, lambda *ix: live.fn())
    raise Unsupported("reshape")


def grid(n, d):
    """row-major positions of an n x d grid: k -> (row(k), col(k)); for a
    symbolic d, functions with the laws of division (0 <= k < n*d)"""
    if isinstance(d, int):
        return (lambda k: k / d), (lambda k: k % d)
    c = ctx()
    key = ("grid", z3.simplify(zi(d)).sexpr(), z3.simplify(zi(n)).sexpr())
    if key not in c.memo:
        note("row-major flattening (division with remainder)")
        r, q, f = c.func("gridrow", I, I), c.func("gridcol", I, I), c.func("gridpos", I, I, I)
        k, i, j = iv("k"), iv("i"), iv("j")
        tot = c.fresh("i", "cells")
        c.fact(z3.And(tot == zi(n) * zi(d), z3.Implies(z3.And(zi(n) >= 1, zi(d) >= 1), tot >= 1), tot >= 0))
        c.memo.setdefault("lengths", []).append(tot)  # finite models cover all positions
        c.forall([k], z3.Implies(z3.And(0 <= k, k < tot), z3.And(0 <= r(k), r(k) < zi(n), 0 <= q(k), q(k) < zi(d), f(r(k), q(k)) == k)),
                 [r(k)])
        c.forall([k], z3.Implies(z3.And(0 <= k, k < tot), z3.And(0 <= r(k), r(k) < zi(n), 0 <= q(k), q(k) < zi(d), f(r(k), q(k)) == k)),
                 [q(k)])
        c.forall([i, j], z3.Implies(z3.And(0 <= i, i < zi(n), 0 <= j, j < zi(d)),
                                    z3.And(0 <= f(i, j), f(i, j) < tot, r(f(i, j)) == i, q(f(i, j)) == j)), [f(i, j)])
        k2 = iv("k2")
        c.forall([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < tot), z3.Or(r(k) < r(k2), z3.And(r(k) == r(k2), q(k) < q(k2)))),
                 [z3.MultiPattern(r(k), r(k2))])
        c.memo[key] = (r, q, f, tot)
    return c.memo[key][:2]


def gridsize(n, d):
    if isinstance(d, int):
        return n * d
    grid(n, d)
    return S(ctx().memo[("grid", z3.simplify(zi(d)).sexpr(), z3.simplify(zi(n)).sexpr())][3])


def gridpos(n, d):
    """(i, j) -> row-major position in an n x d grid"""
    if isinstance(d, int):
        return lambda i, j: i * d + j
    grid(n, d)
    return ctx().memo[("grid", z3.simplify(zi(d)).sexpr(), z3.simplify(zi(n)).sexpr())][2]


def argwhere(a):
    a = lit(a)
    if a.k != "b":
        a = cast_arr(a, "b")
    co = compaction(ravel(a) if a.ndim == 2 else a)
    if a.ndim == 1:
        return SArr((S(co.m), 1), "i", lambda k, c: S(co.sel(k)))
    if a.ndim != 2 or a.rows:
        raise Unsupported("argwhere")
    r, q = grid(*a.shape)
    return SArr((S(co.m), 2), "i", lambda k, c: S(z3.simplify(z3.If(zi(c) == 0, r(co.sel(k)), q(co.sel(k))))))


def nonzero(a):
    a = lit(a)
    if a.ndim == 2:
        w = argwhere(a)
        return tuple(SArr((w.shape[0],), "i", lambda k, c=c: w.fn(k, z3.IntVal(c))) for c in (0, 1))
    return (nonzero1(a),)


def repeat(a, repeats, axis=None):
    a = lit(a)
    if isinstance(repeats, SArr) or (a.ndim != 1 and axis is None):
        raise Unsupported("repeat")
    note("numpy.repeat")
    ax = axis or 0
    ax = ax % a.ndim
    if isinstance(repeats, S) and not isinstance(repeats, int):
        ctx_require_nonneg(repeats)
    live = a
    n = a.shape[ax]
    r, _ = grid(n, repeats)
    shape = list(a.shape)
    shape[ax] = n * repeats
    if ax == 0:
        return SArr(tuple(shape), a.k, lambda i, *q: live.fn(r(i), *q))
    if isinstance(n, int) and n == 1:
        return SArr(tuple(shape), a.k, lambda i, j, *q: live.fn(i, z3.IntVal(0), *q))
    return SArr(tuple(shape), a.k, lambda i, j, *q: live.fn(i, r(j), *q))


def ctx_require_nonneg(n):
    if not ctx().entails((S(zi(n)) >= 0).e):
        raise Unsupported("repeats may be negative")


def tile(a, reps):
    a = lit(a)
    if a.ndim != 1 or isinstance(reps, (tuple, list, SArr)):
        raise Unsupported("tile")
    note("numpy.tile")
    live = a
    _, q = grid(reps, a.shape[0])
    return SArr((reps * a.shape[0],), a.k, lambda i: live.fn(q(i)))


def ravel(a, **kw):
    a = lit(a)
    if isinstance(a, SArr) and a.ndim == 2 and not a.rows and not isinstance(a.shape[1], int) and not (isinstance(a.shape[0], int) and a.shape[0] == 1):
        live = a
        r, q = grid(*a.shape)
        return SArr((gridsize(*a.shape),), a.k, lambda i: live.fn(r(i), q(i)))
    return reshape(a, -1)


def squeeze(a, axis=None):
    a = lit(a)
    keep = [d for d in range(a.ndim) if not (isinstance(a.shape[d], int) and a.shape[d] == 1)]
    if len(keep) == a.ndim:
        return a
    nd = a.ndim
    live = a

    def fn(*ix):
        q = [z3.IntVal(0)] * nd
        for p, d in enumerate(keep):
            q[d] = ix[p]
        return live.fn(*q)

    if not keep:
        return live.fn(*[z3.IntVal(0)] * nd)
    return SArr([a.shape[d] for d in keep], a.k, fn, base=a)


def concatenate(seq, axis=0, **kw):
    from .core import SSeq

    if isinstance(seq, SSeq):
        return concat_seq(seq, axis)
    if isinstance(seq, SArr):
        raise Unsupported("concatenate of an array")
    seq = [lit(s) for s in seq]
    note("numpy.concatenate")
    if not seq:
        raise ValueError("need at least one array to concatenate")
    nd = seq[0].ndim
    if any(s.ndim != nd for s in seq):
        raise ValueError("all the input array dimensions must match")
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if axis < 0:
        axis += nd
    rows = [s.rows for s in seq]
    if any(rows) and (not all(rows) or axis != 0):
        raise Unsupported("concatenate of opaque rows")
    k = seq[0].k
    for s in seq:
        k = promote(k, s.k)
    for d in range(nd):
        if d != axis:
            for s in seq[1:]:
                if not deq(s.shape[d], seq[0].shape[d]):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match")
    offs = [z3.IntVal(0)]
    for s in seq:
        offs.append(z3.simplify(offs[-1] + zi(s.shape[axis])))
    shape = list(seq[0].shape)
    shape[axis] = S(offs[-1])
    fns = [s.fn for s in seq]
    for o in offs[1:-1]:
        ctx().memo.setdefault("cuts", []).append((offs[-1], o))

    def fn(*ix):
        r = None
        for q in range(len(seq) - 1, -1, -1):
            jx = list(ix)
            jx[axis] = z3.simplify(ix[axis] - offs[q])
            v = fns[q](*jx)
            v = v if k == "row" else cast(v, k)
            r = v if r is None else ite(ix[axis] < offs[q + 1], v, r)
        return r

    inv = None
    if nd == 1 and all(s.inv is not None for s in seq):
        invs = [s.inv for s in seq]

        def member(v):
            return z3.Or([m(v) for m, _ in invs])

        def pos(v):
            r = None
            for q in range(len(seq) - 1, -1, -1):
                e = offs[q] + invs[q][1](v)
                r = e if r is None else z3.If(invs[q][0](v), e, r)
            return r

        inv = (member, pos)  # only an inverse when the parts are disjoint
        inv = None if len(seq) > 1 and not _disjoint(invs) else inv
    return SArr(shape, k, fn, inv=inv)


def concat_seq(seq, axis):
    """concatenation of a symbolic number of 1-D arrays (or row blocks): position
    k of the result is element off(k) of block blk(k); at(j, o) is the inverse"""
    c = ctx()
    note("numpy.concatenate")
    n = zi(seq.total())
    if not c.branch(n > 0):
        raise ValueError("need at least one array to concatenate")
    probe = seq.get(z3.Int("probe!"))
    if not isinstance(probe, SArr) or axis != 0 or (probe.ndim != 1 and not probe.rows):
        raise Unsupported("concatenate of symbolic-length list")
    m = c.fresh("i", "total")
    blk, off, at = c.func("blk", I, I), c.func("off", I, I), c.func("at", I, I, I)
    blen = c.func("blen", I, I)
    k, k2, j, o = iv("k"), iv("k2"), iv("j"), iv("o")
    c.fact(m >= 0)
    c.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(blen(j) == zi(seq.get(j).shape[0]), blen(j) >= 0)), [blen(j)])
    rng = z3.And(0 <= k, k < m)
    c.forall([k], z3.Implies(rng, z3.And(0 <= blk(k), blk(k) < n, 0 <= off(k), off(k) < blen(blk(k)),
                                         at(blk(k), off(k)) == k)), [blk(k)])
    c.forall([k], z3.Implies(rng, z3.And(0 <= blk(k), blk(k) < n, 0 <= off(k), off(k) < blen(blk(k)),
                                         at(blk(k), off(k)) == k)), [off(k)])
    c.forall([j, o], z3.Implies(z3.And(0 <= j, j < n, 0 <= o, o < blen(j)),
                                z3.And(0 <= at(j, o), at(j, o) < m, blk(at(j, o)) == j, off(at(j, o)) == o)), [at(j, o)])
    c.forall([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < m), z3.And(
        blk(k) <= blk(k2), z3.Implies(blk(k) == blk(k2), off(k) < off(k2)))), [z3.MultiPattern(blk(k), blk(k2))])
    shape = (S(m),) + tuple(probe.shape[1:])
    r = SArr(shape, probe.k, lambda kk: seq.get(blk(kk)).fn(off(kk)))
    r.concat = (n, blk, off, at, blen)
    return r


def _disjoint(invs):
    c = ctx()
    v = iv("v")
    for a in range(len(invs)):
        for b in range(a + 1, len(invs)):
            if not c.entails(z3.Not(z3.And(invs[a][0](v), invs[b][0](v)))):
                return False
    return True


def stack(seq, axis=0, **kw):
    seq = [lit(s) for s in seq]
    if axis == 0 and all(isinstance(s, SArr) and s.ndim == 1 for s in seq):
        for s in seq[1:]:
            if not deq(s.shape[0], seq[0].shape[0]):
                raise ValueError("all input arrays must have the same shape")
        k = seq[0].k
        for s in seq:
            k = promote(k, s.k)
        fns = [s.fn for s in seq]

        def fn(i, j):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return cast(fns[i.as_long()](j), k)
            r = cast(fns[-1](j), k)
            for q in range(len(fns) - 2, -1, -1):
                r = ite(i == q, cast(fns[q](j), k), r)
            return r

        return SArr((len(seq), seq[0].shape[0]), k, fn)
    if axis in (1, -1) and all(isinstance(s, SArr) and s.ndim == 1 for s in seq):
        return transpose(stack(seq)).snapshot()
    raise Unsupported("stack")


def column_stack(seq):
    seq = [lit(s) for s in seq]
    if all(isinstance(s, SArr) and s.ndim == 1 for s in seq):
        return stack(seq, 1)
    return concatenate(seq, axis=1)


def block(rows_):
    if not (isinstance(rows_, list) and all(isinstance(r, list) for r in rows_)):
        raise Unsupported("block")
    return concatenate([concatenate(r, axis=1) for r in rows_], axis=0)


def hstack(seq, **kw):
    seq = [lit(s) for s in seq]
    return concatenate(seq, axis=0 if seq[0].ndim == 1 else 1)


def vstack(seq, **kw):
    seq = [lit(s) for s in seq]
    if all(s.ndim == 1 for s in seq):
        return stack(seq)
    return concatenate(seq, axis=0)


def matmul(a, b):
    if isinstance(a, MatPoly) or isinstance(b, MatPoly):
        return MatPoly.of(a).mul(MatPoly.of(b))
    if isinstance(a, OpMat) or isinstance(b, OpMat):
        if isinstance(a, OpMat) and isinstance(b, OpMat):
            return a @ b
        a = lit(a) if not isinstance(a, OpMat) else a
        if isinstance(b, OpMat) and isinstance(a, SArr) and a.rows:
            f = a.fn
            return SArr((a.shape[0], a.shape[1] if b.cols is None else b.cols), "row", lambda i: row_matmul(f(i), b))
        raise Unsupported("product with an opaque matrix")
    a, b = lit(a), lit(b)
    if a.rows or b.rows:
        raise Unsupported("matmul on opaque rows")
    note("numpy matmul/dot as an (uninterpreted, extensional) sum of products")
    k = promote(promote(a.k, b.k), "i")
    af, bf = a.fn, b.fn
    if a.ndim == 1 and b.ndim == 1:
        if not deq(a.shape[0], b.shape[0]):
            raise ValueError("matmul: dimension mismatch")
        return reduce_("sum", a.shape[0], lambda j: cast(af(j) * bf(j), k), 0, k)()
    if a.ndim == 2 and b.ndim == 1:
        if not deq(a.shape[1], b.shape[0]):
            raise ValueError("matmul: dimension mismatch")
        v = reduce_("sum", a.shape[1], lambda i, j: cast(af(i, j) * bf(j), k), 1, k)
        return SArr((a.shape[0],), k, lambda i: v(i))
    if a.ndim == 1 and b.ndim == 2:
        if not deq(a.shape[0], b.shape[0]):
            raise ValueError("matmul: dimension mismatch")
        v = reduce_("sum", a.shape[0], lambda i, j: cast(af(j) * bf(j, i), k), 1, k)
        return SArr((b.shape[1],), k, lambda i: v(i))
    if a.ndim == 2 and b.ndim == 2:
        if not deq(a.shape[1], b.shape[0]):
            raise ValueError("matmul: dimension mismatch")
        v = reduce_("sum", a.shape[1], lambda i, l, j: cast(af(i, j) * bf(j, l), k), 2, k)
        return SArr((a.shape[0], b.shape[1]), k, lambda i, l: v(i, l))
    raise Unsupported("matmul shapes")


def dot(a, b, out=None):
    if isinstance(a, MatPoly) or isinstance(b, MatPoly):
        return matmul(a, b)
    if isinstance(a, OpMat) or isinstance(b, OpMat):
        return matmul(a, b)
    a, b = lit(a), lit(b)
    if isinstance(a, S) or isinstance(b, S):
        return a * b
    return matmul(a, b)


def argsort(a, axis=-1, kind=None, **kw):
    a = lit(a)
    if a.ndim == 2 and axis is None:
        a = ravel(a)
    if a.ndim != 1:
        raise Unsupported("argsort of a matrix")
    note("numpy.argsort (a permutation ordering the values)")
    c = ctx()
    n = zi(a.shape[0])
    p, ip = permutation_uf(n, "argsort")
    k, k2 = iv("k"), iv("k2")
    af = a.fn
    c.forall([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < n), af(p(k)).e <= af(p(k2)).e),
             [z3.MultiPattern(p(k), p(k2))])
    c.memo.setdefault("argsorts", []).append((p, ip, n))
    return SArr((a.shape[0],), "i", lambda i: S(p(i)),
                inv=(lambda v: z3.And(0 <= v, v < n), lambda v: ip(v)))


def sort(a, axis=-1, **kw):
    a = lit(a)
    ix = argsort(a)
    af, p = a.fn, ix.fn
    return SArr(a.shape, a.k, lambda i: af(p(i).e))


def permutation_uf(n, base="perm"):
    c = ctx()
    p, ip = c.func(base, I, I), c.func(base + "_inv", I, I)
    k = iv("k")
    rng = z3.And(0 <= k, k < n)
    c.forall([k], z3.Implies(rng, z3.And(0 <= p(k), p(k) < n, ip(p(k)) == k)), [p(k)])
    c.forall([k], z3.Implies(rng, z3.And(0 <= ip(k), ip(k) < n, p(ip(k)) == k)), [ip(k)])
    return p, ip


def cumsum(a, axis=None, **kw):
    a = lit(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    c = ctx()
    n = zi(a.shape[0])
    k = "i" if a.k == "b" else a.k
    f = c.func("cumsum", I, KIND[k])
    i = iv("i")
    af = a.fn
    c.forall([i], z3.Implies(z3.And(0 <= i, i < n),
             f(i) == z3.If(i > 0, f(i - 1), 0) + cast(af(i), k).e), [f(i)])
    return SArr(a.shape, k, lambda i: S(f(i)))


def count_nonzero(a, axis=None, **kw):
    a = lit(a)
    if a.k != "b":
        a = cast_arr(a, "b")
    return sum_(a, axis)


def clip(a, lo=None, hi=None, **kw):
    r = a
    if lo is not None:
        r = OPS["max"](lit(r), lit(lo)) if isinstance(lit(r), S) else binary(r, lo, "max")
    if hi is not None:
        r = OPS["min"](lit(r), lit(hi)) if isinstance(lit(r), S) else binary(r, hi, "min")
    return r


def ceil(x):
    x = lit(x)
    f = lambda s: S(z3.ToReal(-z3.ToInt(-(s.e if s.kind == "f" else z3.ToReal(_arith(s.e))))))
    return f(x) if isinstance(x, S) else SArr(x.shape, "f", lambda *ix: f(x.fn(*ix)))


def floor(x):
    x = lit(x)
    f = lambda s: S(z3.ToReal(z3.ToInt(s.e if s.kind == "f" else z3.ToReal(_arith(s.e)))))
    return f(x) if isinstance(x, S) else SArr(x.shape, "f", lambda *ix: f(x.fn(*ix)))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = lit(a), lit(b)
    return all_(abs(a - b) <= abs(b) * rtol + atol)


def allequal(a, b):
    raise Unsupported("array_equal")


def array_equal(a, b, equal_nan=False):
    a, b = lit(a), lit(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not deq(x, y):
            return False
    if a.rows or b.rows:
        if not (a.rows and b.rows):
            raise Unsupported("array_equal rows")
        af, bf = a.fn, b.fn
        r = SArr((a.shape[0],), "b", lambda i: S(af(i).e == bf(i).e))
        return all_(r)
    return all_(binary(a, b, "=="))


def split_sections(a, sections, axis=0):
    raise Unsupported("array split")


def eye(n, M=None, **kw):
    return SArr((dim(n), dim(n if M is None else M)), "f",
                lambda i, j: S(z3.If(i == j, z3.RealVal(1), z3.RealVal(0))))


def diag(a, k=0):
    a = lit(a)
    if a.ndim == 1:
        af = a.fn
        z = cast(S(z3.IntVal(0)), a.k)
        return SArr((a.shape[0], a.shape[0]), a.k, lambda i, j: ite(i == j, af(i), z))
    af = a.fn
    return SArr((a.shape[0],), a.k, lambda i: af(i, i))


def outer(a, b):
    a, b = ravel(a), ravel(b)
    af, bf = a.fn, b.fn
    return SArr((a.shape[0], b.shape[0]), promote(a.k, b.k), lambda i, j: af(i) * bf(j))


def divide(a, b, out=None, where=None, **kw):
    if out is None and where is None:
        return binary(a, b, "/")
    raise Unsupported("divide(out=)")


def ndim(a):
    return lit(a).ndim


def shape(a):
    return lit(a).shape


def bincount(a, weights=None, minlength=0):
    a = lit(a)
    c = ctx()
    j = iv("j")
    if weights is not None or a.ndim != 1 or a.k != "i" or not c.entails(z3.Implies(z3.And(0 <= j, j < zi(a.shape[0])), z3.And(0 <= a.fn(j).e, a.fn(j).e < zi(minlength))), 2000):
        raise Unsupported("bincount of labels that may be past minlength")
    note("bincount: how often each label occurs")
    af = a.snapshot().fn
    v = reduce_("sum", a.shape[0], lambda k, j: S(z3.If(af(j).e == k, z3.IntVal(1), z3.IntVal(0))), 1, "i")
    return SArr((dim(minlength),), "i", lambda k: v(k))


def result_type(*a):
    ks = [x.k if isinstance(x, SArr) else (x.k if isinstance(x, SDtype) else dtkind(x)) for x in a]
    k = ks[0]
    for x in ks:
        k = promote(k, x)
    return SDtype(k)


def issubdtype(a, b):
    if isinstance(a, SDtype):
        return np.issubdtype(a.type, b)
    return np.issubdtype(a, b)


def int_ceil(x):
    return S(z3.simplify(-z3.ToInt(-(x.e if x.kind == "f" else z3.ToReal(_arith(x.e)))))) if isinstance(x, S) else math.ceil(x)


def int_floor(x):
    return S(z3.simplify(z3.ToInt(x.e if x.kind == "f" else z3.ToReal(_arith(x.e))))) if isinstance(x, S) else math.floor(x)


MODELS = {
    math.ceil: int_ceil, math.floor: int_floor,
    np.allclose: allclose, np.unique: unique, np.isin: isin, np.any: any_, np.all: all_, np.sum: sum_,
    np.mean: mean_, np.std: std_, np.var: var_, np.zeros: zeros, np.ones: ones, np.full: full, np.empty: empty,
    np.zeros_like: zeros_like, np.ones_like: ones_like, np.full_like: full_like,
    np.empty_like: empty_like, np.arange: arange, np.asarray: asarray, np.array: array,
    np.copy: copy, np.transpose: transpose, np.reshape: reshape, np.ravel: ravel, np.repeat: repeat, np.tile: tile,
    np.block: block, np.concatenate: concatenate, np.stack: stack, np.hstack: hstack, np.vstack: vstack, np.column_stack: column_stack,
    np.matmul: matmul, np.dot: dot, np.argsort: argsort, np.argwhere: argwhere, np.sort: sort,
    np.cumsum: cumsum, np.count_nonzero: count_nonzero, np.clip: clip, np.ceil: ceil,
    np.floor: floor, np.array_equal: array_equal, np.eye: eye, np.diag: diag, np.identity: eye, np.real: lambda a: lit(a),
    np.outer: outer, np.divide: divide, np.ndim: ndim, np.shape: shape,
    np.squeeze: squeeze, np.result_type: result_type, np.issubdtype: issubdtype,
    np.isnan: lambda a: unary(a, "isnan"),
    np.isfinite: lambda a: unary(a, "isfinite"),
    np.abs: lambda a: unary(a, "abs"),
    np.absolute: lambda a: unary(a, "abs"),
    np.logical_not: lambda a: unary(a, "~"),
    np.logical_and: lambda a, b: binary(a, b, "&"),
    np.logical_or: lambda a, b: binary(a, b, "|"),
    np.add: lambda a, b: binary(a, b, "+"),
    np.subtract: lambda a, b: binary(a, b, "-"),
    np.multiply: lambda a, b: binary(a, b, "*"),
    np.maximum: lambda a, b: binary(a, b, "max"),
    np.minimum: lambda a, b: binary(a, b, "min"),
    np.equal: lambda a, b: binary(a, b, "=="),
    np.square: lambda a: binary(a, a, "*"),
    np.exp: uf1("exp", _ax_exp), np.log: uf1("log"), np.sqrt: uf1("sqrt", _ax_sqrt),
    np.max: lambda a, axis=None, **kw: extremum(a, "max", axis, **kw),
    np.min: lambda a, axis=None, **kw: extremum(a, "min", axis, **kw),
    np.amax: lambda a, axis=None, **kw: extremum(a, "max", axis, **kw),
    np.amin: lambda a, axis=None, **kw: extremum(a, "min", axis, **kw),
    np.argmax: lambda a, axis=None, **kw: argext(a, "max", axis),
    np.argmin: lambda a, axis=None, **kw: argext(a, "min", axis),
    np.nonzero: nonzero,
    np.flatnonzero: lambda a: nonzero1(lit(a)),
    np.where: lambda c, *ab: where3(c, *ab) if ab else (nonzero1(lit(c)),),
    np.ix_: lambda *p: Ix_(p),
    np.atleast_1d: lambda a: lit(a) if lit(a).ndim else SArr((1,), lit(a).kind, lambda i: lit(a)),
}


def method(a, name):
    """bound method / attribute of a symbolic array"""
    M = {
        "sum": lambda axis=None, keepdims=False, **k: sum_(a, axis, keepdims),
        "mean": lambda axis=None, keepdims=False, **k: mean_(a, axis, keepdims),
        "std": lambda axis=None, ddof=0: std_(a, axis, ddof),
        "var": lambda axis=None, ddof=0: var_(a, axis, ddof),
        "any": lambda axis=None, **k: any_(a, axis),
        "all": lambda axis=None, **k: all_(a, axis),
        "max": lambda axis=None, **k: extremum(a, "max", axis, **k),
        "min": lambda axis=None, **k: extremum(a, "min", axis, **k),
        "argmax": lambda axis=None, **k: argext(a, "max", axis),
        "argmin": lambda axis=None, **k: argext(a, "min", axis),
        "astype": lambda dt, copy=True, **k: cast_arr(a, dtkind(dt)) if (copy or a.k != dtkind(dt)) else a,
        "copy": lambda **k: a.snapshot(),
        "reshape": lambda *s, **k: reshape(a, *s),
        "ravel": lambda **k: ravel(a),
        "flatten": lambda **k: ravel(a).snapshot(),
        "squeeze": lambda axis=None: squeeze(a, axis),
        "dot": lambda b: dot(a, b),
        "nonzero": lambda: (nonzero1(a),),
        "argsort": lambda **k: argsort(a),
        "transpose": lambda *k: transpose(a),
        "cumsum": lambda *k: cumsum(a),
        "tolist": lambda: a,
        "item": lambda: a.fn(*[z3.IntVal(0)] * a.ndim),
        "fill": lambda v: setitem(a, slice(None), v),
        "take": lambda ix, axis=0: getitem(a, ix),
        "clip": lambda lo=None, hi=None: clip(a, lo, hi),
    }
    if getattr(ctx(), "torch", False):
        from . import torchmodel

        T = torchmodel.methods(a)
        if name in T:
            return T[name]
    if name in M:
        return M[name]
    raise Unsupported(f"ndarray.{name}")
