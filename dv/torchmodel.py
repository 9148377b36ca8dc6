"""torch tensors as symbolic arrays: the names torch gives to what numpy has, with
torch's conventions (dim=, methods size()/dim()/repeat, max returning a pair).
Switched on for a path by `torch_mode()`; autograd and devices are not modelled."""
import numpy as np
import torch

from . import npmodel
from .core import S, SArr, SDtype, Unsupported, ctx, z3, zi, cast, dim, promote
from .npmodel import lit, note

KINDS = {
    torch.int64: "i", torch.int32: "i", torch.long: "i", torch.float: "f", torch.float32: "f",
    torch.float64: "f", torch.double: "f", torch.bool: "b", torch.get_default_dtype(): "f",
}


def torch_mode():
    ctx().torch = True


def on():
    return getattr(ctx(), "torch", False)


def tk(dt, default):
    if dt is None:
        return default
    if isinstance(dt, SDtype):
        return dt.k
    if dt in KINDS:
        return KINDS[dt]
    raise Unsupported("torch dtype")


def ten(v):
    """a value as a tensor of ours"""
    if isinstance(v, torch.Tensor):
        return lit(v.detach().numpy())
    return lit(v)


def native_empty(t):
    return isinstance(t, torch.Tensor) and t.ndim == 1 and t.numel() == 0


def cat(seq, dim=0, **kw):
    items = [t for t in seq]
    # torch drops the one-dimensional empty tensors of the list
    full = [t for t in items if not native_empty(t)]
    if not full:
        return items[0] if items else torch.cat(items)
    if len(full) == 1:
        return ten(full[0]).snapshot()
    return npmodel.concatenate([ten(t) for t in full], axis=dim)


def shape_args(sh):
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
        sh = tuple(sh[0])
    return tuple(sh)


def full(size, fill_value, dtype=None, device=None, **kw):
    r = npmodel.full(tuple(size), fill_value)
    return r if dtype is None else npmodel.cast_arr(r, tk(dtype, r.k))


def const(v):
    def f(*size, dtype=None, device=None, **kw):
        size = kw.pop("size", None) or shape_args(size)
        return npmodel.cast_arr(npmodel.full(tuple(size), float(v)), tk(dtype, "f"))
    return f


def like(v):
    def f(a, dtype=None, device=None, **kw):
        a = ten(a)
        return npmodel.cast_arr(npmodel.full(tuple(a.shape), v), tk(dtype, a.k))
    return f


def arange(*a, device=None, dtype=None, **kw):
    return npmodel.arange(*a)


def tensor(v, dtype=None, device=None, **kw):
    r = ten(v)
    if isinstance(r, S):
        return SArr((), r.kind, lambda: r)
    r = r.snapshot()
    return r if dtype is None else npmodel.cast_arr(r, tk(dtype, r.k))


def one(d):
    return d


def reduce(op):
    def f(a, dim=None, keepdim=False, axis=None, keepdims=None, dtype=None):
        ax = dim if dim is not None else axis
        kd = keepdim if keepdims is None else keepdims
        a = ten(a)
        if isinstance(a, S):
            return a
        if op == "sum":
            return npmodel.sum_(a, ax, kd)
        return npmodel.mean_(a, ax, kd)
    return f


class Pair(tuple):
    """what torch.max(x, dim) returns"""

    _dv_native = _dv_sym = True

    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def extreme(op):
    def f(a, dim=None, keepdim=False):
        a = ten(a)
        if isinstance(dim, (SArr, S)):
            return npmodel.binary(a, dim, op)
        if dim is None:
            return npmodel.extremum(a, op)
        return Pair((npmodel.extremum(a, op, dim, keepdims=keepdim), npmodel.argext(a, op, dim)))
    return f


def arg(op):
    def f(a, dim=None, axis=None, keepdim=False):
        return npmodel.argext(ten(a), op, dim if dim is not None else axis)
    return f


def unsqueeze(a, d):
    a = ten(a)
    if a.rows:
        raise Unsupported("unsqueeze of opaque rows")
    nd = a.ndim
    if d < 0:
        d += nd + 1
    sh = list(a.shape)
    sh.insert(d, 1)
    f = a.fn

    def fn(*ix):
        ix = list(ix)
        del ix[d]
        return f(*ix)

    return SArr(sh, a.k, fn)


def repeat(a, *times):
    """torch's repeat is numpy's tile"""
    a = ten(a)
    times = shape_args(times)
    if a.rows:
        raise Unsupported("repeat of opaque rows")
    extra = len(times) - a.ndim
    if extra < 0:
        raise RuntimeError("Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor")
    sh = [1] * extra + list(a.shape)
    f = a.fn
    out = [t if isinstance(s, int) and s == 1 else (s if isinstance(t, int) and t == 1 else s * t) for s, t in zip(sh, times)]

    def fn(*ix):
        jx = []
        for q in range(len(sh)):
            if q < extra:
                continue
            if isinstance(times[q], int) and times[q] == 1:
                jx.append(ix[q])
            elif isinstance(sh[q], int) and sh[q] == 1:
                jx.append(z3.IntVal(0))
            else:
                jx.append(ix[q] % zi(sh[q]))
        return f(*jx)

    return SArr(out, a.k, fn)


def permute(a, *dims):
    a = ten(a)
    dims = shape_args(dims)
    f = a.fn
    if a.rows:
        raise Unsupported("permute of opaque rows")

    def fn(*ix):
        jx = [None] * len(dims)
        for q, d in enumerate(dims):
            jx[d] = ix[q]
        return f(*jx)

    return SArr([a.shape[d] for d in dims], a.k, fn)


def sq_norm(a, dim):
    return npmodel.sum_(npmodel.binary(a, a, "*"), dim)


def matmul(a, b):
    return npmodel.matmul(ten(a), ten(b))


def where(c, x, y):
    return npmodel.where3(ten(c), ten(x) if not isinstance(x, (int, float)) else x, ten(y) if not isinstance(y, (int, float)) else y)


def bincount(a, weights=None, minlength=0):
    return npmodel.bincount(ten(a), minlength=minlength)


def flatten(a, start_dim=0, end_dim=-1):
    a = ten(a)
    if a.ndim == 2 and start_dim == 1:
        return a
    if a.ndim == 1:
        return a
    raise Unsupported("flatten")


def median(a, *r, **kw):
    """the lower median: an arbitrary function of the tensor's elements"""
    if r or kw:
        raise Unsupported("median of an axis")
    a = ten(a)
    c = ctx()
    tab = c.memo.setdefault("medians", [])
    for b, m in tab:
        if b is a or (b.ndim == a.ndim and b.k == a.k and all(npmodel.deq(p, q) for p, q in zip(a.shape, b.shape)) and same_arrays(a, b)):
            return m
    m = S(c.fresh(a.k, "median"))
    tab.append((a.snapshot(), m))
    return m


def same_arrays(a, b):
    c = ctx()
    ix = [npmodel.iv("q") for _ in range(1 if a.rows else a.ndim)]
    rng = z3.And([z3.And(0 <= q, q < zi(d)) for q, d in zip(ix, a.shape)])
    return c.entails(z3.Implies(rng, a.fn(*ix).e == b.fn(*ix).e), 800)


def to_tensor(X, device=None, accept_sparse=False):
    """skorch.utils.to_tensor: the same values"""
    note("skorch.utils.to_tensor (same values)")
    if isinstance(X, torch.Tensor):
        return X
    if isinstance(X, dict):
        return {k: to_tensor(v) for k, v in X.items()}
    return ten(X)


def check_array(X, **kw):
    """sklearn's check_array on what it accepts: the same values"""
    note("sklearn.utils.check_array (returns the values it is given)")
    if isinstance(X, torch.Tensor):
        return X
    X = ten(X)
    dt = kw.get("dtype")
    if dt in (bool, float):
        X = npmodel.cast_arr(X, "b" if dt is bool else "f") if X.k != "row" else X
    return X


def gather(a, dim, index):
    """one element of every row"""
    a, index = ten(a), ten(index)
    if a.ndim != 2 or a.rows or dim not in (1, -1) or index.ndim != 2:
        raise Unsupported("gather")
    if not npmodel.deq(index.shape[0], a.shape[0]):
        raise Unsupported("gather of fewer rows")
    i, j = npmodel.iv("i"), npmodel.iv("j")
    npmodel.in_bounds(SArr((index.shape[0],), "i", lambda q: index.fn(q, z3.IntVal(0))), a.shape[1]) if isinstance(index.shape[1], int) and index.shape[1] == 1 else None
    af, xf = a.fn, index.fn
    return SArr(index.shape, a.k, lambda i, j: af(i, xf(i, j).e))


def methods(a):
    return {
        "sum": lambda *d, **k: reduce("sum")(a, *d, **k),
        "mean": lambda *d, **k: reduce("mean")(a, *d, **k),
        "max": lambda *d, **k: extreme("max")(a, *d, **k),
        "min": lambda *d, **k: extreme("min")(a, *d, **k),
        "argmax": lambda *d, **k: arg("max")(a, *d, **k),
        "argmin": lambda *d, **k: arg("min")(a, *d, **k),
        "size": lambda d=None: tuple(a.shape) if d is None else a.shape[d],
        "dim": lambda: a.ndim,
        "unique": lambda: npmodel.unique(a),
        "unsqueeze": lambda d: unsqueeze(a, d),
        "squeeze": lambda d=None: npmodel.squeeze(a, d),
        "repeat": lambda *t: repeat(a, *t),
        "permute": lambda *d: permute(a, *d),
        "t": lambda: npmodel.transpose(a),
        "mm": lambda b: matmul(a, b),
        "matmul": lambda b: matmul(a, b),
        "float": lambda: npmodel.cast_arr(a, "f"),
        "long": lambda: npmodel.cast_arr(a, "i"),
        "bool": lambda: npmodel.cast_arr(a, "b"),
        "to": lambda *x, **k: a,
        "cpu": lambda: a,
        "detach": lambda: a,
        "clone": lambda: a.snapshot(),
        "numpy": lambda: a,
        "flatten": lambda *d, **k: flatten(a, *d, **k),
        "view": lambda *s: npmodel.reshape(a, *s),
        "view_as": lambda b: npmodel.reshape(a, *b.shape),
        "abs": lambda: npmodel.unary(a, "abs"),
        "neg": lambda: npmodel.unary(a, "-"),
        "gather": lambda d, i: gather(a, d, i),
        "item": lambda: npmodel.squeeze(a) if a.ndim else a.fn(),
        "device": "cpu",
    }


MODELS = {
    torch.cat: cat, torch.full: full, torch.zeros: const(0), torch.ones: const(1),
    torch.zeros_like: like(0), torch.ones_like: like(1), torch.arange: arange,
    torch.tensor: tensor, torch.sum: reduce("sum"), torch.mean: reduce("mean"),
    torch.max: extreme("max"), torch.min: extreme("min"), torch.argmax: arg("max"),
    torch.argmin: arg("min"), torch.matmul: matmul, torch.mm: matmul, torch.where: where,
    torch.exp: lambda a: npmodel.MODELS[np.exp](ten(a)), torch.log: lambda a: npmodel.MODELS[np.log](ten(a)),
    torch.sqrt: lambda a: npmodel.MODELS[np.sqrt](ten(a)), torch.abs: lambda a: npmodel.unary(ten(a), "abs"),
    torch.diag: lambda a, k=0: npmodel.diag(ten(a), k), torch.eye: lambda n, m=None, **kw: npmodel.eye(n, m),
    torch.mul: lambda a, b: npmodel.binary(ten(a), b if isinstance(b, (int, float, S)) else ten(b), "*"),
    torch.any: lambda a: npmodel.any_(ten(a)), torch.bincount: bincount, torch.median: median,
    torch.unsqueeze: unsqueeze, torch.stack: lambda s, dim=0: npmodel.stack([ten(x) for x in s], axis=dim),
}
