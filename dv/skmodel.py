"""Assumed contracts of scikit-learn / itertools / rng helpers."""
import itertools
import warnings

import numpy as np
import sklearn
import sklearn.base
import sklearn.utils
from sklearn.utils import (
    check_array, check_consistent_length, check_random_state, check_X_y,
)
from sklearn.utils.validation import check_is_fitted, has_fit_parameter, _num_samples

from . import npmodel
from .core import (
    KIND, S, SArr, SDtype, SMap, SSeq, Unsupported, _toz, cast, ctx, dim, dtkind,
    is_sym, ite, z3, zi, I, B, R,
)
from .npmodel import deq, iv, lit, note


def m_check_array(array, accept_sparse=False, *, dtype="numeric", ensure_2d=True, allow_nd=False,
                  ensure_all_finite=True, ensure_min_samples=1, ensure_min_features=1,
                  input_name="", copy=False, **kw):
    if not is_sym(array):
        if array is None:
            raise ValueError("Expected array, got None")
        return check_array(array, accept_sparse=accept_sparse, dtype=dtype, ensure_2d=ensure_2d,
                           allow_nd=allow_nd, ensure_all_finite=ensure_all_finite,
                           ensure_min_samples=ensure_min_samples,
                           ensure_min_features=ensure_min_features, input_name=input_name, copy=copy, **kw)
    note("sklearn.check_array: returns its (numeric, finite) input; ValueError on wrong rank, empty or NaN input")
    c = ctx()
    if isinstance(array, S):
        if ensure_2d:
            raise ValueError("Expected 2D array, got scalar array instead")
        raise Unsupported("check_array of a scalar")
    a = npmodel.asarray(array)
    if ensure_2d and a.ndim != 2 and not (allow_nd and a.ndim > 2):
        raise ValueError("Expected 2D array")
    if not allow_nd and a.ndim >= 3:
        raise ValueError("Found array with dim 3")
    if ensure_all_finite and a.k == "f":
        # any NaN?
        probe = a.fn(*[z3.Int(f"i{q}!canon") for q in range(a.ndim)])
        if probe.nan is not None:
            if bool(npmodel.any_(npmodel.unary(a, "isnan"))):
                raise ValueError("Input contains NaN")
    if ensure_min_samples > 0:
        if not c.branch(zi(a.shape[0]) >= ensure_min_samples):
            raise ValueError("Found array with 0 sample(s)")
    if a.ndim == 2 and ensure_min_features > 0:
        if not c.branch(zi(a.shape[1]) >= ensure_min_features):
            raise ValueError("Found array with 0 feature(s)")
    if dtype not in ("numeric", None):
        ks = dtype if isinstance(dtype, (list, tuple)) else [dtype]
        kk = [dtkind(d) for d in ks]
        if a.k not in kk and not (a.rows and "f" in kk):
            a = npmodel.cast_arr(a, kk[0])
    if copy:
        a = a.snapshot()
    return a


def m_len_of(a):
    if isinstance(a, SArr):
        if a.ndim == 0:
            raise TypeError("Singleton array cannot be considered a valid collection.")
        return a.shape[0]
    if isinstance(a, SSeq):
        return a.total()
    if isinstance(a, S):
        raise TypeError("Expected sequence or array-like")
    return _num_samples(a)


def m_check_consistent_length(*arrays):
    note("sklearn.check_consistent_length")
    ls = [m_len_of(a) for a in arrays if a is not None]
    for x in ls[1:]:
        if not deq(ls[0], x):
            raise ValueError("Found input variables with inconsistent numbers of samples")


def m_chain_from_iterable(seqs):
    out = []
    for s in seqs:
        if isinstance(s, SSeq):
            raise Unsupported("chain of symbolic sequences")
        out.extend(list(s))
    return out


def m_chain(*seqs):
    return m_chain_from_iterable(seqs)


class SymRng:
    """abstract random state: every draw is an arbitrary value of its range"""

    _dv_native = True
    _dv_sym = True

    def permutation(self, n):
        note("RandomState.permutation: a bijection of the indices")
        if isinstance(n, SArr):
            a = n
            p, ip = npmodel.permutation_uf(zi(a.shape[0]))
            g = SArr((a.shape[0],), "i", lambda i: S(p(i)),
                     inv=(lambda v: z3.And(0 <= v, v < zi(a.shape[0])), lambda v: ip(v)))
            r = npmodel.getitem(a, g)
            return r
        nn = zi(n)
        p, ip = npmodel.permutation_uf(nn)
        return SArr((dim(n),), "i", lambda i: S(p(i)),
                    inv=(lambda v: z3.And(0 <= v, v < nn), lambda v: ip(v)))

    def shuffle(self, a):
        note("RandomState.shuffle: a bijection of the positions")
        if not isinstance(a, SArr):
            raise Unsupported("shuffle of a list")
        p, ip = npmodel.permutation_uf(zi(a.shape[0]))
        n = zi(a.shape[0])
        old, oinv = a.fn, a.inv
        a.fn = lambda *ix: old(p(ix[0]), *ix[1:])
        if oinv is not None:
            m, pos = oinv
            a.inv = (m, lambda v: ip(pos(v)))
        a.version += 1

    def choice(self, a, size=None, replace=True, p=None):
        note("RandomState.choice: values of the pool; without replacement, injective; "
             "with p, only entries of positive probability")
        c = ctx()
        if isinstance(a, (S, int)):
            pool = npmodel.arange(a)
        else:
            pool = lit(a)
        n = zi(pool.shape[0])
        if size is None:
            k = c.fresh("i", "draw")
            c.fact(z3.And(0 <= k, k < n))
            return pool.fn(k)
        m = zi(size)
        if not c.branch(z3.And(m >= 0)):
            raise ValueError("negative dimensions are not allowed")
        if not c.branch(z3.Or(m == 0, n > 0)):
            raise ValueError("a must be non-empty")
        if not replace:
            if not c.branch(m <= n):
                raise ValueError("Cannot take a larger sample than population when replace is False")
        f = c.func("choice", I, I)
        k = iv("k")
        c.forall([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= f(k), f(k) < n)), [f(k)])
        inv = None
        if not replace:
            g = c.func("choice_inv", I, I)
            mem = c.func("choice_mem", I, B)
            c.forall([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(g(f(k)) == k, mem(f(k)))), [f(k)])
            c.forall([k], z3.Implies(z3.And(0 <= k, k < n, mem(k)),
                     z3.And(0 <= g(k), g(k) < m, f(g(k)) == k)), [mem(k)])
            inv = (lambda v: z3.And(0 <= v, v < n, mem(v)), lambda v: g(v))
        if p is not None:
            pf = lit(p).fn
            c.forall([k], z3.Implies(z3.And(0 <= k, k < m), pf(f(k)).e > 0), [f(k)])
        ix = SArr((S(m),), "i", lambda i: S(f(i)), inv=inv)
        return npmodel.getitem(pool, ix)

    def randint(self, low, high=None, size=None, **kw):
        c = ctx()
        if high is None:
            low, high = 0, low
        lo, hi = zi(low), zi(high)
        if size is None:
            v = c.fresh("i", "randint")
            c.fact(z3.And(lo <= v, v < hi))
            return S(v)
        f = c.func("randint", I, I)
        k = iv("k")
        c.forall([k], z3.And(lo <= f(k), f(k) < hi), [f(k)])
        return SArr(npmodel.shape_of(size), "i", lambda i: S(f(i)))

    def _floats(self, size, lo=None, hi=None):
        c = ctx()
        if size is None:
            v = c.fresh("f", "rand")
            if lo is not None:
                c.fact(z3.And(v >= lo, v < hi))
            return S(v)
        sh = npmodel.shape_of(size)
        a = npmodel.arr_uf("rand", sh, "f")
        if lo is not None:
            vs = [iv("r") for _ in sh]
            c.forall(vs, z3.And(a.uf(*vs) >= lo, a.uf(*vs) < hi), [a.uf(*vs)])
        return a

    def rand(self, *sh):
        return self._floats(sh if sh else None, 0, 1)

    def randn(self, *sh):
        return self._floats(sh if sh else None)

    def standard_normal(self, size=None):
        return self._floats(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._floats(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        c = ctx()
        a = self._floats(size)
        if isinstance(a, S):
            c.fact(z3.And((a >= low).e, (a <= high).e))
            return a
        if isinstance(low, (int, float, S)) and isinstance(high, (int, float, S)):
            vs = [iv("r") for _ in a.shape]
            v = S(a.uf(*vs))
            c.forall(vs, z3.And((v >= low).e, (v <= high).e), [a.uf(*vs)])
        return a


def m_check_random_state(seed):
    if isinstance(seed, SymRng):
        return seed
    note("check_random_state: an arbitrary random state")
    return SymRng()


def m_isscalar(a):
    if isinstance(a, S):
        return True
    if isinstance(a, (SArr, SSeq, SMap)):
        return False
    return np.isscalar(a)


def m_size(a, axis=None):
    if isinstance(a, SArr):
        return a.size if axis is None else a.shape[axis]
    if isinstance(a, S):
        return 1
    return np.size(a, axis)


def only_concrete(f):
    def g(*a, **k):
        if is_sym(list(a)) or is_sym(k):
            raise Unsupported(getattr(f, "__name__", str(f)))
        return f(*a, **k)

    return g


def m_shuffle(*arrays, random_state=None, n_samples=None):
    raise Unsupported("sklearn shuffle")


def _wrap_np(f, model):
    """numpy function: native on concrete arguments, contract otherwise"""

    def g(*a, **k):
        if not is_sym(list(a)) and not is_sym(k):
            return f(*a, **k)
        return model(*a, **k)

    g.__name__ = getattr(f, "__name__", "np")
    return g


def m_list_reversed(x):
    return list(reversed(x))


def all_models():
    m = {}
    for f, mod in npmodel.MODELS.items():
        m[f] = _wrap_np(f, mod)
    m[check_array] = m_check_array
    m[check_consistent_length] = m_check_consistent_length
    m[itertools.chain.from_iterable] = m_chain_from_iterable
    m[itertools.chain] = m_chain
    m[check_random_state] = m_check_random_state
    m[np.isscalar] = m_isscalar
    m[np.size] = m_size
    m[_num_samples] = lambda a: m_len_of(a)
    m[warnings.warn] = lambda *a, **k: None
    m[check_is_fitted] = lambda *a, **k: None
    return m


def m_type_of_target(y, input_name="", raise_unknown=False):
    from sklearn.utils.multiclass import type_of_target

    if not is_sym(y):
        return type_of_target(y)
    note("sklearn.type_of_target: integer/boolean 1-D labels and integral floats are "
         "binary/multiclass, other finite floats continuous, NaN rejected")
    c = ctx()
    y = lit(y)
    if y.ndim == 2 and isinstance(y.shape[1], int) and y.shape[1] == 1:
        y = npmodel.ravel(y)
    if y.ndim != 1:
        raise Unsupported("type_of_target of a matrix")
    if y.k == "f":
        if bool(npmodel.any_(npmodel.unary(y, "isnan"))):
            raise ValueError("Input contains NaN")
        yf = y.fn
        frac = SArr(y.shape, "b", lambda i: S(yf(i).e != z3.ToReal(z3.ToInt(yf(i).e))))
        if bool(npmodel.any_(frac)):
            return "continuous"
    elif y.k not in ("i", "b"):
        raise Unsupported("type_of_target")
    if c.branch(c.fresh("b", "morethan2")):
        return "multiclass"
    return "binary"


_old_all = all_models


def all_models():
    from sklearn.utils.multiclass import type_of_target

    m = _old_all()
    m[type_of_target] = m_type_of_target
    return m


_old_all2 = all_models


def m_reduce(f, seq, *init):
    import functools

    if isinstance(seq, SSeq) and f in (np.logical_or, np.logical_and) and not init:
        note("functools.reduce(logical_or/and, arrays): elementwise any/all over the arrays")
        if not ctx().branch(zi(seq.total()) > 0):
            raise TypeError("reduce() of empty iterable with no initial value")
        v = seq.get(z3.Int("probe!"))
        if not isinstance(v, SArr) or v.ndim != 1 or v.rows:
            raise Unsupported("reduce over a symbolic sequence")
        st = SArr((seq.total(), v.shape[0]), "b", lambda j, i: cast(seq.get(j).fn(i), "b"))
        return (npmodel.any_ if f is np.logical_or else npmodel.all_)(st, axis=0)
    if isinstance(seq, SSeq) or not isinstance(seq, (list, tuple)):
        raise Unsupported("reduce over a symbolic sequence")
    if f in (np.logical_or, np.logical_and):
        op = "or" if f is np.logical_or else "and"
        g = lambda a, b: (lit(a) | lit(b)) if op == "or" else (lit(a) & lit(b))
        return functools.reduce(g, list(seq), *init)
    raise Unsupported("reduce")


def all_models():
    import functools

    m = _old_all2()
    m[functools.reduce] = m_reduce
    return m


# assumed contract of the sklearn helper: exact values left abstract
def m_validate(n_samples, test_size, train_size, default_test_size=None):
    note("sklearn._validate_shuffle_split: 1 <= n_train, 1 <= n_test, n_train + n_test <= n_samples, or ValueError")
    c = ctx()
    n = zi(n_samples)
    key = (str(test_size), str(train_size), str(default_test_size))
    ft, fe, ok = (c.memo.setdefault(("vss", key, q), z3.Function(f"vss_{q}_{len(c.memo)}", I, s))
                  for q, s in (("tr", I), ("te", I), ("ok", B)))
    c.fact(z3.Implies(ok(n), z3.And(ft(n) >= 1, fe(n) >= 1, ft(n) + fe(n) <= n)))
    if not c.branch(ok(n)):
        raise ValueError("sizes")
    return S(ft(n)), S(fe(n))



def m_indexable(*arrays):
    note("sklearn.indexable: returns its arrays, ValueError when their lengths differ")
    m_check_consistent_length(*arrays)
    return list(arrays)


_old_all3 = all_models


def all_models():
    from sklearn.model_selection._split import _validate_shuffle_split
    from sklearn.utils import indexable

    m = _old_all3()
    m[_validate_shuffle_split] = m_validate
    m[indexable] = m_indexable
    return m
