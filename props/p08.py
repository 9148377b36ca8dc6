"""P08: subsampling transformers."""
import numpy as np
from sklearn.model_selection import ShuffleSplit, StratifiedShuffleSplit

import skada
import skada.model_selection as M
import skada.transformers as T
from dv.core import B, I as I_, S, SArr, ctx, z3, zi
from dv.npmodel import iv, note
from dv.prop import Scn, Violation, opt
from dv.spec import *
from props.util import *

ID = "P08"
LEVEL = "proof"
ASSUMPTIONS = ["sklearn ShuffleSplit/StratifiedShuffleSplit.split: disjoint injective valid positions, train of train_size samples, or ValueError",
               "StratifiedDomainShuffleSplit.split: the same (its own property P07 checks it by bounded runtime contracts)"]
NAMES = ["Subsampler", "DomainSubsampler", "StratifiedDomainSubsampler"]


def draw(X, size):
    note("splitter.split: injective valid disjoint positions, train of train_size samples, or ValueError")
    c = ctx()
    n = zi(X.shape[0])
    if not c.branch(c.fresh("b", "sizes_possible")):
        exc = ValueError("sizes")
        exc._dv_raised = True
        raise exc
    pos, side = c.func("pos", I_, I_), c.func("side", I_, I_)
    out = []
    m1 = c.fresh("i", "m")
    for q, m in ((0, zi(size)), (1, m1)):
        c.fact(z3.And(m >= 1, m <= n))
        f = c.func("part", I_, I_)
        k = iv("k")
        c.forall([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= f(k), f(k) < n, pos(f(k)) == k, side(f(k)) == q)), [f(k)])
        out.append(SArr((S(m),), "i", lambda i, f=f: S(f(i))))
    return [tuple(out)]


class FakeSplit:
    _dv_native = True
    _dv_sym = True

    def __init__(self, n_splits=10, *, test_size=None, train_size=None, random_state=None):
        self.n_splits, self.test_size, self.train_size = n_splits, test_size, train_size

    def split(self, X, y=None, groups=None):
        if self.train_size is None or self.test_size is not None or self.n_splits != 1:
            return NotImplemented
        return draw(X, self.train_size)


def c_sds(it, self, X, y, sample_domain=None):
    return draw(X, self.train_size)


def b_fit(name):
    def b():
        n = length("n", 1)
        X, y, sd, w = rows(n, name="X"), ints(n, "y"), ints(n, "sd"), floats(n, "w")
        ts = length("train_size", 1)
        t = getattr(T, name)(train_size=1)
        t.train_size = ts
        return (t, X, y), dict(sample_domain=sd, sample_weight=w), dict(
            n=n, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot(), w=w.snapshot(), ts=ts)
    return b


def p_fit(P, out, I):
    if out[0] == "raise":
        P("refused with ValueError only", type(out[1]) is ValueError)
        return
    X, y, par = out[1]
    n, ts = I["n"], I["ts"]
    P("as many samples as asked, or all of them", ln(X) == S(z3.If(zi(ts) < zi(n), zi(ts), zi(n))))
    P("domain labels and weights come along", set(par) == {"sample_domain", "sample_weight"})
    k, k2 = fresh_int("k"), fresh_int("k2")
    r = el(X, k)
    t = tag(r)
    ink = And(k >= 0, k < ln(X))
    P("every row is an input row", Implies(ink, And(t >= 0, t < n, Same(r, el(I["X"], t)))))
    P("no sample twice", Implies(And(ink, k2 > k, k2 < ln(X)), tag(el(X, k2)) != t))
    for nm, a, b in (("label", y, I["y"]), ("domain label", par["sample_domain"], I["sd"]), ("weight", par["sample_weight"], I["w"])):
        P(f"one {nm} per sample", ln(a) == ln(X))
        P(f"{nm}s stay with their samples", Implies(ink, Same(el(a, k), el(b, t))))


def b_tr(name):
    def b():
        n = length("n", 1)
        X, sd = rows(n, name="X"), ints(n, "sd")
        return (getattr(T, name)(train_size=1), X), dict(sample_domain=sd), dict(X=X.snapshot())
    return b


def p_tr(P, out, I):
    if out[0] == "raise":
        return P.fail("transform keeps the data", repr(out[1]))
    P("transform keeps every sample", arr_same(out[1], I["X"]))


def scenarios():
    out = []
    for nm in NAMES:
        f = opt(T, nm + ".fit_transform")
        out.append(Scn(f"{nm}.fit_transform", f, b_fit(nm), p_fit,
                       models={ShuffleSplit: FakeSplit, StratifiedShuffleSplit: FakeSplit},
                       contracts={M.StratifiedDomainShuffleSplit.split: c_sds}, expect=("return", "raise")))
        out.append(Scn(f"{nm}.transform", opt(T, nm + ".transform"), b_tr(nm), p_tr))
    return out


# ------------------------------------------------------------- runtime contract
def k_sub(p):
    n = len(p["sd"])
    X, y, sd, w, ts = p["X"], p["y"], p["sd"], p["w"], p["ts"]
    mk = lambda seed=p["seed"]: getattr(skada, p["cls"])(train_size=ts, random_state=seed)
    m = n if ts >= n else (int(np.floor(ts * n)) if isinstance(ts, float) else ts)
    feasible = m >= 1
    if m < n:
        g = list(zip(y.tolist(), sd.tolist())) if p["cls"].startswith("Strat") else sd.tolist()
        if p["cls"] != "Subsampler":
            cnt = [g.count(v) for v in set(g)]
            feasible = feasible and min(cnt) >= 2 and m >= len(cnt) and n - m >= len(cnt)
    kw = {}
    if not p["give"][0]:
        y = y.astype(int)
        y[sd < 0] = -1  # domain labels are then derived from the masked labels
        if len(set(y[y != -1].tolist())) < 2 or (sd >= 0).all():
            return
    if p["give"][0]:
        kw["sample_domain"] = sd
    if p["give"][1]:
        kw["sample_weight"] = w
    if not p["give"][0] and p["cls"] != "Subsampler":
        return
    if not feasible:
        return
    c = [a.copy() for a in (X, y, sd, w)]
    t = mk()
    Xo, yo, par = must("fit_transform", t.fit_transform, X, y, **kw)
    for nm, a, b in zip(("X", "y", "sample_domain", "sample_weight"), (X, y, sd, w), c):
        same_arr(f"frame/{nm}", a, b)
    check("size", len(Xo) == m, (len(Xo), m))
    ids = Xo[:, 0].astype(int)
    check("distinct", len(set(ids.tolist())) == m, ids)
    same_arr("rows", Xo, X[ids])
    same_arr("labels", yo, y[ids])
    if p["give"][0]:
        check("sample_domain/given", "sample_domain" in par, par)
        same_arr("sample_domain", par["sample_domain"], sd[ids])
    if p["give"][1]:
        check("sample_weight/given", "sample_weight" in par, par)
        same_arr("sample_weight", par["sample_weight"], w[ids])
    if m < n and p["cls"] != "Subsampler":
        gi = list(zip(y.tolist(), sd.tolist())) if p["cls"].startswith("Strat") else sd.tolist()
        for v in set(gi):
            a = sum(gi[i] == v for i in ids)
            check("share", abs(a - m * gi.count(v) / n) <= 1 + 1e-9, (v, a, m, n, gi.count(v)))
    Xo2, yo2, _ = mk().fit_transform(X, y, **kw)
    same_arr("reproducible", Xo2, Xo)
    same_arr("transform", must("transform", t.transform, X, sample_domain=sd), c[0])
    same_arr("transform/new", must("transform", t.transform, X[:2], sample_domain=sd[:2], allow_source=True), c[0][:2])


def k_pipe(p):
    """an estimator behind a subsampler trains on the kept samples with their own labels"""
    from sklearn.base import BaseEstimator, ClassifierMixin
    from skada import make_da_pipeline

    X, y, sd = p["X"], p["y"], p["sd"]
    seen = []

    class E(ClassifierMixin, BaseEstimator):
        __metadata_request__fit = {"sample_domain": True}

        def fit(self, X, y, sample_domain=None):
            seen.append((X[:, 0].astype(int), np.asarray(y), sample_domain))
            self.classes_ = np.unique(y)
            return self

        def predict(self, X):
            return X[:, 0].astype(int)

    pipe = make_da_pipeline(getattr(skada, p["cls"])(train_size=p["ts"], random_state=p["seed"]), E())
    must("pipeline", pipe.fit, X, y, sample_domain=sd)
    ids, yy, dd = seen[-1]
    check("pipeline/size", len(ids) == p["ts"], len(ids))
    exp = np.where(sd[ids] >= 0, y[ids], -1)
    same_arr("pipeline/labels", yy, exp)
    same_arr("pipeline/sample_domain", dd, sd[ids])
    same_arr("pipeline/predict", must("predict", pipe.predict, X, sample_domain=sd, allow_source=True), X[:, 0].astype(int))


def k_star(p):
    ns = {}
    must("star", exec, "from skada import *", ns)
    for nm in NAMES:
        check("star/names", ns.get(nm) is getattr(T, nm), nm)


KINDS = dict(sub=k_sub, pipe=k_pipe, star=k_star)


def cases(rng, tier):
    r = nprng(rng)
    yield "star", {}
    for _ in range(300 if tier == "quick" else 4000):
        n = rng.randint(2, 60)
        pool = rng.choice([[1, -2], [1, 2, -3], [0, -1, -2], [3, -3]])
        sd = r.choice(pool, size=n)
        y = r.randint(0, 3, size=n) if rng.random() < .7 else r.randint(0, 2, size=n) + .5
        X = np.column_stack([np.arange(n), r.randn(n)])
        ts = rng.choice([1, 2, n // 2 or 1, n - 1, n, n + 5, 0.5, 0.25, 0.9])
        yield "sub", dict(cls=rng.choice(NAMES), X=X, y=y, sd=sd, w=r.rand(n) + .1, ts=ts, seed=rng.randint(0, 10**6),
                          give=[rng.random() < .8, rng.random() < .6])
    for cls in NAMES:
        for seed in range(4):
            n = 48
            sd = np.array([1, 2, -3, -4])[r.permutation(n) % 4]
            y = r.randint(0, 2, size=n)
            if cls.startswith("Strat"):
                y = (np.arange(n) // 2) % 2
            yield "pipe", dict(cls=cls, X=np.column_stack([np.arange(n), r.randn(n)]), y=y, sd=sd, ts=20, seed=seed)
