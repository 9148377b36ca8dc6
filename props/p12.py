"""P12: mapping adapters move source samples by the fitted map and leave target
samples untouched, every row at its own position."""
import numpy as np
from ot import da
from sklearn.metrics.pairwise import pairwise_distances

import skada
import skada._mapping as MP
from dv.prop import Scn, Violation, opt
from dv.spec import *
from dv.core import S, SArr, ctx, z3, zi, R, RowSort, I as INT
from dv import npmodel
from props.util import *

ID = "P12"
LEVEL = "proof"

LOG = []
TR = z3.Function("transported", INT, RowSort, RowSort)


class Transport:
    """a transport estimator: the image of a sample is an unknown function of
    the sample and of its place among the samples given"""

    _dv_native = True

    def __sklearn_clone__(self):
        return Transport()

    def fit(self, Xs=None, ys=None, Xt=None, yt=None):
        LOG.append(("fit", self, Xs, ys, Xt, yt))
        return self

    def transform(self, Xs=None, ys=None, Xt=None, yt=None, batch_size=128):
        LOG.append(("transform", self, Xs))
        Xs = npmodel.lit(Xs)
        f = Xs.fn
        return SArr((Xs.shape[0], Xs.shape[1]), "row", lambda i: S(TR(zi(i), f(i).e)))


class Ad(MP.BaseOTMappingAdapter):
    def _create_transport_estimator(self):
        return Transport()


def m_clone(e, **kw):
    return e.__sklearn_clone__()


MODELS = {MP.clone: m_clone}


def witnesses(n, sd, has_s, has_t):
    for has, side in ((has_s, 1), (has_t, -1)):
        if has == "any":
            continue
        if has:
            w = fresh_int("w")
            assume(And(w >= 0, w < n, el(sd, w) >= 0 if side > 0 else el(sd, w) < 0))
        else:
            assume_forall(n, (lambda i: el(sd, i) < 0) if side > 0 else (lambda i: el(sd, i) >= 0))


def b_fit():
    LOG.clear()
    n = length("n", 1)
    X, sd, y = rows(n, name="X"), ints(n, "sd"), ints(n, "y")
    witnesses(n, sd, True, True)
    a = Ad()
    return (a, X, y), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), y=y.snapshot(), a=a)


def p_fit(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are fitted", repr(out[1]))
    P("fit returns the adapter", out[1] is I["a"])
    fits = [e for e in LOG if e[0] == "fit"]
    P("one transport is fitted and kept", len(fits) == 1 and fits[0][1] is I["a"].ot_transport_)
    _, _, Xs, ys, Xt, yt = fits[0]
    prove_selection(P, "source side", Xs, I["X"], lambda i: el(I["sd"], i) >= 0, [(ys, I["y"])])
    prove_selection(P, "target side", Xt, I["X"], lambda i: el(I["sd"], i) < 0, [(yt, I["y"])] if yt is not None else [])


def b_tr(has_s, has_t, allow=True):
    def b():
        LOG.clear()
        n = length("n", 1)
        X, sd = rows(n, name="X"), ints(n, "sd")
        witnesses(n, sd, has_s, has_t)
        a = Ad()
        a.ot_transport_ = Transport()
        return (a, X), dict(sample_domain=sd, allow_source=allow), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), a=a)
    return b


def rank_of(I):
    from dv.npmodel import compaction
    sdf = I["sd"].fn
    return compaction(SArr(I["sd"].shape, "b", lambda i: sdf(i) >= 0))


def p_tr(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are transformed", repr(out[1]))
    r, n = out[1], I["n"]
    P("one row per sample", ln(r) == n)
    i = fresh_int("i")
    P("target samples are left as they are, in their places",
      Implies(And(i >= 0, i < n, el(I["sd"], i) < 0), Same(el(r, i), el(I["X"], i))))
    rk = rank_of(I)
    src_ = And(i >= 0, i < n, el(I["sd"], i) >= 0)
    P("each source sample is replaced by its image under the fitted map, in its place",
      Implies(src_, S(el(r, i).e == TR(rk.rank(zi(i)), el(I["X"], i).e))))
    for e in LOG:
        P("the fitted map is the one used", e[0] == "transform" and e[1] is I["a"].ot_transport_)


def call_m(m):
    return lambda it, a, X, *r, **kw: it.call(getattr(a, m), (X, *r), kw)


def b_ft():
    r = b_fit()
    return r


def p_ft(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are fitted and transformed", repr(out[1]))
    p_fit(P, ("return", I["a"]), I)
    LOG[:] = [e for e in LOG if e[0] == "transform"]
    p_tr(P, out, I)


# ---- the transport gets the adapter's parameters
class Sym:
    """an arbitrary parameter value"""

    _dv_native = True

    def __init__(self, name):
        self.name = name


TRANSPORTS = [("OTMappingAdapter", "EMDTransport", {}, {}), ("EntropicOTMappingAdapter", "SinkhornTransport", {}, {}),
              ("ClassRegularizerOTMappingAdapter", "SinkhornLpl1Transport", dict(norm="lpl1"), dict(norm=None)),
              ("ClassRegularizerOTMappingAdapter", "SinkhornL1l2Transport", dict(norm="l1l2"), dict(norm=None)),
              ("LinearOTMappingAdapter", "LinearTransport", {}, {})]


def b_create(cls, fixed):
    def b():
        a = getattr(MP, cls)()
        for p in a.get_params():
            setattr(a, p, fixed[p] if p in fixed else Sym(p))
        return (a,), {}, dict(a=a, fixed=fixed)
    return b


def p_create(tname, drop):
    def p(P, out, I):
        if out[0] == "raise":
            return P.fail("a transport is created", repr(out[1]))
        t = out[1]
        P(f"the transport is {tname}", type(t) is getattr(da, tname))
        for k, v in I["a"].__dict__.items():
            if k in I["a"].get_params() and k not in drop:
                P(f"parameter {k} is passed on", getattr(t, k, None) is v)
    return p


# ---- MMD-LS: transform
def c_merge(it, *arrays, sample_domain=None):
    """source_target_merge by its contract (P03) for one pair of matrices"""
    if len(arrays) != 2 or sample_domain is None:
        return NotImplemented
    a, b = (npmodel.lit(x) for x in arrays)
    sd = npmodel.lit(sample_domain)
    from dv.npmodel import compaction
    sdf = sd.fn
    cs = compaction(SArr(sd.shape, "b", lambda i: sdf(i) >= 0))
    ct = compaction(SArr(sd.shape, "b", lambda i: sdf(i) < 0))
    c = ctx()
    # precondition of the merge: the parts have the sizes the labels announce
    if not (c.entails(zi(a.shape[0]) == cs.m) and c.entails(zi(b.shape[0]) == ct.m)):
        return NotImplemented
    af, bf = a.fn, b.fn
    if a.rows:
        out = SArr((sd.shape[0], a.shape[1]), "row", lambda i: npmodel.ite(sdf(i) >= 0, af(cs.rank(i)), bf(ct.rank(i))))
    else:
        out = SArr((sd.shape[0], a.shape[1]), "f", lambda i, j: npmodel.ite(sdf(i) >= 0, af(cs.rank(i), j), bf(ct.rank(i), j)))
    return out, sample_domain


def b_mmd(mode):
    def b():
        n, m, d = length("n", 1), length("m", 1), length("d", 1)
        X, sd = matrix(n, d, "X"), ints(n, "sd")
        witnesses(n, sd, mode != "target", True)
        a = MP.MMDLSConSMappingAdapter(gamma=1.0)
        a.X_source_ = matrix(m, d, "Xfit")
        a.W_, a.B_ = matrix(m, d, "W"), matrix(m, d, "B")
        a.discrete_ = mode == "labels"
        I = dict(n=n, m=m, d=d, X=X.snapshot(), sd=sd.snapshot(), a=a, mode=mode)
        kw = dict(sample_domain=sd, allow_source=True)
        if mode == "labels":
            k = length("nclasses", 1)
            a.classes_, a.G_, a.H_ = ints(k, "classes"), matrix(k, d, "G"), matrix(k, d, "H")
            y = ints(n, "y")
            kw["y"] = y
            I.update(y=y.snapshot(), k=k)
        return (a, X), kw, I
    return b


DIST = z3.Function("distance", INT, INT, R)


def m_dist(X, Y=None, metric="euclidean", **kw):
    X, Y = npmodel.lit(X), npmodel.lit(Y)
    f, g = X.fn, Y.fn
    return SArr((X.shape[0], Y.shape[0]), "f", lambda i, j: S(DIST(i, j)))


def p_mmd(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are transformed", repr(out[1]))
    r, n, d, a = out[1], I["n"], I["d"], I["a"]
    P("one row per sample", And(ln(r) == n, S(zi(r.shape[1]) == zi(d))))
    i, j = fresh_int("i"), fresh_int("j")
    inj = And(j >= 0, j < d, i >= 0, i < n)
    X, sd = I["X"], I["sd"]
    P("target samples are left as they are, in their places",
      Implies(And(inj, el(sd, i) < 0), el2(r, zi(i), zi(j)) == el2(X, zi(i), zi(j))))
    if I["mode"] == "target":
        return
    cs = rank_of(I)
    rk = cs.rank(zi(i))
    c = ctx()
    W, B, F = a.W_, a.B_, a.X_source_
    k, l = iv("k"), iv("l")
    x = el2(X, zi(i), zi(j))
    # fitted samples
    fitted = S(z3.And(cs.m == zi(I["m"]), z3.ForAll([k, l], z3.Implies(
        z3.And(0 <= k, k < cs.m, 0 <= l, l < zi(d)), X.fn(cs.sel(k), l).e == F.fn(k, l).e))))
    src_ = And(inj, el(sd, i) >= 0)
    o = el2(r, zi(i), zi(j))
    P("a fitted source sample is mapped by its own scale and shift",
      Implies(And(src_, fitted), o == S(W.fn(rk, zi(j)).e) * x + S(B.fn(rk, zi(j)).e)))
    if I["mode"] == "labels":
        y, cl, sel = I["y"], a.classes_, cs.sel
        ind = SArr((S(cs.m), I["k"]), "f", lambda p, q: npmodel.cast(S(y.fn(sel(p)).e == cl.fn(q).e), "f"))
        w, b = npmodel.matmul(ind, a.G_), npmodel.matmul(ind, a.H_)
        P("a new source sample is mapped by scale and shift of its class",
          Implies(And(src_, Not(fitted)), o == S(w.fn(rk, zi(j)).e) * x + S(b.fn(rk, zi(j)).e)))
        return
    q = iv("q")
    P("a new source sample is mapped by scale and shift of a nearest fitted sample",
      Implies(And(src_, Not(fitted)), S(z3.Exists([q], z3.And(0 <= q, q < zi(I["m"]),
              o.e == W.fn(q, zi(j)).e * x.e + B.fn(q, zi(j)).e,
              z3.ForAll([l], z3.Implies(z3.And(0 <= l, l < zi(I["m"])), DIST(rk, q) <= DIST(rk, l))))))))


def b_mfit():
    LOG.clear()
    n = length("n", 1)
    X, sd, y = rows(n, name="X"), ints(n, "sd"), ints(n, "y")
    witnesses(n, sd, True, True)
    a = MP.MMDLSConSMappingAdapter(gamma=1.0)
    return (a, X, y), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), y=y.snapshot(), a=a)


def c_mapopt(it, self, X_source, X_target, y_source):
    LOG.append(("opt", self, X_source, X_target, y_source))
    return Sym("W"), Sym("B"), Sym("G"), Sym("H")


def p_mfit(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are fitted", repr(out[1]))
    a = I["a"]
    P("fit returns the adapter", out[1] is a)
    P("one optimisation, whose results are kept under their names",
      len(LOG) == 1 and [getattr(a, k + "_", None) and getattr(a, k + "_").name for k in "WBGH"] == list("WBGH"))
    _, _, Xs, Xt, ys = LOG[0]
    prove_selection(P, "source side", Xs, I["X"], lambda i: el(I["sd"], i) >= 0, [(ys, I["y"])])
    prove_selection(P, "target side", Xt, I["X"], lambda i: el(I["sd"], i) < 0)
    prove_selection(P, "fitted source samples are kept", a.X_source_, I["X"], lambda i: el(I["sd"], i) >= 0)


def scenarios():
    B = lambda m: opt(MP, f"BaseOTMappingAdapter.{m}")
    MM = opt(MP, "MMDLSConSMappingAdapter.transform")
    return [
        Scn("fit", B("fit"), b_fit, p_fit, call=call_m("fit"), models=MODELS),
        Scn("transform (both sides)", B("transform"), b_tr(True, True), p_tr, call=call_m("transform"), models=MODELS),
        Scn("transform (target only)", B("transform"), b_tr(False, True, False), p_tr, call=call_m("transform"), models=MODELS),
        Scn("transform (source only)", B("transform"), b_tr(True, False), p_tr, call=call_m("transform"), models=MODELS),
        Scn("fit_transform", B("fit_transform"), b_ft, p_ft, call=call_m("fit_transform"), models=MODELS),
        *[Scn(f"{c}._create_transport_estimator ({t})", opt(MP, c + "._create_transport_estimator"), b_create(c, fx), p_create(t, dr),
              call=lambda it, a: it.call(a._create_transport_estimator, (), {})) for c, t, fx, dr in TRANSPORTS],
        Scn("MMDLSConS.fit", opt(MP, "MMDLSConSMappingAdapter.fit"), b_mfit, p_mfit, call=call_m("fit"), models=MODELS,
            contracts={opt(MP, "MMDLSConSMappingAdapter._mapping_optimization"): c_mapopt}),
        *[Scn(f"MMDLSConS.transform ({m})", MM, b_mmd(m), p_mmd, call=call_m("transform"),
              models={**MODELS, pairwise_distances: m_dist}, contracts={skada.utils.source_target_merge: c_merge})
          for m in ("target", "nearest", "labels")],
    ]


# ------------------------------------------------------------- runtime contract
def make(name, q):
    return dict(
        ot=lambda: skada.OTMappingAdapter(metric=q["metric"], norm=q["norm"]),
        entropic=lambda: skada.EntropicOTMappingAdapter(metric=q["metric"], norm=q["norm"], reg_e=q["reg"], tol=1e-7, max_iter=q["it"]),
        lpl1=lambda: skada.ClassRegularizerOTMappingAdapter(metric=q["metric"], norm="lpl1", reg_e=q["reg"], reg_cl=q["cl"], max_iter=3),
        l1l2=lambda: skada.ClassRegularizerOTMappingAdapter(metric=q["metric"], norm="l1l2", reg_e=q["reg"], reg_cl=q["cl"], max_iter=3),
        linear=lambda: skada.LinearOTMappingAdapter(reg=q["lreg"], bias=q["bias"]),
        mmd=lambda: skada.MMDLSConSMappingAdapter(gamma=q["gamma"], reg_k=1e-8, reg_m=q["rm"], max_iter=q["mit"]),
    )[name]()


def pot(name, q):
    m = q["metric"]
    return dict(
        ot=lambda: da.EMDTransport(metric=m, norm=q["norm"], max_iter=100000),
        entropic=lambda: da.SinkhornTransport(metric=m, norm=q["norm"], reg_e=q["reg"], tol=1e-7, max_iter=q["it"]),
        lpl1=lambda: da.SinkhornLpl1Transport(metric=m, reg_e=q["reg"], reg_cl=q["cl"], max_iter=3, max_inner_iter=200, tol=10e-9),
        l1l2=lambda: da.SinkhornL1l2Transport(metric=m, reg_e=q["reg"], reg_cl=q["cl"], max_iter=3, max_inner_iter=200, tol=10e-9),
        linear=lambda: da.LinearTransport(reg=q["lreg"], bias=q["bias"]),
    )[name]()


def mmd_loss(q, Xs, Xt, R, W, B):
    g, m, n = q["gamma"], len(Xs), len(Xt)
    k = lambda U, V: np.exp(-g * np.sqrt(np.maximum(((U[:, None] - V[None]) ** 2).sum(-1), 0)))
    L = k(Xs, Xs)
    om = L @ np.linalg.inv(L + 1e-8 * np.eye(m))
    Z = W * Xs + B
    v = (om @ k(Z, Z) @ om.T).sum() / m**2 - 2 * (k(Xt, Z) @ om.T).sum() / (m * n)
    return v + q["rm"] * (((W - 1) ** 2).sum() + (B**2).sum()) / m


def expect(name, q, a, Xs0, ys0, Xt0, Xs, ys=None):
    """image of the source samples Xs under the map fitted on the first three"""
    if name != "mmd":
        t = pot(name, q).fit(Xs=Xs0, ys=ys0, Xt=Xt0)
        return t.transform(Xs=Xs)
    if Xs.shape == Xs0.shape and (Xs == Xs0).all():
        return a.W_ * Xs + a.B_
    if ys is not None and a.discrete_:
        R = (ys[:, None] == np.unique(ys0)[None]).astype(float)
        return (R @ a.G_) * Xs + R @ a.H_
    ix = np.argmin(((Xs[:, None] - Xs0[None]) ** 2).sum(-1), 1)
    return a.W_[ix] * Xs + a.B_[ix]


def k_map(p):
    import warnings

    warnings.simplefilter("ignore")
    name, q, X, y, sd = p["name"], p["q"], p["X"], p["y"], p["sd"]
    src = sd >= 0
    a = make(name, q)
    params = repr(a.get_params())
    c = [z.copy() for z in (X, y, sd)]
    out = must(f"{name}/fit_transform", a.fit_transform, X, y, sample_domain=sd)
    for nm, u, v in zip(("X", "y", "sample_domain"), (X, y, sd), c):
        same_arr(f"{name}/frame/{nm}", u, v)
    check(f"{name}/params", repr(a.get_params()) == params, a.get_params())
    check(f"{name}/shape", np.shape(out) == X.shape, np.shape(out))
    same_arr(f"{name}/target", out[~src], X[~src])
    fit = (X[src], y[src], X[~src])
    same_arr(f"{name}/source", out[src], expect(name, q, a, *fit, X[src]), exact=False, tol=1e-6)
    if name == "mmd":
        W, B = a.W_, a.B_
        one, zero = np.ones_like(W), np.zeros_like(B)
        l, l0 = (mmd_loss(q, X[src], X[~src], None, *wb) for wb in ((W, B), (one, zero)))
        check("mmd/objective", l <= l0 + 1e-6 * (1 + abs(l0)), (l, l0))
        if a.discrete_:
            for k in np.unique(y[src]):
                m = y[src] == k
                check("mmd/class-wise", np.ptp(W[m], axis=0).max() < 1e-9 and np.ptp(B[m], axis=0).max() < 1e-9, W)
    o2 = must(f"{name}/transform", a.transform, X, sample_domain=sd, allow_source=True)
    same_arr(f"{name}/again", o2, out, exact=False)
    # new data
    Xn, yn, sn = p["Xn"], p["yn"], p["sn"]
    s = sn >= 0
    o3 = must(f"{name}/transform/new", a.transform, Xn, sample_domain=sn, allow_source=True)
    check(f"{name}/new/shape", np.shape(o3) == Xn.shape, np.shape(o3))
    same_arr(f"{name}/new/target", o3[~s], Xn[~s])
    if s.any():
        same_arr(f"{name}/new/source", o3[s], expect(name, q, a, *fit, Xn[s]), exact=False, tol=1e-6)
        if name == "mmd" and y.dtype.kind == "i":
            o4 = must(f"{name}/transform/new-labels", a.transform, Xn, yn, sample_domain=sn, allow_source=True)
            same_arr(f"{name}/new/source-labels", o4[s], expect(name, q, a, *fit, Xn[s], yn[s]), exact=False, tol=1e-6)
            same_arr(f"{name}/new/target-labels", o4[~s], Xn[~s])
        alone = must(f"{name}/transform/source-only", a.transform, Xn[s], sample_domain=sn[s], allow_source=True)
        same_arr(f"{name}/new/source-only", alone, expect(name, q, a, *fit, Xn[s]), exact=False, tol=1e-6)
    Xt = Xn[~s]
    if len(Xt):
        same_arr(f"{name}/predict-time", must(f"{name}/transform/target", a.transform, Xt), Xt)
    # refit on other data is a fresh fit
    X3 = X * 2 - 1
    w3 = must(f"{name}/refit", a.fit_transform, X3, y, sample_domain=sd)
    same_arr(f"{name}/refit", w3, make(name, q).fit_transform(X3, y, sample_domain=sd), exact=False, tol=1e-7)


def k_pipe(p):
    """the estimator behind the adapter learns from the mapped source samples
    with their own labels and predicts on untouched targets"""
    import warnings
    from sklearn.base import BaseEstimator, ClassifierMixin
    from skada import make_da_pipeline

    warnings.simplefilter("ignore")
    name, q, X, y, sd = p["name"], p["q"], p["X"], p["y"], p["sd"]
    seen = []

    class E(ClassifierMixin, BaseEstimator):
        def fit(self, X, y):
            seen.append((X, y))
            self.classes_ = np.unique(y)
            return self

        def predict(self, X):
            seen.append((X, None))
            return np.zeros(len(X))

    src = sd >= 0
    ref = make(name, q).fit_transform(X, y, sample_domain=sd)
    pipe = make_da_pipeline(make(name, q), E())
    must(f"{name}/pipeline", pipe.fit, X, y, sample_domain=sd)
    same_arr(f"{name}/pipeline/X", seen[0][0], ref[src], exact=False)
    same_arr(f"{name}/pipeline/y", seen[0][1], y[src])
    must(f"{name}/pipeline/predict", pipe.predict, X[~src], sample_domain=sd[~src])
    same_arr(f"{name}/pipeline/target", seen[-1][0], X[~src])


KINDS = dict(map=k_map, pipe=k_pipe)
NAMES = ("ot", "entropic", "lpl1", "l1l2", "linear", "mmd")


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(20 if tier == "quick" else 200):
        for name in NAMES:
            n, m, d = rng.randint(5, 14), rng.randint(4, 14), rng.randint(1, 3)
            q = dict(metric=rng.choice(["sqeuclidean", "cityblock"]), norm=rng.choice([None, "max"]), reg=rng.choice([.5, 2.]),
                     it=rng.choice([200, 1000]), cl=rng.choice([.05, .5]), lreg=rng.choice([1e-6, .3]), bias=rng.random() < .6,
                     gamma=rng.choice([.5, 2.]), rm=rng.choice([1e-8, .1]), mit=rng.choice([5, 20]))
            X = np.vstack([r.randn(n, d), r.randn(m, d) * .8 + 1])
            pool = rng.choice([([1], [-2]), ([0, 2], [-1]), ([1, 2], [-2, -3])])
            sd = np.r_[r.choice(pool[0], n), r.choice(pool[1], m)]
            y = np.r_[np.arange(n) % 2 + rng.randint(0, 1), -np.ones(m)].astype(int)
            if name == "mmd" and rng.random() < .4:
                y = np.r_[r.randn(n), np.full(m, np.nan)]
            o = r.permutation(n + m)
            X, y, sd = X[o], y[o], sd[o]
            k = rng.randint(2, 9)
            if rng.random() < .4:   # some fitted samples, in another order
                per = r.permutation(n + m)[:k]
                Xn, yn, sn = X[per], y[per], sd[per]
            else:
                Xn, sn = r.randn(k, d), r.choice(pool[0] + pool[1], k)
                yn = np.where(sn >= 0, r.choice(y[sd >= 0], k), -1)
            if not (sn < 0).any() or not (sn >= 0).any():
                Xn, yn, sn = X[::-1], y[::-1], sd[::-1]
            p = dict(name=name, q=q, X=X, y=y, sd=sd, Xn=Xn, yn=yn, sn=sn)
            yield "map", p
            if y.dtype.kind == "i" and rep % 4 == 0:
                yield "pipe", p
