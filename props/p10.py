"""P10: reweighting adapters give every source sample its own density ratio,
every target sample the neutral value, and change nothing else."""
import numpy as np
from scipy.stats import multivariate_normal
from sklearn.metrics.pairwise import pairwise_distances, pairwise_kernels
from sklearn.neighbors import KNeighborsClassifier

import skada
import skada._reweight as RW
import skada.base as SB
from dv.prop import Scn, Violation, opt
from dv.spec import *
from dv.core import S, SArr, ctx, z3, zi, R, RowSort, I as INT
from dv import npmodel
from props.util import *

ID = "P10"
LEVEL = "proof"

LOG = []
SCORE = z3.Function("density", INT, RowSort, R)
PROBA = z3.Function("domain_proba", RowSort, INT, R)
PDF = z3.Function("gauss_pdf", INT, RowSort, R)
KER = z3.Function("kernel", RowSort, RowSort, R)
DIST = z3.Function("distance", RowSort, RowSort, R)
EXP = None


class Dens:
    """a fitted density model: log-density is an unknown function of the row"""

    _dv_native = True

    def __init__(self, q=0):
        self.q = q

    def score_samples(self, X):
        X = npmodel.lit(X)
        f = X.fn
        return SArr((X.shape[0],), "f", lambda i: S(SCORE(self.q, f(i).e)))

    def fit(self, X, y=None, **kw):
        LOG.append(("fit", self, X, y, kw))
        return self

    def __sklearn_clone__(self):
        return type(self)(self.q)

    def get_params(self, deep=True):
        return {}


class Disc(Dens):
    def predict_proba(self, X):
        X = npmodel.lit(X)
        f = X.fn
        i = iv("i")
        c = ctx()
        p = lambda r, k: PROBA(r, k)
        x = z3.Const(c.name("r"), RowSort)
        c.forall([x], z3.And(p(x, 0) >= 0, p(x, 1) >= 0, p(x, 0) + p(x, 1) == 1), [p(x, 1)])
        c.forall([x], z3.And(p(x, 0) >= 0, p(x, 1) >= 0, p(x, 0) + p(x, 1) == 1), [p(x, 0)])
        return SArr((X.shape[0], 2), "f", lambda i, j: S(p(f(i).e, zi(j))))


class Knn(Dens):
    def __init__(self, q=0, **kw):
        super().__init__(q)
        self.kw = kw

    def __sklearn_clone__(self):
        return Knn(self.q, **self.kw)

    def get_params(self, deep=True):
        return dict(self.kw)

    def fit(self, X, y):
        LOG.append(("fit", self, X, y, {}))
        self.X_, self.y_ = X, y
        return self

    def predict(self, X):
        X = npmodel.lit(X)
        LOG.append(("predict", self, X, None, {}))
        i = iv("i")
        c = ctx()
        p = c.func("nearest", INT, INT)
        m = zi(self.y_.shape[0])
        c.forall([i], z3.And(0 <= p(i), p(i) < m), [p(i)])
        yf = npmodel.lit(self.y_).fn
        if not c.entails(m > 0):
            c.assume(m > 0)
        self.pred_ = SArr((X.shape[0],), "i", lambda i: yf(p(i)))
        return self.pred_


def m_clone(est, **kw):
    return est.__sklearn_clone__()


def m_pdf(self, X, mean=None, cov=None):
    X = npmodel.lit(X)
    f = X.fn
    q = 0 if mean == "source" else 1
    assert (mean, cov) in (("source", "Sources"), ("target", "Targets")), (mean, cov)
    return SArr((X.shape[0],), "f", lambda i: S(PDF(q, f(i).e)))


def m_kernels(X, Y=None, metric="linear", *, filter_params=False, n_jobs=None, **kw):
    X = npmodel.lit(X)
    Y = X if Y is None else npmodel.lit(Y)
    LOG.append(("kernel", metric, kw, None, None))
    f, g = X.fn, Y.fn
    return SArr((X.shape[0], Y.shape[0]), "f", lambda i, j: S(KER(f(i).e, g(j).e)))


def m_dist(X, Y=None, metric="euclidean", **kw):
    X = npmodel.lit(X)
    Y = X if Y is None else npmodel.lit(Y)
    f, g = X.fn, Y.fn
    return SArr((X.shape[0], Y.shape[0]), "f", lambda i, j: S(DIST(f(i).e, g(j).e)))


class Option:
    """a hyperparameter: any value"""

    _dv_native = _dv_sym = True

    def __init__(self, name):
        self.name = name


def m_knn(**kw):
    return Knn(**kw)


NN_OPTIONS = ("n_neighbors", "weights", "algorithm", "leaf_size", "p", "metric", "metric_params", "n_jobs")
MODELS = {KNeighborsClassifier: m_knn, type(multivariate_normal).pdf: m_pdf, pairwise_kernels: m_kernels, pairwise_distances: m_dist,
          RW.clone: m_clone}


def fexp(e):
    return npmodel.uf1("exp")(S(e))


def data(has_source=True):
    LOG.clear()
    n = length("n", 1)
    X, sd = rows(n, name="X"), ints(n, "sd")
    if has_source:
        w = fresh_int("src")
        assume(And(w >= 0, w < n, el(sd, w) >= 0))
    return n, X, sd


def b_cw(make):
    def b():
        n, X, sd = data()
        a = make()
        return (a, X), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), a=a)
    return b


def call_cw(it, a, X, **kw):
    return it.call(a.compute_weights, (X,), kw)


def placement(P, out, I, neutral=0):
    """common part; returns (w, i) with i a source position or None"""
    if out[0] == "raise":
        P.fail("weights for every accepted input", repr(out[1]))
        return None
    w = out[1]
    i, t = fresh_int("i"), fresh_int("t")
    P("one weight per sample", ln(w) == I["n"])
    P("target samples get the neutral weight",
      Implies(And(t >= 0, t < I["n"], el(I["sd"], t) < 0), el(w, t) == neutral))
    return w, i, And(i >= 0, i < I["n"], el(I["sd"], i) >= 0)


def mk_density():
    a = RW.DensityReweightAdapter(weight_estimator=Dens())
    a.weight_estimator_source_, a.weight_estimator_target_ = Dens(1), Dens(2)
    return a


def src_sum(I, f):
    """sum of f over the source samples, in their order"""
    from dv.npmodel import compaction
    sdf = I["sd"].fn
    cp = compaction(SArr(I["sd"].shape, "b", lambda i: sdf(i) >= 0))
    g = SArr((S(cp.m),), "f", lambda k: f(S(cp.sel(k))))
    return npmodel.sum_(g), S(cp.m)


def comp_of(I):
    sdf = I["sd"].fn
    return npmodel.nonzero1(SArr(I["sd"].shape, "b", lambda i: sdf(i) >= 0))


def ratio_posts(P, out, I, ratios, normalised):
    """source weights are ratios(rows) up to one common factor, and of mean one"""
    r = placement(P, out, I)
    if r is None:
        return
    w, i, src = r
    idx = comp_of(I)
    X = I["X"]
    sel = idx.fn
    raw = ratios(SArr((idx.shape[0], X.shape[1]), "row", lambda k: X.fn(sel(k).e)))
    ns = ln(idx)
    at = lambda k: el(w, idx.fn(zi(k)))
    if not normalised:
        k = fresh_int("k")
        P("source weights are the density ratio at the sample", Implies(And(k >= 0, k < ns), at(k) == el(raw, k)))
        return
    tot = npmodel.sum_(raw)
    P("the total density ratio is positive", tot > 0) if normalised == "positive" else assume(tot > 0)
    exp = SArr(idx.shape, "f", lambda k: el(raw, k) * ns / tot)
    cut(P, "source weights are the density ratio at the sample, scaled to mean one", ns, lambda k: at(k) == el(exp, k))
    a, b = npmodel.sum_ext(SArr(idx.shape, "f", lambda k: at(k)), exp)
    P("source weights have mean one", a == ns)


def vec(f):
    return lambda Xs: SArr((Xs.shape[0],), "f", lambda k: f(Xs.fn(zi(k))))


def p_density(P, out, I):
    ratio_posts(P, out, I, vec(lambda r: fexp(SCORE(2, r.e) - SCORE(1, r.e))), True)


def mk_disc():
    a = RW.DiscriminatorReweightAdapter(domain_classifier=Disc())
    a.domain_classifier_ = Disc(1)
    return a


def b_disc():
    r = b_cw(mk_disc)()
    X = r[2]["X"]
    i = iv("i")
    p = PROBA(X.fn(i).e, 1)
    # the classifier is trained with 1 for target samples; probabilities inside (0, 1)
    ctx().forall([i], z3.Implies(z3.And(0 <= i, i < zi(r[2]["n"])), z3.And(p > z3.Q(1, 10**9), p < 1 - z3.Q(1, 10**9))), [X.fn(i).e])
    return r


def p_disc(P, out, I):
    ratio_posts(P, out, I, vec(lambda r: S(PROBA(r.e, 1)) / (1 - S(PROBA(r.e, 1)))), True)


def mk_gauss():
    a = RW.GaussianReweightAdapter()
    a.mean_source_, a.cov_source_, a.mean_target_, a.cov_target_ = "source", "Sources", "target", "Targets"
    return a


def p_gauss(P, out, I):
    ratio_posts(P, out, I, vec(lambda r: S(PDF(1, r.e)) / S(PDF(0, r.e))), False)


def mk_kliep():
    a = RW.KLIEPReweightAdapter(gamma=1.0)
    m = length("ncenters", 1)
    a.centers_ = rows(m, name="C")
    a.alpha_ = floats(m, "alpha")
    a.best_gamma_ = "bestgamma"
    return a


def expansion(C, alpha):
    def f(Xs):
        K = SArr((Xs.shape[0], C.shape[0]), "f", lambda i, j: S(KER(Xs.fn(i).e, C.fn(j).e)))
        return npmodel.matmul(K, alpha)
    return f


def p_kliep(P, out, I):
    a = I["a"]
    ratio_posts(P, out, I, expansion(a.centers_, a.alpha_), False)
    for e in LOG:
        if e[0] == "kernel":
            P("kernel of the fitted width", e[1] == "rbf" and e[2].get("gamma") == "bestgamma")


def mk_kmm(smooth):
    def f():
        a = RW.KMMReweightAdapter(smooth_weights=smooth)
        m = length("nsfit", 1)
        a.X_source_ = rows(m, name="XF")
        a.source_weights_ = floats(m, "ws")
        return a
    return f


def p_kmm(smooth):
    def p(P, out, I):
        r = placement(P, out, I)
        if r is None:
            return
        w, i, src = r
        a = I["a"]
        idx = comp_of(I)
        X = I["X"]
        k = fresh_int("k")
        ker = el(expansion(a.X_source_, a.source_weights_)(SArr((idx.shape[0], X.shape[1]), "row", lambda q: X.fn(idx.fn(q).e))), k)
        ink = And(k >= 0, k < ln(idx))
        wk = el(w, idx.fn(zi(k)))
        q = iv("q")
        samef = z3.And(zi(ln(idx)) == zi(a.X_source_.shape[0]),
                       z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(ln(idx))), el(X, idx.fn(q)).e == el(a.X_source_, q).e)))
        if smooth:
            P("smoothed weights are the kernel expansion of the fitted ones", Implies(ink, wk == ker))
        else:
            P("fitted weights for the fitted samples, their kernel expansion for others",
              Implies(ink, Or(And(S(samef), wk == el(a.source_weights_, k)), And(Not(S(samef)), wk == ker))))
    return p


def mk_nn(smoothing):
    a = RW.NearestNeighborReweightAdapter()
    a.laplace_smoothing = smoothing
    for q in NN_OPTIONS:
        setattr(a, q, Option(q))
    if "base_estimator" in vars(a):
        a.base_estimator = Knn(**{q: getattr(a, q) for q in NN_OPTIONS})
    m = length("nsfit", 1)
    a.X_source_fit = rows(m, name="XF")
    a.estimator_ = Knn(1)
    return a


def p_nn(P, out, I):
    r = placement(P, out, I, 1)
    if r is None:
        return
    w, i, src = r
    pr = [e for e in LOG if e[0] == "predict"]
    P("neighbours are looked up once", len(pr) == 1)
    knn, Xt = pr[-1][1], pr[-1][2]
    ft = [e for e in LOG if e[0] == "fit" and e[1] is knn]
    P("the neighbour model is fitted once", len(ft) == 1)
    P("of the hyperparameters given", all(knn.kw.get(q) is getattr(I["a"], q) for q in NN_OPTIONS))
    X, sd = I["X"], I["sd"]
    prove_selection(P, "neighbours are searched among the source samples", ft[-1][2], X, lambda q: el(sd, q) >= 0)
    prove_selection(P, "neighbours are searched for the target samples", Xt, X, lambda q: el(sd, q) < 0)
    idx = comp_of(I)
    k = fresh_int("k")
    occ = npmodel.occurrences(knn.pred_)
    sm = I["a"].laplace_smoothing
    P("weight = number of target samples whose neighbour it is (+1 when smoothing)",
      Implies(And(k >= 0, k < ln(idx)), el(w, idx.fn(zi(k))) == occ(zi(k)) + (1 if sm else 0)))


def mk_tars(discrete):
    def f():
        a = RW.MMDTarSReweightAdapter(gamma=1.0)
        m = length("nsfit", 1)
        a.X_source_ = rows(m, name="XF")
        a.source_weights_ = floats(m, "ws")
        a.discrete_ = discrete
        k = length("nclasses", 1)
        a.classes_ = ints(k, "cls")
        a.alpha_ = floats(k, "alpha")
        return a
    return f


def b_tars(discrete):
    def b():
        n, X, sd = data()
        y = ints(n, "y") if discrete else floats(n, "y", nan=True)
        a = mk_tars(discrete)()
        return (a, X, y), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), a=a, y=y.snapshot())
    return b


def call_tars(it, a, X, y, **kw):
    return it.call(a.compute_weights, (X, y), kw)


def p_tars(discrete):
    def p(P, out, I):
        if out[0] == "raise":
            return P.fail("weights for every accepted input", repr(out[1]))
        w, a, X = out[1], I["a"], I["X"]
        t, t2, k = fresh_int("t"), fresh_int("t2"), fresh_int("k")
        inn = lambda q: And(q >= 0, q < I["n"])
        P("one weight per sample", ln(w) == I["n"])
        P("target samples get one negligible constant", Implies(And(inn(t), el(I["sd"], t) < 0), And(el(w, t) >= 0, el(w, t) <= 1e-9)))
        idx = comp_of(I)
        q = iv("q")
        samef = S(z3.And(zi(ln(idx)) == zi(a.X_source_.shape[0]),
                         z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(ln(idx))), el(X, idx.fn(q)).e == el(a.X_source_, q).e))))
        ink = And(k >= 0, k < ln(idx))
        wk = el(w, idx.fn(zi(k)))
        near = lambda u, v: And(u - v <= 1e-9, v - u <= 1e-9)
        P("fitted samples keep their fitted weight", Implies(And(ink, samef), near(wk, el(a.source_weights_, k))))
        if discrete:
            yk = el(I["y"], idx.fn(zi(k)))
            # distinct classes: the weight of the class the label belongs to
            yf = I["y"].fn
            M = SArr((idx.shape[0], a.alpha_.shape[0]), "f",
                     lambda r, c: S(z3.If(yf(idx.fn(r).e).e == el(a.classes_, c).e, z3.RealVal(1), z3.RealVal(0))))
            exp = el(npmodel.matmul(M, a.alpha_), k)
            P("other samples get the weight of their class", Implies(And(ink, Not(samef)), near(wk, exp)))
        else:
            j = fresh_int("j")
            best = lambda m_: And(m_ >= 0, m_ < ln(a.X_source_),
                                  S(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(ln(a.X_source_))),
                                    DIST(el(X, idx.fn(zi(k))).e, el(a.X_source_, m_).e) <= DIST(el(X, idx.fn(zi(k))).e, el(a.X_source_, q).e)))))
            P("other samples get the weight of a nearest fitted sample", Implies(And(ink, Not(samef)),
              exists_idx(ln(a.X_source_), lambda m_: And(near(wk, el(a.source_weights_, m_)), best(m_)))))
    return p


# ---- fit: each model sees its own samples
def b_fit(make):
    def b():
        n, X, sd = data()
        a = make()
        return (a, X), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), a=a)
    return b


def call_fit(it, a, X, **kw):
    return it.call(a.fit, (X,), kw)


def p_fit_density(P, out, I):
    if out[0] == "raise":
        return P.fail("fits", repr(out[1]))
    a, X, sd = I["a"], I["X"], I["sd"]
    P("returns itself", out[1] is a)
    fits = {id(e[1]): e for e in LOG if e[0] == "fit"}
    P("two models fitted", len(fits) == 2 and a.weight_estimator_source_ is not a.weight_estimator_target_)
    s, t = fits[id(a.weight_estimator_source_)], fits[id(a.weight_estimator_target_)]
    prove_selection(P, "source model", s[2], X, lambda i: el(sd, i) >= 0)
    prove_selection(P, "target model", t[2], X, lambda i: el(sd, i) < 0)
    P("the estimator given by the user is not fitted", id(a.weight_estimator) not in fits)


def p_fit_disc(P, out, I):
    if out[0] == "raise":
        return P.fail("fits", repr(out[1]))
    a, X, sd = I["a"], I["X"], I["sd"]
    P("returns itself", out[1] is a)
    fits = [e for e in LOG if e[0] == "fit"]
    P("one classifier fitted, a clone", len(fits) == 1 and fits[0][1] is a.domain_classifier_ and a.domain_classifier_ is not a.domain_classifier)
    _, _, Xf, yf, _ = fits[0]
    P("fitted on all samples", arr_same(Xf, X))
    i = fresh_int("i")
    P("labels are the side of the sample", Implies(And(i >= 0, i < I["n"]), Iff(el(yf, i) == 1, el(sd, i) < 0)))
    P("one label per sample", ln(yf) == I["n"])
    P("labels are 0/1", Implies(And(i >= 0, i < I["n"]), Or(el(yf, i) == 0, el(yf, i) == 1)))


def c_wopt(interp, self, *parts):
    LOG.append(("optimise", self, parts, None, None))
    m = ln(parts[1]) if isinstance(self, RW.KLIEPReweightAdapter) else ln(parts[0])
    w = floats(m, "w")
    self.w = w
    if isinstance(self, RW.KMMReweightAdapter):
        return w
    return (w, "centers") if isinstance(self, RW.KLIEPReweightAdapter) else (w, "alpha")


def p_fit_opt(P, out, I):
    """KMM, MMDTarS, KLIEP: the optimiser receives the two sides"""
    if out[0] == "raise":
        return P.fail("fits", repr(out[1]))
    a, X, sd = I["a"], I["X"], I["sd"]
    P("returns itself", out[1] is a)
    o = [e for e in LOG if e[0] == "optimise"]
    P("optimised once", len(o) == 1)
    parts = list(o[0][2])
    if isinstance(a, RW.KLIEPReweightAdapter):
        P("kernel width used is the one kept", parts[0] is a.best_gamma_ or parts[0] == a.best_gamma_)
        parts = parts[1:]
        P("coefficients and centres kept", a.alpha_ is a.w and a.centers_ == "centers")
        P("parameters are not overwritten", I["gamma"] is a.gamma)
    else:
        P("weights kept", arr_same(a.source_weights_, a.w))
        prove_selection(P, "source samples kept", a.X_source_, X, lambda i: el(sd, i) >= 0)
    comp = [(parts[2], I["y"])] if len(parts) > 2 else []
    prove_selection(P, "source side", parts[0], X, lambda i: el(sd, i) >= 0, comp)
    prove_selection(P, "target side", parts[1], X, lambda i: el(sd, i) < 0)


def b_fit_opt(make):
    def b():
        n, X, sd = data()
        a = make()
        y = ints(n, "y")
        return (a, X, y), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), y=y.snapshot(), a=a, gamma=getattr(a, "gamma", None))
    return b


def call_fit_y(it, a, X, y, **kw):
    return it.call(a.fit, (X, y), kw)


def b_gauss():
    LOG.clear()
    n, d = length("n", 1), length("d", 1)
    X, sd = matrix(n, d), ints(n, "sd")
    a = RW.GaussianReweightAdapter(reg=0.25)
    return (a, X), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), a=a, d=d)


def c_cov(interp, X, shrinkage, assume_centered=False):
    LOG.append(("cov", X, shrinkage, assume_centered, None))
    return ("cov", len(LOG) - 1)


def p_gauss_fit(P, out, I):
    if out[0] == "raise":
        return P.fail("fits", repr(out[1]))
    a, X, sd = I["a"], I["X"], I["sd"]
    P("returns itself", out[1] is a)
    sdf, q = sd.fn, fresh_int("q")
    for side, keep, mean, cov in (("source", lambda v: v >= 0, a.mean_source_, a.cov_source_), ("target", lambda v: v < 0, a.mean_target_, a.cov_target_)):
        idx = npmodel.nonzero1(SArr(sd.shape, "b", lambda i: keep(sdf(i))))
        Xs = SArr((idx.shape[0], X.shape[1]), "f", lambda i, j: X.fn(idx.fn(i).e, j))
        P(f"{side} mean", Implies(And(ln(idx) > 0, q >= 0, q < I["d"]), el(mean, q) == el(npmodel.mean_(Xs, axis=0), q)))
        e = LOG[cov[1]]
        P(f"{side} covariance of the {side} samples", arr_same(e[1], Xs))
        P(f"{side} covariance with the given shrinkage", e[2] == 0.25 and e[3] is False)


def b_ft():
    n, X, sd = data()
    y = ints(n, "y")
    a = FakeAdapter()
    return (a, X, y), dict(sample_domain=sd), dict(X=X, X0=X.snapshot(), y0=y.snapshot(), sd0=sd.snapshot(), a=a)


class FakeAdapter(RW.BaseReweightAdapter):
    def fit(self, X, y=None, *, sample_domain=None):
        return self

    def compute_weights(self, X, y=None, *, sample_domain=None, **params):
        pass


def c_fa_fit(self, X, y=None, *, sample_domain=None):
    LOG.append(("fit", self, X, y, sample_domain))
    return self


def c_fa_w(self, X, y=None, *, sample_domain=None, **params):
    LOG.append(("weights", self, X, y, sample_domain))
    self.w = floats(ln(X), "w")
    return self.w


def call_ft(it, a, X, y, **kw):
    return it.call(a.fit_transform, (X, y), kw)


def p_ft(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    P("data and a dictionary with the weights", isinstance(out[1], tuple) and len(out[1]) == 2 and set(out[1][1]) == {"sample_weight"})
    P("data unchanged", arr_same(out[1][0], I["X0"]))
    P("the weights of this data", arr_same(out[1][1]["sample_weight"], I["a"].w))
    P("fitted, then weighted", [e[0] for e in LOG] == ["fit", "weights"])
    for e in LOG:
        P(f"{e[0]} receives all samples", arr_same(e[2], I["X0"]))
        P(f"{e[0]} receives the labels", arr_same(e[3], I["y0"]))
        P(f"{e[0]} receives the domains", arr_same(e[4], I["sd0"]))


def scenarios():
    c = lambda k: opt(RW, k + ".compute_weights")
    K = dict(call=call_cw, models=MODELS)
    F = dict(call=call_fit, models=MODELS)
    return [
        Scn("Density.compute_weights", c("DensityReweightAdapter"), b_cw(mk_density), p_density, **K),
        Scn("Discriminator.compute_weights", c("DiscriminatorReweightAdapter"), b_disc, p_disc, **K),
        Scn("Gaussian.compute_weights", c("GaussianReweightAdapter"), b_cw(mk_gauss), p_gauss, **K),
        Scn("KLIEP.compute_weights", c("KLIEPReweightAdapter"), b_cw(mk_kliep), p_kliep, **K),
        Scn("KMM.compute_weights", c("KMMReweightAdapter"), b_cw(mk_kmm(False)), p_kmm(False), **K),
        Scn("KMM.compute_weights (smoothed)", c("KMMReweightAdapter"), b_cw(mk_kmm(True)), p_kmm(True), **K),
        *[Scn(f"NearestNeighbor.compute_weights ({q})", c("NearestNeighborReweightAdapter"), b_cw(lambda q=q: mk_nn(q == "smoothing")), p_nn, **K)
          for q in ("plain", "smoothing")],
        Scn("MMDTarS.compute_weights (classes)", c("MMDTarSReweightAdapter"), b_tars(True), p_tars(True), call=call_tars, models=MODELS),
        Scn("MMDTarS.compute_weights (regression)", c("MMDTarSReweightAdapter"), b_tars(False), p_tars(False), call=call_tars, models=MODELS),
        Scn("Density.fit", opt(RW, "DensityReweightAdapter.fit"), b_fit(lambda: RW.DensityReweightAdapter(weight_estimator=Dens())), p_fit_density, **F),
        Scn("Discriminator.fit", opt(RW, "DiscriminatorReweightAdapter.fit"), b_fit(lambda: RW.DiscriminatorReweightAdapter(domain_classifier=Disc())), p_fit_disc, **F),
        *[Scn(f"{k}.fit", opt(RW, k + "ReweightAdapter.fit"), b_fit_opt(mk), p_fit_opt, call=call_fit_y, models=MODELS,
              contracts={opt(RW, k + "ReweightAdapter._weights_optimization"): c_wopt})
          for k, mk in (("KMM", lambda: RW.KMMReweightAdapter()), ("MMDTarS", lambda: RW.MMDTarSReweightAdapter(gamma=1.0)),
                        ("KLIEP", lambda: RW.KLIEPReweightAdapter(gamma=0.5)))],
        Scn("Gaussian.fit", opt(RW, "GaussianReweightAdapter.fit"), b_gauss, p_gauss_fit, call=call_fit, models=MODELS,
            contracts={RW._estimate_covariance: c_cov}),
        Scn("fit_transform", opt(RW, "BaseReweightAdapter.fit_transform"), b_ft, p_ft, call=call_ft,
            models={**MODELS, FakeAdapter.fit: c_fa_fit, FakeAdapter.compute_weights: c_fa_w}),
    ]


# ------------------------------------------------------------- runtime contract
def _ref(name, a, X, y, sd, X0, y0, sd0):
    """documented weights of the source samples of (X, sd) for the adapter fitted
    on (X0, sd0), recomputed here; None: not recomputed"""
    from scipy.stats import multivariate_normal as mvn
    from sklearn.linear_model import LogisticRegression
    from sklearn.neighbors import KernelDensity

    Xs, Xt, S_ = X0[sd0 >= 0], X0[sd0 < 0], X[sd >= 0]
    if name == "density":
        ks, kt = KernelDensity(bandwidth=.7).fit(Xs), KernelDensity(bandwidth=.7).fit(Xt)
        w = np.exp(kt.score_samples(S_) - ks.score_samples(S_))
        return w / w.mean()
    if name == "gauss":
        def cov(Z):
            c = np.cov(Z.T, bias=True).reshape(Z.shape[1], -1)
            return .9 * c + .1 * np.trace(c) / len(c) * np.eye(len(c))
        return np.atleast_1d(mvn.pdf(S_, Xt.mean(0), cov(Xt)) / mvn.pdf(S_, Xs.mean(0), cov(Xs)))
    if name == "disc":
        lr = LogisticRegression().fit(np.vstack([Xs, Xt]), np.r_[np.zeros(len(Xs)), np.ones(len(Xt))])
        p = lr.predict_proba(S_)[:, 1]
        w = p / (1 - p)
        return w / w.mean()
    if name.startswith("kmm") and hasattr(a, "source_weights_"):
        from sklearn.metrics.pairwise import rbf_kernel
        if name == "kmm" and np.array_equal(S_, Xs):
            return a.source_weights_
        return rbf_kernel(S_, Xs, gamma=.5) @ a.source_weights_
    if name.startswith("kliep") and hasattr(a, "alpha_"):
        from sklearn.metrics.pairwise import rbf_kernel
        g = {"auto": 1 / X0.shape[1], "scale": 1 / (X0.shape[1] * X0.var())}
        if name == "kliep-scale":
            return rbf_kernel(S_, a.centers_, gamma=g["scale"]) @ a.alpha_
        if not any(abs(a.best_gamma_ - v) < 1e-12 for v in (.5, *g.values())):
            return np.full(len(S_), np.nan)
        return rbf_kernel(S_, a.centers_, gamma=a.best_gamma_) @ a.alpha_
    if name.startswith("nn"):
        T_ = X[sd < 0]
        w = np.zeros(len(S_)) + (1. if name == "nn-smooth" else 0.)
        for t in T_:
            w[np.argmin(((S_ - t) ** 2).sum(1))] += 1
        return w
    return None


def make(name):
    from sklearn.neighbors import KernelDensity

    return dict(
        density=lambda: skada.DensityReweightAdapter(weight_estimator=KernelDensity(bandwidth=.7)),
        gauss=lambda: skada.GaussianReweightAdapter(reg=.1),
        disc=lambda: skada.DiscriminatorReweightAdapter(),
        kliep=lambda: skada.KLIEPReweightAdapter(gamma=[.5, "auto", "scale"], random_state=0, max_iter=50, n_centers=7),
        **{"kliep-scale": lambda: skada.KLIEPReweightAdapter(gamma="scale", random_state=0, max_iter=20, n_centers=7)},
        nn=lambda: skada.NearestNeighborReweightAdapter(),
        kmm=lambda: skada.KMMReweightAdapter(gamma=.5, max_iter=50),
        tars=lambda: skada.MMDTarSReweightAdapter(gamma=1., max_iter=30),
        **{"nn-smooth": lambda: skada.NearestNeighborReweightAdapter(laplace_smoothing=True),
           "kmm-smooth": lambda: skada.KMMReweightAdapter(gamma=.5, smooth_weights=True, max_iter=50)},
    )[name]()


NEUTRAL = dict(nn=1., tars=1e-13)


def k_weights(p):
    import warnings

    warnings.simplefilter("ignore")
    name, X, y, sd = p["name"], p["X"], p["y"], p["sd"]
    src = sd >= 0
    neutral = NEUTRAL.get(name.split("-")[0], 0.)
    a = make(name)
    params = {k: repr(v) for k, v in a.get_params().items()}
    c = [z.copy() for z in (X, y, sd)]
    Xo, extra = must(f"{name}/fit_transform", a.fit_transform, X, y, sample_domain=sd)
    for nm, u, v in zip(("X", "y", "sample_domain"), (X, y, sd), c):
        same_arr(f"{name}/frame/{nm}", u, v)
    check(f"{name}/params", {k: repr(v) for k, v in a.get_params().items()} == params, params)
    same_arr(f"{name}/X", Xo, X)
    check(f"{name}/keys", list(extra) == ["sample_weight"], list(extra))
    w = extra["sample_weight"]
    check(f"{name}/shape", np.shape(w) == (len(X),), np.shape(w))
    check(f"{name}/finite", np.isfinite(w).all(), w)
    check(f"{name}/target", np.allclose(w[~src], neutral, atol=1e-12), w[~src])
    check(f"{name}/nonnegative", (w[src] >= -1e-6).all(), w.min())
    ref = _ref(name, a, X, y, sd, X, y, sd)
    if ref is not None:
        same_arr(f"{name}/value", w[src], ref, exact=False, tol=1e-6)
    if name.startswith("kliep"):
        check("kliep/mean", abs(w[src].mean() - 1) < 1e-6, w[src].mean())
        check("kliep/gamma", name != "kliep" or a.gamma == [.5, "auto", "scale"], a.gamma)
    w1 = must(f"{name}/compute_weights", a.compute_weights, X, y, sample_domain=sd)
    same_arr(f"{name}/again", w1, w, exact=False)
    # new data: permuted and duplicated samples keep their own weights
    per = p["perm"]
    w2 = must(f"{name}/compute_weights/new", a.compute_weights, X[per], y[per], sample_domain=sd[per])
    check(f"{name}/new/shape", np.shape(w2) == (len(per),), np.shape(w2))
    check(f"{name}/new/target", np.allclose(w2[sd[per] < 0], neutral, atol=1e-12), w2)
    ref = _ref(name, a, X[per], y[per], sd[per], X, y, sd)
    sp = src[per]
    if ref is not None:
        same_arr(f"{name}/new/value", w2[sp], ref, exact=False, tol=1e-6)
    elif name in ("kliep", "kmm-smooth", "tars") and len(set(sp.tolist())) == 2:
        same_arr(f"{name}/new/value", w2[sp], w[per][sp], exact=False, tol=1e-6)
    # refit on other data is a fresh fit
    X3 = X * 3 + 1
    w3 = must(f"{name}/refit", a.fit(X3, y, sample_domain=sd).compute_weights, X3, y, sample_domain=sd)
    w4 = make(name).fit(X3, y, sample_domain=sd).compute_weights(X3, y, sample_domain=sd)
    same_arr(f"{name}/refit", w3, w4, exact=False)


def k_pipe(p):
    """the estimator behind the adapter is trained on the source samples with
    their own weights and labels"""
    import warnings
    from sklearn.base import BaseEstimator, ClassifierMixin
    from skada import make_da_pipeline

    warnings.simplefilter("ignore")
    name, X, y, sd = p["name"], p["X"], p["y"], p["sd"]
    seen = []

    class E(ClassifierMixin, BaseEstimator):
        def fit(self, X, y, sample_weight=None):
            seen.append((X, y, sample_weight))
            self.classes_ = np.unique(y)
            return self

        def predict(self, X):
            return np.zeros(len(X))

    w = make(name).fit_transform(X, y, sample_domain=sd)[1]["sample_weight"]
    pipe = make_da_pipeline(make(name), E().set_fit_request(sample_weight=True))
    must(f"{name}/pipeline", pipe.fit, X, y, sample_domain=sd)
    Xf, yf, wf = seen[-1]
    src = sd >= 0
    same_arr(f"{name}/pipeline/X", Xf, X[src])
    same_arr(f"{name}/pipeline/y", yf, y[src])
    same_arr(f"{name}/pipeline/weights", wf, w[src], exact=False)


KINDS = dict(weights=k_weights, pipe=k_pipe)
NAMES = ("density", "gauss", "disc", "kliep", "kliep-scale", "nn", "nn-smooth", "kmm", "kmm-smooth", "tars")


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(40 if tier == "quick" else 400):
        for name in NAMES:
            n, m, d = rng.randint(6, 25), rng.randint(5, 25), rng.randint(1, 3)
            X = np.vstack([r.randn(n, d), r.randn(m, d) * rng.choice([.7, 1.]) + rng.choice([0, 1.])])
            pool = rng.choice([([1], [-2]), ([0, 2], [-1]), ([1, 2], [-2, -3])])
            sd = np.r_[r.choice(pool[0], n), r.choice(pool[1], m)]
            y = np.r_[np.arange(n) % 2 if rng.random() < .7 or name != "tars" else r.randn(n), -np.ones(m)]
            y = y.astype(int) if (y == y.astype(int)).all() else np.r_[y[:n], np.full(m, np.nan)]
            o = r.permutation(n + m)
            X, y, sd = X[o], y[o], sd[o]
            per = r.permutation(n + m) if rng.random() < .5 or name in ("nn",) else r.choice(n + m, size=n + m)
            if not (sd[per] >= 0).any() or not (sd[per] < 0).any():
                per = np.arange(n + m)[::-1]
            yield "weights", dict(name=name, X=X, y=y, sd=sd, perm=per)
            if y.dtype.kind == "i" and rep % 3 == 0:
                yield "pipe", dict(name=name, X=X, y=y, sd=sd)
