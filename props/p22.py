"""P22: the adaptation losses, modules and callbacks of the deep nets compute what their
definitions say, for every batch."""
import functools

import numpy as np
import ot
import torch
import torch.nn.functional as F

import skada.deep._adversarial as DA
import skada.deep._baseline as DBL
import skada.deep._class_confusion as DCC
import skada.deep._divergence as DD
import skada.deep._graph_alignment as DG
import skada.deep._optimal_transport as DO
import skada.deep.base as DB
import skada.deep.callbacks as DC
import skada.deep.losses as DL
import skada.deep.modules as DM
import skada.deep.utils as DU
from dv import npmodel, torchmodel
from dv.core import S, SArr, ctx, z3, zi, I as INT, R as REAL
from dv.npmodel import compaction
from dv.prop import Scn, Violation, Skip, opt
from dv.spec import *
from dv.torchmodel import torch_mode
from props.util import *

ID = "P22"
LEVEL = "proof"

LOG, SAVED = [], {}


def calls(name):
    return [(a, k) for n, a, k in LOG if n == name]


def native(f):
    f._dv_native = f._dv_sym = True
    return f


class Rec:
    """a callable of the user's: remembers what it is given, gives what it is told"""

    _dv_native = _dv_sym = True

    def __init__(self, name, out, **attrs):
        self.name, self.out = name, out
        self.__dict__.update(attrs)

    def __call__(self, *a, **k):
        LOG.append((self.name, a, k))
        return self.out(*a, **k) if callable(self.out) else self.out


def real(name):
    return S(ctx().fresh("f", name))


def floats2(n, d, name):
    return npmodel.arr_uf(name, (n, d), "f")


def at(a, *ix):
    return a.fn(*[zi(q) for q in ix])


def start():
    torch_mode()
    LOG.clear()
    SAVED.clear()
    ctx().memo["sum_cross"] = True


def D_(x):
    return S(zi(x))


def inr(*pairs):
    return And(*[And(i >= 0, i < D_(n)) for i, n in pairs])


def shape_is(P, what, a, *dims):
    if not isinstance(a, SArr) or a.ndim != len(dims):
        return P.fail(what, f"{type(a).__name__} of {getattr(a, 'ndim', '?')} dimensions")
    P(what, And(*[D_(p) == D_(q) for p, q in zip(a.shape, dims)]))


def equal(P, what, a, b):
    """the same array"""
    if not isinstance(a, SArr) or not isinstance(b, SArr) or a.ndim != b.ndim:
        return P.fail(what, f"not an array of that shape: {type(a).__name__}")
    ix = [fresh_int("i") for _ in b.shape]
    P(what + ": shape", And(*[D_(p) == D_(q) for p, q in zip(a.shape, b.shape)]))
    P(what, Implies(inr(*zip(ix, b.shape)), Same(at(a, *ix), at(b, *ix))))


# --------------------------------------------------------- dependencies, by contract
def memo(name, key, make):
    tab = SAVED.setdefault(name, [])
    for k, v in tab:
        if len(k) == len(key) and all(p is q for p, q in zip(k, key)):
            return v
    tab.append((key, make()))
    return tab[-1][1]


@native
def m_cdist(x, y, p=2.0):
    npmodel.note("torch.cdist: one non-negative distance per pair of rows")
    LOG.append(("cdist", (x, y, p), {}))

    def make():
        d = floats2(x.shape[0], y.shape[0], "dist")
        f = d.fn
        return SArr(d.shape, "f", lambda i, j: f(i, j))
    return memo("cdist", (x, y), make)


@native
def m_mse(a, b, reduction="mean"):
    LOG.append(("mse", (a, b), dict(reduction=reduction)))
    return memo("mse", (a, b), lambda: real("mse"))


EXP = npmodel.uf1("exp", npmodel._ax_exp)
LOGF = npmodel.uf1("log")
NORM = z3.Function("norm", REAL, REAL)


@native
def m_softmax(x, dim=None, **k):
    npmodel.note("torch softmax: exp(x) / sum of exp(x) along the dimension")
    e = EXP(x)
    return npmodel.binary(e, npmodel.sum_(e, axis=dim, keepdims=True), "/")


@native
def m_normalize(x, p=2.0, dim=1, eps=1e-12):
    npmodel.note("torch normalize: every row over its norm")
    if p != 2 or dim != 1:
        raise Skip("normalize")
    return unit(x)


def unit(X):
    q = npmodel.sum_(npmodel.binary(X, X, "*"), axis=1)
    f, g = X.fn, q.fn
    return SArr(X.shape, "f", lambda i, c: f(i, c) / S(NORM(g(i).e)))


@native
def m_cos(a, b, dim=1, eps=1e-8):
    LOG.append(("cos", (a, b, dim), {}))
    npmodel.note("torch cosine_similarity: one number per pair of vectors")
    dims = [q if not (isinstance(p, int) and p == 1) else r for p, q, r in zip(a.shape, a.shape, b.shape)]
    del dims[dim]
    def make():
        r = npmodel.arr_uf("cos", tuple(dims), "f")
        if r.ndim == 2:
            i, j = npmodel.iv("i"), npmodel.iv("j")
            ctx().forall([i, j], z3.And(r.fn(i, j).e >= -1, r.fn(i, j).e <= 1), [r.fn(i, j).e])
        return r
    return memo("cos", (a, b), make)


@native
def m_einsum(spec, a, b):
    if spec.replace(" ", "") != "ij,ik->jk":
        raise Skip("einsum")
    return npmodel.matmul(npmodel.transpose(a), b)


@native
def m_emd2(a, b, M, **k):
    LOG.append(("emd2", (a, b, M), k))
    SAVED["emd2"] = real("emd2")
    return SAVED["emd2"]


MODELS = dict(torchmodel.MODELS)
MODELS.update({
    DL.mse_loss: m_mse, F.mse_loss: m_mse, torch.cdist: m_cdist, F.softmax: m_softmax, torch.softmax: m_softmax, F.normalize: m_normalize,
    F.cosine_similarity: m_cos, DU.cosine_similarity: m_cos, torch.einsum: m_einsum, ot.emd2: m_emd2,
})


def refused(*kinds):
    def p(P, out, I):
        P("refused", out[0] == "raise" and isinstance(out[1], kinds))
    return p


def pair(src=True, d=None):
    n, m = length("n", 2), length("m", 2)
    d = d or length("d", 1)
    return n, m, d, floats2(n, d, "xs"), floats2(m, d, "xt")


# ------------------------------------------------------------------- deep CORAL
def b_coral(centered):
    def b():
        start()
        n, m, d, xs, xt = pair()
        return (xs, xt), {} if centered is None else dict(assume_centered=centered), dict(n=n, m=m, d=d, xs=xs.snapshot(), xt=xt.snapshot(), centered=bool(centered), live=(xs, xt))
    return b


def cov(x, n, d, centered):
    """sum over the samples of the products of the (centred) features, over n-1"""
    def mu(a):
        return npmodel.sum_(SArr((n,), "f", lambda i: x.fn(i, zi(a)))) / D_(n)

    def c(a, b):
        if centered:
            return npmodel.sum_(SArr((n,), "f", lambda i: x.fn(i, zi(a)) * x.fn(i, zi(b)))) / (D_(n) - 1)
        ma, mb = mu(a), mu(b)
        return npmodel.sum_(SArr((n,), "f", lambda i: (x.fn(i, zi(a)) - ma) * (x.fn(i, zi(b)) - mb))) / (D_(n) - 1)
    return c


def p_coral(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    c = calls("mse")
    P("one comparison, summed", len(c) == 1 and c[0][1]["reduction"] == "sum")
    a, b = fresh_int("a"), fresh_int("b")
    for nm, got, x, n in (("source", c[0][0][0], I["xs"], I["n"]), ("target", c[0][0][1], I["xt"], I["m"])):
        shape_is(P, nm + " covariance", got, I["d"], I["d"])
        want = cov(x, n, I["d"], I["centered"])
        P(nm + " covariance: every entry", Implies(inr((a, I["d"]), (b, I["d"])), at(got, a, b) == want(a, b)))
    s = SAVED["mse"][0][1]
    d = D_(I["d"])
    P("over four times the squared dimension", out[1] * (4 * d * d) == s)
    for x, y in zip(I["live"], (I["xs"], I["xt"])):
        equal(P, "the features are left alone", x, y)


# --------------------------------------------------------------------- deep JDOT
class CE:
    """torch.nn.CrossEntropyLoss under contract: one number per sample and position"""

    _dv_native = _dv_sym = True

    def __init__(self, reduction="mean", **k):
        LOG.append(("CE", (), dict(k, reduction=reduction)))
        self.reduction = reduction

    def __call__(self, x, y):
        LOG.append(("criterion", (x, y), {}))
        r = (x.shape[0],) + tuple(x.shape[2:])
        SAVED["ce"] = npmodel.arr_uf("ce", r, "f")
        return SAVED["ce"] if self.reduction == "none" else npmodel.mean_(SAVED["ce"])


def b_jdot(ws, own):
    def b():
        start()
        n, m, d, fs, ft = pair()
        K = length("K", 2)
        y, yt = ints(n, "y"), floats2(m, K, "yt")
        r1, r2 = real("reg_dist"), real("reg_cl")
        kw = {}
        if ws:
            kw.update(sample_weights=floats(n, "w"), target_sample_weights=floats(m, "wt"))
        if own:
            kw["criterion"] = CE("none")
        return (y, yt, fs, ft, r1, r2), kw, dict(n=n, m=m, K=K, y=y, yt=yt, fs=fs, ft=ft, r1=r1, r2=r2, kw=kw)
    return b


def p_jdot(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    n, m, K = I["n"], I["m"], I["K"]
    c = calls("emd2")
    P("the value of the plan", len(c) == 1 and out[1] is SAVED["emd2"] and not c[0][1])
    a, b, M = c[0][0]
    i, j, k = fresh_int("i"), fresh_int("j"), fresh_int("k")
    for nm, got, q, w in (("source", a, n, "sample_weights"), ("target", b, m, "target_sample_weights")):
        if w in I["kw"]:
            P(nm + " weights: the ones given", got is I["kw"][w])
        else:
            shape_is(P, nm + " weights", got, q)
            P(nm + " weights: uniform", Implies(inr((i, q)), at(got, i) * D_(q) == 1))
    P("one criterion, one value per pair", all(k_["reduction"] == "none" for _, k_ in calls("CE")) and len(calls("criterion")) == 1)
    x, y = calls("criterion")[0][0]
    shape_is(P, "predictions for every pair", x, m, K, n)
    P("the target's predictions", Implies(inr((j, m), (k, K), (i, n)), at(x, j, k, i) == at(I["yt"], j, k)))
    shape_is(P, "labels for every pair", y, m, n)
    P("the source's labels", Implies(inr((j, m), (i, n)), at(y, j, i) == at(I["y"], i)))
    d = calls("cdist")
    P("distances of source and target features", len(d) == 1 and d[0][0][0] is I["fs"] and d[0][0][1] is I["ft"] and d[0][0][2] == 2)
    dist = SAVED["cdist"][0][1]
    shape_is(P, "cost", M, n, m)
    P("squared distance and label loss, each with its weight", Implies(inr((i, n), (j, m)), at(M, i, j) == I["r1"] * (at(dist, i, j) * at(dist, i, j)) + I["r2"] * at(SAVED["ce"], j, i)))


# --------------------------------------------------------------------------- MMD
def b_gk():
    start()
    n, m, d, x, y = pair()
    k = length("k", 1)
    s = floats(k, "sigmas")
    q = fresh_int("q")
    assume_forall(k, lambda q: el(s, q) > 0)
    return (x, y, s), {}, dict(n=n, m=m, x=x, y=y, k=k, s=s)


def p_gk(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r = out[1]
    c = calls("cdist")
    P("distances of the two", len(c) == 1 and c[0][0][0] is I["x"] and c[0][0][1] is I["y"] and c[0][0][2] == 2)
    dist = SAVED["cdist"][0][1]
    shape_is(P, "one value per pair", r, I["n"], I["m"])
    i, j = fresh_int("i"), fresh_int("j")
    want = npmodel.sum_(EXP(SArr((I["k"],), "f", lambda q: -(at(dist, i, j) / I["s"].fn(q)))))
    P("the sum of exp(-distance/sigma) over the sigmas", Implies(inr((i, I["n"]), (j, I["m"])), at(r, i, j) == want))


def kernel(x, y, **k):
    LOG.append(("kernel", (x, y), k))
    return memo("kernel", (x, y), lambda: floats2(x.shape[0], y.shape[0], "kernel"))


def c_kernel(it, x, y, sigmas):
    return kernel(x, y, sigmas=sigmas)


def ker(x, y):
    return [v for k, v in SAVED["kernel"] if k[0] is x and k[1] is y]


def b_mmd():
    start()
    n, m, d, x, y = pair()
    return (x, y, Rec("k", kernel)), {}, dict(x=x, y=y)


def mmd(P, r, I):
    x, y = I["x"], I["y"]
    kxx, kyy, kxy = ker(x, x), ker(y, y), ker(x, y)
    if not (kxx and kyy and kxy):
        return P.fail("kernel within and between", [len(q) for q in (kxx, kyy, kxy)])
    me = npmodel.mean_
    P("mean within each minus twice the mean between", r == me(kxx[0]) + me(kyy[0]) - 2 * me(kxy[0]))


def p_mmd(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    mmd(P, out[1], I)


def b_dan(sig):
    def b():
        start()
        n, m, d, x, y = pair()
        eps = real("eps")
        kw = dict(sigmas=[0.5, 1.0, 7.0]) if sig else dict(eps=eps)
        return (x, y), kw, dict(x=x, y=y, sig=sig, eps=eps)
    return b


def sigmas_ok(P, s, I, x):
    if I["sig"]:
        P("the sigmas given", D_(s.shape[0]) == 3)
        for q, v in enumerate([0.5, 1.0, 7.0]):
            P("the sigmas given", at(s, q) == v)
        return
    c = [a for a, _ in calls("cdist") if a[0] is x and a[1] is x]
    P("distances within the source", bool(c))
    dist = [v for k, v in SAVED["cdist"] if k[0] is x and k[1] is x][0]
    med = torchmodel.median(dist) + I["eps"]
    P("33 sigmas", D_(s.shape[0]) == 33)
    for q in range(33):
        P("halves and doubles of the median distance", at(s, q) == med * float(np.float64(2 ** (-8) * 2 ** (q * 0.5))))


def p_dan(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    mmd(P, out[1], I)
    for _, k in calls("kernel"):
        sigmas_ok(P, k["sigmas"], I, I["x"])


# --------------------------------------------------------------------------- CDD
def kmeans(K, d):
    km = DU.SphericalKMeans.__new__(DU.SphericalKMeans)
    km.__dict__.update(n_clusters=K, cluster_centers_=floats2(K, d, "centers"), device="cpu", random_state=None, n_init=10, max_iter=300, tol=1e-4, initial_centroids=None)
    return km


def c_predict(it, self, X):
    LOG.append(("predict", (self, X), {}))
    n = X.shape[0]
    r = ints(n, "cluster")
    K = self.cluster_centers_.shape[0]
    assume_forall(n, lambda q: And(el(r, q) >= 0, el(r, q) < D_(K)))
    SAVED["cluster"] = r
    return r


def b_cdd(K, sig, none=False):
    def b():
        start()
        n, m, d, x, y = pair()
        km = kmeans(K, d)
        ys = ints(n, "ys")
        th, ct, eps = real("threshold"), fresh_int("class_threshold"), real("eps")
        if none:  # no sample of the target is close enough
            assume(And(th <= 0, ct <= 0))
        kw = dict(distance_threshold=th, class_threshold=ct)
        kw.update(dict(sigmas=[0.5, 1.0, 7.0]) if sig else dict(eps=eps))
        return (ys, x, y, km), kw, dict(n=n, m=m, d=d, x=x, y=y, ys=ys, km=km, th=th, ct=ct, eps=eps, sig=sig, K=K)
    return b


def p_cdd(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    n, m, K = I["n"], I["m"], I["K"]
    c = calls("predict")
    P("the clusters of the target samples", len(c) == 1 and c[0][0][0] is I["km"] and c[0][0][1] is I["y"])
    lab = SAVED["cluster"]
    (a, b, dm), _ = calls("cos")[0]
    i, k, f = fresh_int("i"), fresh_int("k"), fresh_int("f")
    P("similarities of samples and centroids", dm == 2)
    P("similarities: the samples", Implies(inr((i, m), (f, I["d"])), at(a, i, z3.IntVal(0), f) == at(I["y"], i, f)))
    P("similarities: the centroids", Implies(inr((k, K), (f, I["d"])), at(b, z3.IntVal(0), k, f) == at(I["km"].cluster_centers_, k, f)))
    cos = SAVED["cos"][0][1]
    best = npmodel.extremum(cos, "max", 1)
    near = SArr((m,), "b", lambda q: 0.5 * (1 - best.fn(q)) < I["th"])
    co = compaction(near)
    lab1 = npmodel.getitem(lab, near)
    cnt = npmodel.bincount(lab1, minlength=K)
    okc = npmodel.binary(cnt, I["ct"], ">=")
    valid = [okc.fn(z3.IntVal(c)) for c in range(K)]
    clear = npmodel.getitem(okc, lab1)
    co2 = compaction(clear)
    m2 = S(co2.m)
    lab2 = npmodel.getitem(lab1, clear)
    kk = {}
    for (x, y), v in SAVED.get("kernel", []):
        kk[("s" if x is I["x"] else "t") + ("s" if y is I["x"] else "t")] = (x, y, v)
    for (x, y), kw in calls("kernel"):
        sigmas_ok(P, kw["sigmas"], I, I["x"])
        for q in (x, y):
            if q is not I["x"]:
                P("the clear target samples", And(ln(q) == m2, Implies(inr((i, m2), (f, I["d"])), at(q, i, f) == at(I["y"], S(co.sel(co2.sel(zi(i)))), f))))
    bit = lambda e: npmodel.ite(e, S(z3.RealVal(1)), S(z3.RealVal(0)))
    ys = I["ys"]
    one_s = lambda c: SArr((n,), "f", lambda q: bit((ys.fn(q) == c).e))
    one_t = lambda c: SArr((m2,), "f", lambda q: bit((lab2.fn(q) == c).e))

    def avg(key, u, v):
        """the mean of the kernel over the pairs of the two classes, 0 without any"""
        if key not in kk:
            return None
        x, y, v_ = kk[key]
        w = SArr((u.shape[0], v.shape[0]), "f", lambda p, q: u.fn(p) * v.fn(q))
        tot, s = npmodel.sum_(w), npmodel.sum_(npmodel.binary(v_, w, "*"))
        return npmodel.ite((tot > 0).e, s / tot, S(z3.RealVal(0)))

    intra, inter = S(z3.RealVal(0)), S(z3.RealVal(0))
    zero = S(z3.RealVal(0))
    for a_ in range(K):
        for b_ in range(K):
            both = And(valid[a_], valid[b_])
            es = [avg("ss", one_s(a_), one_s(a_)), avg("tt", one_t(b_), one_t(b_)), avg("st", one_s(a_), one_t(b_))]
            if any(q is None for q in es):
                P("no pair left out", Not(both))
                continue
            v = npmodel.ite(both.e, es[0] + es[1] - 2 * es[2], zero)
            if a_ == b_:
                intra = intra + v
            else:
                inter = inter + v
    want = intra / K
    if K > 1:
        want = want - inter / (K * K - K)
    got = out[1] if isinstance(out[1], S) else S(z3.RealVal(out[1]))
    P("discrepancy within the classes minus between them", got == want)


def b_cdd_bad():
    start()
    n, m, d, x, y = pair()
    return (ints(n, "ys"), x, y, None), {}, {}


# --------------------------------------------------------------------------- MCC
def b_mcc():
    start()
    n, K = length("n", 1), length("K", 2)
    y, T, eps = floats2(n, K, "y"), real("T"), real("eps")
    assume(And(T > 0, eps > 0))
    return (y,), dict(T=T, eps=eps), dict(n=n, K=K, y=y, T=T, eps=eps)


def p_mcc(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    y, n, K = I["y"], I["n"], I["K"]
    p = m_softmax(npmodel.binary(y, I["T"], "/"), 1)
    lg = LOGF(SArr((n, K), "f", lambda i, k: p.fn(i, k) + I["eps"]))
    H = npmodel.sum_(npmodel.binary(p, lg, "*"), 1)
    w0 = EXP(SArr((n,), "f", lambda i: H.fn(i)))
    w1 = SArr((n,), "f", lambda i: 1 + w0.fn(i))
    mean = npmodel.mean_(w1)
    W = SArr((n,), "f", lambda i: w1.fn(i) / mean)
    C = npmodel.matmul(npmodel.transpose(p), npmodel.matmul(npmodel.diag(W), p))
    C = npmodel.binary(C, npmodel.sum_(C, 1, True), "/")
    off = npmodel.unary(npmodel.binary(C, npmodel.diag(npmodel.diag(C)), "-"), "abs")
    want = npmodel.mean_(npmodel.sum_(off, 1))
    P("the confusion of the classes", out[1] == want)


# --------------------------------------------------------------- graph alignment
def b_adj(metric):
    def b():
        start()
        n, m, d, x, y = pair()
        return (x, y), dict(metric=metric), dict(n=n, m=m, x=x, y=y, metric=metric)
    return b


def p_adj(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r, n, m = out[1], I["n"], I["m"]
    shape_is(P, "one entry per pair", r, n, m)
    i, j = fresh_int("i"), fresh_int("j")
    if I["metric"] == "cos":
        u, v = unit(I["x"]), unit(I["y"])
        want = npmodel.sum_(SArr((I["x"].shape[1],), "f", lambda q: u.fn(zi(i), q) * v.fn(zi(j), q)))
    else:
        c = calls("cdist")
        P("distances of the two", len(c) == 1 and c[0][0][0] is I["x"] and c[0][0][1] is I["y"] and c[0][0][2] == 2)
        d = at(SAVED["cdist"][0][1], i, j)
        want = d if I["metric"] == "euc" else EXP(SArr((1,), "f", lambda q: -0.5 * (d * d) / (1.5 * 1.5))).fn(z3.IntVal(0))
    P("the entries", Implies(inr((i, n), (j, m)), at(r, i, j) == want))


def b_lap(kind):
    def b():
        start()
        n = length("n", 2)
        A = floats2(n, n, "A")
        return (A,), dict(laplac=kind), dict(n=n, A=A, kind=kind)
    return b


def p_lap(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r, n, A = out[1], I["n"], I["A"]
    shape_is(P, "a square matrix", r, n, n)
    i, j = fresh_int("i"), fresh_int("j")
    deg = npmodel.sum_(A, 1)
    di, dj, a = at(deg, i), at(deg, j), at(A, i, j)
    same = i == j
    if I["kind"] == "laplac1":
        want = -(1 / (di + 1e-7)) * a
    elif I["kind"] == "laplac2":
        want = npmodel.ite(same.e, di, S(z3.RealVal(0))) - a
    else:
        s = npmodel.MODELS[np.sqrt](SArr((n,), "f", lambda q: deg.fn(q) + 1e-7))
        want = npmodel.ite(same.e, S(z3.RealVal(1)), S(z3.RealVal(0))) - (1 / at(s, i)) * a * (1 / at(s, j))
    P("the entries", Implies(inr((i, n), (j, n)), at(r, i, j) == want))


@native
def m_svd(A):
    LOG.append(("svd", (A,), {}))
    return "U", memo("svd", (A,), lambda: floats(A.shape[0], "sv")), "V"


@native
def m_norm(x, **k):
    LOG.append(("norm", (x,), k))
    SAVED["norm"] = real("norm")
    return SAVED["norm"]


def c_adj(it, s, t, metric="euc"):
    LOG.append(("adj", (s, t, metric), {}))
    return memo("adj", (s, t), lambda: floats2(s.shape[0], t.shape[0], "adj"))


def c_lap(it, A, laplac="laplac1"):
    LOG.append(("lap", (A, laplac), {}))
    return memo("lap", (A,), lambda: floats2(A.shape[0], A.shape[0], "lap"))


def b_gda():
    start()
    n, d = length("n", 2), length("d", 1)
    x, y = floats2(n, d, "xs"), floats2(n, d, "xt")
    return (x, y), dict(metric="the metric", laplac="the laplacian"), dict(n=n, x=x, y=y)


def p_gda(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    x, y = I["x"], I["y"]
    A, L = [a for a, _ in calls("adj")], [a for a, _ in calls("lap")]
    P("a graph of each side", len(A) == 2 and all(a[0] is a[1] and a[2] == "the metric" for a in A) and {id(a[0]) for a in A} == {id(x), id(y)})
    P("their laplacians", len(L) == 2 and all(a[1] == "the laplacian" for a in L))
    sv = {}
    for (M,), v in SAVED["svd"]:
        for (A_,), Lm in SAVED["lap"]:
            for (s, t), Am in SAVED["adj"]:
                if M is Lm and A_ is Am:
                    sv["s" if s is x else "t"] = v
    P("their singular values", set(sv) == {"s", "t"})
    (z,), k = calls("norm")[0]
    i = fresh_int("i")
    P("the norm of the difference of the spectra", And(ln(z) == I["n"], Implies(inr((i, I["n"])), Or(at(z, i) == at(sv["s"], i) - at(sv["t"], i), at(z, i) == at(sv["t"], i) - at(sv["s"], i)))))
    P("that norm", out[1] is SAVED["norm"] and not k)


# ------------------------------------------------------------- adversarial losses
def b_dann(cls, mod):
    def b():
        start()
        n, m, d, fs, ft = pair()
        vs = [real("of source"), real("of target")]
        it = iter(vs)
        ps, pt = floats(n, "ps"), floats(m, "pt")
        s = opt(mod, cls).__new__(opt(mod, cls))
        torch.nn.Module.__init__(s)
        object.__setattr__(s, "domain_criterion_", Rec("criterion", lambda p, y: vs[0] if p is ps else vs[1]))
        kw = dict(domain_pred_s=ps, domain_pred_t=pt, features_s=fs, features_t=ft, y_s=None, y_pred_s=None, y_pred_t=None, sample_idx_s=None, sample_idx_t=None)
        return (s,), kw, dict(n=n, m=m, ps=ps, pt=pt, vs=vs)
    return b


def c_fwd(it, s, *a, **k):
    return it.call(s.forward, a, k)


def domain_calls(P, I):
    c = calls("criterion")
    P("the criterion on each side", len(c) == 2 and {id(a[0]) for a, _ in c} == {id(I["ps"]), id(I["pt"])})
    i = fresh_int("i")
    for (p, y), _ in c:
        n, v = (I["n"], 0) if p is I["ps"] else (I["m"], 1)
        P("source is 0, target is 1", And(ln(y) == n, Implies(inr((i, n)), at(y, i) == v)))


def p_dann(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    domain_calls(P, I)
    P("their sum", out[1] == I["vs"][0] + I["vs"][1])


def b_mce():
    start()
    n, K = length("n", 1), length("K", 2)
    x, y = floats2(n, K, "x"), ints(n, "y")
    assume_forall(n, lambda q: And(el(y, q) >= 0, el(y, q) < K))
    s = DA.ModifiedCrossEntropyLoss.__new__(DA.ModifiedCrossEntropyLoss)
    torch.nn.Module.__init__(s)
    s.smoothing = real("smoothing")
    return (s, x, y), {}, dict(n=n, K=K, x=x, y=y, sm=s.smoothing)


def p_mce(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    p = m_softmax(I["x"], 1)
    t = SArr((I["n"],), "f", lambda i: 1 - ((1 - I["sm"]) * p.fn(i, I["y"].fn(i).e) + I["sm"] / D_(I["K"])))
    P("the mean log of one minus the smoothed probability of its class", out[1] == npmodel.mean_(LOGF(t)))


def b_mdd():
    start()
    n, m, K = length("n", 1), length("m", 1), length("K", 2)
    ys, yt, ds, dt = [floats2(q, K, w) for q, w in ((n, "ys"), (m, "yt"), (n, "ds"), (m, "dt"))]
    s = DA.MDDLoss.__new__(DA.MDDLoss)
    torch.nn.Module.__init__(s)
    g, a, b = real("gamma"), real("cs"), real("ct")
    s.gamma = g
    object.__setattr__(s, "disc_criterion_s", Rec("cs", a))
    object.__setattr__(s, "disc_criterion_t", Rec("ct", b))
    return (s,), dict(y_pred_s=ys, y_pred_t=yt, domain_pred_s=ds, domain_pred_t=dt, features_s=None), dict(n=n, m=m, K=K, ys=ys, yt=yt, ds=ds, dt=dt, g=g, a=a, b=b)


def p_mdd(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    i, k = fresh_int("i"), fresh_int("k")
    for nm, d, y, n in (("cs", I["ds"], I["ys"], I["n"]), ("ct", I["dt"], I["yt"], I["m"])):
        c = calls(nm)
        P("the discriminator's output of that side", len(c) == 1 and c[0][0][0] is d)
        lab = c[0][0][1]
        P("against the class predicted", And(ln(lab) == n, Implies(inr((i, n), (k, I["K"])), And(at(lab, i) >= 0, at(lab, i) < I["K"], at(y, i, k) <= at(y, i, at(lab, i))))))
    P("gamma times the source's minus the target's", out[1] == I["g"] * I["a"] - I["b"])


# ----------------------------------------------------------- wrappers of the losses
def rec_loss(name):
    @native
    def f(*a, **k):
        LOG.append((name, a, k))
        return SAVED["loss"]
    return f


WRAP = {
    "DeepCoralLoss": (DD, "deepcoral_loss", dict(assume_centered="assume_centered"), dict(features="features_s", features_target="features_t")),
    "DANLoss": (DD, "dan_loss", dict(sigmas="sigmas", eps="eps"), dict(features_s="features_s", features_t="features_t")),
    "CANLoss": (DD, "cdd_loss", dict(sigmas="sigmas", eps="eps", target_kmeans="target_kmeans", distance_threshold="distance_threshold", class_threshold="class_threshold"), dict(y_s="y_s", features_s="features_s", features_t="features_t")),
    "DeepJDOTLoss": (DO, "deepjdot_loss", dict(reg_dist="reg_dist", reg_cl="reg_cl", criterion="criterion_"), dict(y_s="y_s", y_pred_t="y_pred_t", features_s="features_s", features_t="features_t")),
    "MCCLoss": (DCC, "mcc_loss", dict(T="T", eps="eps"), dict(y="y_pred_t")),
}
PARTS = ["y_s", "y_pred_s", "y_pred_t", "domain_pred_s", "domain_pred_t", "features_s", "features_t", "sample_idx_s", "sample_idx_t"]


class Token:
    _dv_native = _dv_sym = True

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


def b_wrap(cls):
    def b():
        start()
        mod, fn, attrs, args = WRAP[cls]
        SAVED["loss"] = Token("loss")
        s = opt(mod, cls).__new__(opt(mod, cls))
        torch.nn.Module.__init__(s)
        at_ = {v: Token(v) for v in attrs.values()}
        for q, v in at_.items():
            object.__setattr__(s, q, v)
        kw = {q: Token(q) for q in PARTS}
        return (s,), dict(kw), dict(cls=cls, attrs=at_, kw=kw)
    return b


def p_wrap(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    import inspect

    mod, fn, attrs, args = WRAP[I["cls"]]
    c = calls(fn)
    P("one loss", len(c) == 1 and out[1] is SAVED["loss"])
    names = list(inspect.signature(getattr(DL, fn)).parameters)
    got = dict(zip(names, c[0][0]), **c[0][1])
    for q, v in attrs.items():
        P("with its options: " + q, got.pop(q, None) is I["attrs"][v])
    for q, v in args.items():
        P("with its parts: " + q, got.pop(q, None) is I["kw"][v])
    P("nothing else", not got)


def b_spa():
    start()
    n, m, d, fs, ft = pair()
    ps, pt = floats(n, "ps"), floats(m, "pt")
    vs = [real("of source"), real("of target")]
    s = DG.SPALoss.__new__(DG.SPALoss)
    torch.nn.Module.__init__(s)
    I = dict(n=n, m=m, ps=ps, pt=pt, fs=fs, ft=ft, vs=vs, g=real("gda"), nap=real("nap"), ra=real("reg_adv"), rg=real("reg_gsa"), rn=real("reg_nap"), e=fresh_int("epoch"), E=fresh_int("epochs"))
    assume(And(I["e"] >= 0, I["E"] >= 1))
    for q, v in dict(reg_adv=I["ra"], reg_gsa=I["rg"], reg_nap=I["rn"], K=Token("K"), memory_features=Token("mf"), memory_outputs=Token("mo"), max_epochs=I["E"], n_epochs=I["e"], domain_criterion_=Rec("criterion", lambda p, y: vs[0] if p is ps else vs[1])).items():
        object.__setattr__(s, q, v)
    I.update(s=s, yt=Token("yt"), ix=Token("ix"))
    SAVED.update(gda=I["g"], nap=I["nap"])
    return (s,), dict(y_pred_t=I["yt"], domain_pred_s=ps, domain_pred_t=pt, features_s=fs, features_t=ft, sample_idx_t=I["ix"], y_s=None), I


@native
def rec_gda(*a, **k):
    LOG.append(("gda", a, k))
    return SAVED["gda"]


@native
def rec_nap(*a, **k):
    LOG.append(("nap", a, k))
    return SAVED["nap"]


def p_spa(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    domain_calls(P, I)
    a, k = calls("gda")[0]
    P("spectra of the two sides' features", len(calls("gda")) == 1 and a[0] is I["fs"] and a[1] is I["ft"] and k == dict(metric="gauss"))
    import inspect

    a, k = calls("nap")[0]
    got = dict(zip(inspect.signature(DL.nap_loss).parameters, a), **k)
    s = I["s"]
    P("neighbours in the memory", len(calls("nap")) == 1 and got["features_t"] is I["ft"] and got["y_pred_t"] is I["yt"] and got["sample_idx_t"] is I["ix"]
      and got["memory_features"] is s.memory_features and got["memory_outputs"] is s.memory_outputs and got["K"] is s.K)
    e, E = I["e"], I["E"]
    x = EXP(SArr((1,), "f", lambda q: S(-10 * z3.ToReal(e.e) / z3.ToReal(E.e)))).fn(z3.IntVal(0))
    adv = 2 / (1 + x) - 1
    nap = S(z3.ToReal(e.e) / z3.ToReal(E.e))
    P("the three parts, each with its weight and schedule", out[1] == I["ra"] * adv * (I["vs"][0] + I["vs"][1]) + I["rg"] * I["g"] + I["rn"] * nap * I["nap"])


# ------------------------------------------------------------ modules, callbacks
class Ctx:
    _dv_native = _dv_sym = True


def b_rev(back):
    def b():
        start()
        n, d = length("n", 1), length("d", 1)
        x, c, al = floats2(n, d, "x"), Ctx(), real("alpha")
        if back:
            c.alpha = al
            return (c, x), {}, dict(n=n, d=d, x=x.snapshot(), al=al, c=c, back=True)
        return (c, x, al), {}, dict(n=n, d=d, x=x.snapshot(), al=al, c=c, back=False)
    return b


def p_rev(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    if not I["back"]:
        equal(P, "the features themselves", out[1], I["x"])
        return P("alpha kept for the way back", getattr(I["c"], "alpha", None) is I["al"])
    r = out[1]
    P("one gradient per input", isinstance(r, tuple) and len(r) == 2 and r[1] is None)
    shape_is(P, "its shape", r[0], I["n"], I["d"])
    i, j = fresh_int("i"), fresh_int("j")
    P("reversed, times alpha", Implies(inr((i, I["n"]), (j, I["d"])), at(r[0], i, j) == -(I["al"] * at(I["x"], i, j))))


def b_bank():
    start()
    n, d, K, mt, q = length("n", 1), length("d", 1), length("K", 2), length("mt", 1), length("q", 2)
    X, sd, ix = floats2(n, d, "X"), ints(n, "sd"), ints(n, "idx")
    mf, mo = floats2(mt, q, "mf"), floats2(mt, K, "mo")
    i, j = npmodel.iv("i"), npmodel.iv("j")
    ctx().forall([i], z3.Implies(z3.And(0 <= i, i < n.e, sd.fn(i).e < 0), z3.And(0 <= ix.fn(i).e, ix.fn(i).e < mt.e)), [ix.fn(i).e])
    ctx().forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n.e, sd.fn(i).e < 0, sd.fn(j).e < 0), ix.fn(i).e != ix.fn(j).e), [z3.MultiPattern(ix.fn(i).e, ix.fn(j).e)])
    cb = opt(DC, "MemoryBank").__new__(DC.MemoryBank)
    cb.momentum = real("momentum")

    def forward(x, return_features=False):
        k = x.shape[0]
        SAVED["out"], SAVED["feat"] = floats2(k, K, "logits"), floats2(k, q, "feat")
        return (SAVED["out"], SAVED["feat"]) if return_features else SAVED["out"]

    crit = Obj(memory_features=mf, memory_outputs=mo)
    net = Obj(module_=Rec("module", forward, eval=Rec("eval", None)), device="cpu", criterion__adapt_criterion=crit)
    return (cb, net, ({"X": X, "sample_domain": sd, "sample_idx": ix}, Token("y"))), {}, dict(n=n, d=d, K=K, mt=mt, q=q, X=X, sd=sd, ix=ix, mf=mf.snapshot(), mo=mo.snapshot(), crit=crit, mom=cb.momentum)


class Obj:
    _dv_native = True

    def __init__(self, **k):
        self.__dict__.update(k)


def p_bank(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    c = calls("module")
    P("in evaluation mode, once", [e[0] for e in LOG if e[0] in ("eval", "module")] == ["eval", "module"])
    co = compaction(SArr((I["n"],), "b", lambda q: S(I["sd"].fn(q).e < 0)))
    x = c[0][0][0]
    k, f, r = fresh_int("k"), fresh_int("f"), fresh_int("row")
    m = S(co.m)
    P("the target samples of the batch", And(ln(x) == m, Implies(inr((k, m), (f, I["d"])), at(x, k, f) == at(I["X"], S(co.sel(zi(k))), f))))
    u = unit(SAVED["feat"])
    p = m_softmax(SAVED["out"], 1)
    sq = SArr((m, I["K"]), "f", lambda a, b: p.fn(a, b) * p.fn(a, b))
    tot = npmodel.sum_(sq, 0)
    new = {"features": (I["crit"].memory_features, I["mf"], I["q"], lambda a, b: at(u, a, b)),
           "outputs": (I["crit"].memory_outputs, I["mo"], I["K"], lambda a, b: at(sq, a, b) / at(tot, b))}
    mom = I["mom"]
    row = S(I["ix"].fn(co.sel(zi(k))).e)
    for nm, (now, old, w, g) in new.items():
        shape_is(P, nm + ": as large as before", now, I["mt"], w)
        P(nm + ": moved towards the batch's", Implies(inr((k, m), (f, w)), at(now, row, f) == (1 - mom) * at(old, row, f) + mom * g(k, f)))
        j = npmodel.iv("j")
        hit = S(z3.Exists([j], z3.And(0 <= j, j < co.m, I["ix"].fn(co.sel(j)).e == zi(r))))
        P(nm + ": the others stay", Or(hit, Implies(inr((r, I["mt"]), (f, w)), at(now, r, f) == at(old, r, f))))


def b_epochs(method):
    def b():
        start()
        e = fresh_int("epochs")
        crit = Obj(n_epochs=e)
        cb = opt(DC, "CountEpochs").__new__(DC.CountEpochs)
        return (cb, Obj(criterion__adapt_criterion=crit)), {}, dict(e=e, crit=crit, m=method)
    return b


def p_epochs(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    n = I["crit"].n_epochs
    P("reset" if I["m"] == "on_train_begin" else "one more", n == 0 if I["m"] == "on_train_begin" else n == I["e"] + 1)


# ------------------------------------------------------------- spherical k-means
def b_dis(loss):
    def b():
        start()
        n, K, d = length("n", 2), length("K", 2), length("d", 1)
        km = kmeans(K, d)
        X = floats2(n, d, "X")
        C = floats2(n if loss else K, d, "C")
        return (km, X, C), {}, dict(n=n, K=K, d=d, X=X, C=C)
    return b


def p_dis(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    (a, b, dm), _ = calls("cos")[0]
    i, k, f, z = fresh_int("i"), fresh_int("k"), fresh_int("f"), z3.IntVal(0)
    P("each sample with each centroid", dm == 2 and len(calls("cos")) == 1)
    P("the samples", Implies(inr((i, I["n"]), (f, I["d"])), at(a, i, z, f) == at(I["X"], i, f)))
    P("the centroids", Implies(inr((k, I["K"]), (f, I["d"])), at(b, z, k, f) == at(I["C"], k, f)))
    shape_is(P, "one per pair", out[1], I["n"], I["K"])
    P("half of one minus the similarity", Implies(inr((i, I["n"]), (k, I["K"])), 2 * at(out[1], i, k) == 1 - at(SAVED["cos"][0][1], i, k)))


def p_disloss(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    c = calls("cos")
    P("each sample with its centroid", len(c) == 1 and c[0][0][0] is I["X"] and c[0][0][1] is I["C"] and c[0][0][2] == 1)
    v = SAVED["cos"][0][1]
    P("their dissimilarities, summed", out[1] == npmodel.sum_(SArr((I["n"],), "f", lambda i: 0.5 * (1 - v.fn(i)))))


def c_matrix(it, self, X, centroids):
    LOG.append(("matrix", (self, X, centroids), {}))
    return memo("matrix", (X, centroids), lambda: floats2(X.shape[0], centroids.shape[0], "dis"))


def b_predict():
    start()
    n, K, d = length("n", 1), length("K", 1), length("d", 1)
    km = kmeans(K, d)
    X = floats2(n, d, "X")
    return (km, X), {}, dict(n=n, K=K, X=X, km=km, C=km.cluster_centers_)


def p_predict(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    c = calls("matrix")
    P("against its centers", len(c) == 1 and c[0][0][2] is I["C"] and c[0][0][1] is I["X"])
    d = SAVED["matrix"][0][1]
    i, k = fresh_int("i"), fresh_int("k")
    r = out[1]
    P("the nearest center of every sample", And(ln(r) == I["n"], Implies(inr((i, I["n"]), (k, I["K"])), And(at(r, i) >= 0, at(r, i) < I["K"], at(d, i, at(r, i)) <= at(d, i, k)))))


def c_single(it, self, X, init):
    LOG.append(("single", (self, X, init), {}))
    q = len(calls("single")) - 1
    r = real("inertia"), floats2(self.cluster_centers0.shape[0], X.shape[1], "centers"), fresh_int("n_iter")
    SAVED.setdefault("runs", []).append(r)
    return r


def c_init(it, self, X, generator):
    LOG.append(("init", (self, X, generator), {}))
    SAVED.setdefault("inits", []).append(Token("init"))
    return SAVED["inits"][-1]


def c_gen(it, seed):
    LOG.append(("generator", (seed,), {}))
    SAVED["generator"] = Token("generator")
    return SAVED["generator"]


def m_rownorm(x, p=2, dim=None, keepdim=False, **k):
    q = npmodel.sum_(npmodel.binary(x, x, "*"), axis=dim)
    f = q.fn
    if not keepdim:
        raise Skip("norm")
    return SArr((x.shape[0], 1), "f", lambda i, c: S(NORM(f(i).e)))


m_rownorm._dv_native = m_rownorm._dv_sym = True


def b_fit(n_init):
    def b():
        start()
        n, K, d = length("n", 1), length("K", 1), length("d", 1)
        km = kmeans(K, d)
        km.cluster_centers0 = km.__dict__.pop("cluster_centers_")
        seed = fresh_int("seed")
        km.random_state = seed
        init = None
        if n_init is None:
            init = floats2(K, d, "initial")
            km.initial_centroids = init
        else:
            km.n_init = n_init
        X = floats2(n, d, "X")
        return (km, X), {}, dict(n=n, d=d, K=K, X=X, x0=X.snapshot(), km=km, n_init=n_init, seed=seed, init=init, init0=None if init is None else init.snapshot())
    return b


def p_fit(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    km, q = I["km"], I["n_init"]
    c = calls("single")
    P("returns itself", out[1] is km)
    P("one run per start", len(c) == (q or 1))
    u = unit(I["x0"])
    i, f = fresh_int("i"), fresh_int("f")
    for (_, x, st), _k in c:
        shape_is(P, "the samples", x, I["n"], I["d"])
        P("the samples, on the sphere", Implies(inr((i, I["n"]), (f, I["d"])), at(x, i, f) == at(u, i, f)))
    runs = SAVED["runs"]
    if q is None:
        equal(P, "from the centroids given", c[0][0][2], I["init0"])
        P("which stay what they are: not the same tensor", c[0][0][2] is not I["init"])
        equal(P, "which stay what they are", I["init"], I["init0"])
    else:
        P("each from its own start", len(calls("init")) == q and all(a[2] is b_ for (a, _k), b_ in zip(c, SAVED["inits"])))
        g = calls("generator")
        P("drawn with random_state", len(g) == 1 and g[0][0][0] is I["seed"] and all(a[2] is SAVED["generator"] for a, _k in calls("init")))
    P("the best run", And(*[km.inertia_ <= r[0] for r in runs]))
    P("its centers and its iterations", Or(*[And(km.inertia_ == r[0], km.cluster_centers_ is r[1], km.n_iter_ == r[2] + 1) for r in runs]))
    equal(P, "the samples are left alone", I["X"], I["x0"])


def scenarios():
    q = dict(models=MODELS)
    L = lambda f: opt(DL, f)
    out = []
    for c in (None, False, True):
        out.append(Scn(f"deepcoral_loss (assume_centered={c})", L("deepcoral_loss"), b_coral(c), p_coral, **q))
    mj = dict(MODELS)
    mj[torch.nn.CrossEntropyLoss] = CE
    for w in (False, True):
        for own in (False, True):
            out.append(Scn(f"deepjdot_loss ({'weights' if w else 'uniform'}{', own criterion' if own else ''})", L("deepjdot_loss"), b_jdot(w, own), p_jdot, models=mj))
    out.append(Scn("_gaussian_kernel", L("_gaussian_kernel"), b_gk, p_gk, **q))
    out.append(Scn("_maximum_mean_discrepancy", L("_maximum_mean_discrepancy"), b_mmd, p_mmd, **q))
    ck = {L("_gaussian_kernel"): c_kernel}
    for s in (True, False):
        out.append(Scn(f"dan_loss ({'sigmas' if s else 'median'})", L("dan_loss"), b_dan(s), p_dan, contracts=ck, **q))
        for K, none in ((1, False), (2, True)):
            out.append(Scn(f"cdd_loss ({K} classes, {'sigmas' if s else 'median'}{', no clear sample' if none else ''})", L("cdd_loss"), b_cdd(K, s, none), p_cdd, contracts={**ck, opt(DU, "SphericalKMeans.predict"): c_predict}, **q))
    out.append(Scn("cdd_loss (no clusters)", L("cdd_loss"), b_cdd_bad, refused(ValueError), expect=("raise:ValueError",), **q))
    out.append(Scn("mcc_loss", L("mcc_loss"), b_mcc, p_mcc, **q))
    for m in ("cos", "gauss", "euc"):
        out.append(Scn(f"_adj ({m})", L("_adj"), b_adj(m), p_adj, **q))
    out.append(Scn("_adj (unknown)", L("_adj"), b_adj("z"), refused(ValueError), expect=("raise:ValueError",), **q))
    for k in ("laplac1", "laplac2", "laplac3"):
        out.append(Scn(f"_laplacian ({k})", L("_laplacian"), b_lap(k), p_lap, **q))
    out.append(Scn("_laplacian (unknown)", L("_laplacian"), b_lap("z"), refused(ValueError), expect=("raise:ValueError",), **q))
    mg = dict(MODELS)
    mg[torch.linalg.svd], mg[torch.linalg.norm] = m_svd, m_norm
    out.append(Scn("gda_loss", L("gda_loss"), b_gda, p_gda, contracts={L("_adj"): c_adj, L("_laplacian"): c_lap}, models=mg))
    out.append(Scn("DANNLoss.forward", opt(DA, "DANNLoss.forward"), b_dann("DANNLoss", DA), p_dann, call=c_fwd, **q))
    out.append(Scn("CDANLoss.forward", opt(DA, "CDANLoss.forward"), b_dann("CDANLoss", DA), p_dann, call=c_fwd, **q))
    out.append(Scn("ModifiedCrossEntropyLoss.forward", opt(DA, "ModifiedCrossEntropyLoss.forward"), b_mce, p_mce, call=c_fwd, **q))
    out.append(Scn("MDDLoss.forward", opt(DA, "MDDLoss.forward"), b_mdd, p_mdd, call=c_fwd, **q))
    for cls, (mod, fn, _, _) in WRAP.items():
        out.append(Scn(f"{cls}.forward", opt(mod, cls + ".forward"), b_wrap(cls), p_wrap, call=c_fwd, models={**MODELS, opt(mod, fn): rec_loss(fn)}))
    out.append(Scn("SPALoss.forward", opt(DG, "SPALoss.forward"), b_spa, p_spa, call=c_fwd, models={**MODELS, opt(DG, "gda_loss"): rec_gda, opt(DG, "nap_loss"): rec_nap}))
    for back in (False, True):
        out.append(Scn("GradientReversalLayer." + ("backward" if back else "forward"), opt(DM, "GradientReversalLayer." + ("backward" if back else "forward")), b_rev(back), p_rev, **q))
    out.append(Scn("MemoryBank.on_batch_end", opt(DC, "MemoryBank.on_batch_end"), b_bank, p_bank, models={**MODELS, DC.to_tensor: torchmodel.to_tensor}))
    for m in ("on_train_begin", "on_epoch_begin"):
        out.append(Scn("CountEpochs." + m, opt(DC, "CountEpochs." + m), b_epochs(m), p_epochs, **q))
    KM = "SphericalKMeans."
    out.append(Scn(KM + "_compute_dissimilarity_matrix", opt(DU, KM + "_compute_dissimilarity_matrix"), b_dis(False), p_dis, **q))
    out.append(Scn(KM + "_compute_dissimilarity_loss", opt(DU, KM + "_compute_dissimilarity_loss"), b_dis(True), p_disloss, **q))
    out.append(Scn(KM + "predict", opt(DU, KM + "predict"), b_predict, p_predict, contracts={opt(DU, KM + "_compute_dissimilarity_matrix"): c_matrix}, **q))
    mk = {**MODELS, torch.norm: m_rownorm}
    cf = {opt(DU, KM + "_run_single_kmean"): c_single, opt(DU, KM + "_init_centroids"): c_init, opt(DU, "check_generator"): c_gen}
    for ni in (None, 1, 2, 3):
        out.append(Scn(KM + f"fit ({'given centroids' if ni is None else str(ni) + ' starts'})", opt(DU, KM + "fit"), b_fit(ni), p_fit, contracts=cf, models=mk))
    return out


# =========================================================== bounded: real runs
def T(a, dt=torch.float32):
    return torch.tensor(np.asarray(a), dtype=dt)


def N(t):
    return t.detach().numpy().astype(float) if isinstance(t, torch.Tensor) else float(t)


def close(key, got, want, tol=2e-3):
    same_arr(key, N(got), want, exact=False, tol=tol)


def soft(z):
    e = np.exp(z - z.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def cedist(logits, y):
    """cross entropy of every row with every label of y: (rows, labels)"""
    return -np.log(soft(logits))[:, y]


def dists(x, y):
    return np.sqrt(((x[:, None] - y[None]) ** 2).sum(-1))


def sig_of(p, x):
    if p["sigmas"] is not None:
        return np.asarray(p["sigmas"], float)
    d = np.sort(dists(x, x).ravel())
    return (d[(d.size - 1) // 2] + 1e-7) * 2.0 ** (-8 + .5 * np.arange(33))


def gk(x, y, s):
    return np.exp(-dists(x, y)[None] / s[:, None, None]).sum(0)


def F64(*arrs):
    return [np.asarray(a, float) for a in arrs]


def k_coral(p):
    x, y = F64(p["x"], p["y"])
    keep = T(x), T(y)
    got = must("coral", DL.deepcoral_loss, *keep, **({} if p["centered"] is None else dict(assume_centered=p["centered"])))
    c = lambda a: a if p["centered"] else a - a.mean(0)
    cv = [c(a).T @ c(a) / (len(a) - 1) for a in (x, y)]
    close("coral/definition", got, ((cv[0] - cv[1]) ** 2).sum() / (4 * x.shape[1] ** 2))
    close("coral/input-changed", keep[0], x, 1e-6)
    L = must("coral/module", DD.DeepCoralLoss, **({} if p["centered"] is None else dict(assume_centered=p["centered"])))
    close("coral/module", must("coral/module", L, **parts(features_s=keep[0], features_t=keep[1])), N(got))


def parts(**k):
    return {**{q: None for q in PARTS}, **k}


def k_jdot(p):
    x, y, yp = F64(p["x"], p["y"], p["yp"])
    ys = np.asarray(p["ys"], int)
    a, b = p["w"] if p["w"] is not None else (None, None)
    kw = {} if a is None else dict(sample_weights=T(a), target_sample_weights=T(b))
    got = must("jdot", DL.deepjdot_loss, T(ys, torch.int64), T(yp), T(x), T(y), p["rd"], p["rc"], **kw)
    M = p["rd"] * dists(x, y) ** 2 + p["rc"] * cedist(yp, ys).T
    u = lambda w, n: np.full(n, 1 / n) if w is None else np.asarray(w, float)
    close("jdot/definition", got, ot.emd2(u(a, len(x)), u(b, len(y)), M))
    if a is None:
        L = must("jdot/module", DO.DeepJDOTLoss, p["rd"], p["rc"])
        close("jdot/module", must("jdot/module", L, **parts(y_s=T(ys, torch.int64), y_pred_t=T(yp), features_s=T(x), features_t=T(y))), N(got))


def k_dan(p):
    x, y = F64(p["x"], p["y"])
    s = sig_of(p, x)
    got = must("dan", DL.dan_loss, T(x), T(y), **({} if p["sigmas"] is None else dict(sigmas=list(map(float, p["sigmas"])))))
    close("dan/definition", got, gk(x, x, s).mean() + gk(y, y, s).mean() - 2 * gk(x, y, s).mean())
    L = must("dan/module", DD.DANLoss, sigmas=None if p["sigmas"] is None else list(map(float, p["sigmas"])))
    close("dan/module", must("dan/module", L, **parts(features_s=T(x), features_t=T(y))), N(got))


def cosines(x, c):
    nz = lambda a: np.maximum(np.linalg.norm(a, axis=1, keepdims=True), 1e-8)
    return (x / nz(x)) @ (c / nz(c)).T


def k_cdd(p):
    x, y, cen = F64(p["x"], p["y"], p["centers"])
    ys = np.asarray(p["ys"], int)
    K = len(cen)
    km = DU.SphericalKMeans(n_clusters=K)
    km.cluster_centers_ = T(cen)
    cs = cosines(y, cen)
    d = .5 * (1 - cs)
    if np.abs(d.min(1) - p["th"]).min() < 1e-4 or (K > 1 and np.diff(np.sort(d, 1)[:, :2], axis=1).min() < 1e-4):
        raise Skip()
    kw = dict(distance_threshold=p["th"], class_threshold=p["ct"])
    sg = None if p["sigmas"] is None else list(map(float, p["sigmas"]))
    got = must("cdd", DL.cdd_loss, T(ys, torch.int64), T(x), T(y), km, sigmas=sg, **kw)
    s = sig_of(p, x)
    lab = d.argmin(1)
    keep = d.min(1) < p["th"]
    cnt = np.bincount(lab[keep], minlength=K)
    ok = cnt >= p["ct"]
    keep &= ok[lab]
    y, lab = y[keep], lab[keep]
    kss, ktt, kst = gk(x, x, s), gk(y, y, s), gk(x, y, s)
    m = lambda A, r, c: A[np.ix_(r, c)].mean() if r.any() and c.any() else 0.
    tot = [0., 0.]
    for a in range(K):
        for b in range(K):
            if ok[a] and ok[b]:
                r, c = ys == a, lab == b
                tot[a != b] += m(kss, r, r) + m(ktt, c, c) - 2 * m(kst, r, c)
    want = tot[0] / K - (tot[1] / (K * K - K) if K > 1 else 0)
    close("cdd/definition", got, want)
    L = must("cdd/module", DD.CANLoss, sigmas=sg, target_kmeans=km, **kw)
    close("cdd/module", must("cdd/module", L, **parts(y_s=T(ys, torch.int64), features_s=T(x), features_t=T(p["y"]))), N(got))


def k_mcc(p):
    z, = F64(p["z"])
    got = must("mcc", DL.mcc_loss, T(z), T=p["T"])
    q = soft(z / p["T"])
    H = -(q * np.log(q + 1e-7)).sum(1)
    w = 1 + np.exp(-H)
    w = w / w.mean()
    C = q.T @ (w[:, None] * q)
    C = C / C.sum(1, keepdims=True)
    close("mcc/definition", got, np.abs(C - np.diag(np.diag(C))).sum(1).mean())
    L = must("mcc/module", DCC.MCCLoss, p["T"])
    close("mcc/module", must("mcc/module", L, **parts(y_pred_t=T(z))), N(got))


def adjm(x, y, metric):
    if metric == "cos":
        return cosines(x, y)
    d = dists(x, y)
    return d if metric == "euc" else np.exp(-.5 * d ** 2 / 1.5 ** 2)


def lapm(A, kind):
    v = A.sum(1)
    if kind == "laplac1":
        return -np.diag(1 / (v + 1e-7)) @ A
    if kind == "laplac2":
        return np.diag(v) - A
    D = np.diag(1 / np.sqrt(v + 1e-7))
    return np.eye(len(A)) - D @ A @ D


def k_gda(p):
    x, y = F64(p["x"], p["y"])
    A = adjm(x, y, p["metric"])
    close("adj/definition", must("adj", DL._adj, T(x), T(y), p["metric"]), A)
    S_ = adjm(x, x, p["metric"]), adjm(y, y, p["metric"])
    if p["metric"] == "cos" and min(S_[0].sum(1).min(), S_[1].sum(1).min()) < .05:
        raise Skip()  # a degree near zero
    for a in S_:
        close("laplacian/definition", must("laplacian", DL._laplacian, T(a), p["laplac"]), lapm(a, p["laplac"]))
    got = must("gda", DL.gda_loss, T(x), T(y), metric=p["metric"], laplac=p["laplac"])
    sv = [np.linalg.svd(lapm(a, p["laplac"]), compute_uv=False) for a in S_]
    close("gda/definition", got, np.linalg.norm(sv[0] - sv[1]), 5e-3)


def napm(x, yp, mf, mo, ix, K):
    d = dists(x, mf) ** 2
    d[np.arange(len(x)), ix] = np.inf
    ds = np.sort(d, 1)
    if (ds[:, K] - ds[:, K - 1]).min() < 1e-4:
        raise Skip()  # which one is nearer is a matter of rounding
    nb = np.argsort(d, 1)[:, :K]
    w = np.stack([mo[q].sum(0) / K for q in nb])
    top = np.sort(w, 1)
    if w.shape[1] > 1 and (top[:, -1] - top[:, -2]).min() < 1e-4:
        raise Skip()
    v = np.take_along_axis(cedist(yp, np.arange(yp.shape[1])), w.argmax(1)[:, None], 1)[:, 0]
    return (w.max(1) * v).sum() / (w.max(1).sum() + 1e-7)


def bce(q, v):
    return -np.log(q if v else 1 - q).mean()


def k_spa(p):
    x, xt, yp, mf, mo, ps, pt = F64(p["x"], p["xt"], p["yp"], p["mf"], p["mo"], p["ps"], p["pt"])
    ix = np.asarray(p["ix"], int)
    K = p["K"]
    nap = napm(xt, yp, mf, mo, ix, K)
    m = T(mf), T(mo)
    got = must("nap", DL.nap_loss, T(xt), T(yp), *m, T(ix, torch.int64), K=K)
    close("nap/definition", got, nap)
    close("nap/memory-changed", m[0], mf, 1e-6)
    close("nap/memory-changed", m[1], mo, 1e-6)
    E, e = p["epochs"]
    L = must("spa/module", DG.SPALoss, max_epochs=E, memory_features=m[0], memory_outputs=m[1], K=K, reg_adv=p["ra"], reg_gsa=p["rg"], reg_nap=p["rn"])
    check("spa/epochs-start", L.n_epochs == 0, L.n_epochs)
    L.n_epochs = e
    got = must("spa/module", L, **parts(y_pred_t=T(yp), domain_pred_s=T(ps), domain_pred_t=T(pt), features_s=T(x), features_t=T(xt), sample_idx_t=T(ix, torch.int64)))
    adv = 2 / (1 + np.exp(-10 * e / E)) - 1
    sv = [np.linalg.svd(lapm(adjm(a, a, "gauss"), "laplac1"), compute_uv=False) for a in (x, xt)]
    want = p["ra"] * adv * (bce(ps, 0) + bce(pt, 1)) + p["rg"] * np.linalg.norm(sv[0] - sv[1]) + p["rn"] * e / E * nap
    close("spa/definition", got, want, 5e-3)


def k_adv(p):
    ps, pt, ys, yt, ds, dt = F64(p["ps"], p["pt"], p["ys"], p["yt"], p["ds"], p["dt"])
    want = bce(ps, 0) + bce(pt, 1)
    kw = parts(domain_pred_s=T(ps), domain_pred_t=T(pt), features_s=T(ds), features_t=T(dt))
    for cls in (DA.DANNLoss, DA.CDANLoss):
        close(cls.__name__ + "/definition", must(cls.__name__, lambda: cls()(**kw)), want)
        twice = lambda q, v: ((q - v) ** 2).sum()
        got = must(cls.__name__ + "/criterion", lambda: cls(domain_criterion=twice)(**kw))
        close(cls.__name__ + "/criterion", got, (ps ** 2).sum() + ((pt - 1) ** 2).sum())
    g = p["gamma"]
    got = must("mdd", lambda: DA.MDDLoss(gamma=g)(**parts(y_pred_s=T(ys), y_pred_t=T(yt), domain_pred_s=T(ds), domain_pred_t=T(dt))))
    n, m = len(ys), len(yt)
    if min(np.diff(np.sort(q, 1)[:, -2:], axis=1).min() for q in (ys, yt)) < 1e-4:
        raise Skip()
    a = -np.log(soft(ds))[np.arange(n), ys.argmax(1)].mean()
    q = .9 * soft(dt) + .1 / dt.shape[1]
    b = np.log(1 - q[np.arange(m), yt.argmax(1)]).mean()
    close("mdd/definition", got, g * a - b)
    sm = p["smoothing"]
    got = must("mce", lambda: DA.ModifiedCrossEntropyLoss(smoothing=sm)(T(dt), T(yt.argmax(1), torch.int64)))
    q = (1 - sm) * soft(dt) + sm / dt.shape[1]
    close("mce/definition", got, np.log(1 - q[np.arange(m), yt.argmax(1)]).mean())


def k_reversal(p):
    x, v = T(p["x"]).requires_grad_(), T(p["v"])
    for alpha in (p["alpha"], 0.0, 1):
        x.grad = None
        out = must("reversal", DM.GradientReversalLayer.apply, x, alpha)
        close("reversal/forward", out, N(x), 1e-6)
        must("reversal/backward", (out * v).sum().backward)
        close("reversal/backward", x.grad, -alpha * N(v), 1e-5)
    torch.manual_seed(p["seed"])
    K = p["K"]
    dc = must("classifier", DM.DomainClassifier, x.shape[1], n_classes=K, alpha=p["alpha"])
    dc.eval()
    out = must("classifier", dc, x)
    n = len(x)
    check("classifier/shape", tuple(out.shape) == ((n,) if K == 1 else (n, K)), tuple(out.shape))
    o = N(out)
    check("classifier/probabilities", (o >= 0).all() and (o <= 1).all(), o)
    if K > 1:
        close("classifier/probabilities", out.sum(1), np.ones(n), 1e-4)
    same_arr("classifier/independent-rows", N(must("classifier/one", dc, x[:1])), o[:1], exact=False, tol=1e-4)
    # against the classifier without the reversal
    u = T(np.asarray(p["u"])[:n] if K == 1 else np.tile(np.asarray(p["u"])[:n, None], K) * np.arange(1, K + 1))
    x.grad = None
    (out * u).sum().backward()
    got = N(x.grad)
    x2 = x.detach().clone().requires_grad_()
    (dc.classifier(x2).squeeze(-1) * u).sum().backward()
    close("classifier/reversed", torch.tensor(got), -p["alpha"] * N(x2.grad), 1e-4)


def skm(X, cen, it, tol):
    X = X / np.linalg.norm(X, axis=1, keepdims=True)
    for q in range(it):
        d = .5 * (1 - cosines(X, cen))
        if d.shape[1] > 1 and np.diff(np.sort(d, 1)[:, :2], axis=1).min() < 1e-5:
            raise Skip()
        lab = d.argmin(1)
        new = np.stack([X[lab == k].sum(0) for k in range(len(cen))])
        gap = np.abs(cen - new) - (tol + 1e-5 * np.abs(new))
        if np.abs(gap.max()) < 1e-6:
            raise Skip()
        if gap.max() <= 0:
            break
        cen = new
    return cen, q + 1, .5 * (1 - np.array([cosines(X[i:i + 1], cen[lab[i]][None])[0, 0] for i in range(len(X))])).sum()


def k_kmeans(p):
    X, init = F64(p["X"], p["init"])
    if np.linalg.norm(X, axis=1).min() < 1e-2 or np.linalg.norm(init, axis=1).min() < 1e-2:
        raise Skip()
    K = len(init)
    cen, n_it, inertia = skm(X, init, p["max_iter"], p["tol"])
    t0 = T(init)
    km = must("kmeans", lambda: DU.SphericalKMeans(n_clusters=K, initial_centroids=t0, max_iter=p["max_iter"], tol=p["tol"]).fit(T(X)))
    close("kmeans/initial-changed", t0, init, 1e-6)
    close("kmeans/centers", km.cluster_centers_, cen)
    check("kmeans/n_iter", km.n_iter_ == n_it, (km.n_iter_, n_it))
    close("kmeans/inertia", km.inertia_, inertia)
    Y, = F64(p["Y"])
    c = cosines(Y, cen)
    if K > 1 and np.diff(np.sort(c, 1)[:, -2:], axis=1).min() > 1e-4:
        same_arr("kmeans/predict", N(must("kmeans/predict", km.predict, T(Y))), c.argmax(1))
        same_arr("kmeans/predict-array", N(must("kmeans/predict", km.predict, Y.astype(np.float32))), c.argmax(1))
    # seeds
    def run(n_init, seed):
        return DU.SphericalKMeans(n_clusters=K, n_init=n_init, random_state=seed, max_iter=p["max_iter"]).fit(T(X))
    if len(X) < K:
        return
    torch.manual_seed(3)
    st = torch.random.get_rng_state()
    a, b = must("kmeans/seeded", run, 4, p["seed"]), must("kmeans/seeded", run, 4, p["seed"])
    check("kmeans/global-generator", torch.equal(st, torch.random.get_rng_state()), "drawn from the global generator in spite of random_state")
    close("kmeans/reproducible", a.cluster_centers_, N(b.cluster_centers_), 1e-6)
    best = None
    for q in (1, 2, 3, 4):
        r = must("kmeans/seeded", run, q, p["seed"])
        v = r.inertia_
        check("kmeans/best-of-inits", best is None or v <= best + 1e-5, (q, best, v))
        best = v
    for q, w in ((None, torch.random.default_generator), (torch.random, torch.random.default_generator)):
        check("generator/global", must("generator", DU.check_generator, q) is w, q)
    g = torch.Generator()
    check("generator/own", must("generator", DU.check_generator, g) is g)
    r1, r2 = (torch.rand(3, generator=must("generator", DU.check_generator, p["seed"])) for _ in range(2))
    check("generator/seed", torch.equal(r1, r2) and torch.equal(r1, torch.rand(3, generator=torch.Generator().manual_seed(p["seed"]))))


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def k_memory(p):
    import types

    n, mt, d, K, mom = p["n"], p["mt"], p["d"], p["K"], p["momentum"]
    r = np.random.RandomState(p["seed"])
    W, V = T(r.randn(d, 3)), T(r.randn(d, K))
    mf, mo = r.rand(mt, 3), soft(r.randn(mt, K))
    crit = NS(memory_features=T(mf), memory_outputs=T(mo))

    class M(torch.nn.Module):
        def forward(self, X, return_features=False):
            return (X @ V, X @ W) if return_features else X @ V

    net = NS(module_=M(), device="cpu", criterion__adapt_criterion=crit)
    sd = np.where(r.rand(n) < .5, -2, 1)
    sd[0] = -2
    nt = int((sd < 0).sum())
    if nt > mt:
        raise Skip()
    idx = r.randint(0, 50, n)
    idx[sd < 0] = r.permutation(mt)[:nt]
    X = r.randn(n, d)
    cb = must("memory", DC.MemoryBank, mom)
    must("memory/batch", cb.on_batch_end, net, ({"X": T(X), "sample_domain": torch.tensor(sd), "sample_idx": torch.tensor(idx)}, torch.tensor(sd)))
    f = X[sd < 0] @ N(W)
    f = f / np.linalg.norm(f, axis=1, keepdims=True)
    s = soft(X[sd < 0] @ N(V)) ** 2
    s = s / s.sum(0)
    k = idx[sd < 0]
    mf2, mo2 = mf.copy(), mo.copy()
    mf2[k] = (1 - mom) * mf[k] + mom * f
    mo2[k] = (1 - mom) * mo[k] + mom * s
    close("memory/features", crit.memory_features, mf2)
    close("memory/outputs", crit.memory_outputs, mo2)
    # epochs
    c2 = must("epochs", DC.CountEpochs)
    nn_ = NS(criterion__adapt_criterion=NS(n_epochs=17))
    for rep in range(2):
        must("epochs", c2.on_train_begin, nn_)
        for e in range(1, 4):
            must("epochs", c2.on_epoch_begin, nn_)
            check("epochs/count", nn_.criterion__adapt_criterion.n_epochs == e, (rep, e, nn_.criterion__adapt_criterion.n_epochs))


def k_callbacks(p):
    mod = DM.ToyModule2D(n_classes=2)
    class C(DC.Callback):
        pass
    mine = C()
    for f, kw, added in ((DD.CAN, {}, [DC.ComputeSourceCentroids]), (DG.SPA, dict(num_features=10), [DC.MemoryBank, DC.CountEpochs])):
        for given in (None, mine, [mine], []):
            keep = list(given) if isinstance(given, list) else None
            net = must("callbacks", lambda: f(module=mod, layer_name="dropout", callbacks=given, **kw))
            check("callbacks/list-changed", keep is None or given == keep, given)
            cbs = list(net.callbacks)
            own = [q for q in cbs if q is mine]
            check("callbacks/mine", len(own) == (given is not None and given != []), cbs)
            for a in added:
                check("callbacks/added", sum(isinstance(q, a) for q in cbs) == 1, cbs)
            check("callbacks/others", len(cbs) == len(own) + len(added), cbs)


def k_centroids(p):
    from skada.deep.base import DeepDADataset

    x, xt = F64(p["x"], p["y"])
    ys = np.asarray(p["ys"], int)
    K = len(np.unique(ys))
    if sorted(set(ys)) != list(range(K)):
        raise Skip()
    u = x / np.linalg.norm(x, axis=1, keepdims=True)
    cen = np.stack([u[ys == k].sum(0) for k in range(K)])
    if np.linalg.norm(cen, axis=1).min() < 1e-2:
        raise Skip()
    X = np.concatenate([x, xt]).astype(np.float32)
    sd = np.array([1] * len(x) + [-2] * len(xt))
    perm = np.random.RandomState(p["seed"]).permutation(len(X))
    y = np.concatenate([ys, -np.ones(len(xt), int)])
    want, _, _ = skm(xt, cen, 300, 1e-4)
    crit = NS(target_kmeans=None)
    net = NS(_prepare_input=lambda d: d, predict_features=lambda a: np.asarray(a, np.float32), device="cpu", criterion__adapt_criterion=crit)
    ds = DeepDADataset(X[perm], y[perm], sd[perm])
    must("centroids", DC.ComputeSourceCentroids().on_epoch_begin, net, dataset_train=ds)
    close("centroids/initial", crit.target_kmeans.initial_centroids, cen)
    close("centroids/clusters", crit.target_kmeans.cluster_centers_, want)


def k_defaults(p):
    """what the modules use when nothing is said"""
    bce_ = torch.nn.BCELoss
    check("defaults/DANN", isinstance(DA.DANNLoss().domain_criterion_, bce_))
    check("defaults/CDAN", isinstance(DA.CDANLoss().domain_criterion_, bce_))
    check("defaults/SPA", isinstance(DG.SPALoss(max_epochs=3).domain_criterion_, bce_))
    c = torch.nn.MSELoss()
    for q in (DA.DANNLoss(domain_criterion=c), DA.CDANLoss(domain_criterion=c), DG.SPALoss(max_epochs=3, domain_criterion=c)):
        check("defaults/own-criterion", q.domain_criterion_ is c, type(q).__name__)


KINDS = dict(coral=k_coral, jdot=k_jdot, dan=k_dan, cdd=k_cdd, mcc=k_mcc, gda=k_gda, spa=k_spa, adv=k_adv, reversal=k_reversal, kmeans=k_kmeans,
             memory=k_memory, callbacks=k_callbacks, centroids=k_centroids, defaults=k_defaults)


def cases(rng, tier):
    r = nprng(rng)
    G = lambda *s: np.round(r.randn(*s), 3)
    yield "callbacks", {}
    yield "defaults", {}
    for rep in range(20 if tier == "quick" else 400):
        n, m, d, K = rng.randint(2, 7), rng.randint(2, 7), rng.randint(1, 4), rng.randint(2, 4)
        sg = rng.choice([None, [0.5], [0.3, 1.0, 4.0]])
        x, y = G(n, d), G(m, d) + rng.choice([0, 1])
        yield "coral", dict(x=x, y=y, centered=rng.choice([None, False, True]))
        w = None
        if rng.random() < .5:
            a, b = r.rand(n) + .1, r.rand(m) + .1
            w = [a / a.sum(), b / b.sum()]
        yield "jdot", dict(x=x, y=y, ys=r.randint(0, K, n), yp=G(m, K), rd=rng.choice([1.0, .5, 0.0]), rc=rng.choice([1.0, 2.0, .1]), w=w)
        yield "dan", dict(x=x, y=y, sigmas=sg)
        d2 = rng.randint(2, 3)
        M = rng.randint(4, 12)
        for ct in (1, rng.choice([2, 3])):
            yield "cdd", dict(x=G(n, d2), y=G(M, d2), ys=r.randint(0, K, n), centers=G(rng.choice([1, K]), d2), th=rng.choice([.1, .5, .9]), ct=ct, sigmas=sg)
        yield "mcc", dict(z=G(n, K) * 2, T=rng.choice([1, .5, 2.5]))
        q = G(n, d)
        yield "gda", dict(x=q, y=G(n, d), metric=rng.choice(["cos", "gauss", "euc"]), laplac=rng.choice(["laplac1", "laplac2", "laplac3"]))
        mem = rng.randint(m + 2, m + 6)
        E = rng.randint(1, 20)
        yield "spa", dict(x=G(m, d), xt=G(m, d), yp=G(m, K), mf=G(mem, d), mo=np.round(soft(r.randn(mem, K)), 3), ps=np.round(r.uniform(.05, .95, n), 3), pt=np.round(r.uniform(.05, .95, m), 3),
                          ix=r.permutation(mem)[:m], K=rng.randint(1, min(5, mem - 1)), epochs=[E, rng.randint(0, E)], ra=rng.choice([1., .3]), rg=rng.choice([1., .7]), rn=rng.choice([1., 2.]))
        yield "adv", dict(ps=np.round(r.uniform(.05, .95, n), 3), pt=np.round(r.uniform(.05, .95, m), 3), ys=G(n, K), yt=G(m, K), ds=G(n, K), dt=G(m, K), gamma=rng.choice([4.0, 1.0, .5]), smoothing=rng.choice([.1, .3]))
        yield "reversal", dict(x=G(n, d), v=G(n, d), u=G(n), alpha=rng.choice([1.0, .5, 3.0]), K=rng.choice([1, 1, 2, 3]), seed=rng.randint(0, 999))
        yield "kmeans", dict(X=G(rng.randint(3, 12), d2), init=G(rng.choice([1, 2, 3]), d2), Y=G(5, d2), max_iter=rng.choice([1, 2, 300]), tol=rng.choice([1e-4, 1e-2]), seed=rng.randint(0, 999))
        yield "memory", dict(n=rng.randint(1, 8), mt=rng.randint(3, 9), d=rng.randint(1, 3), K=K, momentum=rng.choice([.5, .2, .9]), seed=rng.randint(0, 9999))
        q = G(rng.randint(4, 8), d2)
        yield "centroids", dict(x=q, y=G(rng.randint(3, 8), d2), ys=np.r_[0, 1, r.randint(0, 2, len(q) - 2)], seed=rng.randint(0, 999))
