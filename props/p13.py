"""P13: second-order alignment (CORAL, Gaussian Monge maps) is the documented
linear map of each sample, at its own position."""
import numpy as np
from ot.gaussian import bures_wasserstein_barycenter, bures_wasserstein_mapping
from sklearn.covariance import empirical_covariance, ledoit_wolf, shrunk_covariance
from sklearn.preprocessing import StandardScaler

import skada
import skada._mapping as MP
import skada._utils as UT
import skada.utils as U
from dv.prop import Scn, Violation, opt
from dv.spec import *
from dv.core import S, SArr, SMap, SSeq, ctx, z3, zi, R, RowSort, I as INT
from dv import npmodel
from dv.npmodel import OpMat, OpVec
from props import contracts
from props.p12 import witnesses
from props.util import *

ID = "P13"
LEVEL = "proof"

LOG = []


def roles(I):
    """which recorded means/covariances are of the source, which of the target"""
    c = ctx()
    sd = I["sd"]

    def role(X):
        k = iv("k")
        inr = z3.And(0 <= k, k < zi(X.shape[0]))
        t = tag(S(X.fn(k).e))
        for r, f in (("source", lambda v: v >= 0), ("target", lambda v: v < 0)):
            if c.entails(z3.Implies(inr, zb(f(el(sd, t))))):
                return r
        return "other"
    return role


def zb(x):
    return x.e if isinstance(x, S) else x


# ---------------------------------------------------------------------- CORAL
def m_mean(a, axis=None, keepdims=False, **kw):
    a = npmodel.lit(a)
    if isinstance(a, SArr) and a.rows:
        if axis != 0 or keepdims:
            raise npmodel.Unsupported("mean of opaque rows")
        LOG.append(("mean", a))
        return OpVec(("mean", len(LOG) - 1))
    return npmodel.mean_(a, axis, keepdims)


def c_cov(it, X, shrinkage, assume_centered=False):
    LOG.append(("cov", npmodel.lit(X), shrinkage, assume_centered))
    return OpMat(("cov", len(LOG) - 1))


def c_sqrt(it, C):
    return OpMat(("sqrt",) + C.key)


def c_isqrt(it, C):
    return OpMat(("isqrt",) + C.key)


def b_coral(centered, has_s=True, has_t=True):
    def b():
        LOG.clear()
        n, m, d = length("n", 1), length("m", 1), length("d", 1)
        X, sd = rows(n, d, name="X"), ints(n, "sd")
        witnesses(n, sd, True, True)
        X2, sd2 = rows(m, d, name="X2"), ints(m, "sd2")
        witnesses(m, sd2, has_s, has_t)
        a = MP.CORALAdapter(reg=npmodel_reg(), assume_centered=centered)
        return (a, X, X2), dict(sd=sd, sd2=sd2), dict(a=a, n=n, X=X.snapshot(), sd=sd.snapshot(), m=m, X2=X2.snapshot(), sd2=sd2.snapshot(), centered=centered)
    return b


class Reg:
    _dv_native = True


REG = Reg()


def npmodel_reg():
    return REG


def call_coral(it, a, X, X2, sd, sd2):
    it.call(a.fit, (X,), dict(sample_domain=sd))
    return it.call(a.transform, (X2,), dict(sample_domain=sd2, allow_source=True))


def call_coral_ft(it, a, X, X2, sd, sd2):
    return it.call(a.fit_transform, (X,), dict(sample_domain=sd))


def p_coral(ft=False):
    def p(P, out, I):
        if out[0] == "raise":
            return P.fail("accepted samples are adapted", repr(out[1]))
        role = roles(I)
        ids = {}
        for q, e in enumerate(LOG):
            r = role(e[1])
            ids[(e[0], r)] = q
            prove_selection(P, f"{e[0]} of the {r} samples", e[1], I["X"],
                            (lambda i: el(I["sd"], i) >= 0) if r == "source" else (lambda i: el(I["sd"], i) < 0))
            P("means and covariances are of source or target samples", r != "other")
            if e[0] == "cov":
                P("covariances use the regularisation and centring asked for", e[2] is REG and e[3] is I["centered"])
        P("both covariances are estimated", ("cov", "source") in ids and ("cov", "target") in ids)
        X, sd, n = (I["X"], I["sd"], I["n"]) if ft else (I["X2"], I["sd2"], I["m"])
        r = out[1]
        P("one row per sample", ln(r) == n)
        i = fresh_int("i")
        x = el(X, i)
        s = t = x
        if not I["centered"]:
            if ("mean", "source") not in ids or ("mean", "target") not in ids:
                return P.fail("both sides are centred by their own mean", str(ids))
            s = npmodel.row_op(x, OpVec(("mean", ids["mean", "source"])), "-")
            t = npmodel.row_op(x, OpVec(("mean", ids["mean", "target"])), "-")
        s = npmodel.row_matmul(s, OpMat(("isqrt", ("cov", ids["cov", "source"])), ("sqrt", ("cov", ids["cov", "target"]))))
        P("source samples are centred by the source mean, whitened by the source covariance, coloured by the target covariance",
          Implies(And(i >= 0, i < n, el(sd, i) >= 0), Same(el(r, i), s)))
        P("target samples are centred by the target mean", Implies(And(i >= 0, i < n, el(sd, i) < 0), Same(el(r, i), t)))
    return p


# ----------------------------------------------------------- matrix functions
def m_eigh(C, UPLO="L"):
    """spectral theorem (assumed of numpy.linalg.eigh): C = V diag(w) V'"""
    C = npmodel.lit(C)
    d = C.shape[0]
    w, V = floats(d, "eigval"), matrix(d, d, "eigvec")
    npmodel.note("numpy.linalg.eigh")
    LOG.append((C, w, V))
    k = iv("k")
    return w, V


def b_sqrt():
    LOG.clear()
    d = length("d", 1)
    C = matrix(d, d, "C")
    return (C,), {}, dict(C=C.snapshot(), d=d)


def p_sqrt(inverse):
    def p(P, out, I):
        if out[0] == "raise":
            return P.fail("defined for every covariance", repr(out[1]))
        r, d = out[1], I["d"]
        C, w, V = LOG[0]
        P("one eigendecomposition, of the matrix given", len(LOG) == 1 and arr_same(C, I["C"]))
        sq = npmodel.uf1("sqrt", npmodel._ax_sqrt)
        ref = npmodel.matmul(
            SArr((d, d), "f", lambda i, k: (V.fn(i, k) / sq(w.fn(k))) if inverse else V.fn(i, k) * sq(w.fn(k))),
            npmodel.transpose(V))
        assume_forall(d, lambda k: el(w, k) > 0)
        i, j = fresh_int("i"), fresh_int("j")
        P("the result is V diag(w^%s1/2) V' in the eigenbasis" % ("-" if inverse else ""),
          Implies(And(i >= 0, i < d, j >= 0, j < d), el2(r, zi(i), zi(j)) == el2(ref, zi(i), zi(j))))
    return p


# --------------------------------------------------------------- covariances
class M:
    """opaque matrix value of a covariance estimator"""

    _dv_native = True

    def __init__(self, *what):
        self.what = what


def m_emp(X, *, assume_centered=False):
    return M("emp", X, assume_centered)


def m_lw(X, *, assume_centered=False, block_size=1000):
    return matrix(X.shape[1], X.shape[1], "lw"), 0.5


def m_shr(C, shrinkage=0.1):
    return M("shrunk", C, shrinkage)


def b_est(kind, centered):
    def b():
        n, d = length("n", 1), length("d", 1)
        X = rows(n, d)
        s = {"none": None, "number": 0.25}[kind]
        return (X,), dict(shrinkage=s, assume_centered=centered), dict(X=X, kind=kind, s=s, c=centered)
    return b


def p_est(P, out, I):
    if out[0] == "raise":
        return P.fail("defined for every shrinkage", repr(out[1]))
    e = out[1]
    if I["kind"] == "number":
        P("the empirical covariance is shrunk by the number given", e.what[0] == "shrunk" and e.what[2] == I["s"])
        e = e.what[1]
    P("the empirical covariance of the samples, centred as asked", e.what[0] == "emp" and e.what[1] is I["X"] and e.what[2] is I["c"])


# ------------------------------------------------------- multi-domain Monge map
def c_gcm(it, X, w=None, bias=True):
    X = npmodel.lit(X)
    if w is not None:
        raise npmodel.Unsupported("weights")
    fr = ctx().loopstack[-1] if ctx().loopstack else None
    LOG.append(("gcm", X, bias, fr))
    t = tag(S(X.fn(z3.IntVal(0)).e))
    return OpMat(("cov", t)), OpVec(("mean", t))


class Stack:
    _dv_native = True

    def __init__(self, seq):
        self.seq = seq


def m_stack(seq, axis=0, **kw):
    it = seq.item(z3.Int("probe!")) if isinstance(seq, SSeq) else None
    if isinstance(it, OpVec):
        return Stack(seq)
    return npmodel.stack(seq, axis, **kw)


def m_bary(m, C, weights=None, method="fixed_point", num_iter=1000, eps=1e-7, log=False, nx=None):
    LOG.append(("bary", m, C, weights))
    return OpVec(("bmean",)), OpMat(("bcov",))


def m_bmap(ms, mt, Cs, Ct, log=False):
    ok = (type(ms) is OpVec and type(Cs) is OpMat and mt == OpVec(("bmean",)) and Ct == OpMat(("bcov",)) and ms.key[0] == "mean"
          and Cs.key[0][0] == "cov")
    LOG.append(("map", ok))
    return OpMat(("A", Cs.key[0][1], ms.key[1])), OpVec(("b", Cs.key[0][1], ms.key[1]))


def lemma(P, name, e):
    if P(name, e):
        assume(e)


def b_multi():
    LOG.clear()
    n, d = length("n", 1), length("d", 1)
    X, sd = rows(n, d, name="X"), ints(n, "sd")
    witnesses(n, sd, True, True)
    a = MP.MultiLinearMongeAlignmentAdapter(bias=(BIAS := Reg()))
    return (a, X), dict(sample_domain=sd), dict(a=a, n=n, X=X.snapshot(), sd=sd.snapshot(), bias=BIAS)


def call_multi(it, a, X, sample_domain):
    return it.call(a.fit_transform, (X,), dict(sample_domain=sample_domain))


def p_multi(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are aligned", repr(out[1]))
    r, n, X, sd = out[1], I["n"], I["X"], I["sd"]
    P("one row per sample", ln(r) == n)
    for e in LOG:
        if e[0] == "gcm":
            P("moments are estimated with the bias option given", e[2] is I["bias"])
            k, u = fresh_int("k"), fresh_int("u")
            Z = e[1]
            t = lambda k: tag(S(Z.fn(zi(k)).e))
            dom = And(S(e[3].j) >= 0, S(e[3].j) < S(zi(e[3].n))) if e[3] is not None else True
            P("moments are taken of samples of one domain", Implies(And(dom, k >= 0, k < ln(Z)), And(
                t(k) >= 0, t(k) < n, Same(el(Z, k), el(X, t(k))), el(sd, t(k)) == el(sd, t(0)))))
            P("each at most once", Implies(And(dom, k >= 0, u > k, u < ln(Z)), t(k) < t(u)))
            P("and of all of them", Implies(And(dom, u >= 0, u < n, ln(Z) > 0, el(sd, u) == el(sd, t(0))),
                                            exists_idx(ln(Z), lambda q: t(q) == u)))
        if e[0] == "map":
            P("each map sends a domain's own moments to the barycenter's", e[1])
    i, t = fresh_int("i"), fresh_int("t")
    assume(And(i >= 0, i < n, t >= 0, t <= i, el(sd, t) == el(sd, i)))
    assume_forall(t, lambda u: el(sd, u) != el(sd, i))
    for q, m in enumerate(ctx().memo["domain_maps"]):
        g = m.ghost
        first = S(g["sel"](g["dom"](i.e), z3.IntVal(0)))
        lemma(P, f"lemma: the domain's first sample (index {q})", Implies(S(g["keep"](el(sd, i).e)), And(first == t, S(g["key"](g["dom"](i.e))) == el(sd, i))))
    x = el(X, i)
    ref = npmodel.row_op(npmodel.row_matmul(x, OpMat(("A", t, t))), OpVec(("b", t, t)), "+")
    P("each sample is moved by the map of its own domain", Same(el(r, i), ref))


# ------------------------------------------------------------- mean and covariance
def b_gcm(bias, weighted):
    def b():
        n, d = length("n", 1), length("d", 1)
        X = matrix(n, d, "X")
        w = floats(n, "w") if weighted else None
        if weighted:
            assume_forall(n, lambda i: el(w, i) > 0)
        return (X,), dict(w=w, bias=bias), dict(X=X.snapshot(), w=w.snapshot() if weighted else None, n=n, d=d, bias=bias)
    return b


def m_average(a, axis=None, weights=None, **kw):
    a, w = npmodel.lit(a), npmodel.lit(weights)
    if axis != 0 or w.ndim != 1:
        raise npmodel.Unsupported("average")
    return npmodel.matmul(w, a) / npmodel.sum_(w)


def p_gcm(P, out, I):
    if out[0] == "raise":
        return P.fail("moments of all samples", repr(out[1]))
    cov, mean = out[1]
    X, n, d = I["X"], I["n"], I["d"]
    w = I["w"] if I["w"] is not None else SArr((n,), "f", lambda i: S(z3.RealVal(1)))
    tot = npmodel.sum_(w)
    mref = npmodel.matmul(w, X) / tot if I["bias"] else SArr((d,), "f", lambda j: S(z3.RealVal(0)))
    j, k = fresh_int("j"), fresh_int("k")
    inj = And(j >= 0, j < d, k >= 0, k < d)
    P("the mean is the weighted mean, zero without bias", Implies(inj, el(mean, j) == el(mref, j)))
    Z = SArr((n, d), "f", lambda i, j: X.fn(i, j) - mref.fn(j))
    cref = npmodel.matmul(SArr((d, n), "f", lambda j, i: w.fn(i) * Z.fn(i, j)), Z)
    P("the covariance is the weighted second moment about that mean",
      Implies(inj, el2(cov, zi(j), zi(k)) == el2(cref, zi(j), zi(k)) / tot))


def scenarios():
    C = lambda m: opt(MP, f"CORALAdapter.{m}")
    K = dict(models={np.mean: m_mean}, contracts={UT._estimate_covariance: c_cov, MP._sqrtm: c_sqrt, MP._invsqrtm: c_isqrt})
    MM = dict(models={np.mean: m_mean, np.stack: m_stack, bures_wasserstein_barycenter: m_bary, bures_wasserstein_mapping: m_bmap},
              contracts={MP._get_cov_mean: c_gcm, U.extract_domains_indices: contracts.c_extract_domains_eager})
    return [
        Scn("CORAL.fit_transform", C("fit_transform"), b_coral(False), p_coral(True), call=call_coral_ft, **K),
        Scn("CORAL.fit_transform (centred data)", C("fit_transform"), b_coral(True), p_coral(True), call=call_coral_ft, **K),
        Scn("CORAL.transform (new data)", C("transform"), b_coral(False), p_coral(), call=call_coral, **K),
        Scn("CORAL.transform (new data, centred)", C("transform"), b_coral(True), p_coral(), call=call_coral, **K),
        Scn("CORAL.transform (target only)", C("transform"), b_coral(False, False, True), p_coral(), call=call_coral, **K),
        Scn("CORAL.transform (source only)", C("transform"), b_coral(False, True, False), p_coral(), call=call_coral, **K),
        Scn("_sqrtm", opt(MP, "_sqrtm"), b_sqrt, p_sqrt(False), models={np.linalg.eigh: m_eigh}),
        Scn("_invsqrtm", opt(MP, "_invsqrtm"), b_sqrt, p_sqrt(True), models={np.linalg.eigh: m_eigh}),
        *[Scn(f"_estimate_covariance ({k}, centred={c})", opt(UT, "_estimate_covariance"), b_est(k, c), p_est,
              models={empirical_covariance: m_emp, shrunk_covariance: m_shr}) for k in ("none", "number") for c in (False, True)],
        *[Scn(f"_get_cov_mean (bias={b}, weights={w})", opt(MP, "_get_cov_mean"), b_gcm(b, w), p_gcm, models={np.average: m_average})
          for b in (True, False) for w in (True, False)],
        Scn("MultiLinearMonge.fit_transform", opt(MP, "MultiLinearMongeAlignmentAdapter.fit_transform"), b_multi, p_multi, call=call_multi, timeout_ms=30000, **MM),
    ]


# ------------------------------------------------------------- runtime contract
def cov_ref(X, reg, centered):
    m = X.mean(0)
    Z = X if centered else X - m
    if reg == "auto":
        sc = X.std(0)
        sc = np.where(sc == 0, 1, sc)
        Z = Z / sc
        return sc[:, None] * ledoit_wolf(Z, assume_centered=True)[0] * sc[None]
    C = Z.T @ Z / len(X)
    if reg is None:
        return C
    return (1 - reg) * C + reg * np.trace(C) / len(C) * np.eye(len(C))


def power(C, e):
    w, V = np.linalg.eigh(C)
    return (V * w**e) @ V.T


def quiet():
    import warnings

    warnings.simplefilter("ignore")


def k_coral(p):
    quiet()
    X, y, sd, reg, cen, Xn, sn = (p[k] for k in ("X", "y", "sd", "reg", "cen", "Xn", "sn"))
    src = sd >= 0
    a = skada.CORALAdapter(reg=reg, assume_centered=cen)
    c = [X.copy(), sd.copy(), Xn.copy()]
    out = must("coral/fit_transform", a.fit_transform, X, y, sample_domain=sd)
    check("coral/shape", np.shape(out) == X.shape, np.shape(out))
    Xs, Xt = X[src].astype(float), X[~src].astype(float)
    ms, mt = (0, 0) if cen else (Xs.mean(0), Xt.mean(0))
    Cs, Ct = cov_ref(Xs, reg, cen), cov_ref(Xt, reg, cen)
    A = power(Cs, -.5) @ power(Ct, .5)
    tol = 1e-6
    same_arr("coral/target", out[~src], Xt - mt, exact=False, tol=tol)
    same_arr("coral/source", out[src], (Xs - ms) @ A, exact=False, tol=tol)
    o2 = must("coral/transform/new", a.transform, Xn, sample_domain=sn, allow_source=True)
    s = sn >= 0
    same_arr("coral/new/source", o2[s], (Xn[s] - ms) @ A, exact=False, tol=tol)
    same_arr("coral/new/target", o2[~s], Xn[~s] - mt, exact=False, tol=tol)
    if (~s).any():
        same_arr("coral/new/target-only", must("coral/transform/target", a.transform, Xn[~s], sample_domain=sn[~s]), Xn[~s] - mt, exact=False, tol=tol)
        same_arr("coral/new/no-domains", must("coral/transform/nodom", a.transform, Xn[~s]), Xn[~s] - mt, exact=False, tol=tol)
    if s.any():
        same_arr("coral/new/source-only", must("coral/transform/source", a.transform, Xn[s], sample_domain=sn[s], allow_source=True),
                 (Xn[s] - ms) @ A, exact=False, tol=tol)
    for nm, u, v in zip(("X", "sample_domain", "Xn"), (X, sd, Xn), c):
        same_arr(f"coral/frame/{nm}", u, v)
    X3 = X * 2 + 1
    same_arr("coral/refit", must("coral/refit", a.fit_transform, X3, y, sample_domain=sd),
             skada.CORALAdapter(reg=reg, assume_centered=cen).fit_transform(X3, y, sample_domain=sd), exact=False, tol=tol)


def k_monge(p):
    quiet()
    X, y, sd, bias, Xn, sn = (p[k] for k in ("X", "y", "sd", "bias", "Xn", "sn"))
    a = skada.MultiLinearMongeAlignmentAdapter(bias=bias)
    c = [X.copy(), sd.copy(), Xn.copy()]
    out = must("monge/fit_transform", a.fit_transform, X, y, sample_domain=sd)
    check("monge/shape", np.shape(out) == X.shape, np.shape(out))
    maps, mo = {}, {}
    for k in np.unique(sd):
        Z = X[sd == k].astype(float)
        m = Z.mean(0) if bias else np.zeros(X.shape[1])
        mo[k] = ((Z - m).T @ (Z - m) / len(Z), m)
    ks = [k for k in mo if k >= 0]
    bm, bc = bures_wasserstein_barycenter(np.stack([mo[k][1] for k in ks]), np.stack([mo[k][0] for k in ks]), eps=1e-8)
    for k in mo:
        maps[k] = bures_wasserstein_mapping(mo[k][1], bm, mo[k][0], bc)
        o = out[sd == k]
        same_arr("monge/value", o, X[sd == k] @ maps[k][0] + maps[k][1], exact=False, tol=1e-5)
        # documented meaning: every domain ends up with the barycenter's moments
        m = o.mean(0) if bias else np.zeros(X.shape[1])
        same_arr("monge/mean", m, bm if bias else m, exact=False, tol=1e-5)
        same_arr("monge/covariance", (o - m).T @ (o - m) / len(o), bc, exact=False, tol=1e-3 * (1 + np.abs(bc).max()))
    o2 = must("monge/transform/new", a.transform, Xn, sample_domain=sn, allow_source=True)
    for k in np.unique(sn):
        same_arr("monge/new", o2[sn == k], Xn[sn == k] @ maps[k][0] + maps[k][1], exact=False, tol=1e-5)
    for nm, u, v in zip(("X", "sample_domain", "Xn"), (X, sd, Xn), c):
        same_arr(f"monge/frame/{nm}", u, v)
    X3 = X * 2 + 1
    same_arr("monge/refit", must("monge/refit", a.fit_transform, X3, y, sample_domain=sd),
             skada.MultiLinearMongeAlignmentAdapter(bias=bias).fit_transform(X3, y, sample_domain=sd), exact=False, tol=1e-6)


def k_cov(p):
    quiet()
    X, w, bias, reg, cen = p["X"], p["w"], p["bias"], p["reg"], p["cen"]
    ww = np.ones(len(X)) if w is None else w
    m = (ww @ X) / ww.sum() if bias else np.zeros(X.shape[1])
    C = ((X - m) * ww[:, None]).T @ (X - m) / ww.sum()
    c, mm = must("cov/_get_cov_mean", MP._get_cov_mean, X, w, bias=bias)
    same_arr("cov/mean", mm, m, exact=False)
    same_arr("cov/cov", c, C, exact=False)
    E = must("cov/estimate", UT._estimate_covariance, X, shrinkage=reg, assume_centered=cen)
    same_arr("cov/shrunk", E, cov_ref(X, reg, cen), exact=False, tol=1e-7)
    P_ = E + 1e-3 * np.eye(len(E))
    q = must("cov/sqrt", MP._sqrtm, P_)
    same_arr("cov/sqrt/square", q @ q, P_, exact=False, tol=1e-7)
    i = must("cov/invsqrt", MP._invsqrtm, P_)
    same_arr("cov/invsqrt/inverse", i @ q, np.eye(len(E)), exact=False, tol=1e-6)


KINDS = dict(coral=k_coral, monge=k_monge, cov=k_cov)


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(60 if tier == "quick" else 500):
        n, m, d = rng.randint(6, 20), rng.randint(6, 20), rng.randint(1, 3)
        pool = rng.choice([([1], [-2]), ([0, 2], [-1]), ([1, 2], [-2, -3]), ([0, 1, 4], [-7])])
        sd = np.r_[np.resize(pool[0], n), np.resize(pool[1], m)]
        while min(np.unique(sd, return_counts=True)[1]) < d + 2:
            sd = np.r_[sd, pool[0], pool[1]]
        N = len(sd)
        X = r.randn(N, d) @ (np.eye(d) + .3 * r.randn(d, d)) * np.where(sd >= 0, 1, 2)[:, None] + sd[:, None] * .3
        if rng.random() < .25:
            X = np.round(X * 5).astype(int)
        y = np.where(sd >= 0, np.arange(N) % 2, -1)
        o = r.permutation(N)
        X, y, sd = X[o], y[o], sd[o]
        k = rng.randint(1, 8)
        Xn, sn = r.randn(k, d), r.choice(pool[0] + pool[1], k)
        if X.dtype.kind == "i":
            Xn = np.round(Xn * 4).astype(int)
        if not (sn < 0).any():
            Xn, sn = X[::-1], sd[::-1]
        reg = rng.choice(["auto", .1, .5] + ([None] if np.linalg.cond(np.cov(X.T).reshape(d, d)) < 1e4 and X.dtype.kind == "f" else []))
        cen = rng.random() < .4
        if min(abs(np.linalg.eigvalsh(cov_ref(Z.astype(float), reg, cen))).min() for Z in (X[sd >= 0], X[sd < 0])) > 1e-3:
            yield "coral", dict(X=X, y=y, sd=sd, Xn=Xn, sn=sn, reg=reg, cen=cen)
        if all(np.linalg.eigvalsh(np.cov(X[sd == k].T).reshape(d, d)).min() > 1e-2 for k in set(sd.tolist())):
            yield "monge", dict(X=X, y=y, sd=sd, Xn=Xn, sn=sn, bias=rng.random() < .7)
        Xf = X.astype(float)
        yield "cov", dict(X=Xf, w=rng.choice([None, r.rand(N) + .1]), bias=rng.random() < .5, reg=rng.choice(["auto", None, .2, 1.]), cen=cen)
