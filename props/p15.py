"""P15: optimal-transport label propagation and joint-distribution OT."""
import warnings

import numpy as np
import ot
import scipy.optimize
from sklearn.base import BaseEstimator, clone
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.svm import SVC

import skada
import skada._ot as OT
import skada._utils as UT
from dv.prop import Scn, Violation, opt
from dv.spec import *
from dv.core import S, SArr, SMap, SSeq, ctx, z3, zi, R, RowSort, I as INT
from dv import npmodel
from props.p12 import witnesses, call_m
from props.util import *

ID = "P15"
LEVEL = "proof"

LOG = []
PRED = {k: z3.Function("est_" + k, RowSort, INT, R) for k in ("log_proba", "proba", "decision")}


class Est:
    """a fitted classifier: each output is a function of the sample only"""

    _dv_native = True

    def __init__(self, ncol, binary=False):
        self.ncol, self.binary = ncol, binary

    def _out(self, X, k):
        X = npmodel.lit(X)
        f, F = X.fn, PRED[k]
        if self.binary:
            return SArr((X.shape[0],), "f", lambda i: S(F(f(i).e, z3.IntVal(0))))
        return SArr((X.shape[0], self.ncol), "f", lambda i, c: S(F(f(i).e, c)))


class LogProba(Est):
    def predict_log_proba(self, X):
        return self._out(X, "log_proba")


class Proba(Est):
    def predict_proba(self, X):
        return self._out(X, "proba")


class Decision(Est):
    def decision_function(self, X):
        return self._out(X, "decision")


LOGF = None


def b_cost(kind):
    def b():
        n, m, C = length("n", 1), length("m", 1), (2 if kind == "binary" else length("C", 1))
        Y, X = matrix(n, C, "Y"), rows(m, name="X")
        e = {"none": None, "log_proba": LogProba(C), "proba": Proba(C), "hinge": Decision(C), "binary": Decision(C, True)}[kind]
        return (Y, X), dict(estimator=e, metric="hinge" if kind in ("hinge", "binary") else "multinomial"), dict(
            Y=Y.snapshot(), X=X.snapshot(), n=n, m=m, C=C, kind=kind)
    return b


def term(kind, y, x, c):
    """the documented loss of one class output, for the one-hot label y"""
    k = {"log_proba": "log_proba", "proba": "proba"}.get(kind, "decision")
    v = S(PRED[k](x.e, z3.IntVal(0) if kind == "binary" else c))
    if kind == "log_proba":
        return y * v
    if kind == "proba":
        return y * npmodel.MODELS[np.log](v + 1e-16)
    if kind == "binary":
        v = npmodel.ite(c == 0, -v, v)
    u = 1 - (2 * y - 1) * v
    return npmodel.ite((u > 0).e, u, npmodel.lit(0.0))


def p_cost(P, out, I):
    if out[0] == "raise":
        return P.fail("a supported estimator has a cost", repr(out[1]))
    M, kind, n, m = out[1], I["kind"], I["n"], I["m"]
    P("one cost per (source label, target sample)", And(S(zi(M.shape[0])) == n, S(zi(M.shape[1])) == m))
    i, j = fresh_int("i"), fresh_int("j")
    inr = And(i >= 0, i < n, j >= 0, j < m)
    if kind == "none":
        P("without estimator all costs are equal", Implies(inr, el2(M, zi(i), zi(j)) == 10))
        return
    Y, X = I["Y"].fn, I["X"].fn
    sign = -1 if "proba" in kind else 1
    if isinstance(I["C"], int):
        ref = sum(term(kind, Y(zi(i), z3.IntVal(c)), X(zi(j)), z3.IntVal(c)) for c in range(I["C"]))
    else:
        ref = npmodel.reduce_("sum", I["C"], lambda a, b, c: term(kind, Y(a, c), X(b), c), 2, "f")(zi(i), zi(j))
    P("each cost is the loss of that sample's outputs for that label", Implies(inr, el2(M, zi(i), zi(j)) == sign * ref))


def b_tgt(kind):
    def b():
        n, C = length("n", 1), (2 if kind == "binary" else length("C", 1))
        Y, X, w = matrix(n, C, "Y"), rows(n, name="X"), floats(n, "w")
        e = {"log_proba": LogProba(C), "proba": Proba(C), "hinge": Decision(C), "binary": Decision(C, True)}[kind]
        return (X, Y, w, e), dict(metric="hinge" if kind in ("hinge", "binary") else "multinomial"), dict(
            Y=Y.snapshot(), X=X.snapshot(), w=w.snapshot(), n=n, C=C, kind=kind)
    return b


def p_tgt(P, out, I):
    if out[0] == "raise":
        return P.fail("a supported estimator has a loss", repr(out[1]))
    kind, n, C = I["kind"], I["n"], I["C"]
    Y, X, w = I["Y"].fn, I["X"].fn, I["w"].fn
    sign = -1 if "proba" in kind else 1
    if isinstance(C, int):
        inner = lambda i: sum(term(kind, Y(i, z3.IntVal(c)), X(i), z3.IntVal(c)) for c in range(C))
    else:
        r = npmodel.reduce_("sum", C, lambda i, c: term(kind, Y(i, c), X(i), c), 1, "f")
        inner = lambda i: r(i)
    ref = npmodel.reduce_("sum", n, lambda i: sign * inner(i) * w(i), 0, "f")()
    P("the loss is the weighted sum of the samples' losses", S(zr(out[1])) == ref)


def zr(v):
    return npmodel.cast(npmodel.lit(v), "f").e


def b_data():
    n, C = length("n", 1), length("C", 1)
    X, Y, labels = rows(n, name="X"), matrix(n, C, "Y"), ints(C, "labels")
    thr = S(ctx().fresh("f", "thr"))
    return (X, Y, labels), dict(thr_weights=thr), dict(X=X.snapshot(), Y=Y.snapshot(), labels=labels.snapshot(), n=n, C=C, thr=thr)


def p_data(P, out, I):
    if out[0] == "raise":
        return P.fail("weighted samples are built", repr(out[1]))
    Xh, yh, wh = out[1]
    n, C, X, Y, labels = I["n"], I["C"], I["X"], I["Y"], I["labels"]
    m = ln(Xh)
    P("aligned", And(ln(yh) == m, ln(wh) == m))
    mx = npmodel.extremum(Y, "max")
    bound = I["thr"] * mx
    k, i, c, k2 = fresh_int("k"), fresh_int("i"), fresh_int("c"), fresh_int("k2")
    t = tag(el(Xh, k))
    q = iv("q")
    inr = And(k >= 0, k < m)
    P("every sample kept is a target sample with one of the labels and that label's weight",
      Implies(inr, S(z3.Exists([q], z3.And(0 <= q, q < zi(C), zi(t) >= 0, zi(t) < zi(n), el(Xh, k).e == X.fn(zi(t)).e,
                                           el(yh, k).e == labels.fn(q).e, el(wh, k).e == Y.fn(zi(t), q).e, (el(wh, k) > bound).e)))))
    r, g = npmodel.grid(n, C)
    pos = ctx().memo[("grid", z3.simplify(zi(C)).sexpr(), z3.simplify(zi(n)).sexpr())][2]
    e = iv("e")
    P("every (sample, label) above the threshold is kept",
      Implies(And(i >= 0, i < n, c >= 0, c < C, S(Y.fn(zi(i), zi(c)).e) > bound, S(pos(zi(i), zi(c))) >= 0),
              S(z3.Exists([e], z3.And(0 <= e, e < zi(m), el(Xh, S(e)).e == X.fn(zi(i)).e, el(yh, S(e)).e == labels.fn(zi(c)).e, el(wh, S(e)).e == Y.fn(zi(i), zi(c)).e)))))
    P("in sample order", Implies(And(inr, k2 > k, k2 < m), tag(el(Xh, k2)) >= t))


# ----------------------------------------------------------- JDOT estimators
SENT = object()


def c_solve(name):
    def c(it, *a, **k):
        LOG.append((name, a, k))
        return "est", "l1", "l2", "sol"
    return c


def b_jdot(cls, weights, dom=True):
    def b():
        LOG.clear()
        n = length("n", 1)
        X, sd, y = rows(n, name="X"), ints(n, "sd"), floats(n, "y")
        w = floats(n, "w") if weights else None
        witnesses(n, sd, True, True)
        kw = dict(alpha=S(ctx().fresh("f", "alpha")), n_iter_max=length("it", 1), tol=S(ctx().fresh("f", "tol")), verbose=False)
        if cls == "JDOTClassifier":
            kw.update(metric="hinge", thr_weights=S(ctx().fresh("f", "thr")))
        base = LinearRegression() if cls == "JDOTRegressor" else LogisticRegression()
        a = getattr(OT, cls)(base_estimator=base, extra=SENT, **kw)
        return (a, X, y), dict(sample_domain=sd, sample_weight=w), dict(
            a=a, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot(), w=None if w is None else w.snapshot(), kw=dict(kw, extra=SENT), base=base)
    return b


def p_jdot(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are fitted", repr(out[1]))
    a = I["a"]
    P("fit returns the estimator", out[1] is a)
    P("one problem is solved", len(LOG) == 1)
    _, pos, kw = LOG[0]
    import inspect
    f = OT.solve_jdot_regression if isinstance(a, OT.JDOTRegressor) else OT.solve_jdot_classification
    b = inspect.signature(f).bind(*pos, **kw)
    b.apply_defaults()
    g = dict(b.arguments)
    g.update(g.pop("kwargs"))
    P("with the base estimator", g["base_estimator"] is I["base"])
    s, t = (lambda i: el(I["sd"], i) >= 0), (lambda i: el(I["sd"], i) < 0)
    ws = [(g["ws"], I["w"])] if I["w"] is not None else []
    wt = [(g["wt"], I["w"])] if I["w"] is not None else []
    prove_selection(P, "source samples, labels and weights", g["Xs"], I["X"], s, [(g["ys"], I["y"])] + ws)
    prove_selection(P, "target samples and weights", g["Xt"], I["X"], t, wt)
    if I["w"] is None:
        P("no weights", g["ws"] is None and g["wt"] is None)
    for k, v in I["kw"].items():
        P(f"{k} is passed on", g[k] is v)
    P("results are kept", (a.estimator_, a.lst_loss_ot_, a.lst_loss_tgt_labels_, a.sol_) == ("est", "l1", "l2", "sol"))


class Fitted:
    _dv_native = True
    _dv_sym = True

    def predict(self, X):
        return ("predict", X)

    def predict_proba(self, X):
        return ("predict_proba", X)

    def score(self, X, y, sample_weight=None):
        return ("score", X, y, sample_weight)


def b_pred(cls, m, dom):
    def b():
        n = length("n", 1)
        X, sd, y, w = rows(n, name="X"), ints(n, "sd"), floats(n, "y"), floats(n, "w")
        a = getattr(OT, cls)(LinearRegression() if cls == "JDOTRegressor" else LogisticRegression())
        a.estimator_ = Fitted()
        args = (a, X) + ((y,) if m == "score" else ())
        kw = dict(sample_domain=sd) if dom else {}
        if m == "score":
            kw["sample_weight"] = w
        return args, kw, dict(X=X, y=y, w=w, m=m, a=a)
    return b


def p_pred(P, out, I):
    if out[0] == "raise":
        return P.fail("samples are predicted", repr(out[1]))
    m = I["m"]
    r = out[1]
    P("the fitted target estimator answers for the samples given", r[0] == m and r[1] is I["X"])
    if m == "score":
        P("with their labels and weights", r[2] is I["y"] and r[3] is I["w"])


# ------------------------------------------------------- OT label propagation
def m_dist(X1, X2=None, metric="sqeuclidean", **kw):
    X1, X2 = npmodel.lit(X1), npmodel.lit(X2)
    M = matrix(X1.shape[0], X2.shape[0], "M")
    LOG.append(("dist", X1, X2, metric, M))
    return M


class Sol:
    _dv_native = True
    _dv_sym = True


def m_otsolve(M, a=None, b=None, reg=None, **kw):
    s = Sol()
    s.plan = matrix(M.shape[0], M.shape[1], "G")
    s.value = S(ctx().fresh("f", "value"))
    LOG.append(("solve", M, npmodel.lit(a), npmodel.lit(b), reg, kw, s))
    return s


def m_unif(n, **kw):
    return npmodel.ones((n,)) / n


def c_ytype(t):
    def c(it, y):
        return UT.Y_Type.DISCRETE if t == "discrete" else UT.Y_Type.CONTINUOUS
    return c


def b_prop(t, weights):
    def b():
        LOG.clear()
        n = length("n", 1)
        X, sd = rows(n, name="X"), ints(n, "sd")
        y = ints(n, "y") if t == "discrete" else floats(n, "y")
        w = floats(n, "w") if weights else None
        witnesses(n, sd, True, True)
        a = OT.OTLabelPropAdapter(metric=(m := "a metric"), reg=(r := S(ctx().fresh("f", "reg"))), n_iter_max=(it := length("it", 1)))
        return (a, X, y), dict(sample_domain=sd, sample_weight=w), dict(
            a=a, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot(), w=w, wv=None if w is None else w.snapshot(), t=t, n=n, metric=m, reg=r, it=it)
    return b


def p_prop(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are given labels", repr(out[1]))
    Xo, yo, d = out[1]
    n, X, y, sd = I["n"], I["X"], I["y"], I["sd"]
    i = fresh_int("i")
    ini = And(i >= 0, i < n)
    P("samples are unchanged", And(ln(Xo) == n, Implies(ini, Same(el(Xo, i), el(X, i)))))
    D = [e for e in LOG if e[0] == "dist"]
    SO = [e for e in LOG if e[0] == "solve"]
    P("one cost matrix, one transport problem", len(D) == 1 and len(SO) == 1 and SO[0][1] is D[0][4])
    _, Xs, Xt, metric, M = D[0]
    P("with the metric, regularisation and iterations given", metric is I["metric"] and SO[0][4] is I["reg"] and SO[0][5] == dict(max_iter=I["it"]))
    prove_selection(P, "from the source samples", Xs, X, lambda q: el(sd, q) >= 0)
    prove_selection(P, "to the target samples", Xt, X, lambda q: el(sd, q) < 0)
    a, b, G = SO[0][2], SO[0][3], SO[0][6].plan
    ns, nt = ln(Xs), ln(Xt)
    P("weights of as many samples", And(ln(a) == ns, ln(b) == nt))
    k, j = fresh_int("k"), fresh_int("j")
    ink, inj = And(k >= 0, k < ns), And(j >= 0, j < nt)
    if I["w"] is None:
        P("uniform source weights", Implies(ink, el(a, k) * npmodel.cast(ns, "f") == 1))
        P("uniform target weights", Implies(inj, el(b, j) * npmodel.cast(nt, "f") == 1))
        P("no weights are passed on", d == {})
    else:
        wf = I["wv"].fn
        for v, rs, m_, q, nm in ((a, Xs, ns, k, "source"), (b, Xt, nt, j, "target")):
            sel = lambda u, rs=rs: wf(tag(S(rs.fn(u).e)).e)
            tot = npmodel.reduce_("sum", m_, sel, 0, "f")()
            P(f"{nm} weights are the samples' weights, normalised",
              Implies(And(q >= 0, q < m_), el(v, q) == sel(zi(q)) / tot))
        P("the weights given are passed on", set(d) == {"sample_weight"} and d["sample_weight"] is I["w"])
    # labels
    P("a label for each sample", ln(yo) == n)
    src = And(ini, el(sd, i) >= 0)
    tgt = And(ini, el(sd, i) < 0)
    if I["t"] == "discrete":
        P("source labels are masked", Implies(src, el(yo, i) == -1))
    else:
        P("source labels are masked", Implies(src, S(el(yo, i).isnan()) if hasattr(S, "isnan") else Same(el(yo, i), npmodel.lit(float("nan")))))
    ys = lambda u: y.fn(tag(S(Xs.fn(u).e)).e)
    q = iv("q")
    tj = tag(S(Xt.fn(zi(j)).e))
    if I["t"] == "discrete":
        yh, cl = I["a"].yht_continuous_, I["a"].classes_
        nc = ln(cl)
        c = fresh_int("c")
        ref = npmodel.reduce_("sum", ns, lambda jj, cc, u: npmodel.ite((ys(u) == S(cl.fn(cc).e)).e, S(G.fn(u, jj).e), npmodel.lit(0.0)), 2, "f")
        P("the mass of each class that reaches the sample", Implies(And(inj, c >= 0, c < nc), el2(yh, zi(j), zi(c)) == ref(zi(j), zi(c))))
        P("each target sample is given the class most of its mass comes from",
          Implies(inj, S(z3.Exists([q], z3.And(0 <= q, q < zi(nc), el(yo, tj).e == cl.fn(q).e,
                                               (S(yh.fn(zi(j), q).e) >= el2(yh, zi(j), zi(c))).e)))) if False else
          Implies(And(inj, c >= 0, c < nc), S(z3.Exists([q], z3.And(0 <= q, q < zi(nc), el(yo, tj).e == cl.fn(q).e, yh.fn(zi(j), q).e >= yh.fn(zi(j), zi(c)).e)))))
        u = iv("u")
        P("the classes are those of the source labels", Implies(And(c >= 0, c < nc), S(z3.Exists([u], z3.And(0 <= u, u < zi(ns), ys(u).e == cl.fn(zi(c)).e)))))
    else:
        ref = npmodel.reduce_("sum", ns, lambda jj, u: S(G.fn(u, jj).e) * ys(u), 1, "f")
        P("each target sample is given the weighted mean of the labels transported to it", Implies(inj, el(yo, tj) == ref(zi(j)) / el(b, j)))


# --------------------------------------------- alternating solvers, unrolled
class Learner:
    """a supervised estimator: what it predicts after each fit is arbitrary"""

    _dv_native = True
    _dv_sym = True

    def __init__(self, parent=None):
        self.parent, self.k = parent, -1

    def fit(self, X, y, **kw):
        self.k = len([e for e in LOG if e[0] == "fit"])
        LOG.append(("fit", self, npmodel.lit(X), npmodel.lit(y), kw))
        return self

    def predict(self, X):
        X = npmodel.lit(X)
        out = floats(X.shape[0], "pred")
        LOG.append(("predict", self, X, out, self.k))
        return out


class Encoder:
    _dv_native = True
    _dv_sym = True

    def __init__(self, sparse_output=True, **kw):
        self.sparse = sparse_output

    def fit_transform(self, y):
        y = npmodel.lit(y)
        self.y = y
        cl = npmodel.unique(SArr((y.shape[0],), y.k, lambda i: y.fn(i, z3.IntVal(0))))
        self.categories_ = [cl]
        return self.transform(y)

    def transform(self, y):
        y = npmodel.lit(y)
        f, g = y.fn, self.categories_[0].fn
        return SArr((y.shape[0], self.categories_[0].shape[0]), "f",
                    lambda i, c: npmodel.ite((S(f(i, z3.IntVal(0)).e) == S(g(c).e)).e, npmodel.lit(1.0), npmodel.lit(0.0)))


def c_costm(it, Ys, Xt, estimator=None, metric="multinomial"):
    Ys, Xt = npmodel.lit(Ys), npmodel.lit(Xt)
    M = matrix(Ys.shape[0], Xt.shape[0], "Ml")
    LOG.append(("cost", Ys, Xt, estimator, metric, M, estimator.k if estimator is not None else None))
    return M


def c_datah(it, Xt, Yth, labels, thr_weights=1e-6):
    h = length("h", 1)
    out = rows(h, name="Xh"), ints(h, "yh"), floats(h, "wh")
    LOG.append(("data", npmodel.lit(Xt), npmodel.lit(Yth), npmodel.lit(labels), thr_weights, out))
    return out


def c_tgtloss(it, Xh, yh, wh, estimator, metric="multinomial"):
    v = S(ctx().fresh("f", "loss"))
    LOG.append(("tgt", Xh, npmodel.lit(yh), wh, estimator, metric, v))
    return v


def b_solve(kind, weights, iters):
    def b():
        LOG.clear()
        n, m = length("n", 1), length("m", 1)
        Xs, Xt = rows(n, name="Xs"), rows(m, name="Xt")
        ys = floats(n, "ys") if kind == "regression" else ints(n, "ys")
        ws, wt = (floats(n, "ws"), floats(m, "wt")) if weights else (None, None)
        al, tol = S(ctx().fresh("f", "alpha")), S(ctx().fresh("f", "tol"))
        base, kw = Learner(), dict(alpha=al, ws=ws, wt=wt, n_iter_max=iters, tol=tol, extra="extra")
        if kind != "regression":
            kw.update(metric="a metric", thr_weights=0.125)
        return (base, Xs, ys, Xt), kw, dict(
            base=base, Xs=Xs.snapshot(), ys=ys.snapshot(), Xt=Xt.snapshot(), ws=None if ws is None else ws.snapshot(),
            wt=None if wt is None else wt.snapshot(), alpha=al, tol=tol, n=n, m=m, iters=iters, kind=kind, wt_=wt)
    return b


def rows_are(P, name, A, B, n):
    i = fresh_int("i")
    P(name, And(ln(A) == n, Implies(And(i >= 0, i < n), Same(el(A, i), el(B, i)))))


def p_solve(P, out, I):
    if out[0] == "raise":
        return P.fail("problems of this kind are solved", repr(out[1]))
    est, lo, lt, sol = out[1]
    n, m, al, reg = I["n"], I["m"], I["alpha"], I["kind"] == "regression"
    by = lambda k: [e for e in LOG if e[0] == k]
    solves, fits, dists = by("solve"), by("fit"), by("dist")
    K = len(solves)
    P("the result is a clone, refitted at every iteration", est is not I["base"] and est.parent is I["base"] and I["base"].k == -1
      and len(fits) == K and all(f[1] is est for f in fits) and 1 <= K <= I["iters"])
    P("one loss each per iteration", len(lo) == K and len(lt) == K and sol is solves[-1][6])
    D = dists[0]
    rows_are(P, "feature costs from the source samples", D[1], I["Xs"], n)
    rows_are(P, "feature costs to the target samples", D[2], I["Xt"], m)
    P("squared Euclidean costs", D[3] == "sqeuclidean")
    Mf = D[4]
    i, j, c = fresh_int("i"), fresh_int("j"), fresh_int("c")
    ini, inj = And(i >= 0, i < n), And(j >= 0, j < m)
    mean = npmodel.mean_(Mf)
    fn_, fm = npmodel.cast(n, "f"), npmodel.cast(m, "f")
    sums = [None if w is None else npmodel.sum_(w) for w in (I["ws"], I["wt"])]
    wgt = lambda w, s, q, cnt: 1 / cnt if w is None else el(w, q) / s
    preds = by("predict")
    for k in range(K):
        _, M, a, b, r, kw, sl = solves[k]
        P(f"iteration {k}: unregularised transport", r is None and not kw)
        P(f"iteration {k}: source weights, normalised", And(ln(a) == n, Implies(ini, el(a, i) == wgt(I["ws"], sums[0], i, fn_))))
        P(f"iteration {k}: target weights, normalised", And(ln(b) == m, Implies(inj, el(b, j) == wgt(I["wt"], sums[1], j, fm))))
        base = (1 - al) * (el2(Mf, zi(i), zi(j)) / mean)
        if k == 0:
            ref = base
        elif reg:
            # label costs between the source labels and what the last fit predicts
            d = dists[1 + k]
            pr = [e for e in preds if e[4] == k - 1][-1]
            P(f"iteration {k}: label costs of the source labels", And(ln(d[1]) == n, Implies(ini, el2(d[1], zi(i), z3.IntVal(0)) == el(I["ys"], i))))
            P(f"iteration {k}: with the last fit's predictions of the target samples",
              And(ln(d[2]) == m, Implies(inj, el2(d[2], zi(j), z3.IntVal(0)) == el(pr[3], j))) if d[3] == "sqeuclidean" else False)
            rows_are(P, f"iteration {k}: predictions are for the target samples", pr[2], I["Xt"], m)
            ref = base + al * el2(d[4], zi(i), zi(j))
        else:
            q = by("cost")[k]
            P(f"iteration {k}: label costs of the last fit, with the metric asked for", q[3] is est and q[6] == k - 1 and q[4] == "a metric")
            cl = q[1]
            rows_are(P, f"iteration {k}: label costs at the target samples", q[2], I["Xt"], m)
            ref = base + al * el2(q[5], zi(i), zi(j))
        P(f"iteration {k}: joint cost (1 - alpha) features + alpha labels", Implies(And(ini, inj), el2(M, zi(i), zi(j)) == ref))
        T = sl.plan
        F = fits[k]
        if reg:
            ys = I["ys"].fn
            tr = npmodel.reduce_("sum", n, lambda q, u: ys(u) * S(T.fn(u, q).e), 1, "f")
            rows_are(P, f"iteration {k}: fitted on the target samples", F[2], I["Xt"], m)
            P(f"iteration {k}: with the labels transported to each", And(ln(F[3]) == m, Implies(inj, el(F[3], j) == tr(zi(j)) / el(b, j))))
            ok = set(F[4]) == {"extra"} | ({"sample_weight"} if I["wt"] is not None else set())
            P(f"iteration {k}: fit parameters are passed on", ok and F[4]["extra"] == "extra")
            if I["wt"] is not None and ok:
                P(f"iteration {k}: with the target weights", F[4]["sample_weight"] is I["wt_"])
        else:
            d = by("data")[k]
            rows_are(P, f"iteration {k}: training samples are built from the target samples", d[1], I["Xt"], m)
            ys, lab = I["ys"].fn, d[3]
            nc = ln(lab)
            tr = npmodel.reduce_("sum", n, lambda q, cc, u: S(T.fn(u, q).e) * npmodel.ite((S(ys(u).e) == S(lab.fn(cc).e)).e, npmodel.lit(1.0), npmodel.lit(0.0)), 2, "f")
            P(f"iteration {k}: with the class mass transported to each",
              And(S(zi(d[2].shape[0])) == m, S(zi(d[2].shape[1])) == nc,
                  Implies(And(inj, c >= 0, c < nc), el2(d[2], zi(j), zi(c)) == tr(zi(j), zi(c)) * fm)))
            P(f"iteration {k}: above the threshold given", d[4] == 0.125)
            Xh, yh, wh = d[5]
            P(f"iteration {k}: fitted on them", F[2].base is Xh or F[2] is Xh)
            P(f"iteration {k}: fit parameters and weights", set(F[4]) == {"extra", "sample_weight"} and F[4]["sample_weight"] is wh and F[3] is yh)
            t = by("tgt")[k]
            P(f"iteration {k}: loss of the fit", t[1] is Xh and t[3] is wh and t[4] is est and t[5] == "a metric" and t[6] is not None)
    # stops early only when one of the losses is stable
    if K < I["iters"]:
        near = lambda l: npmodel.MODELS[np.abs](S(zr(l[-1])) - S(zr(l[-2]))) < I["tol"]
        P("stops early only when the loss is stable", Or(near(lo), near(lt)) if K > 1 else False)


def m_clone(e, **kw):
    return Learner(e)


def scenarios():
    out = []
    f, g = opt(OT, "get_jdot_class_cost_matrix"), opt(OT, "get_tgt_loss_jdot_class")
    for k in ("none", "log_proba", "proba", "hinge", "binary"):
        out.append(Scn(f"get_jdot_class_cost_matrix ({k})", f, b_cost(k), p_cost))
        if k != "none":
            out.append(Scn(f"get_tgt_loss_jdot_class ({k})", g, b_tgt(k), p_tgt))
    out.append(Scn("get_data_jdot_class", opt(OT, "get_data_jdot_class"), b_data, p_data))
    con = {OT.solve_jdot_regression: c_solve("regression"), OT.solve_jdot_classification: c_solve("classification")}
    for cls in ("JDOTRegressor", "JDOTClassifier"):
        for w in (False, True):
            out.append(Scn(f"{cls}.fit ({'weights' if w else 'no weights'})", opt(OT, f"{cls}.fit"), b_jdot(cls, w), p_jdot, contracts=con, call=call_m("fit")))
        for m in ("predict", "score") + (("predict_proba",) if cls == "JDOTClassifier" else ()):
            for dom in (False, True):
                out.append(Scn(f"{cls}.{m} ({'domains given' if dom else 'no domains'})", opt(OT, f"{cls}.{m}"), b_pred(cls, m, dom), p_pred, call=call_m(m)))
    cs = {OT.get_jdot_class_cost_matrix: c_costm, OT.get_data_jdot_class: c_datah, OT.get_tgt_loss_jdot_class: c_tgtloss}
    for kind in ("regression", "classification"):
        for w in (False, True):
            out.append(Scn(f"solve_jdot_{kind} ({'weights' if w else 'no weights'}; 3 iterations, bounded)", opt(OT, f"solve_jdot_{kind}"), b_solve(kind, w, 3), p_solve,
                           models={ot.dist: m_dist, ot.solve: m_otsolve, OT.clone: m_clone, OT.OneHotEncoder: Encoder}, contracts=cs))
    for t in ("discrete", "continuous"):
        for w in (False, True):
            out.append(Scn(f"OTLabelPropAdapter.fit_transform ({t}, {'weights' if w else 'no weights'})", opt(OT, "OTLabelPropAdapter.fit_transform"),
                           b_prop(t, w), p_prop, call=call_m("fit_transform"),
                           models={ot.dist: m_dist, ot.solve: m_otsolve, ot.unif: m_unif}, contracts={UT._find_y_type: c_ytype(t)}))
    return out


# ------------------------------------------------------------ runtime (bounded)
def plan(M, a, b):
    """optimal plan by linear programming"""
    n, m = M.shape
    A = np.concatenate([np.kron(np.eye(n), np.ones(m)), np.kron(np.ones(n), np.eye(m))])
    r = scipy.optimize.linprog(M.ravel(), A_eq=A, b_eq=np.r_[a, b], method="highs")
    if r.status != 0:
        raise Skip("linear program")
    return r.x.reshape(n, m)


def sq(A, B):
    return ((A[:, None] - B[None]) ** 2).sum(-1)


def frame(key, before, after):
    for i, (u, v) in enumerate(zip(before, after)):
        if u is not None:
            same_arr(f"{key}/frame/{i}", v, u)


def cp(*a):
    return [None if x is None else np.array(x) for x in a]


def k_prop(p):
    quiet()
    X, y, sd, w, metric = (p[k] for k in ("X", "y", "sd", "w", "metric"))
    c = cp(X, y, sd, w)
    a = skada.OTLabelPropAdapter(metric=metric)
    Xo, yo, d = must("prop/fit_transform", a.fit_transform, X, y, sample_domain=sd, sample_weight=w)
    s, t = sd >= 0, sd < 0
    ws, wt = (np.full(k.sum(), 1 / k.sum()) if w is None else w[k] / w[k].sum() for k in (s, t))
    M = sq(X[s], X[t]) if metric == "sqeuclidean" else np.abs(X[s][:, None] - X[t][None]).sum(-1)
    G = plan(M.astype(float), ws, wt)
    same_arr("prop/X", Xo, c[0])
    cost = (np.asarray(a.G_) * M).sum()
    check("prop/optimal", abs(cost - (G * M).sum()) <= 1e-6 * (1 + cost), (cost, (G * M).sum()))
    G = np.asarray(a.G_)
    same_arr("prop/marginal/source", G.sum(1), ws, exact=False, tol=1e-8)
    same_arr("prop/marginal/target", G.sum(0), wt, exact=False, tol=1e-8)
    yo = np.asarray(yo, float)
    if p["cont"]:
        check("prop/masked", np.isnan(yo[s]).all(), yo[s])
        same_arr("prop/value", yo[t], G.T @ y[s] / wt, exact=False, tol=1e-7)
    else:
        check("prop/masked", (yo[s] == -1).all(), yo[s])
        cl = np.unique(y[s])
        mass = np.stack([G[y[s] == k].sum(0) for k in cl], 1)
        check("prop/label/known", np.isin(yo[t], cl).all(), yo[t])
        got = mass[np.arange(t.sum()), np.searchsorted(cl, yo[t])]
        check("prop/label/heaviest", (got >= mass.max(1) - 1e-9).all(), (yo[t].tolist(), mass.tolist()))
    check("prop/weights", (set(d) == set()) if w is None else (set(d) == {"sample_weight"} and np.array_equal(d["sample_weight"], c[3])), d)
    frame("prop", c, (X, y, sd, w))


def k_jcpot(p):
    quiet()
    X, y, sd = (p[k] for k in ("X", "y", "sd"))
    c = cp(X, y, sd)
    a = skada.JCPOTLabelPropAdapter(reg=p["reg"], max_iter=10)
    Xo, yo, d = must("jcpot/fit_transform", a.fit_transform, X, y, sample_domain=sd)
    same_arr("jcpot/X", Xo, c[0])
    src = [k for k in np.unique(sd) if k >= 0]
    t = sd < 0
    cl = np.unique(y[~t])
    Xs, ys = [X[sd == k] for k in src], [np.searchsorted(cl, y[sd == k]) for k in src]
    if len(src) == 1:
        Xs, ys = Xs * 2, ys * 2
    T = ot.da.JCPOTTransport(reg_e=p["reg"], max_iter=10, tol=1e-9, log=True).fit(Xs=Xs, ys=ys, Xt=X[t])
    mass = np.asarray(T.transform_labels(ys))
    check("jcpot/masked", (np.asarray(yo)[~t] == -1).all(), yo)
    yt = np.asarray(yo)[t]
    check("jcpot/label/known", np.isin(yt, cl).all(), (yt.tolist(), cl.tolist()))
    got = mass[np.arange(t.sum()), np.searchsorted(cl, yt)]
    check("jcpot/label", (got >= mass.max(1) - 1e-6 * (1e-12 + mass.max())).all(), (yt.tolist(), cl[mass.argmax(1)].tolist()))
    frame("jcpot", c, (X, y, sd))


def k_reg(p):
    quiet()
    X, y, sd, w, al, it = (p[k] for k in ("X", "y", "sd", "w", "alpha", "it"))
    c = cp(X, y, sd, w)
    base = Ridge(alpha=.1)
    a = skada.JDOTRegressor(base, alpha=al, n_iter_max=it, tol=1e-12)
    r = must("jdot-reg/fit", a.fit, X, y, sd, sample_weight=w)
    check("jdot-reg/self", r is a, type(r))
    check("jdot-reg/base untouched", not hasattr(base, "coef_"))
    s, t = sd >= 0, sd < 0
    ws, wt = (np.full(k.sum(), 1 / k.sum()) if w is None else w[k] / w[k].sum() for k in (s, t))
    Mf = sq(X[s], X[t])
    Mf = Mf / Mf.mean()
    M, e = (1 - al) * Mf, None
    for i in range(it):
        G = ot.solve(M, ws, wt).plan
        if i == it - 1:
            check("jdot-reg/optimal", ((np.asarray(a.sol_.plan) * M).sum() - (G * M).sum()) <= 1e-7 * (1 + np.abs(M).max()), i)
        e = Ridge(alpha=.1).fit(X[t], y[s] @ G / wt, sample_weight=None if w is None else w[t])
        M = (1 - al) * Mf + al * (y[s][:, None] - e.predict(X[t])[None]) ** 2
    if len(a.lst_loss_ot_) == it:
        same_arr("jdot-reg/predict", must("jdot-reg/predict", a.predict, p["Xn"]), e.predict(p["Xn"]), exact=False, tol=1e-5)
    frame("jdot-reg", c, (X, y, sd, w))


def k_cls(p):
    quiet()
    X, y, sd, w, al, it, metric = (p[k] for k in ("X", "y", "sd", "w", "alpha", "it", "metric"))
    c = cp(X, y, sd, w)
    mk = (lambda: LogisticRegression()) if metric == "multinomial" else (lambda: SVC(kernel="linear", decision_function_shape="ovr"))
    base = mk()
    a = skada.JDOTClassifier(base, alpha=al, n_iter_max=it, tol=1e-12, metric=metric)
    r = must("jdot-cls/fit", a.fit, X, y, sd, sample_weight=w)
    check("jdot-cls/self", r is a, type(r))
    check("jdot-cls/base untouched", not hasattr(base, "classes_"))
    s, t = sd >= 0, sd < 0
    ws, wt = (np.full(k.sum(), 1 / k.sum()) if w is None else w[k] / w[k].sum() for k in (s, t))
    cl = np.unique(y[s])
    Y = (y[s][:, None] == cl).astype(float)
    Mf = sq(X[s], X[t])
    Mf = Mf / Mf.mean()
    M, nt = (1 - al) * Mf, t.sum()
    for i in range(it):
        G = ot.solve(M, ws, wt).plan
        if i == it - 1:
            got = (np.asarray(a.sol_.plan) * M).sum()
            check("jdot-cls/optimal", abs(got - (G * M).sum()) <= 1e-4 * (1 + np.abs(M).max()), (i, got, (G * M).sum()))
        H = (G.T @ Y) * nt
        k, q = np.nonzero(H > 1e-6 * H.max())
        e = mk().fit(X[t][k], cl[q], sample_weight=H[k, q])
        if metric == "multinomial":
            M = (1 - al) * Mf - al * (Y @ e.predict_log_proba(X[t]).T)
        else:
            f = e.decision_function(X[t])
            f = np.stack([-f, f], 1) if f.ndim == 1 else f
            M = (1 - al) * Mf + al * np.maximum(0, 1 - (2 * Y - 1)[:, None] * f[None]).sum(2)
    if len(a.lst_loss_ot_) == it:
        z = lambda m: getattr(m, "decision_function")(p["Xn"])
        same_arr("jdot-cls/decision", z(a.estimator_), z(e), exact=False, tol=1e-3)
        same_arr("jdot-cls/predict", must("jdot-cls/predict", a.predict, p["Xn"]), a.estimator_.predict(p["Xn"]))
    frame("jdot-cls", c, (X, y, sd, w))


KINDS = dict(prop=k_prop, jcpot=k_jcpot, reg=k_reg, cls=k_cls)


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(30 if tier == "quick" else 300):
        n, m, d = rng.randint(6, 14), rng.randint(5, 12), rng.randint(1, 3)
        pool = rng.choice([([1], [-2]), ([0, 2], [-1, -3]), ([1, 2], [-2, -3]), ([5], [-7, -1])])
        sd = np.r_[np.resize(pool[0], n), np.resize(pool[1], m)]
        N = len(sd)
        cl = np.array(rng.choice([[0, 1], [0, 1, 2], [3, 7], [1, 2, 5]]))
        y = cl[(np.arange(N) // len(pool[0])) % len(cl)]
        X = r.randn(N, d) + np.searchsorted(cl, y)[:, None] * 1.5 + np.where(sd < 0, .5, 0)[:, None]
        yr = X @ r.randn(d) + .1 * r.randn(N)
        o = r.permutation(N) if rng.random() < .8 else np.arange(N)
        X, y, sd, yr = X[o], y[o], sd[o], yr[o]
        w = rng.choice([None, r.rand(N) + .1])
        ym, yrm = np.where(sd >= 0, y, -1), np.where(sd >= 0, yr, np.nan)
        cont = rng.random() < .4
        yield "prop", dict(X=X, y=yr if cont else ym, sd=sd, w=w, metric=rng.choice(["sqeuclidean", "cityblock"]), cont=cont)
        if all(set(y[sd == k]) == set(cl) for k in pool[0]):
            yield "jcpot", dict(X=X, y=ym, sd=sd, reg=rng.choice([1, 5]))
        b = dict(X=X, sd=sd, w=w, alpha=rng.choice([.1, .5, .9]), it=rng.randint(1, 4), Xn=r.randn(4, d))
        yield "reg", dict(b, y=np.where(sd >= 0, yr, 0.))
        yield "cls", dict(b, y=ym, metric=rng.choice(["multinomial", "hinge"]), it=rng.randint(1, 3))
