"""P18: every scorer is its formula over the target samples' predictions (and what
it may see of the source), and never reads the labels of target samples."""
from types import SimpleNamespace

import numpy as np
import scipy.special
import sklearn.metrics
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.model_selection import train_test_split
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity, KNeighborsClassifier
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.tree import DecisionTreeClassifier

import skada
import skada.metrics as ME
import skada.utils as U
from dv.prop import Scn, Violation, Skip, opt
from dv.spec import *
from dv.core import S, SArr, ctx, z3, zi, R, RowSort, I as INT, POW, B
from dv import npmodel
from props.p12 import witnesses, call_m
from props.util import *

ID = "P18"
LEVEL = "proof"

LOG = []
PRED = z3.Function("sc_pred", INT, RowSort, INT)
PROBA = z3.Function("sc_proba", RowSort, INT, R)
LPROBA = z3.Function("sc_lproba", RowSort, INT, R)
LOGIT = z3.Function("sc_logit", RowSort, INT, R)
DENS = z3.Function("sc_dens", INT, RowSort, R)
FEAT = z3.Function("sc_feat", INT, RowSort, RowSort)
DOM = z3.Function("sc_dom", RowSort, INT, R)
LOSS = z3.Function("sc_loss", INT, RowSort, R)
ENC = z3.Function("sc_enc", INT, INT)
DEC = z3.Function("sc_dec", INT, INT)
NEGINF = z3.Function("isneginf", R, B)
ENTR = z3.Function("entr", R, R)
K = 3


class Tens:
    _dv_native = _dv_sym = True

    def __init__(self, a):
        self.a = a

    def cpu(self):
        return self

    def detach(self):
        return self

    def numpy(self):
        return self.a


def proba(X, f=PROBA):
    g = npmodel.lit(X).fn
    return SArr((X.shape[0], K), "f", lambda i, c: S(f(g(i).e, c)))


class Base:
    """an estimator whose predictions are unknown functions of the sample"""

    _dv_native = _dv_sym = True
    k = 0

    def fit(self, X, y, **kw):
        LOG.append(("fit", self, X, y, kw))
        return self

    def predict(self, X, **kw):
        if not npmodel.lit(X).rows:
            LOG.append(("predict", self, X, kw, None))
            return ints(X.shape[0], "lab")
        k, g = self.k, npmodel.lit(X).fn
        out = SArr((X.shape[0],), "i", lambda i: S(PRED(k, g(i).e)))
        LOG.append(("predict", self, X, kw, out))
        return out

    def predict_proba(self, X, **kw):
        LOG.append(("proba", self, X, kw))
        return proba(X)

    def infer(self, X, **kw):
        LOG.append(("infer", self, X, kw))
        return Tens(proba(X, LOGIT))


class WithLog(Base):
    def predict_log_proba(self, X, **kw):
        LOG.append(("lproba", self, X, kw))
        return proba(X, LPROBA)


class Deep(Base):
    def __init__(self, layer="l"):
        self.module_ = SimpleNamespace(layer_name=layer)

    def predict_features(self, X):
        return Tens(feat(X, 99))


def feat(X, k):
    LOG.append(("features", k, X))
    g = npmodel.lit(X).fn
    return SArr((X.shape[0], X.shape[1]), "row", lambda i: S(FEAT(k, g(i).e)))


class Part:
    _dv_native = _dv_sym = True

    def __init__(self, k):
        self.k = k

    def transform(self, X):
        return feat(X, self.k)


class Piped(Base, Pipeline):
    def __init__(self, steps=("t", "t", "e")):
        self.kinds = steps

    named_steps = property(lambda s: {f"s{i}": (StandardScaler() if k == "t" else Base()) for i, k in enumerate(s.kinds)})

    def __getitem__(self, sl):
        return Part(sl.stop)

    def __len__(self):
        return len(self.kinds)


class Plain:
    """no predict_proba"""

    _dv_native = True
    predict = Base.predict


class Kde:
    _dv_native = _dv_sym = True
    num = 0

    def __init__(self, parent=None):
        self.parent, self.k = parent, None

    def fit(self, X, y=None):
        Kde.num += 1
        self.k, self.X = Kde.num, X
        return self

    def score_samples(self, X):
        k, g = self.k, npmodel.lit(X).fn
        return SArr((X.shape[0],), "f", lambda i: S(DENS(k, g(i).e)))


class DomClf:
    _dv_native = _dv_sym = True

    def __init__(self, parent=None):
        self.parent, self.fitted = parent, None

    def fit(self, X, y):
        self.fitted = (X, y)
        return self

    def predict_proba(self, X):
        g = npmodel.lit(X).fn
        LOG.append(("dom", self, X))
        return SArr((X.shape[0], 2), "f", lambda i, c: S(DOM(g(i).e, c)))


class Le:
    _dv_native = _dv_sym = True

    def fit(self, y):
        LOG.append(("le", y))
        return self

    def transform(self, y):
        f = y.fn
        return SArr(y.shape, "i", lambda i: S(ENC(f(i).e)))

    def inverse_transform(self, y):
        f = npmodel.lit(y).fn
        return SArr(y.shape, "i", lambda i: S(DEC(f(i).e)))


def c_check(it, X, y, sample_domain=None, **kw):
    return X, y, sample_domain


def c_ytype(kind):
    return lambda it, y: ME.Y_Type.DISCRETE if kind == "i" else ME.Y_Type.CONTINUOUS


def c_masked(it, y):
    LOG.append(("masked", y))


def m_clone(e, **kw):
    return type(e)(e)


def m_softmax(X, copy=True):
    npmodel.note("sklearn softmax: exp(x) / sum of exp(x) over the row")
    e = M_EXP(X)
    return npmodel.binary(e, npmodel.sum_(e, axis=1, keepdims=True), "/")


M_EXP = npmodel.uf1("exp", npmodel._ax_exp)
M_LOG = npmodel.uf1("log")


def m_fill_diagonal(a, v, wrap=False):
    npmodel.note("numpy.fill_diagonal")
    f, v = a.fn, npmodel.lit(v)
    g = v.fn if isinstance(v, SArr) else (lambda i: v)
    a.fn = lambda i, j: npmodel.ite(i == j, g(i), f(i, j))
    a.version += 1


def m_neginf(x):
    f = x.fn
    return SArr(x.shape, "b", lambda *q: S(NEGINF(f(*q).e)))


def m_entr(x):
    npmodel.note("scipy.special.entr (uninterpreted)")
    f = x.fn
    return SArr(x.shape, "f", lambda *q: S(ENTR(f(*q).e)))


class m_normalizer:
    _dv_native = _dv_sym = True

    def __init__(self, norm="l2"):
        if norm != "l2":
            raise ValueError(norm)

    def fit_transform(self, X):
        npmodel.note("Normalizer(l2): every row over its euclidean norm")
        return unit(X)


SQRT = z3.Function("norm", R, R)


def unit(X):
    q = npmodel.sum_(npmodel.binary(X, X, "*"), axis=1)
    f, g = X.fn, q.fn
    return SArr(X.shape, "f", lambda i, c: f(i, c) / S(SQRT(g(i).e)))


def m_cov(a, rowvar=True, **kw):
    if rowvar:
        raise ValueError("rows are samples")
    npmodel.note("numpy.cov: sum of products of deviations over n-1")
    n, f = a.shape[0], a.fn
    col = lambda c: SArr((n,), "f", lambda i: f(i, z3.IntVal(c)))
    v = [[cov(col(0), col(0)), cov(col(0), col(1))], [cov(col(0), col(1)), cov(col(1), col(1))]]
    return SArr((2, 2), "f", lambda i, j: npmodel.ite(i == 0, npmodel.ite(j == 0, v[0][0], v[0][1]), npmodel.ite(j == 0, v[1][0], v[1][1])))


def cov(a, b):
    n = S(zi(a.shape[0]))
    d = lambda v: npmodel.binary(v, npmodel.mean_(v), "-")
    return npmodel.sum_(npmodel.binary(d(a), d(b), "*")) / (n - 1)


def m_var(a, ddof=0):
    if ddof != 1:
        raise ValueError("ddof")
    f = a.fn
    v = SArr((a.shape[0],), "f", (lambda i: f(i, z3.IntVal(0))) if a.ndim == 2 else f)
    return cov(v, v)


def m_nanmean(xs):
    ok = [x for x in xs if isinstance(x, S)]
    return sum(ok[1:], ok[0]) / len(ok) if ok else np.nan


def inputs(kind="i"):
    LOG.clear()
    n = length("n", 1)
    X, sd = rows(n, name="X"), ints(n, "sd")
    y = ints(n, "y") if kind == "i" else floats(n, "y", nan=True)
    witnesses(n, sd, True, True)
    return n, X, y, sd, dict(n=n, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot())


def tgt(I, side=-1):
    f = I["sd"].fn
    co = npmodel.compaction(SArr((I["n"],), "b", lambda i: S(f(i).e < 0 if side < 0 else f(i).e >= 0)))
    return co


def target_call(P, I, e, what="the estimator"):
    """e = (.., X, kw): called on the target samples with their own domains"""
    X, kw = e[2], e[3]
    prove_selection(P, f"{what} sees the target samples", X, I["X"], lambda i: el(I["sd"], i) < 0, [(kw["sample_domain"], I["sd"])])


def sub(I, f, side=-1, k=None):
    """f of the samples of a side, in order"""
    co, Xf = tgt(I, side), I["X"].fn
    return SArr((S(co.m), k) if k else (S(co.m),), "f", (lambda i, c: S(f(Xf(co.sel(i)).e, c))) if k else (lambda i: S(f(Xf(co.sel(i)).e))))


def mean2(a):
    return npmodel.mean_(a)


# ---------------------------------------------------------------- supervised
SCORE = []


def score_func(estimator, X, y, **kw):
    r = S(ctx().fresh("f", "score"))
    LOG.append(("score", estimator, X, y, kw, r))
    return r


score_func._dv_native = True


def b_sup(sign):
    def b():
        n, X, y, sd, d = inputs()
        tl = ints(n, "tl")
        e = Base()
        s = ME.SupervisedScorer(score_func, greater_is_better=sign > 0)
        return (s, None, e, X, y), dict(sample_domain=sd, target_labels=tl), dict(d, e=e, sign=sign, tl=tl.snapshot())
    return b


def p_sup(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are scored", repr(out[1]))
    c = [e for e in LOG if e[0] == "score"]
    if not P("scored once, by the estimator given", len(c) == 1 and c[0][1] is I["e"]):
        return
    _, _, X, y, kw, r = c[0]
    prove_selection(P, "on the target samples", X, I["X"], lambda i: el(I["sd"], i) < 0, [(y, I["tl"]), (kw["sample_domain"], I["sd"])])
    P("nothing else is passed", set(kw) == {"sample_domain"})
    P("the value, signed", out[1] == I["sign"] * r)


# --------------------------------------------------------- importance weights
def b_iw(sign, given=True, consumes=True):
    def b():
        Kde.num = 0
        n, X, y, sd, d = inputs()
        e, w = Base(), Kde()
        s = ME.ImportanceWeightedScorer(weight_estimator=w if given else None, greater_is_better=sign > 0)
        return (s, None, e, X, y), dict(sample_domain=sd), dict(d, e=e, sign=sign, s=s, w=w, given=given)
    return b


def m_check_scoring(estimator, scoring=None):
    LOG.append(("scoring", estimator, scoring))
    return score_func


def m_routing(yes):
    def m(e):
        r = SimpleNamespace(consumes=lambda m, p: {"sample_weight"} if yes else set())
        return r
    return m


def p_iw(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are scored", repr(out[1]))
    c = [e for e in LOG if e[0] == "score"]
    s = I["s"]
    if not P("scored once, by the estimator given", len(c) == 1 and c[0][1] is I["e"]):
        return
    _, _, X, y, kw, r = c[0]
    src = lambda i: el(I["sd"], i) >= 0
    prove_selection(P, "on the source samples", X, I["X"], src, [(y, I["y"]), (kw["sample_domain"], I["sd"])])
    P("as source samples", kw["allow_source"] is True)
    a, b = s.weight_estimator_source_, s.weight_estimator_target_
    P("two copies of the weight estimator", a is not b and (not I["given"] or (a.parent is I["w"] and b.parent is I["w"] and I["w"].k is None)))
    prove_selection(P, "one of the source samples", a.X, I["X"], src)
    prove_selection(P, "one of the target samples", b.X, I["X"], lambda i: el(I["sd"], i) < 0)
    raw = M_EXP(sub(I, lambda x: DENS(b.k, x) - DENS(a.k, x), 1))
    tot = npmodel.sum_(raw)
    w, k = kw["sample_weight"], fresh_int("k")
    m = S(zi(raw.shape[0]))
    inr = And(k >= 0, k < m)
    P("one weight per source sample", ln(w) == m)
    P("weights in proportion to the density ratio, of total one", Implies(And(inr, tot > 0), el(w, k) == el(raw, k) / tot))
    P("uniform weights when every ratio vanishes", Implies(And(inr, tot == 0), el(w, k) * m == 1))
    P("the value, signed", out[1] == I["sign"] * r)


def p_raise(kind):
    return lambda P, out, I: P("refused", out[0] == "raise" and isinstance(out[1], kind))


# ------------------------------------------------------------------- entropy
def b_ent(red, sign, est=WithLog):
    def b():
        n, X, y, sd, d = inputs()
        e = est()
        s = ME.PredictionEntropyScorer(greater_is_better=sign > 0, reduction=red)
        return (s, None, e, X, y), dict(sample_domain=sd), dict(d, e=e, sign=sign, red=red)
    return b


def p_ent(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are scored", repr(out[1]))
    pr = [e for e in LOG if e[0] in ("proba", "lproba")]
    for e in pr:
        target_call(P, I, e)
    p = sub(I, PROBA, k=K)
    if isinstance(I["e"], WithLog):
        lp = sub(I, LPROBA, k=K)
    else:
        lp = M_LOG(npmodel.binary(p, npmodel.lit(1e-7), "+"))
    f, g = p.fn, lp.fn
    ent = SArr(p.shape, "f", lambda i, c: npmodel.ite(NEGINF(g(i, c).e), S(z3.RealVal(0)), -f(i, c) * g(i, c)))
    r, sg = out[1], I["sign"]
    if I["red"] == "none":
        i, c = fresh_int("i"), fresh_int("c")
        P("one term per target sample and class", And(S(zi(r.shape[0])) == S(zi(p.shape[0])), S(zi(r.shape[1])) == K))
        return P("-p log p, zero where log p is infinite", Implies(And(i >= 0, i < S(zi(p.shape[0])), c >= 0, c < K), el2(r, i, c) == sg * el2(ent, i, c)))
    want = npmodel.sum_(ent) if I["red"] == "sum" else npmodel.mean_(ent)
    P("the entropies, reduced", r == sg * want)


# ------------------------------------------------- soft neighbourhood density
def b_snd(sign):
    def b():
        n, X, y, sd, d = inputs()
        e, T = Base(), S(ctx().fresh("f", "T"))
        assume(T > 0)
        s = ME.SoftNeighborhoodDensity(T=T, greater_is_better=sign > 0)
        return (s, None, e, X, y), dict(sample_domain=sd), dict(d, e=e, sign=sign, T=T)
    return b


def p_snd(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are scored", repr(out[1]))
    target_call(P, I, [e for e in LOG if e[0] == "proba"][0])
    u = unit(sub(I, PROBA, k=K))
    sim = npmodel.binary(npmodel.matmul(u, npmodel.transpose(u)), I["T"], "/")
    m_fill_diagonal(sim, npmodel.unary(npmodel.diag(sim), "-"))
    soft = m_softmax(sim)
    want = npmodel.mean_(npmodel.sum_(m_entr(soft), axis=1))
    P("the mean entropy of the softmax of the similarities, self-similarity negated", out[1] == I["sign"] * want)


# ------------------------------------------------------ deep embedded validation
def m_split(X, y, sd, test_size=None, random_state=None):
    """train_test_split: disjoint selections without repetition, arrays aligned"""
    npmodel.note("sklearn train_test_split: a disjoint split without repetition, the same for every array")
    c, n = ctx(), zi(X.shape[0])
    p, ip = npmodel.permutation_uf(n)
    m = c.fresh("i", "split")
    c.fact(z3.And(m >= 1, m < n))
    LOG.append(("split", X, y, sd, test_size, random_state, m, p, n))
    tr = SArr((S(m),), "i", lambda i: S(p(i)))
    va = SArr((S(n - m),), "i", lambda i: S(p(i + m)))
    out = []
    for a in (X, y, sd):
        out += [npmodel.getitem(a, tr), npmodel.getitem(a, va)]
    LOG.append(("parts", out))
    return out


def b_dev(est, sign, loss="given"):
    def b():
        n, X, y, sd, d = inputs()
        e = est()
        f = tgt(d, 1)
        assume(S(f.m) >= 2)
        s = ME.DeepEmbeddedValidation(domain_classifier=DomClf(), loss_func=dict(given=m_loss, column=m_loss2)[loss], greater_is_better=sign > 0, random_state=5)
        return (s, None, e, X, y), dict(sample_domain=sd), dict(d, e=e, sign=sign, s=s)
    return b


def m_loss(y, y_pred):
    LOG.append(("loss", y, y_pred))
    f = y.fn
    X = [e for e in LOG if e[0] == "proba"][-1][2]
    return SArr((y.shape[0],), "f", lambda i: S(LOSS(f(i).e, X.fn(i).e)))


def m_loss2(y, y_pred):
    a = m_loss(y, y_pred)
    return SArr((a.shape[0], 1), "f", lambda i, j: a.fn(i))


m_loss._dv_native = m_loss2._dv_native = True


def p_dev(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are scored", repr(out[1]))
    s, e = I["s"], I["e"]
    sp = [x for x in LOG if x[0] == "split"]
    if not P("one split", len(sp) == 1):
        return
    P("seeded by random_state", sp[0][5] == 5)
    src = lambda i: el(I["sd"], i) >= 0
    prove_selection(P, "of the source samples", sp[0][1], I["X"], src, [(sp[0][2], I["y"]), (sp[0][3], I["sd"])])
    m, p, N = sp[0][6:]
    Xtr, Xv, ytr, yv, sdtr, sdv = [x for x in LOG if x[0] == "parts"][0][1]
    f = [x for x in LOG if x[0] == "features"]
    k = 99 if isinstance(e, Deep) else max([i + 1 for i, q in enumerate(e.kinds) if q == "t"], default=None)
    if k is not None:
        P("features of the training part, the held-out part and the target", len(f) == 3 and f[0][2] is Xtr and f[1][2] is Xv)
        P("at the last transformer", all(x[1] == k for x in f))
        prove_selection(P, "the target", f[2][2], I["X"], lambda i: el(I["sd"], i) < 0)
    else:
        P("no transformer: the samples themselves", not f)
    F = lambda x: FEAT(k, x) if k is not None else x
    d = s.domain_classifier_
    P("a copy of the domain classifier is trained", d.parent is s.domain_classifier and s.domain_classifier.fitted is None)
    FX, fy = d.fitted
    t = tgt(I)
    M, T = S(m), S(t.m)
    i = fresh_int("i")
    P("on the training source features, then the target ones", And(ln(FX) == M + T, ln(fy) == M + T,
      Implies(And(i >= 0, i < M), And(S(el(FX, i).e == F(Xtr.fn(i.e).e)), el(fy, i) == 1)),
      Implies(And(i >= M, i < M + T), And(S(el(FX, i).e == F(I["X"].fn(t.sel((i - M).e)).e)), el(fy, i) == 0))))
    pr = [x for x in LOG if x[0] == "proba"][0]
    P("predictions of the held-out source samples", And(pr[2] is Xv, pr[3]["sample_domain"] is sdv, pr[3]["allow_source"] is True))
    lo = [x for x in LOG if x[0] == "loss"][0]
    P("losses against their labels", lo[1] is yv)
    V = S(N) - M
    x = lambda i: Xv.fn(i).e
    w = SArr((V,), "f", lambda i: (S(z3.ToReal(m)) / S(z3.ToReal(t.m))) * S(DOM(F(x(i)), z3.IntVal(0))) / S(DOM(F(x(i)), z3.IntVal(1))))
    er = SArr((V,), "f", lambda i: S(LOSS(yv.fn(i).e, x(i))))
    we = npmodel.binary(w, er, "*")
    var, cv = cov(w, w), cov(we, w)
    eta = npmodel.ite((var == 0).e, S(z3.RealVal(0)), -cv / var)
    P("the weighted risk with its control variate", out[1] == I["sign"] * (npmodel.mean_(we) + eta * npmodel.mean_(w) - eta))


def b_ce():
    LOG.clear()
    k = length("k", 1)
    t, p = fresh_int("t"), floats(k, "p")
    assume(And(t >= 0, t < k))
    s = ME.DeepEmbeddedValidation()
    return (s, t, p), {}, dict(k=k, t=t, p=p.snapshot())


def p_ce(P, out, I):
    if out[0] == "raise":
        return P.fail("a loss", repr(out[1]))
    p = el(I["p"], I["t"])
    lo, hi = S(z3.RealVal("1e-15")), 1 - S(z3.RealVal("1e-15"))
    eps = npmodel.lit(1e-15)
    q = npmodel.ite((p < eps).e, eps, npmodel.ite((p > npmodel.lit(1 - 1e-15)).e, npmodel.lit(1 - 1e-15), p))
    P("minus the log-probability of the label's class", out[1] == -M_LOG(q))


def c_ce(it, s, y, p, epsilon=1e-15):
    f = p.fn
    return S(LOSS(y.e if isinstance(y, S) else y, z3.Function("sc_ident", R, RowSort)(f(z3.IntVal(0)).e)))


def b_nr():
    LOG.clear()
    n = length("n", 1)
    y, p = ints(n, "y"), npmodel.arr_uf("p", (n, K), "f")
    return (ME.DeepEmbeddedValidation(), y, p), {}, dict(n=n, y=y.snapshot(), p=p.snapshot())


def p_nr(P, out, I):
    if out[0] == "raise":
        return P.fail("one loss per sample", repr(out[1]))
    i = fresh_int("i")
    f = I["p"].fn
    P("one loss per sample, of its own label and prediction", And(ln(out[1]) == I["n"], Implies(And(i >= 0, i < I["n"]),
      el(out[1], i) == S(LOSS(el(I["y"], i).e, z3.Function("sc_ident", R, RowSort)(f(i.e, z3.IntVal(0)).e))))))


# ---------------------------------------------------------------- circular
def m_deepcopy(e):
    b = type(e)()
    b.k = e.k + 1
    LOG.append(("copy", e, b))
    return b


def src_scorer(y, yp):
    r = S(ctx().fresh("f", "score"))
    LOG.append(("sscore", y, yp, r))
    return r


src_scorer._dv_native = True


def b_circ(kind, sign):
    def b():
        n, X, y, sd, d = inputs(kind)
        e = Base()
        s = ME.CircularValidation(source_scorer=src_scorer, greater_is_better=sign > 0)
        return (s, None, e, X, y), dict(sample_domain=sd), dict(d, e=e, sign=sign, kind=kind)
    return b


def p_circ(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are scored", repr(out[1]))
    P("the labels are checked to be masked", len([e for e in LOG if e[0] == "masked"]) == 1)
    pr = [e for e in LOG if e[0] == "predict"]
    fits = [e for e in LOG if e[0] == "fit"]
    target_call(P, I, pr[0], "the estimator given")
    P("first the estimator given", pr[0][1] is I["e"] and all(f[1] is not I["e"] for f in fits))
    sc = [e for e in LOG if e[0] == "sscore"]
    src = lambda i: el(I["sd"], i) >= 0
    co = tgt(I, 1)
    k = fresh_int("k")
    P("the source labels are scored", len(sc) == 1)
    y, yp, r = sc[0][1:]
    P("all of them", And(ln(y) == S(co.m), ln(yp) == S(co.m), Implies(And(k >= 0, k < S(co.m)), Same(el(y, k), el(I["y"], S(co.sel(k.e)))))))
    P("the value, signed", out[1] == I["sign"] * r)
    n, lab = I["n"], pr[0][4]
    t = tgt(I)
    if not fits:
        q = fresh_int("q")
        P("no second estimator only when a single label is predicted", Implies(And(q >= 0, q < S(t.m)), el(lab, q) == el(lab, S(z3.IntVal(0)))))
        return P("which then stands for every source prediction", Implies(And(k >= 0, k < S(co.m)), el(yp, k) == el(lab, S(z3.IntVal(0)))))
    _, b, FX, fy, kw = fits[0]
    P("otherwise a copy of it is trained once, on the same samples", And(len(fits) == 1, [e for e in LOG if e[0] == "copy"][0][2] is b, arr_same(FX, I["X"])))
    bd, i = kw["sample_domain"], fresh_int("i")
    inr = And(i >= 0, i < n)
    P("with the roles of the domains exchanged", And(ln(bd) == n, Implies(inr, Iff(el(bd, i) >= 0, el(I["sd"], i) < 0))))
    j = fresh_int("j")
    P("domains stay apart", Implies(And(inr, j >= 0, j < n, el(bd, i) == el(bd, j)), el(I["sd"], i) == el(I["sd"], j)))
    disc = I["kind"] == "i"
    if disc:
        P("source labels masked", Implies(And(inr, el(I["sd"], i) >= 0), el(fy, i) == -1))
    else:
        P("source labels masked", Implies(And(inr, el(I["sd"], i) >= 0), S(el(fy, i).nan)))
    x = lab.fn(t.rank(i.e))
    P("target samples carry what was predicted for them", Implies(And(inr, el(I["sd"], i) < 0), el(fy, i) == (S(ENC(x.e)) if disc else x)))
    _, b2, X2, kw2, o2 = pr[1]
    P("it predicts", b2 is b and len(pr) == 2)
    prove_selection(P, "the source samples", X2, I["X"], src, [(kw2["sample_domain"], bd)])
    P("and that is what is scored, in the original labels", Implies(And(k >= 0, k < S(co.m)), el(yp, k) == (S(DEC(el(o2, k).e)) if disc else el(o2, k))))


# ------------------------------------------------------------------- MixVal
def b_mix(ice, big, sign):
    def b():
        LOG.clear()
        n, d = length("n", 1), length("d", 1)
        X, sd, y = matrix(n, d, "X"), ints(n, "sd"), ints(n, "y")
        witnesses(n, sd, True, True)
        al = S(ctx().fresh("f", "alpha"))
        assume(And(al >= 0, al <= 1, al >= 0.5 if big else al < 0.5))
        e = Mixed()
        s = ME.MixValScorer(alpha=al, ice_type=ice, greater_is_better=sign > 0, random_state=3)
        return (s, None, e, X, y), dict(sample_domain=sd), dict(n=n, d=d, X=X.snapshot(), sd=sd.snapshot(), e=e, al=al, big=big, ice=ice, sign=sign)
    return b


class Mixed(Base):
    def predict(self, X, **kw):
        out = ints(X.shape[0], "lab")
        LOG.append(("predict", self, X, kw, out))
        return out


class Rng:
    _dv_native = _dv_sym = True

    def permutation(self, n):
        p, ip = npmodel.permutation_uf(zi(n))
        LOG.append(("perm", n, p))
        return SArr((n,), "i", lambda i: S(p(i)), inv=(lambda v: z3.And(0 <= v, v < zi(n)), lambda v: ip(v)))


def m_rng(s):
    LOG.append(("seed", s))
    return Rng()


def p_mix(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are scored", repr(out[1]))
    P("seeded by random_state", [e[1] for e in LOG if e[0] == "seed"] == [3])
    pr = [e for e in LOG if e[0] == "predict"]
    t = tgt(I)
    i, c = fresh_int("i"), fresh_int("c")
    T = S(t.m)
    X = I["X"]
    P("pseudo-labels of the target samples", And(len(pr) == 1, ln(pr[0][2]) == T, Implies(And(i >= 0, i < T, c >= 0, c < I["d"]), el2(pr[0][2], i, c) == S(X.fn(t.sel(i.e), c.e).e)),
                                                 Implies(And(i >= 0, i < T), el(pr[0][3]["sample_domain"], i) == el(I["sd"], S(t.sel(i.e))))))
    lab = pr[0][4]
    p = [e for e in LOG if e[0] == "perm"][0][2]
    sc = [e for e in LOG if e[0] == "score"]
    want = []
    al = I["al"]
    q = 0
    for kind in ("intra", "inter"):
        if I["ice"] not in ("both", kind):
            continue
        mk = (lambda i: S(lab.fn(i).e == lab.fn(p(i)).e)) if kind == "intra" else (lambda i: S(lab.fn(i).e != lab.fn(p(i)).e))
        co = npmodel.compaction(SArr((T,), "b", mk))
        if ctx().entails((S(co.m) == 0).e):
            continue
        if not P(f"{kind}: mixed pairs exist only when scored", q < len(sc)):
            return
        _, e, Xm, ym, kw, r = sc[q]
        q += 1
        want.append(r)
        k = fresh_int("k")
        inr = And(k >= 0, k < S(co.m))
        a = co.sel(k.e)
        b = p(a)
        P(f"{kind}: the estimator given, one sample per pair", And(e is I["e"], ln(Xm) == S(co.m), ln(ym) == S(co.m), S(zi(kw["sample_domain"].shape[0])) == S(co.m)))
        P(f"{kind}: every sample mixes the two samples of its pair", Implies(And(inr, c >= 0, c < I["d"]),
          el2(Xm, k, c) == al * S(X.fn(t.sel(a), c.e).e) + (1 - al) * S(X.fn(t.sel(b), c.e).e)))
        P(f"{kind}: labelled by the one of larger share", Implies(inr, el(ym, k) == S(lab.fn(a if I["big"] else b).e)))
        P(f"{kind}: as target samples", Implies(inr, el(kw["sample_domain"], k) < 0))
    P("nothing else is scored", q == len(sc))
    if not want:
        return P("undefined without pairs", isinstance(out[1], float) and bool(np.isnan(out[1])))
    P("the mean of the scores, signed", out[1] == I["sign"] * sum(want[1:], want[0]) / len(want))


# --------------------------------------------------------------------- MaNo
def b_mano(est, sign):
    def b():
        n, X, y, sd, d = inputs()
        e = est()
        p = S(ctx().fresh("f", "p"))
        th = S(ctx().fresh("f", "th"))
        assume(p > 0)
        s = ME.MaNoScorer(p=1, threshold=th, greater_is_better=sign > 0)
        s.p = p
        return (s, None, e, X, y), dict(sample_domain=sd), dict(d, e=e, sign=sign, p=p, th=th, s=s)
    return b


def c_soft(it, logits):
    LOG.append(("soft", logits))
    f = logits.fn

    return SArr(logits.shape, "f", lambda i, c: S(z3.Function("sc_soft", R, R)(f(i, c).e)))


def c_taylor(it, logits):
    f = logits.fn
    return SArr(logits.shape, "f", lambda i, c: S(z3.Function("sc_taylor", R, R)(f(i, c).e)))


def p_mano(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are scored", repr(out[1]))
    pw = lambda a: SArr(a.shape, "f", lambda i, c: S(POW(a.fn(i, c).e, I["p"].e)))
    val = lambda a: I["sign"] * S(POW(npmodel.mean_(pw(a)).e, (1 / I["p"]).e))
    if isinstance(I["e"], Pipeline):
        pr = [e for e in LOG if e[0] == "proba"][0]
        target_call(P, I, pr)
        return P("the p-norm of the probabilities", out[1] == val(sub(I, PROBA, k=K)))
    inf = [e for e in LOG if e[0] == "infer"][0]
    prove_selection(P, "logits of the target samples", inf[2], I["X"], lambda i: el(I["sd"], i) < 0)
    lg = sub(I, LOGIT, k=K)
    so = c_soft(None, lg)
    div = -npmodel.mean_(M_LOG(so))
    ta = c_taylor(None, lg)
    P("softmax when the divergence from uniform is above the threshold", Implies(div > I["th"], out[1] == val(so)))
    P("Taylor expansion otherwise, of the same logits", Implies(div <= I["th"], out[1] == val(ta)))
    P("the choice is recorded", And(Implies(div > I["th"], I["s"].chosen_normalization == "softmax"), Implies(div <= I["th"], I["s"].chosen_normalization == "taylor")))


KN = 2


def b_norm():
    LOG.clear()
    n = length("n", 1)
    a = npmodel.arr_uf("lg", (n, KN), "f")
    return (a,), {}, dict(n=n, a=a, a0=a.snapshot())


def p_soft(P, out, I):
    if out[0] == "raise":
        return P.fail("logits are normalized", repr(out[1]))
    P("the logits given are left alone", arr_same(I["a"], I["a0"]))
    i, c = fresh_int("i"), fresh_int("c")
    n = I["n"]
    o, a = out[1], I["a0"]
    ex = npmodel.uf1("exp", npmodel._ax_exp)
    f = ctx().memo.get(("uf1", "exp"))
    inr = And(i >= 0, i < n, c >= 0, c < KN)
    mx = [S(ctx().fresh("f", "mx"))]
    assume(Or(*[And(mx[0] == el2(a, i, S(z3.IntVal(q)))) for q in range(KN)]))
    for q in range(KN):
        assume(mx[0] >= el2(a, i, S(z3.IntVal(q))))
    e = [ex(el2(a, i, S(z3.IntVal(q))) - mx[0]) for q in range(KN)]
    tot = sum(e[1:], e[0])
    for q in range(KN):
        P(f"column {q}: the exponential of the logit, over their sum", Implies(And(i >= 0, i < n), el2(o, i, S(z3.IntVal(q))) * tot == e[q]))


def p_taylor(P, out, I):
    if out[0] == "raise":
        return P.fail("logits are normalized", repr(out[1]))
    P("the logits given are left alone", arr_same(I["a"], I["a0"]))
    i, n = fresh_int("i"), I["n"]
    o, a = out[1], I["a0"]
    t = [1 + el2(a, i, S(z3.IntVal(q))) + el2(a, i, S(z3.IntVal(q))) * el2(a, i, S(z3.IntVal(q))) / 2 for q in range(KN)]
    mn = S(ctx().fresh("f", "mn"))
    assume(Or(*[mn == v for v in t]))
    for v in t:
        assume(mn <= v)
    tot = sum([v - mn for v in t[1:]], t[0] - mn)
    for q in range(KN):
        P(f"column {q}: second-order expansion above its minimum, over the sum", Implies(And(i >= 0, i < n, tot > 0), el2(o, i, S(z3.IntVal(q))) * tot == t[q] - mn))


def scenarios():
    C = lambda m: opt(ME, m)
    chk = {ME.check_X_y_domain: c_check}
    out = []
    for sg in (1, -1):
        s = "" if sg > 0 else ", smaller is better"
        out.append(Scn(f"SupervisedScorer._score{s}", C("SupervisedScorer._score"), b_sup(sg), p_sup, call=call_m("_score"), contracts=chk))
        mod = {ME.check_scoring: m_check_scoring, ME.get_routing_for_object: m_routing(True), ME.clone: m_clone, ME.KernelDensity: Kde}
        out.append(Scn(f"ImportanceWeightedScorer._score{s}", C("ImportanceWeightedScorer._score"), b_iw(sg), p_iw, call=call_m("_score"), contracts=chk, models=mod))
        for red in ("mean", "sum", "none"):
            for est in ((WithLog, Base) if sg < 0 else (WithLog,)):
                out.append(Scn(f"PredictionEntropyScorer._score ({red}{', no log_proba' if est is Base else ''}{s})", C("PredictionEntropyScorer._score"), b_ent(red, sg, est), p_ent, call=call_m("_score"), contracts=chk, models={np.isneginf: m_neginf}))
        out.append(Scn(f"SoftNeighborhoodDensity._score{s}", C("SoftNeighborhoodDensity._score"), b_snd(sg), p_snd, call=call_m("_score"), contracts=chk,
                       models={np.fill_diagonal: m_fill_diagonal, ME.softmax: m_softmax, ME.Normalizer: m_normalizer, scipy.special.entr: m_entr}))
    out.append(Scn("ImportanceWeightedScorer._score (default density)", C("ImportanceWeightedScorer._score"), b_iw(1, False), p_iw, call=call_m("_score"), contracts=chk, models=mod))
    out.append(Scn("ImportanceWeightedScorer._score (no sample_weight)", C("ImportanceWeightedScorer._score"), b_iw(1), p_raise(ValueError), call=call_m("_score"), contracts=chk, models=dict(mod, **{}) | {ME.get_routing_for_object: m_routing(False)}, expect=("raise:ValueError",)))
    md = {ME.train_test_split: m_split, ME.clone: m_clone, np.cov: m_cov, np.var: m_var, ME.check_random_state: lambda s: s}
    for nm, est, sg, loss in (("pipeline", lambda: Piped(), -1, "given"), ("pipeline, bigger is better", lambda: Piped(("e", "t", "x", "e")), 1, "column"), ("no transformer", lambda: Piped(("e",)), -1, "given"), ("deep", lambda: Deep(), -1, "column")):
        out.append(Scn(f"DeepEmbeddedValidation._score ({nm})", C("DeepEmbeddedValidation._score"), b_dev(est, sg, loss), p_dev, call=call_m("_score"), contracts=chk, models=md))
    out.append(Scn("DeepEmbeddedValidation.cross_entropy_loss", C("DeepEmbeddedValidation.cross_entropy_loss"), b_ce, p_ce, call=call_m("cross_entropy_loss")))
    out.append(Scn("DeepEmbeddedValidation._no_reduc_log_loss", C("DeepEmbeddedValidation._no_reduc_log_loss"), b_nr, p_nr, call=call_m("_no_reduc_log_loss"), contracts={ME.DeepEmbeddedValidation.cross_entropy_loss: c_ce}))
    mc = {ME.deepcopy: m_deepcopy, ME.LabelEncoder: Le}
    for kind in "if":
        for sg in (1, -1):
            out.append(Scn(f"CircularValidation._score ({'classes' if kind == 'i' else 'regression'}{'' if sg > 0 else ', smaller is better'})", C("CircularValidation._score"), b_circ(kind, sg), p_circ, call=call_m("_score"),
                           contracts=dict(chk) | {ME._check_y_masking: c_masked, ME._find_y_type: c_ytype(kind)}, models=mc))
    mm = {ME.check_scoring: m_check_scoring, np.nanmean: m_nanmean, ME.check_random_state: m_rng}
    for ice, big, sg in (("both", True, 1), ("both", False, -1), ("intra", True, 1), ("inter", False, 1)):
        out.append(Scn(f"MixValScorer._score ({ice}, alpha {'>=' if big else '<'} 1/2)", C("MixValScorer._score"), b_mix(ice, big, sg), p_mix, call=call_m("_score"), contracts=dict(chk) | {ME._find_y_type: c_ytype("i")}, models=mm))
    cm = dict(chk) | {ME._find_y_type: c_ytype("i")}
    ms = {ME.MaNoScorer._stable_softmax: c_soft, ME.MaNoScorer._taylor_softmax: c_taylor}
    for nm, est, sg in (("pipeline", lambda: Piped(), 1), ("deep", lambda: Deep(), 1), ("deep, smaller is better", lambda: Deep(), -1)):
        out.append(Scn(f"MaNoScorer._score ({nm})", C("MaNoScorer._score"), b_mano(est, sg), p_mano, call=call_m("_score"), contracts=cm | ms))
    out.append(Scn("MaNoScorer._score (deep, no layer)", C("MaNoScorer._score"), b_mano(lambda: Deep(None), 1), p_raise(ValueError), call=call_m("_score"), contracts=cm | ms, expect=("raise:ValueError",)))
    out.append(Scn("MaNoScorer._stable_softmax", C("MaNoScorer._stable_softmax"), b_norm, p_soft))
    out.append(Scn("MaNoScorer._taylor_softmax", C("MaNoScorer._taylor_softmax"), b_norm, p_taylor))
    for nm, mk in (("PredictionEntropyScorer", ME.PredictionEntropyScorer), ("SoftNeighborhoodDensity", ME.SoftNeighborhoodDensity), ("DeepEmbeddedValidation", ME.DeepEmbeddedValidation), ("MaNoScorer", ME.MaNoScorer)):
        def b_np(mk=mk):
            n, X, y, sd, d = inputs()
            return (mk(), None, Plain(), X, y), dict(sample_domain=sd), d
        out.append(Scn(f"{nm}._score (no predict_proba)", C(f"{nm}._score"), b_np, p_raise(AttributeError), call=call_m("_score"), contracts=chk, expect=("raise:AttributeError",)))
    return out


# ------------------------------------------------------------- runtime side
class FakeDeep:
    """a network reduced to its logits and features"""

    classes_ = None

    def __init__(self, W, share=True):
        self.W, self.module_, self.seen = W, SimpleNamespace(layer_name="l"), []

    def infer(self, X, **kw):
        self.seen.append(np.array(X))
        self.out = torch_like(X @ self.W)
        return self.out

    def predict_features(self, X):
        return torch_like(np.asarray(X) ** 2)

    def predict(self, X, **kw):
        return (X @ self.W).argmax(1)

    def predict_proba(self, X, **kw):
        return scipy.special.softmax(X @ self.W, axis=1)

    def fit(self, *a, **k):
        return self


class torch_like:
    def __init__(self, a):
        self.a = a

    cpu = detach = lambda s: s

    def numpy(self):
        return self.a


def pipe(p):
    lr = LogisticRegression(C=p["C"]).set_fit_request(sample_weight=True).set_score_request(sample_weight=True)
    if p["est"] == "lr":
        return skada.make_da_pipeline(StandardScaler(), lr)
    if p["est"] == "reweight":
        return skada.make_da_pipeline(skada.DensityReweightAdapter(), lr)
    if p["est"] == "coral":
        return skada.make_da_pipeline(StandardScaler(), skada.CORALAdapter(), lr)
    if p["est"] == "tree":  # its leaves give probabilities of exactly zero
        return skada.make_da_pipeline(DecisionTreeClassifier(max_leaf_nodes=4, min_samples_leaf=3).set_fit_request(sample_weight=True).set_score_request(sample_weight=True))
    if p["est"] == "one":
        return skada.make_da_pipeline(lr)
    return skada.make_da_pipeline(KNeighborsClassifier(3))


def weights_ref(X, sd, bw):
    a, b = KernelDensity(bandwidth=bw).fit(X[sd >= 0]), KernelDensity(bandwidth=bw).fit(X[sd < 0])
    w = np.exp(b.score_samples(X[sd >= 0]) - a.score_samples(X[sd >= 0]))
    return w / w.sum() if w.sum() else np.full(len(w), 1 / len(w))


def r_entropy(p, e, X, sd):
    t = sd < 0
    pr = e.predict_proba(X[t], sample_domain=sd[t])
    lp = e.predict_log_proba(X[t], sample_domain=sd[t]) if p["est"] != "knn" else np.log(pr + 1e-7)
    with np.errstate(all="ignore"):
        return np.where(np.isneginf(lp), 0, -pr * lp)


def r_snd(e, X, sd, T):
    t = sd < 0
    pr = e.predict_proba(X[t], sample_domain=sd[t])
    u = pr / np.linalg.norm(pr, axis=1, keepdims=True)
    s = u @ u.T / T
    d = np.arange(len(s))
    s[d, d] = -s[d, d]
    ls = s - scipy.special.logsumexp(s, axis=1, keepdims=True)
    return np.mean(-(np.exp(ls) * ls).sum(1))


def k_score(p):
    quiet()
    X, y, sd, yt = (p[q] for q in ("X", "y", "sd", "yt"))
    c = [np.array(v) for v in (X, y, sd, yt)]
    t, s = sd < 0, sd >= 0
    e = pipe(p).fit(X, y, sample_domain=sd)
    probe = X + .1
    before = e.predict(probe)
    k = p["scorer"]
    sg = p["sign"]
    kw = {} if sg is None else dict(greater_is_better=sg > 0)
    m = {"none": None}.get(sg, sg)
    call = lambda sc, yy=y, **q: must(k, sc, e, X, yy, sample_domain=sd, **q)
    eq = lambda key, a, b: same_arr(f"{k}/{key}", a, b, exact=False, tol=1e-7)
    if k == "supervised":
        for scoring, f in ((None, None), (sklearn.metrics.get_scorer("balanced_accuracy"), sklearn.metrics.balanced_accuracy_score)):
            sc = ME.SupervisedScorer(**({} if scoring is None else dict(scoring=lambda est, X, y, sample_domain=None: f(y, est.predict(X, sample_domain=sample_domain)))), **kw)
            pr = e.predict(X[t], sample_domain=sd[t])
            want = (pr == yt[t]).mean() if f is None else f(yt[t], pr)
            eq("value", call(sc, target_labels=yt), (m or 1) * want)
            eq("masked labels are not read", call(sc, np.where(t, p["alt"], y), target_labels=yt), (m or 1) * want)
    elif k == "iw":
        if p["est"] == "knn":
            raise Skip("no weights")
        bw = p["T"] * 10
        kde = KernelDensity(bandwidth=bw)
        sc = ME.ImportanceWeightedScorer(weight_estimator=kde, **kw)
        w = weights_ref(X, sd, bw)
        good = e.predict(X[s], sample_domain=sd[s], allow_source=True) == y[s]
        eq("value", call(sc), (m or 1) * (w * good).sum() / w.sum())
        check("iw/given estimator", not hasattr(kde, "tree_"))
        eq("target labels are not read", call(sc, np.where(t, p["alt"], y)), (m or 1) * (w * good).sum() / w.sum())
    elif k == "entropy":
        ref = r_entropy(p, e, X, sd)
        for red, want in (("mean", ref.mean()), ("sum", ref.sum()), ("none", ref)):
            sc = ME.PredictionEntropyScorer(reduction=red, **kw)
            for yy in (y, np.where(t, p["alt"], y)):
                eq(red, sc(e, X, yy, sample_domain=sd) if red != "none" else sc._score(None, e, X, yy, sample_domain=sd), (m or -1) * want)
    elif k == "snd":
        sc = ME.SoftNeighborhoodDensity(T=p["T"], **kw)
        for yy in (y, np.where(t, p["alt"], y)):
            eq("value", call(sc, yy), (m or 1) * r_snd(e, X, sd, p["T"]))
    elif k == "dev":
        if set(y[s]) != set(range(len(set(y[s])))):
            raise Skip("classes are not 0 ... K-1")
        est, f = e, None
        if p["deep"]:
            est = FakeDeep(p["W"])
            f = lambda x: np.asarray(x) ** 2
        else:
            last = [i for i, q in enumerate(e.named_steps.values()) if hasattr(q, "transform")]
            f = e[: last[-1] + 1].transform if last else (lambda x: x)
        for loss in (None, lambda a, b: (b.argmax(1) != a).astype(float), lambda a, b: 1 - b[np.arange(len(a)), a][:, None]):
            sc = ME.DeepEmbeddedValidation(loss_func=loss, random_state=p["seed"], **kw)
            got = must("dev", sc, est, X, y, sample_domain=sd)
            Xt_, Xv, _, yv, _, sv = train_test_split(X[s], y[s], sd[s], test_size=.33, random_state=np.random.RandomState(p["seed"]))
            g = (lambda x: f(x).numpy() if hasattr(f(x), "numpy") else f(x))
            A, V, T = g(Xt_), g(Xv), g(X[t])
            d = LogisticRegression().fit(np.r_[A, T], np.r_[np.ones(len(A), int), np.zeros(len(T), int)])
            q = d.predict_proba(V)
            w = len(A) / len(T) * q[:, 0] / q[:, 1]
            pr = est.predict_proba(Xv, sample_domain=sv, allow_source=True)
            er = -np.log(np.clip(pr[np.arange(len(yv)), yv], 1e-15, 1 - 1e-15)) if loss is None else np.ravel(loss(yv, pr))
            cv, va = np.cov(w * er, w)[0, 1], w.var(ddof=1)
            eta = -cv / va if va else 0
            eq("value", got, (m or -1) * ((w * er).mean() + eta * w.mean() - eta))
            eq("target labels are not read", sc(est, X, np.where(t, p["alt"], y), sample_domain=sd), got)
    elif k == "circular":
        f = sklearn.metrics.balanced_accuracy_score if rng_bool(p) else sklearn.metrics.accuracy_score
        sc = ME.CircularValidation(source_scorer=f, **kw)
        got = call(sc)
        pt = e.predict(X[t], sample_domain=sd[t])
        if len(set(pt)) == 1:
            back = np.full(s.sum(), pt[0])
        else:
            b = pipe(p)
            # the same problem, roles exchanged, with domain labels of our own
            ids = {q: i for i, q in enumerate(sorted(set(sd.tolist())))}
            num = np.array([ids[q] + 1 for q in sd.tolist()])
            cl = np.unique(pt)
            yy = np.full(len(y), -1)
            yy[t] = np.searchsorted(cl, pt)
            sd2 = np.where(t, num, -num)
            b.fit(X, yy, sample_domain=sd2)
            back = cl[b.predict(X[s], sample_domain=sd2[s])]
        eq("value", got, (m or 1) * f(y[s], back))
    elif k == "mano":
        for P_ in (1, 2, 4, 3.5):
            sc = ME.MaNoScorer(p=P_, threshold=p["th"], **kw)
            if not p["deep"]:
                pr = e.predict_proba(X[t], sample_domain=sd[t])
                eq("value", call(sc), (m or 1) * np.mean(pr ** P_) ** (1 / P_))
                continue
            est = FakeDeep(p["W"])
            lg = X[t] @ p["W"]
            so = scipy.special.softmax(lg, axis=1)
            ta = 1 + lg + lg ** 2 / 2
            ta = ta - ta.min(1, keepdims=True)
            with np.errstate(all="ignore"):
                div = -np.mean(np.log(so))
                ta = ta / ta.sum(1, keepdims=True)
            pr = so if div > p["th"] else ta
            got = must("mano", sc, est, X, y, sample_domain=sd)
            eq("deep value", got, (m or 1) * np.mean(pr ** P_) ** (1 / P_))
            check("mano/branch", sc.chosen_normalization == ("softmax" if div > p["th"] else "taylor"))
            eq("the network's own output", est.out.numpy(), lg)
    elif k == "mixval":
        for ice in ("both", "intra", "inter"):
            for al in (.55, .3, .5):
                sc = ME.MixValScorer(alpha=al, ice_type=ice, random_state=p["seed"], **kw)
                Xt, pt = X[t], e.predict(X[t], sample_domain=sd[t])
                pm = np.random.RandomState(p["seed"]).permutation(len(Xt))
                mix, lab = al * Xt + (1 - al) * Xt[pm], pt if al >= .5 else pt[pm]
                ref = []
                for q in (pt == pt[pm], pt != pt[pm]):
                    ref.append(np.mean(e.predict(mix[q]) == lab[q]) if q.any() else np.nan)
                want = dict(both=np.nanmean(ref), intra=ref[0], inter=ref[1])[ice]
                eq("value", call(sc), (m or 1) * want)
    same_arr(f"{k}/estimator unchanged", e.predict(probe), before)
    for u, v in zip(c, (X, y, sd, yt)):
        same_arr(f"{k}/frame", v, u)


def rng_bool(p):
    return p["seed"] % 2 == 0


KINDS = dict(score=k_score)
NAMES = ["supervised", "iw", "entropy", "snd", "dev", "circular", "mano", "mixval"]


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(20 if tier == "quick" else 200):
        for k in NAMES:
            n, m, d = rng.randint(10, 24), rng.randint(6, 16), rng.randint(1, 3)
            pool = rng.choice([([1], [-2]), ([0, 2], [-1, -3]), ([0], [-1]), ([5, 3], [-7, -1])])
            sd = np.r_[np.resize(pool[0], n), np.resize(pool[1], m)]
            N = len(sd)
            cl = np.array(rng.choice([[0, 1], [0, 1, 2], [3, 7], [1, 2, 5]] if k != "dev" else [[0, 1], [0, 1, 2]]))
            q = (np.arange(N) // len(pool[0])) % len(cl)
            X = r.randn(N, d) + q[:, None] * 1.5 + np.where(sd < 0, .7, 0)[:, None]
            o = r.permutation(N) if rng.random() < .8 else np.arange(N)
            X, yt, sd = X[o], cl[q][o], sd[o]
            alt = cl[r.randint(len(cl), size=N)]
            yield "score", dict(scorer=k, X=X, y=np.where(sd >= 0, yt, -1), yt=yt, sd=sd, alt=alt, C=rng.choice([.1, 1, 100]), T=rng.choice([.05, .1, .5, .0005]), sign=rng.choice([None, None, 1, -1]),
                                seed=rng.randint(0, 99), deep=rng.random() < .5, W=r.randn(d, len(cl)) * rng.choice([.3, 1, 8]), th=rng.choice([.5, 1, 2, 5]),
                                est=rng.choice(["lr", "reweight", "coral", "knn", "one", "tree"] + ["tree"] * (k == "entropy")))
