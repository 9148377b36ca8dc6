"""P05: selectors send every sample to the estimator of its own domain and put
every output back at the sample's own position."""
import numpy as np

import skada
import skada._utils as _U
import skada.base as SB
from sklearn.utils.metadata_routing import get_routing_for_object
from dv.prop import Scn, Violation
from dv.spec import *
from dv.core import S, SArr, SMap, z3, zi
from props import stubs
from props.p04 import MODELS
from props.util import *

ID = "P05"
LEVEL = "proof"


def _map_of_estimators(cls):
    """a fitted dictionary domain label -> estimator of that domain"""
    K = length("K", 0)
    keys = ints(K, "key")
    c = ctx()
    a, b = iv("a"), iv("b")
    c.forall([a, b], z3.Implies(z3.And(0 <= a, a < b, b < zi(K)), keys.uf(a) != keys.uf(b)),
             [z3.MultiPattern(keys.uf(a), keys.uf(b))])
    return SMap(K, lambda j: el(keys, S(zi(j))), lambda j: cls(el(keys, S(zi(j))))), K, keys


def b_pd(cls, method):
    def b():
        n = length("n", 1)
        stubs.LOG.clear()
        X, sd = rows(n), ints(n, "sd")
        s = SB.PerDomain(cls(0))
        m, K, keys = _map_of_estimators(cls)
        s.estimators_ = m
        s.routing_ = get_routing_for_object(s.base_estimator)
        return (s, method, X), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), K=K, keys=keys, method=method)
    return b


def call_route(it, s, method, X, **kw):
    return it.call(s._route_to_estimator, (method, X), kw)


def p_pd(P, out, I):
    n, sd, keys, K = I["n"], I["sd"], I["keys"], I["K"]
    i = fresh_int("i")
    inr = And(i >= 0, i < n)
    known = lambda t: exists_idx(K, lambda q: el(keys, q) == el(sd, t))
    if out[0] == "raise":
        P("rejected with ValueError", type(out[1]) is ValueError)
        P("rejected only for a domain without estimator", exists_idx(n, lambda t: Not(known(t))))
        return
    r = out[1]
    P("one output per sample", ln(r) == n)
    d = el(sd, i)
    x = el(I["X"], i)
    if I["method"] == "transform":
        want = S(stubs.row_fun("T")(d.e, x.e))
    else:
        want = S(stubs.out_fun({"predict": "predict", "predict_proba": "proba", "decision_function": "decision"}[I["method"]])(d.e, x.e))
    P("the output of a sample comes from its own domain's estimator", Implies(inr, Same(el(r, i), want)))


# ------------------------------------------------------- SelectSourceTarget
def b_sst(cls, method):
    def b():
        n = length("n", 1)
        stubs.LOG.clear()
        X, sd = rows(n), ints(n, "sd")
        s = SB.SelectSourceTarget(cls(1), cls(2))
        s.estimators_ = {"source": cls(1), "target": cls(2)}
        return (s, method, X), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), method=method)
    return b


def p_sst(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    n, sd = I["n"], I["sd"]
    i = fresh_int("i")
    inr = And(i >= 0, i < n)
    r = out[1]
    P("one output per sample", ln(r) == n)
    x = el(I["X"], i)
    F = stubs.row_fun("T") if I["method"] == "transform" else stubs.out_fun({"predict": "predict", "predict_proba": "proba"}[I["method"]])
    P("source samples use the source estimator", Implies(And(inr, el(sd, i) >= 0), Same(el(r, i), S(F(zi(1), x.e)))))
    P("target samples use the target estimator", Implies(And(inr, el(sd, i) < 0), Same(el(r, i), S(F(zi(2), x.e)))))


def b_sst_fit(kind):
    def b():
        n = length("n", 1)
        stubs.LOG.clear()
        X, sd = rows(n), ints(n, "sd")
        y = ints(n, "y") if kind == "i" else floats(n, "y", nan=True)
        s = SB.SelectSourceTarget(stubs.Transf(1), stubs.Transf(2))
        return (s, X, y), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot())
    return b


def call_fit(it, s, X, y, **kw):
    return it.call(s.fit, (X, y), kw)


def p_sst_fit(P, out, I):
    n, sd = I["n"], I["sd"]
    if out[0] == "raise":
        P("rejected with ValueError", type(out[1]) is ValueError)
        i = fresh_int("i")
        P("rejected only when source or target samples are missing",
          Not(And(exists_idx(n, lambda t: el(sd, t) >= 0), exists_idx(n, lambda t: el(sd, t) < 0))))
        return
    log = [r for r in stubs.LOG if r[0] == "fit"]
    P("two estimators are fitted", len(log) == 2)
    for (_, est, X, y, kw), tg, lab, pred in ((log[0], 1, "source", lambda t: el(sd, t) >= 0), (log[1], 2, "target", lambda t: el(sd, t) < 0)):
        P(f"{lab}: own estimator", est.tag == tg)
        prove_selection(P, lab, X, I["X"], pred, [(y, I["y"]), (kw["sample_domain"], sd)])


# ------------------------------------------------------------- SelectSource/Target
def b_sel(sel):
    def b():
        n = length("n", 1)
        stubs.LOG.clear()
        X, sd = rows(n), ints(n, "sd")
        y = ints(n, "y")
        src_ = sel is SB.SelectSource
        assume(exists_idx(n, lambda i: (el(sd, i) >= 0) if src_ else (el(sd, i) < 0)))
        s = sel(stubs.Transf(1))
        w = floats(n, "w")
        return (s, X, y), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot(), src=src_)
    return b


def p_sel(P, out, I):
    if out[0] == "raise":
        return P.fail("fitting works", repr(out[1]))
    sd = I["sd"]
    log = [r for r in stubs.LOG if r[0] == "fit"]
    P("one fit", len(log) == 1)
    _, est, X, y, kw = log[0]
    prove_selection(P, "training set", X, I["X"], (lambda t: el(sd, t) >= 0) if I["src"] else (lambda t: el(sd, t) < 0),
                    [(y, I["y"]), (kw["sample_domain"], sd)])


def b_sh(sel, method, cls):
    def b():
        n = length("n", 1)
        stubs.LOG.clear()
        X, sd = rows(n), ints(n, "sd")
        s = sel(cls(7))
        s.base_estimator_ = cls(7)
        s.routing_ = get_routing_for_object(s.base_estimator)
        return (s, method, X), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), method=method)
    return b


def p_sh(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    i = fresh_int("i")
    r = out[1]
    P("one output per sample", ln(r) == I["n"])
    x = el(I["X"], i)
    F = stubs.row_fun("T") if I["method"] == "transform" else stubs.out_fun({"predict": "predict", "predict_proba": "proba"}[I["method"]])
    P("outputs stay at their sample's position", Implies(And(i >= 0, i < I["n"]), Same(el(r, i), S(F(zi(7), x.e)))))


# ------------------------------------------- routed parameters at prediction time
def b_w(sel):
    def b():
        n = length("n", 1)
        stubs.LOG.clear()
        X, sd, w = rows(n), ints(n, "sd"), floats(n, "w")
        cls = stubs.PredEstW
        if sel is SB.SelectSourceTarget:
            s = sel(cls(1), cls(2))
            s.estimators_ = {"source": cls(1), "target": cls(2)}
        else:
            s = sel(cls(0))
            s.routing_ = get_routing_for_object(s.base_estimator)
            if sel is SB.PerDomain:
                s.estimators_ = _map_of_estimators(cls)[0]
            else:
                s.base_estimator_ = cls(7)
        return (s, "predict", X), dict(sample_domain=sd, sample_weight=w), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), w=w.snapshot(), sel=sel)
    return b


def p_w(P, out, I):
    if out[0] == "raise":
        if I["sel"] is SB.PerDomain:
            return
        return P.fail("no exception", repr(out[1]))
    i = fresh_int("i")
    n, sd, r = I["n"], I["sd"], out[1]
    d = {SB.PerDomain: el(sd, i).e, SB.SelectSourceTarget: z3.If(el(sd, i).e >= 0, 1, 2)}.get(I["sel"], zi(7))
    P("one output per sample", ln(r) == n)
    P("the estimator gets each sample's own parameter",
      Implies(And(i >= 0, i < n), Same(el(r, i), S(stubs.predw()(d, el(I["X"], i).e, el(I["w"], i).e)))))


# --------------------------------------------------------------- PerDomain.fit
def b_pdfit(est):
    def b():
        n = length("n", 1)
        stubs.LOG.clear()
        X, sd = rows(n), ints(n, "sd")
        y = ints(n, "y")
        s = SB.PerDomain(est(0))
        if est is stubs.SymWeighted:
            w = floats(n, "w")
            return (s, X, y), dict(sample_domain=sd, sample_weight=w), dict(n=n, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot(), s=s, plain=False, w=w.snapshot())
        return (s, X, y), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot(), s=s, plain=est is stubs.SymPlain)
    return b


def p_pdfit(P, out, I):
    if out[0] == "raise":
        return P.fail("fitting works", repr(out[1]))
    n, sd, y0 = I["n"], I["sd"], I["y"]
    m = I["s"].estimators_
    if not isinstance(m, SMap):
        return P.fail("a mapping of estimators", str(type(m)))
    K = ln(m)
    q, i, k, k2 = (fresh_int(x) for x in ("q", "i", "k", "k2"))
    inq = And(q >= 0, q < K)
    key = m.key(zi(q))
    est = m.val(zi(q))
    X, y = est.X_, est.y_
    ok = (lambda t: And(el(sd, t) >= 0, el(y0, t) != -1)) if I["plain"] else (lambda t: S(z3.BoolVal(True)))
    ink = And(inq, k >= 0, k < ln(X))
    t = tag(el(X, k))
    P("only samples of the domain", Implies(ink, And(t >= 0, t < n, Same(el(X, k), el(I["X"], t)), el(sd, t) == key, ok(t))))
    P("order kept", Implies(And(ink, k2 > k, k2 < ln(X)), tag(el(X, k2)) > t))
    P("none lost", Implies(And(inq, i >= 0, i < n, el(sd, i) == key, ok(i)), exists_idx(ln(X), lambda z: tag(el(X, z)) == i)))
    P("labels aligned", Implies(ink, And(ln(y) == ln(X), el(y, k) == S(z3.If(el(sd, t).e >= 0, el(y0, t).e, -1)))))
    if "w" in I:
        P("weights and domain labels requested are given, nothing else", sorted(est.kw_) == ["sample_domain", "sample_weight"])
        w, dl = est.kw_["sample_weight"], est.kw_["sample_domain"]
        P("weights aligned", Implies(ink, And(ln(w) == ln(X), el(w, k) == el(I["w"], t))))
        P("domain labels aligned", Implies(ink, And(ln(dl) == ln(X), el(dl, k) == el(sd, t))))
    P("an estimator for every domain with usable samples",
      Implies(And(i >= 0, i < n, ok(i)), exists_idx(K, lambda z: m.key(zi(z)) == el(sd, i))))


# -------------------------------------------------------------- fit_transform
def b_ft(sel, container):
    def b():
        n = length("n", 1)
        stubs.LOG.clear()
        X, sd = rows(n), ints(n, "sd")
        y = ints(n, "y")
        if sel is SB.SelectSourceTarget:
            assume(exists_idx(n, lambda i: el(sd, i) >= 0))
            assume(exists_idx(n, lambda i: el(sd, i) < 0))
            s = sel(stubs.FT(1, container), stubs.FT(2, container))
        else:
            s = sel(stubs.FT(1, container))
        return (s, X, y), dict(sample_domain=sd), dict(n=n, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot(), sel=sel, container=container)
    return b


def call_ft(it, s, X, y, **kw):
    f = s.fit_transform
    return it.call(f, (X, y), kw)


def p_ft(P, out, I):
    if out[0] == "raise":
        return P.fail("fit_transform works", repr(out[1]))
    c = out[1]
    n, sd = I["n"], I["sd"]
    i = fresh_int("i")
    inr = And(i >= 0, i < n)
    x = el(I["X"], i)
    tg = zi(1) if I["sel"] is not SB.SelectSourceTarget else z3.If(el(sd, i).e >= 0, 1, 2)
    P("one output per sample", ln(c._features) == n)
    P("each output stands at its sample's position",
      Implies(inr, Same(el(c._features, i), S(stubs.row_fun("FT")(tg, x.e)))))
    if I["container"]:
        w = c._metadata["sample_weight"]
        P("adapter parameters stay aligned", And(ln(w) == n, Implies(inr, Same(el(w, i), S(stubs.out_fun("W")(tg, x.e))))))


def scenarios():
    out = []
    for meth in ("predict", "predict_proba", "decision_function"):
        out.append(Scn(f"PerDomain.{meth}", SB.PerDomain._route_to_estimator, b_pd(stubs.PredEst, meth), p_pd, call=call_route, models=MODELS, expect=("return", "raise")))
    out.append(Scn("PerDomain.transform", SB.PerDomain._route_to_estimator, b_pd(stubs.TransEst, "transform"), p_pd, call=call_route, models=MODELS, expect=("return", "raise")))
    for meth in ("predict", "predict_proba"):
        out.append(Scn(f"SelectSourceTarget.{meth}", SB.SelectSourceTarget._route_to_estimator, b_sst(stubs.PredEst, meth), p_sst, call=call_route, models=MODELS))
    out.append(Scn("SelectSourceTarget.transform", SB.SelectSourceTarget._route_to_estimator, b_sst(stubs.TransEst, "transform"), p_sst, call=call_route, models=MODELS))
    for k in "if":
        out.append(Scn(f"SelectSourceTarget.fit[{k}]", SB.SelectSourceTarget.fit, b_sst_fit(k), p_sst_fit, call=call_fit, models=MODELS, expect=("return", "raise")))
    for sel in (SB.SelectSource, SB.SelectTarget):
        out.append(Scn(f"{sel.__name__}.fit", sel.fit, b_sel(sel), p_sel, call=call_fit, models=MODELS))
    for sel in (SB.Shared, SB.SelectSource, SB.SelectTarget):
        out.append(Scn(f"{sel.__name__}.predict", SB.Shared._route_to_estimator, b_sh(sel, "predict", stubs.PredEst), p_sh, call=call_route, models=MODELS))
        out.append(Scn(f"{sel.__name__}.transform", SB.Shared._route_to_estimator, b_sh(sel, "transform", stubs.TransEst), p_sh, call=call_route, models=MODELS))
    for sel in (SB.Shared, SB.PerDomain, SB.SelectSourceTarget):
        for c_ in (False, True):
            out.append(Scn(f"{sel.__name__}.fit_transform[{'container' if c_ else 'plain'}]", sel.fit_transform, b_ft(sel, c_), p_ft, call=call_ft, models=MODELS, timeout_ms=40000, time_limit=300))
    for sel in (SB.Shared, SB.PerDomain, SB.SelectSourceTarget):
        out.append(Scn(f"{sel.__name__}.predict with weights", sel._route_to_estimator, b_w(sel), p_w, call=call_route, models=MODELS, expect=("return", "raise") if sel is SB.PerDomain else ("return",)))
    for est in (stubs.SymPlain, stubs.SymTransf, stubs.SymWeighted):
        out.append(Scn(f"PerDomain.fit[{est.__name__}]", SB.PerDomain.fit, b_pdfit(est), p_pdfit, call=call_fit, models=MODELS))
    return out


# ------------------------------------------------------------- runtime contract
class Echo(stubs.Base):
    """every output shows the row it was computed from and the training set"""

    def __init__(self, k=0, dtype="float64", cols=0, container=False):
        self.k, self.dtype, self.cols, self.container = k, dtype, cols, container

    def fit(self, X, y=None):
        self.id_ = float(np.sum(X)) + self.k
        self.n_ = len(X)
        return self

    def _out(self, X):
        v = X[:, 0] * 1000 + self.id_
        v = v if self.dtype == "float64" else np.floor(v)
        v = v.astype(self.dtype)
        return v if not self.cols else np.stack([v] * self.cols, 1) + np.arange(self.cols).astype(self.dtype)

    predict = predict_proba = decision_function = lambda self, X: self._out(X)


class EchoT(Echo):
    predict = predict_proba = decision_function = property()

    def transform(self, X):
        return self._out(X)


class EchoFT(EchoT):
    def fit_transform(self, X, y=None):
        self.fit(X)
        o = self._out(X)
        return (o, {"sample_weight": X[:, 0] + .5}) if self.container else o


def _want(X, sd, groups, ests, cols):
    out = [None] * len(sd)
    for g, e in zip(groups, ests):
        tr = X[g]
        for i in np.flatnonzero(g):
            out[i] = X[i, 0] * 1000 + tr.sum() + e.k
    out = np.array(out)
    for g, e in zip(groups, ests):
        if e.dtype != "float64":
            out[g] = np.floor(out[g])
    return out if not cols else np.stack([out] * cols, 1) + np.arange(cols)


def _groups(sel, sd):
    if sel == "per_domain":
        return [sd == d for d in np.unique(sd)]
    if sel == "sst":
        return [sd >= 0, sd < 0]
    return [np.ones(len(sd), bool)]


def k_route(p):
    """fit, then predict / transform on the same samples in another order"""
    X, sd, sel, cols = p["X"], p["sd"], p["sel"], p["cols"]
    cls = {"pred": Echo, "tr": EchoT, "ft": EchoFT}[p["kind"]]
    g = _groups(sel, sd)
    if sel == "sst":
        e1, e2 = cls(1, p["dt"][0], cols), cls(2, p["dt"][1], cols)
        s, ests = skada.SelectSourceTarget(e1, e2), [e1, e2]
    else:
        e = cls(3, p["dt"][0], cols)
        s, ests = {"per_domain": skada.PerDomain, "shared": skada.Shared}[sel](e, mask_target_labels=False), [e] * len(g)
    y = np.arange(len(sd)) % 2
    must("fit", s.fit, X, y, sample_domain=sd)
    want = _want(X, sd, g, ests, cols)
    perm = p["perm"]
    for m in (("transform",) if p["kind"] != "pred" else ("predict", "predict_proba", "decision_function")):
        r = must("route", getattr(s, m), X[perm], sample_domain=sd[perm])
        same_arr(f"route/{m}", r, want[perm], exact=False)
        # the answer for a sample does not depend on its companions
        sub = perm[: max(1, len(perm) // 2)]
        r = must("route", getattr(s, m), X[sub], sample_domain=sd[sub])
        same_arr(f"route/{m}-subset", r, want[sub], exact=False)


def k_ft(p):
    X, sd, sel, cont = p["X"], p["sd"], p["sel"], p["container"]
    cls = EchoFT if p["ft"] else EchoT
    g = _groups(sel, sd)
    if sel == "sst":
        e1, e2 = cls(1, container=cont), cls(2, container=cont)
        s, ests = skada.SelectSourceTarget(e1, e2), [e1, e2]
    else:
        e = cls(3, container=cont)
        s, ests = {"per_domain": skada.PerDomain, "shared": skada.Shared}[sel](e, mask_target_labels=False), [e] * len(g)
    y = np.arange(len(sd)) % 2
    c = must("fit_transform", s.fit_transform, X, y, sample_domain=sd)
    same_arr("fit_transform/features", c._features, _want(X, sd, g, ests, 0), exact=False)
    if cont and p["ft"]:
        same_arr("fit_transform/weights", c._metadata["sample_weight"], X[:, 0] + .5)


def k_unknown(p):
    """a domain that was not seen by PerDomain.fit is refused"""
    X, sd = p["X"], p["sd"]
    s = skada.PerDomain(Echo(1), mask_target_labels=False).fit(X, np.arange(len(sd)) % 2, sample_domain=sd)
    sd2 = sd.copy()
    sd2[p["at"]] = 99
    try:
        s.predict(X, sample_domain=sd2)
    except ValueError:
        return
    raise Violation("unknown-domain", "accepted")


def k_select(p):
    """SelectSource / SelectTarget train on exactly their side; outputs for all"""
    X, sd = p["X"], p["sd"]
    y = np.arange(len(sd))
    for sel, m in ((skada.SelectSource, sd >= 0), (skada.SelectTarget, sd < 0)):
        if not m.any():
            continue
        stubs.LOG.clear()
        s = sel(stubs.Domain())
        must("select", s.fit, X, y, sample_domain=sd)
        _, _, Xr, yr, kw = stubs.LOG[0]
        same_arr("select/X", Xr, X[m])
        same_arr("select/y", yr, y[m])
        same_arr("select/sample_domain", kw["sample_domain"], sd[m])


class Wt(stubs.Base):
    __metadata_request__fit = {"sample_weight": True, "sample_domain": True}
    __metadata_request__predict = {"sample_weight": True}

    def fit(self, X, y=None, sample_weight=None, sample_domain=None):
        stubs.LOG.append((X, y, sample_weight, sample_domain))
        self.fitted_ = True
        return self

    def predict(self, X, sample_weight=None):
        return X[:, 0] + 100 * sample_weight


def k_weights(p):
    """per-sample parameters follow their samples through every selector"""
    X, sd = p["X"], p["sd"]
    n = len(sd)
    w, y = np.arange(n) + .25, np.arange(n) % 2
    for nm, sel, ok in (("per_domain", lambda: skada.PerDomain(Wt(), mask_target_labels=False), None), ("shared", lambda: skada.Shared(Wt(), mask_target_labels=False), None),
                        ("source", lambda: skada.SelectSource(Wt(), mask_target_labels=False), sd >= 0), ("target", lambda: skada.SelectTarget(Wt()), sd < 0),
                        ("sst", lambda: skada.SelectSourceTarget(Wt(), Wt()), None)):
        if (ok is not None and not ok.any()) or (nm == "sst" and len(set((sd >= 0).tolist())) < 2):
            continue
        stubs.LOG.clear()
        s = must(f"weights/{nm}", sel().fit, X, y, sample_domain=sd, sample_weight=w)
        for Xf, yf, wf, df in stubs.LOG:
            pos = [int(np.flatnonzero((X == q).all(1))[0]) for q in Xf]
            same_arr(f"weights/{nm}/fit", wf, w[pos])
            same_arr(f"weights/{nm}/fit-domain", df, sd[pos])
            same_arr(f"weights/{nm}/fit-labels", yf, y[pos])
        r = must(f"weights/{nm}/predict", s.predict, X, sample_domain=sd, sample_weight=w)
        same_arr(f"weights/{nm}/predict", r, X[:, 0] + 100 * w, exact=False)


KINDS = dict(weights=k_weights, route=k_route, ft=k_ft, unknown=k_unknown, select=k_select)


def cases(rng, tier):
    r = nprng(rng)
    for _ in range(160 if tier == "quick" else 3000):
        n = rng.randint(2, 9)
        sd = r.choice([-3, -2, 1, 2, 0], size=n)
        if rng.random() < .5:
            sd[0], sd[-1] = (1, -2) if rng.random() < .5 else (-2, 1)
        both = (sd >= 0).any() and (sd < 0).any()
        sel = rng.choice(["per_domain", "shared", "sst"])
        X = np.round(r.randn(n, 2), 3)
        if sel == "sst" and not both:
            sel = "per_domain"
        kind = rng.choice(["pred", "tr", "ft"])
        dt = rng.choice([("float64", "float64"), ("int64", "float64"), ("float64", "int64")])
        perm = r.permutation(n)
        yield "route", dict(X=X, sd=sd, sel=sel, cols=rng.choice([0, 0, 2]), kind=kind, dt=list(dt), perm=perm)
        ft = rng.random() < .6
        yield "ft", dict(X=X, sd=sd, sel=sel, container=ft and rng.random() < .5, ft=ft)
        yield "unknown", dict(X=X, sd=sd, at=rng.randrange(n))
        yield "select", dict(X=X, sd=sd)
        yield "weights", dict(X=r.permutation(n)[:, None] + r.rand(n, 1), sd=sd)
