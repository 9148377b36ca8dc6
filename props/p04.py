"""P04: labels of target samples never reach an estimator trained through a
masking selector; the samples it is trained on stay aligned."""
import numpy as np
from sklearn.utils._metadata_requests import MethodMetadataRequest

import skada
import skada._utils as _U
import skada.base as SB
from dv.prop import Scn, Violation
from dv.spec import *
from dv.core import S, SArr, z3, zi
from props import stubs
from props.util import *

ID = "P04"
LEVEL = "proof"
MODELS = {
    MethodMetadataRequest._route_params: MethodMetadataRequest._route_params,
    MethodMetadataRequest._consumes: MethodMetadataRequest._consumes,
}


def _y(n, kind):
    return ints(n, "y") if kind == "i" else floats(n, "y", nan=True)


def _inputs(kind):
    n = length("n", 1)
    stubs.LOG.clear()
    return n, rows(n), _y(n, kind), ints(n, "sd")


# ------------------------------------------------------------ _remove_masked
def b_rm(kind):
    def b():
        n, X, y, sd = _inputs(kind)
        w = floats(n, "w")
        return (X, y, {"w": w, "flag": True}), {}, dict(n=n, X=X.snapshot(), y=y.snapshot(), w=w.snapshot(), kind=kind)
    return b


def keepers(kind, y, n):
    """(may(i): the sample may be kept, must(i): it has to be kept)"""
    if kind == "i":
        f = lambda i: el(y, i) != -1
        return f, f
    nan = lambda i: S(el(y, i).nan)
    return (lambda i: Not(nan(i))), (lambda i: And(Not(nan(i)), el(y, i) != -1))


def p_rm(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    X, y, params = out[1]
    _selection(P, "kept", X, y, I, *keepers(I["kind"], I["y"], I["n"]))
    k = fresh_int("k")
    w = params["w"]
    P("weights stay aligned", And(ln(w) == ln(X), Implies(And(k >= 0, k < ln(X)), Same(el(w, k), el(I["w"], tag(el(X, k)))))))
    P("other parameters pass", params["flag"] is True and set(params) == {"w", "flag"})


def _selection(P, lab, X, y, I, may, must_, sd=None):
    n, m = I["n"], ln(X)
    k, k2, i = fresh_int("k"), fresh_int("k2"), fresh_int("i")
    inr = And(k >= 0, k < m)
    r = el(X, k)
    t = tag(r)
    P(f"{lab}: only allowed samples, unchanged", Implies(inr, And(t >= 0, t < n, Same(r, el(I["X"], t)), may(t))))
    P(f"{lab}: order kept, none twice", Implies(And(inr, k2 > k, k2 < m), tag(el(X, k2)) > t))
    P(f"{lab}: no labelled sample lost", Implies(And(i >= 0, i < n, must_(i)), exists_idx(m, lambda q: tag(el(X, q)) == i)))
    P(f"{lab}: one label per sample", ln(y) == m)
    P(f"{lab}: own label", Implies(inr, Same(el(y, k), el(I["y"], t))))


# ------------------------------------------------------------------- masking
def b_mask(kind):
    def b():
        n, X, y, sd = _inputs(kind)
        s = SB.Shared(stubs.Plain())
        return (s, y, {"sample_domain": sd}), {}, dict(n=n, y=y, y0=y.snapshot(), sd=sd.snapshot(), kind=kind)
    return b


def _masked(P, y, I, lab=""):
    i = fresh_int("i")
    inr = And(i >= 0, i < I["n"])
    y0, sd = I["y0"], I["sd"]
    v = el(y, i)
    isnan = S(v.nan) if v.nan is not None else S(z3.BoolVal(False))
    if I["kind"] == "i":
        m = v == -1
    else:
        # regression labels (missing or fractional values) are masked by NaN, classes by -1
        frac = lambda t: Or(S(el(y0, t).nan), S(el(y0, t).e != z3.ToReal(z3.ToInt(el(y0, t).e))))
        reg = exists_idx(I["n"], frac)
        m = Or(And(isnan, reg), And(Not(isnan), v == -1, Not(reg)))
    P(lab + "one label per sample", ln(y) == I["n"])
    P(lab + "target labels are masked", Implies(And(inr, el(sd, i) < 0), m))
    P(lab + "source labels are kept", Implies(And(inr, el(sd, i) >= 0), Same(v, el(y0, i))))


def p_mask(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    _masked(P, out[1], I)
    P("the caller's labels are not modified", arr_same(I["y"], I["y0"]))


# ---------------------------------------------------------------- selectors
def b_fit(sel, est, kind, weights=False):
    def b():
        n, X, y, sd = _inputs(kind)
        if sel is SB.SelectSource:
            assume(exists_idx(n, lambda i: el(sd, i) >= 0))
        s = sel(est())
        kw = dict(sample_domain=sd)
        w = None
        if weights:
            w = floats(n, "w")
            kw["sample_weight"] = w
        return (s, X, y), kw, dict(n=n, X=X.snapshot(), y=y, y0=y.snapshot(), sd=sd.snapshot(), kind=kind,
                                  w=None if w is None else w.snapshot(), s=s)
    return b


def call_fit(it, s, X, y, **kw):
    return it.call(s.fit, (X, y), kw)


def p_fit_plain(P, out, I):
    """estimator without domain labels: exactly the labelled source samples"""
    if out[0] == "raise":
        return P.fail("fitting works", repr(out[1]))
    log = [r for r in stubs.LOG if r[0] == "fit"]
    P("the base estimator is fitted once", len(log) == 1)
    _, est, X, y, kw = log[0]
    may, must_ = keepers(I["kind"], I["y0"], I["n"])
    sd = I["sd"]
    J = dict(I, y=I["y0"])
    _selection(P, "training set", X, y, J, lambda i: And(el(sd, i) >= 0, may(i)), lambda i: And(el(sd, i) >= 0, must_(i)))
    if I["w"] is not None:
        w = kw["sample_weight"]
        k = fresh_int("k")
        P("weights stay aligned", And(ln(w) == ln(X), Implies(And(k >= 0, k < ln(X)), Same(el(w, k), el(I["w"], tag(el(X, k)))))))
    P("the caller's labels are not modified", arr_same(I["y"], I["y0"]))


def p_fit_domain(P, out, I):
    """estimator that asks for domain labels: everything, target labels masked"""
    if out[0] == "raise":
        return P.fail("fitting works", repr(out[1]))
    log = [r for r in stubs.LOG if r[0] == "fit"]
    P("the base estimator is fitted once", len(log) == 1)
    _, est, X, y, kw = log[0]
    P("all samples are given", arr_same(X, I["X"]))
    P("with their domain labels", arr_same(kw["sample_domain"], I["sd"]))
    _masked(P, y, I)
    P("the caller's labels are not modified", arr_same(I["y"], I["y0"]))


def p_fit_source(P, out, I):
    if out[0] == "raise":
        return P.fail("fitting works", repr(out[1]))
    log = [r for r in stubs.LOG if r[0] == "fit"]
    P("the base estimator is fitted once", len(log) == 1)
    _, est, X, y, kw = log[0]
    sd = I["sd"]
    f = lambda i: el(sd, i) >= 0
    _selection(P, "training set", X, y, dict(I, y=I["y0"]), f, f)
    P("the caller's labels are not modified", arr_same(I["y"], I["y0"]))


def scenarios():
    out = []
    for k in "if":
        out.append(Scn(f"_remove_masked[{k}]", _U._remove_masked, b_rm(k), p_rm))
        out.append(Scn(f"_auto_mask_target_labels[{k}]", SB.BaseSelector._auto_mask_target_labels, b_mask(k), p_mask))
        out.append(Scn(f"Shared.fit[plain,{k}]", SB.Shared.fit, b_fit(SB.Shared, stubs.Plain, k), p_fit_plain, call=call_fit, models=MODELS))
        out.append(Scn(f"Shared.fit[weights,{k}]", SB.Shared.fit, b_fit(SB.Shared, lambda: stubs.Plain().set_fit_request(sample_weight=True), k, True), p_fit_plain, call=call_fit, models=MODELS))
        out.append(Scn(f"Shared.fit[domain-aware,{k}]", SB.Shared.fit, b_fit(SB.Shared, stubs.Domain, k), p_fit_domain, call=call_fit, models=MODELS))
        out.append(Scn(f"Shared.fit[transformer,{k}]", SB.Shared.fit, b_fit(SB.Shared, stubs.Transf, k), p_fit_domain, call=call_fit, models=MODELS))
        out.append(Scn(f"SelectSource.fit[plain,{k}]", SB.SelectSource.fit, b_fit(SB.SelectSource, stubs.Plain, k), p_fit_plain, call=call_fit, models=MODELS))
        out.append(Scn(f"SelectSource.fit[transformer,{k}]", SB.SelectSource.fit, b_fit(SB.SelectSource, stubs.Transf, k), p_fit_source, call=call_fit, models=MODELS))
    return out


# ------------------------------------------------------------- runtime contract
class Rec(stubs.Base):
    """records what it is trained on (run-time side)"""


def _selector(name, est, default):
    from skada import PerDomain, SelectSource, Shared
    return {"shared": Shared, "per_domain": PerDomain, "source": SelectSource}[name](est)


def _mask_oracle(y, sd, cont):
    y = np.array(y, copy=True)
    y[sd < 0] = np.nan if cont else -1
    return y


def k_fit(p):
    """what reaches the base estimator, for every selector"""
    X, y, sd, w, cont = p["X"], p["y"].copy(), p["sd"], p["w"], p["cont"]
    X0, y0 = X.copy(), y.copy()
    cls = getattr(stubs, p["est"])
    est = cls()
    kw = {}
    if p["est"] == "Plain" and w is not None:
        est.set_fit_request(sample_weight=True)
        kw["sample_weight"] = w
    stubs.LOG.clear()
    sel = _selector(p["sel"], est, None)
    if p["pipe"]:
        sel = skada.make_da_pipeline(sel)
        fit = sel.fit
    else:
        fit = sel.fit
    if p["sel"] == "source" and not (sd >= 0).any():
        return
    must("fit", fit, X, y, sample_domain=sd, **kw)
    log = [r for r in stubs.LOG if r[0] == "fit"]
    ym = _mask_oracle(y0, sd, cont)
    plain = p["est"] == "Plain"
    keep = np.ones(len(sd), bool)
    if p["sel"] == "source":
        keep &= sd >= 0
    if plain:
        keep &= ~np.isnan(ym) if cont else ym != -1
    groups = [keep] if p["sel"] != "per_domain" else [keep & (sd == d) for d in np.unique(sd[keep])]
    check("fits/count", len(log) == len(groups), (len(log), len(groups)))
    for (_, _, Xr, yr, kr), g in zip(log, groups):
        same_arr("training-set/X", Xr, X0[g])
        same_arr("training-set/y", yr, ym[g])
        if not plain:
            same_arr("training-set/sample_domain", kr["sample_domain"], sd[g])
        elif w is not None:
            same_arr("training-set/weights", kr["sample_weight"], w[g])
    same_arr("frame/y", y, y0)
    same_arr("frame/X", X, X0)


def k_rm(p):
    X, y, w, cont = p["X"], p["y"], p["w"], p["cont"]
    Xr, yr, pr = must("remove", _U._remove_masked, X, y, {"w": w, "k": 3})
    m = ~np.isnan(y) if cont else y != -1
    same_arr("remove/X", Xr, X[m])
    same_arr("remove/y", yr, y[m])
    same_arr("remove/w", pr["w"], w[m])
    check("remove/other", pr["k"] == 3, pr)


def k_influence(p):
    """end to end: the fitted pipeline does not depend on target labels"""
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.preprocessing import StandardScaler
    import skada as sk
    X, y, y2, sd = p["X"], p["y"].copy(), p["y2"].copy(), p["sd"]
    n_cls = len(np.unique(y[sd >= 0]))
    if not p["cont"] and n_cls < 2:
        return
    mk = {
        "plain": lambda: sk.make_da_pipeline(StandardScaler(), Ridge() if p["cont"] else LogisticRegression()),
        "coral": lambda: sk.make_da_pipeline(sk.CORALAdapter(reg=.1), Ridge() if p["cont"] else LogisticRegression()),
        "reweight": lambda: sk.make_da_pipeline(
            sk.DensityReweightAdapter(),
            (Ridge() if p["cont"] else LogisticRegression()).set_fit_request(sample_weight=True)),
        "nn": lambda: sk.make_da_pipeline(
            sk.NearestNeighborReweightAdapter(),
            (Ridge() if p["cont"] else LogisticRegression()).set_fit_request(sample_weight=True)),
        "sa": lambda: sk.make_da_pipeline(sk.SubspaceAlignmentAdapter(n_components=1), Ridge() if p["cont"] else LogisticRegression()),
    }[p["pipe"]]
    a, b = mk(), mk()
    ya, yb = y.copy(), y2.copy()
    must("influence", a.fit, X, ya, sample_domain=sd)
    must("influence", b.fit, X, yb, sample_domain=sd)
    same_arr("influence/prediction", b.predict(X, sample_domain=sd, allow_source=True), a.predict(X, sample_domain=sd, allow_source=True), exact=False)
    same_arr("frame/y", ya, y)


KINDS = dict(fit=k_fit, rm=k_rm, influence=k_influence)


def cases(rng, tier):
    r = nprng(rng)
    N = 4 if tier == "quick" else 40
    for sel in ("shared", "per_domain", "source"):
        for est in ("Plain", "Domain", "Transf"):
            for cont in (False, True):
                for pipe in (False, True):
                    for q in range(N):
                        n = rng.randint(2, 9)
                        sd = r.choice([-3, -2, 1, 2, 0], size=n)
                        if q == 0:
                            sd = np.array([-2] * (n // 2) + [1] * (n - n // 2))
                        if q == 1:
                            sd = np.array([1] * (n // 2) + [-2] * (n - n // 2))
                        y = r.randn(n) if cont else r.randint(-1 if q % 2 else 0, 3, size=n)
                        if cont:
                            y[r.rand(n) < .2] = np.nan
                            if not np.isnan(y).any():
                                y[0] = .5
                        if not (sd >= 0).any():
                            sd[0] = 1
                        m = ~np.isnan(y) if cont else y != -1
                        if not (m & (sd >= 0)).any():
                            y[np.flatnonzero(sd >= 0)[0]] = .25 if cont else 1
                        if cont and q >= 2 and (sd < 0).any():
                            # source labels that look like classes
                            y[sd >= 0] = np.abs(np.round(y[sd >= 0] * 2))
                            y[np.flatnonzero(sd < 0)[0]] = .75
                        yield "fit", dict(X=r.randn(n, 2), y=y, sd=sd, w=r.rand(n) if q % 2 else None, cont=cont,
                                          sel=sel, est=est, pipe=pipe)
    for _ in range(60 if tier == "quick" else 800):
        n = rng.randint(1, 12)
        cont = rng.random() < .5
        y = r.randn(n) if cont else r.randint(-1, 3, size=n)
        if cont:
            y[r.rand(n) < .4] = np.nan
            y[0] = .5
        yield "rm", dict(X=r.randn(n, 2), y=y, w=r.rand(n), cont=cont)
    for pipe in ("plain", "coral", "reweight", "nn", "sa"):
        for cont in (False, True):
            for _ in range(2 if tier == "quick" else 20):
                n = 24
                sd = r.choice([-2, 1, 2, -1], size=n)
                y = r.randn(n) if cont else r.randint(0, 2, size=n)
                y2 = y.copy()
                t = sd < 0
                y2[t] = r.randn(t.sum()) if cont else r.randint(0, 5, size=t.sum())
                yield "influence", dict(X=r.randn(n, 2), y=y, y2=y2, sd=sd, cont=cont, pipe=pipe)
