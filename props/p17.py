"""P17: gradual adaptation trains on true interpolations between source and target
samples that the transport plan pairs, labelled by the classifier of the step before."""
from copy import deepcopy

import numpy as np
import ot
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from sklearn.neural_network import MLPClassifier

import skada
import skada._gradual_da as GD
from dv.prop import Scn, Violation, Skip, opt
from dv.spec import *
from dv.core import S, SArr, ctx, z3, zi, R, RowSort, I as INT
from dv import npmodel
from props.p12 import witnesses, call_m
from props.util import *

ID = "P17"
LEVEL = "proof"

LOG = []
PRED = z3.Function("grad_pred", INT, RowSort, INT)
PROBA = z3.Function("grad_proba", INT, RowSort, INT, R)


class Clf:
    _dv_native = True
    _dv_sym = True

    def __init__(self, parent=None, **kw):
        self.parent, self.k, self.max_iter, self.kw = parent, -1, 100, kw
        self.classes_ = None

    def fit(self, X, y, **kw):
        self.k = len([e for e in LOG if e[0] == "fit"])
        LOG.append(("fit", self, X, y, kw))
        return self

    def predict(self, X, **kw):
        X = npmodel.lit(X)
        if not X.rows:
            LOG.append(("predict", self, self.k, X, out := ints(X.shape[0], "lab")))
            return out
        f, k = X.fn, self.k
        return SArr((X.shape[0],), "i", lambda i: S(PRED(k, f(i).e)))

    def predict_proba(self, X, **kw):
        f, k, s = npmodel.lit(X).fn, self.k, X.shape[0]
        return SArr((s, 2), "f", lambda i, c: S(PROBA(k, f(i).e, c)))

    def predict_log_proba(self, X, **kw):
        f, k, s = npmodel.lit(X).fn, self.k, X.shape[0]
        return SArr((s, 2), "f", lambda i, c: S(PROBA(-5 - k, f(i).e, c)))


class Transport:
    _dv_native = True
    _dv_sym = True

    def __init__(self, parent=None):
        self.parent = parent

    def fit(self, Xs=None, ys=None, Xt=None, yt=None):
        LOG.append(("ot", self, Xs, ys, Xt, yt))
        self.coupling_ = matrix(Xs.shape[0], Xt.shape[0], "G")
        return self


def m_clone(e, **kw):
    return type(e)(e)


def m_mlp(**kw):
    return Clf(None, **kw)


def m_deepcopy(e):
    if isinstance(e, Transport):
        return Transport(e)
    LOG.append(("copy", e, e.k))
    c = Clf(e.parent)
    c.k = e.k
    return c


def m_fitted(e, *a, **kw):
    if e.k < 0:
        raise GD_NotFitted()


class GD_NotFitted(ValueError):
    pass


def fitted(k=9):
    c = Clf()
    c.k = k
    return c


def est(**kw):
    a = GD.GradualEstimator.__new__(GD.GradualEstimator)
    for k, v in dict(alpha=1, n_steps=2, ot_method=Transport(), base_estimator=Clf(), advanced_ot_plan_sampling=False,
                     save_estimators=False, save_intermediate_data=False, **{}).items():
        setattr(a, k, kw.get(k, v))
    return a


# ------------------------------------------------------------------ the mask
def b_cut():
    LOG.clear()
    n, m = length("n", 1), length("m", 1)
    G = matrix(n, m, "G")
    al = S(ctx().fresh("f", "alpha"))
    assume(al > 0)
    a = est(alpha=al)
    return (a, G), {}, dict(a=a, G=G.snapshot(), n=n, m=m, al=al)


def p_cut(P, out, I):
    if out[0] == "raise":
        return P.fail("the plan is cut", repr(out[1]))
    M, G, n, m, a, al = out[1], I["G"], I["n"], I["m"], I["a"], I["al"]
    P("a mask of the plan's shape", And(S(zi(M.shape[0])) == n, S(zi(M.shape[1])) == m, M.k == "b"))
    i, j, i2, j2 = (fresh_int(q) for q in "ijuv")
    cell = lambda i, j: And(i >= 0, i < n, j >= 0, j < m)
    mk = lambda i, j: el2(M, i, j)
    K = S(zi(a.max_index)) + 1
    if P("at least one, at most all", And(K >= 1, K <= n * m)):
        ctx().fact(And(K >= 1, K <= npmodel.gridsize(n, m)).e)
    ar = ctx().memo.get("argsorts", [])
    if ar:
        p, ip, N = ar[-1]
        pos = npmodel.gridpos(n, m)
        x = lambda i, j: pos(i.e, j.e)
        for u, v in ((i, j), (i2, j2)):
            hint(Implies(cell(u, v), And(S(ip(x(u, v))) >= 0, S(ip(x(u, v))) < S(N), S(p(ip(x(u, v)))) == S(x(u, v)))))
            hint(Implies(cell(u, v), Iff(mk(u, v), S(ip(x(u, v))) >= S(N) - S(zi(a.max_index)) - 1)))
    P("what is kept is no smaller than what is cut", Implies(And(cell(i, j), cell(i2, j2), mk(i, j), Not(mk(i2, j2))), el2(G, i, j) >= el2(G, i2, j2)))
    # exactly max_index+1 cells: they are enumerated without repetition
    tot = n * m
    want = npmodel.ite((al * (n + m) < tot - 1).e, S(z3.ToReal(z3.ToInt((al * (n + m)).e))), S(z3.ToReal((tot - 1).e))) + 1
    P("the number kept: alpha (n + m), within the plan", S(z3.ToReal(K.e)) == want)
    return mask_count(P, M, n, m, K)


def hint(e):
    """an intermediate fact: used when it follows, dropped when it does not"""
    e = e.e if isinstance(e, S) else e
    c = ctx()
    ok = c.check_linear(z3.Not(e), 3000)[0] == "unsat" or c.entails(e, 3000)
    if ok:
        ctx().fact(e)
    return ok


def mask_count(P, M, n, m, K):
    """the mask has exactly K cells"""
    co = npmodel.compaction(npmodel.ravel(M))
    ar = ctx().memo.get("argsorts", [])
    if ar:
        # the last K places of the order and the cells of the mask are in bijection (by place
        # and by rank), so there are as many of them
        p, ip, N = ar[-1]
        q, k = fresh_int("q"), fresh_int("k")
        f = lambda q: co.rank(p(N - K.e + q.e))
        g = lambda k: ip(co.sel(k.e)) - (N - K.e)
        inq, ink = And(q >= 0, q < K), And(k >= 0, k < S(co.m))
        x = S(p(N - K.e + q.e))
        steps = [Implies(inq, And(x >= 0, x < S(N), S(ip(x.e)) == S(N) - K + q)),
                 Implies(inq, co.mask(x.e)),
                 Implies(inq, And(S(f(q)) >= 0, S(f(q)) < S(co.m), S(co.sel(f(q))) == x, S(g(S(f(q)))) == q)),
                 Implies(ink, And(S(g(k)) >= 0, S(g(k)) < K, S(f(S(g(k)))) == k))]
        if all([hint(e) for e in steps]):
            npmodel.note("lemma: two finite ranges in bijection have the same length")
            ctx().fact(co.m == K.e)
    P("as many cells as announced", S(co.m) == K)


def b_adv():
    LOG.clear()
    n, m = length("n", 1), length("m", 1)
    G = matrix(n, m, "G")
    a = est(advanced_ot_plan_sampling=True)
    return (a, G), {}, dict(a=a, G=G.snapshot(), n=n, m=m)


def p_adv(P, out, I):
    if out[0] == "raise":
        return P.fail("the plan is cut", repr(out[1]))
    M, G, n, m, a = out[1], I["G"], I["n"], I["m"], I["a"]
    P("a mask of the plan's shape", And(S(zi(M.shape[0])) == n, S(zi(M.shape[1])) == m, M.k == "b"))
    i, j, i2, j2 = (fresh_int(q) for q in "ijuv")
    cell = lambda i, j: And(i >= 0, i < n, j >= 0, j < m)
    mk = lambda i, j: el2(M, i, j)
    P("a cell kept is a largest of its row or of its column",
      Implies(And(cell(i, j), mk(i, j), cell(i2, j2)), Or(el2(G, i, j) >= el2(G, i, j2), el2(G, i, j) >= el2(G, i2, j))))
    q = iv("q")
    P("every row keeps a largest coefficient", Implies(cell(i, j), S(z3.Exists([q], z3.And(0 <= q, q < m.e, M.fn(i.e, q).e, G.fn(i.e, q).e >= G.fn(i.e, j.e).e)))))
    P("every column too", Implies(cell(i, j), S(z3.Exists([q], z3.And(0 <= q, q < n.e, M.fn(q, j.e).e, G.fn(q, j.e).e >= G.fn(i.e, j.e).e)))))
    mask_count(P, M, n, m, S(zi(a.max_index)) + 1)


# ------------------------------------------------------------------ one step
def b_step(n_steps, step, kind="f"):
    def b():
        LOG.clear()
        n, d = length("n", 1), length("d", 1)
        X, sd = npmodel.arr_uf("X", (n, d), kind, tag="X"), ints(n, "sd")
        a = est(n_steps=n_steps)
        a.base_estimator_ = fitted(3)
        s = SArr((n,), "b", lambda i: S(sd.fn(i).e >= 0))
        t = SArr((n,), "b", lambda i: S(sd.fn(i).e < 0))
        cs, ct = npmodel.compaction(s), npmodel.compaction(t)
        M = npmodel.arr_uf("mask", (S(cs.m), S(ct.m)), "b")
        co = npmodel.compaction(npmodel.ravel(M))
        a.max_index = S(co.m) - 1
        assume(S(co.m) >= 1)
        return (a, X, sd, M, step), {}, dict(a=a, X=X.snapshot(), sd=sd.snapshot(), M=M.snapshot(), cs=cs, ct=ct, co=co, step=step, T=n_steps, n=n, d=d)
    return b


def p_step(P, out, I):
    if out[0] == "raise":
        return P.fail("the step's data exist", repr(out[1]))
    Xh, yh = out[1]
    X, cs, ct, co = I["X"], I["cs"], I["ct"], I["co"]
    P("one sample per pair kept", And(S(zi(Xh.shape[0])) == S(co.m), S(zi(Xh.shape[1])) == I["d"]))
    k, c = fresh_int("k"), fresh_int("c")
    r, q = npmodel.grid(S(cs.m), S(ct.m))
    i, j = cs.sel(r(co.sel(k.e))), ct.sel(q(co.sel(k.e)))
    w = S(z3.RealVal(I["step"]) / I["T"])
    P("each between the two samples of its pair, as far along as the step",
      Implies(And(k >= 0, k < S(co.m), c >= 0, c < I["d"]), el2(Xh, k, c) == (1 - w) * npmodel.cast(X.fn(i, c.e), "f") + w * npmodel.cast(X.fn(j, c.e), "f")))
    P("a source and a target sample", Implies(And(k >= 0, k < S(co.m)), And(S(I["sd"].fn(i).e >= 0), S(I["sd"].fn(j).e < 0))))
    pr = [e for e in LOG if e[0] == "predict"]
    P("labelled by the current classifier", len(pr) == 1 and pr[0][1] is I["a"].base_estimator_ and pr[0][2] == 3 and yh is pr[0][4] and pr[0][3] is Xh)


# ----------------------------------------------------------------------- fit
def c_cut(which):
    def c(it, a, G):
        n, m = G.shape
        M = npmodel.arr_uf("mask", (n, m), "b")
        a.max_index = length("mi", 0)
        LOG.append((which, G, M))
        return M
    return c


def c_gen(it, a, X, sd, M, step):
    K = length("K", 1)
    out = matrix(K, X.shape[1], "Xstep"), ints(K, "ystep")
    LOG.append(("gen", a.base_estimator_, a.base_estimator_.k, X, sd, M, step, out))
    return out


def b_fit(T, adv, base, save):
    def b():
        LOG.clear()
        n = length("n", 1)
        X, sd, y = rows(n, name="X"), ints(n, "sd"), ints(n, "y")
        witnesses(n, sd, True, True)
        be = Clf() if base else None
        a = est(n_steps=T, base_estimator=be, advanced_ot_plan_sampling=adv, save_estimators=save, save_intermediate_data=save)
        return (a, X, y), dict(sample_domain=sd), dict(a=a, be=be, ot=a.ot_method, X=X, Xv=X.snapshot(), y=y.snapshot(), sd=sd, sdv=sd.snapshot(), T=T, adv=adv, save=save)
    return b


def p_fit(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are fitted", repr(out[1]))
    a, T = I["a"], I["T"]
    P("fit returns the estimator", out[1] is a)
    by = lambda k: [e for e in LOG if e[0] == k]
    o, fits, gens, cuts = by("ot"), by("fit"), by("gen"), by("adv" if I["adv"] else "cut")
    ot = a.ot_method
    P("the solver given is left alone; a clone of it makes the plan", ot is I["ot"] and not hasattr(ot, "coupling_"))
    P("one plan, of the solver given", len(o) == 1 and o[0][1].parent is ot and not by("cut" if I["adv"] else "adv"))
    s, t = (lambda i: el(I["sdv"], i) >= 0), (lambda i: el(I["sdv"], i) < 0)
    prove_selection(P, "from the source samples", o[0][2], I["Xv"], s, [(o[0][3], I["y"])])
    prove_selection(P, "to the target samples", o[0][4], I["Xv"], t)
    P("cut by the rule asked for", len(cuts) == 1 and cuts[0][1] is o[0][1].coupling_)
    e = a.base_estimator_
    P("the estimator given is left alone; a clone of it is trained", (I["be"] is None or (e is not I["be"] and e.parent is I["be"] and I["be"].k == -1 and I["be"].max_iter == 100)) and a.base_estimator is I["be"])
    P("first on the source samples, then once per step", len(fits) == T + 1 and all(f[1] is e and not f[4] for f in fits))
    prove_selection(P, "first fit", fits[0][2], I["Xv"], s, [(fits[0][3], I["y"])])
    P("steps 1 ... n_steps, in order", [g[6] for g in gens] == list(range(1, T + 1)))
    for k, g in enumerate(gens):
        P(f"step {k + 1}: data of this step, labelled by the classifier of the one before",
          g[1] is e and g[2] == k and arr_same(g[3], I["Xv"]) and g[5] is cuts[0][2])
        P(f"step {k + 1}: with the domains given", arr_same(g[4], I["sdv"]))
        P(f"step {k + 1}: trained on them", fits[k + 1][2] is g[7][0] and fits[k + 1][3] is g[7][1])
    if I["save"]:
        P("every classifier is kept, as it was at its step", [x.k for x in a.estimators_] == list(range(T + 1)) and all(x is not e for x in a.estimators_))
        P("and every step's data", len(a.intermediate_data_) == T and all(u[0] is g[7][0] and u[1] is g[7][1] for u, g in zip(a.intermediate_data_, gens)))
    else:
        P("no classifier is kept", list(a.estimators_) == [])


# --------------------------------------------------------------- predictions
def b_pred(m, have):
    def b():
        LOG.clear()
        n = length("n", 1)
        X, y = rows(n, name="X"), ints(n, "y")
        a = est()
        if have:
            a.base_estimator_ = fitted(9)
        return (a, X) + ((y,) if m == "score" else ()), {}, dict(a=a, X=X.snapshot(), y=y.snapshot(), m=m, n=n, have=have)
    return b


def p_pred(P, out, I):
    if not I["have"]:
        return P("refused before fit", out[0] == "raise" and isinstance(out[1], ValueError))
    if out[0] == "raise":
        return P.fail("samples are predicted", repr(out[1]))
    r, m, n, X = out[1], I["m"], I["n"], I["X"]
    if m == "score":
        co = npmodel.compaction(SArr((n,), "b", lambda i: S(PRED(9, X.fn(i).e) == I["y"].fn(i).e)))
        return P("the proportion of samples predicted right", S(zi(n)) * r == S(z3.ToReal(co.m)))
    i, c = fresh_int("i"), fresh_int("c")
    x = el(X, i).e
    inr = And(i >= 0, i < n, c >= 0, c < 2)
    v = {"predict": lambda: (el(r, i), S(PRED(9, x))),
         "predict_proba": lambda: (el2(r, i, c), S(PROBA(9, x, c.e))),
         "predict_log_proba": lambda: (el2(r, i, c), S(PROBA(-14, x, c.e)))}[m]()
    P("answer of the last classifier", And(ln(r) == n, Implies(inr, v[0] == v[1])))


def scenarios():
    C = lambda m: opt(GD, f"GradualEstimator.{m}")
    G = GD.GradualEstimator
    out = [Scn("_cut_off_gamma", C("_cut_off_gamma"), b_cut, p_cut, call=call_m("_cut_off_gamma")),
           Scn("_advanced_cut_off_gamma", C("_advanced_cut_off_gamma"), b_adv, p_adv, call=call_m("_advanced_cut_off_gamma"))]
    for T, st in ((1, 1), (4, 1), (4, 3), (10, 10)):
        out.append(Scn(f"generate_data_at_step {st} of {T}", C("generate_data_at_step"), b_step(T, st), p_step, call=call_m("generate_data_at_step")))
    out.append(Scn("generate_data_at_step 2 of 5, integer samples", C("generate_data_at_step"), b_step(5, 2, "i"), p_step, call=call_m("generate_data_at_step")))
    con = {G._cut_off_gamma: c_cut("cut"), G._advanced_cut_off_gamma: c_cut("adv"), G.generate_data_at_step: c_gen}
    mod = {GD.clone: m_clone, GD.deepcopy: m_deepcopy, GD.MLPClassifier: m_mlp}
    for T, adv, base, save in ((1, False, True, True), (3, True, True, True), (2, False, False, False)):
        out.append(Scn(f"fit ({T} steps{', advanced' if adv else ''}{'' if base else ', default estimator'}; bounded)", C("fit"), b_fit(T, adv, base, save), p_fit,
                       call=call_m("fit"), contracts=con, models=mod))
    for m in ("predict", "predict_proba", "predict_log_proba", "score"):
        for have in (True, False):
            out.append(Scn(f"{m}{'' if have else ' before fit'}", C(m), b_pred(m, have), p_pred, call=call_m(m), models={GD.check_is_fitted: m_fitted}, expect=('return',) if have else ('raise:ValueError',)))
    return out


# ------------------------------------------------------------- runtime side
def transport(name):
    return ot.da.EMDTransport() if name == "emd" else ot.da.SinkhornTransport(reg_e=1.0, metric="sqeuclidean", norm=None, max_iter=1000, tol=1e-8)


def mask_of(G, alpha, adv):
    """(cells that must be kept, cells that may be kept, how many)"""
    n, m = G.shape
    if adv:
        must_, may = np.zeros((n, m), bool), np.zeros((n, m), bool)
        must_[np.arange(n), G.argmax(1)] = True
        must_[G.argmax(0), np.arange(m)] = True
        return must_, must_, int(must_.sum())
    K = int(min(alpha * (n + m), n * m - 1)) + 1
    thr = np.sort(G, axis=None)[::-1][K - 1]
    return G > thr, G >= thr, K


def k_mask(p):
    G = p["G"]
    a = GD.GradualEstimator(alpha=p["alpha"], advanced_ot_plan_sampling=p["adv"])
    M = must("mask", a._advanced_cut_off_gamma if p["adv"] else a._cut_off_gamma, G.copy())
    lo, hi, K = mask_of(G, p["alpha"], p["adv"])
    check("mask/largest", (M | ~lo).all() and (hi | ~M).all(), (M.astype(int).tolist(), G.tolist()))
    check("mask/count", M.sum() == K == a.max_index + 1, (M.sum(), K, a.max_index))


def k_fit(p):
    quiet()
    X, y, sd, T, alpha, adv = (p[q] for q in ("X", "y", "sd", "T", "alpha", "adv"))
    c = [np.array(v) for v in (X, y, sd)]
    mk = lambda: LogisticRegression(max_iter=200)
    base = mk()
    before = repr(base.get_params())
    a = GD.GradualEstimator(alpha=alpha, n_steps=T, ot_method=(ot := transport(p["ot"])), base_estimator=base, advanced_ot_plan_sampling=adv, save_estimators=True, save_intermediate_data=True)
    s = sd >= 0
    one = False
    try:
        r = a.fit(X, y, sample_domain=sd)
    except ValueError as exc:
        if "class" in str(exc):
            raise Skip("one class left")
        raise Violation("fit/raises", repr(exc)[:300])
    except Exception as exc:
        raise Violation("fit/raises", repr(exc)[:300])
    check("fit/self", r is a)
    check("fit/solver untouched", not hasattr(ot, "coupling_") and a.ot_method is ot, "ot_method is fitted in place")
    check("fit/base untouched", not hasattr(base, "classes_") and repr(base.get_params()) == before and a.base_estimator is base)
    Xs, ys, Xt = X[s], y[s], X[~s]
    G = np.asarray(transport(p["ot"]).fit(Xs=Xs, ys=ys, Xt=Xt, yt=y[~s]).coupling_)
    lo, hi, K = mask_of(G, alpha, adv)
    E, D = a.estimators_, a.intermediate_data_
    check("fit/steps", len(E) == T + 1 and len(D) == T, (len(E), len(D), T))
    sure = lo.sum() == K
    for q, e in enumerate(E):
        if q == 0:
            ref = mk().fit(Xs, ys)
        else:
            Xq, yq = D[q - 1]
            check("fit/count", Xq.shape == (K, X.shape[1]) and len(yq) == K, (Xq.shape, K))
            w = q / T
            I, J = np.nonzero(hi)
            want = (1 - w) * Xs[I] + w * Xt[J]
            dist = np.abs(Xq[:, None] - want[None]).max(-1)
            check("fit/interpolation", (dist.min(1) < 1e-8).all(), (q, T, Xq[dist.min(1) >= 1e-8][:2]))
            I, J = np.nonzero(lo)
            dist = np.abs(Xq[:, None] - ((1 - w) * Xs[I] + w * Xt[J])[None]).max(-1)
            check("fit/all pairs", (dist.min(0) < 1e-8).all(), (q, T))
            same_arr("fit/labels", yq, E[q - 1].predict(Xq))
            ref = mk().fit(Xq, yq)
        same_arr("fit/classifier", e.decision_function(X), ref.decision_function(X), exact=False, tol=1e-4)
    Xn = p["Xn"]
    for m in ("predict", "predict_proba", "predict_log_proba"):
        same_arr(m, must(m, getattr(a, m), Xn), getattr(E[-1], m)(Xn))
    check("score", abs(must("score", a.score, Xn, p["yn"]) - (E[-1].predict(Xn) == p["yn"]).mean()) < 1e-12)
    for u, v in zip(c, (X, y, sd)):
        same_arr("fit/frame", v, u)
    check("intermediate", a.get_intermediate_estimators() is E)
    a.fit(X, y, sample_domain=sd)
    check("fit/again", len(a.estimators_) == T + 1 and len(a.intermediate_data_) == T)
    same_arr("fit/again/predict", a.predict_proba(Xn), E[-1].predict_proba(Xn), exact=False, tol=1e-6)


KINDS = dict(fit=k_fit, mask=k_mask)


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(30 if tier == "quick" else 300):
        n, m, d = rng.randint(6, 14), rng.randint(5, 12), rng.randint(1, 3)
        pool = rng.choice([([1], [-2]), ([0, 2], [-1, -3]), ([5], [-7, -1])])
        sd = np.r_[np.resize(pool[0], n), np.resize(pool[1], m)]
        N = len(sd)
        cl = np.array(rng.choice([[0, 1], [0, 1, 2], [3, 7]]))
        q = (np.arange(N) // len(pool[0])) % len(cl)
        X = r.randn(N, d) + q[:, None] * 1.5 + np.where(sd < 0, .7, 0)[:, None]
        if rng.random() < .2:
            X = np.round(X * 2)  # integers: ties, repeated samples
            X = X.astype(int) if rng.random() < .7 else X
        o = r.permutation(N) if rng.random() < .8 else np.arange(N)
        X, y, sd = X[o], cl[q][o], sd[o]
        y = np.where(sd >= 0, y, -1)
        yield "fit", dict(X=X, y=y, sd=sd, T=rng.choice([1, 2, 3, 5]), alpha=rng.choice([.2, .5, 1, 1.3, 50]), adv=rng.random() < .4, ot=rng.choice(["emd", "sinkhorn", "sinkhorn"]),
                          Xn=r.randn(5, d), yn=cl[r.randint(len(cl), size=5)])
        G = r.rand(rng.randint(1, 5), rng.randint(1, 5))
        if rng.random() < .5:
            G = np.round(G * 3) / 3
        yield "mask", dict(G=G, alpha=rng.choice([.1, .5, 1, 3]), adv=rng.random() < .4)
