"""P16: DASVM ends with a classifier trained on the target samples alone, reached
through steps that only use the source labels."""
import math

import numpy as np
from sklearn.linear_model import LogisticRegression
from sklearn.svm import SVC

import skada
import skada._self_labeling as SL
from dv.prop import Scn, Violation, opt
from dv.spec import *
from dv.core import S, SArr, SMap, SSeq, ctx, z3, zi, R, RowSort, I as INT
from dv import npmodel
from props.p12 import witnesses, call_m
from props.util import *

ID = "P16"
LEVEL = "proof"

LOG = []
PRED = z3.Function("clf_pred", INT, RowSort, INT)
DEC = z3.Function("clf_dec", INT, RowSort, R)
PROBA = z3.Function("clf_proba", INT, RowSort, INT, R)


class Clf:
    """a classifier; what it answers is a function of its last fit and the sample"""

    _dv_native = True
    _dv_sym = True

    def __init__(self, parent=None):
        self.parent, self.k = parent, -1

    def fit(self, X, y, **kw):
        self.k = len([e for e in LOG if e[0] == "fit"])
        LOG.append(("fit", self, npmodel.lit(X), npmodel.lit(y), kw))
        return self

    def predict(self, X):
        X = npmodel.lit(X) if not isinstance(X, list) else X
        if isinstance(X, list):
            assert len(X) == 1
            v = getattr(X[0], "s", X[0])
            k = self.k
            return SArr((1,), "i", lambda i: S(PRED(k, v.e)))
        f, k = X.fn, self.k
        return SArr((X.shape[0],), "i", lambda i: S(PRED(k, f(i).e)))

    def decision_function(self, X):
        X = npmodel.lit(X)
        f, k = X.fn, self.k
        return SArr((X.shape[0],), "f", lambda i: S(DEC(k, f(i).e)))

    def predict_proba(self, X):
        X = npmodel.lit(X)
        f, k = X.fn, self.k
        return SArr((X.shape[0], 2), "f", lambda i, c: S(PROBA(k, f(i).e, c)))

    def score(self, X, y, sample_weight=None, **kw):
        return ("score", self, X, y, sample_weight, kw)


def m_clone(e, **kw):
    return Clf(e)


def fitted(k=7):
    c = Clf()
    c.k = k
    return c


# ------------------------------------------------------------------- helpers
def b_xy():
    LOG.clear()
    n, m = length("n", 1), length("m", 1)
    Xs, Xt, ys = rows(n, d := length("d", 1), "Xs"), rows(m, d, "Xt"), ints(n, "ys")
    dele, add = bools(n, "deleted"), bools(m, "added")
    a = SL.DASVMClassifier(SVC())
    c = fitted()
    return (a, c, add, dele, Xs, Xt, ys), {}, dict(Xs=Xs.snapshot(), Xt=Xt.snapshot(), ys=ys.snapshot(), d=dele.snapshot(), a=add.snapshot(), n=n, m=m, c=c)


def p_xy(P, out, I):
    if out[0] == "raise":
        return P.fail("the training set of a step exists", repr(out[1]))
    X, y = out[1]
    n, m, Xs, Xt, ys = I["n"], I["m"], I["Xs"], I["Xt"], I["ys"]
    ns = npmodel.compaction(npmodel.unary(I["d"], "~")).m
    nt = npmodel.compaction(I["a"]).m
    N = S(ns) + S(nt)
    P("one sample per remaining source and added target", And(ln(X) == N, ln(y) == N))
    k = fresh_int("k")
    t = tag(el(X, k))
    ink = And(k >= 0, k < N)
    P("source samples that remain, with their labels", Implies(And(ink, k < S(ns)), And(t >= 0, t < n, Same(el(X, k), el(Xs, t)), Not(el(I["d"], t)), el(y, k) == el(ys, t))))
    P("target samples that were added, with the labels predicted for them",
      Implies(And(ink, k >= S(ns)), And(t >= 0, t < m, Same(el(X, k), el(Xt, t)), el(I["a"], t), el(y, k) == S(PRED(7, el(X, k).e)))))


def b_dec():
    LOG.clear()
    n = length("n", 1)
    X, add = rows(n, name="X"), bools(n, "taken")
    a = SL.DASVMClassifier(SVC())
    return (a, fitted(), X, add), {}, dict(X=X.snapshot(), a=add.snapshot(), n=n)


def p_dec(P, out, I):
    if out[0] == "raise":
        return P.fail("decisions are computed", repr(out[1]))
    D, n = out[1], I["n"]
    i = fresh_int("i")
    d = S(DEC(7, el(I["X"], i).e))
    d = npmodel.ite(el(I["a"], i).e, npmodel.lit(1.0), d)
    P("one row per sample", And(S(zi(D.shape[0])) == n, S(zi(D.shape[1])) == 2) if D.ndim == 2 else False)
    if D.ndim == 2:
        P("1 -/+ the sample's own decision, 1 for the samples already taken",
          Implies(And(i >= 0, i < n), And(el2(D, zi(i), z3.IntVal(0)) == 1 - d, el2(D, zi(i), z3.IntVal(1)) == 1 + d)))


def b_next(n, k, mask=None):
    def b():
        lst, cond = bools(n, "taken"), bools(n, "cond")
        if mask is not None:
            lst, cond = npmodel.lit(np.zeros(n, bool)), npmodel.lit(np.array(mask))
        lst, cond = (npmodel.lit(np.array([bool(el(a, i)) for i in range(n)])) for a in (lst, cond))
        d = matrix(n, 2, "d")
        a = SL.DASVMClassifier(SVC(), k=k)
        a.n_class = 2
        return (a, lst, d, cond), {}, dict(lst=lst, before=lst.snapshot(), cond=cond.snapshot(), d=d.snapshot(), n=n, k=k)
    return b


def p_next(P, out, I):
    if out[0] == "raise":
        return P.fail("points are chosen", repr(out[1]))
    n, d = I["n"], I["d"]
    lst, bef, cond = I["lst"], I["before"], I["cond"]
    e = lambda a, i: el(a, i)
    cand = [And(Not(e(bef, i)), e(cond, i)) for i in range(n)]
    new = [And(e(lst, i), Not(e(bef, i))) for i in range(n)]
    for i in range(n):
        P(f"{i}: a point taken stays taken", Implies(e(bef, i), e(lst, i)))
        P(f"{i}: only candidates are taken", Implies(new[i], cand[i]))
    for c in (0, 1):
        # a best candidate of each side is taken
        best = [And(cand[i], *[Implies(cand[j], el2(d, i, c) >= el2(d, j, c)) for j in range(n)]) for i in range(n)]
        P(f"a best candidate of side {c} is taken", Implies(Or(*cand), Or(*[And(best[i], new[i]) for i in range(n)])))
    P("no more than k points for each side", sum((npmodel.ite(x.e, npmodel.lit(1), npmodel.lit(0)) for x in new), npmodel.lit(0)) <= 2 * I["k"])


# ------------------------------------------------------------------ fit
def c_next(it, a, lst, d, cond):
    d, cond = npmodel.lit(d), npmodel.lit(cond)
    before = lst.snapshot()
    new = bools(lst.shape[0], "new")
    n = lst.shape[0]
    i, q = iv("i"), iv("q")
    c = ctx()
    bf, cf, nf = before.fn, cond.fn, new.fn
    c.forall([i], z3.Implies(z3.And(0 <= i, i < zi(n)), z3.And(z3.Implies(bf(i).e, nf(i).e), z3.Implies(nf(i).e, z3.Or(bf(i).e, cf(i).e)))), [nf(i).e])
    LOG.append(("next", lst, before, d.snapshot(), cond.snapshot(), new))
    npmodel.setitem(lst, slice(None), new)


def c_xy(it, a, est, added, deleted, Xs, Xt, ys):
    N = length("h", 1)
    out = rows(N, name="Xh"), ints(N, "yh")
    LOG.append(("xy", est, est.k, added.snapshot(), deleted.snapshot(), Xs, Xt, ys, out))
    return out


def c_dec(it, a, est, X, lst):
    D = matrix(X.shape[0], 2, "D")
    LOG.append(("dec", est, est.k, X, lst.snapshot(), D))
    return D


def b_fit(iters):
    def b():
        LOG.clear()
        n = length("n", 1)
        X, sd, y = rows(n, name="X"), ints(n, "sd"), ints(n, "y")
        witnesses(n, sd, True, True)
        base = Clf()
        a = SL.DASVMClassifier(base, k=2, max_iter=iters)
        return (a, X, y), dict(sample_domain=sd), dict(a=a, base=base, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot(), n=n, iters=iters)
    return b


def p_fit(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are fitted", repr(out[1]))
    a, base = I["a"], I["base"]
    P("fit returns the estimator", out[1] is a)
    by = lambda k: [e for e in LOG if e[0] == k]
    fits, nexts, xys, decs = by("fit"), by("next"), by("xy"), by("dec")
    P("the base estimator is left alone; clones of it are fitted", base.k == -1 and all(f[1].parent is base for f in fits))
    P("each on its own", len({id(f[1]) for f in fits}) == len(fits) and not any(f[4] for f in fits))
    s, t = (lambda i: el(I["sd"], i) >= 0), (lambda i: el(I["sd"], i) < 0)
    prove_selection(P, "first on the source samples with their labels", fits[0][2], I["X"], s, [(fits[0][3], I["y"])])
    L = fits[-1]
    prove_selection(P, "finally on all the target samples", L[2], I["X"], t)
    j = fresh_int("j")
    m = ln(L[2])
    P("with the labels of the classifier before it", And(ln(L[3]) == m, Implies(And(j >= 0, j < m), el(L[3], j) == S(PRED(len(fits) - 2, el(L[2], j).e)))))
    P("which predicts from then on", a.base_estimator_ is L[1])
    # the steps in between
    P("one training set per step", len(xys) == len(fits) - 2 <= I["iters"] - 1)
    for k, e in enumerate(xys):
        out_ = e[8]
        P(f"step {k}: labelled by the latest classifier", e[1] is fits[k][1] and e[2] == k)
        P(f"step {k}: trained on that set", fits[k + 1][2] is out_[0] and fits[k + 1][3] is out_[1])
        prove_selection(P, f"step {k}: from the source samples", e[5], I["X"], s, [(e[7], I["y"])])
        prove_selection(P, f"step {k}: and the target samples", e[6], I["X"], t)
    # choices: sources farthest out, then targets inside the margin
    P("sources and targets are chosen at every step", len(nexts) == 2 * (len(xys) + 1))
    i = fresh_int("i")
    for k in range(len(nexts) // 2):
        (_, ls, bs, ds, cs, nw), (_, lt, bt, dt, ct, nwt) = nexts[2 * k], nexts[2 * k + 1]
        ns, nt = ln(ls), ln(lt)
        ii, jj = And(i >= 0, i < ns), And(j >= 0, j < nt)
        P(f"choice {k}: any source may be dropped", Implies(ii, el(cs, i)))
        if k == 0:
            src, tgt = fits[0][2], L[2]
            d = S(DEC(0, el(src, i).e))
            f = S(DEC(0, el(tgt, j).e))
            P("first choice: nothing is taken yet", And(Implies(ii, Not(el(bs, i))), Implies(jj, Not(el(bt, j)))))
            P("first choice: sources by their decisions", Implies(ii, And(el2(ds, zi(i), z3.IntVal(0)) == -d, el2(ds, zi(i), z3.IntVal(1)) == d)))
            ab = lambda v: npmodel.ite((v < 0).e, -v, v)
            P("first choice: targets by their distance to the margin's border",
              Implies(jj, And(el2(dt, zi(j), z3.IntVal(0)) == -ab(-f - 1), el2(dt, zi(j), z3.IntVal(1)) == -ab(f - 1))))
            P("first choice: only targets inside the margin", Implies(jj, Iff(el(ct, j), And(f != 0, f < 1, f > -1))))
        else:
            e1, e2 = decs[2 * k - 2], decs[2 * k - 1]
            P(f"choice {k}: by the latest classifier's decisions", e1[1] is fits[k][1] and e2[1] is fits[k][1] and e1[2] == e2[2] == k)
            # the sets carry over, less the targets whose label changed
            P(f"choice {k}: sources dropped stay dropped", Implies(ii, Iff(el(bs, i), el(nexts[2 * k - 2][5], i))))
            r = el(e2[3], j)
            keep = S(PRED(k, r.e)) == S(PRED(k - 1, r.e))
            P(f"choice {k}: targets whose label changed are taken back", Implies(jj, Iff(el(bt, j), And(el(nexts[2 * k - 1][5], j), keep))))
            D = e2[5]
            inside = Or(*[And(el2(D, zi(j), z3.IntVal(c)) > 0, el2(D, zi(j), z3.IntVal(c)) < 1) for c in (0, 1)])
            P(f"choice {k}: only targets inside the margin", Implies(jj, Iff(el(ct, j), inside)))
            P(f"choice {k}: in the order of the decisions", ds is not None and Implies(ii, And(*[el2(ds, zi(i), z3.IntVal(c)) == el2(e1[5], zi(i), z3.IntVal(c)) for c in (0, 1)])))
            P(f"choice {k}: for the targets too", Implies(jj, And(*[el2(dt, zi(j), z3.IntVal(c)) == el2(D, zi(j), z3.IntVal(c)) for c in (0, 1)])))
    # no step without a target in the margin
    for k in range(1, len(xys) + 1):
        ct = nexts[2 * k - 1][4]
        P(f"step {k} had targets in the margin", exists_idx(ln(ct), lambda q: el(ct, q)))
    if len(xys) < I["iters"] - 1:
        ct = nexts[-1][4]
        P("stops early only when no target is left in the margin", Implies(And(j >= 0, j < ln(ct)), Not(el(ct, j))))


# -------------------------------------------------------------- predictions
def b_pred(m, dom):
    def b():
        n = length("n", 1)
        X, sd, y, w = rows(n, name="X"), ints(n, "sd"), ints(n, "y"), floats(n, "w")
        a = SL.DASVMClassifier(SVC(probability=True))
        a.base_estimator_ = fitted(9)
        kw = {}
        if m == "score":
            kw = dict(sample_weight=w)
            if dom:
                kw["sample_domain"] = sd
        return (a, X) + ((y,) if m == "score" else ()), kw, dict(a=a, X=X, Xv=X.snapshot(), y=y, w=w, m=m, n=n)
    return b


def p_pred(P, out, I):
    if out[0] == "raise":
        return P.fail("samples are predicted", repr(out[1]))
    r, m, n = out[1], I["m"], I["n"]
    if m == "score":
        return P("score of the adapted classifier", r[1] is I["a"].base_estimator_ and r[2] is I["X"] and r[3] is I["y"] and r[4] is I["w"] and not r[5])
    i, c = fresh_int("i"), fresh_int("c")
    x = el(I["Xv"], i).e
    inr = And(i >= 0, i < n, c >= 0, c < 2)
    v = {"predict": lambda: (el(r, i), S(PRED(9, x))), "decision_function": lambda: (el(r, i), S(DEC(9, x))),
         "predict_proba": lambda: (el2(r, zi(i), zi(c)), S(PROBA(9, x, zi(c))))}[m]()
    P("answer of the adapted classifier for that sample", And(ln(r) == n, Implies(inr, v[0] == v[1])))


def scenarios():
    C = lambda m: opt(SL, f"DASVMClassifier.{m}")
    out = [Scn("_get_X_y", C("_get_X_y"), b_xy, p_xy, call=call_m("_get_X_y")),
           Scn("_get_decision", C("_get_decision"), b_dec, p_dec, call=call_m("_get_decision"))]
    for n, k, mask in ((1, 1, None), (2, 1, None), (2, 3, None), (3, 2, (False, True, True)), (3, 2, (True, False, True)), (3, 2, (True, True, False)), (3, 1, (True, True, True))):
        what = "" if mask is None else ", candidates " + "".join(str(i) for i in range(n) if mask[i])
        out.append(Scn(f"_find_points_next_step ({n} points, k={k}{what}; bounded)", C("_find_points_next_step"), b_next(n, k, mask), p_next, call=call_m("_find_points_next_step"), time_limit=200))
    con = {SL.DASVMClassifier._find_points_next_step: c_next, SL.DASVMClassifier._get_X_y: c_xy, SL.DASVMClassifier._get_decision: c_dec}
    for it in (1, 2, 3):
        out.append(Scn(f"fit (at most {it} iterations; bounded)", C("fit"), b_fit(it), p_fit, call=call_m("fit"), models={SL.clone: m_clone}, contracts=con))
    for m in ("predict", "decision_function", "predict_proba", "score"):
        for dom in ((False, True) if m == "score" else (False,)):
            out.append(Scn(f"{m}{' (domains given)' if dom else ''}", C(m), b_pred(m, dom), p_pred, call=call_m(m)))
    return out


# ------------------------------------------------------------ runtime side
def mk(name):
    return LogisticRegression() if name == "lr" else SVC(kernel="linear") if name == "svc" else SVC(kernel="rbf", gamma=2.)


def k_fit(p):
    quiet()
    X, y, sd, k, it = (p[q] for q in ("X", "y", "sd", "k", "it"))
    c = [np.array(v) for v in (X, y, sd)]
    base = mk(p["base"])
    before = repr(base.get_params())
    a = skada.DASVMClassifier(base, k=k, max_iter=it, save_estimators=True, save_indices=True)
    try:
        r = a.fit(X, y, sample_domain=sd)
    except ValueError as exc:
        if "class" in str(exc):
            raise Skip("one class left")
        raise Violation("fit/raises", repr(exc)[:300])
    except Exception as exc:
        raise Violation("fit/raises", repr(exc)[:300])
    check("fit/self", r is a)
    check("fit/base untouched", not hasattr(base, "classes_") and a.base_estimator is base and repr(base.get_params()) == before)
    s = sd >= 0
    Xs, ys, Xt = X[s], y[s], X[~s]
    E, D, A = a.estimators, a.indices_source_deleted, a.indices_target_added
    check("fit/steps", 2 <= len(E) <= it + 1 and len(D) == len(A) == len(E) + 1, (len(E), len(D), len(A), it))
    same = lambda key, e, ref: same_arr(key, e.decision_function(X), ref.decision_function(X), exact=False, tol=1e-6)
    same("fit/first", E[0], mk(p["base"]).fit(Xs, ys))
    check("fit/start", not D[0].any() and not A[0].any())
    for q in range(1, len(E)):
        last = q == len(E) - 1
        yt = E[q - 1].predict(Xt)
        if last:
            same("fit/last", E[q], mk(p["base"]).fit(Xt, yt))
        else:
            same("fit/step", E[q], mk(p["base"]).fit(np.r_[Xs[~D[q]], Xt[A[q]]], np.r_[ys[~D[q]], yt[A[q]]]))
        # the choice that led to the sets D[q], A[q], by classifier q-1
        fs, ft = E[q - 1].decision_function(Xs), E[q - 1].decision_function(Xt)
        Db, Ab = D[q - 1], A[q - 1]
        if q > 1:
            Ab = Ab & (E[q - 1].predict(Xt) == E[q - 2].predict(Xt))
        for nm, f, b, now, cand in (("source", fs, Db, D[q], ~Db), ("target", ft, Ab, A[q], ~Ab & (np.abs(ft) < 1) & (ft != 0))):
            new = now & ~b
            check(f"fit/{nm}/kept", (now | ~b).all(), q)
            check(f"fit/{nm}/candidates", (cand | ~new).all(), (q, new, cand))
            check(f"fit/{nm}/count", new.sum() <= 2 * k, (q, new.sum(), k))
            if cand.any():
                for v in (f, -f):
                    check(f"fit/{nm}/best", new.any() and v[new].max() >= v[cand].max() - 1e-7, (q, v[new], v[cand]))
            else:
                check(f"fit/{nm}/none", not new.any(), q)
        if last and q < it:
            ft = np.where(Ab, 5., ft)
            check("fit/stopped early", not ((np.abs(ft) < 1) & (ft != 0)).any(), (q, it))
    check("fit/final sets", D[-1].all() and A[-1].all() and len(D[-1]) == s.sum() and len(A[-1]) == (~s).sum())
    check("fit/adapted", a.base_estimator_ is E[-1])
    e = E[-1]
    Xn = p["Xn"]
    same_arr("predict", must("predict", a.predict, Xn), e.predict(Xn))
    same_arr("decision_function", must("decision_function", a.decision_function, Xn), e.decision_function(Xn))
    if p["base"] == "lr":
        same_arr("predict_proba", must("predict_proba", a.predict_proba, Xn), e.predict_proba(Xn))
    yn, w = p["yn"], p["w"]
    check("score", must("score", a.score, Xn, yn, sample_weight=w) == e.score(Xn, yn, sample_weight=w))
    for u, v in zip(c, (X, y, sd)):
        same_arr("fit/frame", v, u)
    b = skada.DASVMClassifier(mk(p["base"]), k=k, max_iter=it).fit(X, np.where(sd >= 0, y, -1), sample_domain=sd)
    same_arr("fit/target labels unused", b.decision_function(Xn), e.decision_function(Xn), exact=False, tol=1e-7)
    if p["perfect"]:
        f = E[0].decision_function(Xs)
        new = D[1]
        want = min(k, math.ceil(len(f) / 2))
        got = int(new[f > np.median(f)].sum())
        if got == 1 < want:
            raise Violation("dasvm/k-per-step", f"{got} source dropped at the first step instead of {want}")
        check("fit/k per step", got == want, (got, want))


KINDS = dict(fit=k_fit)


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(40 if tier == "quick" else 400):
        n, m, d = rng.randint(6, 20), rng.randint(5, 20), rng.randint(1, 3)
        pool = rng.choice([([1], [-2]), ([0, 2], [-1, -3]), ([5], [-7, -1])])
        sd = np.r_[np.resize(pool[0], n), np.resize(pool[1], m)]
        N = len(sd)
        cl = np.array(rng.choice([[0, 1], [3, 7], [1, 2]]))
        q = (np.arange(N) // len(pool[0])) % 2
        X = r.randn(N, d) + q[:, None] * 2.5 + np.where(sd < 0, .7, 0)[:, None]
        o = r.permutation(N) if rng.random() < .8 else np.arange(N)
        X, y, sd = X[o], cl[q][o], sd[o]
        y = np.where(sd >= 0, y, rng.choice([-1, int(cl[0])]))
        yield "fit", dict(X=X, y=y, sd=sd, k=rng.randint(1, 3), it=rng.choice([1, 2, 3, 5, 20]), base=rng.choice(["svc", "lr"]),
                          Xn=r.randn(5, d), yn=cl[r.randint(2, size=5)], w=rng.choice([None, r.rand(5)]), perfect=False)
    for rep in range(150 if tier == "quick" else 1500):  # rotated domains and a flexible classifier: labels flip back
        n = rng.randint(8, 16)
        X = r.randn(2 * n, 2)
        y = (X[:, 0] > 0).astype(int)
        t = rng.random() * 1.5
        X[n:] = X[n:] @ np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]]) + rng.choice([.3, .8])
        sd = np.r_[np.ones(n, int), np.full(n, -2)]
        yield "fit", dict(X=X, y=np.where(sd > 0, y, -1), sd=sd, k=1, it=30, base="rbf", Xn=X[:3], yn=y[:3], w=None, perfect=False)
    X = np.r_[r.randn(8, 1), r.randn(8, 1) + 6, r.randn(8, 1) + 1, r.randn(8, 1) + 7]
    yield "fit", dict(X=X, y=np.r_[np.repeat([0, 1], 8), -np.ones(16, int)], sd=np.r_[np.ones(16, int), -2 * np.ones(16, int)], k=3, it=1, base="lr",
                      Xn=X[:5], yn=np.zeros(5, int), w=None, perfect=True)
