"""P14: subspace adapters return each sample's own projection at its own
position, with the documented subspaces."""
import numpy as np
import scipy.linalg
from sklearn.decomposition import PCA
from sklearn.metrics.pairwise import pairwise_kernels

import skada
import skada._subspace as SP
from dv.prop import Scn, Violation, opt
from dv.spec import *
from dv.core import S, SArr, SMap, SSeq, ctx, z3, zi, R, RowSort, I as INT
from dv import npmodel
from dv.npmodel import OpMat, OpVec
from props.p12 import witnesses, call_m
from props.p13 import roles, lemma
from props.util import *

ID = "P14"
LEVEL = "proof"

LOG = []
KER = z3.Function("kernel", RowSort, RowSort, R)


# ---------------------------------------------------------- subspace alignment
class SPca:
    """a fitted PCA: (x - mean) components'"""

    _dv_native = True

    def __init__(self, n_components=None, random_state=None, **kw):
        self.n_components, self.random_state, self.kw = n_components, random_state, kw

    def fit(self, X, y=None):
        LOG.append(("pca", self, npmodel.lit(X)))
        self.q = len(LOG) - 1
        self.components_ = OpMat(("comp", self.q), cols=X.shape[1], nrows=self.n_components)
        return self

    def transform(self, X):
        X = npmodel.lit(X)
        f, q = X.fn, self.q
        return SArr((X.shape[0], self.n_components), "row", lambda i: pca_row(f(i), q))


def pca_row(r, q):
    return npmodel.row_matmul(npmodel.row_op(r, OpVec(("pcamean", q)), "-"), OpMat((("comp", q), "T")))


def b_sa(given, has_s=True, has_t=True):
    def b():
        LOG.clear()
        n, m, d = length("n", 1), length("m", 1), length("d", 1)
        X, sd = rows(n, d, name="X"), ints(n, "sd")
        witnesses(n, sd, True, True)
        X2, sd2 = rows(m, d, name="X2"), ints(m, "sd2")
        witnesses(m, sd2, has_s, has_t)
        a = SP.SubspaceAlignmentAdapter(n_components=length("p", 1) if given else None)
        return (a, X, X2), dict(sd=sd, sd2=sd2), dict(a=a, n=n, X=X.snapshot(), sd=sd.snapshot(), m=m, X2=X2.snapshot(), sd2=sd2.snapshot(), given=given, d=d)
    return b


def call_two(it, a, X, X2, sd, sd2):
    it.call(a.fit, (X,), dict(sample_domain=sd))
    return it.call(a.transform, (X2,), dict(sample_domain=sd2, allow_source=True))


def call_ft(it, a, X, X2, sd, sd2):
    return it.call(a.fit_transform, (X,), dict(sample_domain=sd))


def p_sa(ft):
    def p(P, out, I):
        if out[0] == "raise":
            return P.fail("accepted samples are projected", repr(out[1]))
        role, ids = roles(dict(I, sd=I["sd"])), {}
        for q, e in enumerate(LOG):
            r = ("source" if q == 0 else "target") if len(LOG) != 2 else None
            c = ctx()
            k = iv("k")
            t = tag(S(e[2].fn(k).e))
            isrc = c.entails(z3.Implies(z3.And(0 <= k, k < zi(e[2].shape[0])), (el(I["sd"], t) >= 0).e))
            r = "source" if isrc else "target"
            ids[r] = q
            prove_selection(P, f"the {r} subspace is that of the {r} samples", e[2], I["X"],
                            (lambda i: el(I["sd"], i) >= 0) if isrc else (lambda i: el(I["sd"], i) < 0))
            nc = S(zi(e[1].n_components))
            P("of the dimension asked for", nc == I["a"].n_components if I["given"] else
              And(nc <= I["n"], nc <= I["d"], Or(nc == I["n"], nc == I["d"])))
        P("one subspace per side", set(ids) == {"source", "target"} and len(LOG) == 2)
        s, t = ids["source"], ids["target"]
        X, sd, n = (I["X"], I["sd"], I["n"]) if ft else (I["X2"], I["sd2"], I["m"])
        o = out[1]
        P("one row per sample", ln(o) == n)
        i = fresh_int("i")
        x = el(X, i)
        src = npmodel.row_matmul(pca_row(x, s), OpMat(("comp", s), (("comp", t), "T")))
        P("source samples: source coordinates aligned to the target subspace",
          Implies(And(i >= 0, i < n, el(sd, i) >= 0), Same(el(o, i), src)))
        P("target samples: target coordinates",
          Implies(And(i >= 0, i < n, el(sd, i) < 0), Same(el(o, i), pca_row(x, t))))
    return p


# ------------------------------------------------- transfer subspace learning
def b_tsl(has_s, has_t):
    def b():
        n = length("n", 1)
        X, sd = rows(n, name="X"), ints(n, "sd")
        witnesses(n, sd, has_s, has_t)
        a = SP.TransferSubspaceLearningAdapter()
        a.W_ = OpMat(("W",), cols=length("p", 1))
        return (a, X), dict(sample_domain=sd, allow_source=True), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), a=a)
    return b


def p_tsl(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are projected", repr(out[1]))
    r, n = out[1], I["n"]
    i = fresh_int("i")
    P("one row per sample", ln(r) == n)
    P("each sample is projected in its own place",
      Implies(And(i >= 0, i < n), Same(el(r, i), npmodel.row_matmul(el(I["X"], i), OpMat(("W",))))))


# ------------------------------------------------------------------ TCA / TJM
def m_kernels(X, Y=None, metric="linear", *, filter_params=False, n_jobs=None, **kw):
    X = npmodel.lit(X)
    Y = X if Y is None else npmodel.lit(Y)
    LOG.append(("kernel", metric, kw))
    f, g = X.fn, Y.fn
    c = ctx()
    x, y = z3.Const("kx", RowSort), z3.Const("ky", RowSort)
    if "kersym" not in c.memo:   # kernels are symmetric
        c.memo["kersym"] = True
        c.forall([x, y], KER(x, y) == KER(y, x), [KER(x, y)])
    return SArr((X.shape[0], Y.shape[0]), "f", lambda i, j: S(KER(f(i).e, g(j).e)))


class Metric:
    _dv_native = True


def train_row(a, ns):
    s, t = a.X_source_, a.X_target_
    return lambda q: npmodel.ite(q < zi(ns), s.fn(q), t.fn(z3.simplify(q - zi(ns))))


def b_kproj(cls, coef, mode):
    """transform of a fitted adapter; K_ is what fit stored (kernel of the
    training samples, source first)"""
    def b():
        LOG.clear()
        n, ns, nt, d, p = length("n", 1), length("ns", 1), length("nt", 1), length("d", 1), length("p", 1)
        X, sd = rows(n, d, name="X"), ints(n, "sd")
        witnesses(n, sd, mode != "target", mode != "source")
        a = getattr(SP, cls)(kernel=Metric())
        a.X_source_, a.X_target_ = rows(ns, d, "Xs"), rows(nt, d, "Xt")
        m_kernels(rows(length("z", 1), d), None)
        LOG.clear()
        E = matrix(ns + nt, p, "E")
        setattr(a, coef, E)
        tr = train_row(a, ns)
        if cls.startswith("TransferComponent"):
            a.K_ = SArr((ns + nt, ns + nt), "f", lambda i, j: S(KER(tr(i).e, tr(j).e)))
        return (a, X), dict(sample_domain=sd, allow_source=True), dict(
            n=n, X=X.snapshot(), sd=sd.snapshot(), a=a, E=E, tr=tr, ns=ns, nt=nt, p=p)
    return b


def p_kproj(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are projected", repr(out[1]))
    r, n, X, tr, E, a = out[1], I["n"], I["X"], I["tr"], I["E"], I["a"]
    P("one row per sample, one column per component", And(ln(r) == n, S(zi(r.shape[1]) == zi(I["p"]))))
    N = I["ns"] + I["nt"]
    xf = X.fn
    ref = npmodel.matmul(SArr((n, N), "f", lambda i, k: S(KER(xf(i).e, tr(k).e))), E)
    i, c = fresh_int("i"), fresh_int("c")
    inr = And(i >= 0, i < n, c >= 0, c < I["p"])
    o = el2(r, zi(i), zi(c))
    # rows of the fitted samples, source first
    fit = npmodel.matmul(SArr((N, N), "f", lambda q, k: S(KER(tr(q).e, tr(k).e))), E)
    q = iv("q")
    P("each sample is projected by its kernels with the training samples, in its own place",
      Implies(inr, Or(o == el2(ref, zi(i), zi(c)),
                      S(z3.Exists([q], z3.And(0 <= q, q < zi(N), tr(q).e == xf(zi(i)).e, o.e == fit.fn(q, zi(c)).e))))))
    for e in LOG:
        P("the kernel is the one asked for", e[1] is a.kernel and not e[2])


# TCA.fit
def m_block(rows_):
    return npmodel.MatPoly.of(npmodel.block(rows_))


def m_solve(A, B):
    A, B = npmodel.MatPoly.of(A), npmodel.MatPoly.of(B)
    out = matrix(A.shape[0], B.shape[1], "solution")
    LOG.append(("solve", A, B, out))
    return out


def m_eig(A):
    w, V = floats(A.shape[0], "w"), matrix(A.shape[0], A.shape[0], "V")
    LOG.append(("eig", npmodel.lit(A), w, V))
    return w, V


def poly_is(P, name, poly, refs, want, split={}):
    """poly is the sum of want's terms: {word over the names of refs: scalar};
    the leaves of poly are proved entrywise equal to refs (or to a multiple of
    a ref's entries where the reference is listed so), the identity disappears"""
    i, j = fresh_int("i"), fresh_int("j")
    got, ids = {}, []

    def leaf(l):
        for k, nm in ids:
            if k is l:
                return nm
        n = l.shape[0]
        rng = And(i >= 0, i < n, j >= 0, j < n)
        for nm, r in refs.items():
            g = Implies(rng, el2(l, zi(i), zi(j)) == el2(r, zi(i), zi(j)))
            if ctx().entails(g.e, 4000):
                ids.append((l, nm))
                return nm
        ids.append((l, "?"))
        return "?"

    todo = [(c, tuple(map(leaf, w))) for c, w in poly.terms]
    while todo:
        c, w = todo.pop()
        d = next((x for x in w if x in split), None)
        if d is not None:   # a leaf that is itself a sum of base matrices
            q = w.index(d)
            todo += [(c * f, w[:q] + v + w[q + 1:]) for f, v in split[d]]
            continue
        k = tuple(x for x in w if x != "1")
        got[k] = got[k] + c if k in got else c
    ok = True
    for k in set(got) | set(want):
        ok = P(f"{name}: coefficient of {'.'.join(k) or '1'}", S(npmodel.lit(got.get(k, 0)).e) == want.get(k, 0)) and ok
    return ok


def b_tca(given):
    def b():
        LOG.clear()
        n, d = length("n", 1), length("d", 1)
        X, sd = rows(n, d, name="X"), ints(n, "sd")
        witnesses(n, sd, True, True)
        mu = fresh_real("mu")
        a = SP.TransferComponentAnalysisAdapter(kernel=Metric(), mu=mu, n_components=length("p", 1) if given else None)
        if given:
            assume(a.n_components <= n)
        return (a, X), dict(sample_domain=sd), dict(a=a, n=n, d=d, X=X.snapshot(), sd=sd.snapshot(), mu=mu, given=given)
    return b


def fresh_real(b):
    return S(ctx().fresh("f", b))


def p_tca(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted samples are fitted", repr(out[1]))
    a, n = I["a"], I["n"]
    P("fit returns the adapter", out[1] is a)
    prove_selection(P, "training source samples", a.X_source_, I["X"], lambda i: el(I["sd"], i) >= 0)
    prove_selection(P, "training target samples", a.X_target_, I["X"], lambda i: el(I["sd"], i) < 0)
    ns, nt = ln(a.X_source_), ln(a.X_target_)
    N = ns + nt
    tr = train_row(a, ns)
    K = SArr((N, N), "f", lambda i, j: S(KER(tr(i).e, tr(j).e)))
    i, j = fresh_int("i"), fresh_int("j")
    inr = And(i >= 0, i < N, j >= 0, j < N)
    at = lambda M: el2(M, zi(i), zi(j))
    P("the kernel matrix of the training samples is kept, source first", Implies(inr, at(a.K_.terms[0][1][0]) == at(K)))
    for e in LOG:
        if e[0] == "kernel":
            P("the kernel is the one asked for", e[1] is a.kernel and not e[2])
    solve = [e for e in LOG if e[0] == "solve"]
    eig = [e for e in LOG if e[0] == "eig"]
    P("one linear system, one eigendecomposition of its solution", len(solve) == 1 and len(eig) == 1 and eig[0][1] is solve[0][3])
    fs, ft = npmodel.cast(ns, "f"), npmodel.cast(nt, "f")
    L = SArr((N, N), "f", lambda i, j: npmodel.ite(z3.And(i < zi(ns), j < zi(ns)), 1 / (fs * fs),
             npmodel.ite(z3.And(i >= zi(ns), j >= zi(ns)), 1 / (ft * ft), -1 / (fs * ft))))
    one = SArr((N, N), "f", lambda i, j: S(z3.If(i == j, z3.RealVal(1), z3.RealVal(0))))
    J = SArr((N, N), "f", lambda i, j: 1 / (fs + ft))
    ones = SArr((N, N), "f", lambda i, j: S(z3.RealVal(1)))
    refs = {"K": K, "L": L, "1": one, "H": one - J, "J": J, "ones": ones}
    split = {"H": [(1, ()), (-1 / (fs + ft), ("ones",))], "J": [(1 / (fs + ft), ("ones",))]}
    poly_is(P, "the system's matrix is I + mu K L K", solve[0][1], refs, {(): 1, ("K", "L", "K"): I["mu"]}, split)
    poly_is(P, "and its right-hand side K H K", solve[0][2], refs, {("K", "K"): 1, ("K", "ones", "K"): -1 / (fs + ft)}, split)
    p = S(zi(a.eigvects_.shape[1]))
    P("as many components as asked for", p == a.n_components if I["given"] else And(p <= n, p <= I["d"], Or(p == n, p == I["d"])))
    w, V = eig[0][2], eig[0][3]
    c, e = fresh_int("c"), fresh_int("e")
    q = iv("q")
    inc = And(c >= 0, c < p, i >= 0, i < N)
    P("components are eigenvectors", Implies(inc, S(z3.Exists([q], z3.And(0 <= q, q < zi(N), a.eigvects_.fn(zi(i), zi(c)).e == V.fn(zi(i), q).e)))))


def scenarios():
    C = lambda c, m: opt(SP, f"{c}.{m}")
    sa = dict(models={PCA: SPca})
    out = [
        Scn("SubspaceAlignment.fit_transform", C("SubspaceAlignmentAdapter", "fit_transform"), b_sa(True), p_sa(True), call=call_ft, **sa),
        Scn("SubspaceAlignment.fit_transform (default size)", C("SubspaceAlignmentAdapter", "fit_transform"), b_sa(False), p_sa(True), call=call_ft, **sa),
    ]
    for s, t in ((True, True), (True, False), (False, True)):
        lab = {(True, True): "both sides", (True, False): "source only", (False, True): "target only"}[s, t]
        out.append(Scn(f"SubspaceAlignment.transform ({lab})", C("SubspaceAlignmentAdapter", "transform"), b_sa(True, s, t), p_sa(False), call=call_two, **sa))
        out.append(Scn(f"TransferSubspaceLearning.transform ({lab})", C("TransferSubspaceLearningAdapter", "transform"), b_tsl(s, t), p_tsl, call=call_m("transform")))
    from props.p12 import c_merge
    for cls, coef in (("TransferComponentAnalysisAdapter", "eigvects_"), ("TransferJointMatchingAdapter", "A_")):
        for mode in ("both", "target", "source"):
            out.append(Scn(f"{cls}.transform ({mode})", C(cls, "transform"), b_kproj(cls, coef, mode), p_kproj, call=call_m("transform"),
                           models={pairwise_kernels: m_kernels}, contracts={skada.utils.source_target_merge: c_merge}))
    for g in (True, False):
        out.append(Scn(f"TransferComponentAnalysis.fit (n_components {'given' if g else 'default'})", C("TransferComponentAnalysisAdapter", "fit"), b_tca(g), p_tca,
                       call=call_m("fit"), models={pairwise_kernels: m_kernels, np.linalg.solve: m_solve, np.linalg.eig: m_eig, np.block: m_block}))
    return out


# ------------------------------------------------------------ runtime (bounded)
def split_merge(sd, s, t):
    out = np.zeros((len(sd), s.shape[1] if len(s) else t.shape[1]))
    if len(s):
        out[sd >= 0] = s
    if len(t):
        out[sd < 0] = t
    return out


def frame(key, before, after):
    for i, (u, v) in enumerate(zip(before, after)):
        same_arr(f"{key}/frame/{i}", v, u)


def k_sa(p):
    quiet()
    X, y, sd, Xn, sn, nc = (p[k] for k in ("X", "y", "sd", "Xn", "sn", "nc"))
    a = skada.SubspaceAlignmentAdapter(n_components=nc, random_state=0)
    c = [v.copy() for v in (X, y, sd, Xn, sn)]
    out = must("sa/fit_transform", a.fit_transform, X, y, sample_domain=sd)
    k = min(X.shape) if nc is None else nc
    ps, pt = (PCA(k, random_state=0).fit(Z) for Z in (X[sd >= 0], X[sd < 0]))
    M = ps.components_ @ pt.components_.T

    def ref(Z, d):
        return split_merge(d, (Z[d >= 0] - ps.mean_) @ ps.components_.T @ M, (Z[d < 0] - pt.mean_) @ pt.components_.T)
    same_arr("sa/fit_transform/value", out, ref(X, sd), exact=False, tol=1e-6)
    same_arr("sa/transform/new", must("sa/transform", a.transform, Xn, sample_domain=sn, allow_source=True), ref(Xn, sn), exact=False, tol=1e-6)
    frame("sa", c, (X, y, sd, Xn, sn))
    X2 = X[:, ::-1] * 2 + 1
    same_arr("sa/refit", must("sa/refit", a.fit_transform, X2, y, sample_domain=sd),
             skada.SubspaceAlignmentAdapter(n_components=nc, random_state=0).fit_transform(X2, y, sample_domain=sd), exact=False, tol=1e-6)


def kmats(Xs, Xt, kernel):
    Z = np.concatenate([Xs, Xt])
    ns, nt = len(Xs), len(Xt)
    e = np.r_[np.full(ns, 1 / ns), np.full(nt, -1 / nt)]
    return Z, pairwise_kernels(Z, metric=kernel), np.outer(e, e), np.eye(ns + nt) - 1 / (ns + nt)


def k_tca(p):
    quiet()
    X, y, sd, Xn, sn, nc, mu, kernel = (p[k] for k in ("X", "y", "sd", "Xn", "sn", "nc", "mu", "kernel"))
    a = skada.TransferComponentAnalysisAdapter(kernel=kernel, n_components=nc, mu=mu)
    c = [v.copy() for v in (X, y, sd, Xn, sn)]
    out = must("tca/fit_transform", a.fit_transform, X, y, sample_domain=sd)
    k = min(X.shape) if nc is None else nc
    check("tca/shape", np.shape(out) == (len(X), k), np.shape(out))
    Z, K, L, H = kmats(X[sd >= 0], X[sd < 0], kernel)
    Q = np.linalg.solve(np.eye(len(Z)) + mu * K @ L @ K, K @ H @ K)
    w = np.linalg.eigvals(Q)
    top = np.sort(np.abs(w))[::-1][:k]
    W = np.asarray(a.eigvects_)
    lam = np.array([v @ Q @ v / (v @ v) for v in W.T])
    gap = 1e-6 * max(1, top[0])
    same_arr("tca/eigenvector", Q @ W, W * lam, exact=False, tol=gap * 10)
    same_arr("tca/leading", np.abs(lam), top, exact=False, tol=gap * 10)
    check("tca/independent", np.linalg.matrix_rank(W, tol=1e-6) == k, "dependent components")
    proj = lambda V: pairwise_kernels(V, Z, metric=kernel) @ W
    tol = 1e-7 * max(1., np.abs(W).max()) * max(1, np.abs(K).max())
    same_arr("tca/fit_transform/value", out, proj(X), exact=False, tol=tol)
    same_arr("tca/transform/again", must("tca/transform", a.transform, X, sample_domain=sd, allow_source=True), out, exact=False, tol=tol)
    same_arr("tca/transform/new", must("tca/transform", a.transform, Xn, sample_domain=sn, allow_source=True), proj(Xn), exact=False, tol=tol)
    frame("tca", c, (X, y, sd, Xn, sn))
    X2 = X[::-1] * 2 + 1
    must("tca/refit", a.fit, X2, y, sample_domain=sd)
    b = skada.TransferComponentAnalysisAdapter(kernel=kernel, n_components=nc, mu=mu).fit(X2, y, sample_domain=sd)
    same_arr("tca/refit", a.transform(Xn, sample_domain=sn, allow_source=True), b.transform(Xn, sample_domain=sn, allow_source=True), exact=False, tol=1e-6)


def k_tjm(p):
    quiet()
    X, y, sd, Xn, sn, nc, lam, kernel, it = (p[k] for k in ("X", "y", "sd", "Xn", "sn", "nc", "mu", "kernel", "it"))
    a = skada.TransferJointMatchingAdapter(kernel=kernel, n_components=nc, tradeoff=lam, max_iter=it)
    c = [v.copy() for v in (X, y, sd, Xn, sn)]
    out = must("tjm/fit_transform", a.fit_transform, X, y, sample_domain=sd)
    k = min(X.shape) if nc is None else nc
    check("tjm/shape", np.shape(out) == (len(X), k), np.shape(out))
    Z, K, M, H = kmats(X[sd >= 0], X[sd < 0], kernel)
    n, M = len(Z), M / np.linalg.norm(M)
    A = np.asarray(a.A_)
    proj = lambda V: pairwise_kernels(V, Z, metric=kernel) @ A
    tol = 1e-8 * max(1., np.abs(A).max() * np.abs(K).max())
    same_arr("tjm/fit_transform/value", out, proj(X), exact=False, tol=tol)
    same_arr("tjm/transform/new", must("tjm/transform", a.transform, Xn, sample_domain=sn, allow_source=True), proj(Xn), exact=False, tol=tol)
    frame("tjm", c, (X, y, sd, Xn, sn))
    # A solves the generalized eigenproblem of one of the iterations (smallest eigenvalues)
    C, G, src, eps = K @ H @ K.T + 1e-10 * np.eye(n), np.eye(n), np.arange(n) < (sd >= 0).sum(), 1e-10
    hit, loss = [], []
    for i in range(it):
        B = K @ M @ K.T + lam * G + eps * np.eye(n)
        phi, V = scipy.linalg.eigh(B, C)
        V = V[:, np.argsort(phi)[:k]]
        q = lambda U: np.linalg.svd(U, full_matrices=False)[0]
        s = np.linalg.svd(q(V).T @ q(A))[1]
        hit.append(bool(s.min() > 1 - 1e-4))
        nrm = np.linalg.norm(V, axis=1)
        G = np.diag(np.where(src, 1 / (2 * nrm + eps), 1.))
        loss.append(np.trace(V.T @ K @ M @ K @ V) + lam * (nrm[src].sum() + (nrm[~src] ** 2).sum()))
    check("tjm/solution", any(hit), "A_ spans no iterate's solution space")
    if it > 1 and hit[0] and not any(hit[1:]) and abs(loss[1] - loss[0]) > .1 * abs(loss[0]):
        raise Violation("tjm/one-iteration", f"stopped after the first of {it} iterations, losses {loss[:3]}")


def orth_loss(method, W, Xs, ys, Xt, length_scale, mu, reg):
    def cov(V):
        V = V - V.mean(0)
        C = V.T @ V / len(V)
        return (1 - reg) * C + reg * np.trace(C) * np.eye(V.shape[1])

    def gauss(U, V, s):
        Lc = np.linalg.cholesky(np.linalg.inv(s))
        U, V = U @ Lc, V @ Lc
        return np.exp(-.5 * np.sqrt(np.maximum(((U[:, None] - V[None]) ** 2).sum(-1), 0))).mean()
    Zs, Zt = Xs @ W, Xt @ W
    s, t = cov(Zs), cov(Zt)
    D = gauss(Zs, Zs, 2 * s) + gauss(Zt, Zt, 2 * t) - 2 * gauss(Zs, Zt, s + t)
    if method == "pca":
        F = -np.trace(W.T @ cov(Xs) @ W)
    elif method == "flda":
        cl, cnt = np.unique(ys, return_counts=True)
        Mn = np.stack([Xs[ys == c].mean(0) for c in cl]) * np.sqrt(cnt)[:, None]
        F = np.trace(W.T @ cov(Mn) @ W) / np.trace(W.T @ cov(Xs) @ W)
    else:
        E = np.exp(-np.sqrt(((Xs[:, None] - Xs[None]) ** 2).sum(-1)) / length_scale) * (ys[:, None] == ys[None])
        F = -2 * np.trace(W.T @ Xs.T @ (np.diag(E.sum(1)) - E) @ Xs @ W)
    return F + mu * D


def k_tsl(p):
    quiet()
    X, y, sd, Xn, sn, nc, method, reg, mu, ls = (p[k] for k in ("X", "y", "sd", "Xn", "sn", "nc", "method", "reg", "mu", "ls"))
    mk = lambda: skada.TransferSubspaceLearningAdapter(n_components=nc, base_method=method, reg=reg, mu=mu, length_scale=ls, max_iter=30)
    a = mk()
    c = [v.copy() for v in (X, y, sd, Xn, sn)]
    out = must("tsl/fit_transform", a.fit_transform, X, y, sample_domain=sd)
    k = min(X.shape) if nc is None else nc
    W = np.asarray(a.W_)
    check("tsl/shape", W.shape == (X.shape[1], k), W.shape)
    same_arr("tsl/orthonormal", W.T @ W, np.eye(k), exact=False, tol=1e-6)
    same_arr("tsl/fit_transform/value", out, X @ W, exact=False, tol=1e-9)
    same_arr("tsl/transform/new", must("tsl/transform", a.transform, Xn, sample_domain=sn, allow_source=True), Xn @ W, exact=False, tol=1e-9)
    frame("tsl", c, (X, y, sd, Xn, sn))
    s = sd >= 0
    loss = lambda V: orth_loss(method, V, X[s].astype(float), y[s], X[~s].astype(float), ls, mu, reg)
    l0, l1 = loss(np.eye(X.shape[1])[:, :k]), loss(W)
    check("tsl/objective", l1 <= l0 + 1e-6 * (1 + abs(l0)), f"objective {l1} at the solution, {l0} at the start")
    same_arr("tsl/deterministic", must("tsl/again", mk().fit_transform, X, y, sample_domain=sd), out, exact=False, tol=1e-6)


KINDS = dict(sa=k_sa, tca=k_tca, tjm=k_tjm, tsl=k_tsl)


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(40 if tier == "quick" else 400):
        n, m, d = rng.randint(5, 14), rng.randint(5, 14), rng.randint(2, 4)
        pool = rng.choice([([1], [-2]), ([0, 2], [-1]), ([1, 2], [-2, -3]), ([0], [-7])])
        sd = np.r_[np.resize(pool[0], n), np.resize(pool[1], m)]
        N = len(sd)
        y = np.where(sd >= 0, np.arange(N) % 2, -1)
        X = r.randn(N, d) * (1 + np.arange(d)) + sd[:, None] * .3 + np.where(y == 1, 1.5, 0)[:, None]
        if rng.random() < .25:
            X = np.round(X * 5).astype(int)
        o = r.permutation(N) if rng.random() < .8 else np.arange(N)
        X, y, sd = X[o], y[o], sd[o]
        k = rng.randint(1, 8)
        Xn, sn = r.randn(k, d) * 2, r.choice(rng.choice([pool[0], pool[1], pool[0] + pool[1]]), k)
        if rng.random() < .2:
            i = r.permutation(N)   # the fitted samples in another order
            Xn, sn = X[i], sd[i]
            Xn3 = Xn / np.abs(X).max()
        else:
            Xn3 = Xn / 3
        b = dict(X=X, y=y, sd=sd, Xn=Xn, sn=sn, nc=rng.choice([None, 1, 2]))
        yield "sa", b
        kern = rng.choice(["rbf", "rbf", "linear", "cosine"])
        mu = rng.choice([.1, 1., 5.])
        Xf = X / np.abs(X).max()
        b2 = dict(b, X=Xf, Xn=Xn3, kernel=kern, mu=mu)
        Z, K, L, H = kmats(Xf[sd >= 0], Xf[sd < 0], kern)
        nc = min(Xf.shape) if b["nc"] is None else b["nc"]
        w = np.linalg.eigvals(np.linalg.solve(np.eye(N) + mu * K @ L @ K, K @ H @ K))
        aw = np.sort(np.abs(w))[::-1]
        if (aw[:nc] - aw[1:nc + 1]).min() > 1e-3 * aw[0] and np.abs(w.imag).max() < 1e-9:
            yield "tca", b2
        if kern == "rbf" and np.linalg.svd(K)[1].min() > 1e-7:
            yield "tjm", dict(b2, mu=rng.choice([1e-2, .1, 1.]), it=rng.choice([1, 1, 1, 20]))
        if rep % 4 == 0:
            yield "tsl", dict(b, X=Xf, Xn=Xn3, method=["pca", "flda", "lpp"][rep // 4 % 3], reg=rng.choice([0.01, .1]), mu=rng.choice([.1, 1.]), ls=rng.choice([2, .5]))
