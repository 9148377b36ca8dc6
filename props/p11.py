"""P11: the quadratic-programming solvers return feasible points, and the
weights learnt with them respect the documented constraints."""
import numpy as np

import skada.utils as U
import skada._reweight as RW
from dv.loops import Invariant
from dv.prop import Scn, Violation, opt
from dv.spec import *
from dv.core import S, SArr, ctx, z3, zi
from dv import npmodel
from props.util import *

ID = "P11"
LEVEL = "proof"


class Jac:
    """any gradient: an unknown vector at every call"""

    _dv_native = True

    def __init__(self, d):
        self.d = d

    def __call__(self, x):
        return arr_uf("grad", (self.d,), "f")


def pos(a, i):
    return el(a, i) > 0


def forall_(n, f):
    k = iv("k")
    return S(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(n)), f(S(k)).e)))


def feas(x, c, lo, hi):
    v = npmodel.dot(c, x)
    return And(forall_(ln(x), lambda i: el(x, i) >= 0), v >= lo, v <= hi)


def b_fw(x0):
    def b():
        d = length("d", 1)
        c = floats(d, "c")
        assume_forall(d, lambda i: el(c, i) > 0)
        lo, hi = S(ctx().fresh("f", "clb")), S(ctx().fresh("f", "cub"))
        assume(And(lo >= 0, lo <= hi))
        it = length("max_iter", 1)
        B.update(c=c.snapshot(), lo=lo, hi=hi, d=d)
        start = floats(d, "x0") if x0 else None
        return (Jac(d), c), dict(clb=lo, cub=hi, x0=start, max_iter=it), dict(c=c.snapshot(), lo=lo, hi=hi, d=d)
    return b


B = {}


def inv_fw(get, k):
    x = get("x")
    return And(ln(x) == B["d"], Or(k == 0, feas(x, B["c"], B["lo"], B["hi"])))


def p_fw(P, out, I):
    if out[0] == "raise":
        return P.fail("an answer", repr(out[1]))
    x = out[1]
    i = fresh_int("i")
    P("one coordinate per variable", ln(x) == I["d"])
    P("coordinates are not negative", Implies(And(i >= 0, i < I["d"]), el(x, i) >= 0))
    v = npmodel.dot(I["c"], x)
    P("linear constraint, lower side", v >= I["lo"])
    P("linear constraint, upper side", v <= I["hi"])



# ---- the QP wrapper around frank_wolfe, checked against frank_wolfe's contract
def c_fw(interp, jac, c, clb=1.0, cub=1.0, x0=None, max_iter=1000):
    x = floats(ln(c), "x")
    q, i = ctx(), fresh_int("i")
    q.prove("frank_wolfe precondition: positive coefficients", Implies(And(i >= 0, i < ln(c)), el(c, i) > 0))
    q.prove("frank_wolfe precondition: 0 <= clb <= cub", And(_sc(clb) >= 0, _sc(clb) <= _sc(cub)))
    assume(feas(x, c, _sc(clb), _sc(cub)))
    LOG.append(("fw", jac, x, x0, max_iter))
    return x


def _sc(v):
    return v if isinstance(v, S) else npmodel.lit(v)


LOG = []


def b_qfw(kind):
    def b():
        LOG.clear()
        d = length("d", 1)
        Q, c = matrix(d, d, "Q"), floats(d, "c")
        kw = dict(c=c)
        m = S(ctx().fresh("i", "rows"))
        assume(m >= 1)
        if kind == "eq":
            A, b = matrix(1, d, "A"), floats(1, "b")
            assume_forall(d, lambda i: el2(A, 0, i) > 0)
            assume(el(b, 0) >= 0)
            kw.update(Aeq=A, beq=b)
        elif kind in ("two", "neg"):
            A, b = matrix(2, d, "A"), floats(2, "b")
            assume_forall(d, lambda i: And(el2(A, 0, i) > 0, el2(A, 1, i) == -el2(A, 0, i)))
            assume(el(b, 1) <= 0)
            assume(el(b, 0) >= -el(b, 1) if kind == "two" else el(b, 0) < -el(b, 1))
            kw.update(A=A, b=b)
        elif kind == "indep":
            A, b = matrix(2, d, "A"), floats(2, "b")
            j = fresh_int("j")
            assume(And(j >= 0, j < d, el2(A, 0, j) - el2(A, 1, j) * -1 > 1, el2(A, 1, j) <= 0, el2(A, 1, j) >= -1000))
            kw.update(A=A, b=b)
        elif kind == "many":
            assume(m > 2)
            A, b = matrix(m, d, "A"), floats(m, "b")
            kw.update(A=A, b=b)
        elif kind == "manyeq":
            assume(m > 1)
            A, b = matrix(m, d, "A"), floats(m, "b")
            kw.update(Aeq=A, beq=b)
        else:
            A = b = None
        it = length("max_iter", 1)
        kw["max_iter"] = it
        return (Q,), kw, dict(Q=Q.snapshot(), c=c.snapshot(), A=A, b=b, d=d, kind=kind, it=it)
    return b


def call_qfw(it, Q, **kw):
    r = it.call(U._qp_solve_frank_wolfe, (Q,), kw)
    jac = [e for e in LOG if e[0] == "fw"][-1][1]
    probe = floats(ln(Q), "probe")
    return r, it.call(jac, (probe,)), probe


def objective(Q, c, x):
    v = npmodel.dot(x, npmodel.matmul(Q, x)) * S(z3.Q(1, 2))
    return v if c is None else v + npmodel.dot(x, c)


def p_qfw(P, out, I):
    kind = I["kind"]
    if kind in ("neg", "indep", "many", "manyeq", "none"):
        P("refused with ValueError", out[0] == "raise" and type(out[1]) is ValueError)
        return
    if out[0] == "raise":
        return P.fail("an answer", repr(out[1]))
    (x, val), g, probe = out[1]
    d, i = I["d"], fresh_int("i")
    P("one coordinate per variable", ln(x) == d)
    P("coordinates are not negative", Implies(And(i >= 0, i < d), el(x, i) >= 0))
    A0 = SArr((d,), "f", lambda j: I["A"].fn(z3.IntVal(0), j))
    v = npmodel.dot(A0, x)
    if kind == "eq":
        P("Aeq x = beq", v == el(I["b"], 0))
    else:
        P("A x <= b, first row", v <= el(I["b"], 0))
        A1 = SArr((d,), "f", lambda j: I["A"].fn(z3.IntVal(1), j))
        P("A x <= b, second row", Or(-v <= el(I["b"], 1), npmodel.dot(A1, x) <= el(I["b"], 1)))
    P("value returned is the objective at the answer", val == objective(I["Q"], I["c"], x))
    P("gradient given to the solver is Qx + c", Implies(And(i >= 0, i < d),
      el(g, i) == el(npmodel.matmul(I["Q"], probe), i) + el(I["c"], i)))
    P("iteration budget is passed", LOG[-1][4] is I["it"] or LOG[-1][4] == I["it"])


# ---- the scipy wrapper: the problem handed to the solver is the one stated
class Res(dict):
    _dv_native = True

    def __getattr__(self, a):
        try:
            return self[a]
        except KeyError:
            raise AttributeError(a)


def m_minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
    x = floats(ln(x0), "xsol")
    v = S(ctx().fresh("f", "fsol"))
    LOG.append(dict(fun=fun, x0=x0, method=method, jac=jac, bounds=bounds, constraints=constraints, tol=tol, options=options, x=x, v=v))
    return Res(x=x, fun=v, success=S(ctx().fresh("b", "success")), message="message")


class LinC:
    _dv_native = True

    def __init__(self, A, lb=-np.inf, ub=np.inf, keep_feasible=False):
        self.A, self.lb, self.ub = A, lb, ub


def b_qs(parts):
    def b():
        LOG.clear()
        d, m, e = length("d", 1), length("m", 1), length("e", 1)
        Q = matrix(d, d, "Q")
        all_ = dict(c=floats(d, "c"), A=matrix(m, d, "A"), b=floats(m, "b"), Aeq=matrix(e, d, "Aeq"), beq=floats(e, "beq"),
                    lb=floats(d, "lb"), ub=floats(d, "ub"), x0=floats(d, "x0"))
        kw = {k: v for k, v in all_.items() if k in parts}
        kw["tol"] = S(ctx().fresh("f", "tol"))
        kw["max_iter"] = S(ctx().fresh("i", "maxit"))
        kw["log"] = "log" in parts
        return (Q,), dict(kw), dict(kw, Q=Q.snapshot(), d=d, parts=parts)
    return b


def call_qs(it, Q, **kw):
    r = it.call(U._qp_solve_scipy, (Q,), kw)
    e = LOG[-1]
    probe = floats(ln(Q), "probe")
    return r, it.call(e["fun"], (probe,)), it.call(e["jac"], (probe,)), probe


def p_qs(P, out, I):
    if out[0] == "raise":
        return P.fail("an answer", repr(out[1]))
    r, f, g, x = out[1]
    e = LOG[-1]
    d, i, parts, c = I["d"], fresh_int("i"), I["parts"], I.get("c")
    ini = And(i >= 0, i < d)
    P("solved once", len(LOG) == 1)
    P("the solver's point and value are returned", arr_same(r[0], e["x"]) if r[0] is not e["x"] else True)
    P("its value", r[1] == e["v"])
    P("the log is returned on request only", len(r) == (3 if "log" in parts else 2))
    P("objective is x'Qx/2 + x'c", f == objective(I["Q"], c, x))
    gi = el(npmodel.matmul(I["Q"], x), i)
    P("gradient is Qx + c", Implies(ini, el(g, i) == (gi if c is None else gi + el(c, i))))
    cons = {("eq" if k.lb is not None and not isinstance(k.lb, float) else "in"): k for k in e["constraints"]}
    P("as many constraint blocks as given", len(e["constraints"]) == ("A" in parts) + ("Aeq" in parts))
    if "A" in parts:
        k = cons["in"]
        P("A x <= b", And(arr_same(k.A, I["A"]), arr_same(k.ub, I["b"])))
        P("no lower side on A x", isinstance(k.lb, float) and k.lb == -np.inf)
    if "Aeq" in parts:
        k = cons["eq"]
        P("Aeq x = beq", And(arr_same(k.A, I["Aeq"]), arr_same(k.ub, I["beq"]), arr_same(k.lb, I["beq"])))
    bd = e["bounds"]
    if "lb" not in parts and "ub" not in parts:
        P("no bounds", bd is None)
    else:
        P("one bound per variable", ln(bd) == d)
        lo, hi = bd.get(zi(i))
        for nm, v, free in (("lb", lo, -np.inf), ("ub", hi, np.inf)):
            if nm in parts:
                P(f"{nm} is the bound of its own variable", Implies(ini, v == el(I[nm], i)))
            else:
                P(f"no {nm}", isinstance(v, float) and v == free)
    P("start point", arr_same(e["x0"], I["x0"]) if "x0" in parts else And(ln(e["x0"]) == d, Implies(ini, el(e["x0"], i) == 1)))
    P("tolerance and budget", And(e["tol"] == I["tol"], e["options"]["maxiter"] == I["max_iter"]))


# ---- dispatch
def c_s(interp, *a, **k):
    LOG.append(("scipy", a, k))
    return "scipy-answer"


def c_q(interp, *a, **k):
    LOG.append(("fw", a, k))
    return "fw-answer"


def b_disp(solver):
    def b():
        LOG.clear()
        names = ("Q", "c", "A", "b", "Aeq", "beq", "lb", "ub", "x0", "tol", "max_iter", "verbose", "log")
        kw = {n: f"<{n}>" for n in names}
        Q = kw.pop("Q")
        return (Q,), dict(kw, solver=solver), dict(names=names, solver=solver)
    return b


def p_disp(P, out, I):
    if I["solver"] not in ("scipy", "frank-wolfe"):
        P("unknown solvers are refused", out[0] == "raise" and type(out[1]) is ValueError)
        return
    if out[0] == "raise":
        return P.fail("an answer", repr(out[1]))
    tag = "scipy" if I["solver"] == "scipy" else "fw"
    P("the solver asked for", [e[0] for e in LOG] == [tag] and out[1] == tag + "-answer")
    import inspect
    f = U._qp_solve_scipy if tag == "scipy" else U._qp_solve_frank_wolfe
    ba = inspect.signature(f).bind(*LOG[0][1], **LOG[0][2]).arguments
    P("every argument reaches the parameter of the same name", all(v == f"<{k}>" for k, v in ba.items()))
    need = set(I["names"]) - (set() if tag == "scipy" else {"lb", "ub", "tol", "verbose", "log"})
    P("no argument is dropped", need <= set(ba))


# ---- KMM: the documented problem is posed
def c_qp(interp, Q, c=None, A=None, b=None, Aeq=None, beq=None, lb=None, ub=None, x0=None, tol=1e-6, max_iter=1000, verbose=False, log=False, solver="scipy"):
    x = floats(ln(c), "xsol")
    LOG.append(dict(Q=Q, c=c, A=A, b=b, Aeq=Aeq, beq=beq, lb=lb, ub=ub, x0=x0, tol=tol, max_iter=max_iter, solver=solver, x=x))
    return x, S(ctx().fresh("f", "fsol"))


def b_kmm(eps):
    def b():
        LOG.clear()
        ns, nt, d = length("ns", 1), length("nt", 1), length("d", 1)
        Xs, Xt = rows(ns, d, "Xs"), rows(nt, d, "Xt")
        a = RW.KMMReweightAdapter(gamma=2.0, solver="scipy")
        a.B = S(ctx().fresh("f", "B"))
        a.eps = S(ctx().fresh("f", "eps")) if eps else None
        a.tol, a.max_iter = S(ctx().fresh("f", "tol")), S(ctx().fresh("i", "mi"))
        return (a, Xs, Xt), {}, dict(a=a, Xs=Xs, Xt=Xt, ns=ns, nt=nt)
    return b


def call_kmm(it, a, Xs, Xt):
    return it.call(a._weights_optimization, (Xs, Xt), {})


def p_kmm(P, out, I):
    if out[0] == "raise":
        return P.fail("weights", repr(out[1]))
    from props.p10 import KER
    a, Xs, Xt, ns, nt = (I[k] for k in ("a", "Xs", "Xt", "ns", "nt"))
    e = [x for x in LOG if isinstance(x, dict)][-1]
    i, j = fresh_int("i"), fresh_int("j")
    ii, jj = And(i >= 0, i < ns), And(j >= 0, j < ns)
    P("the solver's weights are returned", arr_same(out[1], e["x"]))
    P("Q is the source kernel", Implies(And(ii, jj), el2(e["Q"], i, j) == S(KER(el(Xs, i).e, el(Xs, j).e))))
    Kst = SArr((ns, nt), "f", lambda p, q: S(KER(Xs.fn(p).e, Xt.fn(q).e)))
    P("linear term is -(ns/nt) sum of cross kernels", Implies(ii, el(e["c"], i) == -(S(zi(ns)) * el(npmodel.sum_(Kst, axis=1), i) / S(zi(nt)))))
    P("two rows", And(S(zi(e["A"].shape[0])) == 2, ln(e["b"]) == 2))
    P("rows of ones and of minus ones", Implies(ii, And(el2(e["A"], 0, i) == 1, el2(e["A"], 1, i) == -1)))
    eps = a.eps
    if eps is not None:
        P("sum of weights at most ns(1+eps)", el(e["b"], 0) == ns * (eps + 1))
        P("sum of weights at least ns(1-eps)", el(e["b"], 1) == -(ns * (1 - eps)))
    else:
        P("band around ns", And(el(e["b"], 0) - ns == el(e["b"], 1) + ns, el(e["b"], 0) >= ns, el(e["b"], 0) <= ns * 2))
    P("weights between 0 and B", Implies(ii, And(el(e["lb"], i) == 0, el(e["ub"], i) == a.B)))
    P("solver options", e["solver"] == a.solver and e["max_iter"] is a.max_iter and e["tol"] is a.tol)
    P("no other constraint", e["Aeq"] is None and e["beq"] is None)


# ---- KLIEP: coefficients stay feasible
def b_kliep():
    LOG.clear()
    ctx().memo["sum_mono"] = ctx().memo["sum_pos"] = True
    ns, nt, d = length("ns", 1), length("nt", 2), length("d", 1)
    Xs, Xt = rows(ns, d, "Xs"), rows(nt, d, "Xt")
    from props.p10 import KER, RowSort
    r1, r2 = z3.Const("r1!", RowSort), z3.Const("r2!", RowSort)
    ctx().forall([r1, r2], KER(r1, r2) > 0, [KER(r1, r2)])
    a = RW.KLIEPReweightAdapter(gamma=1.0)
    a.n_centers, a.max_iter = length("nc", 2), length("mi", 1)
    return (a, Xs, Xt), {}, dict(a=a, Xs=Xs, Xt=Xt, ns=ns, nt=nt)


def call_kliep(it, a, Xs, Xt):
    return it.call(a._weights_optimization, ("gamma", Xs, Xt), {})


def m_mean(a, axis=None, **kw):
    """mean over the rows of a positive matrix: an unknown positive vector"""
    if axis != 0 or not isinstance(a, SArr) or a.ndim != 2:
        return npmodel.mean_(a, axis)
    i, j = fresh_int("i"), fresh_int("j")
    ctx().prove("mean of positive entries is positive", Implies(And(i >= 0, i < a.shape[0], j >= 0, j < a.shape[1]), el2(a, i, j) > 0))
    b = floats(a.shape[1], "b")
    q = iv("q")
    ctx().forall([q], z3.Implies(z3.And(0 <= q, q < zi(a.shape[1])), b.uf(q) > 0), [b.uf(q)])
    LOG.append(("mean", a.snapshot(), b.snapshot()))
    return b


def inv_kliep(get, k):
    alpha, b = get("alpha"), get("b")
    n = ln(b)
    return And(ln(alpha) == n, forall_(n, lambda i: el(alpha, i) >= 0), Or(k == 0, npmodel.dot(b, alpha) == 1))


def _mul(get):
    a, b = get("alpha"), get("b")
    return a, b, ln(b)


def cut_len(get):
    a, b, n = _mul(get)
    yield ln(a) == n


def cut_one(get):
    a, b, n = _mul(get)
    yield ln(a) == n
    yield npmodel.dot(b, a) == 1


def cut_pos(get):
    a, b, n = _mul(get)
    yield ln(a) == n
    yield n, lambda i: el(a, i) >= 0
    yield npmodel.dot(b, a) >= 1


def cut_unit(get):
    a, b, n = _mul(get)
    yield ln(a) == n
    yield n, lambda i: el(a, i) >= 0
    yield npmodel.dot(b, a) == 1


def p_kliep(P, out, I):
    if out[0] == "raise":
        return P.fail("coefficients", repr(out[1]))
    from props.p10 import KER
    alpha, C = out[1]
    i = fresh_int("i")
    Xs = I["Xs"]
    P("one coefficient per centre", ln(alpha) == ln(C))
    P("coefficients are not negative", Implies(And(i >= 0, i < ln(alpha)), el(alpha, i) >= 0))
    K, b = next((e[1], e[2]) for e in LOG if e[0] == "mean")
    k2 = fresh_int("k2")
    P("the normaliser is the mean kernel over the source samples", And(S(zi(K.shape[0])) == ln(Xs), S(zi(K.shape[1])) == ln(C),
      Implies(And(i >= 0, i < ln(Xs), k2 >= 0, k2 < ln(C)), el2(K, i, k2) == S(KER(Xs.fn(zi(i)).e, C.fn(zi(k2)).e)))))
    P("the weights of the source samples have mean one", npmodel.dot(b, alpha) == 1)
    P("centres are target samples", Implies(And(i >= 0, i < ln(C)), And(src(el(C, i)) == I["Xt"].src, tag(el(C, i)) >= 0, tag(el(C, i)) < ln(I["Xt"]))))


# ---- MMDTarS: the documented constraints are posed
def m_inv(A):
    return arr_uf("inv", A.shape, "f")


def b_tars(discrete):
    def b():
        LOG.clear()
        ns, nt, d = length("ns", 1), length("nt", 1), length("d", 1)
        Xs, Xt = rows(ns, d, "Xs"), rows(nt, d, "Xt")
        y = ints(ns, "y") if discrete else floats(ns, "y")
        a = RW.MMDTarSReweightAdapter(gamma=1.0)
        return (a, Xs, Xt, y), {}, dict(a=a, Xs=Xs, Xt=Xt, y=y.snapshot(), ns=ns, discrete=discrete)
    return b


def call_tars(it, *a):
    return it.call(a[0]._weights_optimization, a[1:], {})


def c_qp_t(interp, Q=None, c=None, A=None, b=None, **kw):
    x = floats(ln(c), "xsol")
    LOG.append(dict(Q=Q, c=c, A=A, b=b, x=x, **kw))
    return x, S(ctx().fresh("f", "fsol"))


def c_ytype(discrete):
    return lambda interp, y: RW.Y_Type.DISCRETE if discrete else RW.Y_Type.CONTINUOUS


def m_yk(X, Y=None, metric="linear", *, filter_params=False, n_jobs=None, **kw):
    from props.p10 import m_kernels
    X = npmodel.lit(X)
    if X.rows:
        return m_kernels(X, Y, metric, **kw)
    return arr_uf("Ky", (X.shape[0], X.shape[0]), "f")


def p_tars(P, out, I):
    if out[0] == "raise":
        return P.fail("weights", repr(out[1]))
    w, alpha = out[1]
    e = [x for x in LOG if isinstance(x, dict)][-1]
    ns, i, q = I["ns"], fresh_int("i"), fresh_int("q")
    A, b = e["A"], e["b"]
    ii = And(i >= 0, i < ns)
    K = ln(alpha)
    iq = And(q >= 0, q < K)
    P("two rows per sample and two for the total", And(S(zi(A.shape[0])) == ns * 2 + 2, ln(b) == ns * 2 + 2, S(zi(A.shape[1])) == K))
    P("one weight per source sample", ln(w) == ns)
    up = lambda r: el2(A, ns + 1 + r, q)
    lo = lambda r: el2(A, r, q)
    P("lower and upper rows are opposite", Implies(And(ii, iq), lo(i) == -up(i)))
    P("weights bounded below by 0 and above by 10", Implies(ii, And(el(b, i) == 0, el(b, ns + 1 + i) == 10)))
    tot = SArr((K,), "f", lambda z: A.fn(zi(ns * 2 + 1), z))
    P("total rows are opposite", Implies(iq, el2(A, ns, q) == -el2(A, ns * 2 + 1, q)))
    P("total between ns(1-eps) and ns(1+eps)", And(el(b, ns * 2 + 1) - ns == el(b, ns) + ns, el(b, ns * 2 + 1) >= ns))
    R_ = SArr((ns, K), "f", lambda r, z: A.fn(zi(ns) + 1 + r, z))
    P("the total row is the column sum", Implies(iq, el(tot, q) == el(npmodel.sum_(R_, axis=0), q)))
    P("weights are the bounded combinations", Implies(ii, el(w, i) == el(npmodel.matmul(R_, e["x"]), i)))
    if I["discrete"]:
        cl = I["a"].classes_
        P("one coefficient per class: row of a sample marks its class", Implies(And(ii, iq), up(i) == S(z3.If((el(I["y"], i) == el(cl, q)).e, z3.RealVal(1), z3.RealVal(0)))))


def scenarios():
    from sklearn.metrics.pairwise import pairwise_kernels
    from props.p10 import m_kernels
    from scipy.optimize import LinearConstraint, minimize

    fw, inv = opt(U, "frank_wolfe"), {"frank_wolfe": {0: Invariant(inv_fw)}}
    qf, qs, qp = opt(U, "_qp_solve_frank_wolfe"), opt(U, "_qp_solve_scipy"), opt(U, "qp_solve")
    out = [
        Scn("frank_wolfe", fw, b_fw(False), p_fw, invariants=inv),
        Scn("frank_wolfe (start given)", fw, b_fw(True), p_fw, invariants=inv),
    ]
    for k in ("eq", "two", "neg", "indep", "many", "manyeq", "none"):
        bad = k not in ("eq", "two")
        out.append(Scn(f"_qp_solve_frank_wolfe ({k})", qf, b_qfw(k), p_qfw, contracts={fw: c_fw},
                       call=None if bad else call_qfw, expect=("raise",) if bad else ("return",)))
    for parts in ((), ("c", "A", "b"), ("c", "Aeq", "beq", "lb", "x0"), ("c", "A", "b", "Aeq", "beq", "lb", "ub", "log"), ("ub", "c")):
        out.append(Scn(f"_qp_solve_scipy ({','.join(parts)})", qs, b_qs(parts), p_qs, call=call_qs,
                       models={minimize: m_minimize, LinearConstraint: LinC}))
    for s in ("scipy", "frank-wolfe", "other"):
        out.append(Scn(f"qp_solve ({s})", qp, b_disp(s), p_disp, contracts={qs: c_s, qf: c_q}, expect=("raise",) if s == "other" else ("return",)))
    M = {pairwise_kernels: m_kernels}
    for e in (True, False):
        out.append(Scn(f"KMM._weights_optimization ({'eps' if e else 'default eps'})", opt(RW, "KMMReweightAdapter._weights_optimization"), b_kmm(e), p_kmm,
                       contracts={qp: c_qp}, call=call_kmm, models=M))
    out.append(Scn("KLIEP._weights_optimization", opt(RW, "KLIEPReweightAdapter._weights_optimization"), b_kliep, p_kliep, call=call_kliep, models={**M, np.mean: m_mean},
                   invariants={"KLIEPReweightAdapter._weights_optimization": {0: Invariant(inv_kliep)},
                               "cuts": {"KLIEPReweightAdapter._weights_optimization": {("alpha", 1): cut_len, ("alpha", 2): cut_one, ("alpha", 3): cut_pos, ("alpha", 4): cut_unit}}}))
    for d in (True, False):
        out.append(Scn(f"MMDTarS._weights_optimization ({'classes' if d else 'regression'})", opt(RW, "MMDTarSReweightAdapter._weights_optimization"), b_tars(d), p_tars,
                       contracts={qp: c_qp_t, RW._find_y_type: c_ytype(d)}, call=call_tars, models={pairwise_kernels: m_yk, np.linalg.inv: m_inv}))
    return out



# ------------------------------------------------------------ runtime side
def _sd(r, d):
    M = r.randn(d, d)
    return M @ M.T / d + 1e-3 * np.eye(d)


def _obj(Q, c, x):
    return .5 * x @ (Q @ x) + (0 if c is None else x @ c)


def _fw_slack(Q, a, ub, it):
    """Frank-Wolfe's guarantee: f(x) - f* <= 2 L D^2 / (it + 2)"""
    D2 = 2 * np.max((ub / a) ** 2)
    return 2 * np.linalg.eigvalsh(Q)[-1] * D2 / (it + 2) + 1e-9


def k_fw(p):
    Q, c, a, lo, hi, it = (p[k] for k in ("Q", "c", "a", "lo", "hi", "it"))
    keep = [z.copy() for z in (Q, c, a)]
    x = must("fw", U.frank_wolfe, lambda z: Q @ z + c, a, lo, hi, None, it)
    for nm, u, v in zip("Qca", (Q, c, a), keep):
        same_arr(f"fw/frame/{nm}", u, v)
    check("fw/shape", x.shape == a.shape, x.shape)
    t = 1e-9 * max(1, hi)
    check("fw/nonnegative", (x >= -t).all(), x)
    check("fw/lower", a @ x >= lo - t, (a @ x, lo))
    check("fw/upper", a @ x <= hi + t, (a @ x, hi))
    # at least as good as every vertex, up to the solver's guarantee
    e = np.eye(len(a)) / a
    best = min(_obj(Q, c, v * s) for v in e for s in (lo, hi))
    cen = e.mean(0) * hi
    best = min(best, _obj(Q, c, cen))
    check("fw/optimal", _obj(Q, c, x) <= best + _fw_slack(Q, a, hi, it), (_obj(Q, c, x), best))


def k_qfw(p):
    Q, c, it = p["Q"], p["c"], p["it"]
    A, b, kind = p["A"], p["b"], p["kind"]
    kw = dict(c=c, max_iter=it, solver="frank-wolfe")
    kw.update(dict(Aeq=A, beq=b) if kind == "eq" else dict(A=A, b=b))
    if kind == "bad":
        try:
            U.qp_solve(Q, **kw)
        except ValueError:
            return
        raise Violation("qfw/bad", "accepted constraints it cannot handle")
    r = must("qfw", U.qp_solve, Q, **kw)
    x, val = r[0], r[1]
    a = A[0]
    t = 1e-8 * max(1, np.abs(b).max())
    check("qfw/nonnegative", (x >= -t).all(), x)
    if kind == "eq":
        check("qfw/equality", abs(a @ x - b[0]) <= t, (a @ x, b))
    else:
        check("qfw/inequality", (A @ x <= b + t).all(), (A @ x, b))
    check("qfw/value", abs(val - _obj(Q, c, x)) <= 1e-9 * max(1, abs(val)), (val, _obj(Q, c, x)))
    lo = b[0] if kind == "eq" else (-b[1] if kind == "two" else 0.)
    vs = [np.eye(len(a))[j] / a[j] * s for j in range(len(a)) for s in (lo, b[0])]
    best = min(_obj(Q, c, v) for v in vs)
    if _obj(Q, c, x) > best + _fw_slack(Q, a, b[0], it):
        raise Violation("fw/single-inequality" if kind == "one" else "qfw/optimal",
                        f"objective {_obj(Q, c, x)} although {best} is feasible")


def k_qs(p):
    import warnings

    warnings.simplefilter("ignore")
    Q, c, x0 = p["Q"], p["c"], p["feasible"]
    kw = {k: p[k] for k in ("A", "b", "Aeq", "beq", "lb", "ub") if p[k] is not None}
    keep = {k: v.copy() for k, v in kw.items()}
    r = must("scipy", U.qp_solve, Q, c, solver="scipy", log=p["log"], **kw)
    check("scipy/parts", len(r) == (3 if p["log"] else 2), len(r))
    for k in kw:
        same_arr(f"scipy/frame/{k}", kw[k], keep[k])
    x, val = r[0], r[1]
    t = 1e-5 * max(1, np.abs(x).max())
    check("scipy/value", abs(val - _obj(Q, c, x)) <= 1e-7 * max(1, abs(val)), (val, _obj(Q, c, x)))
    if "lb" in kw:
        check("scipy/lb", (x >= kw["lb"] - t).all(), (x, kw["lb"]))
    if "ub" in kw:
        check("scipy/ub", (x <= kw["ub"] + t).all(), (x, kw["ub"]))
    if "A" in kw:
        check("scipy/A", (kw["A"] @ x <= kw["b"] + t * 10).all(), (kw["A"] @ x, kw["b"]))
    if "Aeq" in kw:
        check("scipy/Aeq", np.allclose(kw["Aeq"] @ x, kw["beq"], atol=t * 10), (kw["Aeq"] @ x, kw["beq"]))
    f0 = _obj(Q, c, x0)
    check("scipy/optimal", val <= f0 + 1e-4 * max(1, abs(f0)), (val, f0))


def k_kmm(p):
    import warnings

    warnings.simplefilter("ignore")
    X, sd, B, eps, solver = p["X"], p["sd"], p["B"], p["eps"], p["solver"]
    a = RW.KMMReweightAdapter(gamma=p["gamma"], B=B, eps=eps, solver=solver, max_iter=p["it"])
    w = must(f"kmm-{solver}", a.fit, X, sample_domain=sd).source_weights_
    n = int((sd >= 0).sum())
    e = eps if eps is not None else (np.sqrt(n) - 1) / np.sqrt(n)
    t = 1e-4 * n
    check(f"kmm-{solver}/shape", w.shape == (n,), w.shape)
    check(f"kmm-{solver}/nonnegative", (w >= -1e-6 * n).all(), w.min())
    check(f"kmm-{solver}/sum-upper", w.sum() <= n * (1 + e) + t, (w.sum(), n, e))
    check(f"kmm-{solver}/sum-lower", w.sum() >= n * (1 - e) - t, (w.sum(), n, e))
    if (w > B + 1e-4 * max(1, B)).any():
        raise Violation("kmm-fw/upper-bound" if solver == "frank-wolfe" else "kmm-scipy/upper-bound", f"weight {w.max()} above B={B}")
    # at least as good as uniform weights (always feasible for B >= 1)
    from sklearn.metrics.pairwise import rbf_kernel

    Xs, Xt = X[sd >= 0], X[sd < 0]
    Q, c = rbf_kernel(Xs, gamma=p["gamma"]), -n * rbf_kernel(Xs, Xt, gamma=p["gamma"]).mean(1)
    one = np.ones(n)
    slack = _fw_slack(Q, one, n * (1 + e), p["it"]) if solver == "frank-wolfe" else 1e-3 * n
    check(f"kmm-{solver}/optimal", _obj(Q, c, w) <= _obj(Q, c, one) + slack, (_obj(Q, c, w), _obj(Q, c, one)))


def k_kliep(p):
    import warnings

    warnings.simplefilter("ignore")
    X, sd = p["X"], p["sd"]
    a = RW.KLIEPReweightAdapter(gamma=p["gamma"], max_iter=p["it"], n_centers=p["nc"], random_state=p["seed"])
    must("kliep", a.fit, X, sample_domain=sd)
    check("kliep/coefficients", (a.alpha_ >= 0).all() and len(a.alpha_) == len(a.centers_), a.alpha_)
    w = a.compute_weights(X, sample_domain=sd)
    check("kliep/mean", abs(w[sd >= 0].mean() - 1) < 1e-6, w[sd >= 0].mean())
    T = X[sd < 0]
    check("kliep/centres", all((T == q).all(1).any() for q in a.centers_), a.centers_)


def k_tars(p):
    import warnings

    warnings.simplefilter("ignore")
    X, sd, y = p["X"], p["sd"], p["y"]
    a = RW.MMDTarSReweightAdapter(gamma=p["gamma"], max_iter=p["it"])
    must("tars", a.fit, X, y, sample_domain=sd)
    w = a.source_weights_
    n = int((sd >= 0).sum())
    check("tars/shape", w.shape == (n,), w.shape)
    check("tars/finite", np.isfinite(w).all(), w)
    e = (np.sqrt(n) - 1) / np.sqrt(n)
    check("tars/bounds", (w >= -1e-3).all() and (w <= 10 + 1e-3).all(), (w.min(), w.max()))
    check("tars/sum", n * (1 - e) - 1e-2 * n <= w.sum() <= n * (1 + e) + 1e-2 * n, (w.sum(), n, e))
    if y.dtype.kind == "i":
        ys = y[sd >= 0]
        check("tars/class", all(np.ptp(w[ys == k]) < 1e-9 for k in np.unique(ys)), w)


KINDS = dict(fw=k_fw, qfw=k_qfw, qs=k_qs, kmm=k_kmm, kliep=k_kliep, tars=k_tars)


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(25 if tier == "quick" else 400):
        for _ in range(4):
            d = rng.randint(1, 8)
            lo = rng.choice([0., .3, 1., 7.])
            hi = lo + rng.choice([0., .5, 20.])
            yield "fw", dict(Q=_sd(r, d), c=r.randn(d) * rng.choice([1, 10]), a=r.rand(d) * 3 + .1, lo=lo, hi=hi, it=rng.choice([1, 2, 3, 50, 500]))
        d = rng.randint(1, 8)
        a = r.rand(d) * 3 + .1
        Q, c, it = _sd(r, d), rng.choice([None, r.randn(d)]), rng.choice([1, 2, 10, 300])
        lo = rng.choice([.2, 1.])
        hi = lo + rng.choice([0., .5, 3.])
        yield "qfw", dict(Q=Q, c=c, A=a[None], b=np.array([hi]), kind="eq", it=it)
        yield "qfw", dict(Q=Q, c=c, A=np.stack([a, -a]), b=np.array([hi, -lo]), kind="two", it=it)
        yield "qfw", dict(Q=Q, c=c, A=np.stack([a, -a]), b=np.array([lo, -hi - 1]), kind="bad", it=it)
        yield "qfw", dict(Q=Q, c=c, A=np.stack([a, a]), b=np.array([hi, -lo]), kind="bad", it=it)
        if rep % 10 == 0:
            yield "qfw", dict(Q=np.eye(3), c=None, A=np.ones((1, 3)), b=np.array([hi]), kind="one", it=1000)
        d = rng.randint(2, 6)
        feas = r.rand(d) + .1
        A = Aeq = b = beq = lb = ub = None
        if rng.random() < .6:
            A = r.randn(rng.randint(1, 3), d)
            b = A @ feas + r.rand(len(A))
        if rng.random() < .5:
            Aeq = r.randn(1, d)
            beq = Aeq @ feas
        if rng.random() < .6:
            lb = feas - r.rand(d)
        if rng.random() < .6:
            ub = feas + r.rand(d)
        yield "qs", dict(Q=_sd(r, d), c=r.randn(d), A=A, b=b, Aeq=Aeq, beq=beq, lb=lb, ub=ub, feasible=feas, log=rng.random() < .3)
        n, m, d = rng.randint(4, 20), rng.randint(3, 20), rng.randint(1, 3)
        X = np.vstack([r.randn(n, d), r.randn(m, d) * .7 + rng.choice([0, 1., 2.])])
        sd = np.r_[np.ones(n, int), -2 * np.ones(m, int)]
        o = r.permutation(n + m)
        X, sd = X[o], sd[o]
        for solver in ("scipy", "frank-wolfe"):
            yield "kmm", dict(X=X, sd=sd, B=rng.choice([1.5, 3., 1000.]), eps=rng.choice([None, .1, .5, 0.]), gamma=rng.choice([.5, 2.]), solver=solver, it=rng.choice([100, 1000]))
        yield "kliep", dict(X=X, sd=sd, gamma=rng.choice([.5, 2., [.1, 1.]] if m >= 10 else [.5, 2.]), it=rng.choice([1, 5, 200]), nc=rng.choice([2, 5, 100]), seed=rng.randrange(99))
        y = np.where(sd >= 0, np.arange(n + m) % rng.choice([2, 3]), -1)
        if rng.random() < .4:
            y = np.where(sd >= 0, r.randn(n + m), np.nan)
        if rep % 3 == 0:
            yield "tars", dict(X=X, sd=sd, y=y, gamma=rng.choice([.5, 2.]), it=1000)
