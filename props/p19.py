"""P19: the synthetic generators produce the documented clusters, shifts, noise and
domains."""
from types import SimpleNamespace

import numpy as np
from scipy.stats import multivariate_normal

import skada.datasets as DS
import skada.datasets._samples_generator as SG
from dv.prop import Scn, Violation, Skip, opt
from dv.spec import *
from dv.core import S, SArr, ctx, z3, zi, R, RowSort, I as INT, Unsupported
from dv import npmodel
from props.util import *

ID = "P19"
LEVEL = "proof"

LOG = []
PDF1 = z3.Function("pdf1", R, R)
PDF2 = z3.Function("pdf2", R, R, R)


class Rng:
    """a random state: every draw is a fresh array of arbitrary values, recorded"""

    _dv_native = _dv_sym = True

    def draw(self, kind, shape, lo=None, hi=None, **kw):
        a = npmodel.arr_uf(kind, tuple(shape), "f")
        LOG.append((kind, a.snapshot(), kw))
        return a

    def rand(self, *s):
        return self.draw("rand", s)

    def randn(self, *s):
        return self.draw("randn", s)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if not (isinstance(loc, (int, float)) and loc == 0):
            raise Unsupported("location")
        z = self.draw("normal", size, scale=scale)
        return npmodel.binary(z, npmodel.lit(scale), "*")

    def multivariate_normal(self, mean, cov, size=None):
        return self.draw("mvn", (size, 2), mean=mean, cov=cov)

    def choice(self, n, size=None, replace=True, p=None):
        if isinstance(size, tuple) and len(size) == 2:
            a = npmodel.arr_uf("choice", size, "i")
            LOG.append(("choice", n, size, replace, p, a))
            return a
        m = size[0] if isinstance(size, tuple) else size
        c = ctx()
        f = c.func("pick", INT, INT)
        N = zi(n)
        i, j = iv("i"), iv("j")
        c.forall([i], z3.Implies(z3.And(0 <= i, i < zi(m)), z3.And(0 <= f(i), f(i) < N)), [f(i)])
        if not replace:
            c.forall([i, j], z3.Implies(z3.And(0 <= i, i < zi(m), 0 <= j, j < zi(m), f(i) == f(j)), i == j), [z3.MultiPattern(f(i), f(j))])
        a = SArr((m,), "i", lambda k: S(f(k)))
        LOG.append(("choice", n, m, replace, p, a))
        return a


def m_rs(seed=None):
    if isinstance(seed, Rng):
        return seed
    LOG.append(("seed", seed))
    return Rng()


class Normal:
    _dv_native = _dv_sym = True

    def __init__(self, mean, cov):
        LOG.append(("law", np.asarray(mean).tolist() if not isinstance(mean, S) else mean, np.asarray(cov).tolist() if not isinstance(cov, S) else cov))

    def pdf(self, x):
        f = x.fn
        if x.ndim == 1:
            return SArr(x.shape, "f", lambda i: S(PDF1(f(i).e)))
        return SArr((x.shape[0],), "f", lambda i: S(PDF2(f(i, z3.IntVal(0)).e, f(i, z3.IntVal(1)).e)))


class Data:
    """stands for DomainAwareDataset (P09)"""

    _dv_native = _dv_sym = True

    def __init__(self, domains=()):
        self.domains = [(x.snapshot(), y.snapshot(), n) for x, y, n in domains]
        self.packed = None

    def add_domain(self, X, y, name):
        self.domains.append((X.snapshot(), y.snapshot(), name))
        return self

    def pack(self, **kw):
        self.packed = kw
        return ("packed", self, kw)


MODELS = {SG.DomainAwareDataset: Data, SG.multivariate_normal: Normal}
if hasattr(SG, "check_random_state"):
    MODELS[SG.check_random_state] = m_rs
MODELS[np.random.RandomState] = m_rs
UF = {np.cos: npmodel.uf1("cos"), np.sin: npmodel.uf1("sin")}


def draws(kind):
    return [e for e in LOG if e[0] == kind]


# ------------------------------------------------------------------ clusters
S1, M1 = [[2, -.5], [-.5, 2]], [2, 2]
CL = [([[.15, 0], [0, .3]], [-1.5, 3]), ([[.2, -.1], [-.1, .2]], [-.5, 1]), ([[.17, -.05], [-.05, .17]], [1, -.4]), ([[.3, 0], [0, .15]], [3, -1])]
SUB = [([[.5, 0], [0, .5]], [-1, 1]), ([[.1, 0], [0, .1]], [1.5, .5]), ([[.2, 0], [0, .2]], [-.5, -1.5])]


def affine(z, Sg, mu, c):
    num = lambda v: npmodel.lit(float(v))
    return z(0) * num(Sg[0][c]) + z(1) * num(Sg[1][c]) + num(mu[c])


def b_gen(label, given):
    def b():
        LOG.clear()
        n = length("n", 1)
        k = S(ctx().fresh("f", "const"))
        mu, sg = (([.5, 1], [[2, 0], [0, 3]]) if given == 2 else (.5, 2)) if given else (None, None)
        return (n, Rng()), dict(mu_regression=mu if mu is None or given == 1 else np.array(mu), sigma_regression=sg if sg is None or given == 1 else np.array(sg), regression_scaling_constant=k, label=label), dict(n=n, label=label, k=k, mu=mu, sg=sg)
    return b


def p_gen(P, out, I):
    if out[0] == "raise":
        return P.fail("data are generated", repr(out[1]))
    x, y = out[1]
    n, lab = I["n"], I["label"]
    i = fresh_int("i")
    P("eight samples per n", And(S(zi(x.shape[0])) == 8 * n, S(zi(x.shape[1])) == 2, ln(y) == 8 * n))
    circ, z = draws("circle")[0][1], [e[1] for e in draws("randn")]
    blk = lambda q: And(i >= (4 * n if q else 0) + (q - 1) * n * (q > 0), i < 4 * n + q * n)
    for q in range(5):
        o = 0 if q == 0 else 4 * n + (q - 1) * n
        src, (Sg, mu) = (circ, (S1, M1)) if q == 0 else (z[q - 1], CL[q - 1])
        for c in range(2):
            P(f"cluster {q}, coordinate {c}", Implies(blk(q), el2(x, i, S(z3.IntVal(c))) == affine(lambda v: src.fn((i - o).e, z3.IntVal(v)), Sg, mu, c)))
        if lab != "regression":
            P(f"cluster {q}: its label", And(y.k == "i", Implies(blk(q), el(y, i) == ((q > 0) * 1 if lab == "binary" else q))))
    if lab == "regression":
        P("the density at the sample, scaled", Implies(And(i >= 0, i < 8 * n), el(y, i) == S(PDF2(el2(x, i, S(z3.IntVal(0))).e, el2(x, i, S(z3.IntVal(1))).e)) * I["k"]))
        P("of the law asked for", draws("law") == [("law", I["mu"] or [0, 0], I["sg"] or [[1, 0], [0, 1]])])


def c_circle(it, n, rng):
    a = npmodel.arr_uf("circle", (n, 2), "f")
    LOG.append(("circle", a.snapshot()))
    return a


def p_sub(P, out, I):
    if out[0] == "raise":
        return P.fail("data are generated", repr(out[1]))
    x, y = out[1]
    n, lab = I["n"], I["label"]
    i, j = fresh_int("i"), fresh_int("j")
    P("four samples per n", And(S(zi(x.shape[0])) == 4 * n, S(zi(x.shape[1])) == 2, ln(y) == 4 * n))
    z = [e[1] for e in draws("randn")]
    for q, (a, b) in enumerate(((0, 2 * n), (2 * n, 3 * n), (3 * n, 4 * n))):
        blk = And(i >= a, i < b)
        for c in range(2):
            P(f"cluster {q}, coordinate {c}", Implies(blk, el2(x, i, S(z3.IntVal(c))) == affine(lambda v: z[q].fn((i - a).e, z3.IntVal(v)), *SUB[q], c)))
        if lab == "binary":
            P(f"cluster {q}: its label", Implies(blk, el(y, i) == (q > 0) * 1))
    if lab == "multiclass":
        P("first cluster: class 0", And(y.k == "i", Implies(And(i >= 0, i < 2 * n), el(y, i) == 0)))
        two = And(i >= 2 * n, i < 4 * n)
        P("other clusters: classes 1 to 4", Implies(two, And(el(y, i) >= 1, el(y, i) <= 4)))
        P("in order", Implies(And(two, j > i, j < 4 * n), el(y, j) >= el(y, i)))
        m = fresh_int("m")
        P("of equal sizes when they can be", Implies(And(n == 2 * m, two, j >= 0, j < 4, i >= 2 * n + j * m, i < 2 * n + (j + 1) * m), el(y, i) == j + 1))
    if lab == "regression":
        P("the density at the mean of the coordinates, scaled", Implies(And(i >= 0, i < 4 * n), el(y, i) == S(PDF1(((el2(x, i, S(z3.IntVal(0))) + el2(x, i, S(z3.IntVal(1)))) / 2).e)) * I["k"]))
        P("of the law asked for", draws("law") == [("law", I["mu"] or 0, I["sg"] or 1)])


def b_circ():
    LOG.clear()
    n = length("n", 1)
    return (n, Rng()), {}, dict(n=n)


def p_circ(P, out, I):
    if out[0] == "raise":
        return P.fail("data are generated", repr(out[1]))
    x, n = out[1], I["n"]
    a, r = [e[1] for e in draws("rand")]
    i = fresh_int("i")
    inr = And(i >= 0, i < n)
    at = lambda m: m.fn(i.e, z3.IntVal(0))
    ang = at(a) * 2 * npmodel.lit(np.pi)
    q = [UF[np.cos](ang), UF[np.sin](ang)]
    s = npmodel.uf1("sqrt", npmodel._ax_sqrt)(at(r))
    P("n points", And(S(zi(x.shape[0])) == n, S(zi(x.shape[1])) == 2))
    for c in range(2):
        P(f"coordinate {c}: a uniform angle at the root of a uniform radius", Implies(inr, el2(x, i, S(z3.IntVal(c))) == s * q[c]))


TAB = None


def b_moon():
    LOG.clear()
    n = length("n", 1)
    pos = S(ctx().fresh("f", "pos"))
    assume(And(pos >= 0, pos <= 1))
    return (n, pos, Rng()), {}, dict(n=n, pos=pos)


def b_moon_at(v):
    def b():
        LOG.clear()
        n = length("n", 1)
        return (n, v, Rng()), {}, dict(n=n, pos=v)
    return b


def p_moon(P, out, I):
    if out[0] == "raise":
        return P.fail("every position of the moons is accepted", repr(out[1]))
    X, y = out[1]
    n = I["n"]
    i, c = fresh_int("i"), fresh_int("c")
    g = draws("mvn")
    if not P("two clusters", len(g) == 2):
        return
    P("n samples each", And(S(zi(X.shape[0])) == 2 * n, ln(y) == 2 * n))
    P("class 0 then class 1", And(Implies(And(i >= 0, i < n), el(y, i) == 0), Implies(And(i >= n, i < 2 * n), el(y, i) == 1)))
    P("each class its own cluster", And(Implies(And(i >= 0, i < n, c >= 0, c < 2), el2(X, i, c) == el2(g[0][1], i, c)),
                                        Implies(And(i >= n, i < 2 * n, c >= 0, c < 2), el2(X, i, c) == el2(g[1][1], i - n, c))))
    t = np.linspace(0, np.pi, 100)
    k = min(int(I["pos"] * 100), 99)
    want = [(np.cos(t[k]), np.sin(t[k])), (1 - np.cos(t[k]), .5 - np.sin(t[k]))]
    for q in range(2):
        m = [float(v) for v in np.asarray(g[q][2]["mean"]).ravel()]
        P(f"moon {q}: centred at the position asked for", bool(np.allclose(m, want[q], atol=1e-9)))
        P(f"moon {q}: of variance 0.01", np.asarray(g[q][2]["cov"]).tolist() == [[.01, 0], [0, .01]])


# -------------------------------------------------------------------- shifts
def noise_of(kind):
    if kind is None:
        return None, (None, None)
    if kind == "one":
        v = S(ctx().fresh("f", "noise"))
        v = S(v.e)
        return 0.25, (0.25, 0.25)
    return (0.5, 0.125), (0.5, 0.125)


def out_of(P, out, I, want_y=True):
    """checks the packing; returns the domains"""
    if out[0] == "raise":
        P.fail("a dataset is generated", repr(out[1]))
        return None
    r = out[1]
    d = r if I["ret"] else r[1]
    if not P("a dataset", isinstance(d, Data)):
        return None
    names = [q[2] for q in d.domains]
    if not I["ret"]:
        P("packed with its source and target domains, labels of the target not masked", r[0] == "packed" and r[2] == dict(as_sources=I.get("src", ["s"]), as_targets=I.get("tgt", ["t"]), return_X_y=I["xy"], mask_target_labels=False))
    P("the domains", names == I.get("src", ["s"]) + I.get("tgt", ["t"]))
    return d.domains


def plus(x, z, sc):
    return x if z is None else x + z * sc


def b_blobs(shift, noise, ret, xy, seed=7):
    def b():
        LOG.clear()
        n, d = length("n", 1), length("d", 1)
        sh = S(ctx().fresh("f", "shift")) if shift == "number" else floats(d, "shift")
        nz, sc = noise_of(noise)
        rs = Rng() if seed is None else seed
        I = dict(n=n, d=d, sh=sh, sc=sc, ret=ret, xy=xy, rs=rs)

        def blobs(n_samples=None, centers=None, n_features=None, random_state=None, cluster_std=None):
            X, y = matrix(n, d, "B"), ints(n, "yb")
            I.update(B=X.snapshot(), yb=y.snapshot(), kw=(n_samples, centers, n_features, random_state, cluster_std))
            return X, y
        I["blobs"] = blobs
        CUR["blobs"] = blobs
        return (), dict(n_samples=n, n_features=d, shift=sh, noise=nz, centers="centers", cluster_std=.75, random_state=rs, return_X_y=xy, return_dataset=ret), I
    return b


CUR = {}


def m_blobs(*a, **k):
    return CUR["blobs"](*a, **k)


def p_blobs(P, out, I):
    D = out_of(P, out, I)
    if D is None:
        return
    (Xs, ys, _), (Xt, yt, _) = D
    n, d, B = I["n"], I["d"], I["B"]
    kw = I["kw"]
    P("blobs as asked", And(kw[0] is n, kw[1] == "centers", kw[2] is d, kw[4] == .75))
    P("from the random state given", kw[3] is I["rs"] or kw[3] == I["rs"])
    P("labels of the blobs in both domains", And(arr_same(ys, I["yb"]), arr_same(yt, I["yb"])))
    i, c = fresh_int("i"), fresh_int("c")
    inr = And(i >= 0, i < n, c >= 0, c < d)
    z = draws("normal")
    if I["sc"][0] is None:
        P("no noise drawn", not z)
        z = [(0, None), (0, None)]
    elif not P("one noise per domain", len(z) == 2):
        return
    at = lambda q: None if z[q][1] is None else el2(z[q][1], i, c)
    sh = I["sh"] if isinstance(I["sh"], S) else el(I["sh"], c)
    P("source: the blobs, with their noise", Implies(inr, el2(Xs, i, c) == plus(el2(B, i, c), at(0), I["sc"][0])))
    P("target: the blobs translated, with its noise", Implies(inr, el2(Xt, i, c) == plus(el2(B, i, c) + sh, at(1), I["sc"][1])))


def c_gen(name, per):
    def c(it, n, rng, mu=None, sg=None, k=27, label="binary"):
        X = npmodel.arr_uf("G", (S(zi(n) * per), 2), "f")
        y = npmodel.arr_uf("yG", (S(zi(n) * per),), "f" if label == "regression" else "i")
        LOG.append((name, n, rng, (mu, sg, k, label), X.snapshot(), y.snapshot()))
        return X, y
    return c


def b_shift(shift, noise=None, std=False, ret=False, xy=True, label="binary"):
    def b():
        LOG.clear()
        ns, nt = length("ns", 1), length("nt", 1)
        nz, sc = noise_of(noise)
        f = lambda q: S(ctx().fresh("f", q))
        mean, sigma, gamma, ratio = f("mean"), f("sigma"), f("gamma"), f("ratio")
        assume(And(ratio >= 0, ratio <= 1, gamma >= 0))
        rs = Rng()
        return (), dict(n_samples_source=ns, n_samples_target=nt, shift=shift, noise=nz, label=label, ratio=ratio, mean=mean, sigma=sigma, gamma=gamma, mu_regression="mu", sigma_regression="sg",
                        regression_scaling_constant="k", center_cov_shift=((.5, 1.5),), standardize=std, random_state=rs, return_X_y=xy, return_dataset=ret), dict(
            ns=ns, nt=nt, sc=sc, std=std, ret=ret, xy=xy, shift=shift, mean=mean, sigma=sigma, gamma=gamma, ratio=ratio, rs=rs, par=("mu", "sg", "k", label))
    return b


def p_shift(P, out, I):
    D = out_of(P, out, I)
    if D is None:
        return
    (Xs, ys, _), (Xt, yt, _) = D
    ns, nt, sh = I["ns"], I["nt"], I["shift"]
    g = draws("subspace" if sh == "subspace" else "classif")
    if not P("a source and a target population", len(g) == 2):
        return
    P("with the parameters and the random state given", all(e[3] == I["par"] and e[2] is I["rs"] for e in g))
    per = 4 if sh == "subspace" else 8
    P("source size", And(S(zi(g[0][1])) == ns, ln(Xs) == per * ns, ln(ys) == per * ns))
    P("target size", And(ln(Xt) == per * nt, ln(yt) == per * nt))
    Gs, ls, Gt, lt = g[0][4], g[0][5], g[1][4], g[1][5]
    i, c, k = fresh_int("i"), fresh_int("c"), fresh_int("k")
    ins = And(i >= 0, i < per * ns, c >= 0, c < 2)
    int_ = And(i >= 0, i < per * nt, c >= 0, c < 2)
    ch = draws("choice")
    if sh in ("covariate_shift", "target_shift"):
        N = S(zi(Gt.shape[0]))
        if sh == "covariate_shift":
            if not P("one draw", len(ch) == 1):
                return
            _, n, m, rep, p, a = ch[0]
            P("without replacement, out of the whole population", And(S(zi(n)) == N, rep is False))
            e = npmodel.uf1("exp", npmodel._ax_exp)
            f = Gt.fn
            w = SArr((N,), "f", lambda i: e(-I["gamma"] * ((f(i, z3.IntVal(0)) - npmodel.lit(.5)) * (f(i, z3.IntVal(0)) - npmodel.lit(.5)) + (f(i, z3.IntVal(1)) - npmodel.lit(1.5)) * (f(i, z3.IntVal(1)) - npmodel.lit(1.5)))))
            tot = npmodel.sum_(w)
            P("with probabilities proportional to the kernel at the centre of the shift", And(ln(p) == N, Implies(And(k >= 0, k < N), el(p, k) == el(w, k) / tot)))
            pick = lambda i: a.fn(i.e)
        else:
            if not P("two draws", len(ch) == 2):
                return
            half = 4 * S(zi(g[1][1]))
            n1 = npmodel.ite(z3.BoolVal(True), S(z3.ToInt((8 * nt * I["ratio"]).e)), S(z3.IntVal(0)))
            P("without replacement, in each half of the population", all([e[3] is False and e[4] is None for e in ch]))
            P("halves", And(S(zi(ch[0][1])) == half, S(zi(ch[1][1])) == half))
            P("ratio of the first one", And(S(zi(ch[0][2])) == n1, S(zi(ch[1][2])) == 8 * nt - n1))
            a, b = ch[0][5], ch[1][5]
            pick = lambda i: npmodel.ite((i < n1).e, a.fn(i.e), b.fn((i - n1).e) + half)
        px = lambda i, c: el2(Gt, S(zi(pick(i))), c)
        py = lambda i: el(lt, S(zi(pick(i))))
    elif sh == "conditional_shift":
        px, py = lambda i, c: el2(Gt, i, c) * I["sigma"] + I["mean"], lambda i: el(lt, i)
    else:
        px, py = lambda i, c: -el2(Gt, i, c), lambda i: el(lt, i)
    P("source labels", Implies(ins, el(ys, i) == el(ls, i)))
    P("target labels", Implies(int_, el(yt, i) == py(i)))
    z = draws("normal")
    if I["sc"][0] is None:
        P("no noise drawn", not z)
        zs = zt = lambda i, c: None
    else:
        if not P("one noise per domain", len(z) == 2):
            return
        zs, zt = (lambda i, c: el2(z[0][1], i, c)), (lambda i, c: el2(z[1][1], i, c))
    vs = lambda i, c: plus(el2(Gs, i, c), zs(i, c), I["sc"][0])
    vt = lambda i, c: plus(px(i, c), zt(i, c), I["sc"][1])
    if not I["std"]:
        P("source samples", Implies(ins, el2(Xs, i, c) == vs(i, c)))
        return P("target samples: the shift asked for", Implies(int_, el2(Xt, i, c) == vt(i, c)))
    mat = lambda v, n: SArr((per * n, 2), "f", lambda i, c: v(S(zi(i)), S(zi(c))))
    A = npmodel.vstack([mat(vs, ns), mat(vt, nt)])
    m, s = npmodel.mean_(A, 0), npmodel.std_(A, 0)
    P("source samples, standardized over both domains", Implies(And(ins, el(s, c) != 0), el2(Xs, i, c) == (vs(i, c) - el(m, c)) / el(s, c)))
    P("target samples, standardized over both domains", Implies(And(int_, el(s, c) != 0), el2(Xt, i, c) == (vt(i, c) - el(m, c)) / el(s, c)))


def p_refused(P, out, I):
    P("unknown options are refused", out[0] == "raise" and isinstance(out[1], ValueError))


def c_moon(it, n, pos, rng):
    X, y = npmodel.arr_uf("G", (2 * n, 2), "f"), npmodel.arr_uf("yG", (2 * n,), "f")
    LOG.append(("moon", n, pos, rng, X.snapshot(), y.snapshot()))
    return X, y


def b_moons(ps, pt, noise=None, ret=False, xy=True):
    def b():
        LOG.clear()
        ns, nt = length("ns", 1), length("nt", 1)
        nz, sc = noise_of(noise)
        rs = Rng()
        return (), dict(n_samples_source=ns, n_samples_target=nt, noise=nz, pos_source=ps, pos_target=pt, random_state=rs, return_X_y=xy, return_dataset=ret), dict(
            ns=ns, nt=nt, sc=sc, ret=ret, xy=xy, ps=ps, pt=pt, rs=rs, src=["s"] if isinstance(ps, float) else [f"s{i}" for i in range(len(ps))], tgt=["t"] if isinstance(pt, float) else [f"t{i}" for i in range(len(pt))])
    return b


def p_moons(P, out, I):
    D = out_of(P, out, I)
    if D is None:
        return
    as_list = lambda p: [p] if isinstance(p, float) else list(p)
    pos = as_list(I["ps"]) + as_list(I["pt"])
    g, z = draws("moon"), draws("normal")
    k = len(as_list(I["ps"]))
    P("one population per position, in order", [e[2] for e in g] == pos and all(e[3] is I["rs"] for e in g))
    P("sizes", all([e[1] is (I["ns"] if q < k else I["nt"]) for q, e in enumerate(g)]))
    P("noise in every domain, or none", len(z) == (0 if I["sc"][0] is None else len(g)))
    i, c = fresh_int("i"), fresh_int("c")
    for q, (e, d) in enumerate(zip(g, D)):
        n = 2 * (I["ns"] if q < k else I["nt"])
        inr = And(i >= 0, i < n, c >= 0, c < 2)
        P(f"domain {q}: labels", arr_same(d[1], e[5]))
        P(f"domain {q}: samples, with the noise of its side", And(ln(d[0]) == n, Implies(inr, el2(d[0], i, c) == plus(el2(e[4], i, c), el2(z[q][1], i, c) if z else None, I["sc"][0 if q < k else 1]))))


def c_sig(it, n, ch, size, freq, band, sf, fs, rng):
    X, y = npmodel.arr_uf("G", (S(zi(n) * 3), ch, size), "f"), npmodel.arr_uf("yG", (S(zi(n) * 3),), "i")
    LOG.append(("signal", n, ch, size, freq, band, sf, fs, rng, X.snapshot(), y.snapshot()))
    return X, y


def b_sig(noise=None, ret=False, xy=True):
    def b():
        LOG.clear()
        ns, nt, ch = length("ns", 1), length("nt", 1), length("ch", 1)
        nz, sc = noise_of(noise)
        dl, bd, sf = (S(ctx().fresh("f", q)) for q in ("delta", "band", "sf"))
        rs = Rng()
        return (), dict(n_samples_source=ns, n_samples_target=nt, n_channels=ch, n_frequencies=2, n_classes=3, delta_f=dl, band_size=bd, sigma_freq=sf, noise=nz, random_state=rs, return_X_y=xy, return_dataset=ret), dict(
            ns=ns, nt=nt, ch=ch, dl=dl, bd=bd, sf=sf, sc=sc, rs=rs, ret=ret, xy=xy)
    return b


def p_sig(P, out, I):
    D = out_of(P, out, I)
    if D is None:
        return
    g, z, c = draws("signal"), draws("normal"), draws("choice")
    if not P("a source and a target population, from one set of frequencies", len(g) == 2 and len(c) == 1 and c[0][2] == (3, 2) and c[0][3] is False):
        return
    P("sizes and channels", And(g[0][1] is I["ns"], g[1][1] is I["nt"], *[And(e[2] is I["ch"], e[3] == 3000, e[7] == 100, e[5] is I["bd"], e[6] is I["sf"], e[8] is I["rs"]) for e in g]))
    f = c[0][5]
    i, j, t = fresh_int("i"), fresh_int("j"), fresh_int("t")
    inr = And(i >= 0, i < 3, j >= 0, j < 2)
    num = lambda v: v if v.e.sort() == R else S(z3.ToReal(v.e))
    P("source frequencies", Implies(inr, num(el2(g[0][4], i, j)) == num(el2(f, i, j))))
    P("target frequencies: shifted", Implies(inr, num(el2(g[1][4], i, j)) == num(el2(f, i, j)) + I["dl"]))
    P("noise in both domains, or none", len(z) == (0 if I["sc"][0] is None else 2))
    for q, d in enumerate(D):
        n = 3 * (I["ns"], I["nt"])[q]
        e = g[q]
        v = lambda a: a.fn(i.e, j.e, t.e)
        P(f"domain {q}: labels", arr_same(d[1], e[10]))
        P(f"domain {q}: signals, with the noise of its side", Implies(And(i >= 0, i < n, j >= 0, j < I["ch"], t >= 0, t < 3000), v(d[0]) == plus(v(e[9]), v(z[q][1]) if z else None, I["sc"][q])))


def scenarios():
    C = lambda m: opt(SG, m)
    out = []
    circ = {SG._generate_unif_circle: c_circle}
    for lab in ("binary", "multiclass", "regression"):
        for given in ((0, 2) if lab == "regression" else (0,)):
            out.append(Scn(f"_generate_data_2d_classif ({lab}{', law given' if given else ''})", C("_generate_data_2d_classif"), b_gen(lab, given), p_gen, contracts=circ, models=MODELS))
            out.append(Scn(f"_generate_data_2d_classif_subspace ({lab}{', law given' if given else ''})", C("_generate_data_2d_classif_subspace"), b_gen(lab, given and 1), p_sub, models=MODELS))
    for nm in ("_generate_data_2d_classif", "_generate_data_2d_classif_subspace"):
        out.append(Scn(f"{nm} (unknown label)", C(nm), b_gen("other", 0), p_refused, contracts=circ, models=MODELS, expect=("raise:ValueError",)))
    out.append(Scn("_generate_unif_circle", C("_generate_unif_circle"), b_circ, p_circ, models=dict(MODELS) | UF))
    for v in (0., .1, .295, .5, .999, 1., 1):
        out.append(Scn(f"_generate_data_from_moons at {v!r}", C("_generate_data_from_moons"), b_moon_at(v), p_moon, models=MODELS))
    mb = dict(MODELS) | {SG.make_blobs: m_blobs}
    for sh, nz, ret, xy, seed in (("number", None, False, True, 7), ("array", "one", True, True, None), ("array", None, False, False, 7), ("number", "two", False, True, None)):
        out.append(Scn(f"make_shifted_blobs (shift: {sh}, noise: {nz}{', dataset' if ret else ''})", C("make_shifted_blobs"), b_blobs(sh, nz, ret, xy, seed), p_blobs, models=mb))
    gen = {SG._generate_data_2d_classif: c_gen("classif", 8), SG._generate_data_2d_classif_subspace: c_gen("subspace", 4)}

    def gen_s(it, n, rng, mu=None, sg=None, k=27, label="binary"):
        return c_gen("classif", 8)(it, n, rng, mu, sg, k, label)
    for sh in ("covariate_shift", "target_shift", "conditional_shift", "subspace"):
        for nz, std, ret, lab in ((None, False, False, "binary"), ("two", False, True, "regression"), ("one", True, False, "multiclass")):
            if sh == "subspace":
                q = Scn(f"make_shifted_datasets ({sh}, noise: {nz}{', standardized' if std else ''})", C("make_shifted_datasets"), b_shift(sh, nz, std, ret, not ret, lab), p_shift, contracts=gen, models=MODELS)
            else:
                q = Scn(f"make_shifted_datasets ({sh}, noise: {nz}{', standardized' if std else ''})", C("make_shifted_datasets"), b_shift(sh, nz, std, ret, not ret, lab), p_shift, contracts=gen, models=MODELS)
            out.append(q)
    out.append(Scn("make_shifted_datasets (unknown shift)", C("make_shifted_datasets"), b_shift("other"), p_refused, contracts=gen, models=MODELS, expect=("raise:ValueError",)))
    mo = {SG._generate_data_from_moons: c_moon}
    for ps, pt, nz, ret in ((.1, .2, None, False), ([.1, .3], .5, "two", True), (.5, [.2, .9, 1.], "two", False), ([.1], [.7], "one", False)):
        out.append(Scn(f"make_dataset_from_moons_distribution ({ps} to {pt}, noise: {nz})", C("make_dataset_from_moons_distribution"), b_moons(ps, pt, nz, ret, True), p_moons, contracts=mo, models=MODELS))
    si = {SG._generate_signal_with_peak_frequency: c_sig}
    for nz, ret, xy in ((None, False, True), ("one", True, True), ("two", False, False)):
        out.append(Scn(f"make_variable_frequency_dataset (noise: {nz})", C("make_variable_frequency_dataset"), b_sig(nz, ret, xy), p_sig, contracts=si, models=MODELS))
    return out


# ------------------------------------------------------------- runtime side
def pair(noise):
    return (noise or 0,) * 2 if noise is None or np.ndim(noise) == 0 else tuple(noise)


def inside(x, y, lab, key, reg=None):
    """the clusters of one un-noised population of 8 n samples, in order"""
    n = len(x) // 8
    check(f"{key}/size", len(x) == 8 * n == len(y) and x.shape[1] == 2)
    u = (x[: 4 * n] - M1) @ np.linalg.inv(S1)
    check(f"{key}/disc", (np.linalg.norm(u, axis=1) <= 1 + 1e-9).all())
    for q, (Sg, mu) in enumerate(CL):
        z = (x[(4 + q) * n:(5 + q) * n] - mu) @ np.linalg.inv(Sg)
        check(f"{key}/cluster", (np.abs(z) < 6.5).all(), (q, np.abs(z).max()))
    labels(y, lab, n, key, x, reg)


def labels(y, lab, n, key, x, reg):
    if lab == "binary":
        same_arr(f"{key}/labels", y, np.repeat([0, 1], 4 * n))
    elif lab == "multiclass":
        same_arr(f"{key}/labels", y, np.repeat([0, 1, 2, 3, 4], [4 * n, n, n, n, n]))
    else:
        density(y, x, key, reg)


def density(y, x, key, reg):
    mu, sg, k = reg
    same_arr(f"{key}/density", y, multivariate_normal(mu if mu is not None else [0, 0], sg if sg is not None else np.eye(2)).pdf(x) * k, exact=False, tol=1e-9)


def member(x, y, lab, key, reg):
    """un-noised samples in any order: each lies in a cluster of its label"""
    if lab == "regression":
        return density(y, x, key, reg)
    d = [np.linalg.norm((x - M1) @ np.linalg.inv(S1), axis=1) <= 1 + 1e-9] + [(np.abs((x - mu) @ np.linalg.inv(Sg)) < 6.5).all(1) for Sg, mu in CL]
    ok = np.where(y == 0, d[0], np.any(d[1:], axis=0) if lab == "binary" else np.choose(np.clip(y, 1, 4).astype(int) - 1, d[1:]))
    check(f"{key}/clusters of the labels", ok.all(), np.flatnonzero(~ok)[:5])


def sub_clusters(x, y, lab, key, reg):
    n = len(x) // 4
    check(f"{key}/size", len(x) == 4 * n == len(y))
    for q, (a, b) in enumerate(((0, 2 * n), (2 * n, 3 * n), (3 * n, 4 * n))):
        z = (x[a:b] - SUB[q][1]) @ np.linalg.inv(SUB[q][0])
        check(f"{key}/cluster", (np.abs(z) < 6.5).all(), q)
    if lab == "binary":
        same_arr(f"{key}/labels", y, np.repeat([0, 1], 2 * n))
    elif lab == "multiclass":
        check(f"{key}/labels", (y[:2 * n] == 0).all() and (np.diff(y[2 * n:]) >= 0).all() and y[2 * n:].min() >= 1 and y.max() <= 4, y.tolist())
        cnt = np.bincount(y[2 * n:].astype(int), minlength=5)[1:]
        check(f"{key}/class sizes", cnt.max() - cnt.min() <= 1, cnt.tolist())
    else:
        mu, sg, k = reg
        same_arr(f"{key}/density", y, multivariate_normal(mu if mu is not None else 0, sg if sg is not None else 1).pdf((x[:, 0] + x[:, 1]) / 2) * k, exact=False, tol=1e-9)


def get(key, f, **kw):
    """both output forms and both kinds of seeds agree"""
    X, y, sd = must(key, f, random_state=kw["seed"], **{k: v for k, v in kw.items() if k != "seed"})
    o = {k: v for k, v in kw.items() if k != "seed"}
    X2, y2, sd2 = must(key, f, random_state=np.random.RandomState(kw["seed"]), **o)
    for a, b in ((X, X2), (y, y2), (sd, sd2)):
        if key != "blobs" or kw.get("noise") is None:
            same_arr(f"{key}/reproducible", b, a)
    b = must(key, f, random_state=kw["seed"], return_X_y=False, **o)
    same_arr(f"{key}/bunch", b.X, X)
    d = must(key, f, random_state=kw["seed"], return_dataset=True, **o)
    return X, y, sd, d


def k_blobs(p):
    quiet()
    X, y, sd, d = get("blobs", DS.make_shifted_blobs, n_samples=p["n"], n_features=p["d"], shift=p["shift"], noise=p["noise"], centers=p["centers"], cluster_std=p["std"], seed=p["seed"])
    s = sd >= 0
    check("blobs/size", s.sum() == (~s).sum() == p["n"] and X.shape[1] == p["d"])
    same_arr("blobs/labels", y[~s], y[s])
    dx = X[~s] - X[s] - p["shift"]
    nz = pair(p["noise"])
    sc = np.hypot(*nz)
    check("blobs/shift", np.abs(dx).max() <= 8 * sc + 1e-9, np.abs(dx).max())
    from sklearn.datasets import make_blobs
    B, _ = make_blobs(n_samples=p["n"], centers=p["centers"], n_features=p["d"], random_state=p["seed"], cluster_std=p["std"])
    for q, m in enumerate((s, ~s)):
        r = X[m] - B - (p["shift"] if q else 0)
        check("blobs/noise", np.abs(r).max() <= 8 * nz[q] + 1e-9 and (nz[q] == 0 or r.std() > nz[q] / 20), (q, r.std(), nz))
    for nm, m in (("s", s), ("t", ~s)):
        same_arr("blobs/dataset", d.get_domain(nm)[0], X[m])
    d.get_domain("t")


def k_shift(p):
    quiet()
    sh, lab, ns, nt = p["shift"], p["label"], p["ns"], p["nt"]
    reg = (p["mu"], p["sg"], p["k"])
    kw = dict(n_samples_source=ns, n_samples_target=nt, shift=sh, label=lab, ratio=p["ratio"], mean=p["mean"], sigma=p["sigma"], gamma=p["gamma"], center_cov_shift=p["center"], mu_regression=reg[0], sigma_regression=reg[1], regression_scaling_constant=reg[2], seed=p["seed"])
    X, y, sd, d = get(sh, DS.make_shifted_datasets, **kw)
    s = sd >= 0
    Xs, ys, Xt, yt = X[s], y[s], X[~s], y[~s]
    if sh == "subspace":
        sub_clusters(Xs, ys, lab, "subspace/source", reg)
        sub_clusters(-Xt, yt, lab, "subspace/target", reg)
    else:
        check(f"{sh}/sizes", len(Xs) == 8 * ns and len(Xt) == 8 * nt)
        inside(Xs, ys, lab, f"{sh}/source", reg)
    if sh == "conditional_shift":
        inside((Xt - p["mean"]) / p["sigma"], yt, lab, "conditional_shift/target", reg)
    elif sh in ("covariate_shift", "target_shift"):
        member(Xt, yt, lab, f"{sh}/target", reg)
        check(f"{sh}/no repetition", len(np.unique(Xt, axis=0)) == len(Xt))
    if sh == "target_shift" and lab != "regression":
        check("target_shift/ratio", (yt == 0).sum() in (int(8 * nt * p["ratio"]), int(8 * nt * p["ratio"] + 1e-9)), ((yt == 0).sum(), nt, p["ratio"]))
    if sh == "covariate_shift" and p["gamma"] >= 1 and nt >= 5:
        c = np.ravel(p["center"])
        check("covariate_shift/centre", np.median(np.linalg.norm(Xt - c, axis=1)) < np.median(np.linalg.norm(Xs - c, axis=1)) + .3)
    # noise is added to the same populations; standardization uses both domains
    N, yn, sn, _ = get(sh, DS.make_shifted_datasets, **dict(kw, noise=p["noise"]))
    same_arr(f"{sh}/noisy labels", yn, y)
    nz = pair(p["noise"])
    for q, m in enumerate((s, ~s)):
        r = N[m] - X[m]
        check(f"{sh}/noise", np.abs(r).max() <= 8 * nz[q] + 1e-9 and (nz[q] == 0 or r.std() > nz[q] / 20), (q, r.std(), nz))
    Z, yz, sz, _ = get(sh, DS.make_shifted_datasets, **dict(kw, standardize=True))
    same_arr(f"{sh}/standardized", Z, (X - X.mean(0)) / X.std(0), exact=False, tol=1e-6)
    for nm, m in (("s", s), ("t", ~s)):
        same_arr(f"{sh}/dataset", d.get_domain(nm)[0], X[m])
        same_arr(f"{sh}/dataset labels", d.get_domain(nm)[1], y[m])


def k_moons(p):
    quiet()
    ps, pt = p["ps"], p["pt"]
    X, y, sd, d = get("moons", DS.make_dataset_from_moons_distribution, n_samples_source=p["ns"], n_samples_target=p["nt"], pos_source=ps, pos_target=pt, noise=p["noise"], seed=p["seed"])
    nz = pair(p["noise"])
    doms = [("s", q, ps) for q in range(len(np.atleast_1d(ps)))] + [("t", q, pt) for q in range(len(np.atleast_1d(pt)))]
    got = 0
    for side, q, pos in doms:
        name = side if np.ndim(pos) == 0 else f"{side}{q}"
        Xd, yd = d.get_domain(name)
        n = p["ns"] if side == "s" else p["nt"]
        check("moons/size", len(Xd) == 2 * n == len(yd))
        v = float(np.atleast_1d(pos)[q])
        t = np.linspace(0, np.pi, 100)[min(int(v * 100), 99)]
        sc = np.hypot(.1, nz[side == "t"])
        for c, mu in enumerate(((np.cos(t), np.sin(t)), (1 - np.cos(t), .5 - np.sin(t)))):
            r = Xd[yd == c] - mu
            check("moons/classes", len(r) == n)
            check("moons/cluster", np.abs(r).max() <= 6.5 * sc, (name, c, np.abs(r).max(), sc))
        lab = d.domain_names_[name] * (1 if side == "s" else -1)
        same_arr("moons/packed", X[sd == lab], Xd)
        same_arr("moons/packed labels", y[sd == lab], yd)
        got += len(Xd)
    check("moons/nothing else", got == len(X))


def k_signal(p):
    quiet()
    X, y, sd, d = get("signal", DS.make_variable_frequency_dataset, n_samples_source=p["ns"], n_samples_target=p["nt"], n_channels=p["ch"], n_frequencies=1, n_classes=p["K"], delta_f=p["delta"], band_size=1, sigma_freq=.05, noise=p["noise"], seed=p["seed"])
    s = sd >= 0
    check("signal/shape", X[s].shape == (p["K"] * p["ns"], p["ch"], 3000) and X[~s].shape == (p["K"] * p["nt"], p["ch"], 3000), (X.shape,))
    f = np.fft.rfftfreq(3000, .01)
    cen = []
    for m, n in ((s, p["ns"]), (~s, p["nt"])):
        same_arr("signal/labels", np.sort(y[m]), np.repeat(np.arange(p["K"]), n))
        row = []
        for c in range(p["K"]):
            sp = (np.abs(np.fft.rfft(X[m & (y == c)], axis=-1)) ** 2).mean((0, 1))
            row.append((f * sp).sum() / sp.sum())
        cen.append(row)
    # every class has its own band; the target's are delta_f higher (nothing to see below 1 Hz)
    cen = np.array(cen)
    ok = cen[0] > 1
    check("signal/shift", (np.abs(cen[1] - cen[0] - p["delta"])[ok] < .6).all(), cen.tolist())
    g = np.sort(cen[0])
    check("signal/bands", (np.diff(g) > .4).all(), cen.tolist())


KINDS = dict(blobs=k_blobs, shift=k_shift, moons=k_moons, signal=k_signal)


def cases(rng, tier):
    r = nprng(rng)
    noise = lambda: rng.choice([None, None, .1, (.05, .2), (0, .3), [.1, 0]])
    tup = lambda v: tuple(v) if isinstance(v, list) else v
    for rep in range(25 if tier == "quick" else 250):
        d = rng.randint(1, 4)
        yield "blobs", dict(n=rng.randint(3, 40), d=d, shift=rng.choice([.1, -2., 0, r.randn(d)]), noise=tup(noise()), centers=rng.choice([None, 2, r.randn(3, d) * 5]), std=rng.choice([1.0, .2]), seed=rng.randint(0, 999))
        for sh in ("covariate_shift", "target_shift", "conditional_shift", "subspace"):
            lab = rng.choice(["binary", "multiclass", "regression"])
            reg = rng.random() < .5 and lab == "regression"
            mu, sg = (None, None) if not reg else ((.3, 2.) if sh == "subspace" else (np.array([.5, 1]), np.array([[2., .3], [.3, 1]])))
            yield "shift", dict(shift=sh, label=lab, ns=rng.randint(1, 12), nt=rng.randint(1, 12), ratio=rng.choice([.9, .5, 0., 1., .33]), mean=rng.choice([1, -2.5, 0]), sigma=rng.choice([.7, 2, 1]), gamma=rng.choice([2, .5, 1]),
                                center=rng.choice([((0, 2)), ((2, 0)), ((0, 2),)]), mu=mu, sg=sg, k=rng.choice([27, 1.5]), noise=tup(noise()), seed=rng.randint(0, 999))
        pos = lambda: rng.choice([.1, 0., .5, 1., .29, [.1], [.1, .9], [0.2, 1., .7]])
        yield "moons", dict(ns=rng.randint(1, 15), nt=rng.randint(1, 15), ps=pos(), pt=pos(), noise=tup(noise()), seed=rng.randint(0, 999))
    for rep in range(3 if tier == "quick" else 20):
        yield "signal", dict(ns=rng.randint(1, 4), nt=rng.randint(1, 4), ch=1, K=rng.randint(2, 4), delta=rng.choice([1, 3, 5]), noise=None, seed=rng.randint(0, 999))
