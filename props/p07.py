"""P07: cross-validation splitters."""
import itertools

import numpy as np

from sklearn.model_selection._split import _validate_shuffle_split

import skada.model_selection as M
from dv.core import I as I_, S, SArr, ctx, z3, zi
from dv.npmodel import iv
from dv.prop import Scn, Violation, opt
from dv.spec import *
import skada.utils as U
from props.contracts import c_extract_domains_indices
from props.util import *

ID = "P07"
LEVEL = "proof"
ASSUMPTIONS = ["sklearn._validate_shuffle_split: n_train >= 1, n_test >= 1, n_train + n_test <= n_samples, a function of its arguments; ValueError otherwise"]


def vss(n, sizes):
    """the sizes the contract gives for n samples"""
    c = ctx()
    ft = c.memo[("vss", tuple(str(q) for q in sizes), "tr")]
    fe = c.memo[("vss", tuple(str(q) for q in sizes), "te")]
    return S(ft(zi(n))), S(fe(zi(n)))



def splitter(cls, **kw):
    return cls(**kw)


def b_iter(cls):
    def b():
        n = length("n", 1)
        sd = ints(n, "sd")
        X = rows(n, name="X")
        k = length("n_splits", 0)
        sp = cls()
        if hasattr(sp, "n_splits"):
            sp.n_splits = k
        else:
            assume(k == 1)
        return (sp, X), dict(sample_domain=sd), dict(n=n, sd=sd.snapshot(), k=k, sp=sp)
    return b


def _get(seq, j):
    return seq.get(zi(j)) if hasattr(seq, "get") and not isinstance(seq, list) else seq[j]


def some(arr, f):
    """some entry satisfies f; the ends are offered as witnesses"""
    m = ln(arr)
    return Or(And(m > 0, f(S(zi(0)))), And(m > 0, f(m - 1)), exists_idx(m, f))


def generic(P, tr, te, n, sd, guard=True, names=""):
    a, b = fresh_int("a"), fresh_int("b")
    ina, inb = And(a >= 0, a < ln(tr)), And(b >= 0, b < ln(te))
    P(names + "training indices are valid", Implies(ina, And(el(tr, a) >= 0, el(tr, a) < n)))
    P(names + "test indices are valid", Implies(inb, And(el(te, b) >= 0, el(te, b) < n)))
    P(names + "no sample is both trained and tested on", Implies(And(ina, inb), el(tr, a) != el(te, b)))
    a2 = fresh_int("a2")
    P(names + "no training sample twice", Implies(And(ina, a2 > a, a2 < ln(tr)), el(tr, a) != el(tr, a2)))
    P(names + "no test sample twice", Implies(And(inb, a2 > b, a2 < ln(te)), el(te, b) != el(te, a2)))


def p_iter(P, out, I):
    if out[0] == "raise":
        P("impossible sizes are refused with ValueError", type(out[1]) is ValueError)
        return
    ys = out[1]
    P("n_splits splits", ln(ys) == I["k"])
    j = fresh_int("j")
    assume(And(j >= 0, j < I["k"]))
    tr, te = ys[0] if isinstance(ys, list) else _get(ys, j)
    n, sd = I["n"], I["sd"]
    generic(P, tr, te, n, sd)
    for nm, part in (("train", tr), ("test", te)):
        P(f"{nm} has source samples", some(part, lambda q: el(sd, el(part, q)) >= 0))
        P(f"{nm} has target samples", some(part, lambda q: el(sd, el(part, q)) < 0))
    s_, t_ = I["sd"][I["sd"] >= 0].shape[0], I["sd"][I["sd"] < 0].shape[0]
    sizes = (None, None, 0.1)
    (a, b), (c_, d) = vss(s_, sizes), vss(t_, sizes)
    P("training size: the requested share of each side", ln(tr) == a + c_)
    P("test size: the requested share of each side", ln(te) == b + d)


# --- LeaveOneDomainOut.split
def c_lodo_iter(it, self, X, y=None, sample_domain=None):
    """contract of LeaveOneDomainOut._iter_indices (proved by its own scenario)"""
    c = ctx()
    n = zi(X.shape[0])
    c.prove("LeaveOneDomainOut.split/one domain label per selected sample", zi(sample_domain.shape[0]) == n)
    if not c.branch(c.fresh("b", "sizes_possible")):
        exc = ValueError("sizes")
        exc._dv_raised = True
        raise exc
    sd = sample_domain
    out = []
    pos, side = c.func("pos", I_, I_), c.func("side", I_, I_)
    for q in (0, 1):
        m = c.fresh("i", "m")
        c.fact(m >= 1)
        f = c.func("part", I_, I_)
        k = iv("k")
        rng = z3.And(0 <= k, k < m)
        c.forall([k], z3.Implies(rng, z3.And(0 <= f(k), f(k) < n, pos(f(k)) == k, side(f(k)) == q)), [f(k)])
        a = SArr((S(m),), "i", lambda i, f=f: S(f(i)))
        for pred in (lambda v: v >= 0, lambda v: v < 0):
            w = c.fresh("i", "w")
            c.fact(z3.And(0 <= w, w < m, pred(sd.fn(f(w)).e)))
        out.append(a)
    return [tuple(out)]


def b_lodo():
    n = length("n", 1)
    sd = ints(n, "sd")
    assume_forall(n, lambda i: el(sd, i) != 0)
    X = rows(n, name="X")
    sp = M.LeaveOneDomainOut()
    sp.max_n_splits = length("max_n_splits", 1)
    return (sp, X), dict(sample_domain=sd), dict(n=n, sd=sd.snapshot(), sp=sp, m=sp.max_n_splits)


def p_lodo(P, out, I):
    if out[0] == "raise":
        P("refused with ValueError only", type(out[1]) is ValueError)
        return
    ys = out[1]
    n, sd = I["n"], I["sd"]
    k = ln(ys)
    P("at most max_n_splits splits", k <= I["m"])
    j, j2 = fresh_int("j"), fresh_int("j2")
    assume(And(j >= 0, j < k))
    tr, te = _get(ys, j)
    generic(P, tr, te, n, sd)
    for (na, pa), (nb, pb) in itertools.combinations_with_replacement((("train", tr), ("test", te)), 2):
        a, b = fresh_int("a"), fresh_int("b")
        A, B_ = el(sd, el(pa, a)), el(sd, el(pb, b))
        g = And(a >= 0, a < ln(pa), b >= 0, b < ln(pb))
        P(f"{na}/{nb}: one target domain", Implies(And(g, A < 0, B_ < 0), A == B_))
        P(f"{na}/{nb}: the left-out domain is not among the sources", Implies(And(g, A < 0, B_ >= 0), A != -B_))
        P(f"{nb}/{na}: the left-out domain is not among the sources", Implies(And(g, B_ < 0, A >= 0), B_ != -A))
    for nm, part in (("train", tr), ("test", te)):
        P(f"{nm} has source samples", some(part, lambda q: el(sd, el(part, q)) >= 0))
        P(f"{nm} has target samples", some(part, lambda q: el(sd, el(part, q)) < 0))
    assume(And(j2 >= 0, j2 < k, j2 != j))
    tr2, te2 = _get(ys, j2)
    a, b = fresh_int("a"), fresh_int("b")
    A, B_ = el(sd, el(tr, a)), el(sd, el(tr2, b))
    P("every domain is left out at most once",
      Implies(And(a >= 0, a < ln(tr), b >= 0, b < ln(tr2), A < 0, B_ < 0), A != B_))


# --- DomainShuffleSplit
def b_dss():
    n = length("n", 1)
    sd = ints(n, "sd")
    X = rows(n, name="X")
    sp = M.DomainShuffleSplit()
    sp.n_splits = k = 1  # the iterations are independent draws
    return (sp, X), dict(sample_domain=sd), dict(n=n, sd=sd.snapshot(), k=k, sp=sp)


def p_dss(P, out, I):
    if out[0] == "raise":
        P("impossible sizes are refused with ValueError", type(out[1]) is ValueError)
        return
    ys = out[1]
    P("n_splits splits", ln(ys) == I["k"])
    j = fresh_int("j")
    tr, te = ys[0] if isinstance(ys, list) else _get(ys, j)
    n, sd = I["n"], I["sd"]
    generic(P, tr, te, n, sd)
    for nm, part in (("train", tr), ("test", te)):
        P(f"{nm} has source samples", some(part, lambda q: el(sd, el(part, q)) >= 0))
        P(f"{nm} has target samples", some(part, lambda q: el(sd, el(part, q)) < 0))


def b_nsplits():
    n = length("n", 1)
    sd = ints(n, "sd")
    sp = M.LeaveOneDomainOut()
    sp.max_n_splits = length("max_n_splits", 1)
    return (sp,), dict(sample_domain=sd), dict(sd=sd.snapshot(), m=sp.max_n_splits, n=n)


def p_nsplits(P, out, I):
    if out[0] == "raise":
        return P.fail("the number of splits is given", repr(out[1]))
    d = np.unique  # number of distinct source labels
    from dv import npmodel
    u = npmodel.unique(I["sd"][I["sd"] >= 0])
    k = ln(u)
    P("as many splits as source domains, at most max_n_splits",
      out[1] == S(z3.If(zi(k) < zi(I["m"]), zi(k), zi(I["m"]))))


def scenarios():
    ev = ("return", "raise")
    it = opt(M, "LeaveOneDomainOut._iter_indices")
    return [
        Scn("SourceTargetShuffleSplit._iter_indices", opt(M, "SourceTargetShuffleSplit._iter_indices"),
            b_iter(M.SourceTargetShuffleSplit), p_iter, expect=ev),
        Scn("LeaveOneDomainOut.split", opt(M, "LeaveOneDomainOut.split"), b_lodo, p_lodo, expect=ev,
            contracts={it: c_lodo_iter} if callable(it) else {}),
        Scn("LeaveOneDomainOut._iter_indices", it, b_iter(M.LeaveOneDomainOut), p_iter, expect=ev),
        Scn("DomainShuffleSplit._iter_indices", opt(M, "DomainShuffleSplit._iter_indices"), b_dss, p_dss, expect=ev,
            contracts={U.extract_domains_indices: c_extract_domains_indices}),
        Scn("LeaveOneDomainOut.get_n_splits", opt(M, "LeaveOneDomainOut.get_n_splits"), b_nsplits, p_nsplits),
    ]
# ------------------------------------------------------------- runtime contract
def _sizes(n, p):
    return _validate_shuffle_split(n, p["test_size"], p["train_size"], default_test_size=0.1)


def _mk(p, **kw):
    name = p["cls"]
    a = dict(test_size=p["test_size"], train_size=p["train_size"], random_state=p["seed"])
    if name == "LeaveOneDomainOut":
        return M.LeaveOneDomainOut(max_n_splits=p["k"], **a)
    if name == "DomainShuffleSplit":
        a["under_sampling"] = p["us"]
    return getattr(M, name)(n_splits=p["k"], **a)


def _expected(p):
    """per-split side sizes, or None when the request is impossible"""
    sd = p["sd"]
    out = {}
    try:
        if p["cls"] == "StratifiedDomainShuffleSplit":
            out["all"] = _sizes(len(sd), p)
            g = _groups(p)
            cnt = [g.count(x) for x in set(g)]
            if min(cnt) < 2 or min(out["all"]) < len(cnt):
                return None
        elif p["cls"] == "DomainShuffleSplit":
            k = lambda side: sum(int((sd == v).sum() * p["us"]) for v in set(sd.tolist()) if (v >= 0) == side)
            out["s"], out["t"] = _sizes(k(True), p), _sizes(k(False), p)
        elif p["cls"] == "SourceTargetShuffleSplit":
            out["s"], out["t"] = _sizes(int((sd >= 0).sum()), p), _sizes(int((sd < 0).sum()), p)
        else:
            for d in sorted({v for v in sd.tolist() if v >= 0}):
                out[d] = (_sizes(int(((sd >= 0) & (sd != d)).sum()), p), _sizes(int((sd == -d).sum()), p))
    except ValueError:
        return None
    return out


def _groups(p):
    y = p["y"]
    return [(tuple(np.ravel(a).tolist()), int(b)) for a, b in zip(y, p["sd"])]


def k_split(p):
    sd, X, y = p["sd"], p["X"], p["y"]
    n = len(sd)
    exp = _expected(p)
    X0, y0, sd0 = X.copy(), y.copy(), sd.copy()
    if exp is None:
        try:
            list(_mk(p).split(X, y, sd))
        except ValueError:
            return
        if p["cls"] == "LeaveOneDomainOut":
            return  # the impossible domain may lie beyond max_n_splits
        raise Violation("impossible", "impossible sizes accepted")
    sp = _mk(p)
    splits = must("split", lambda: list(sp.split(X, y, sd)))
    same_arr("frame/X", X, X0)
    same_arr("frame/y", y, y0)
    same_arr("frame/sample_domain", sd, sd0)
    want = p["k"]
    if p["cls"] == "LeaveOneDomainOut":
        want = min(want, len(exp))
    check("n_splits", len(splits) == want, (len(splits), want))
    check("get_n_splits", must("get_n_splits", sp.get_n_splits, X, y, sd) == want, want)
    left = []
    for tr, te in splits:
        tr, te = np.asarray(tr), np.asarray(te)
        both = np.concatenate([tr, te])
        check("indices", both.dtype.kind == "i" and (not len(both) or (both.min() >= 0 and both.max() < n)), both)
        check("disjoint", len(set(both.tolist())) == len(both), both)
        if p["cls"] == "StratifiedDomainShuffleSplit":
            check("size", (len(tr), len(te)) == tuple(exp["all"]), (len(tr), len(te), exp))
            g = _groups(p)
            for x in set(g):
                c = g.count(x)
                a = sum(g[i] == x for i in tr)
                b = sum(g[i] == x for i in te)
                check("stratified/train", abs(a - len(tr) * c / n) <= 1 + 1e-9, (x, a, c, len(tr), n))
                check("stratified/test", abs(b - len(te) * c / n) <= 2 + 1e-9, (x, b, c, len(te), n))
                if len(tr) * c >= n:
                    check("stratified/present", a >= 1, (x, a))
            continue
        if p["cls"] == "LeaveOneDomainOut":
            t = {int(v) for v in sd[both] if v < 0}
            check("lodo/one-target", len(t) == 1, t)
            d = -t.pop()
            left.append(d)
            check("lodo/sources", d in exp and not (sd[both] == d).any(), (d, sd[both]))
            es, et = exp[d]
        else:
            es, et = exp["s"], exp["t"]
        for nm, part, q in (("train", tr, 0), ("test", te, 1)):
            a, b = int((sd[part] >= 0).sum()), int((sd[part] < 0).sum())
            check(f"size/{nm}", (a, b) == (es[q], et[q]), (a, b, es, et))
        if p["cls"] == "DomainShuffleSplit":
            for v in set(sd.tolist()):
                check("under_sampling", (sd[both] == v).sum() <= int((sd == v).sum() * p["us"]), v)
            if p["train_size"] is None:
                for v in set(sd.tolist()):
                    check("under_sampling/all", (sd[both] == v).sum() == int((sd == v).sum() * p["us"]), v)
    if p["cls"] == "LeaveOneDomainOut":
        check("lodo/distinct", len(set(left)) == len(left), left)
    again = must("again", lambda: list(_mk(p).split(X, y, sd)))
    check("reproducible", all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for a, b in zip(splits, again)))
    if n >= 40 and want >= 3 and p["cls"] != "LeaveOneDomainOut" and p["test_size"] in (None, 0.3):
        check("fresh-draws", any(not np.array_equal(np.sort(splits[0][1]), np.sort(s[1])) for s in splits[1:]),
              "every split tests on the same samples")
        other = [list(_mk(dict(p, seed=p["seed"] + q + 1)).split(X, y, sd)) for q in range(2)]
        check("seeded", any(not np.array_equal(splits[0][1], o[0][1]) for o in other), "random_state has no effect")


def k_route(p):
    sp = getattr(M, p["cls"])()
    req = must("routing", lambda: sp.get_metadata_routing().split.requests)
    check("routing", req.get("sample_domain") is True, req)
    from sklearn.base import BaseEstimator
    from sklearn.model_selection import cross_validate

    X, y, sd = p["X"], p["y"], p["sd"]
    seen = []

    class E(BaseEstimator):
        __metadata_request__fit = {"sample_domain": True}
        __metadata_request__score = {"sample_domain": True}

        def fit(self, X, y, sample_domain=None):
            seen.append((X[:, 0].astype(int), np.asarray(sample_domain)))
            return self

        def score(self, X, y, sample_domain=None):
            seen.append((X[:, 0].astype(int), np.asarray(sample_domain)))
            return 0.0

    X = np.column_stack([np.arange(len(sd)), X[:, 0]])
    must("cross_validate", cross_validate, E(), X, y, cv=sp, params=dict(sample_domain=sd), error_score="raise")
    check("cross_validate/seen", len(seen) >= 2, len(seen))
    for ids, d in seen:
        same_arr("cross_validate/aligned", d, sd[ids])


KINDS = dict(split=k_split, route=k_route)
CLS = ["SourceTargetShuffleSplit", "LeaveOneDomainOut", "StratifiedDomainShuffleSplit", "DomainShuffleSplit"]


def cases(rng, tier):
    r = nprng(rng)
    sizes = [(None, None), (0.3, None), (None, 0.5), (2, None), (None, 3), (0.2, 0.4), (2, 3), (0.5, 0.5), (0.999, None)]
    for _ in range(350 if tier == "quick" else 4000):
        cls = rng.choice(CLS)
        nd = rng.randint(1, 4)
        n = rng.randint(4, 80)
        labs = rng.sample(range(1, 9), nd)
        if cls == "LeaveOneDomainOut":
            nd = max(nd, 2)
            labs = rng.sample(range(1, 9), nd)
            pool = labs + [-v for v in labs]
        else:
            pool = labs + [-v for v in rng.sample(range(1, 9), rng.randint(1, 3))]
            if rng.random() < .3:
                pool.append(0)
        sd = r.choice(pool, size=n)
        y = r.randint(0, 3, size=n)
        if cls == "StratifiedDomainShuffleSplit" and rng.random() < .2:
            y = r.randint(0, 2, size=(n, 2))
        X = r.randn(n, 2) if rng.random() < .8 else r.randn(n, 2, 3)
        ts, tr = rng.choice(sizes)
        yield "split", dict(cls=cls, sd=sd, y=y, X=X, test_size=ts, train_size=tr, k=rng.randint(1, 5),
                            seed=rng.randint(0, 10**6), us=rng.choice([0.8, 0.5, 1.0, 0.31]))
    for cls in CLS:
        sd = np.array([1, 2, -1, -2] * 30)
        yield "route", dict(cls=cls, sd=sd, y=np.arange(120) // 4 % 2, X=r.randn(120, 2))
