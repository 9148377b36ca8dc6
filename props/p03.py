"""P03: merging source and target arrays is the inverse of splitting them."""
import numpy as np

import skada.utils as U
from dv.prop import Scn, Violation
from dv.spec import *
from dv.core import S, SArr, z3, zi
from props.util import *

ID = "P03"
LEVEL = "proof"


def _sd(nmin=1):
    n = length("n", nmin)
    sd = ints(n, "sd")
    return n, sd


def _counts(sd):
    """symbolic sizes: ns samples with sd >= 0, nt others"""
    src_ = sd[sd >= 0]
    tgt = sd[sd < 0]
    return src_.shape[0], tgt.shape[0]


def b_pair(kind):
    def b():
        n, sd = _sd()
        ns, nt = _counts(sd)
        assume(S(zi(ns)) >= 1)
        assume(S(zi(nt)) >= 1)
        d = length("d", 1)
        Xs, Xt = rows(ns, d, "Xs"), rows(nt, d, "Xt")
        ys, yt = (ints(ns, "ys"), ints(nt, "yt")) if kind == "i" else (floats(ns, "ys", nan=True), floats(nt, "yt", nan=True))
        if kind == "if":
            ys, yt = ints(ns, "ys"), floats(nt, "yt", nan=True)
        return (Xs, Xt, ys, yt), dict(sample_domain=sd), dict(
            n=n, sd=sd.snapshot(), Xs=Xs.snapshot(), Xt=Xt.snapshot(), ys=ys.snapshot(), yt=yt.snapshot())
    return b


def _part(P, lab, X, y, I, Xp, yp, inside):
    n = I["n"]
    i, j, q = fresh_int("i"), fresh_int("j"), fresh_int("q")
    m = ln(Xp)
    at = And(i >= 0, i < n, inside(i))
    r = el(X, i)
    t = tag(r)
    P(f"{lab}: rows at the {lab} positions are {lab} rows",
      Implies(at, And(t >= 0, t < m, Same(r, el(Xp, t)))))
    P(f"{lab}: row order is kept", Implies(And(at, j > i, j < n, inside(j)), tag(el(X, j)) > t))
    if y is not None:
        P(f"{lab}: labels go with their rows", Implies(at, Same(el(y, i), el(yp, t))))


def p_pair(P, out, I):
    if out[0] == "raise":
        return P.fail("consistent pairs are merged", repr(out[1]))
    r = out[1]
    P("one array per pair plus the domain labels", len(r) == 3)
    X, y, sd = r
    n = I["n"]
    P("sizes", And(ln(X) == n, ln(y) == n, ln(sd) == n))
    P("domain labels are returned unchanged", arr_same(sd, I["sd"]))
    s0 = I["sd"]
    _part(P, "source", X, y, I, I["Xs"], I["ys"], lambda i: el(s0, i) >= 0)
    _part(P, "target", X, y, I, I["Xt"], I["yt"], lambda i: el(s0, i) < 0)


def b_infer():
    ns, nt, d = length("ns", 1), length("nt", 1), length("d", 1)
    Xs, Xt = rows(ns, d, "Xs"), rows(nt, d, "Xt")
    ys = ints(ns, "ys")
    yt = ints(nt, "yt")
    return (Xs, Xt, ys, yt), {}, dict(ns=ns, nt=nt, Xs=Xs.snapshot(), Xt=Xt.snapshot(), ys=ys.snapshot(), yt=yt.snapshot())


def p_infer(P, out, I):
    if out[0] == "raise":
        return P.fail("merging without domain labels works", repr(out[1]))
    X, y, sd = out[1]
    ns, nt = I["ns"], I["nt"]
    i = fresh_int("i")
    P("sizes", And(ln(X) == ns + nt, ln(sd) == ns + nt, ln(y) == ns + nt))
    ins, int_ = And(i >= 0, i < ns), And(i >= ns, i < ns + nt)
    P("first the source samples, labelled with the default source domain",
      Implies(ins, And(el(sd, i) == 1, Same(el(X, i), el(I["Xs"], i)), Same(el(y, i), el(I["ys"], i)))))
    P("then the target samples, labelled with the default target domain",
      Implies(int_, And(el(sd, i) == -2, Same(el(X, i), el(I["Xt"], i - ns)), Same(el(y, i), el(I["yt"], i - ns)))))


def b_missing(which, kind, given_sd, first=False):
    def b():
        d = length("d", 1)
        if given_sd:
            n, sd = _sd()
            ns, nt = _counts(sd)
            assume(S(zi(ns)) >= 1)
            assume(S(zi(nt)) >= 1)
            kw = dict(sample_domain=sd)
            sd0 = sd.snapshot()
        else:
            ns, nt = length("ns", 1), length("nt", 1)
            kw, sd0 = {}, None
        Xs, Xt = rows(ns, d, "Xs"), rows(nt, d, "Xt")
        m = ns if which == "target" else nt
        yk = ints(m, "y") if kind == "i" else floats(m, "y")
        if kind == "i":
            assume_forall(m, lambda t: el(yk, t) >= 0)
        pair = (yk, None) if which == "target" else (None, yk)
        return (pair + (Xs, Xt) if first else (Xs, Xt) + pair), kw, dict(which=which, first=first, kind=kind, sd=sd0, y=yk.snapshot(), ns=ns, nt=nt,
                                         Xs=Xs.snapshot(), Xt=Xt.snapshot())
    return b


def p_missing(P, out, I):
    if out[0] == "raise":
        return P.fail("a missing half is filled in", repr(out[1]))
    X, y, sd = (out[1][1], out[1][0], out[1][2]) if I["first"] else out[1]
    n = ln(sd)
    sd0 = I["sd"] if I["sd"] is not None else sd
    i = fresh_int("i")
    mis = (lambda i: el(sd0, i) < 0) if I["which"] == "target" else (lambda i: el(sd0, i) >= 0)
    P("one label per sample", ln(y) == n)
    inr = And(i >= 0, i < n)
    v = el(y, i)
    isnan = S(v.nan) if v.nan is not None else S(z3.BoolVal(False))
    if I["kind"] == "i":
        masked = v == -1
    else:
        reg = exists_idx(ln(I["y"]), lambda t: S(el(I["y"], t).e != z3.ToReal(z3.ToInt(el(I["y"], t).e))))
        masked = Or(And(isnan, reg), And(Not(isnan), v == -1, Not(reg)))
    P("the missing half carries the mask label", Implies(And(inr, mis(i)), masked))
    Xp = I["Xs"] if I["which"] == "target" else I["Xt"]
    P("the given half keeps its labels",
      Implies(And(inr, Not(mis(i))), Same(v, el(I["y"], tag(el(X, i))))))


def b_sizes(lo):
    def b():
        n, sd = _sd()
        ns, nt = _counts(sd)
        a, c = length("a", 1), length("c", 1)
        assume(Or(a != S(zi(ns)), c != S(zi(nt))))
        d = length("d", 1)
        return (rows(a, d, "Xs"), rows(c, d, "Xt")), dict(sample_domain=sd), {}
    return b


def b_odd():
    n = length("n", 1)
    return (rows(n), rows(n), rows(n)), {}, {}


def b_dims():
    a, c, d, e = (length(x, 1) for x in "acde")
    assume(d != e)
    return (rows(a, d, "Xs"), rows(c, e, "Xt")), {}, {}


def b_none():
    a, c = length("a", 1), length("c", 1)
    return (rows(a), rows(c), None, None), {}, {}


def p_reject(P, out, I):
    if out[0] == "return":
        return P.fail("inconsistent input is rejected", "returned")
    P("rejected with ValueError", type(out[1]) is ValueError)


def scenarios():
    f = U.source_target_merge
    out = [
        Scn("source_target_merge[int labels]", f, b_pair("i"), p_pair),
        Scn("source_target_merge[float labels]", f, b_pair("f"), p_pair),
        Scn("source_target_merge[int+float labels]", f, b_pair("if"), p_pair),
        Scn("source_target_merge[inferred domains]", f, b_infer, p_infer),
        Scn("source_target_merge[sizes]", f, b_sizes(1), p_reject, expect=("raise",)),
        Scn("source_target_merge[odd]", f, b_odd, p_reject, expect=("raise",)),
        Scn("source_target_merge[features]", f, b_dims, p_reject, expect=("raise",)),
        Scn("source_target_merge[nothing]", f, b_none, p_reject, expect=("raise",)),
    ]
    for w in ("target", "source"):
        for k in "if":
            for g in (True, False):
                out.append(Scn(f"source_target_merge[{w} {k} labels missing,{'given' if g else 'inferred'}]",
                               f, b_missing(w, k, g), p_missing))
            out.append(Scn(f"source_target_merge[{w} {k} labels missing, labels first]", f, b_missing(w, k, True, True), p_missing))
    return out


# ------------------------------------------------------------- runtime contract
def k_round(p):
    """split then merge gives the arrays back"""
    X, y, sd = p["X"], p["y"], p["sd"]
    Xs, Xt, ys, yt = U.source_target_split(X, y, sample_domain=sd)
    if not len(Xs) or not len(Xt):
        return
    r = must("merge", U.source_target_merge, Xs, Xt, ys, yt, sample_domain=sd)
    check("merge/count", len(r) == 3, len(r))
    same_arr("round-trip/X", r[0], X)
    same_arr("round-trip/y", r[1], y)
    same_arr("round-trip/sample_domain", r[2], sd)
    r = must("merge", U.source_target_merge, Xs, Xt, ys, yt)
    same_arr("inferred/X", r[0], np.concatenate([Xs, Xt]))
    same_arr("inferred/y", r[1], np.concatenate([ys, yt]))
    same_arr("inferred/sample_domain", r[2], [1] * len(Xs) + [-2] * len(Xt))


def k_types(p):
    """values survive whatever the numeric types of the two halves"""
    a, b = p["a"], p["b"]
    r = must("merge", U.source_target_merge, a, b)
    same_arr("types/values", r[0], np.concatenate([a, b]))


def k_missing(p):
    y, sd = p["y"], p["sd"]
    src = sd >= 0
    X = np.arange(2.0 * len(sd)).reshape(-1, 2)
    cont = p["cont"]
    for w, m in (("target", ~src), ("source", src)):
        given = y[~m]
        if not len(given) or not m.any():
            continue
        pair = (given, None) if w == "target" else (None, given)
        if p["empty"]:
            pair = tuple(np.array([]) if v is None else v for v in pair)
        X2 = (X[src], X[~src])
        for args, at in ((X2 + pair, [1]), (pair + X2, [0]), (pair, [0]), (pair + X2 + pair, [0, 2])):
            r = must("missing", U.source_target_merge, *args, sample_domain=sd)
            for q in range(len(args) // 2):
                if q not in at:
                    same_arr("missing/other-pair", r[q], X)
                    continue
                same_arr("missing/given-half", r[q][~m], given)
                f = r[q][m]
                check(f"missing/{w}-fill", np.isnan(f).all() if cont else (f == -1).all(), f)


def k_reject(p):
    sd = p["sd"]
    ns, nt = int((sd >= 0).sum()), int((sd < 0).sum())
    a, b = p["a"], p["b"]
    if (a, b) == (ns, nt) or not a or not b:
        return
    try:
        U.source_target_merge(np.zeros((a, 2)), np.zeros((b, 2)), sample_domain=sd)
    except ValueError:
        return
    raise Violation("reject/sizes", f"sizes {a},{b} accepted for {ns},{nt}")


KINDS = dict(round=k_round, types=k_types, missing=k_missing, reject=k_reject)


def cases(rng, tier):
    import itertools

    r = nprng(rng)
    for n in range(2, 7 if tier == "quick" else 9):
        for lab in itertools.product([-2, 0, 3] if n < 6 else [-1, 1], repeat=n):
            sd = np.array(lab)
            yield "round", dict(X=np.arange(2.0 * n).reshape(n, 2), y=np.arange(n), sd=sd)
            if rng.random() < .2:
                yield "missing", dict(y=np.arange(n) % 3, sd=sd, cont=False, empty=rng.random() < .5)
                yield "missing", dict(y=np.arange(n) + .25, sd=sd, cont=True, empty=rng.random() < .5)
                yield "reject", dict(sd=sd, a=rng.randint(1, n), b=rng.randint(1, n))
    kinds = [lambda k: r.randint(-3, 4, size=k), lambda k: r.randn(k), lambda k: r.randn(k).astype("float32"),
             lambda k: r.randint(0, 2, size=k).astype("int32"), lambda k: np.where(r.rand(k) < .5, np.nan, r.randn(k))]
    for f in kinds:
        for g in kinds:
            yield "types", dict(a=f(rng.randint(1, 6)), b=g(rng.randint(1, 6)))
    for _ in range(100 if tier == "quick" else 2000):
        n = rng.randint(2, 30)
        sd = r.choice([-7, -2, -1, 0, 1, 2, 5], size=n)
        yield "round", dict(X=r.randn(n, 3), y=r.randint(-1, 3, size=n), sd=sd)
        yield "round", dict(X=r.randint(0, 9, size=(n, 2)), y=r.randn(n), sd=sd)
