"""P02: splitting by domain is an order-preserving partition."""
import numpy as np

import skada.utils as U
from dv.prop import Scn, Violation
from dv.spec import *
from dv.core import S, SArr, SMap, SSeq, z3, zi
from props.util import *

ID = "P02"
LEVEL = "proof"


def _inputs(n_arrays=2, nan=False):
    n = length("n", 1)
    X = rows(n, name="X")
    y = floats(n, "y", nan=True)
    sd = ints(n, "sd")
    return n, X, y, sd


# ---- extract_source_indices
def b_esi():
    n, X, y, sd = _inputs()
    return (sd,), {}, dict(n=n, sd=sd)


def p_esi(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    m = out[1]
    i = fresh_int("i")
    P("mask has one entry per sample", ln(m) == I["n"])
    P("mask marks exactly the samples with a non-negative domain label",
      Implies(And(i >= 0, i < I["n"]), Iff(el(m, i), el(I["sd"], i) >= 0)))


# ---- source_target_split
def b_sts():
    n, X, y, sd = _inputs()
    sd0 = sd.snapshot()
    return (X, y), dict(sample_domain=sd), dict(n=n, X=X, y=y, sd=sd0)


def p_sts(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    r = out[1]
    P("four outputs for two arrays", len(r) == 4)
    Xs, Xt, ys, yt = r
    sd, n = I["sd"], I["n"]
    prove_selection(P, "source part", Xs, I["X"], lambda i: el(sd, i) >= 0, [(ys, I["y"])])
    prove_selection(P, "target part", Xt, I["X"], lambda i: el(sd, i) < 0, [(yt, I["y"])])
    P("sizes add up", ln(Xs) + ln(Xt) == n)


def b_sts_none():
    n, X, y, sd = _inputs()
    return (X, None), dict(sample_domain=sd), dict(n=n, X=X, sd=sd.snapshot())


def p_sts_none(P, out, I):
    if out[0] == "raise":
        # None next to an array is documented input (unlabelled data)
        return P.fail("no exception", repr(out[1]))
    r = out[1]
    P("four outputs", len(r) == 4)
    P("None stays None", r[2] is None and r[3] is None)
    prove_selection(P, "source part", r[0], I["X"], lambda i: el(I["sd"], i) >= 0)


# ---- extract_domains_indices
def b_edi():
    n, X, y, sd = _inputs()
    return (sd,), dict(split_source_target=False), dict(n=n, sd=sd.snapshot())


def _map_contract(P, m, I, label, keep):
    """m: domain -> positions; keep(label) says which labels are expected"""
    n, sd = I["n"], I["sd"]
    q, q2, i, k, k2 = (fresh_int(x) for x in ("q", "q2", "i", "k", "k2"))
    K = ln(m)
    inq = And(q >= 0, q < K)
    key = lambda j: m.key(zi(j))
    val = m.val(zi(q))
    P(f"{label}: every key occurs in sample_domain",
      Implies(inq, And(exists_idx(n, lambda t: el(sd, t) == key(q)), keep(key(q)))))
    P(f"{label}: keys are distinct", Implies(And(inq, q2 > q, q2 < K), key(q) != key(q2)))
    P(f"{label}: every kept label has a key",
      Implies(And(i >= 0, i < n, keep(el(sd, i))), exists_idx(K, lambda t: key(t) == el(sd, i))))
    ink = And(inq, k >= 0, k < ln(val))
    P(f"{label}: listed positions carry the key",
      Implies(ink, And(el(val, k) >= 0, el(val, k) < n, el(sd, el(val, k)) == key(q))))
    P(f"{label}: positions increase", Implies(And(ink, k2 > k, k2 < ln(val)), el(val, k2) > el(val, k)))
    P(f"{label}: all positions of the key are listed",
      Implies(And(inq, i >= 0, i < n, el(sd, i) == key(q)), exists_idx(ln(val), lambda t: el(val, t) == i)))


def p_edi(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    if not isinstance(out[1], SMap):
        return P.fail("a mapping", str(type(out[1])))
    _map_contract(P, out[1], I, "domain indices", lambda v: S(z3.BoolVal(True)))


def b_edi2():
    n, X, y, sd = _inputs()
    return (sd,), dict(split_source_target=True), dict(n=n, sd=sd.snapshot())


def p_edi2(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    s, t = out[1]
    _map_contract(P, s, I, "source indices", lambda v: v >= 0)
    _map_contract(P, t, I, "target indices", lambda v: v < 0)


# ---- per_domain_split
def b_pds():
    n, X, y, sd = _inputs()
    return (X, y), dict(sample_domain=sd), dict(n=n, X=X, y=y, sd=sd.snapshot())


def p_pds(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    for m, label, keep in ((out[1][0], "source", lambda v: v >= 0), (out[1][1], "target", lambda v: v < 0)):
        n, sd, X, y = I["n"], I["sd"], I["X"], I["y"]
        q, i, k, k2 = (fresh_int(x) for x in ("q", "i", "k", "k2"))
        K = ln(m)
        inq = And(q >= 0, q < K)
        key = m.key(zi(q))
        v = m.val(zi(q))
        P(f"{label}: one part per array", len(v) == 2)
        vX, vy = v
        ink = And(inq, k >= 0, k < ln(vX))
        t = tag(el(vX, k))
        P(f"{label}: rows of the domain only", Implies(ink, And(t >= 0, t < n, Same(el(vX, k), el(X, t)), el(sd, t) == key, keep(key))))
        P(f"{label}: order kept", Implies(And(ink, k2 > k, k2 < ln(vX)), tag(el(vX, k2)) > t))
        P(f"{label}: labels aligned", Implies(ink, And(ln(vy) == ln(vX), Same(el(vy, k), el(y, t)))))
        P(f"{label}: no row lost",
          Implies(And(inq, i >= 0, i < n, el(sd, i) == key), exists_idx(ln(vX), lambda z: tag(el(vX, z)) == i)))
        P(f"{label}: every domain has an entry",
          Implies(And(i >= 0, i < n, keep(el(sd, i))), exists_idx(K, lambda z: m.key(zi(z)) == el(sd, i))))


def scenarios():
    return [
        Scn("extract_source_indices", U.extract_source_indices, b_esi, p_esi),
        Scn("source_target_split", U.source_target_split, b_sts, p_sts),
        Scn("source_target_split[None]", U.source_target_split, b_sts_none, p_sts_none),
        Scn("extract_domains_indices", U.extract_domains_indices, b_edi, p_edi),
        Scn("extract_domains_indices[split]", U.extract_domains_indices, b_edi2, p_edi2),
        Scn("per_domain_split", U.per_domain_split, b_pds, p_pds),
    ]


# ------------------------------------------------------------ runtime contract
def k_split(p):
    X, y, sd = p["X"], p["y"], p["sd"]
    X0, y0, sd0 = X.copy(), y.copy(), sd.copy()
    arrays = (X, y, None) if p["none"] else (X, y)
    out = must("split", U.source_target_split, *arrays, sample_domain=sd)
    same_arr("split/source", out[0], X0[[i for i in range(len(sd)) if sd0[i] >= 0]])
    same_arr("split/target", out[1], X0[[i for i in range(len(sd)) if sd0[i] < 0]])
    same_arr("split/source-y", out[2], y0[[i for i in range(len(sd)) if sd0[i] >= 0]])
    same_arr("split/target-y", out[3], y0[[i for i in range(len(sd)) if sd0[i] < 0]])
    if p["none"]:
        check("split/none", out[4] is None and out[5] is None, out[4:])
    m = must("indices", U.extract_source_indices, sd)
    same_arr("indices/mask", m, np.array([v >= 0 for v in sd0]))
    d = must("domains", U.extract_domains_indices, sd)
    check("domains/keys", sorted(d) == sorted(set(sd0.tolist())), (list(d), sd0))
    for k, v in d.items():
        same_arr("domains/positions", v, np.array([i for i in range(len(sd)) if sd0[i] == k]))
    ds, dt = must("domains", U.extract_domains_indices, sd, split_source_target=True)
    check("domains/split", sorted(ds) == sorted({v for v in sd0.tolist() if v >= 0})
          and sorted(dt) == sorted({v for v in sd0.tolist() if v < 0}), (list(ds), list(dt)))
    for dd in (ds, dt):
        for k, v in dd.items():
            same_arr("domains/positions", v, np.array([i for i in range(len(sd)) if sd0[i] == k]))
    s, t = must("per_domain_split", U.per_domain_split, *arrays, sample_domain=sd)
    check("per_domain/keys", sorted(s) == sorted(ds) and sorted(t) == sorted(dt), (list(s), list(t)))
    for dd in (s, t):
        for k, v in dd.items():
            ix = [i for i in range(len(sd)) if sd0[i] == k]
            same_arr("per_domain/X", v[0], X0[ix])
            same_arr("per_domain/y", v[1], y0[ix])
            if p["none"]:
                check("per_domain/none", v[2] is None, v)
    same_arr("frame/X", X, X0)
    same_arr("frame/y", y, y0)
    same_arr("frame/sd", sd, sd0)


KINDS = {"split": k_split}


def cases(rng, tier):
    import itertools

    r = nprng(rng)
    for n in range(1, 6 if tier == "quick" else 7):
        for lab in itertools.product([-2, 0, 1, 2] if n < 5 else [-1, 0, 3], repeat=n):
            sd = np.array(lab)
            yield "split", dict(X=np.arange(2.0 * n).reshape(n, 2), y=np.arange(n) * 10.0, sd=sd, none=bool(n % 2))
    for _ in range(150 if tier == "quick" else 2000):
        n = rng.randint(1, 40)
        sd = r.choice([-7, -2, -1, 0, 1, 2, 5], size=n)
        y = r.randn(n)
        y[r.rand(n) < .2] = np.nan
        yield "split", dict(X=r.randn(n, rng.randint(1, 4)), y=y, sd=sd, none=rng.random() < .5)
