"""P01: validation of domain-labelled input."""
import numpy as np

import skada.utils as U
import skada._utils as _U
from dv.prop import Scn, Violation
from dv.spec import *
from dv.core import S, SArr, z3, zi
from props.util import *

ID = "P01"
LEVEL = "proof"
FLAGS = ["allow_source", "allow_multi_source", "allow_target", "allow_multi_target", "allow_common_domain_idx"]


def symflags():
    return {f: S(ctx().fresh("b", f)) for f in FLAGS}


def bads(fl, a, b):
    """flag violations witnessed by two domain labels a, b of the data"""
    return dict(
        allow_source=And(Not(fl["allow_source"]), a >= 0),
        allow_target=And(Not(fl["allow_target"]), a < 0),
        allow_multi_source=And(Not(fl["allow_multi_source"]), a >= 0, b >= 0, a != b),
        allow_multi_target=And(Not(fl["allow_multi_target"]), a < 0, b < 0, a != b),
        allow_common_domain_idx=And(Not(fl["allow_common_domain_idx"]), a == -b, a != b),
    )


def bad(fl, a, b):
    return Or(*bads(fl, a, b).values())


def exists2(n, f):
    i, j = iv("i"), iv("j")
    return S(z3.Exists([i, j], z3.And(0 <= i, i < zi(n), 0 <= j, j < zi(n), f(S(i), S(j)).e)))


def flag_posts(P, out, I):
    n, sd, fl = I["n"], I["sd"], I["fl"]
    i, j = fresh_int("i"), fresh_int("j")
    inr = And(i >= 0, i < n, j >= 0, j < n)
    if out[0] == "raise":
        if type(out[1]) is not ValueError:
            return P.fail("only ValueError is raised", repr(out[1]))
        P("rejected only when a disallowed kind of domain is present",
          exists2(n, lambda a, b: bad(fl, el(sd, a), el(sd, b))))
        return
    r = out[1]
    for k, b in bads(fl, el(sd, i), el(sd, j)).items():
        P(f"accepted data respects {k}", Implies(inr, Not(b)))
    P("samples are returned unchanged", arr_same(r[0], I["X"]))
    P("domain labels are returned unchanged", arr_same(r[-1], sd))
    if len(r) == 3:
        P("labels are returned unchanged", arr_same(r[1], I["y"]))


def b_xy(kind="i"):
    def b():
        n = length("n", 1)
        X = rows(n)
        y = ints(n, "y") if kind == "i" else floats(n, "y", nan=True)
        sd = ints(n, "sd")
        fl = symflags()
        return (X, y, sd), dict(fl), dict(n=n, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot(), fl=fl)
    return b


def b_x():
    n = length("n", 1)
    X = rows(n)
    sd = ints(n, "sd")
    fl = symflags()
    return (X, sd), dict(fl), dict(n=n, X=X.snapshot(), sd=sd.snapshot(), fl=fl)


def b_len(two):
    def b():
        n, m = length("n", 1), length("m", 1)
        assume(n != m)
        X, sd = rows(n), ints(m, "sd")
        if two:
            return (X, ints(n, "y"), sd), {}, {}
        return (X, sd), {}, {}
    return b


def b_len_y():
    n, m = length("n", 1), length("m", 1)
    assume(n != m)
    return (rows(n), ints(m, "y"), ints(n, "sd")), {}, {}


def p_reject(P, out, I):
    if out[0] == "return":
        return P.fail("mismatching lengths are rejected", "returned")
    P("rejected with ValueError", type(out[1]) is ValueError)


def b_scalar(two):
    def b():
        n = length("n", 1)
        X = rows(n)
        s = S(ctx().fresh("i", "s"))
        if two:
            y = floats(n, "y", nan=True)
            return (X, y, s), {}, dict(n=n, s=s, X=X, y=y)
        return (X, s), {}, dict(n=n, s=s, X=X)
    return b


def p_scalar(P, out, I):
    if out[0] == "raise":
        return P.fail("a scalar domain label is accepted", repr(out[1]))
    sd = out[1][-1]
    i = fresh_int("i")
    P("one domain label per sample", ln(sd) == I["n"])
    P("every sample gets the given label", Implies(And(i >= 0, i < I["n"]), el(sd, i) == I["s"]))
    P("samples unchanged", arr_same(out[1][0], I["X"]))


def b_auto_x():
    n = length("n", 1)
    X = rows(n)
    return (X, None), {}, dict(n=n, X=X)


def p_auto_x(P, out, I):
    if out[0] == "raise":
        return P.fail("unlabelled data without domains is accepted", repr(out[1]))
    i = fresh_int("i")
    sd = out[1][1]
    P("one domain label per sample", ln(sd) == I["n"])
    P("every sample is a target sample", Implies(And(i >= 0, i < I["n"]), el(sd, i) < 0))
    P("all in the default target-only domain", Implies(And(i >= 0, i < I["n"]), el(sd, i) == -1))


def b_auto(kind):
    def b():
        n = length("n", 1)
        X = rows(n)
        y = ints(n, "y") if kind == "i" else floats(n, "y", nan=True)
        return (X, y, None), {}, dict(n=n, X=X, y=y.snapshot(), kind=kind)
    return b


def p_auto(P, out, I):
    y, n = I["y"], I["n"]
    i = fresh_int("i")
    inr = And(i >= 0, i < n)
    if I["kind"] == "i":
        ex = exists_idx(n, lambda t: el(y, t) == -1)
        low = exists_idx(n, lambda t: el(y, t) < -1)
        if out[0] == "raise":
            P("rejected with ValueError", type(out[1]) is ValueError)
            P("rejected only without a masked label or with labels below it", Or(Not(ex), low))
            return
        P("accepted labels contain a masked one", ex)
        masked = el(y, i) == -1
    else:
        nan = lambda t: S(el(y, t).nan)
        ex = exists_idx(n, nan)
        if out[0] == "raise":
            P("rejected with ValueError", type(out[1]) is ValueError)
            P("rejected only without NaN label", Not(ex))
            return
        v = lambda t: el(y, t)
        masked = Or(nan(i), And(Not(ex), v(i) == -1))
        P("accepted labels contain a masked one", Or(ex, exists_idx(n, lambda t: v(t) == -1)))
    sd = out[1][2]
    P("one domain label per sample", ln(sd) == n)
    P("masked samples become the default target domain", Implies(And(inr, masked), el(sd, i) == -2))
    P("labelled samples become the default source domain", Implies(And(inr, Not(masked)), el(sd, i) == 1))
    P("samples unchanged", arr_same(out[1][0], I["X"]))
    P("labels unchanged", arr_same(out[1][1], y))


def b_noauto(two):
    def b():
        n = length("n", 1)
        X = rows(n)
        return ((X, ints(n, "y"), None) if two else (X, None)), dict(allow_auto_sample_domain=False), {}
    return b


def p_noauto(P, out, I):
    if out[0] == "return":
        return P.fail("missing domain labels are rejected", "returned")
    P("rejected with ValueError", type(out[1]) is ValueError)


def b_nomask():
    n = length("n", 1)
    X, y, sd = rows(n), floats(n, "y", nan=True), ints(n, "sd")
    return (X, y, sd), dict(allow_label_masks=False), dict(n=n, y=y.snapshot())


def p_nomask(P, out, I):
    ex = exists_idx(I["n"], lambda t: S(el(I["y"], t).nan))
    if out[0] == "raise":
        P("rejected with ValueError", type(out[1]) is ValueError)
        P("rejected only for NaN labels", ex)
    else:
        P("accepted labels have no NaN", Not(ex))


ALLOWED = [{1, -2}, {0, -1, 3}, {np.inf, -1}, {2, -np.inf}]


def b_dom(allowed):
    def b():
        n = length("n", 1)
        X, sd = rows(n), ints(n, "sd")
        return (X, sd), dict(allow_domains=set(allowed)), dict(n=n, sd=sd.snapshot(), allowed=allowed)
    return b


def p_dom(P, out, I):
    n, sd = I["n"], I["sd"]
    fin = [int(v) for v in I["allowed"] if np.isfinite(v)]

    def ok(v):
        return Or(*[v == f for f in fin],
                  And(np.inf in I["allowed"], v >= 0), And(-np.inf in I["allowed"], v < 0))

    i = fresh_int("i")
    if out[0] == "raise":
        P("rejected with ValueError", type(out[1]) is ValueError)
        P("rejected only for a label outside the allowed domains", exists_idx(n, lambda t: Not(ok(el(sd, t)))))
    else:
        P("accepted labels are all allowed", Implies(And(i >= 0, i < n), ok(el(sd, i))))


def scenarios():
    R2 = ("return", "raise")
    out = [
        Scn("check_X_y_domain[flags]", U.check_X_y_domain, b_xy("i"), flag_posts, expect=R2, time_limit=240),
        Scn("check_X_y_domain[flags,masked regression]", U.check_X_y_domain, b_xy("f"), flag_posts, expect=R2, time_limit=240),
        Scn("check_X_domain[flags]", U.check_X_domain, b_x, flag_posts, expect=R2, time_limit=240),
        Scn("check_X_y_domain[lengths]", U.check_X_y_domain, b_len(True), p_reject, expect=("raise",)),
        Scn("check_X_y_domain[y length]", U.check_X_y_domain, b_len_y, p_reject, expect=("raise",)),
        Scn("check_X_domain[lengths]", U.check_X_domain, b_len(False), p_reject, expect=("raise",)),
        Scn("check_X_y_domain[scalar]", U.check_X_y_domain, b_scalar(True), p_scalar),
        Scn("check_X_domain[scalar]", U.check_X_domain, b_scalar(False), p_scalar),
        Scn("check_X_domain[auto]", U.check_X_domain, b_auto_x, p_auto_x),
        Scn("check_X_y_domain[auto,class]", U.check_X_y_domain, b_auto("i"), p_auto, expect=R2),
        Scn("check_X_y_domain[auto,regression]", U.check_X_y_domain, b_auto("f"), p_auto, expect=R2),
        Scn("check_X_y_domain[no auto]", U.check_X_y_domain, b_noauto(True), p_noauto, expect=("raise",)),
        Scn("check_X_domain[no auto]", U.check_X_domain, b_noauto(False), p_noauto, expect=("raise",)),
        Scn("check_X_y_domain[no masks]", U.check_X_y_domain, b_nomask, p_nomask, expect=R2),
    ]
    for a in ALLOWED:
        out.append(Scn(f"check_X_domain[allow {sorted(a)}]", U.check_X_domain, b_dom(a), p_dom, expect=R2))
    return out


# ---------------------------------------------------------------- runtime side
def _flag_bad(sd, fl):
    s = {v for v in sd if v >= 0}
    t = {v for v in sd if v < 0}
    r = []
    if not fl["allow_source"] and s:
        r.append("allow_source")
    if not fl["allow_target"] and t:
        r.append("allow_target")
    if not fl["allow_multi_source"] and len(s) > 1:
        r.append("allow_multi_source")
    if not fl["allow_multi_target"] and len(t) > 1:
        r.append("allow_multi_target")
    if not fl["allow_common_domain_idx"] and any(-v in t for v in s if v != 0):
        r.append("allow_common_domain_idx")
    return r


def k_flags(p):
    X, y, sd, fl = p["X"], p["y"], p["sd"], p["fl"]
    b = _flag_bad(sd.tolist(), fl)
    for name, args in (("check_X_y_domain", (X, y, sd)), ("check_X_domain", (X, sd))):
        before = [a.copy() for a in args]
        try:
            r = getattr(U, name)(*args, **fl)
        except ValueError as e:
            if not b:
                raise Violation(f"{name}/over-rejects", f"{e} for domains {sd.tolist()} flags {fl}")
            continue
        except Exception as e:
            raise Violation(f"{name}/raises", repr(e))
        if b:
            raise Violation(f"{name}/accepts-disallowed/{b[0]}", f"domains {sd.tolist()} flags {fl}")
        for q, (a, bb, o) in enumerate(zip(args, before, r)):
            same_arr(f"{name}/output{q}", o, bb)
            same_arr(f"{name}/mutates{q}", a, bb)


def k_len(p):
    X, y, sd = p["X"], p["y"], p["sd"]
    for name, args in (("check_X_y_domain", (X, y, sd)), ("check_X_domain", (X, sd))):
        try:
            getattr(U, name)(*args)
        except ValueError:
            continue
        except Exception as e:
            raise Violation(f"{name}/length-raises", repr(e))
        raise Violation(f"{name}/accepts-length-mismatch", f"{len(X)} samples, {len(sd)} domain labels")


def k_scalar(p):
    X, y, s = p["X"], p["y"], p["s"]
    r = must("scalar", U.check_X_y_domain, X, y, s)
    same_arr("scalar/check_X_y_domain", r[2], np.full(len(X), s))
    r = must("scalar", U.check_X_domain, X, s)
    same_arr("scalar/check_X_domain", r[1], np.full(len(X), s))


def k_auto(p):
    X, y = p["X"], p["y"]
    r = must("auto", U.check_X_domain, X, None)
    same_arr("auto/check_X_domain", r[1], np.full(len(X), -1))
    disc = not np.isnan(y).any() and (y == np.round(y)).all()
    if disc:
        ok = (y == -1).any() and not (y < -1).any()
        mask = y == -1
    else:
        ok = np.isnan(y).any()
        mask = np.isnan(y)
    y0 = y.copy()
    try:
        r = U.check_X_y_domain(X, y, None)
    except ValueError as e:
        check("auto/over-rejects", not ok, (y.tolist(), str(e)))
    else:
        check("auto/accepts-unmasked", ok, y.tolist())
        same_arr("auto/labels", r[2], np.where(mask, -2, 1))
        same_arr("auto/y", r[1], y0)
    same_arr("auto/mutates", y, y0)
    for f, a in ((U.check_X_y_domain, (X, y, None)), (U.check_X_domain, (X, None))):
        try:
            f(*a, allow_auto_sample_domain=False)
        except ValueError:
            continue
        raise Violation("auto/not-refused", f.__name__)


def k_allow(p):
    X, sd, al = p["X"], p["sd"], set(p["allow"])
    ok = all(v in al or (np.inf if v >= 0 else -np.inf) in al for v in sd.tolist())
    try:
        U.check_X_domain(X, sd, allow_domains=al)
    except ValueError:
        check("allow_domains/over-rejects", not ok, (sd.tolist(), al))
    else:
        check("allow_domains/accepts", ok, (sd.tolist(), al))


def k_nan(p):
    y = p["y"]
    X = np.ones((len(y), 2))
    sd = np.array([1, -2] * len(y))[: len(y)]
    try:
        U.check_X_y_domain(X, y, sd, allow_label_masks=False)
    except ValueError:
        check("nan/over-rejects", np.isnan(y).any(), y)
    else:
        check("nan/accepts", not np.isnan(y).any(), y)


KINDS = dict(flags=k_flags, len=k_len, scalar=k_scalar, auto=k_auto, allow=k_allow, nan=k_nan)


def cases(rng, tier):
    import itertools

    r = nprng(rng)
    big = tier != "quick"
    doms = [(1,), (-2,), (1, -2), (1, 2), (-1, -2), (1, -1), (0, -1, 2), (1, 2, -3), (1, -2, -3), (0, 3, -3, -4), (2, -2, -3), (0, 1), (-5,)]
    for d in doms:
        for bits in itertools.product([True, False], repeat=5):
            sd = np.array(list(d) * 2)
            r.shuffle(sd)
            n = len(sd)
            yield "flags", dict(X=r.randn(n, 2), y=r.randint(0, 3, n) if bits[0] else r.randn(n), sd=sd, fl=dict(zip(FLAGS, bits)))
    for n, m in [(3, 2), (2, 3), (4, 1), (1, 4), (5, 6)]:
        yield "len", dict(X=r.randn(n, 2), y=r.randint(0, 2, n), sd=np.array([1, -2, 1, -2, 1, 2])[:m])
    for s in (0, 1, -1, -2, 5):
        for y in (np.array([0, 1, 2]), np.array([.5, 1.5, np.nan]), np.array([1, 0, 1], dtype=np.uint8),
                  np.array([1, 0, 1], dtype=np.int8), np.array([[1., 2.], [3., 4.], [.5, .1]])):
            yield "scalar", dict(X=r.randn(3, 2), y=y, s=s)
    for y in ([0, 1, -1], [0, 1, 2], [-1, -1], [-2, -1, 0], [.5, np.nan], [.5, 1.], [1., -1.], [1., 2.], [np.nan, np.nan], [np.nan, -1., 2.], [3, -1, 7, -1]):
        yield "auto", dict(X=r.randn(len(y), 2), y=np.array(y))
    for _ in range(40 if not big else 1000):
        n = rng.randint(1, 12)
        y = r.randint(-1 if rng.random() < .8 else -3, 3, n)
        if rng.random() < .5:
            y = y.astype(float)
            y[r.rand(n) < .3] = np.nan
            if rng.random() < .5:
                y = y + .25
        yield "auto", dict(X=r.randn(n, 2), y=y)
        if y.dtype == float:
            yield "nan", dict(y=y)
    for al in ([1, -2], [0, 1], [np.inf, -2], [-np.inf, 2], [np.inf, -np.inf], [-1, -2, 3]):
        for _ in range(10 if not big else 100):
            n = rng.randint(1, 5)
            sd = r.choice([-2, -1, 0, 1, 2, 3], size=n)
            yield "allow", dict(X=r.randn(n, 2), sd=sd, allow=al)
