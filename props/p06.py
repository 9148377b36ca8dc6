"""P06: building, parametrising and cloning domain-aware pipelines."""
import numpy as np
from sklearn.base import BaseEstimator, clone
from sklearn.decomposition import PCA
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import MinMaxScaler, StandardScaler
from sklearn.svm import SVC

import skada
import skada._pipeline as PL
import skada.base as SB
from dv.prop import Scn, Violation, opt
from dv.spec import *
from dv.core import S, SSeq, z3, zi
from props import stubs
from props.util import *

ID = "P06"
LEVEL = "proof"


# ------------------------------------------ masking switch over the steps
class SymStep:
    """step number j of a pipeline under construction"""

    _dv_native = True

    def __init__(self, j):
        self.j = j

    @property
    def predicts_target_labels(self):
        return S(z3.Function("predicts", z3.IntSort(), z3.BoolSort())(zi(self.j)))

    def _dv_subst(self, f):
        return SymStep(f(self.j))


class Wrapped:
    _dv_native = True

    def __init__(self, est, selector, mask):
        self.est, self.selector, self.mask = est, selector, mask

    def _dv_subst(self, f):
        return Wrapped(f(self.est), self.selector, f(self.mask))


def c_wrap(it, estimator, selector, mask_target_labels=True):
    """contract of _wrap_with_selector (proved below): a selector around this
    estimator with this masking flag"""
    return Wrapped(estimator, selector, mask_target_labels)


def b_wraps():
    n = length("n", 0)
    mask = S(ctx().fresh("b", "mask"))
    steps = SSeq(n, lambda j: SymStep(S(zi(j))))
    return (steps, "shared", mask), {}, dict(n=n, mask=mask)


def p_wraps(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    r = out[1]
    n = I["n"]
    P("one wrapped step per step", ln(r) == n)
    k = fresh_int("k")
    t = iv("t")
    inr = And(k >= 0, k < n)
    w = r.get(k.e)
    P("order kept", Implies(inr, w.est.j == k))
    P("default selector used", w.selector == "shared")
    pr = z3.Function("predicts", z3.IntSort(), z3.BoolSort())
    want = z3.And(I["mask"].e, z3.Not(z3.Exists([t], z3.And(0 <= t, t <= k.e, pr(t)))))
    m = w.mask
    m = m if isinstance(m, S) else S(z3.BoolVal(m))
    P("masking as requested until a step predicts target labels, off from then on", Implies(inr, S(m.e == want)))


# ------------------------------------------------------ one step
class MySel(SB.Shared):
    pass


MySel.__module__ = "skada.base"  # interpreted like the library's own selectors


def bad_selector(e, mask_target_labels=True):
    return 42


bad_selector._dv_native = True


def b_wrap(est, selector):
    def b():
        mask = S(ctx().fresh("b", "mask"))
        e = est()
        return (e, selector), dict(mask_target_labels=mask), dict(mask=mask, est=e, selector=selector)
    return b


def p_wrap(want):
    def post(P, out, I):
        if want is ValueError:
            P("refused with ValueError", out[0] == "raise" and type(out[1]) is ValueError)
            return
        if out[0] == "raise":
            return P.fail("no exception", repr(out[1]))
        w = out[1]
        if want == "same":
            P("kept as it is", w is I["est"])
            return
        P("requested selector", type(w) is want)
        P("around the estimator itself", w.base_estimator is I["est"])
        m = w.mask_target_labels
        P("masking flag handed over", S(m.e == I["mask"].e) if isinstance(m, S) else False)
    return post


# ------------------------------------------------------ parameters
def b_params(cls, setit):
    def b():
        m = S(ctx().fresh("b", "mask"))
        e = stubs.Plain(3)
        s = cls(e, mask_target_labels=False)
        if not setit:
            s.mask_target_labels = m
        return (s, m), {}, dict(mask=m, s=s, e=e)
    return b


def call_get(it, s, m):
    return it.call(s.get_params, (), {"deep": True})


def p_get(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    d = out[1]
    P("the estimator is reported", d.get("base_estimator") is I["e"])
    m = d.get("mask_target_labels")
    P("the masking flag is reported", S(m.e == I["mask"].e) if isinstance(m, S) else False)
    P("the estimator's own parameters are reported", d.get("tag") == 3)


def call_set(it, s, m):
    return it.call(s.set_params, (), {"mask_target_labels": m, "tag": 9})


def p_set(P, out, I):
    if out[0] == "raise":
        return P.fail("no exception", repr(out[1]))
    m = I["s"].mask_target_labels
    m = m if isinstance(m, S) else S(z3.BoolVal(bool(m)))
    P("the masking flag is set", S(m.e == I["mask"].e))
    P("the estimator's parameter is set", I["e"].tag == 9)
    P("returns itself", out[1] is I["s"])


def scenarios():
    W = opt(PL, "_wrap_with_selector")
    Ws = opt(PL, "_wrap_with_selectors")
    out = [Scn("_wrap_with_selectors", Ws, b_wraps, p_wraps, contracts={W: c_wrap} if callable(W) else {})]
    for nm, est, sel, want in (
        ("shared", lambda: stubs.Plain(1), "shared", SB.Shared),
        ("per_domain", lambda: stubs.Plain(1), "per_domain", SB.PerDomain),
        ("callable", lambda: stubs.Plain(1), MySel, MySel),
        ("bad callable", lambda: stubs.Plain(1), bad_selector, ValueError),
        ("bad name", lambda: stubs.Plain(1), "nothing", ValueError),
        ("bad type", lambda: stubs.Plain(1), 42, ValueError),
        ("selector", lambda: SB.PerDomain(stubs.Plain(1)), "shared", "same"),
        ("none", lambda: None, "shared", "same"),
    ):
        out.append(Scn(f"_wrap_with_selector[{nm}]", W, b_wrap(est, sel), p_wrap(want),
                       expect=("raise",) if want is ValueError else ("return",)))
    for cls in (SB.Shared, SB.PerDomain, SB.SelectSource):
        out.append(Scn(f"{cls.__name__}.get_params", opt(cls, "get_params"), b_params(cls, False), p_get, call=call_get))
        out.append(Scn(f"{cls.__name__}.set_params", opt(cls, "set_params"), b_params(cls, True), p_set, call=call_set))
    return out


# ----------------------------------------------------------- runtime contract
class Predictor(skada.BaseAdapter):
    def __init__(self, k=0):
        super().__init__()
        self.k = k
        self.predicts_target_labels = True

    def fit_transform(self, X, y=None, sample_domain=None):
        self.fitted_ = True
        return X, y, {}


EST = dict(
    scaler=lambda: StandardScaler(with_mean=False), minmax=lambda: MinMaxScaler((0, 2)), pca=lambda: PCA(n_components=2),
    coral=lambda: skada.CORALAdapter(reg=.3), kmm=lambda: skada.KMMReweightAdapter(gamma=.7), sub=lambda: skada.SubspaceAlignmentAdapter(n_components=1),
    pred=lambda: Predictor(4), lr=lambda: LogisticRegression(C=3.), svc=lambda: SVC(C=.5), ridge=lambda: Ridge(alpha=2.),
    dasvm=lambda: skada.DASVMClassifier(base_estimator=SVC(C=7.), k=3),
)
SEL = dict(shared=skada.Shared, per_domain=skada.PerDomain, source=skada.SelectSource, target=skada.SelectTarget)


def make(spec):
    """spec: (kind, name or None, selector or None, mask)"""
    k, nm, sel, mask = spec
    if k == "nested":
        e = skada.make_da_pipeline(*[make(s) for s in sel], mask_target_labels=mask)
    elif k == "sst":
        e = skada.SelectSourceTarget(EST["scaler"](), EST["minmax"]())
    else:
        e = EST[k]()
        if sel:
            e = SEL[sel](e, mask_target_labels=mask) if sel != "target" else SEL[sel](e)
    return (nm, e) if nm else e


def flat(specs, default, mask, built):
    """expected (name or None, base or selector, kind of wrap, mask) per step"""
    out = []
    for s, b in zip(specs, built):
        k, nm, sel, m = s
        obj = b[1] if isinstance(b, tuple) else b
        if k == "nested":
            for n2, st in obj.steps:
                out.append([f"{nm}__{n2}" if nm else n2, st, "kept", st.mask_target_labels])
        elif k == "sst" or sel:
            out.append([nm, obj, "kept", obj.mask_target_labels])
        else:
            if k == "pred":
                mask = False
            out.append([nm, obj, default, mask])
    return out


def plain_params(o):
    d = o.get_params(deep=True)
    return {k: v for k, v in d.items() if not isinstance(v, (BaseEstimator, list, tuple)) and v is not None}


def k_build(p):
    specs = [tuple(s) for s in p["specs"]]
    built = [make(s) for s in specs]
    want = flat(specs, p["default"], p["mask"], built)
    pipe = must("build", skada.make_da_pipeline, *built, default_selector=SEL[p["default"]] if p["cls"] else p["default"],
                mask_target_labels=p["mask"])
    check("build/pipeline", isinstance(pipe, Pipeline), type(pipe))
    check("build/one-step-each", len(pipe.steps) == len(want), [n for n, _ in pipe.steps])
    names = [n for n, _ in pipe.steps]
    for (n, st), (nm, obj, how, mask) in zip(pipe.steps, want):
        if how == "kept":
            check("build/selector-kept", st is obj, n)
        else:
            check("build/selector", type(st) is SEL[how], (n, type(st)))
            check("build/estimator", st.base_estimator is obj, n)
        check("build/mask", bool(st.mask_target_labels) == bool(mask), (n, st.mask_target_labels, mask))
        if nm is not None:
            check("build/user-name", n == nm, (n, nm))
        else:
            base = obj if how != "kept" else getattr(obj, "base_estimator", obj)
            stem = type(base).__name__.lower()
            stem = "perdomain_" + stem if isinstance(st, skada.PerDomain) else stem
            check("build/auto-name", n == stem or (n.startswith(stem + "-") and n[len(stem) + 1:].isdigit()), (n, stem))
    auto = [n for n, w in zip(names, want) if w[0] is None]
    check("build/unique-names", len(set(auto)) == len(auto), names)
    # one parameter of one step through the pipeline
    before = plain_params(pipe)
    c = must("clone", clone, pipe)
    check("clone/names", [n for n, _ in c.steps] == names, [n for n, _ in c.steps])
    after = plain_params(c)
    check("clone/params", before == after, {k: (before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(k) != after.get(k)})
    for (n, a), (_, b) in zip(pipe.steps, c.steps):
        check("clone/type", type(a) is type(b), n)
        check("clone/new-object", a is not b, n)
        check("clone/mask", a.mask_target_labels == b.mask_target_labels, n)
        if hasattr(a, "base_estimator"):
            check("clone/base", type(a.base_estimator) is type(b.base_estimator) and a.base_estimator is not b.base_estimator, n)
    n, st = pipe.steps[p["at"] % len(names)]
    if hasattr(st, "base_estimator") and names.count(n) == 1 and "__" not in n:
        own = [k for k, v in st.base_estimator.get_params(deep=False).items() if type(v) in (int, float)]
        if own:
            key = own[p["at"] % len(own)]
            must("set_params", pipe.set_params, **{f"{n}__{key}": 17})
            check("set_params/reaches-estimator", getattr(st.base_estimator, key) == 17, key)
            check("set_params/reported", pipe.get_params()[f"{n}__{key}"] == 17, key)
            others = {k: v for k, v in plain_params(pipe).items() if before.get(k) != v}
            check("set_params/only-that-one", set(others) <= {f"{n}__{key}", f"{n}__base_estimator__{key}"}, others)
        if not isinstance(st, skada.SelectTarget):
            must("set_params", pipe.set_params, **{f"{n}__mask_target_labels": not st.mask_target_labels})
            m2 = pipe.get_params()[f"{n}__mask_target_labels"]
            check("set_params/mask", m2 == st.mask_target_labels == clone(st).mask_target_labels, n)


def k_refuse(p):
    try:
        if p["how"] == "none":
            skada.make_da_pipeline()
        else:
            skada.make_da_pipeline(*[make(tuple(s)) for s in p["specs"]], default_selector={"name": "nothing", "type": 42, "call": (lambda e, mask_target_labels=True: 3)}[p["how"]])
    except TypeError:
        check("refuse/kind", p["how"] == "none", "TypeError")
        return
    except ValueError:
        check("refuse/kind", p["how"] != "none", "ValueError")
        return
    raise Violation("refuse/accepted", p["how"])


def k_selector(p):
    """a selector's clone behaves as the original: same parameters, unfitted"""
    s = make(("lr" if p["sel"] != "sst" else "sst", None, p["sel"], p["mask"]))
    c = must("clone-selector", clone, s)
    check("clone-selector/type", type(c) is type(s))
    check("clone-selector/params", plain_params(c) == plain_params(s), (plain_params(s), plain_params(c)))
    check("clone-selector/mask", c.mask_target_labels == s.mask_target_labels)


def k_nested(p):
    """a pipeline with a nested pipeline as a step can be fitted and agrees with
    the flat pipeline"""
    r = np.random.RandomState(p["seed"])
    X = r.randn(24, 3)
    sd = r.choice([1, -2], size=24)
    sd[:2], sd[-2:] = 1, -2
    y = np.where(sd > 0, np.arange(24) % 2, -1)
    y[np.flatnonzero(sd > 0)[:2]] = 0, 1
    inner = skada.make_da_pipeline(StandardScaler(), skada.CORALAdapter())
    pipe = skada.make_da_pipeline((p["name"], inner) if p["name"] else inner, LogisticRegression())
    must("nested-named" if p["name"] else "nested", pipe.fit, X, y, sample_domain=sd)
    ref = skada.make_da_pipeline(StandardScaler(), skada.CORALAdapter(), LogisticRegression()).fit(X, y, sample_domain=sd)
    m = sd < 0
    same_arr("nested/predict", pipe.predict_proba(X[m], sample_domain=sd[m]), ref.predict_proba(X[m], sample_domain=sd[m]), exact=False)


KINDS = dict(nested=k_nested, build=k_build, refuse=k_refuse, selector=k_selector)


def cases(rng, tier):
    for s in list(SEL) + ["sst"]:
        for m in (True, False):
            if s in ("target", "sst") and m:
                continue
            yield "selector", dict(sel=s, mask=m)

    def step(depth=0):
        r = rng.random()
        nm = rng.choice([None, None, None, f"u{rng.randrange(1000)}"])
        if r < .08:
            return ["sst", nm, None, True]
        if r < .18 and depth == 0:
            return ["nested", nm, [step(1) for _ in range(rng.randint(1, 3))], rng.random() < .5]
        k = rng.choice(list(EST))
        sel = rng.choice([None] * 4 + list(SEL))
        return [k, nm, sel, rng.random() < .5]

    def ok(s):
        # steps of a nested pipeline: the first one has to be a selector (always true after building)
        return True

    for _ in range(400 if tier == "quick" else 6000):
        specs = [step() for _ in range(rng.randint(1, 5))]
        yield "build", dict(specs=specs, default=rng.choice(["shared", "per_domain"]), cls=rng.random() < .3,
                            mask=rng.random() < .5, at=rng.randrange(20))
    for q in range(6):
        yield "nested", dict(seed=q, name=None)
        yield "nested", dict(seed=q, name="prep")
    for how in ("none", "name", "type", "call"):
        for k in EST:
            yield "refuse", dict(how=how, specs=[[k, None, None, True]])
