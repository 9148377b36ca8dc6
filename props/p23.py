"""P23: hyperparameters go where they belong, and fitting leaves the caller's data,
estimators and hyperparameters alone."""
import copy
import inspect
import pickle

import numpy as np
import skorch
import torch
from ot import da
from sklearn.base import BaseEstimator, clone
from sklearn.ensemble import BaggingRegressor, RandomForestClassifier
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.metrics import accuracy_score
from sklearn.neighbors import KernelDensity, KNeighborsClassifier
from sklearn.pipeline import Pipeline
from sklearn.svm import SVC

import skada
import skada._gradual_da as GR
import skada._mapping as MP
import skada._ot as OT
import skada._reweight as RW
import skada._self_labeling as SL
import skada._subspace as SB
import skada.base as SK
import skada.deep._adversarial as DA
import skada.deep._baseline as DN
import skada.deep._class_confusion as DC
import skada.deep._divergence as DD
import skada.deep._graph_alignment as DG
import skada.deep._optimal_transport as DO
import skada.deep.base as DB
import skada.metrics as ME
import skada.model_selection as MS
import skada.transformers as TR
from dv.prop import Scn, Skip, Violation, opt
from dv.core import S, ctx, z3
from dv.spec import *
from props.util import *

ID = "P23"
LEVEL = "proof"


# ---------------------------------------------------------------- the table
def forest(**k):
    return RandomForestClassifier(n_estimators=3, random_state=0, **k)


class Shifted:
    """a base estimator whose fit takes an option"""

    def fit(self, X, y, sample_weight=None, shift=0.0):
        super().fit(X, y, sample_weight=sample_weight)
        self.intercept_ = self.intercept_ + shift
        return self


class ShiftedRidge(Shifted, Ridge):
    pass


class ShiftedLogistic(Shifted, LogisticRegression):
    pass


METRICS = ["sqeuclidean", "cityblock"]
NORMS = [None, "median", "max"]
# class -> (module, factory, {parameter: valid values}, kind)
TABLE = dict(
    OTMappingAdapter=(MP, "OTMapping", dict(metric=METRICS, norm=NORMS, max_iter=[5000, 20000]), "map"),
    EntropicOTMappingAdapter=(MP, "EntropicOTMapping", dict(metric=METRICS, norm=NORMS, max_iter=[50, 200], reg_e=[1.0, 5.0], tol=[1e-8, 1e-3]), "map"),
    ClassRegularizerOTMappingAdapter=(MP, "ClassRegularizerOTMapping", dict(metric=METRICS, norm=["lpl1", "l1l2"], max_iter=[3, 5], max_inner_iter=[20, 40], reg_e=[1.0, 4.0], reg_cl=[.1, .5], tol=[1e-8, 1e-4]), "map"),
    LinearOTMappingAdapter=(MP, "LinearOTMapping", dict(reg=[1e-3, .5], bias=[True, False]), "map"),
    MultiLinearMongeAlignmentAdapter=(MP, "MultiLinearMongeAlignment", dict(reg=[1e-3, .5], bias=[True, False], test_time=[True, False]), "map"),
    CORALAdapter=(MP, "CORAL", dict(reg=["auto", .2, .7], assume_centered=[True, False]), "map"),
    MMDLSConSMappingAdapter=(MP, "MMDLSConSMapping", dict(gamma=[.3, 1.], reg_k=[1e-3, 1e-2], reg_m=[1e-3, 1e-1], tol=[1e-2, 1e-1], max_iter=[2, 3]), "map"),
    DensityReweightAdapter=(RW, "DensityReweight", dict(weight_estimator=[None, KernelDensity(bandwidth=.7)]), "weight"),
    GaussianReweightAdapter=(RW, "GaussianReweight", dict(reg=["auto", .2, .9]), "weight"),
    DiscriminatorReweightAdapter=(RW, "DiscriminatorReweight", dict(domain_classifier=[None, LogisticRegression(C=.1), forest()]), "weight"),
    KLIEPReweightAdapter=(RW, "KLIEPReweight", dict(gamma=[.5, [.1, 1.], "auto"], cv=[2, 3], n_centers=[4, 100], tol=[1e-6, 1e-2], max_iter=[20, 50], random_state=[0, 7]), "weight"),
    NearestNeighborReweightAdapter=(RW, "NearestNeighborReweight", dict(n_neighbors=[1, 2], weights=["uniform", "distance"], algorithm=["auto", "brute"], leaf_size=[10, 30], p=[1, 2], metric=["minkowski", "chebyshev"], metric_params=[None], n_jobs=[None, 1], laplace_smoothing=[True, False]), "weight"),
    KMMReweightAdapter=(RW, "KMMReweight", dict(kernel=["rbf", "poly", "linear"], gamma=[None, .3], degree=[2, 3], coef0=[1, 0], B=[3., 1000.], eps=[None, .5], tol=[1e-6, 1e-3], max_iter=[50, 100], smooth_weights=[True, False], solver=["frank-wolfe", "scipy"]), "weight"),
    MMDTarSReweightAdapter=(RW, "MMDTarSReweight", dict(gamma=[.3, 1.], reg=[1e-3, 1e-1], tol=[1e-6, 1e-2], max_iter=[20, 50]), "weight"),
    SubspaceAlignmentAdapter=(SB, "SubspaceAlignment", dict(n_components=[None, 1, 2], random_state=[0, 5]), "map"),
    TransferComponentAnalysisAdapter=(SB, "TransferComponentAnalysis", dict(kernel=["rbf", "linear"], n_components=[None, 1, 2], mu=[.1, 1.]), "map"),
    TransferJointMatchingAdapter=(SB, "TransferJointMatching", dict(n_components=[None, 1, 2], tradeoff=[.01, .5], max_iter=[2, 5], kernel=["rbf", "linear"], tol=[.01, .1], verbose=[False]), "map"),
    TransferSubspaceLearningAdapter=(SB, "TransferSubspaceLearning", dict(n_components=[None, 1, 2], base_method=["pca", "flda", "lpp"], length_scale=[2, 1.5], mu=[.1, 1.], reg=[.01, .2], max_iter=[3, 5], tol=[.01, .1], verbose=[False]), "map"),
    OTLabelPropAdapter=(OT, "OTLabelProp", dict(metric=METRICS, reg=[0, 1., 5.], n_iter_max=[200, 2000]), "label"),
    JCPOTLabelPropAdapter=(OT, "JCPOTLabelProp", dict(metric=METRICS, reg=[1, 5.], max_iter=[5, 10], tol=[1e-9, 1e-3], verbose=[False]), "label"),
    JDOTRegressor=(OT, None, dict(base_estimator=[None, Ridge(alpha=.3), ShiftedRidge(alpha=.3)], alpha=[.5, .2], n_iter_max=[2, 4], tol=[1e-5, 1e-2], verbose=[False], shift=[.2, .7]), "reg"),
    JDOTClassifier=(OT, None, dict(base_estimator=[None, LogisticRegression(C=.2), ShiftedLogistic(C=.2)], alpha=[.5, .2], metric=["multinomial", "hinge"], n_iter_max=[2, 4], tol=[1e-5, 1e-2], verbose=[False], thr_weights=[1e-6, 1e-3], shift=[.2, .7]), "clf"),
    GradualEstimator=(GR, None, dict(alpha=[.5, 1], n_steps=[1, 2], ot_method=[None, da.EMDTransport(), da.SinkhornTransport(reg_e=2.)], base_estimator=[LogisticRegression(C=.4)], advanced_ot_plan_sampling=[True, False], save_estimators=[True, False], save_intermediate_data=[True, False]), "clf"),
    DASVMClassifier=(SL, None, dict(base_estimator=[None, SVC(kernel="linear", C=.4)], k=[1, 3], max_iter=[2, 5], save_estimators=[True, False], save_indices=[True, False]), "clf"),
    Subsampler=(TR, None, dict(train_size=[4, 7], random_state=[0, 5]), "sub"),
    DomainSubsampler=(TR, None, dict(train_size=[6, 8], random_state=[0, 5]), "sub"),
    StratifiedDomainSubsampler=(TR, None, dict(train_size=[6, 8], random_state=[0, 5]), "sub"),
)
# passed on to the fit of the base estimator (the last of the table)
SOLVER = dict(JDOTRegressor=("shift",), JDOTClassifier=("shift",))
# these have hyperparameters and are not fitted
PLAIN = dict(
    SourceTargetShuffleSplit=(MS, dict(n_splits=[1, 3], test_size=[None, .2, 3], train_size=[None, .4], random_state=[0, 3])),
    LeaveOneDomainOut=(MS, dict(max_n_splits=[1, 3], test_size=[None, .2, 3], train_size=[None, .4], random_state=[0, 3])),
    StratifiedDomainShuffleSplit=(MS, dict(n_splits=[1, 3], test_size=[None, .2, 3], train_size=[None, .4], random_state=[0, 3])),
    DomainShuffleSplit=(MS, dict(n_splits=[1, 3], test_size=[None, .2, 3], train_size=[None, .4], random_state=[0, 3], under_sampling=[.5, .8, 0, 1])),
)


# ---------------------------------------------------------------- comparing
def same(a, b):
    """the same value: identical, or equal in kind and content"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if hasattr(a, "get_params"):
        p, q = a.get_params(deep=False), b.get_params(deep=False)
        return set(p) == set(q) and all(same(p[k], q[k]) for k in p)
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return bool(a == b)


def state(v):
    """what an object holds, fitted attributes included"""
    if isinstance(v, (BaseEstimator, da.BaseEstimator)):
        return type(v), {k: state(x) for k, x in vars(v).items()}
    if isinstance(v, dict):
        return {k: state(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [state(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


def close(key, a, b):
    """the same outputs up to rounding"""
    if isinstance(a, tuple) or isinstance(a, list):
        check(key, isinstance(b, (tuple, list)) and len(a) == len(b), "other shape of output")
        for x, y in zip(a, b):
            close(key, x, y)
    elif isinstance(a, dict):
        check(key, set(a) == set(b), f"{set(a)} {set(b)}")
        for k in a:
            close(key, a[k], b[k])
    elif a is None or b is None:
        check(key, a is b, f"{a!r:.200} {b!r:.200}")
    else:
        a, b = np.asarray(a), np.asarray(b)
        same_arr(key, a, b, exact=a.dtype.kind not in "fc", tol=1e-7)


# ------------------------------------------------------------------- runtime
def make(name, params, cls=None):
    mod, fac, ps, kind = TABLE[name]
    kw = {k: copy.deepcopy(ps[k][v]) for k, v in params.items()}
    kw = {k: v for k, v in kw.items() if not (k == "ot_method" and v is None)}
    return getattr(mod, name), kw


def k_ctor(p):
    name = p["name"]
    if name in PLAIN:
        mod, ps = PLAIN[name]
        kw = {k: ps[k][v] for k, v in p["params"].items()}
        o = must(f"{name}/constructor", getattr(mod, name), **kw)
        for k, v in kw.items():
            check(f"{name}/kept", getattr(o, k) is v, f"{k}={v!r} became {getattr(o, k)!r}")
        return
    cls, kw = make(name, p["params"])
    keep = {k: copy.deepcopy(v) for k, v in kw.items()}
    kept = lambda o, k: o.get_params(deep=False).get(k) if k in SOLVER.get(name, ()) else getattr(o, k)
    o = must(f"{name}/constructor", cls, **kw)
    for k, v in kw.items():
        if v is not None:
            check(f"{name}/kept", kept(o, k) is v, f"{k}={v!r} became otherwise")
    got = must(f"{name}/get_params", o.get_params, deep=False)
    for k, v in kw.items():
        if v is not None:
            check(f"{name}/get_params", got[k] is v, f"{k}={v!r} reported as {got[k]!r}")
    c = must(f"{name}/clone", clone, o)
    check(f"{name}/clone", same(c.get_params(deep=False), got), f"{c!r} of {o!r}")
    _, kw2 = make(name, p["other"])
    r = must(f"{name}/set_params", c.set_params, **kw2)
    check(f"{name}/set_params", r is c and all(kept(c, k) is v for k, v in kw2.items()))
    check(f"{name}/shared", all(same(v, keep[k]) for k, v in kw.items()))
    # nothing is shared with the next one
    d1 = {k: v for k, v in kw.items() if not hasattr(v, "get_params")}
    a, b = cls(**d1), cls(**d1)
    for k in inspect.signature(cls).parameters:
        if k in ("kwargs",):
            continue
        x, y = getattr(a, k), getattr(b, k)
        check(f"{name}/shared-default", k in d1 or x is not y or not hasattr(x, "set_params"), f"two {name} share their {k}")


BASES = [("log", lambda: LogisticRegression(C=.3).set_fit_request(sample_weight=True)), ("svc", lambda: SVC(kernel="linear", C=.6).set_fit_request(sample_weight=True))]


def k_factory(p):
    name = p["name"]
    mod, fac, ps, kind = TABLE[name]
    f = getattr(skada, fac)
    cls, kw = make(name, p["params"])
    kw = {k: v for k, v in kw.items() if k in inspect.signature(f).parameters}
    base = dict(BASES).get(p["base"])
    base = base() if base else None
    pipe = must(f"{fac}/builds", f, **kw, **({} if base is None else dict(base_estimator=base)))
    steps = [s.base_estimator for _, s in pipe.steps]
    check(f"{fac}/steps", len(steps) == 2 and type(steps[0]) is cls, steps)
    for k, v in kw.items():
        if v is not None:
            check(f"{fac}/hyperparameters", same(getattr(steps[0], k), v), f"{k}={v!r} became {getattr(steps[0], k)!r}")
    ref = must(f"{name}/constructor", cls, **kw)
    if p["all"]:
        check(f"{fac}/hyperparameters", same(steps[0], ref), f"{steps[0]!r} expected {ref!r}")
    if base is not None:
        check(f"{fac}/base-estimator", same(steps[1], base), f"{steps[1]!r} expected {base!r}")
    again = f(**kw, **({} if base is None else dict(base_estimator=clone(base))))
    before = again.get_params()
    fresh = again.steps[1][1].base_estimator.get_params()
    # each call gives an estimator of its own
    nm = pipe.steps[1][0]
    q = {k: v for k, v in fresh.items() if k == "C" or k == "n_neighbors"}
    for k, v in q.items():
        must(f"{fac}/set_params", pipe.set_params, **{f"{nm}__{k}": v * 2})
        check(f"{fac}/set_params", getattr(pipe.steps[1][1].base_estimator, k) == v * 2)
        check(f"{fac}/shared", same(getattr(again.steps[1][1].base_estimator, k), v), f"{k} of one {fac} changes with another's")
        if base is None:
            new = f(**kw)
            check(f"{fac}/shared", same(getattr(new.steps[1][1].base_estimator, k), v), f"the next {fac} starts with {k} of the last")
    for k, (a, b) in {k: (getattr(ref, k), [v for v in ps[k]][-1]) for k in kw}.items():
        must(f"{fac}/set_params", pipe.set_params, **{f"{pipe.steps[0][0]}__{k}": b})
        check(f"{fac}/set_params", getattr(pipe.steps[0][1].base_estimator, k) is b)


def outputs(name, kind, o, d, seed=0):
    """what the fitted one answers"""
    np.random.seed(seed)
    X, y, sd, Xn, yn, sdn = d
    if kind == "map":
        return [np.asarray(o.transform(Xn, sample_domain=sdn, allow_source=True)), np.asarray(o.transform(X, sample_domain=sd, allow_source=True))]
    if kind == "weight":
        return np.asarray(o.compute_weights(X, y, sample_domain=sd))
    if kind in ("clf", "reg"):
        r = [o.predict(Xn)]
        for m in ("predict_proba", "decision_function"):
            if hasattr(o, m) and name != "DASVMClassifier":
                try:
                    r.append(getattr(o, m)(Xn))
                except (AttributeError, NotImplementedError, ValueError):
                    pass
        return r
    return None


def fit(name, kind, o, d, seed=0):
    np.random.seed(seed)
    X, y, sd = d[:3]
    if kind in ("label", "sub"):
        return o.fit_transform(X, y, sample_domain=sd)
    try:
        r = o.fit(X, y, sample_domain=sd)
    except ValueError as exc:
        if "class" in str(exc) and name in ("DASVMClassifier", "GradualEstimator"):
            raise Skip()  # a step may be left with one class
        raise
    check(f"{name}/fit-returns", r is o, f"{r!r}")
    return None


def k_fit(p):
    import warnings

    warnings.simplefilter("ignore")
    name = p["name"]
    kind = TABLE[name][3]
    cls, kw = make(name, p["params"])
    d1, d2 = [tuple(np.asarray(p[f"d{q}"][k]) for k in ("X", "y", "sd", "Xn", "yn", "sdn")) for q in (1, 2)]
    keep = [a.copy() for a in d1 + d2]
    hold = {k: state(v) for k, v in kw.items()}
    o = must(f"{name}/constructor", cls, **kw)
    held = o.get_params(deep=False)  # the defaults too

    def whole(what):
        now = o.get_params(deep=False)
        for k in held:
            check(f"{name}/hyperparameter-changed", k in now and now[k] is held[k], f"{what} replaced {k}: {held[k]!r} became {now.get(k)!r}")
        for a, b in zip(d1 + d2, keep):
            check(f"{name}/data-changed", same(a, b), f"{what} changed the caller's array {b.tolist()!r:.200} to {a.tolist()!r:.200}")
        for k, v in kw.items():
            check(f"{name}/hyperparameter-changed", v is None or now.get(k) is v, f"{what} replaced {k}")
            if not isinstance(v, da.BaseTransport):  # its fitted state is what it is made for
                check(f"{name}/hyperparameter-changed", same(state(v), hold[k]), f"{what} changed {k}")
            else:
                v, w = (dict(q.get_params(), limit_max=None) for q in (v, TABLE[name][2][k][p["params"][k]]))
                check(f"{name}/hyperparameter-changed", same(v, w), f"{what} changed {k}: {v} was {w}")

    a1 = must(f"{name}/fit", fit, name, kind, o, d1)
    whole("fit")
    r1 = must(f"{name}/use", outputs, name, kind, o, d1)
    whole("use")
    close(f"{name}/repeatable", must(f"{name}/use", outputs, name, kind, o, d1), r1)
    if kind in ("map", "weight"):
        ft = cls(**kw).fit_transform if hasattr(cls, "fit_transform") else None
        if ft:
            np.random.seed(0)
            must(f"{name}/fit_transform", ft, d1[0], d1[1], sample_domain=d1[2])
            whole("fit_transform")
    # a copy or a pickle answers the same
    for c in (copy.deepcopy(o), pickle.loads(pickle.dumps(o))):
        close(f"{name}/copy", must(f"{name}/copy", outputs, name, kind, c, d1), r1)
    # fitted again it is as good as new
    new = clone(o)
    a2 = must(f"{name}/fit", fit, name, kind, o, d2)
    b2 = must(f"{name}/fit", fit, name, kind, new, d2)
    close(f"{name}/refit", a2, b2)
    close(f"{name}/refit", must(f"{name}/use", outputs, name, kind, o, d2), must(f"{name}/use", outputs, name, kind, new, d2))
    whole("second fit")
    # set_params is as good as the constructor
    s = clone(o)
    _, kw2 = make(name, p["other"])
    must(f"{name}/set_params", s.set_params, **kw2)
    t = must(f"{name}/constructor", cls, **{**{k: copy.deepcopy(v) for k, v in kw.items()}, **kw2})
    a, b = must(f"{name}/fit", fit, name, kind, s, d1), must(f"{name}/fit", fit, name, kind, t, d1)
    close(f"{name}/set_params-fit", a, b)
    close(f"{name}/set_params-fit", must(f"{name}/use", outputs, name, kind, s, d1), must(f"{name}/use", outputs, name, kind, t, d1))


def k_seed(p):
    """a fixed random_state: numpy's global generator plays no part, and is left alone"""
    import warnings

    warnings.simplefilter("ignore")
    name = p["name"]
    kind = TABLE[name][3]
    d = tuple(np.asarray(p["d1"][k]) for k in ("X", "y", "sd", "Xn", "yn", "sdn"))
    res = []
    for g in (1, 2):
        cls, kw = make(name, p["params"])
        o = must(f"{name}/constructor", cls, **kw)
        a = must(f"{name}/fit", fit, name, kind, o, d, g)
        res.append((a, must(f"{name}/use", outputs, name, kind, o, d, g)))
    close(f"{name}/global-seed", res[0], res[1])


def k_deep(p):
    """domain classifiers made by the methods"""
    import warnings

    warnings.simplefilter("ignore")
    n, K, M = p["n"], p["K"], p["M"]
    for name, more, want in (("DANN", {}, n), ("SPA", {}, n), ("CDAN", dict(n_classes=K, max_features=M), min(n * K, M)), ("MDD", dict(n_classes=K), n)):
        f = getattr(DG if name == "SPA" else DA, name)
        mk = lambda: must(f"{name}/default-classifier", f, torch.nn.Linear(2, K), "layer", num_features=n, **more)
        a, b = mk(), mk()
        c, d = (q.module__domain_classifier for q in (a, b))
        check(f"{name}/default-classifier", c is not d)
        out = must(f"{name}/default-classifier", c, torch.zeros(3, want))
        check(f"{name}/default-classifier-shape", tuple(out.shape) == ((3, K) if name == "MDD" else (3,)), tuple(out.shape))
        try:
            f(torch.nn.Linear(2, K), "layer", **more)
        except ValueError:
            continue
        raise Violation(f"{name}/unknown-size", "accepted without the number of features")


def real(k, i):
    """a value for hyperparameter k of a deep method, another for each i"""
    if k == "base_criterion":
        return torch.nn.CrossEntropyLoss(label_smoothing=.01 * i)
    if k == "domain_criterion":
        return torch.nn.BCELoss()
    if k == "target_criterion":
        return torch.nn.CrossEntropyLoss()
    if k in ("domain_classifier", "disc_classifier"):
        return torch.nn.Linear(2, 1)
    if k == "target_kmeans":
        return None
    if k == "sigmas":
        return [.1 * i, 1. + i]
    if k == "assume_centered":
        return bool(i % 2)
    if k in ("max_epochs", "max_features", "K"):
        return 3 + i
    if k in ("memory_features", "memory_outputs"):
        return torch.zeros(1, i)
    if k == "device":
        return "cpu"
    return .1 + .01 * i


def k_method(p):
    """nets of the deep methods"""
    name = p["name"]
    mod, loss, at_, kw_, more = METHODS[name]
    module = torch.nn.Linear(2, 2)
    kw = {k: real(k, i) for k, i in p["params"].items()}
    mine = [skorch.callbacks.EpochTimer() for _ in range(p["callbacks"])]
    if mine:
        kw["callbacks"] = mine
    for q in ("domain_classifier", "disc_classifier"):
        if q in {**at_, **kw_} and q not in kw:
            kw[q] = real(q, 0)  # a net of its own is k_deep's
    sig = inspect.signature(getattr(mod, name)).parameters
    nets = [must(f"{name}/builds", getattr(mod, name), module, "layer", **kw) for _ in range(2)]
    for net in nets:
        g = lambda k: getattr(net, k, None)
        check(f"{name}/module", g("module__base_module") is module and g("module__layer_name") == "layer")
        l, b = g("criterion__adapt_criterion"), g("criterion__base_criterion")
        check(f"{name}/loss", type(l).__name__ == loss, type(l))
        check(f"{name}/base-criterion", b is kw["base_criterion"] if "base_criterion" in kw else type(b) is torch.nn.CrossEntropyLoss)
        for q, v in at_.items():
            if q in kw:
                check(f"{name}/hyperparameters", getattr(l, v, None) is kw[q], f"{q}={kw[q]!r} became {getattr(l, v, None)!r}")
            elif sig[q].default is not None:
                check(f"{name}/defaults", same(getattr(l, v, None), sig[q].default), f"{q}={sig[q].default!r} became {getattr(l, v, None)!r}")
        for q, v in {**kw_, "lr": "lr", "device": "device"}.items():
            if q in kw:
                check(f"{name}/hyperparameters", g(v) is kw[q], f"{q}={kw[q]!r} became {g(v)!r}")
        for q, v in more.items():
            check(f"{name}/net", type(g(q)) is type(v) and g(q) == v, f"{q} is {g(q)!r}")
        if mine or name in CALLBACKS:
            c = g("callbacks")
            check(f"{name}/callbacks", isinstance(c, list) and all(x is y for x, y in zip(c, mine)) and [type(x).__name__ for x in c[len(mine):]] == CALLBACKS.get(name, []), c)
            check(f"{name}/callbacks", len(mine) == p["callbacks"], "the list given was changed")
    a, b = nets
    check(f"{name}/shared", a.criterion__adapt_criterion is not b.criterion__adapt_criterion and (name not in CALLBACKS or a.callbacks[-1] is not b.callbacks[-1]))


def k_made(p):
    """constructors of the deep losses and of the scorers"""
    name = p["name"]
    if name in LOSSES:
        mod, attrs = LOSSES[name]
        kw = {k: real(k, i) for k, i in p["params"].items()}
        o = must(f"{name}/constructor", getattr(mod, name), **kw)
        for k, v in kw.items():
            if v is not None:
                check(f"{name}/kept", getattr(o, attrs[k], None) is v, f"{k}={v!r} became {getattr(o, attrs[k], None)!r}")
        return
    o = must(f"{name}/constructor", getattr(ME, name), **p["kw"])
    for k, v in p["kw"].items():
        if k == "greater_is_better":
            check(f"{name}/direction", o._sign == (1 if v else -1), o._sign)
        else:
            check(f"{name}/kept", getattr(o, SCORERS[name][k]) == v, f"{k}={v!r} became {getattr(o, SCORERS[name][k])!r}")
    if "greater_is_better" not in p["kw"]:
        check(f"{name}/direction", o._sign == (-1 if name in ("PredictionEntropyScorer", "DeepEmbeddedValidation") else 1), o._sign)


SC_VALUES = dict(reduction=["none", "mean", "sum"], T=[.5, 2.], random_state=[0, 3], alpha=[.3, .7], ice_type=["both", "intra", "inter"], p=[2, 4], threshold=[2, 5])

KINDS = dict(ctor=k_ctor, factory=k_factory, fit=k_fit, seed=k_seed, deep=k_deep, method=k_method, made=k_made)


def data(rng, r, kind, name):
    n, m, d = rng.randint(9, 14), rng.randint(8, 12), rng.randint(2, 3)
    pool = rng.choice([([1], [-2]), ([0, 2], [-1, -3]), ([5], [-7, -1])])
    if name == "StratifiedDomainSubsampler":
        pool = ([1], [-2])
    if name in ("JCPOTLabelPropAdapter",):
        pool = rng.choice([([1], [-2]), ([1, 2], [-3])])
    sd = np.r_[np.resize(pool[0], n), np.resize(pool[1], m)]
    q = (np.arange(n + m) // len(pool[0])) % 2
    X = r.randn(n + m, d) + q[:, None] * 1.5 + np.where(sd < 0, .7, 0)[:, None]
    if kind == "reg":
        y = X.sum(1) + .1 * r.randn(n + m)
    else:
        y = q.astype(int)
    o = r.permutation(n + m) if rng.random() < .8 else np.arange(n + m)
    X, y, sd = X[o], y[o], sd[o]
    if kind != "reg" and name not in ("StratifiedDomainSubsampler", "MMDTarSReweightAdapter") or rng.random() < 0:
        y = np.where(sd >= 0, y, -1)
    if kind == "map" or kind == "clf":
        nn = 5
        Xn = r.randn(nn, d) + .7
        sdn = np.array([pool[1][0]] * nn)
    else:
        Xn, sdn = r.randn(5, d), np.full(5, pool[1][0])
    return dict(X=X, y=y, sd=sd, Xn=Xn, yn=np.zeros(5, int), sdn=sdn)


def pick(rng, name, some, values=False):
    ps, sig = (TABLE[name][2] if name in TABLE else PLAIN[name][1]), inspect.signature(getattr((TABLE.get(name) or PLAIN[name])[0], name)).parameters
    need = {k for k in ps if k in sig and sig[k].default is inspect.Parameter.empty or k == "random_state"}
    q = {k: rng.randrange(len(v)) for k, v in ps.items() if not some or rng.random() < .6 or not values and k in need}
    if values:  # None stands for the default in constructors only
        q = {k: v for k, v in q.items() if ps[k][v] is not None}
    for k in SOLVER.get(name, ()):
        if values or rng.random() < .5:
            q.pop(k, None)
    return q


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(12 if tier == "quick" else 60):
        for name, (mod, fac, ps, kind) in TABLE.items():
            q = pick(rng, name, rng.random() < .7)
            o = pick(rng, name, True, True)
            if any(k in o for k in SOLVER.get(name, ())) and not any(k in q for k in SOLVER[name]):
                o = {k: v for k, v in o.items() if k not in SOLVER[name]}
            if any(k in q for k in SOLVER.get(name, ())):
                q["base_estimator"] = 2
                o.pop("base_estimator", None)
            yield "ctor", dict(name=name, params=q, other=o)
            if fac:
                every = rng.random() < .5
                yield "factory", dict(name=name, params=pick(rng, name, not every), all=every, base=rng.choice(["log", "svc", "none"]))
            yield "fit", dict(name=name, params=q, other=o, d1=data(rng, r, kind, name), d2=data(rng, r, kind, name))
            if "random_state" in ps:
                yield "seed", dict(name=name, params=dict(pick(rng, name, False)), d1=data(rng, r, kind, name))
        yield "deep", dict(n=rng.randint(1, 6), K=rng.randint(2, 4), M=rng.choice([4, 4096]))
        for name, (_, _, at_, kw_, _) in METHODS.items():
            qs = [q for q in {**at_, **kw_} if q != "target_kmeans"] + ["base_criterion", "lr", "device"]
            yield "method", dict(name=name, params={q: i for i, q in enumerate(rng.sample(qs, len(qs)), 1) if rng.random() < .7}, callbacks=rng.choice([0, 0, 1, 2]))
        for name, (_, attrs) in LOSSES.items():
            yield "made", dict(name=name, params={q: i for i, q in enumerate(attrs, 1) if q == "max_epochs" or rng.random() < .7})
        for name, attrs in SCORERS.items():
            kw = {k: rng.choice(SC_VALUES[k]) for k in attrs if k in SC_VALUES and rng.random() < .8}
            if rng.random() < .6:
                kw["greater_is_better"] = rng.random() < .5
            yield "made", dict(name=name, kw=kw)
        for name in PLAIN:
            yield "ctor", dict(name=name, params=pick(rng, name, rng.random() < .7))



# ------------------------------------------------------------------ contracts
class Option:
    """a hyperparameter: any value; without a truth value, like an ensemble that is
    not fitted yet"""

    _dv_native = True

    def __init__(self, name, **attrs):
        self.name = name
        self.__dict__.update(attrs)

    def __repr__(self):
        return f"<{self.name}>"

    def __len__(self):
        exc = AttributeError("estimators_")
        exc._dv_raised = True
        raise exc


class Est(Option):
    """an estimator"""

    def fit(self, *a, **k):
        raise AssertionError("fitted")

    predict = transform = fit

    def set_params(self, **kw):
        self.told = {**getattr(self, "told", {}), **kw}
        return self

    def get_params(self, deep=True):
        return dict(getattr(self, "told", {}))


CALLS = []


def estimators(k):
    return k in ("base_estimator", "weight_estimator", "domain_classifier", "ot_method", "source_estimator", "target_estimator")


def fresh_real(name):
    return S(ctx().fresh("f", name))


def choose(vs):
    for v in vs[:-1]:
        if ctx().branch(ctx().fresh("b", "pick")):
            return v
    return vs[-1]


def reals(name, lo, hi):
    def f():
        v = fresh_real(name)
        assume(And(v >= lo, v <= hi))
        return v
    return f


# the values a hyperparameter is limited to
LIMITED = {("KMMReweightAdapter", "kernel"): ["rbf", "poly", "linear", "cosine"], ("TransferSubspaceLearningAdapter", "base_method"): ["pca", "flda", "lpp"],
           ("TransferSubspaceLearningAdapter", "reg"): reals("reg", 0, 1), ("DomainShuffleSplit", "under_sampling"): reals("under_sampling", 0, 1)}


def values(name, params):
    kw = {}
    for k in params:
        v = LIMITED.get((name, k))
        kw[k] = v() if callable(v) else choose(v) if v else Est(k) if estimators(k) else Option(k)
    return kw


def params_of(cls):
    return [k for k, v in inspect.signature(cls).parameters.items() if v.kind is not v.VAR_KEYWORD]


def b_ctor(cls):
    def b():
        kw = values(cls.__name__, params_of(cls))
        o = cls.__new__(cls)
        return (o,), dict(kw), dict(o=o, kw=kw)
    return b


def p_ctor(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    for k, v in I["kw"].items():
        P(k + " is kept as given", getattr(I["o"], k, None) is v)
        if isinstance(v, Est):
            P(k + " is left as it is", not hasattr(v, "told"))


def b_default(cls, k):
    def b():
        kw = values(cls.__name__, [q for q in params_of(cls) if q != k])
        a, b_ = cls.__new__(cls), cls.__new__(cls)
        return (a, b_), dict(kw), dict(a=a, b=b_, k=k)
    return b


def c_twice(it, a, b, **kw):
    it.call(type(a).__init__, (a,), dict(kw))
    it.call(type(b).__init__, (b,), dict(kw))


def p_default(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    x, y = (getattr(I[q], I["k"], None) for q in "ab")
    P("a default of its own each time", x is None and y is None or x is not y or not hasattr(x, "set_params"))


# default base estimators: the kind, and whether it asks for the weights
BASE = dict(OTMapping=SVC, EntropicOTMapping=SVC, ClassRegularizerOTMapping=SVC, LinearOTMapping=SVC, MultiLinearMongeAlignment=LogisticRegression, CORAL=SVC, MMDLSConSMapping=SVC,
            DensityReweight=LogisticRegression, GaussianReweight=LogisticRegression, DiscriminatorReweight=LogisticRegression, KLIEPReweight=LogisticRegression, NearestNeighborReweight=LogisticRegression,
            KMMReweight=LogisticRegression, MMDTarSReweight=SVC, SubspaceAlignment=SVC, TransferComponentAnalysis=SVC, TransferJointMatching=SVC, TransferSubspaceLearning=KNeighborsClassifier,
            OTLabelProp=SVC, JCPOTLabelProp=LogisticRegression)
WEIGHTED = {"DensityReweight", "GaussianReweight", "DiscriminatorReweight", "KLIEPReweight", "NearestNeighborReweight", "KMMReweight", "MMDTarSReweight", "OTLabelProp"}


class Pipe:
    _dv_native = _dv_sym = True


def m_pipe(*a, **k):
    p = Pipe()
    CALLS.append((p, a, k))
    return p


def b_fac(name, fac, given):
    def b():
        CALLS.clear()
        f = getattr(skada, fac)
        kw = values(name, [k for k in inspect.signature(f).parameters if k != "base_estimator"])
        base = Est("base_estimator") if given else None
        if given:
            kw["base_estimator"] = base
        return (), dict(kw), dict(kw=kw, base=base, name=name, fac=fac, cls=getattr(TABLE[name][0], name))
    return b


def c_two(fac):
    """twice: each call gives a pipeline of its own"""
    def c(it, **kw):
        return it.call(getattr(skada, fac), (), dict(kw)), it.call(getattr(skada, fac), (), dict(kw))
    return c


def p_fac(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    P("two pipelines", len(CALLS) == 2 and out[1][0] is CALLS[0][0] and out[1][1] is CALLS[1][0])
    bases = []
    for _, a, k in CALLS:
        P("an adapter, then the estimator", len(a) == 2 and not k and type(a[0]) is I["cls"])
        for q, v in I["kw"].items():
            if q != "base_estimator":
                P(q + " reaches the adapter", getattr(a[0], q, None) is v)
        if I["base"] is not None:
            P("the estimator given", a[1] is I["base"] and not hasattr(a[1], "told"))
        else:
            P("the documented estimator", type(a[1]) is BASE[I["fac"]])
            r = a[1].get_metadata_routing().fit.requests.get("sample_weight") if hasattr(a[1], "get_metadata_routing") else None
            P("which asks for the weights", r is True or I["fac"] not in WEIGHTED)
            bases.append(a[1])
        P("hyperparameters the factory has no word for: the adapter's defaults", all(getattr(a[0], q) == v.default for q, v in inspect.signature(I["cls"]).parameters.items()
                                                                                    if q not in I["kw"] and v.default is not v.empty))
    P("nothing shared", CALLS[0][1][0] is not CALLS[1][1][0] and (not bases or bases[0] is not bases[1]))


# ------------------------------------------------------------------- scorers
SCORERS = dict(SupervisedScorer=dict(scoring="_score_func"), ImportanceWeightedScorer=dict(weight_estimator="weight_estimator", scoring="_score_func"), PredictionEntropyScorer=dict(reduction="reduction"),
               SoftNeighborhoodDensity=dict(T="T"), DeepEmbeddedValidation=dict(domain_classifier="domain_classifier", loss_func="_loss_func", random_state="random_state"),
               CircularValidation=dict(source_scorer="source_scorer"), MixValScorer=dict(alpha="alpha", ice_type="ice_type", scoring="_score_func", random_state="random_state"), MaNoScorer=dict(p="p", threshold="threshold"))
SC_LIMITED = {"reduction": ["none", "mean", "sum"], "ice_type": ["both", "intra", "inter"]}


class Fun(Option):
    def __call__(self, *a, **k):
        raise AssertionError("called")


def b_scorer(name, high):
    def b():
        cls = getattr(ME, name)
        kw = {}
        for k in SCORERS[name]:
            v = SC_LIMITED.get(k)
            kw[k] = choose(v) if v else fresh_real("p") if k == "p" else Fun(k)
            if k == "p":
                assume(kw[k] > 0)
        kw["kwargs"] = extra = {"option": Option("extra")}
        o = cls.__new__(cls)
        return (o,), dict(kw, **({} if high is None else dict(greater_is_better=high))), dict(o=o, kw=kw, name=name, high=high, extra=extra)
    return b


def p_scorer(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    o = I["o"]
    for k, a in SCORERS[I["name"]].items():
        P(k + " is kept as given", getattr(o, a, None) is I["kw"][k])
    high = I["high"] if I["high"] is not None else I["name"] not in ("PredictionEntropyScorer", "DeepEmbeddedValidation")
    P("the direction asked for", o._sign == (1 if high else -1))
    P("the options of the score", o._kwargs is I["extra"])


# ---------------------------------------------------------------- deep methods
NETS = []


class Net:
    _dv_native = _dv_sym = True


def m_net(*a, **k):
    n = Net()
    NETS.append((n, a, k))
    return n


# loss -> {hyperparameter: where it is kept}
LOSSES = dict(DeepCoralLoss=(DD, dict(assume_centered="assume_centered")), DANLoss=(DD, dict(sigmas="sigmas", eps="eps")),
              CANLoss=(DD, dict(distance_threshold="distance_threshold", class_threshold="class_threshold", sigmas="sigmas", target_kmeans="target_kmeans", eps="eps")),
              DANNLoss=(DA, dict(domain_criterion="domain_criterion_")), CDANLoss=(DA, dict(domain_criterion="domain_criterion_")), MDDLoss=(DA, dict(gamma="gamma")),
              ModifiedCrossEntropyLoss=(DA, dict(smoothing="smoothing")), MCCLoss=(DC, dict(T="T", eps="eps")), DeepJDOTLoss=(DO, dict(reg_dist="reg_dist", reg_cl="reg_cl", target_criterion="criterion_")),
              SPALoss=(DG, {**{q: q for q in ("max_epochs", "memory_features", "memory_outputs", "K", "reg_adv", "reg_gsa", "reg_nap")}, "domain_criterion": "domain_criterion_"}))


def b_loss(name):
    def b():
        mod, attrs = LOSSES[name]
        kw = {k: Option(k) for k in attrs}
        o = getattr(mod, name).__new__(getattr(mod, name))
        return (o,), dict(kw), dict(o=o, kw=kw, attrs=attrs, name=name)
    return b


def p_loss(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    for k, a in I["attrs"].items():
        P(k + " is kept as given", getattr(I["o"], a, None) is I["kw"][k])
    if I["name"] == "SPALoss":
        P("no epoch yet", I["o"].n_epochs == 0)


# method -> module of the package, loss, {hyperparameter: attribute of the loss}, {hyperparameter: keyword of the net}, further keywords of the net
ADV = dict(domain_classifier="module__domain_classifier")
METHODS = dict(
    DeepCoral=(DD, "DeepCoralLoss", dict(assume_centered="assume_centered"), dict(reg="criterion__reg"), {}),
    DAN=(DD, "DANLoss", dict(sigmas="sigmas"), dict(reg="criterion__reg"), {}),
    CAN=(DD, "CANLoss", dict(distance_threshold="distance_threshold", class_threshold="class_threshold", sigmas="sigmas"), dict(reg="criterion__reg"), {}),
    DANN=(DA, "DANNLoss", dict(domain_criterion="domain_criterion_"), dict(ADV, reg="criterion__reg"), {}),
    CDAN=(DA, "CDANLoss", dict(domain_criterion="domain_criterion_"), dict(ADV, reg="criterion__reg", max_features="module__max_features"), {}),
    MDD=(DA, "MDDLoss", dict(gamma="gamma"), dict(disc_classifier="module__domain_classifier", reg="criterion__reg"), {}),
    MCC=(DC, "MCCLoss", dict(T="T"), dict(reg="criterion__reg"), {}),
    DeepJDOT=(DO, "DeepJDOTLoss", dict(reg_dist="reg_dist", reg_cl="reg_cl", target_criterion="criterion_"), {}, dict(criterion__reg=1)),
    SPA=(DG, "SPALoss", dict(domain_criterion="domain_criterion_", reg_adv="reg_adv", reg_gsa="reg_gsa", reg_nap="reg_nap", max_epochs="max_epochs"), dict(ADV, max_epochs="max_epochs"), dict(criterion__reg=1)),
    SourceOnly=(DN, "DummyLoss", {}, {}, dict(criterion__reg=0, iterator_train__domain_used="source")),
    TargetOnly=(DN, "DummyLoss", {}, {}, dict(criterion__reg=0, iterator_train__domain_used="target", criterion__train_on_target=True)),
)
CALLBACKS = dict(CAN=["ComputeSourceCentroids"], SPA=["MemoryBank", "CountEpochs"])


def b_method(name, given, cb):
    def b():
        NETS.clear()
        mod, loss, at_, kw_, more = METHODS[name]
        pos = [Option("module"), Option("layer_name")]
        kw = {k: Option(k) for k in {**at_, **kw_}}
        kw.update(base_criterion=Option("base_criterion") if given else None, device=Option("device"), lr=Option("lr"))
        mine = []
        if cb:
            mine = [Option("callback")]
            kw["callbacks"] = mine if cb == "list" else mine[0]
        return (), dict(kw), dict(name=name, pos=pos, kw=kw, given=given, mine=list(mine), live=mine if cb == "list" else None)
    return b


def c_method(name):
    def c(it, **kw):
        pos = [Option("module"), Option("layer_name")]
        f = getattr(METHODS[name][0], name)
        return pos, it.call(f, tuple(pos), dict(kw)), it.call(f, tuple(pos), dict(kw))
    return c


def p_method(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    mod, loss, at_, kw_, more = METHODS[I["name"]]
    pos, *nets = out[1]
    P("two nets", len(NETS) == 2 and all(n is c[0] for n, c in zip(nets, NETS)))
    own = []
    for _, a, k in NETS:
        k = dict(zip(inspect.signature(DB.DomainAwareNet.__init__).parameters, (None,) + a), **k)
        k.pop("self", None)
        P("module and layer", k.pop("module__base_module", None) is pos[0] and k.pop("module__layer_name", None) is pos[1])
        P("the module of the method", k.pop("module", None) is (DA.CDANModule if I["name"] == "CDAN" else DB.DomainAwareModule))
        P("batches of the domains of the method", k.pop("iterator_train", None) is (DB.DomainOnlyDataLoader if mod is DN else DB.DomainBalancedDataLoader))
        P("criterion", k.pop("criterion", None) is DB.DomainAwareCriterion)
        b = k.pop("criterion__base_criterion", None)
        P("base criterion", b is I["kw"]["base_criterion"] if I["given"] else type(b) is torch.nn.CrossEntropyLoss)
        l = k.pop("criterion__adapt_criterion", None)
        P("loss of the method", type(l).__name__ == loss)
        for q, v in at_.items():
            P(q + " reaches the loss", getattr(l, v, None) is I["kw"][q])
        for q, v in kw_.items():
            P(q + " reaches the net", k.pop(v, None) is I["kw"][q])
        for q, v in more.items():
            P(q, type(k.get(q)) is type(v) and k.pop(q) == v)
        for q in ("device", "lr"):
            P(q + ": passed on", k.pop(q, None) is I["kw"][q])
        own.append([b, l])
        if I["name"] in CALLBACKS:
            c = k.pop("callbacks", None)
            P("the callbacks given, then those of the method", isinstance(c, list) and all(x is y for x, y in zip(c, I["mine"])) and [type(x).__name__ for x in c[len(I["mine"]):]] == CALLBACKS[I["name"]])
            P("the list given is left alone", I["live"] is None or (len(I["live"]) == 1 and c is not I["live"]))
            own[-1] += c[len(I["mine"]):]
        P("nothing else", not k)
    P("nothing shared", all(x is not y or isinstance(x, Option) for x, y in zip(*own)))


# -------------------------------------------- JDOT's options, selectors
def b_jdot(cls):
    def b():
        kw = {k: Option(k) for k in params_of(cls) if k != "base_estimator"}
        base = Est("base_estimator")
        extra = {"shift": Option("shift"), "other": Option("other")}
        o = cls.__new__(cls)
        return (o, base), dict(**kw, **extra), dict(o=o, kw=dict(kw, base_estimator=base, **extra), new=dict(alpha=Option("new alpha"), shift=Option("new shift")))
    return b


def jdot_call(it, o, base, **kw):
    it.call(type(o).__init__, (o, base), dict(kw))
    a = it.call(type(o).get_params, (o,), dict(deep=False))
    new = dict(alpha=Option("new alpha"), shift=Option("new shift"))
    r = it.call(type(o).set_params, (o,), dict(new))
    return a, r, new, it.call(type(o).get_params, (o,), dict(deep=False)), dict(o.kwargs)


def p_jdot(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    a, r, new, b, opts = out[1]
    P("every parameter is told", set(a) == set(I["kw"]) and all(a[k] is v for k, v in I["kw"].items()))
    P("set_params returns the estimator", r is I["o"])
    P("set_params changes what it is given", set(b) == set(I["kw"]) and all(b[k] is new.get(k, v) for k, v in I["kw"].items()))
    P("options of the base estimator's fit", opts == dict(shift=new["shift"], other=I["kw"]["other"]))


def b_sel(name, mask):
    def b():
        cls = getattr(SK, name)
        base, o = Est("base_estimator"), cls.__new__(cls)
        extra = dict(alpha=Option("alpha"))
        return (o, base), dict(extra, **({} if mask is None else dict(mask_target_labels=mask))), dict(o=o, base=base, extra=extra, name=name, mask=mask)
    return b


def p_sel(P, out, I):
    refuse = I["name"] == "SelectTarget" and I["mask"]
    if out[0] == "raise":
        return P("only what cannot be: target labels masked where only they are used", refuse and isinstance(out[1], ValueError))
    P("refused: target labels masked where only they are used", not refuse)
    o = I["o"]
    P("the estimator given, told its parameters", o.base_estimator is I["base"] and I["base"].told == I["extra"])
    P("masking as asked for", o.mask_target_labels is (I["mask"] if I["mask"] is not None else I["name"] != "SelectTarget"))


def b_sst(two, mask):
    def b():
        s, t = Est("source_estimator"), Est("target_estimator") if two else None
        o = SK.SelectSourceTarget.__new__(SK.SelectSourceTarget)
        return (o, s) + ((t,) if two else ()), dict(mask_target_labels=True) if mask else {}, dict(o=o, s=s, t=t, mask=mask)
    return b


def p_sst(P, out, I):
    if out[0] == "raise":
        return P("only masking is refused", I["mask"] and isinstance(out[1], ValueError))
    o = I["o"]
    P("masking is refused", not I["mask"])
    P("the estimators given", o.source_estimator is I["s"] and o.target_estimator is I["t"] and o.mask_target_labels is False)


def scenarios():
    out = []
    for name, (mod, *_) in [*TABLE.items(), *PLAIN.items()]:
        cls = getattr(mod, name, None)
        if cls is None:
            continue
        out.append(Scn(f"{name}()", cls.__init__, b_ctor(cls), p_ctor))
        for k in params_of(cls):
            if estimators(k):
                out.append(Scn(f"{name}() without {k}", cls.__init__, b_default(cls, k), p_default, call=c_twice))
    for name, (mod, fac, *_) in TABLE.items():
        if fac:
            for given in (True, False):
                out.append(Scn(f"{fac} ({'estimator given' if given else 'default estimator'})", opt(mod, fac), b_fac(name, fac, given), p_fac, call=c_two(fac), models={getattr(mod, "make_da_pipeline", None): m_pipe}))
    for name in SCORERS:
        for high in (True, False, None):
            out.append(Scn(f"{name}() ({'greater is better' if high else 'usual direction' if high is None else 'lower is better'})", opt(ME, name + ".__init__"), b_scorer(name, high), p_scorer))
    for cls in (OT.JDOTRegressor, OT.JDOTClassifier):
        out.append(Scn(f"{cls.__name__}.get_params, set_params", opt(cls, "__init__"), b_jdot(cls), p_jdot, call=jdot_call, functions=[f for f in (opt(cls, "get_params"), opt(cls, "set_params"))]))
    for name in ("Shared", "PerDomain", "SelectSource", "SelectTarget"):
        for mask in (None, True, False):
            out.append(Scn(f"{name}() (masking: {mask})", opt(SK, name).__init__, b_sel(name, mask), p_sel, expect=("raise",) if name == "SelectTarget" and mask else ("return",)))
    for two in (True, False):
        for mask in (True, False):
            out.append(Scn(f"SelectSourceTarget() ({'two estimators' if two else 'one estimator'}{', masking' if mask else ''})", opt(SK, "SelectSourceTarget.__init__"), b_sst(two, mask), p_sst, expect=("raise",) if mask else ("return",)))
    for name, (mod, _) in LOSSES.items():
        out.append(Scn(f"{name}()", opt(mod, name + ".__init__"), b_loss(name), p_loss))
    for name, (mod, *_) in METHODS.items():
        for given in (True, False):
            for cb in (("list", "one", None) if name in CALLBACKS else (None,)):
                out.append(Scn(f"{name} ({'criterion given' if given else 'default criterion'}{', callbacks: ' + cb if cb else ''})", opt(mod, name), b_method(name, given, cb), p_method, call=c_method(name), models={DB.DomainAwareNet: m_net}))
    return out
