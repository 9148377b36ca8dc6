"""P21: a deep net sends every sample where it belongs: the losses get the sides they
are made for, the weights their samples, predictions and scores the samples asked for."""
import inspect

import numpy as np
import skorch
import torch
from skorch import NeuralNetClassifier
from sklearn.metrics import accuracy_score

import skada.deep as D
import skada.deep._adversarial as DA
import skada.deep.base as DB
import skada.deep.utils as DU
from dv import npmodel, torchmodel
from dv.core import S, SArr, SSeq, ctx, z3, zi, I as INT, B
from dv.npmodel import compaction
from dv.prop import Scn, Violation, Skip, opt
from dv.spec import *
from dv.torchmodel import torch_mode
from props.util import *

ID = "P21"
LEVEL = "proof"

LOG, SAVED = [], {}
MODELS = dict(torchmodel.MODELS)
MODELS[DB.to_tensor] = torchmodel.to_tensor
MODELS[DB.check_array] = torchmodel.check_array


class Rec:
    """a callable of the user's: remembers what it is given, gives what it is told"""

    _dv_native = _dv_sym = True

    def __init__(self, name, out, **attrs):
        self.name, self.out = name, out
        self.__dict__.update(attrs)

    def __call__(self, *a, **k):
        LOG.append((self.name, a, k))
        return self.out(*a, **k) if callable(self.out) else self.out


def calls(name):
    return [(a, k) for n, a, k in LOG if n == name]


def side(sd, src):
    f = sd.fn
    return compaction(SArr((sd.shape[0],), "b", lambda i: S(f(i).e >= 0 if src else f(i).e < 0)))


def is_side(P, what, out, src, sd, of_source):
    """out: the entries of src on that side, in order"""
    co = side(sd, of_source)
    if not isinstance(out, SArr):
        return P.fail(what, f"not an array: {type(out).__name__}")
    k = fresh_int("k")
    ix = [fresh_int("c") for _ in range(0 if src.rows else src.ndim - 1)]
    P(what + ": as many", ln(out) == S(co.m))
    P(what + ": theirs, in order", Implies(And(k >= 0, k < S(co.m), *[And(q >= 0, q < d) for q, d in zip(ix, src.shape[1:])]),
                                           Same(S_(out, k, ix), S_(src, S(co.sel(zi(k))), ix))))


def S_(a, k, ix):
    r = a.fn(zi(k), *[zi(q) for q in ix])
    return r


# ------------------------------------------------------------------ criterion
def floats2(n, d, name):
    return npmodel.arr_uf(name, (n, d), "f")


def b_crit(full, target, reg="symbolic"):
    def b():
        torch_mode()
        LOG.clear()
        n = length("n", 2)
        K, d = length("K", 1), length("d", 1)
        sd = ints(n, "sd")
        y_pred, y = floats2(n, K, "y_pred"), ints(n, "y")
        dp = floats(n, "domain_pred") if full else None
        f = floats2(n, d, "features") if full else None
        ix = ints(n, "idx") if full else None
        i, j = fresh_int("src"), fresh_int("tgt")
        assume(And(i >= 0, i < n, el(sd, i) >= 0, j >= 0, j < n, el(sd, j) < 0))
        bl, al = S(ctx().fresh("f", "base")), S(ctx().fresh("f", "adapt"))
        base, adapt = Rec("base", bl, reduction="?"), Rec("adapt", al)
        g = S(ctx().fresh("f", "reg"))
        c = opt(DB, "DomainAwareCriterion")(base, adapt, reg=g, reduction="none", train_on_target=target)
        I = dict(n=n, sd=sd, y_pred=y_pred, y=y, dp=dp, f=f, ix=ix, bl=bl, al=al, reg=g, base=base, target=target)
        return (c, (y_pred, dp, f, sd, ix), y), {}, I
    return b


def p_crit(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    P("the reduction asked for reaches the base criterion", I["base"].reduction == "none")
    b, a = calls("base"), calls("adapt")
    P("one base loss, one adaptation loss", len(b) == 1 and len(a) == 1)
    args, kw = b[0]
    src = not I["target"]
    P("the base criterion gets predictions and labels", len(args) == 2 and not kw)
    is_side(P, "base: predictions", args[0], I["y_pred"], I["sd"], src)
    is_side(P, "base: labels", args[1], I["y"], I["sd"], src)
    args, kw = a[0]
    want = dict(y_s=("y", True), y_pred_s=("y_pred", True), y_pred_t=("y_pred", False), domain_pred_s=("dp", True), domain_pred_t=("dp", False),
                features_s=("f", True), features_t=("f", False), sample_idx_s=("ix", True), sample_idx_t=("ix", False))
    P("the adaptation loss gets both sides by name", not args and set(kw) >= set(want))
    for nm, (q, s) in want.items():
        if I[q] is None:
            P(nm + ": none", kw[nm] is None)
        else:
            is_side(P, "adapt: " + nm, kw[nm], I[q], I["sd"], s)
    P("base loss plus reg times adaptation loss", out[1] == I["bl"] + I["reg"] * I["al"])


# --------------------------------------------------------------------- module
def b_mod(cls, fit, weighted, layer, classifier, features, big=False):
    def b():
        torch_mode()
        LOG.clear()
        n = length("n", 1)
        K, d = (2, 3) if cls == "CDANModule" else (length("K", 1), length("d", 1))
        X = rows(n, length("p", 1), name="X")
        yp, f, dp = floats2(n, K, "y_pred"), floats2(n, d, "features"), floats(n, "domain_pred")
        sd, ix = ints(n, "sd"), ints(n, "idx")
        w = floats(n, "w") if weighted else None
        m = opt(DA if cls == "CDANModule" else DB, cls).__new__(opt(DA if cls == "CDANModule" else DB, cls))
        torch.nn.Module.__init__(m)
        m.intermediate_layers = {}
        m.layer_name = "here" if layer else None
        # the hook leaves the features of the layer with every call of the module

        def run(*a, **k):
            if layer:
                m.intermediate_layers["here"] = f
            m.intermediate_layers["elsewhere"] = dp
            return yp

        object.__setattr__(m, "base_module_", Rec("module", run))
        object.__setattr__(m, "domain_classifier_", Rec("classifier", dp) if classifier else None)
        if cls == "CDANModule":
            m.max_features, m.random_state = (5 if big else 6), 42
        I = dict(n=n, X=X, yp=yp, f=f, dp=dp, sd=sd, ix=ix, w=w, fit=fit, layer=layer, classifier=classifier, features=features, K=K, d=d, big=big, cls=cls)
        kw = dict(sample_domain=sd, sample_idx=ix, is_fit=fit, return_features=features)
        if weighted:
            kw["sample_weight"] = w
        return (m, X), kw, I
    return b


def p_mod(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r = out[1]
    c = calls("module")
    P("the module runs once, on the samples", len(c) == 1 and len(c[0][0]) == 1 and c[0][0][0] is I["X"])
    P("with the weights, if any", c[0][1] == {} if I["w"] is None else (set(c[0][1]) == {"sample_weight"} and c[0][1]["sample_weight"] is I["w"]))
    if I["fit"]:
        P("five parts", isinstance(r, tuple) and len(r) == 5)
        P("the predictions", r[0] is I["yp"])
        P("the features of the layer", r[2] is (I["f"] if I["layer"] else None))
        P("domains and indices as given", r[3] is I["sd"] and r[4] is I["ix"])
        k = calls("classifier")
        if I["classifier"]:
            P("the domain predictions", r[1] is I["dp"] and len(k) == 1 and len(k[0][0]) == 1)
            if I["cls"] == "CDANModule":
                multilinear(P, k[0][0][0], I)
            else:
                P("of the features", k[0][0][0] is I["f"])
        else:
            P("no domain predictions", r[1] is None and not k)
    elif I["features"]:
        P("predictions and features", isinstance(r, tuple) and len(r) == 2 and r[0] is I["yp"] and r[1] is I["f"])
    else:
        P("the predictions", r is I["yp"])
    if not I["fit"]:
        P("no domain predictions", not calls("classifier"))


RANDOM = []


class Layer:
    """_RandomLayer under its contract: products of fixed random projections"""

    _dv_native = _dv_sym = True

    def __init__(self, random_state, input_dims, output_dim=4096):
        RANDOM.append((random_state, list(input_dims), output_dim))

    def forward(self, parts):
        RANDOM.append(parts)
        return "projected"


def multilinear(P, x, I):
    K, d = I["K"], I["d"]
    if I["big"]:
        P("a random layer of the dimensions and seed asked for", RANDOM[-2] == (42, [d, K], 5))
        P("of features and predictions", x == "projected" and RANDOM[-1][0] is I["f"] and RANDOM[-1][1] is I["yp"])
        return
    n, i = I["n"], fresh_int("i")
    P("one row per sample", And(ln(x) == n, S(zi(x.shape[1]) == K * d)))
    for a in range(K):
        for b in range(d):
            P("products of predictions and features", Implies(And(i >= 0, i < n), x.fn(zi(i), z3.IntVal(a * d + b)) == I["yp"].fn(zi(i), z3.IntVal(a)) * I["f"].fn(zi(i), z3.IntVal(b))))


def bmm(a, b):
    """batched matrix product of (n,p,q) and (n,q,r), q known"""
    q = a.shape[2]
    if not isinstance(q, int):
        raise Skip("bmm")
    f, g = a.fn, b.fn

    def fn(i, j, k):
        r = None
        for t in range(q):
            v = f(i, j, z3.IntVal(t)) * g(i, z3.IntVal(t), k)
            r = v if r is None else r + v
        return r

    return SArr((a.shape[0], a.shape[1], b.shape[2]), "f", fn)


# ------------------------------------------------------------------------ net
def net(**attrs):
    n = opt(DB, "DomainAwareNet").__new__(opt(DB, "DomainAwareNet"))
    n.__dict__.update(device="cpu", initialized_=True)
    n.__dict__.update(attrs)
    return n


def b_loss(weighted, target, scalar=False, one=False):
    def b():
        torch_mode()
        LOG.clear()
        n = length("n", 2)
        sd, w = ints(n, "sd"), floats(n, "w")
        i, j = fresh_int("src"), fresh_int("tgt")
        assume(And(i >= 0, i < n, el(sd, i) >= 0, j >= 0, j < n, el(sd, j) < 0))
        m = S(side(sd, not target).m)
        if scalar:
            l = floats(1, "loss")
            l = SArr((), "f", lambda l=l: l.fn(z3.IntVal(0)))
            assume(m >= 2)
        else:
            l = floats(m, "loss")
        s = net(criterion_=Rec("criterion", None, train_on_target=target))
        X = dict(sample_domain=sd)
        if weighted:
            X["sample_weight"] = w if weighted is True else None
        I = dict(n=n, sd=sd, w=w, l=l, m=m, weighted=weighted is True, target=target)
        SAVED["loss"] = l
        return (s, "predictions", "labels", X), {}, I
    return b


def super_loss(self, y_pred, y_true, X=None, *a, **k):
    LOG.append(("super", (y_pred, y_true, X), k))
    return SAVED["loss"]


super_loss._dv_native = super_loss._dv_sym = True


def p_loss(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    P("the loss of the predictions and labels", calls("super") and calls("super")[0][0][:2] == ("predictions", "labels"))
    l, m = I["l"], I["m"]
    if not I["weighted"]:
        want = npmodel.mean_(l)
    else:
        co, w = side(I["sd"], not I["target"]), I["w"]
        want = npmodel.mean_(SArr((m,), "f", lambda k: el(w, S(co.sel(k))) * el(l, S(k))))
    P("the mean of the losses, each with the weight of its sample", out[1] == want)


def super_proba(self, X, **k):
    LOG.append(("super", (self, X), k))
    return SAVED["proba"]


super_proba._dv_native = super_proba._dv_sym = True


def deep(n, w=False):
    d = DB.DeepDADataset.__new__(DB.DeepDADataset)
    d.X, d.y, d.sample_domain = rows(n, length("p", 1), name="X"), ints(n, "y"), ints(n, "sd")
    d.sample_weight = floats(n, "w") if w else torch.Tensor()
    d.has_weights = bool(w)
    yf = d.y.fn
    d.has_y = SArr((n,), "b", lambda i: yf(i) != -1)
    d.device, d.allow_label_masks = "cpu", True
    d._sample_idx = ints(n, "idx")
    return d


def targets(n, sd):
    i = fresh_int("tgt")
    assume(And(i >= 0, i < n, el(sd, i) < 0))


def b_net(method, form, source, w=False):
    """form: how the samples come (dataset, arrays or dictionary)"""
    def b():
        torch_mode()
        LOG.clear()
        n = length("n", 1)
        d = deep(n, w)
        targets(n, d.sample_domain)
        I = dict(n=n, X=d.X.snapshot(), y=d.y.snapshot(), sd=d.sample_domain.snapshot(), d=d, source=source, w=d.sample_weight.snapshot() if w else None, form=form)
        K = length("K", 1)
        m = n if source else S(side(d.sample_domain, False).m)
        SAVED["proba"] = I["proba"] = floats2(m, K, "proba")
        s = net()
        if form == "dataset":
            a = (d,)
        elif form == "dict":
            q = dict(X=d.X, sample_domain=d.sample_domain)
            if w:
                q["sample_weight"] = d.sample_weight
            a = (q,)
        else:
            a = (d.X, d.sample_domain) + ((d.sample_weight,) if w else ())
        kw = dict(allow_source=True) if source else {}
        if method == "predict_proba":
            kw["extra"] = "extra"
        if method == "score":
            kw.update(sample_domain=a[1]) if form == "arrays" else None
            if w:
                kw["sample_weight"] = I["w2"] = floats(n, "w2")
                I["w"] = I["w2"].snapshot()
            I["labels"] = ints(n, "labels")
            a = (a[0], I["labels"])
        return (s, *a), kw, I
    return b


def c_net(method):
    def f(it, s, *a, **k):
        return it.call(getattr(s, method), a, k)
    return f


def given(P, r, I):
    """the dataset predicted: the targets, or everything"""
    P("a dataset", isinstance(r, DB.DeepDADataset))
    if I["source"]:
        i, n = fresh_int("i"), I["n"]
        P("every sample", And(ln(r.X) == n, Implies(And(i >= 0, i < n), And(Same(el(r.X, i), el(I["X"], i)), el(r.sample_domain, i) == el(I["sd"], i)))))
    else:
        prove_selection(P, "the target samples", r.X, I["X"], lambda i: el(I["sd"], i) < 0, [(r.sample_domain, I["sd"])])
    if I["w"] is not None:
        i = fresh_int("i")
        P("their weights", And(ln(r.sample_weight) == ln(r.X), Implies(And(i >= 0, i < ln(r.X)), Same(el(r.sample_weight, i), el(I["w"], i) if I["source"] else el(I["w"], S(side(I["sd"], False).sel(zi(i))))))))


def p_proba(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    c = calls("super")
    P("the probabilities of one pass", len(c) == 1 and out[1] is I["proba"])
    P("options handed on", c[0][1] == dict(extra="extra"))
    given(P, c[0][0][1], I)


def p_predict(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    c = calls("super")
    P("one pass", len(c) == 1)
    given(P, c[0][0][1], I)
    r, p = out[1], I["proba"]
    i, k = fresh_int("i"), fresh_int("k")
    P("one label per sample", ln(r) == ln(p))
    P("the most probable class", Implies(And(i >= 0, i < ln(p), k >= 0, k < S(zi(p.shape[1]))), And(el(r, i) >= 0, el(r, i) < S(zi(p.shape[1])), p.fn(zi(i), zi(k)) <= p.fn(zi(i), zi(el(r, i))))))


def rec_accuracy(y, p, sample_weight=None, **k):
    LOG.append(("accuracy", (y, p, sample_weight), k))
    return "accuracy"


rec_accuracy._dv_native = rec_accuracy._dv_sym = True


def p_score(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    c = calls("accuracy")
    P("the accuracy", out[1] == "accuracy" and len(c) == 1 and not c[0][1])
    y, p, w = c[0][0]
    given(P, calls("super")[-1][0][1], I)
    pr = I["proba"]
    P("of the predictions", And(ln(p) == ln(pr), ln(y) == ln(pr)))
    i, k = fresh_int("i"), fresh_int("k")
    r = And(i >= 0, i < ln(pr))
    P("most probable classes", Implies(And(r, k >= 0, k < S(zi(pr.shape[1]))), pr.fn(zi(i), zi(k)) <= pr.fn(zi(i), zi(el(p, i)))))
    for nm, got, src in (("labels", y, I["labels"]), ("weights", w, I.get("w2"))):
        if src is None:
            P("no " + nm, got is None)
            continue
        P(f"{nm} of the samples predicted", And(ln(got) == ln(pr), Implies(r, el(got, i) == (el(src, i) if I["source"] else el(src, S(side(I["sd"], False).sel(zi(i))))))))


def b_fit(form):
    def b():
        torch_mode()
        LOG.clear()
        n = length("n", 1)
        d = deep(n, True)
        I = dict(n=n, X=d.X.snapshot(), y=d.y.snapshot(), sd=d.sample_domain.snapshot(), w=d.sample_weight.snapshot(), source=True)
        a = {"dataset": (d, None), "arrays": (d.X, d.y, d.sample_domain, d.sample_weight), "dict": (dict(X=d.X, y=d.y, sample_domain=d.sample_domain, sample_weight=d.sample_weight), None)}[form]
        return (net(), *a), dict(extra="extra"), I
    return b


def super_fit(self, X, y, **k):
    LOG.append(("super", (self, X, y), k))
    return "fitted"


super_fit._dv_native = super_fit._dv_sym = True


def p_fit(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    c = calls("super")
    P("one fit", len(c) == 1 and out[1] == "fitted")
    (s, X, y), k = c[0]
    P("told that it is one", k == dict(is_fit=True, extra="extra") and y is None)
    given(P, X, I)
    i = fresh_int("i")
    P("the labels", And(ln(X.y) == I["n"], Implies(And(i >= 0, i < I["n"]), el(X.y, i) == el(I["y"], i))))


def b_feat():
    torch_mode()
    LOG.clear()
    n = length("n", 1)
    d = deep(n)
    k = length("d", 1)
    parts = [floats2(length("b1", 1), k, "batch1"), floats2(length("b2", 1), k, "batch2")]
    outs = iter(parts)
    s = net(_get=None)
    I = dict(n=n, d=d, parts=parts, X=d.X.snapshot(), sd=d.sample_domain.snapshot(), source=True, w=None)
    SAVED.update(parts=parts, s=s)
    return (s, d), {}, I


def m_dataset(self, X, y=None):
    LOG.append(("dataset", (X, y), {}))
    return "the dataset"


def m_iterator(self, ds, training=False):
    LOG.append(("iterator", (ds, training), {}))
    return [("batch", 0), ("batch", 1)]


def m_check(self, *a, **k):
    return None


def m_training(self, training=True):
    LOG.append(("training", (training,), {}))


def unpack(batch):
    LOG.append(("unpack", (batch,), {}))
    q = batch[1]
    return dict(X=("X", q), sample_domain=("sd", q)), None


def m_merge(self, x, fit_params):
    return dict(x, **fit_params)


def module_run(*a, **k):
    q = k["X"][1] if "X" in k else a[0][1]
    return "predictions", SAVED["parts"][q]


for _f in (m_dataset, m_iterator, m_check, m_training, unpack, m_merge, module_run):
    _f._dv_native = _f._dv_sym = True


def p_feat(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    a, b = I["parts"]
    r = out[1]
    n1, n2 = ln(a), ln(b)
    i, c = fresh_int("i"), fresh_int("c")
    P("features of every batch", ln(r) == n1 + n2)
    ok = And(c >= 0, c < S(zi(a.shape[1])))
    P("in order", And(Implies(And(ok, i >= 0, i < n1), r.fn(zi(i), zi(c)) == a.fn(zi(i), zi(c))), Implies(And(ok, i >= 0, i < n2), r.fn(zi(i + n1), zi(c)) == b.fn(zi(i), zi(c)))))
    P("not training", all(not x[0][0] for x in calls("training")) and calls("iterator")[0][0] == ("the dataset", False))
    given(P, calls("dataset")[0][0][0], I)
    m = calls("module")
    P("asking for the features", len(m) == 2 and all(k.get("return_features") is True for _, k in m))
    P("with the parts of each batch", all(k.get("X") == ("X", q) and k.get("sample_domain") == ("sd", q) for q, (_, k) in enumerate(m)))


def b_proc(weighted, bad=False):
    def b():
        torch_mode()
        n = length("n", 1)
        x, y, sd, w = ints(n, "x"), ints(n, "y"), ints(n, "sd"), floats(n, "w")

        def item(j):
            d = dict(X=el(x, S(zi(j))), sample_domain=el(sd, S(zi(j))))
            if bad:
                del d["sample_domain"]
            if weighted:
                d["sample_weight"] = el(w, S(zi(j)))
            return d, el(y, S(zi(j)))
        return (net(), SSeq(n, item)), {}, dict(n=n, x=x, y=y, sd=sd, w=w if weighted else None)
    return b


def p_proc(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    d, y = out[1]
    n, i = I["n"], fresh_int("i")
    if I["w"] is not None and "sample_weight" not in d:
        return P("the weights", False)
    P("entries", set(d) == {"X", "sample_domain"} | ({"sample_weight"} if I["w"] is not None else set()))
    for nm, got, src in (("samples", d["X"], I["x"]), ("labels", y, I["y"]), ("domains", d["sample_domain"], I["sd"]), ("weights", d.get("sample_weight"), I["w"])):
        if src is not None:
            P(nm, And(ln(got) == n, Implies(And(i >= 0, i < n), el(got, i) == el(src, i))))


def p_refused(kind):
    def p(P, out, I):
        P(f"refused with {kind.__name__}", out[0] == "raise" and isinstance(out[1], kind))
    return p


# ------------------------------------------------------------------ factories
class Token:
    """any value"""

    _dv_native = _dv_sym = True

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


def rec_net(*a, **k):
    LOG.append(("net", a, k))
    return "net"


def rec_classifier(*a, **k):
    LOG.append(("classifier", a, k))
    return SAVED["classifier"]


rec_net._dv_native = rec_net._dv_sym = rec_classifier._dv_native = rec_classifier._dv_sym = True

# method: (its own parameters -> attribute of the adaptation loss), loss, weight of the loss
FACTORY = {
    "DeepCoral": ("_divergence", dict(assume_centered="assume_centered"), "DeepCoralLoss", "reg"),
    "DAN": ("_divergence", dict(sigmas="sigmas"), "DANLoss", "reg"),
    "CAN": ("_divergence", dict(distance_threshold="distance_threshold", class_threshold="class_threshold", sigmas="sigmas"), "CANLoss", "reg"),
    "DANN": ("_adversarial", dict(domain_criterion="domain_criterion_"), "DANNLoss", "reg"),
    "CDAN": ("_adversarial", dict(domain_criterion="domain_criterion_"), "CDANLoss", "reg"),
    "MDD": ("_adversarial", dict(gamma="gamma"), "MDDLoss", "reg"),
    "MCC": ("_class_confusion", dict(T="T"), "MCCLoss", "reg"),
    "DeepJDOT": ("_optimal_transport", dict(reg_dist="reg_dist", reg_cl="reg_cl", target_criterion="criterion_"), "DeepJDOTLoss", 1),
    "SPA": ("_graph_alignment", dict(domain_criterion="domain_criterion_", reg_adv="reg_adv", reg_gsa="reg_gsa", reg_nap="reg_nap", max_epochs="max_epochs"), "SPALoss", 1),
    "SourceOnly": ("_baseline", {}, "DummyLoss", 0),
    "TargetOnly": ("_baseline", {}, "DummyLoss", 0),
}
CLASSIFIER = dict(DANN="domain_classifier", CDAN="domain_classifier", MDD="disc_classifier", SPA="domain_classifier")
CALLBACKS = dict(CAN=["ComputeSourceCentroids"], SPA=["MemoryBank", "CountEpochs"])


def mod_of(name):
    import importlib

    return importlib.import_module("skada.deep." + FACTORY[name][0])


def b_make(name, own, cb=None):
    """own: with a criterion, classifier and hyperparameters of the user's"""
    def b():
        LOG.clear()
        SAVED["classifier"] = Token("built classifier")
        f = opt(mod_of(name), name)
        kw, I = {}, dict(name=name, own=own, cb=cb, want={})
        if own:
            for p in FACTORY[name][1]:
                kw[p] = I["want"][p] = Token(p)
            kw["base_criterion"] = Token("base_criterion")
            if FACTORY[name][3] == "reg":
                kw["reg"] = Token("reg")
            if name == "CDAN":
                kw["max_features"] = Token("max_features")
        if name in CLASSIFIER:
            if own:
                kw[CLASSIFIER[name]] = Token("classifier")
            else:
                kw["num_features"] = 7
                if name in ("CDAN", "MDD"):
                    kw["n_classes"] = 3
                if name == "CDAN":
                    kw["max_features"] = 20
        if cb is not None:
            I["cbs"] = [Token("callback")]
            kw["callbacks"] = I["cbs"] if cb == "list" else I["cbs"][0]
        kw["batch_size"] = Token("batch_size")
        I["kw"] = dict(kw)
        return (f, Token("module")), dict(kw, layer_name="here"), I
    return b


def c_make(it, f, m, **k):
    SAVED["module"] = m
    return it.call(f, (m,), k)


def p_make(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    name, kw = I["name"], I["kw"]
    mod = mod_of(name)
    _, params, loss, weight = FACTORY[name]
    c = calls("net")
    P("one net", len(c) == 1 and out[1] == "net" and not c[0][0])
    k = dict(c[0][1])

    def took(key, what, ok):
        P(what, key in k and ok(k.pop(key)))

    took("module", "the module class", lambda v: v is opt(mod, "CDANModule" if name == "CDAN" else "DomainAwareModule"))
    took("module__base_module", "the module given", lambda v: v is SAVED["module"])
    took("module__layer_name", "the layer given", lambda v: v == "here")
    took("criterion", "the criterion", lambda v: v is DB.DomainAwareCriterion)
    only = name in ("SourceOnly", "TargetOnly")
    took("iterator_train", "the batches", lambda v: v is (DB.DomainOnlyDataLoader if only else DB.DomainBalancedDataLoader))
    if only:
        took("iterator_train__domain_used", "of one side", lambda v: v == ("source" if name == "SourceOnly" else "target"))
        P("trained on that side", bool(k.pop("criterion__train_on_target", False)) == (name == "TargetOnly"))
    else:
        P("trained on the source", not k.pop("criterion__train_on_target", False))
    if I["own"]:
        took("criterion__base_criterion", "the base criterion given", lambda v: v is kw["base_criterion"])
    else:
        took("criterion__base_criterion", "cross entropy by default", lambda v: type(v) is torch.nn.CrossEntropyLoss)
    dflt = inspect.signature(getattr(mod, name)).parameters
    want = (kw["reg"] if I["own"] else dflt["reg"].default) if weight == "reg" else weight
    took("criterion__reg", "the weight of the adaptation loss", lambda v: v is want or (not isinstance(want, Token) and v == want))
    if name in CLASSIFIER:
        cl = calls("classifier")
        if I["own"]:
            took("module__domain_classifier", "the classifier given", lambda v: v is kw[CLASSIFIER[name]])
        else:
            took("module__domain_classifier", "a classifier built", lambda v: v is SAVED["classifier"] and len(cl) == 1)
            g = dict(zip(["num_features", "n_classes", "alpha"], cl[0][0]), **cl[0][1])
            P("for the features", int(g["num_features"]) == (20 if name == "CDAN" else 7) and g.get("n_classes", 1) == (3 if name == "MDD" else 1))
    if name == "CDAN":
        took("module__max_features", "the size asked for", lambda v: v is kw["max_features"] or v == kw["max_features"])
    a = k.pop("criterion__adapt_criterion", None)
    P("its loss", type(a) is opt(mod, loss))
    ldef = inspect.signature(type(a).__init__).parameters
    for p, q in params.items():
        if I["own"]:
            P("hyperparameters reach the loss", getattr(a, q) is I["want"][p])
        elif p != "domain_criterion":
            P("default hyperparameters", getattr(a, q) == dflt[p].default or getattr(a, q) is dflt[p].default)
        else:
            P("default domain criterion", type(a.domain_criterion_) is torch.nn.BCELoss)
    if name in CALLBACKS:
        cbs = k.pop("callbacks", None)
        got = [type(x).__name__ for x in cbs]
        P("the callbacks of the method", got[-len(CALLBACKS[name]):] == CALLBACKS[name])
        n = 0 if I["cb"] is None else 1
        P("after the ones given", len(cbs) == n + len(CALLBACKS[name]) and (not n or cbs[0] is I["cbs"][0]))
        if I["cb"] == "list":
            P("the caller's list is left alone", len(I["cbs"]) == 1)
    if name == "SPA":
        took("max_epochs", "epochs", lambda v: v is kw["max_epochs"] if I["own"] else v == dflt["max_epochs"].default)
    took("batch_size", "other options handed on", lambda v: v is kw["batch_size"])
    P("nothing else", not {q for q in k if k[q] is not None})


def b_missing(name, drop):
    def b():
        LOG.clear()
        kw = dict(num_features=7, n_classes=3)
        del kw[drop]
        if name != "CDAN":
            kw.pop("n_classes", None)
        return (opt(mod_of(name), name), Token("module")), dict(kw, layer_name="here"), {}
    return b


def scenarios():
    C = lambda c, p, m=DB: opt(opt(m, c), p)
    q = dict(models=MODELS)
    out = []
    for full in (True, False):
        for t in (False, True):
            out.append(Scn(f"DomainAwareCriterion.forward ({'features' if full else 'predictions only'}{', on target' if t else ''})", C("DomainAwareCriterion", "forward"), b_crit(full, t), p_crit, call=c_net("forward"), **q))
    mm = dict(MODELS)
    mm[torch.bmm] = bmm
    mm[DA._RandomLayer] = Layer
    qm = dict(models=mm)
    for w in (False, True):
        s = ", weights" if w else ""
        for layer, cl in ((True, True), (True, False), (False, False)):
            out.append(Scn(f"DomainAwareModule.forward (fit, {'layer' if layer else 'no layer'}{', classifier' if cl else ''}{s})", C("DomainAwareModule", "forward"), b_mod("DomainAwareModule", True, w, layer, cl, False), p_mod, call=c_net("forward"), **q))
        for big in (False, True):
            out.append(Scn(f"CDANModule.forward (fit{', projected' if big else ''}{s})", C("CDANModule", "forward", DA), b_mod("CDANModule", True, w, True, True, False, big), p_mod, call=c_net("forward"), **qm))
        for cls in ("DomainAwareModule", "CDANModule"):
            for f in (False, True):
                out.append(Scn(f"{cls}.forward ({'features' if f else 'predictions'}{s})", C(cls, "forward", DA if cls == "CDANModule" else DB), b_mod(cls, False, w, True, True, f), p_mod, call=c_net("forward"), **qm))
    N = "DomainAwareNet"
    ml = dict(MODELS)
    ml[NeuralNetClassifier.get_loss] = super_loss
    for w, t in ((True, False), (True, True), (False, False), (None, False)):
        out.append(Scn(f"{N}.get_loss (weights {w}{', on target' if t else ''})", C(N, "get_loss"), b_loss(w, t), p_loss, call=c_net("get_loss"), models=ml))
    out.append(Scn(f"{N}.get_loss (weights, one loss)", C(N, "get_loss"), b_loss(True, False, scalar=True), p_refused(ValueError), call=c_net("get_loss"), models=ml, expect=("raise:ValueError",)))
    mp = dict(MODELS)
    mp[NeuralNetClassifier.predict_proba] = super_proba
    mp[DB.accuracy_score] = rec_accuracy
    mp[DB.to_numpy] = one
    for form in ("dataset", "arrays", "dict"):
        for src in (False, True):
            for w in (False, True):
                s = f"({form}, {'every sample' if src else 'targets'}{', weights' if w else ''})"
                for meth, p in (("predict_proba", p_proba), ("predict", p_predict), ("score", p_score)):
                    if meth == "score" and w and form != "arrays":
                        continue
                    out.append(Scn(f"{N}.{meth} {s}", C(N, meth), b_net(meth, form, src, w), p, call=c_net(meth), models=mp))
    mf = dict(MODELS)
    mf[NeuralNetClassifier.fit] = super_fit
    for form in ("dataset", "arrays", "dict"):
        out.append(Scn(f"{N}.fit ({form})", C(N, "fit"), b_fit(form), p_fit, call=c_net("fit"), models=mf))
    return out + more()


def more():
    C = lambda c, p, m=DB: opt(opt(m, c), p)
    N = "DomainAwareNet"
    out = []
    mf = dict(MODELS)
    NN = skorch.NeuralNet
    for f, v in ((NN.get_dataset, m_dataset), (NN.get_iterator, m_iterator), (NeuralNetClassifier.check_is_fitted, m_check), (NN._set_training, m_training), (NN._merge_x_and_fit_params, m_merge), (DB.unpack_data, unpack), (DB.to_numpy, one), (DB.to_device, one), (DB.to_tensor, one), (torch.set_grad_enabled, grad)):
        mf[f] = v

    def bf():
        r = b_feat()
        r[0][0].__dict__["module_"] = Rec("module", module_run)
        return r
    out.append(Scn(f"{N}.predict_features", C(N, "predict_features"), bf, p_feat, call=c_net("predict_features"), models=mf))
    for w in (False, True):
        out.append(Scn(f"{N}._process_dataset ({'weights' if w else 'no weights'})", C(N, "_process_dataset"), b_proc(w), p_proc, call=c_net("_process_dataset"), models=MODELS))
    out.append(Scn(f"{N}._process_dataset (no domain)", C(N, "_process_dataset"), b_proc(False, True), p_refused(ValueError), call=c_net("_process_dataset"), models=MODELS, expect=("raise:ValueError",)))
    out.append(Scn("IntermediateLayerHook", opt(opt(DU, "IntermediateLayerHook"), "__call__"), b_hook, p_hook, call=c_call, models=MODELS))
    for nm in (["a"], ["b.c"], [None], ["z"], ["a", "b"]):
        out.append(Scn(f"_register_forwards_hook {nm}", opt(DU, "_register_forwards_hook"), b_reg(nm), p_reg, models=MODELS))
    mn = dict(MODELS)
    mn[NeuralNetClassifier.check_is_fitted] = m_check
    for k in ("cross entropy", "mse", "two", "own", "none", "bad"):
        out.append(Scn(f"predict_nonlinearity ({k})", C(N, "_get_predict_nonlinearity"), b_nonlin(k), p_nonlin, call=c_net("_get_predict_nonlinearity"), models=mn, expect=("raise:TypeError",) if k == "bad" else ()))
    for k in (1, 2, 3):
        out.append(Scn(f"_RandomLayer.forward ({k} inputs)", C("_RandomLayer", "forward", DA), b_random(k), p_random, call=c_net("forward"), models=MODELS))
    for name in FACTORY:
        mod = mod_of(name)
        mk = {opt(mod, "DomainAwareNet"): rec_net}
        if name in CLASSIFIER:
            mk[opt(mod, "DomainClassifier")] = rec_classifier
        for own in (True, False):
            for cb in ((None, "list", "one") if name in CALLBACKS else (None,)):
                out.append(Scn(f"{name} ({'own options' if own else 'defaults'}{', callback ' + cb if cb else ''})", opt(mod, name), b_make(name, own, cb), p_make, call=c_make, models=mk))
        if name in CLASSIFIER:
            out.append(Scn(f"{name} (no size)", opt(mod, name), b_missing(name, "num_features"), p_refused(ValueError), call=c_make, models=mk, expect=("raise:ValueError",)))
        if name == "CDAN":
            out.append(Scn(f"{name} (no classes)", opt(mod, name), b_missing(name, "n_classes"), p_refused(ValueError), call=c_make, models=mk, expect=("raise:ValueError",)))
    return out


def b_hook():
    torch_mode()
    n, d = length("n", 1), length("d", 1)
    f, old = floats2(n, d, "out"), Token("other layer's")
    layers = {"other": old}
    h = opt(DU, "IntermediateLayerHook")(layers, "here")
    return (h, Token("module"), Token("input"), f), {}, dict(layers=layers, f=f, old=old, h=h)


def c_call(it, h, *a, **k):
    return it.call(h.__call__, a, k)


def p_hook(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    L, f = I["layers"], I["f"]
    P("the output of the layer under its name", set(L) == {"other", "here"} and L["other"] is I["old"])
    i, c = fresh_int("i"), fresh_int("c")
    P("the layer's values", And(ln(L["here"]) == ln(f), Implies(And(i >= 0, i < ln(f), c >= 0, c < S(zi(f.shape[1]))), el2(L["here"], i, c) == el2(f, i, c))))
    P("the output is not replaced", out[1] is None)


def el2(a, i, j):
    return a.fn(zi(i), zi(j))


class Part:
    _dv_native = _dv_sym = True

    def __init__(self):
        self.hooks = []

    def register_forward_hook(self, h):
        self.hooks.append(h)


class Parts:
    _dv_native = _dv_sym = True

    def __init__(self, names):
        self.parts = {q: Part() for q in names}

    def named_modules(self):
        return list(self.parts.items())


def b_reg(names):
    def b():
        layers, m = {}, Parts(["", "a", "b", "b.c"])
        return (m, layers, names), {}, dict(m=m, layers=layers, names=names)
    return b


def p_reg(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    for q, v in I["m"].parts.items():
        P("a hook on the layers named, on no other", len(v.hooks) == (q in I["names"]))
        for h in v.hooks:
            P("for its name, into the shared dictionary", h.layer_name == q and h.intermediate_layers is I["layers"])


def b_nonlin(kind):
    def b():
        torch_mode()
        crit = torch.nn.CrossEntropyLoss() if kind == "cross entropy" else torch.nn.MSELoss()
        own = torch.sigmoid
        s = net(criterion_=Rec("criterion", None, base_criterion=crit), _criteria=["criterion"] if kind != "two" else ["criterion", "other"],
                predict_nonlinearity={"own": own, "none": None, "bad": "softmax"}.get(kind, "auto"))
        return (s,), {}, dict(kind=kind, own=own)
    return b


def p_nonlin(P, out, I):
    from skorch.utils import _identity

    k = I["kind"]
    if k == "bad":
        return P("refused", out[0] == "raise" and isinstance(out[1], TypeError))
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r = out[1]
    if k == "cross entropy":
        P("softmax over the classes", getattr(r, "func", None) is torch.softmax and r.keywords == dict(dim=-1) and not r.args)
    else:
        P("the function given" if k == "own" else "no function", r is (I["own"] if k == "own" else _identity))


def b_random(n_parts):
    def b():
        torch_mode()
        n = length("n", 1)
        dims, out = [2, 3, 2][:n_parts], 2
        parts = [floats2(n, q, f"part{e}") for e, q in enumerate(dims)]
        R = [floats2(q, out, f"R{e}") for e, q in enumerate(dims)]
        s = opt(DA, "_RandomLayer").__new__(opt(DA, "_RandomLayer"))
        torch.nn.Module.__init__(s)
        s.output_dim, s.random_matrix = out, R
        return (s, parts), {}, dict(n=n, parts=parts, R=R, out=out, dims=dims)
    return b


def p_random(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r, n, i = out[1], I["n"], fresh_int("i")
    P("one row per sample", And(ln(r) == n, S(zi(r.shape[1]) == I["out"])))
    import math

    scale = math.pow(float(I["out"]), 1.0 / len(I["parts"]))
    for c in range(I["out"]):
        want = None
        for e, q in enumerate(I["dims"]):
            v = None
            for t in range(q):
                x = el2(I["parts"][e], i, S(z3.IntVal(t))) * el2(I["R"][e], S(z3.IntVal(t)), S(z3.IntVal(c)))
                v = x if v is None else v + x
            want = v / scale if want is None else want * v
        P("the product of the projections", Implies(And(i >= 0, i < n), el2(r, i, S(z3.IntVal(c))) == want))


def one(x, *a, **k):
    return x


class grad:
    _dv_native = _dv_sym = True

    def __init__(self, on):
        LOG.append(("grad", (on,), {}))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


one._dv_native = one._dv_sym = True


# ------------------------------------------------------------ runtime (bounded)
class Net2(torch.nn.Module):
    """linear, named layers, no randomness; remembers every call"""

    def __init__(self, d, h, K, seed, weights=True):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.body = torch.nn.Linear(d, h)
        self.act = torch.nn.Tanh()
        self.head = torch.nn.Linear(h, K)
        for q in self.parameters():
            q.data = torch.randn(q.shape, generator=g)
        self.seen = []

    def forward(self, X, sample_weight=None):
        self.seen.append((X.detach().numpy().copy(), None if sample_weight is None else sample_weight.detach().numpy().copy()))
        return self.head(self.act(self.body(X)))


class Plain(Net2):
    def forward(self, X):
        self.seen.append((X.detach().numpy().copy(), None))
        return self.head(self.act(self.body(X)))


class Spy(DB.BaseDALoss):
    """an adaptation loss: remembers what it is given; worth the mean target feature"""

    def __init__(self):
        super().__init__()
        self.got = []

    def forward(self, **k):
        self.got.append({q: None if v is None else v.detach().numpy().copy() for q, v in k.items()})
        return k["y_pred_t"].mean()


def feats(m, X):
    with torch.no_grad():
        return m.act(m.body(torch.as_tensor(X))).numpy()


def proba(m, X):
    with torch.no_grad():
        return torch.softmax(m.head(m.act(m.body(torch.as_tensor(X)))), -1).numpy()


def given_as(p, X, y, sd, w):
    if p["form"] == "arrays":
        return (X, y, sd, w) if w is not None else (X, y, sd)
    if p["form"] == "dict":
        d = dict(X=X, sample_domain=sd)
        if w is not None:
            d["sample_weight"] = w
        return (d, y)
    if p["form"] == "dataset":
        return (DB.DeepDADataset(X, y, sd, w), None)
    d = dict(X=X, sample_domain=sd)
    if w is not None:
        d["sample_weight"] = w
    return (skorch.dataset.Dataset(d, y), None)


def make(p, mod, spy=None, **kw):
    return opt(DB, "DomainAwareNet")(
        module=opt(DB, "DomainAwareModule"), module__base_module=mod, module__layer_name="act", iterator_train=opt(DB, "DomainBalancedDataLoader"),
        criterion=opt(DB, "DomainAwareCriterion"), criterion__base_criterion=torch.nn.CrossEntropyLoss(), criterion__reg=p["reg"],
        criterion__adapt_criterion=spy or Spy(), batch_size=p["bs"], max_epochs=1, train_split=None, verbose=0, lr=0.0, **kw)


def where_(X, rows_):
    """the positions of the rows (all different) in X"""
    at = {X[q].tobytes(): q for q in range(len(X))}
    try:
        return np.array([at[r.tobytes()] for r in rows_], int)
    except KeyError:
        raise Violation("batch/foreign", "a row that was not given")


def k_train(p):
    X, y, sd, w = p["X"], p["y"], p["sd"], p["w"]
    target = p["target"]
    if min((sd >= 0).sum(), (sd < 0).sum()) < p["bs"]:
        raise Skip("less than a batch")
    mod, spy = (Net2 if w is not None or p["accepts"] else Plain)(X.shape[1], 3, 3, p["seed"]), Spy()
    net = make(p, mod, spy, **({} if w is None else dict(criterion__reduction="none")), criterion__train_on_target=target)
    torch.manual_seed(p["seed"])
    must("fit", net.fit, *given_as(p, X, y, sd, w))
    check("batches", len(spy.got) == len(mod.seen) >= 1, (len(spy.got), len(mod.seen)))
    hist = net.history[-1]["batches"]
    ce = torch.nn.CrossEntropyLoss(reduction="none")
    for (bx, bw), got, h in zip(mod.seen, spy.got, hist):
        at = where_(X, bx)
        if w is not None:
            same_arr("batch/weights", bw, w[at])
        s, t = at[sd[at] >= 0], at[sd[at] < 0]
        check("batch/both sides", len(s) == len(t) == p["bs"], (len(s), len(t)))
        out = mod.head(mod.act(mod.body(torch.as_tensor(X)))).detach().numpy()
        f = feats(mod, X)
        rk = np.array([int((sd[:q] == sd[q]).sum()) for q in range(len(sd))])
        for nm, v in dict(y_s=y[s], y_pred_s=out[s], y_pred_t=out[t], features_s=f[s], features_t=f[t], sample_idx_s=rk[s], sample_idx_t=rk[t]).items():
            same_arr("adaptation loss/" + nm, got[nm], v, exact=False, tol=1e-4)
        check("adaptation loss/no domain predictions", got["domain_pred_s"] is None and got["domain_pred_t"] is None)
        b = t if target else s
        base = ce(torch.as_tensor(out[b]), torch.as_tensor(y[b])).numpy()
        ad = out[t].mean()
        want = (base.mean() + p["reg"] * ad) if w is None else (w[b] * (base + p["reg"] * ad)).mean()
        check("loss", abs(h["train_loss"] - want) <= 1e-3 * (1 + abs(want)), (h["train_loss"], want))


def k_predict(p):
    X, y, sd, w = p["X"], p["y"], p["sd"], p["w"]
    mod = (Net2 if w is not None or p["accepts"] else Plain)(X.shape[1], 3, 3, p["seed"])
    net = make(p, mod)
    must("initialize", net.initialize)
    src = p["source"]
    m = np.ones(len(X), bool) if src else sd < 0
    if not m.any():
        raise Skip("nothing to predict")
    kw = dict(allow_source=True) if src else {}
    if p["form"] == "arrays":
        a, k = (X,), dict(sample_domain=sd, **kw)
        if w is not None:
            k["sample_weight"] = w
    else:
        a, k = given_as(p, X, y, sd, w)[:1], kw
    want = proba(mod, X)[m]
    got = must("predict_proba", net.predict_proba, *a, **k)
    same_arr("predict_proba", got, want, exact=False, tol=1e-4)
    got = must("predict", net.predict, *a, **k)
    gap = np.sort(want, 1)
    if (gap[:, -1] - gap[:, -2] > 1e-4).all():
        same_arr("predict", got, want.argmax(1))
        ks = dict(k)
        ws = np.ones(len(X)) if p["form"] != "arrays" or w is None else w
        if ws[m].sum() > 0:
            acc = float(((want.argmax(1) == y[m]) * ws[m]).sum() / ws[m].sum())
            r = must("score", net.score, *a, y, **ks)
            check("score", abs(r - acc) < 1e-6, (r, acc))
    if p["form"] != "arrays":
        same_arr("predict_features", must("predict_features", net.predict_features, *a), feats(mod, X), exact=False, tol=1e-4)
    same_arr("arrays left alone", X, p["X"])


class Conv(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.conv = torch.nn.Conv1d(1, 2, 2)
        self.head = torch.nn.Sequential(torch.nn.Flatten(), torch.nn.LazyLinear(3))

    def forward(self, X):
        return self.head(torch.relu(self.conv(X.unsqueeze(1))))


def k_hook(p):
    """the features are the ones of the layer named, one row per sample"""
    torch.manual_seed(p["seed"])
    X = torch.as_tensor(p["X"])
    mod = Conv() if p["conv"] else Net2(X.shape[1], 3, 3, p["seed"])
    mod(X)
    name = "conv" if p["conv"] else p["layer"]
    net = opt(DB, "DomainAwareModule")(mod, name)
    y, f = must("features", net, X, return_features=True)
    layer = dict(mod.named_modules())[name]
    x = X.unsqueeze(1) if p["conv"] else mod.body(X) if name == "act" else mod.act(mod.body(X)) if name == "head" else X
    want = layer(x).detach().numpy()
    same_arr("the layer's output", f.detach().numpy(), want.reshape(len(want), -1), exact=False, tol=1e-5)
    same_arr("the predictions", y.detach().numpy(), mod(X).detach().numpy(), exact=False, tol=1e-5)
    r = must("fit", net, X, sample_domain="sd", is_fit=True, sample_idx="ix")
    check("fit/parts", len(r) == 5 and r[1] is None and r[3] == "sd" and r[4] == "ix", r)
    same_arr("fit/features", r[2].detach().numpy(), want.reshape(len(want), -1), exact=False, tol=1e-5)
    r = must("clone", lambda: __import__("sklearn").base.clone(net))
    y2, f2 = must("clone", r, X, return_features=True)
    same_arr("clone/features", f2.detach().numpy(), f.detach().numpy(), exact=False, tol=1e-5)


def k_cdan(p):
    n, d, K = p["n"], p["d"], p["K"]
    g = torch.Generator().manual_seed(p["seed"])
    X = torch.randn((n, 2), generator=g)
    mod = Net2(2, d, K, p["seed"])
    got = []

    class Keep(torch.nn.Module):
        def forward(self, x):
            got.append(x.detach().numpy())
            return x.sum(1)

    m = opt(DA, "CDANModule")(mod, "act", Keep(), max_features=p["max"])
    r = must("forward", m, X, is_fit=True)
    must("forward", m, X, is_fit=True)
    f, y = r[2].detach().numpy(), r[0].detach().numpy()
    if d * K <= p["max"]:
        want = (y[:, :, None] * f[:, None, :]).reshape(n, -1)
    else:
        h = torch.Generator().manual_seed(42)
        A = torch.randn((d, p["max"]), generator=h).numpy()
        B_ = torch.randn((K, p["max"]), generator=h).numpy()
        want = (f @ A) * (y @ B_) / np.sqrt(p["max"])
    check("multilinear map/calls", len(got) == 2)
    for q in got:
        same_arr("multilinear map", q, want, exact=False, tol=1e-4)


def k_method(p):
    """every method trains and predicts with its own defaults"""
    name, X, y, sd = p["method"], p["X"], p["y"], p["sd"]
    if min((sd >= 0).sum(), (sd < 0).sum()) < p["bs"] or len(set(y[sd >= 0])) < 3:
        raise Skip("less than a batch")
    mod = Net2(X.shape[1], 4, 3, p["seed"])
    before = [q.detach().clone() for q in mod.parameters()]
    kw = {}
    if name in CLASSIFIER:
        kw["num_features"] = 4
    if name in ("CDAN", "MDD"):
        kw["n_classes"] = 3
    torch.manual_seed(p["seed"])
    net = must(name, opt(mod_of(name), name), mod, layer_name="act", batch_size=p["bs"], max_epochs=2, train_split=None, verbose=0, lr=1e-3, **kw)
    must(name + "/fit", net.fit, X, y, sd)
    check(name + "/finite", np.isfinite([h["train_loss"] for h in net.history]).all(), net.history[:, "train_loss"])
    m = net.module_.base_module_
    check(name + "/trained", any((a != b).any() for a, b in zip(before, m.parameters())))
    from sklearn.base import clone

    must(name + "/clone", clone, net)
    m.eval()
    same_arr(name + "/predict_proba", must(name + "/predict_proba", net.predict_proba, X, sd), proba(m, X[sd < 0]), exact=False, tol=1e-4)


KINDS = dict(train=k_train, predict=k_predict, hook=k_hook, cdan=k_cdan, method=k_method)


def draw(r, rng, big=False, weights=None):
    n = r.randint(12, 30) if big else r.randint(2, 14)
    sd = r.choice(rng.choice([[1, -2], [0, -1], [1, 2, -3], [0, 3, -1, -2]]), n)
    sd[:2] = [max(sd.max(), 0), -2]
    w = weights if weights is not None else rng.random() < .5
    return dict(X=r.randn(n, 2).astype(np.float32), y=r.randint(0, 3, n), sd=sd, w=r.rand(n).astype(np.float32) if w else None,
                form=rng.choice(["arrays", "dict", "dataset", "skorch"]), seed=rng.randint(0, 999), reg=rng.choice([0, .5, 2.0]), bs=rng.randint(1, 4), accepts=rng.random() < .5)


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(20 if tier == "quick" else 300):
        yield "train", dict(draw(r, rng), target=rng.random() < .3)
        yield "train", dict(draw(r, rng, weights=True), target=rng.random() < .5)
        yield "predict", dict(draw(r, rng), source=rng.random() < .4)
        yield "predict", dict(draw(r, rng), source=rng.random() < .4)
        yield "hook", dict(X=r.randn(r.randint(1, 5), 4).astype(np.float32), conv=rng.random() < .3, layer=rng.choice(["body", "act", "head"]), seed=rng.randint(0, 999))
        yield "cdan", dict(n=rng.randint(1, 5), d=rng.randint(1, 4), K=rng.randint(1, 4), max=rng.choice([1, 3, 6, 20]), seed=rng.randint(0, 999))
        names = sorted(FACTORY)
        yield "method", dict(draw(r, rng, big=True), method=names[rep % len(names)], bs=4)
