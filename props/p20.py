"""P20: deep datasets keep samples, labels, domains and weights together, and the
samplers and loaders give the batches they promise."""
import itertools
from types import SimpleNamespace

import numpy as np
import torch
from skorch.utils import to_tensor
from torch.utils.data import DataLoader

import skada.deep.base as DB
from dv import npmodel, torchmodel
from dv.core import S, SArr, SMap, SSeq, ctx, z3, zi, I as INT, B
from dv.loops import Invariant
from dv.npmodel import compaction
from dv.prop import Scn, Violation, Skip, opt
from dv.spec import *
from dv.torchmodel import torch_mode
from props.p12 import call_m
from props.util import *
from props.p17 import hint

ID = "P20"
LEVEL = "proof"

LOG = []
DS = DB.DeepDADataset
MODELS = dict(torchmodel.MODELS)
MODELS[DB.to_tensor] = torchmodel.to_tensor
MODELS[DB.check_array] = torchmodel.check_array
COND = z3.Function("cond", INT, B)


class Cond:
    """a condition of the user's, any predicate of the values"""

    _dv_native = _dv_sym = True

    def __call__(self, a):
        LOG.append(("condition", a))
        f = a.fn
        if a.rows:
            return SArr((a.shape[0],), "b", lambda i: S(COND(TAGI(f(i).e))))
        return SArr((a.shape[0],), "b", lambda i: S(COND(val_of(f(i)))))


TAGI = z3.Function("row_key", npmodel.RowSort, INT)
KEY = z3.Function("key_of_real", z3.RealSort(), INT)


def val_of(s):
    return s.e if s.kind == "i" else KEY(s.e)


def cond_at(a, i):
    v = el(a, i)
    return S(COND(TAGI(v.e) if v.kind == "row" else val_of(v)))


def arrays(lo=1, weights=True, nm=""):
    n = length("n" + nm, lo)
    X = rows(n, length("d" + nm, 1) if nm != "2" else LOG[0], name="X" + nm)
    if nm != "2":
        LOG[:] = [X.shape[1]]
    y, sd = ints(n, "y" + nm), ints(n, "sd" + nm)
    w = floats(n, "w" + nm) if weights else None
    return n, X, y, sd, w


def p_state(P, d, n, X, y, sd, w, label=""):
    i = fresh_int("i")
    r = And(i >= 0, i < n)
    P(label + "one entry per sample", And(ln(d.X) == n, ln(d.y) == n, ln(d.sample_domain) == n))
    P(label + "samples, labels and domains as given", Implies(r, And(Same(el(d.X, i), X(i)), Same(el(d.y, i), y(i)), Same(el(d.sample_domain, i), sd(i)))))
    hy = npmodel.lit(d.has_y)
    P(label + "labelled: the label is not -1", And(ln(hy) == n, Implies(r, Iff(el(hy, i), y(i) != -1))))
    if w is None:
        P(label + "no weights", d.has_weights is False)
        P(label + "no weights left", ln(npmodel.lit(d.sample_weight)) == 0)
    else:
        P(label + "weighted", And(n > 0, d.has_weights) if isinstance(d.has_weights, S) else d.has_weights is True)
        P(label + "weights as given", And(ln(d.sample_weight) == n, Implies(r, Same(el(d.sample_weight, i), w(i)))))
    p_idx(P, d, n, sd, label)


def p_idx(P, d, n, sd, label=""):
    """sample i is the k-th of its domain, counting from zero: the index grows
    along the samples of a domain, by one at a time"""
    i, j = fresh_int("i"), fresh_int("j")
    ix = d._sample_idx
    P(label + "one index per sample", ln(ix) == n)
    ii, jj = And(i >= 0, i < n), And(j >= 0, j < n, sd(i) == sd(j))
    P(label + "sample index: not negative", Implies(ii, el(ix, i) >= 0))
    mine = [(st, last) for a, st, last in ctx().masked_stores if a is ix]
    for _, last in mine:
        hint(Implies(And(ii, jj), last(i) == last(j)))
    P(label + "sample index: grows within a domain", Implies(And(ii, jj, i < j), el(ix, i) < el(ix, j)))
    for st, _ in mine:
        w = fresh_int("w")  # the sample before it in its domain
        assume(w == st(i, el(ix, i) - 1))
        h = And(ii, el(ix, i) > 0)
        hint(Implies(h, And(w >= 0, w < n, sd(w) == sd(i))))
        hint(Implies(h, el(ix, w) == el(ix, i) - 1))
        hint(Implies(h, w < i))
        if P(label + "sample index: counts the samples of its domain",
             Implies(And(ii, el(ix, i) > 0), And(w >= 0, w < i, sd(w) == sd(i), el(ix, w) == el(ix, i) - 1))):
            return
    q = npmodel.iv("q")
    prev = S(z3.Exists([q], z3.And(0 <= q, q < zi(i), sd(S(q)).e == sd(i).e, el(ix, S(q)).e == el(ix, i).e - 1)))
    P(label + "sample index: counts the samples of its domain", Implies(And(ii, el(ix, i) > 0), prev))


def at(a):
    return (lambda i: el(a, i))


def b_init(weights, y=True, sd=True, form="array", lo=1):
    def b():
        torch_mode()
        n, X, y_, sd_, w = arrays(lo, weights)
        I = dict(n=n, X=at(X.snapshot()), y=at(y_.snapshot()) if y else (lambda i: S(z3.IntVal(-1))),
                 sd=at(sd_.snapshot()) if sd is True else (lambda i: S(z3.IntVal(0 if sd is False else sd))), w=at(w.snapshot()) if weights else None)
        y_, sd_ = y_ if y else None, sd_ if sd is True else (None if sd is False else sd)
        if form == "dict":
            d = {k: v for k, v in dict(X=X, y=y_, sample_domain=sd_, sample_weight=w).items() if v is not None}
            return (d,), {}, I
        return (X, y_, sd_, w), {}, I
    return b


def new(it, *a, **k):
    return it.call(DS, a, k)


def p_init(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    p_state(P, out[1], I["n"], I["X"], I["y"], I["sd"], I["w"])


# ------------------------------------------------------------------- methods
def ds(n, X, y, sd, w, labels=True):
    """a dataset satisfying the invariant of its class"""
    d = DS.__new__(DS)
    d.X, d.y, d.sample_domain = X, y, sd
    d.sample_weight = w if w is not None else torch.Tensor()
    d.has_weights = w is not None
    yf = y.fn
    d.has_y = SArr((n,), "b", lambda i: yf(i) != -1)
    d.device, d.allow_label_masks = "cpu", True
    d._sample_idx = ints(n, "idx")
    return d


def state(n, X, y, sd, w):
    return dict(n=n, X=X.snapshot(), y=y.snapshot(), sd=sd.snapshot(), w=w.snapshot() if w is not None else None)


def frame(P, d, I, label="the dataset is left as it was"):
    n, i = I["n"], fresh_int("i")
    r = And(i >= 0, i < n)
    same = [And(ln(a) == n, Implies(r, Same(el(a, i), el(b, i)))) for a, b in ((d.X, I["X"]), (d.y, I["y"]), (d.sample_domain, I["sd"]))]
    P(label, And(*same, And(ln(d._sample_idx) == n, Implies(r, el(d._sample_idx, i) == el(I["ix"], i)))))
    if I["w"] is not None:
        P(label + " (weights)", And(ln(npmodel.lit(d.sample_weight)) == n, Implies(r, Same(el(d.sample_weight, i), el(I["w"], i)))))


def b_ds(weights, *args, lo=1, **kw):
    def b():
        torch_mode()
        n, X, y, sd, w = arrays(lo, weights)
        d = ds(n, X, y, sd, w)
        I = dict(state(n, X, y, sd, w), d=d, ix=d._sample_idx.snapshot())
        a = [q() if callable(q) and not isinstance(q, Cond) else q for q in args]
        I["args"], I["kw"] = a, kw
        return (d, *a), kw, I
    return b


def m_call(name):
    def f(it, d, *a, **k):
        return it.call(getattr(d, name), a, k)
    return f


def selected(P, r, I, pred, weights):
    X, y, sd, w = I["X"], I["y"], I["sd"], I["w"]
    comp = [(r.y, y), (r.sample_domain, sd)]
    if weights and w is not None:
        # an empty selection has no weights to carry
        P("the weights come along", Implies(ln(r.X) > 0, r.has_weights if isinstance(r.has_weights, S) else S(z3.BoolVal(bool(r.has_weights)))))
        if not isinstance(r.sample_weight, torch.Tensor):
            comp.append((r.sample_weight, w))
    else:
        P("no weights", Not(r.has_weights) if isinstance(r.has_weights, S) else not r.has_weights)
    prove_selection(P, "selected", r.X, X, pred, comp)
    m, k = ln(r.X), fresh_int("k")
    P("labelled: the label is not -1", Implies(And(k >= 0, k < m), Iff(el(r.has_y, k), el(r.y, k) != -1)))
    p_idx(P, r, m, lambda i: el(r.sample_domain, i))
    frame(P, I["d"], I)


def p_sel(pred):
    def p(P, out, I):
        if out[0] == "raise":
            return P.fail("accepted", repr(out[1]))
        P("a new dataset", isinstance(out[1], DS) and out[1] is not I["d"])
        selected(P, out[1], I, pred(I), I["kw"].get("return_weights", True))
    return p


ON = dict(X=lambda I: lambda i: cond_at(I["X"], i), sample_domain=lambda I: lambda i: cond_at(I["sd"], i),
          y=lambda I: lambda i: And(el(I["y"], i) != -1, cond_at(I["y"], i)), sample_weight=lambda I: lambda i: cond_at(I["w"], i))


def b_merge(w1, w2, keep, out):
    def b():
        torch_mode()
        A, C = arrays(0, w1), arrays(0, w2, "2")
        d, e = ds(*A), ds(*C)
        I = dict(A=state(*A), C=state(*C), d=d, e=e, keep=keep and w1 and w2, out=out)
        I["A"]["ix"], I["C"]["ix"] = d._sample_idx.snapshot(), e._sample_idx.snapshot()
        return (d, e), dict(keep_weights=keep, out=out), I
    return b


def joined(I, k):
    a, b, n = I["A"][k], I["C"][k], I["A"]["n"]
    return lambda i: S(z3.If(zi(i) < zi(n), el(a, i).e, el(b, S(zi(i) - zi(n))).e))


def p_merged(P, r, I):
    n = I["A"]["n"] + I["C"]["n"]
    ctx().branch(zi(n) > 0) if I["keep"] else None
    if I["keep"] and npmodel.deq(n, 0):
        return
    p_state(P, r, n, joined(I, "X"), joined(I, "y"), joined(I, "sd"), joined(I, "w") if I["keep"] else None)


def p_merge(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    if I["out"]:
        P("a new dataset", isinstance(out[1], DS) and out[1] is not I["d"] and out[1] is not I["e"])
        p_merged(P, out[1], I)
        frame(P, I["d"], I["A"], "the first dataset is left as it was")
    else:
        P("nothing is returned", out[1] is None)
        p_merged(P, I["d"], I)
    frame(P, I["e"], I["C"], "the second dataset is left as it was")


def b_add(form):
    def b():
        torch_mode()
        A, C = arrays(0, False), arrays(1, False, "2")
        d, e = ds(*A), ds(*C)
        I = dict(A=state(*A), C=state(*C), d=d, keep=False)
        I["A"]["ix"] = d._sample_idx.snapshot()
        if form == "dataset":
            g = e
        elif form == "dict":
            g = dict(X=C[1], y=C[2], sample_domain=C[3])
        else:
            g = (C[1], C[2], C[3])
        return (d, g), {}, I
    return b


def p_add(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    p_merged(P, out[1], I)
    frame(P, I["d"], I["A"])


def b_copy(w):
    def b():
        torch_mode()
        A = arrays(1, w)
        d = ds(*A)
        I = dict(state(*A), d=d, ix=d._sample_idx.snapshot())
        return (d,), {}, I
    return b


def p_copy(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    p_state(P, out[1], I["n"], at(I["X"]), at(I["y"]), at(I["sd"]), at(I["w"]) if I["w"] is not None else None)
    frame(P, I["d"], I)


def p_refused(kind):
    def p(P, out, I):
        P(f"refused with {kind.__name__}", out[0] == "raise" and isinstance(out[1], kind))
    return p


def p_domains(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r = out[1]
    m, k, i = ln(r), fresh_int("k"), fresh_int("i")
    g = (lambda q: r.item(zi(q))) if isinstance(r, SSeq) else (lambda q: el(r, q))
    n, sd = I["n"], I["sd"]
    kk = And(k >= 0, k < m)
    P("sorted, each once", Implies(And(kk, k + 1 < m), g(k) < g(k + 1)))
    P("only domains of samples", Implies(kk, exists_idx(n, lambda q: el(sd, q) == g(k))))
    P("every sample's domain", Implies(And(i >= 0, i < n), exists_idx(m, lambda q: g(q) == el(sd, i))))
    frame(P, I["d"], I)


def p_split(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r = out[1]
    P("a dictionary", isinstance(r, (dict, SMap)))
    if isinstance(r, SMap):
        m, j = ln(r), fresh_int("j")
        assume(And(j >= 0, j < m))
        key, v = r.key(zi(j)), r.val(zi(j))
        i = fresh_int("i")
        P("every domain of a sample is a key", Implies(And(i >= 0, i < I["n"]), exists_idx(m, lambda q: r.key(zi(q)) == el(I["sd"], i))))
        k2 = fresh_int("j2")
        P("each domain once", Implies(And(k2 >= 0, k2 < m, k2 != j), r.key(zi(k2)) != key))
        selected(P, v, I, lambda i: el(I["sd"], i) == key, True)


def b_item(weights):
    def b():
        r = b_ds(weights)()
        i = fresh_int("pos")
        assume(And(i >= 0, i < r[2]["n"]))
        r[2]["i"] = i
        return (r[0][0], i), {}, r[2]
    return b


def p_item(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    d, y = out[1]
    i = I["i"]
    P("the sample, its domain and its index", And(Same(d["X"], el(I["X"], i)), d["sample_domain"] == el(I["sd"], i), d["sample_idx"] == el(I["ix"], i)))
    P("its label", y == el(I["y"], i))
    if I["w"] is not None:
        P("its weight", d["sample_weight"] == el(I["w"], i))
    P("nothing else", set(d) == {"X", "sample_domain", "sample_idx"} | ({"sample_weight"} if I["w"] is not None else set()))


def p_dict(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r, ix = out[1], I["kw"].get("sample_indices", True)
    P("the entries asked for", set(r) == {"X", "y", "sample_domain"} | ({"sample_weight"} if I["w"] is not None else set()) | ({"sample_idx"} if ix else set()))
    P("the arrays of the dataset", And(*[arr_same(r[k], I[q]) for k, q in (("X", "X"), ("y", "y"), ("sample_domain", "sd"), ("sample_weight", "w"), ("sample_idx", "ix")) if k in r]))


def p_arrays(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    want = ["X", "y", "sd"] + (["w"] if I["w"] is not None and I["kw"].get("return_weights", True) else [])
    P("the arrays asked for", isinstance(out[1], tuple) and len(out[1]) == len(want))
    P("in order", And(*[arr_same(a, I[k]) for a, k in zip(out[1], want)]))


def b_addw(bad=False):
    def b():
        r = b_ds(False)()
        n = r[2]["n"]
        m = n
        if bad:
            m = length("m", 1)
            assume(m != n)
        w = floats(m, "w")
        r[2]["w2"] = w.snapshot()
        return (r[0][0], w), {}, r[2]
    return b


def p_addw(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    d = I["d"]
    P("the dataset itself", out[1] is d)
    P("weighted", d.has_weights)
    P("the weights given", arr_same(d.sample_weight, I["w2"]))
    frame(P, d, I, "nothing else changes")


def p_rmw(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    d = I["d"]
    P("the dataset itself", out[1] is d)
    P("without weights", d.has_weights is False and len(d.sample_weight) == 0)
    frame(P, d, dict(I, w=None), "nothing else changes")


# ------------------------------------------------------- samplers and loaders
PERM = z3.Function("shuffled", INT, INT, INT, INT)
INV = z3.Function("unshuffled", INT, INT, INT, INT)


class Shuffler:
    """torch.utils.data.RandomSampler: every pass is some order of the positions"""

    _dv_native = _dv_sym = True

    def __init__(self, src, *a, **k):
        if a or k:
            raise Skip("another RandomSampler")
        note_random()
        self.n = ln(src)
        self.id = len(LOG)
        LOG.append(self)
        c = ctx()
        c.fact(zi(self.n) >= 0)
        e, q = npmodel.iv("e"), npmodel.iv("q")
        c.forall([e, q], z3.Implies(z3.And(0 <= q, q < zi(self.n)), z3.And(0 <= PERM(self.id, e, q), PERM(self.id, e, q) < zi(self.n), INV(self.id, e, PERM(self.id, e, q)) == q)), [PERM(self.id, e, q)])
        self.passes = S(z3.IntVal(0))

    def __len__(self):
        raise Skip("length of a sampler")

    def __iter__(self):
        w = Walk(self, self.passes, S(z3.IntVal(0)))
        self.passes = self.passes + 1
        return w


def note_random():
    npmodel.note("torch RandomSampler (each pass is a permutation of the positions)")


class Walk:
    """one pass; at: how many positions it has given"""

    _dv_native = _dv_sym = True

    def __init__(self, src, epoch, at):
        self.src, self.epoch, self.at = src, epoch, at

    def __iter__(self):
        return self

    def __next__(self):
        n = zi(self.src.n)
        if ctx().branch(zi(self.at) < n):
            v = S(PERM(self.src.id, zi(self.epoch), zi(self.at)))
            self.at = self.at + 1
            return v
        raise StopIteration()

    def _dv_havoc(self, nm):
        w = Walk(self.src, fresh_int(nm + "_pass"), fresh_int(nm + "_at"))
        self.src.passes = w.epoch + 1
        return w


SAMPLER_MODELS = dict(MODELS)
SAMPLER_MODELS[torch.utils.data.sampler.RandomSampler] = Shuffler


def sampler_data():
    """what a sampler is given: samples with a domain each, some on both sides"""
    n = length("n", 2)
    sd = ints(n, "sd")
    y = ints(n, "y")
    data = SSeq(n, lambda j: ({"sample_domain": el(sd, S(zi(j)))}, el(y, S(zi(j)))))
    i, j = fresh_int("src"), fresh_int("tgt")
    assume(And(i >= 0, i < n, el(sd, i) >= 0, j >= 0, j < n, el(sd, j) < 0))
    return n, sd, data


MAX = ("max", "min", "source", "target")


def b_sampler(cls, opts):
    def b():
        torch_mode()
        LOG.clear()
        n, sd, data = sampler_data()
        bs = length("bs", 1)
        return (opt(DB, cls), data, bs), dict(opts), dict(n=n, sd=sd, bs=bs, data=data, o=opts)
    return b


def c_new(it, cls, *a, **k):
    return it.call(cls, a, k)


def side(I, src):
    sd = I["sd"]
    return compaction(SArr((I["n"],), "b", lambda i: S(el(sd, S(i)).e >= 0 if src else el(sd, S(i)).e < 0)))


def positions(P, r, I, src, what):
    """exactly the positions of that side, in order"""
    m, k, i, n, sd = ln(r), fresh_int("k"), fresh_int("i"), I["n"], I["sd"]
    ok = (lambda q: el(sd, q) >= 0) if src else (lambda q: el(sd, q) < 0)
    g = lambda q: r.item(zi(q)) if isinstance(r, SSeq) else el(r, q)
    kk = And(k >= 0, k < m)
    P(what + ": of that side", Implies(kk, And(g(k) >= 0, g(k) < n, ok(g(k)))))
    P(what + ": each once", Implies(And(kk, k + 1 < m), g(k) < g(k + 1)))
    P(what + ": all of them", Implies(And(i >= 0, i < n, ok(i)), exists_idx(m, lambda q: g(q) == i)))


def whole(m, bs):
    return S(zi(m) - zi(m) % zi(bs))


def p_balanced(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r = out[1]
    positions(P, r.positive_indices, I, True, "source positions")
    positions(P, r.negative_indices, I, False, "target positions")
    s, t = whole(ln(r.positive_indices), I["bs"]), whole(ln(r.negative_indices), I["bs"])
    m = I["o"].get("max_samples", "max")
    want = dict(max=S(z3.If(zi(s) >= zi(t), zi(s), zi(t))), min=S(z3.If(zi(s) <= zi(t), zi(s), zi(t))), source=s, target=t)[m]
    P("pairs per epoch: whole batches of the side asked for", r.num_samples == want)


def p_only(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    r = out[1]
    positions(P, r.indices, I, I["o"].get("domain_used", "source") == "source", "positions")
    P("whole batches", r.num_samples == whole(ln(r.indices), I["bs"]))


def made(cls, sides):
    """a sampler as its __init__ leaves it (its postcondition)"""
    s = opt(DB, cls).__new__(opt(DB, cls))
    for nm in sides:
        n = length(nm, 1)
        v = ints(n, nm)
        setattr(s, nm, SSeq(n, lambda j, v=v: el(v, S(zi(j)))))
    s.num_samples = length("num_samples", 0)
    return s


def b_walk(cls, sides):
    def b():
        torch_mode()
        LOG.clear()
        s = made(cls, sides)
        if cls == "DomainOnlySampler":
            assume(s.num_samples <= ln(s.indices))
        return (s,), {}, dict(s=s, sides=sides)
    return b


def c_iter(it, s):
    return it.call(type(s).__iter__, (s,), {})


def last(w, src):
    """the position a pass gave last, in the list of the side"""
    return src.item(PERM(w.src.id, zi(w.epoch), zi(w.at) - 1))


def ok(w, k):
    n = S(zi(w.src.n))
    return And(w.epoch >= 0, w.at >= 0, w.at <= n, S(zi(k) == zi(w.epoch) * zi(n) + zi(w.at)), S(zi(w.src.passes) == zi(w.epoch) + 1))


def inv_balanced(get, k):
    p, q = get("positive_iter"), get("negative_iter")
    return And(p.src is get("positive_sampler"), q.src is get("negative_sampler"), ok(p, k), ok(q, k))


def y_balanced(get, k, v):
    s, p, q = get("self"), get("positive_iter"), get("negative_iter")
    if len(v) != 2:
        return S(z3.BoolVal(False))
    return And(v[0] == last(p, s.positive_indices), v[1] == last(q, s.negative_indices))


def inv_only(get, k):
    w = get("iterator")
    return And(w.src is get("sampler"), w.epoch == 0, ok(w, k))


def y_only(get, k, v):
    if len(v) != 1:
        return S(z3.BoolVal(False))
    return v[0] == last(get("iterator"), get("self").indices)


def p_walk(P, out, I):
    if out[0] == "raise":
        return P.fail("accepted", repr(out[1]))
    s = I["s"]
    P("as many rounds as announced", out[1].iterations == s.num_samples)
    P("a pass of each side", len(LOG) == len(I["sides"]) and all(w.n is ln(getattr(s, nm)) or npmodel.deq(w.n, ln(getattr(s, nm))) for w, nm in zip(LOG, I["sides"])))


def p_len(k):
    def p(P, out, I):
        P("accepted", out[0] == "return")
        P("indices announced", out[1] == I["s"].num_samples * k)
    return p


def c_len(it, s):
    return it.call(type(s).__len__, (s,), {})


LOADED = []


def rec_loader(self, *a, **k):
    LOADED.append((self, a, k))


rec_loader._dv_native = rec_loader._dv_sym = True


def b_loader(cls, opts):
    def b():
        LOADED.clear()
        r = b_sampler(cls, opts)()
        return r
    return b


def p_loader(mult, key):
    names = ["dataset", "batch_size", "shuffle", "sampler", "batch_sampler", "num_workers", "collate_fn", "pin_memory", "drop_last", "timeout", "worker_init_fn", "multiprocessing_context"]
    dflt = dict(shuffle=False, batch_sampler=None, num_workers=0, collate_fn=None, pin_memory=False, drop_last=False, timeout=0, worker_init_fn=None, multiprocessing_context=None)

    def p(P, out, I):
        if out[0] == "raise":
            return P.fail("accepted", repr(out[1]))
        P("one loader", len(LOADED) == 1)
        _, a, k = LOADED[0]
        g = dict(zip(names, a), **k)
        P("the data given", g["dataset"] is I["data"])
        P("pairs fill the batches" if mult == 2 else "the batch size given", g["batch_size"] == I["bs"] * mult)
        P("the options given", all(g.get(q, v) is I["o"].get(q, v) for q, v in dflt.items()))
        s = g["sampler"]
        P("a sampler of its own", isinstance(s, opt(DB, key)))
        (p_balanced if mult == 2 else p_only)(P, ("return", s), I)
    return p


def sampler_scenarios():
    C = lambda c, p: opt(opt(DB, c), p)
    q = dict(models=SAMPLER_MODELS)
    B_, O = "DomainBalancedSampler", "DomainOnlySampler"
    out = []
    for m in MAX:
        out.append(Scn(f"{B_}.__init__ ({m})", C(B_, "__init__"), b_sampler(B_, dict(max_samples=m)), p_balanced, call=c_new, **q))
    for m in ("source", "target"):
        out.append(Scn(f"{O}.__init__ ({m})", C(O, "__init__"), b_sampler(O, dict(domain_used=m)), p_only, call=c_new, **q))
    out.append(Scn(f"{O}.__init__ (unknown)", C(O, "__init__"), b_sampler(O, dict(domain_used="z")), p_refused(ValueError), call=c_new, expect=("raise:ValueError",), **q))
    out.append(Scn(f"{B_}.__iter__", C(B_, "__iter__"), b_walk(B_, ("positive_indices", "negative_indices")), p_walk, call=c_iter,
                   invariants={f"{B_}.__iter__": {0: Invariant(inv_balanced, yields=y_balanced)}}, **q))
    out.append(Scn(f"{O}.__iter__", C(O, "__iter__"), b_walk(O, ("indices",)), p_walk, call=c_iter,
                   invariants={f"{O}.__iter__": {0: Invariant(inv_only, yields=y_only)}}, **q))
    out.append(Scn(f"{B_}.__len__", C(B_, "__len__"), b_walk(B_, ("positive_indices", "negative_indices")), p_len(2), call=c_len, **q))
    out.append(Scn(f"{O}.__len__", C(O, "__len__"), b_walk(O, ("indices",)), p_len(1), call=c_len, **q))
    lm = dict(SAMPLER_MODELS)
    lm[DataLoader.__init__] = rec_loader
    ql = dict(models=lm)
    for m in ("max", "min"):
        o = dict(max_samples=m, num_workers=2, drop_last=True, timeout=3)
        out.append(Scn(f"DomainBalancedDataLoader ({m})", C("DomainBalancedDataLoader", "__init__"), b_loader("DomainBalancedDataLoader", o), p_loader(2, B_), call=c_new, **ql))
    for m in ("source", "target"):
        o = dict(domain_used=m, num_workers=2, pin_memory=True, collate_fn=len)
        out.append(Scn(f"DomainOnlyDataLoader ({m})", C("DomainOnlyDataLoader", "__init__"), b_loader("DomainOnlyDataLoader", o), p_loader(1, O), call=c_new, **ql))
    return out


def scenarios():
    C = lambda p: opt(DS, p)
    q = dict(models=MODELS)
    out = []
    for wt in (True, False):
        s = ", weights" if wt else ""
        out.append(Scn(f"DeepDADataset.__init__ (arrays{s})", C("__init__"), b_init(wt), p_init, call=new, **q))
        out.append(Scn(f"DeepDADataset.__init__ (dictionary{s})", C("_if_given_dict"), b_init(wt, form="dict"), p_init, call=new, **q))
        out.append(Scn(f"DeepDADataset.__init__ (dataset{s})", C("merge"), b_copy(wt), p_copy, call=new, **q))
        out.append(Scn(f"DeepDADataset.per_domain_split ({'weights' if wt else 'no weights'})", C("per_domain_split"), b_ds(wt), p_split, call=m_call("per_domain_split"), **q))
        out.append(Scn(f"DeepDADataset.__getitem__ ({'weights' if wt else 'no weights'})", C("__getitem__"), b_item(wt), p_item, call=m_call("__getitem__"), **q))
        for k in (True, False):
            out.append(Scn(f"DeepDADataset.as_dict ({wt}, {k})", C("as_dict"), b_ds(wt, sample_indices=k), p_dict, call=m_call("as_dict"), **q))
            out.append(Scn(f"DeepDADataset.as_arrays ({wt}, {k})", C("as_arrays"), b_ds(wt, return_weights=k), p_arrays, call=m_call("as_arrays"), **q))
        for rw in (True, False) if wt else (True,):
            t = f"({'weights' if wt else 'no weights'}{'' if rw else ' dropped'})"
            kw = {} if rw else dict(return_weights=False)
            out.append(Scn(f"DeepDADataset.select_source {t}", C("select_source"), b_ds(wt, **kw), p_sel(lambda I: lambda i: el(I["sd"], i) >= 0), call=m_call("select_source"), **q))
            out.append(Scn(f"DeepDADataset.select_target {t}", C("select_target"), b_ds(wt, **kw), p_sel(lambda I: lambda i: el(I["sd"], i) < 0), call=m_call("select_target"), **q))
            out.append(Scn(f"DeepDADataset.select_domain {t}", C("select_domain"), b_ds(wt, lambda: fresh_int("id"), **kw), p_sel(lambda I: lambda i: el(I["sd"], i) == I["args"][0]), call=m_call("select_domain"), **q))
            out.append(Scn(f"DeepDADataset.select_with_labels {t}", C("select_with_labels"), b_ds(wt, **kw), p_sel(lambda I: lambda i: el(I["y"], i) != -1), call=m_call("select_with_labels"), **q))
            for on in ON:
                if on == "sample_weight" and not wt:
                    continue
                out.append(Scn(f"DeepDADataset.select on {on} {t}", C("select"), b_ds(wt, Cond(), on, **kw), p_sel(ON[on]), call=m_call("select"), **q))
    out.append(Scn("DeepDADataset.select on weights (none)", C("select"), b_ds(False, Cond(), "sample_weight"), p_refused(ValueError), call=m_call("select"), expect=("raise:ValueError",), **q))
    out.append(Scn("DeepDADataset.select on something else", C("select"), b_ds(False, Cond(), "z"), p_refused(ValueError), call=m_call("select"), expect=("raise:ValueError",), **q))
    out.append(Scn("DeepDADataset.__init__ (no labels)", C("_initialize"), b_init(False, y=False), p_init, call=new, **q))
    out.append(Scn("DeepDADataset.__init__ (no domains)", C("_initialize"), b_init(False, sd=False), p_init, call=new, **q))
    out.append(Scn("DeepDADataset.__init__ (one domain)", C("_initialize"), b_init(True, sd=3), p_init, call=new, **q))
    out.append(Scn("DeepDADataset.__init__ (dictionary, one domain)", C("_initialize"), b_init(False, sd=-3, form="dict"), p_init, call=new, **q))
    for w1, w2, keep in ((False, False, False), (True, True, True), (True, True, False), (True, False, False)):
        for o in (True, False):
            out.append(Scn(f"DeepDADataset.merge ({w1}, {w2}, {'keep' if keep else 'drop'} weights{'' if o else ', in place'})", C("merge"), b_merge(w1, w2, keep, o), p_merge, call=m_call("merge"), **q))
    for form in ("dataset", "dict", "tuple"):
        out.append(Scn(f"DeepDADataset.add_domain ({form})", C("add_domain"), b_add(form), p_add, call=m_call("add_domain"), **q))
    out.append(Scn("DeepDADataset.merge (not a dataset)", C("merge"), b_ds(False, dict), p_refused(TypeError), call=m_call("merge"), expect=("raise:TypeError",), **q))
    out.append(Scn("DeepDADataset.domains", C("domains"), b_ds(False), p_domains, call=m_call("domains"), **q))
    out.append(Scn("DeepDADataset.add_weights", C("add_weights"), b_addw(), p_addw, call=m_call("add_weights"), **q))
    out.append(Scn("DeepDADataset.add_weights (other length)", C("add_weights"), b_addw(True), p_refused(AssertionError), call=m_call("add_weights"), expect=("raise:AssertionError",), **q))
    out.append(Scn("DeepDADataset.remove_weights", C("remove_weights"), b_ds(True), p_rmw, call=m_call("remove_weights"), **q))
    return out + sampler_scenarios()


# ------------------------------------------------------------ runtime (bounded)
def nums(t):
    return t.detach().numpy() if isinstance(t, torch.Tensor) else np.asarray(t)


def ranks(sd):
    return np.array([int((sd[:q] == sd[q]).sum()) for q in range(len(sd))], int)


def holds(key, D, X, y, sd, w):
    check(key + "/length", len(D) == len(X), (len(D), len(X)))
    same_arr(key + "/samples", nums(D.X), X)
    same_arr(key + "/labels", nums(D.y), y)
    same_arr(key + "/domains", nums(D.sample_domain), sd)
    same_arr(key + "/labelled", nums(D.has_y), y != -1)
    same_arr(key + "/sample index", nums(D._sample_idx), ranks(sd))
    check(key + "/weighted", bool(D.has_weights) == (w is not None and len(X) > 0), D.has_weights)
    if w is not None:
        same_arr(key + "/weights", nums(D.sample_weight), w)
    for q in range(len(X)):
        d, lab = must(key + "/item", lambda: D[q])
        check(key + "/item", set(d) == {"X", "sample_domain", "sample_idx"} | ({"sample_weight"} if w is not None else set()), set(d))
        check(key + "/item", np.array_equal(nums(d["X"]), X[q]) and d["sample_domain"] == sd[q] and lab == y[q] and (w is None or d["sample_weight"] == w[q]) and d["sample_idx"] == ranks(sd)[q], q)


def fields(p, s=""):
    return p["X" + s], p["y" + s], p["sd" + s], p["w" + s]


def build(p, s=""):
    X, y, sd, w = fields(p, s)
    return must("dataset", DS, X, y, sd, w)


def k_data(p):
    X, y, sd, w = fields(p)
    form = p["form"]
    if form == "arrays":
        D = build(p)
    else:
        d = {k: v for k, v in dict(X=X, y=y, sample_domain=sd, sample_weight=w).items() if v is not None}
        if form == "dict":
            D = must("dict", DS, d)
        elif form == "dataset":
            D = must("copy", DS, build(p))
        else:
            import pandas as pd

            D = must("frame", DS, pd.DataFrame({k: [r.tolist() for r in v] if np.ndim(v) > 1 else v for k, v in d.items()}))
    holds(form, D, X, y, sd, w)
    one = must("one domain", DS, X, y, p["one"], w)
    holds("one domain", one, X, y, np.full(len(X), p["one"]), w)
    holds("no labels", must("no labels", DS, X, None, sd), X, np.full(len(X), -1), sd, None)
    holds("no domains", must("no domains", DS, X, y), X, y, np.zeros(len(X), int), None)
    same = lambda: holds("the dataset is left as it was", D, X, y, sd, w)
    c = p["cut"]
    pick = {
        "select_source": (lambda: D.select_source(), sd >= 0), "select_target": (lambda: D.select_target(), sd < 0),
        "select_domain": (lambda: D.select_domain(p["dom"]), sd == p["dom"]), "select_with_labels": (lambda: D.select_with_labels(), y != -1),
        "select X": (lambda: D.select(lambda v: v[:, 0] > c, "X"), X[:, 0] > c), "select y": (lambda: D.select(lambda v: v <= c, "y"), (y != -1) & (y <= c)),
        "select domain": (lambda: D.select(lambda v: v > c, "sample_domain"), sd > c),
    }
    if w is not None:
        pick["select weight"] = (lambda: D.select(lambda v: v > c, "sample_weight"), w > c)
    for nm, (f, m) in pick.items():
        holds(nm, must(nm, f), X[m], y[m], sd[m], w[m] if w is not None else None)
        same()
    m = sd < 0
    holds("without weights", must("without weights", D.select_target, return_weights=False), X[m], y[m], sd[m], None)
    r = must("per_domain_split", D.per_domain_split)
    check("per_domain_split/domains", sorted(r) == sorted(set(sd.tolist())) == sorted(must("domains", D.domains)), list(r))
    for q, v in r.items():
        holds("per_domain_split", v, X[sd == q], y[sd == q], sd[sd == q], w[sd == q] if w is not None else None)
    same()


def k_merge(p):
    D, E = build(p), build(p, "2")
    A, C = fields(p), fields(p, "2")
    w = np.concatenate([A[3], C[3]]) if A[3] is not None and C[3] is not None and p["keep"] else None
    want = [np.concatenate([a, c]) for a, c in zip(A[:3], C[:3])] + [w]
    r = must("merge", D.merge, E, keep_weights=p["keep"] and w is not None)
    holds("merged", r, *want)
    holds("the first dataset is left as it was", D, *A)
    if not p["keep"]:
        holds("added domain", must("add_domain", D.add_domain, tuple(a for a in C if a is not None)), *want)
        holds("added domain", must("add_domain", D.add_domain, {k: v for k, v in zip(("X", "y", "sample_domain"), C)}), *want)
    check("merge in place", must("merge in place", D.merge, E, keep_weights=p["keep"] and w is not None, out=False) is None)
    holds("merged in place", D, *want)
    holds("the second dataset is left as it was", E, *C)
    V = np.arange(len(E), dtype=float) + .5
    check("add_weights", must("add_weights", E.add_weights, V) is E)
    holds("weighted", E, *C[:3], V)
    check("remove_weights", must("remove_weights", E.remove_weights) is E)
    holds("unweighted", E, *C[:3], None)
    try:
        E.select(lambda v: v > 0, "sample_weight")
    except ValueError:
        pass
    except Exception as exc:
        raise Violation("select on missing weights", repr(exc))
    else:
        raise Violation("select on missing weights", "accepted")


def passes(key, ix, pos):
    """whole passes over the positions, then part of one"""
    n = len(pos)
    for q in range(0, len(ix), n):
        b = ix[q:q + n]
        check(key + "/each once per pass", len(set(b)) == len(b) and set(b) <= set(pos), (ix, pos))


def k_sampler(p):
    X, y, sd, w = fields(p)
    D = build(p)
    src, tgt = np.flatnonzero(sd >= 0).tolist(), np.flatnonzero(sd < 0).tolist()
    if not src or not tgt:
        raise Skip("both sides")
    bs = p["bs"]
    torch.manual_seed(p["seed"])
    s, t = len(src) // bs * bs, len(tgt) // bs * bs
    for m, n in dict(max=max(s, t), min=min(s, t), source=s, target=t).items():
        S_ = must("balanced", DB.DomainBalancedSampler, D, bs, max_samples=m)
        for rep in range(2):
            ix = must("balanced", lambda: list(S_))
            check("balanced/length", len(ix) == len(S_) == 2 * n, (m, len(ix), len(S_), n))
            check("balanced/source and target in turn", all(i in src for i in ix[::2]) and all(i in tgt for i in ix[1::2]), ix)
            passes("balanced", ix[::2], src)
            passes("balanced", ix[1::2], tgt)
        L = must("loader", DB.DomainBalancedDataLoader, D, bs, max_samples=m)
        got = must("loader", lambda: list(L))
        check("loader/batches", len(got) == n // bs, (len(got), n, bs))
        for d, lab in got:
            g = nums(d["sample_domain"])
            check("loader/as many of each side", len(g) == 2 * bs and (g >= 0).sum() == bs, g)
            rows = nums(d["X"])
            for q in range(len(g)):
                k = [i for i in range(len(X)) if np.array_equal(X[i], rows[q])]
                check("loader/sample", any(sd[i] == g[q] and y[i] == lab[q] and ranks(sd)[i] == d["sample_idx"][q] for i in k), q)
    for side, pos in (("source", src), ("target", tgt)):
        S_ = must("only", DB.DomainOnlySampler, D, bs, domain_used=side)
        ix = must("only", lambda: list(S_))
        check("only/length", len(ix) == len(S_) == len(pos) // bs * bs, (len(ix), len(pos), bs))
        passes("only", ix, pos)
        L = must("only loader", DB.DomainOnlyDataLoader, D, bs, domain_used=side)
        got = must("only loader", lambda: list(L))
        check("only loader/batches", len(got) == len(pos) // bs and all(len(lab) == bs and ((nums(d["sample_domain"]) >= 0) == (side == "source")).all() for d, lab in got))


KINDS = dict(data=k_data, merge=k_merge, sampler=k_sampler)


def draw(r, rng, s="", lo=1, weights=None):
    n = rng.randint(lo, 14)
    doms = rng.choice([[1, -2], [1, 2, -3], [0, -1], [0, 3, -1, -7], [5], [-4]])
    w = rng.random() < .5 if weights is None else weights
    return {"X" + s: r.permutation(n * 3).reshape(n, 3)[:, :2].astype("float64") / 2, "y" + s: r.randint(-1, 3, n), "sd" + s: r.choice(doms, n), "w" + s: r.rand(n) * 3 if w else None}


def cases(rng, tier):
    r = nprng(rng)
    for rep in range(40 if tier == "quick" else 600):
        yield "data", dict(draw(r, rng), form=rng.choice(["arrays", "dict", "dataset", "frame"]), one=rng.choice([3, 0, -2, np.int64(4)]), cut=rng.choice([0, 1, -1.5]), dom=rng.choice([1, -2, 0, 3, 9]))
        w = rng.random() < .5
        yield "merge", dict(draw(r, rng, weights=w), **draw(r, rng, "2", weights=w), keep=rng.random() < .5)
        yield "sampler", dict(draw(r, rng, lo=2), bs=rng.randint(1, 4), seed=rng.randint(0, 999))
