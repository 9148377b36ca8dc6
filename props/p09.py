"""P09: DomainAwareDataset keeps, merges, selects and packs domains."""
import numpy as np

import skada.datasets._base as D
from dv.core import S, SArr, z3, zi
from dv.prop import Scn, Violation, opt
from dv.spec import *
from props.util import *

ID = "P09"
LEVEL = "proof"


def b_pack(kind, srcs, tgts, mask, nd=3, rt="array", unl=(), lodo=False):
    def b():
        ds = D.DomainAwareDataset()
        doms = []
        for q in range(nd):
            n = length(f"n{q}", 1)
            X = rows(n, 2, f"X{q}")
            y = None if q in unl else (ints(n, f"y{q}") if kind == "i" else floats(n, f"y{q}"))
            ds.domains_.append((X, y) if y is not None else (X,))
            ds.domain_names_[f"d{q}"] = q + 1
            doms.append((n, X.snapshot(), None if y is None else y.snapshot()))
        if lodo:
            return (ds,), dict(return_type=rt), dict(doms=doms, kind=kind, srcs=list(range(nd)), tgts=list(range(nd)), mask=True, rt=rt)
        return (ds, [f"d{q}" for q in srcs], [f"d{q}" for q in tgts], mask), dict(return_type=rt), dict(
            doms=doms, kind=kind, srcs=srcs, tgts=tgts, mask=mask, rt=rt)
    return b


def masked(v, kind):
    return v == -1 if kind == "i" else (S(v.nan) if v.nan is not None else S(z3.BoolVal(False)))


def p_pack(P, out, I):
    if out[0] == "raise":
        return P.fail("the domains are packed", repr(out[1]))
    r = out[1]
    if I["rt"] == "Bunch":
        X, y, sd = r["X"], r["y"], r["sample_domain"]
        P("names of the packed domains", set(r["domain_names"]) == {f"d{q}" for q in I["srcs"] + I["tgts"]})
        if not set(I["srcs"]) & set(I["tgts"]):
            P("labels of the packed domains", r["domain_names"] == {
                **{f"d{q}": q + 1 for q in I["srcs"]}, **{f"d{q}": -q - 1 for q in I["tgts"]}})
    else:
        X, y, sd = r
    tot = sum([I["doms"][q][0] for q in I["srcs"] + I["tgts"]], S(z3.IntVal(0)))
    P("every sample of every listed domain once", And(ln(X) == tot, ln(y) == tot, ln(sd) == tot))
    p, p2 = fresh_int("p"), fresh_int("p2")
    inp = And(p >= 0, p < ln(X))
    row, lab, v = el(X, p), el(sd, p), el(y, p)
    t = tag(row)
    P("rows with one domain label keep their order",
      Implies(And(inp, p2 > p, p2 < ln(X), el(sd, p2) == lab), tag(el(X, p2)) > t))
    ids = [q + 1 for q in I["srcs"]] + [-q - 1 for q in I["tgts"]]
    P("domain labels: the source's number, the target's negated number", Implies(inp, Or(*[lab == i for i in ids])))
    for q in I["srcs"] + I["tgts"]:
        n, X0, y0 = I["doms"][q]
        for sgn in ((1,) if q in I["srcs"] else ()) + ((-1,) if q in I["tgts"] else ()):
            here = And(inp, lab == sgn * (q + 1))
            side = "source" if sgn > 0 else "target"
            P(f"d{q} as {side}: its own rows", Implies(here, And(t >= 0, t < n, Same(row, el(X0, t)))))
            if y0 is None or (sgn < 0 and I["mask"]):
                P(f"d{q} as {side}: every label is masked", Implies(here, masked(v, I["kind"])))
            else:
                P(f"d{q} as {side}: labels stay with their samples", Implies(here, Same(v, el(y0, t))))


def b_sel(names, which):
    def b():
        n = length("n", 1)
        sd = ints(n, "sd")
        return (dict(names), sd, which), {}, dict(n=n, sd=sd.snapshot(), names=names, which=which)
    return b


def p_sel(P, out, I):
    if out[0] == "raise":
        return P.fail("known names are selected", repr(out[1]))
    m = out[1]
    P("one flag per sample", ln(m) == I["n"])
    i = fresh_int("i")
    w = [I["which"]] if isinstance(I["which"], str) else I["which"]
    P("exactly the samples with a selected domain's label",
      Implies(And(i >= 0, i < I["n"]), Iff(el(m, i), Or(*[el(I["sd"], i) == I["names"][q] for q in w]))))


def scenarios():
    pk = opt(D, "DomainAwareDataset.pack")
    out = []
    for kind in "if":
        for mask in (True, False):
            for srcs, tgts in (([0, 2], [1]), ([1], [2, 0]), ([], [0, 1])):
                out.append(Scn(f"pack[{kind},{'masked' if mask else 'open'},{srcs}->{tgts}]", pk, b_pack(kind, srcs, tgts, mask), p_pack))
        for unl in ((0,), (1,), (2,)):
            out.append(Scn(f"pack[{kind},unlabeled d{unl[0]}]", pk, b_pack(kind, [0], [1, 2], True, unl=unl), p_pack))
        out.append(Scn(f"pack[{kind},Bunch]", pk, b_pack(kind, [0], [1, 2], True, rt="Bunch"), p_pack))
        out.append(Scn(f"pack_lodo[{kind}]", opt(D, "DomainAwareDataset.pack_lodo"), b_pack(kind, None, None, True, nd=2, lodo=True), p_pack))
        out.append(Scn(f"pack_lodo[{kind},Bunch]", opt(D, "DomainAwareDataset.pack_lodo"),
                       b_pack(kind, None, None, True, nd=2, lodo=True, rt="Bunch"), p_pack))
    nm = dict(a=1, b=2, c=-3)
    for w in ("a", "c", ["a", "c"], ["b"], ["c", "b", "a"]):
        out.append(Scn(f"select_domain[{w}]", opt(D, "select_domain"), b_sel(nm, w), p_sel))
    return out


# ------------------------------------------------------------- runtime contract
def _val(a):
    return a.numpy() if hasattr(a, "numpy") else np.asarray(a)


def _lab(kind, n, r):
    if kind == "i8":
        return r.randint(0, 5, size=n).astype("int8")
    if kind == "i32":
        return r.randint(0, 5, size=n).astype("int32")
    if kind == "b":
        return r.rand(n) < .5
    if kind == "f32":
        return r.randn(n).astype("float32")
    if kind == "f":
        return r.randn(n)
    return r.randint(0, 5, size=n)


def _build(p):
    r = np.random.RandomState(p["seed"])
    doms = {}
    for q, (nm, n) in enumerate(zip(p["names"], p["sizes"])):
        X = np.column_stack([q * 1000 + np.arange(n), r.randn(n)]).astype("float32")
        doms[nm] = (X, None if q in p["unl"] else _lab(p["kind"], n, r))
    if p["tensor"]:
        import torch
        doms = {k: (torch.tensor(X), None if y is None else torch.tensor(y)) for k, (X, y) in doms.items()}
    return doms


def _dataset(p, doms):
    how = p["how"]
    if how == "add":
        ds = D.DomainAwareDataset()
        for k, (X, y) in doms.items():
            must("add_domain", ds.add_domain, X, y, domain_name=k)
        return ds
    if how == "list":
        return must("constructor", D.DomainAwareDataset, [(X, y, k) for k, (X, y) in doms.items()])
    if how == "dict":
        return must("constructor", D.DomainAwareDataset, {k: (X, y) if y is not None else (X,) for k, (X, y) in doms.items()})
    ks = list(doms)
    h = len(ks) // 2
    a = D.DomainAwareDataset([(*doms[k], k) for k in ks[:h]])
    b = D.DomainAwareDataset([(*doms[k], "old" + k) for k in ks[h:]])
    r = must("merge", a.merge, b, {"old" + k: k for k in ks[h:]})
    check("merge/returns-self", r is a)
    return a


def k_pack(p):
    doms = _build(p)
    copies = {k: (_val(X).copy(), None if y is None else _val(y).copy()) for k, (X, y) in doms.items()}
    ds = _dataset(p, doms)
    check("names", list(ds.domain_names_) == list(doms), ds.domain_names_)
    ids = ds.domain_names_
    check("ids", sorted(ids.values()) == list(range(1, len(doms) + 1)), ids)
    for k, (X, y) in doms.items():
        g = ds.get_domain(k)
        check("get_domain/len", len(g) == (1 if y is None else 2), g)
        same_arr("get_domain/X", _val(g[0]), copies[k][0])
        if y is not None:
            same_arr("get_domain/y", _val(g[1]), copies[k][1])
    srcs, tgts, mask, rt, mv = p["srcs"], p["tgts"], p["mask"], p["rt"], p["mv"]
    lodo = p["lodo"]
    if lodo:
        srcs = tgts = list(doms)
        mask, mv = True, None
        r = must("pack_lodo", ds.pack_lodo, return_type=rt)
    else:
        kw = {} if mv is None else dict(mask=mv)
        r = must("pack", ds.pack, srcs, tgts, mask, return_type=rt, **kw)
    auto = "tensor" if p["tensor"] else "array"
    want = auto if rt == "auto" else rt
    if want == "Bunch":
        X, y, sd = r.X, r.y, r.sample_domain
        check("bunch/names", set(r.domain_names) == set(srcs) | set(tgts), r.domain_names)
        for k, v in r.domain_names.items():
            check("bunch/labels", v in ([ids[k]] if k in srcs else []) + ([-ids[k]] if k in tgts else []), r.domain_names)
    elif want == "DeepDADataset":
        from skada.deep.base import DeepDADataset
        check("type", isinstance(r, DeepDADataset), type(r))
        X, y, sd = r.X, r.y, r.sample_domain
    else:
        check("tuple", isinstance(r, tuple) and len(r) == 3, r)
        X, y, sd = r
        if want == "tensor":
            import torch
            check("type", all(isinstance(v, torch.Tensor) for v in r), [type(v) for v in r])
        else:
            check("type", all(isinstance(v, np.ndarray) for v in r), [type(v) for v in r])
    X, y, sd = _val(X), _val(y), _val(sd)
    labs = [(k, ids[k], True) for k in srcs] + [(k, -ids[k], False) for k in tgts]
    n = sum(len(copies[k][0]) for k, *_ in labs)
    check("size", X.shape[0] == n and y.shape == (n,) and sd.shape == (n,), (X.shape, y.shape, sd.shape, n))
    flt = p["kind"].startswith("f") and any(copies[k][1] is not None for k, *_ in labs)
    for k, lab, is_src in labs:
        at = sd == lab
        same_arr("pack/rows", X[at], copies[k][0])
        if copies[k][1] is not None and (is_src or not mask):
            same_arr("pack/labels", y[at].astype("float64"), copies[k][1].astype("float64"))
        elif mv is not None and not is_src and mask:
            same_arr("pack/mask-value", y[at].astype(float), np.full(at.sum(), mv))
        else:
            v = y[at]
            check("pack/masked", np.isnan(v.astype(float)).all() if flt else (v.astype(float) == -1).all(), (k, v))
    for k, (X_, y_) in doms.items():
        same_arr("frame/X", _val(X_), copies[k][0])
        if y_ is not None:
            same_arr("frame/y", _val(y_), copies[k][1])
    # selection by name
    for w in ([p["names"][0]], p["names"][:2], p["names"][0]):
        m = must("select_domain", ds.select_domain, np.abs(sd), w)
        ww = [w] if isinstance(w, str) else w
        same_arr("select_domain", np.asarray(m), np.isin(np.abs(sd), [ids[k] for k in ww]))
        m = must("select_domain", ds.select_domain, sd, w)
        same_arr("select_domain/role", np.asarray(m), np.isin(sd, [ids[k] for k in ww]))


def k_names(p):
    X, y = np.zeros((2, 1)), np.zeros(2, dtype=int)
    ds = D.DomainAwareDataset()
    for nm in p["names"]:
        if nm is not None and nm in ds.domain_names_:
            before = dict(ds.domain_names_)
            try:
                ds.add_domain(X, y, domain_name=nm)
            except (AssertionError, ValueError):
                check("duplicate/frame", ds.domain_names_ == before and len(ds.domains_) == len(before))
                continue
            raise Violation("duplicate", f"{nm} accepted twice")
        k = len(ds.domain_names_)
        must("add_domain", ds.add_domain, X + k, y, domain_name=nm)
        check("add/name", len(ds.domain_names_) == k + 1, ds.domain_names_)
    check("names/distinct", len(set(ds.domain_names_.values())) == len(ds.domain_names_) == len(ds.domains_), ds.domain_names_)
    for q, nm in enumerate(ds.domain_names_):
        same_arr("names/data", ds.get_domain(nm)[0], X + q)
    must("repr", repr, ds)


def k_bad(p):
    ds = D.DomainAwareDataset([(np.zeros((2, 1)), np.zeros(2, dtype=int), "a")])
    try:
        ds.pack(["a"], [], True, return_type="nonsense")
    except ValueError:
        pass
    else:
        raise Violation("return_type", "unknown return type accepted")
    for f in (lambda: ds.pack(["a"], ["b"], True), lambda: ds.get_domain("b"), lambda: ds.select_domain(np.array([1]), "b")):
        try:
            f()
        except (KeyError, ValueError):
            continue
        raise Violation("unknown-name", "unknown domain accepted")


KINDS = dict(pack=k_pack, names=k_names, bad=k_bad)


def cases(rng, tier):
    yield "bad", {}
    for names in (["a", "b"], [None, None, None], ["_2", None], [None, "_1", None, "x"], ["_3", None, None], ["a", "a"], ["_1", None, "_2"]):
        yield "names", dict(names=names)
    for _ in range(250 if tier == "quick" else 3000):
        nd = rng.randint(2, 5)
        names = rng.sample(["a", "b", "c", "amazon", "_2", "webcam", "d"], nd)
        kind = rng.choice(["i", "i", "f", "i8", "i32", "b", "f32"])
        tensor = rng.random() < .35
        srcs = rng.sample(names, rng.randint(0, nd - 1))
        tgts = [k for k in rng.sample(names, rng.randint(1, nd)) if k not in srcs] or ([] if srcs else [names[0]])
        mask = rng.random() < .6
        yield "pack", dict(names=names, sizes=[rng.randint(1, 6) for _ in names], kind=kind, tensor=tensor, srcs=srcs, tgts=tgts,
                           mask=mask, rt=rng.choice(["auto", "array", "tensor", "DeepDADataset", "Bunch"]),
                           mv=rng.choice([None, None, None, -7]), lodo=rng.random() < .2,
                           unl=[q for q in range(nd) if rng.random() < .15], seed=rng.randint(0, 10**6),
                           how=rng.choice(["add", "list", "dict", "merge"]))
