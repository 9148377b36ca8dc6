"""Loops over sequences of symbolic length.

summarise_for: executes the body once for a generic index j (every symbol
created inside is a function of j, every fact is generalised over j) on every
path, records the effects on pre-existing objects, and replays them as one
closed-form effect of the whole loop.  This is an induction schema: it is exact
for bodies whose iterations do not read what earlier iterations wrote (checked:
the written objects are poisoned while the body runs).

invariant_loop: classic Hoare rule with a supplied invariant.
"""
import ast

import numpy as np

from . import core, npmodel
from .core import (
    KIND, S, SArr, SMap, SSeq, PathAbort, Unsupported, _toz, cast, ctx, dim, ite, z3, zi,
    I, B, _offset,
)


def subst(v, j, e):
    """v with the loop index j replaced by the term e"""
    if isinstance(v, S):
        return S(
            z3.substitute(v.e, (j, e)),
            None if v.nan is None else z3.substitute(v.nan, (j, e)),
        )
    if isinstance(v, npmodel.RowVal):
        return npmodel.RowVal(subst(v.s, j, e), [subst(d, j, e) for d in v.shape])
    if isinstance(v, SArr):
        f = v.fn
        inv = None
        if v.inv is not None:
            m, p = v.inv
            inv = (
                lambda i: z3.substitute(m(i), (j, e)),
                lambda i: z3.substitute(p(i), (j, e)),
            )
        r = SArr(
            [subst(d, j, e) if isinstance(d, S) else d for d in v.shape],
            v.k,
            lambda *ix: subst(f(*ix), j, e),
            inv=inv,
        )
        tab = core.ctx().masked_stores
        tab += [(r, lambda i, k, st=st: subst(st(i, k), j, e), lambda i, w=w: subst(w(i), j, e)) for a, st, w in tab if a is v]
        return r
    if isinstance(v, tuple):
        return tuple(subst(x, j, e) for x in v)
    if isinstance(v, list):
        return [subst(x, j, e) for x in v]
    if isinstance(v, dict):
        return {subst(k, j, e): subst(x, j, e) for k, x in v.items()}
    if isinstance(v, SSeq):
        it = v.item
        return SSeq(subst(v.n, j, e) if isinstance(v.n, S) else v.n, lambda q: subst(it(q), j, e))
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return v
    if getattr(v, "_dv_subst", None):
        return v._dv_subst(lambda x: subst(x, j, e))
    if type(v).__name__ == "Tensor" and hasattr(v, "numel"):
        return v
    if type(v).__module__.startswith("skada") and hasattr(v, "__dict__") and not isinstance(v, type) and not callable(v):
        # an object made in the loop: the same object with its attributes at e
        r = object.__new__(type(v))
        r.__dict__.update({a: subst(x, j, e) for a, x in vars(v).items()})
        return r
    if callable(v) or isinstance(v, (type,)):
        return v
    raise Unsupported(f"loop-dependent value of type {type(v).__name__}")


def merge_values(vals):
    """[(guard z3, value)] exhaustive -> one value"""
    v0 = vals[-1][1]
    if len(vals) == 1:
        return v0
    if all(v is v0 for _, v in vals):
        return v0
    if all(isinstance(v, (S, int, float, bool, np.generic)) for _, v in vals):
        r = v0 if isinstance(v0, S) else S(*_toz(v0))
        for g, v in reversed(vals[:-1]):
            r = ite(g, v, r)
        return r
    if all(isinstance(v, SArr) for _, v in vals) and len({(v.ndim, v.k) for _, v in vals}) == 1:
        shp = [merge_values([(g, v.shape[d] if isinstance(v.shape[d], S) else S(z3.IntVal(v.shape[d]))) for g, v in vals]) for d in range(v0.ndim)]
        fns = [(g, v.fn) for g, v in vals]

        def fn(*ix):
            r = fns[-1][1](*ix)
            for g, f in reversed(fns[:-1]):
                r = ite(g, f(*ix), r)
            return r

        return SArr(shp, v0.k, fn)
    if all(isinstance(v, tuple) and len(v) == len(v0) for _, v in vals):
        return tuple(merge_values([(g, v[q]) for g, v in vals]) for q in range(len(v0)))
    if (hasattr(v0, "_dv_subst") or type(v0).__module__.startswith("skada")) and hasattr(v0, "__dict__") and all(type(v) is type(v0) and vars(v).keys() == vars(v0).keys() for _, v in vals):
        r = object.__new__(type(v0))
        for a in vars(v0):
            setattr(r, a, merge_values([(g, vars(v)[a]) for g, v in vals]))
        return r
    if all(isinstance(v, (str, type(None))) for _, v in vals) and len({v for _, v in vals}) == 1:
        return v0
    raise Unsupported("values of different shape on different loop paths")


class Frame:
    def __init__(self, j, n, owned, pc0):
        self.j, self.n, self.pc0 = j, zi(n), pc0
        self.owned = owned  # id -> object
        self.effects = []
        self.reads = set()

    def range(self):
        return z3.And(0 <= self.j, self.j < self.n)

    def owns(self, o):
        return id(o) in self.owned

    def record_append(self, lst, v):
        self.effects.append(("append", lst, v))

    def record_dset(self, d, k, v):
        self.effects.append(("dset", d, k, v))

    def record_store(self, a, ix, v):
        self.effects.append(("store", a, ix, v))

    def record_read(self, o):
        self.reads.add(id(o))


def reach(env, depth=3):
    """mutable objects reachable from the environment"""
    out = {}
    keep = []

    def go(o, d):
        if isinstance(o, (list, dict, SArr, set)):
            if id(o) in out:
                return
            out[id(o)] = o
            keep.append(o)
        elif isinstance(o, tuple):
            pass
        elif hasattr(o, "__dict__") and not isinstance(o, type) and not callable(o):
            if id(o) in out:
                return
            out[id(o)] = o
            if d > 0:
                for x in vars(o).values():
                    go(x, d - 1)
            return
        else:
            return
        if d > 0:
            if isinstance(o, (list, tuple, set)):
                for x in o:
                    go(x, d - 1)
            elif isinstance(o, dict):
                for x in o.values():
                    go(x, d - 1)

    e = env
    while e is not None:
        for v in e.vars.values():
            go(v, depth)
            if isinstance(v, tuple):
                for x in v:
                    go(x, depth)
        e = e.parent
    return out


def stored_names(nodes):
    s = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                s.add(x.id)
    return s


class BodyPath:
    pass


def explore_body(it, env, seq, setup, run, carried=(), caller_temps=()):
    """Run `run` for the generic iteration on all its paths."""
    from .interp import Break, Continue, Poison, Return

    c = ctx()
    j = z3.Int(c.name("j"))
    base_pc = list(c.pc)
    owned = reach(env)
    if c.yields is not None:
        owned[id(c.yields)] = c.yields
    saved_vars = dict(env.vars)
    sv = (c.decisions, c.pos, c.pending)
    memo = (dict(c.memo.get("comp_tab", {})), dict(c.memo.get("uniq_tab", {})), list(c.compactions), list(c.reductions), list(c.uniques), {k: v for k, v in c.memo.items()})
    open0 = list(c.open_facts)
    sums0 = dict(c.memo.get("sums", {}))
    poison, cells = {}, {}
    for attempt in range(2):
        paths = []
        work = [[]]
        npaths = 0
        # poison written arrays
        backup = {id(a): (a, a.fn) for a in poison.values()}
        for a in poison.values():
            def bad(*ix, a=a, f=a.fn):
                # its own cell, before writing it: the value from before the loop
                if len(ix) == 1 and a.ndim == 1:
                    o = z3.simplify(zi(ix[0]) - j)
                    own = cells.get(id(a))
                    if not npmodel._mentions(o, j) and own is not None and z3.eq(own, o) and not any(
                        e[0] == "store" and e[1] is a for q in c.loopstack for e in q.effects
                    ):
                        return f(*ix)
                raise Unsupported("loop reads an array it writes")
            a.fn = bad
        try:
            while work:
                pre = work.pop()
                npaths += 1
                if npaths > 24:
                    raise Unsupported("too many paths in a loop body")
                c.decisions, c.pos, c.pending = list(pre), 0, []
                fr = Frame(j, seq.n, owned, len(base_pc))
                c.pc = list(base_pc)
                c.loopstack.append(fr)
                c.pc.append(fr.range())
                env.vars.clear()
                env.vars.update(saved_vars)
                for nm in carried:
                    env.vars[nm] = Poison(nm, "carried")
                p = BodyPath()
                p.outcome = ("normal",)
                p.value = None
                try:
                    try:
                        setup(j)
                        p.value = run()
                    except Continue:
                        pass
                    except Break:
                        p.outcome = ("break",)
                    except Return as r:
                        p.outcome = ("return", r.v)
                    except PathAbort:
                        continue
                    except Exception as exc:
                        p.outcome = ("raise", exc)
                finally:
                    c.loopstack.pop()
                g = c.pc[len(base_pc) + 1:]
                p.guard = z3.simplify(z3.And(g)) if g else z3.BoolVal(True)
                p.effects = fr.effects
                p.reads = fr.reads
                p.vars = dict(env.vars)
                paths.append(p)
                work.extend(c.pending)
        finally:
            for a, f in backup.values():
                a.fn = f
            c.decisions, c.pos, c.pending = sv
            c.pc = base_pc
            c.open_facts = open0
            env.vars.clear()
            env.vars.update(saved_vars)
            ct, ut, cps, reds, uqs, mm = memo
            c.memo = dict(mm)
            c.memo["sums"] = dict(sums0)
            c.memo["comp_tab"] = dict(ct)
            c.memo["uniq_tab"] = dict(ut)
            c.compactions, c.reductions, c.uniques = list(cps), list(reds), list(uqs)
        stores = {id(e[1]): e[1] for p in paths for e in p.effects if e[0] == "store"}
        if not stores or attempt == 1:
            break
        poison = stores
        for p in paths:
            for e in p.effects:
                if e[0] == "store":
                    x = e[2][0] if isinstance(e[2], tuple) and len(e[2]) == 1 else e[2]
                    o = z3.simplify(zi(x) - j) if isinstance(x, (S, int)) and not isinstance(x, bool) else None
                    if o is None or npmodel._mentions(o, j) or not z3.eq(cells.setdefault(id(e[1]), o), o):
                        cells[id(e[1])] = z3.BoolVal(False)  # no single own cell
    return j, paths


def exits(it, env, seq, j, paths, names=()):
    """Early exits: returns the paths that complete normally, after forking on
    whether some iteration leaves the loop."""
    from .interp import Break, Poison, Return

    c = ctx()
    n = zi(seq.n)
    ex = [p for p in paths if p.outcome[0] != "normal"]
    normal = [p for p in paths if p.outcome[0] == "normal"]
    if not ex:
        return normal
    for p in ex:
        # some iteration takes exit p (first exit of the loop)
        hit = c.fresh("b", "exit")
        w = c.fresh("i", "exitj")
        g = lambda e: z3.substitute(p.guard, (j, e))
        anyex = lambda e: z3.Or([z3.substitute(q.guard, (j, e)) for q in ex])
        c.fact(z3.Implies(hit, z3.And(0 <= w, w < n, g(w))))
        t = npmodel.iv("t")
        body = z3.Implies(z3.And(hit, 0 <= t, t < w), z3.Not(anyex(t)))
        c.forall([t], body, npmodel.triggers(anyex(t), [t]))
        b2 = z3.Implies(z3.And(z3.Not(hit), 0 <= t, t < n), z3.Not(g(t)))
        if len(ex) == 1:
            c.forall([t], b2, npmodel.triggers(g(t), [t]))
        if c.branch(hit):
            had = any(q.effects for q in paths)
            if p.outcome[0] == "raise":
                raise p.outcome[1]
            if had:
                raise Unsupported("early exit from a loop with effects")
            if p.outcome[0] == "return":
                raise Return(subst(p.outcome[1], j, w))
            for nm in names:  # break: the names as the last iteration left them
                v = p.vars.get(nm)
                touched = any(nm in q.vars and not isinstance(q.vars[nm], Poison) for q in normal)
                if v is None and nm not in p.vars or isinstance(v, Poison):
                    if touched or nm not in env.vars:
                        env.vars[nm] = Poison(nm, "after a loop left by break")
                    continue
                env.vars[nm] = subst(v, j, w)
            return None
    if len(ex) > 1:
        t = npmodel.iv("t")
        al = z3.Or([z3.substitute(q.guard, (j, t)) for q in ex])
        c.forall([t], z3.Implies(z3.And(0 <= t, t < n), z3.Not(al)), npmodel.triggers(al, [t]))
    return normal


def replace_refs(env, old, new):
    e = env
    while e is not None:
        for k, v in list(e.vars.items()):
            if v is old:
                e.vars[k] = new
            elif hasattr(v, "__dict__") and not isinstance(v, (type, SArr, S)) and not callable(v):
                for kk, vv in list(vars(v).items()):
                    if vv is old:
                        setattr(v, kk, new)
        e = e.parent


def compact_index(seq_n, guard_at):
    """indices j (increasing) at which the guard holds"""
    m = SArr((seq_n,), "b", lambda i: S(guard_at(i)))
    return npmodel.compaction(m)


def guarded_seq(n, items, j):
    """sequence over j of the appended value; items: [(guard,value)] at most one
    append per path"""
    g_all = z3.simplify(z3.Or([g for g, _ in items]))

    def item_raw(q):
        e = zi(q)
        return merge_values([(z3.substitute(g, (j, e)), subst(v, j, e)) for g, v in items])

    if ctx().entails(z3.Implies(z3.And(0 <= j, j < zi(n)), g_all)):
        return SSeq(n, item_raw), True
    co = compact_index(n, lambda i: z3.substitute(g_all, (j, i)))
    return SSeq(S(co.m), lambda q: item_raw(co.sel(zi(q)))), False


def summarise_for(it, st, env, seq, frozen=(), peel=0, states=()):
    """frozen: loop-carried names assumed to keep their entry value (checked: no
    path of the body assigns them).  If that fails the name becomes a state
    function of the iteration number (recurrence, closed form for monotone
    booleans); if that fails too, the first iteration is executed separately
    (peeled) and the rest summarised."""
    from .interp import Break, Continue

    c = ctx()
    try:
        return _summarise_for(it, st, env, seq, frozen, states)
    except Unsupported as u:
        nm = getattr(u, "carried", None)
        rd = getattr(u, "reads_written", False)
        fz = getattr(u, "frozen_written", None)
        if nm is not None and nm not in frozen and nm not in states:
            return summarise_for(it, st, env, seq, tuple(frozen) + (nm,), peel, states)
        if fz is not None and fz in frozen and is_state_value(env.vars.get(fz)):
            return summarise_for(it, st, env, seq, tuple(x for x in frozen if x != fz), peel, tuple(states) + (fz,))
        if (nm is None and not rd and fz is None) or peel >= 1:
            raise
    if seq.prefix:
        raise Unsupported("peeling a mixed sequence")
    if not c.branch(zi(seq.n) > 0):
        return
    it.assign(st.target, seq.item(z3.IntVal(0)), env)
    try:
        it.block(st.body, env)
    except Continue:
        pass
    except Break:
        return
    rest = SSeq(S(z3.simplify(zi(seq.n) - 1)), lambda j: seq.item(zi(j) + 1))
    return summarise_for(it, st, env, rest, frozen, peel + 1)


def is_state_value(v):
    return isinstance(v, (bool, np.bool_)) or isinstance(v, S) and v.kind == "b"


class State:
    """value of a loop-carried boolean before iteration j"""

    def __init__(self, nm, v0):
        c = ctx()
        self.nm, self.v0 = nm, v0
        self.f = c.func("st_" + nm, I, B)

    def at(self, e):
        return S(self.f(e))


def apply_states(states, n, j, normal):
    c = ctx()
    n = zi(n)
    for st in states:
        vals = [(p.guard, p.vars[st.nm]) for p in normal]
        if any(not is_state_value(v) for _, v in vals):
            raise Unsupported(f"loop-carried name '{st.nm}' changes its kind")
        new = z3.simplify(merge_values([(g, _s(v)) for g, v in vals]).e)
        cur = st.f(j)
        up = z3.simplify(z3.substitute(new, (cur, z3.BoolVal(False))))
        dn = z3.simplify(z3.substitute(new, (cur, z3.BoolVal(True))))
        rng = z3.And(0 <= j, j < n)
        v0 = _s(st.v0).e
        t, k = npmodel.iv("t"), npmodel.iv("k")
        w = c.func("wit_" + st.nm, I, I)
        if c.entails(z3.Implies(rng, z3.Not(up))):
            ev, was, now = z3.Not(dn), True, False  # switched off at most once
        elif c.entails(z3.Implies(rng, dn)):
            ev, was, now = up, False, True  # switched on at most once
        else:
            raise Unsupported(f"loop-carried name '{st.nm}' is read and written")
        E = lambda q: z3.substitute(ev, (j, q))
        lit_ = lambda e, b: e if b else z3.Not(e)
        tr = npmodel.triggers(E(t), [t])
        sk = st.f(k)
        c.forall([k, t], z3.Implies(z3.And(0 <= t, t < k, k <= n, E(t)), lit_(sk, now)),
                 [z3.MultiPattern(sk, x) for x in tr] or [sk])
        c.forall([k], z3.Implies(z3.And(0 <= k, k <= n), z3.And(
            z3.Implies(lit_(v0, now), lit_(sk, now)),
            z3.Implies(z3.And(lit_(v0, was), lit_(sk, now)), z3.And(0 <= w(k), w(k) < k, E(w(k)))))), [sk])


def _summarise_for(it, st, env, seq, frozen=(), states=()):
    from .interp import Acc, Poison

    c = ctx()
    n = seq.n
    names = stored_names([st.target] + st.body)
    carried = [x for x in names if x in env.vars and x not in stored_names([st.target])]
    entry = {x: env.vars[x] for x in carried if x in frozen}
    states = [State(x, env.vars[x]) for x in states]
    snames = {x.nm for x in states}
    carried = [x for x in carried if x not in frozen and x not in snames]
    names = names - set(entry) - snames

    def setup(j):
        for x in states:
            env.vars[x.nm] = x.at(j)
        it.assign(st.target, seq.item(j), env)

    def run():
        it.block(st.body, env)

    j, paths = explore_body(it, env, seq, setup, run, carried)
    if not paths:
        return  # provably empty
    for p in paths:
        for x, v in entry.items():
            if p.vars.get(x) is not v:
                u = Unsupported(f"loop-carried name '{x}' is read and written")
                u.frozen_written = x
                raise u
    if states and any(p.outcome[0] != "normal" for p in paths):
        raise Unsupported("early exit from a loop with carried state")
    normal = exits(it, env, seq, j, paths, names)
    if normal is None:
        return
    apply_states(states, n, j, normal)
    apply_effects(it, env, seq, j, normal, carried, names)
    for x in states:
        env.vars[x.nm] = x.at(zi(n))


def apply_effects(it, env, seq, j, normal, carried, names):
    from .interp import Acc, Poison

    c = ctx()
    n = seq.n
    objs = {}
    for p in normal:
        for e in p.effects:
            objs.setdefault(id(e[1]), (e[1], []))
    for p in normal:
        for oid in p.reads:
            if oid in objs:
                u = Unsupported("loop reads a container it writes")
                u.reads_written = True
                raise u
    for oid, (o, _) in objs.items():
        per = [(p, [e for e in p.effects if e[1] is o]) for p in normal]
        kinds = {e[0] for _, es in per for e in es}
        if kinds == {"append"}:
            if any(len(es) > 1 for _, es in per):
                raise Unsupported("several appends per iteration")
            items = [(p.guard, es[0][2]) for p, es in per if es]
            sq, _ = guarded_seq(n, items, j)
            if len(o):
                new = SSeq(sq.n, sq.item, prefix=list(o))
            else:
                new = sq
            if o is env.vars.get("%yields") or o is c.yields:
                pass
            replace_refs(env, o, new)
            if c.yields is o:
                c.yields = new
        elif kinds == {"dset"}:
            if any(len(es) > 1 for _, es in per):
                raise Unsupported("several dict stores per iteration")
            if len(o):
                raise Unsupported("symbolic stores into a non-empty dict")
            items = [(p.guard, (es[0][2], es[0][3])) for p, es in per if es]
            sq, _ = guarded_seq(n, items, j)
            new = SMap(sq.n, lambda q, sq=sq: _s(sq.item(q)[0]), lambda q, sq=sq: sq.item(q)[1])
            replace_refs(env, o, new)
        elif kinds == {"store"}:
            apply_stores(o, n, j, per)
        else:
            raise Unsupported("mixed effects on one object")
    # loop-carried names
    for nm in names:
        vals = [(p.guard, p.vars.get(nm)) for p in normal]
        if nm in carried:
            if all(isinstance(v, Poison) and v.why == "carried" for _, v in vals):
                continue
            if all(isinstance(v, Acc) or (isinstance(v, Poison) and v.why == "carried") for _, v in vals):
                old = env.vars[nm]
                def inc(q, vals=vals):
                    e = zi(q)
                    return merge_values([
                        (z3.substitute(g, (j, e)), subst(v.e, j, e) if isinstance(v, Acc) else S(z3.IntVal(0)))
                        for g, v in vals])
                pr = inc(z3.Int("probe!"))
                if isinstance(pr, S):
                    env.vars[nm] = npmodel.sum_(SArr((n,), pr.kind if pr.kind != "b" else "i", lambda i: cast(inc(i), pr.kind if pr.kind != "b" else "i"))) + old
                    continue
                if isinstance(pr, SArr) and pr.ndim <= 2 and not pr.rows and isinstance(old, (SArr, int, float)):
                    nd = pr.ndim
                    v = npmodel.reduce_("sum", n, lambda *a: cast(inc(a[-1]).fn(*a[:-1]), pr.k), nd, pr.k)
                    tot = SArr(pr.shape, pr.k, lambda *ix: v(*ix))
                    env.vars[nm] = npmodel.binary(old, tot, "+")
                    continue
                env.vars[nm] = Poison(nm, "after an unsupported accumulation")
                continue
            asg = [(g, v) for g, v in vals if not isinstance(v, Poison)]
            # flag pattern: constant assigned on some paths
            consts = {repr(v) for _, v in asg}
            if len(consts) == 1 and all(isinstance(v, (bool, int, str, type(None))) for _, v in asg):
                gall = z3.Or([g for g, _ in asg])
                hit = npmodel.any_(SArr((n,), "b", lambda i: S(z3.substitute(gall, (j, i)))))
                if bool(hit):
                    env.vars[nm] = asg[0][1]
                continue
        # temporary: value of the last iteration
        if any(isinstance(v, (Poison, type(None))) or v is None for _, v in vals):
            env.vars[nm] = Poison(nm, "after the loop is path dependent")
            continue
        if c.entails(zi(n) > 0):
            try:
                last = z3.simplify(zi(n) - 1)
                env.vars[nm] = merge_values([(z3.substitute(g, (j, last)), subst(v, j, last)) for g, v in vals])
                continue
            except Unsupported:
                pass
        env.vars[nm] = Poison(nm, "after a possibly empty loop")


def _s(v):
    return v if isinstance(v, S) else S(*_toz(v))


def apply_stores(a, n, j, per):
    """a[ix_j] = v_j for all j<n (last store wins)"""
    c = ctx()
    if a.ndim == 2 and not a.rows:
        return apply_line_stores(a, n, j, per)
    stores, sels = [], []
    for p, es in per:
        if not es:
            continue
        if len(es) > 1:
            raise Unsupported("several stores to one array per iteration")
        _, _, ix, v = es[0]
        if isinstance(ix, tuple) and len(ix) == 1:
            ix = ix[0]
        if isinstance(v, npmodel.RowVal):
            v = v.s
        elif not isinstance(v, (S, SArr)):
            v = npmodel.lit(v)
        if isinstance(ix, SArr) and ix.k == "b" and ix.ndim == 1:
            mf = ix.fn
            mem = lambda i, mf=mf: mf(i).e
            if isinstance(v, SArr):
                # the rank function of this mask, as created inside the loop body
                raise Unsupported("masked array store in a symbolic loop")
            val = lambda i, v=v: v
        elif isinstance(ix, SArr) and ix.k == "i" and ix.inv is not None:
            m, pos = ix.inv
            mem = m
            if isinstance(ix.tag, tuple) and ix.tag[0] == "sel":
                sels.append(ix.tag[1].sel)
            if isinstance(v, SArr):
                vf = v.fn
                if v.ndim != 1 and not v.rows:
                    raise Unsupported("2-D store in a symbolic loop")
                val = lambda i, vf=vf, pos=pos: vf(pos(i))
            else:
                val = lambda i, v=v: v
        elif isinstance(ix, (S, int)):
            e = zi(ix)
            mem = lambda i, e=e: i == e
            if isinstance(v, SArr):
                raise Unsupported("row store in a symbolic loop")
            val = lambda i, v=v: v
        else:
            raise Unsupported("store index in a symbolic loop")
        stores.append((p.guard, mem, val))
    if a.ndim != 1 and not a.rows:
        raise Unsupported("store into a matrix in a symbolic loop")
    J = c.func("lastw", I, I)
    for sel in sels:  # where the k-th sample of the mask that last wrote i is (for specifications)
        c.masked_stores.append((a, lambda i, k, sel=sel: S(z3.substitute(sel(zi(k)), (j, J(zi(i))))), lambda i: S(J(zi(i)))))
    i, t = npmodel.iv("i"), npmodel.iv("t")
    nn = zi(n)
    cond = lambda jj, ii: z3.Or([
        z3.substitute(z3.And(g, mem(ii)), (j, jj)) for g, mem, _ in stores])
    c.forall([i], z3.And(J(i) >= -1, J(i) < nn, z3.Implies(J(i) >= 0, cond(J(i), i))), [J(i)])
    # every writer is <= the last writer
    tt, ct = t, cond(t, i)
    trig = [x for x in npmodel.triggers(ct, [t])]
    off = 0 if trig else _offset([ct], t)
    if off:  # a peeled loop talks about iteration t + off: index by that
        tt = t - off
        ct = z3.simplify(z3.substitute(ct, (t, tt)))
        trig = npmodel.triggers(ct, [t])
    pats = [z3.MultiPattern(J(i), x) for x in trig]
    c.forall([i, t], z3.Implies(z3.And(0 <= tt, tt < nn, ct), J(i) >= tt), pats)
    old = a.fn
    k = a.k

    def fn(i):
        ji = J(i)
        r = None
        for g, mem, val in reversed(stores):
            v = subst(val(i), j, ji)
            v = v if k == "row" else cast(v, k)
            cnd = z3.substitute(z3.And(g, mem(i)), (j, ji))
            r = v if r is None else ite(cnd, v, r)
        return ite(ji >= 0, r, old(i))

    a.fn = fn
    a.version += 1


def apply_line_stores(a, n, j, per):
    """matrix: a[:, j+c] = v_j or a[j+c] = v_j (every iteration its own line)"""
    stores, axis, off = [], None, None
    full = slice(None)
    for p, es in per:
        if not es:
            continue
        if len(es) > 1:
            raise Unsupported("several stores to one array per iteration")
        _, _, ix, v = es[0]
        if not isinstance(ix, tuple):
            ix = (ix,)
        if len(ix) == 1:
            ix = (ix[0], full)
        if len(ix) != 2:
            raise Unsupported("store index in a symbolic loop")
        cell = None
        if all(isinstance(x, (S, int)) for x in ix):  # one cell of its own line
            ax = axis if axis is not None else next((q for q in (0, 1) if not npmodel._mentions(z3.simplify(zi(ix[q]) - j), j)), 0)
            e, cell = ix[ax], npmodel.norm_int(ix[1 - ax], a.shape[1 - ax])
            e = S(zi(e))
        elif isinstance(ix[0], slice) and ix[0] == full and isinstance(ix[1], S):
            ax, e = 1, ix[1]
        elif isinstance(ix[1], slice) and ix[1] == full and isinstance(ix[0], S):
            ax, e = 0, ix[0]
        else:
            raise Unsupported("store into a matrix in a symbolic loop")
        o = z3.simplify(zi(e) - j)
        if npmodel._mentions(o, j) or (axis is not None and (axis != ax or not z3.eq(o, off))):
            raise Unsupported("store into a matrix in a symbolic loop")
        axis, off = ax, o
        if not ctx().entails(z3.Implies(z3.And(0 <= j, j < zi(n), p.guard), z3.And(zi(e) >= 0, zi(e) < zi(a.shape[ax])))):
            raise Unsupported("line store that may be out of range")
        if isinstance(v, (int, float)):
            v = S(z3.RealVal(v))
        v = npmodel.lit(v) if not isinstance(v, S) else v
        if isinstance(v, SArr):
            if v.ndim != 1 or not npmodel.deq(v.shape[0], a.shape[1 - ax]):
                raise Unsupported("line store of another shape")
            vf = v.fn
            val = lambda q, vf=vf: vf(q)
        else:
            val = lambda q, v=v: v
        if cell is not None and isinstance(v, SArr):
            raise Unsupported("array stored into a cell")
        stores.append((p.guard if cell is None else (lambda q, g=p.guard, cell=cell: z3.And(g, q == cell)), val))
    old, k, nn = a.fn, a.k, zi(n)

    def fn(r, q):
        line, other = (q, r) if axis == 1 else (r, q)
        jj = z3.simplify(zi(line) - off)
        inr = z3.And(0 <= jj, jj < nn)
        res = old(r, q)
        for g, val in stores:
            v = cast(subst(val(zi(other)), j, jj), k)
            g = g(zi(other)) if callable(g) else g
            res = ite(z3.And(inr, z3.substitute(g, (j, jj))), v, res)
        return res

    if stores:
        a.fn = fn
        a.version += 1


def summarise_comp(it, gen, env, seq, emit):
    names = stored_names([gen.target])

    def setup(j):
        it.assign(gen.target, seq.item(j), env)

    def run():
        for cnd in gen.ifs:
            if not it.truth(it.ev(cnd, env)):
                return _SKIP
        return emit(env)

    j, paths = explore_body(it, env, seq, setup, run)
    if not paths:
        return []
    normal = exits(it, env, seq, j, paths)
    if any(p.effects for p in normal):
        raise Unsupported("comprehension with side effects")
    items = [(p.guard, p.value) for p in normal if p.value is not _SKIP]
    if not items:
        return []
    sq, _ = guarded_seq(seq.n, items, j)
    return sq


_SKIP = object()


# ------------------------------------------------------------ invariants
class Invariant:
    """Sidecar loop invariant.  `havoc`: {name: fn(old value)-> fresh value} or
    None (fresh of the same shape); `inv(get)` or `inv(get, k)` -> S/bool over
    the environment (k: completed iterations)."""

    def __init__(self, inv, keep=(), yields=None):
        import inspect

        # for the loop of a generator: yields(get, k, values of the iteration)
        self.yields = yields

        self.inv = inv
        self.counted = len(inspect.signature(inv).parameters) > 1
        self.keep = set(keep)


class Yielded:
    """what a generator gives whose loop has a contract: the values of each
    iteration are the contract's business"""

    _dv_native = _dv_sym = True

    def __init__(self, iterations):
        self.iterations = iterations

    def append(self, v):
        raise Unsupported("yield after a loop with a contract")

    def __iter__(self):
        raise Unsupported("iteration over a generator under contract")


def fresh_like(v, nm):
    c = ctx()
    if hasattr(v, "_dv_havoc"):
        return v._dv_havoc(nm)
    if isinstance(v, bool):
        return S(c.fresh("b", nm))
    if isinstance(v, (int, np.integer)):
        return S(c.fresh("i", nm))
    if isinstance(v, (float, np.floating)):
        return S(c.fresh("f", nm))
    if isinstance(v, S):
        return S(c.fresh(v.kind, nm), None if v.nan is None else c.fresh("b", nm + "_nan"))
    if isinstance(v, (SArr, np.ndarray)):
        v = npmodel.lit(v)
        return npmodel.arr_uf(nm, v.shape, v.k)
    raise Unsupported(f"havoc of {type(v).__name__} '{nm}'")


def do_cut(it, name, f, env):
    """f(get, have) yields parts: an S/bool, or (n, g) for `all k<n: g(k)`;
    each is proved with the previous ones in hand, the variable is then
    abstracted and the parts assumed for the new value"""
    c = ctx()

    def get(nm):
        v = env.vars.get(nm)
        if v is None or not isinstance(v, (S, SArr, int, float, np.ndarray)):
            raise Unsupported(f"assertion mentions unknown name '{nm}'")
        return v

    def assume(p):
        if isinstance(p, tuple):
            q = z3.Int(c.name("cutk") if hasattr(c, "name") else f"cutk!{id(p)}")
            c.fact(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < zi(p[0])), _s(p[1](S(q))).e)))
        else:
            c.fact(_s(p).e)

    for k, p in enumerate(f(get)):
        if isinstance(p, tuple):
            j = S(c.fresh("i", "k"))
            goal = z3.Implies(z3.And(0 <= j.e, j.e < zi(p[0])), _s(p[1](j)).e)
        else:
            goal = _s(p).e
        ob = c.prove(f"{env.fn.__qualname__}:assertion on {name}/{k}", goal)
        if ob["verdict"] != "discharged":
            ob["verdict"] = "unknown"
            raise Unsupported(f"assertion on {name}/{k} not proved: {ob['detail'][:80]}")
        assume(p)
    env.vars[name] = fresh_like(env.vars[name], name)
    for p in f(get):
        assume(p)


def invariant_loop(it, st, env, inv, seq):
    from .interp import Break, Continue, Poison, Return

    c = ctx()
    names = stored_names(st.body)
    tnames = stored_names([st.target]) if isinstance(st, ast.For) else set()

    def get(nm):
        v = env.vars.get(nm)
        if v is None or isinstance(v, Poison):
            raise Unsupported(f"invariant mentions unknown name '{nm}'")
        return v

    tag = f"{env.fn.__qualname__}:loop@{inv.label if hasattr(inv, 'label') else 'inv'}"
    gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in st.body for x in ast.walk(b))
    if gen and (inv.yields is None or env.vars.get("%yields") != []):
        raise Unsupported("yields of a loop with an invariant")
    k, n = S(z3.IntVal(0)), None
    if seq is not None:
        n = S(zi(seq.n if isinstance(seq, SSeq) else len(list(seq))))
        seqf = seq.item if isinstance(seq, SSeq) else None
        lst = None if isinstance(seq, SSeq) else list(seq)

    def holds(k):
        return inv.inv(get, k) if inv.counted else inv.inv(get)

    c.prove(tag + "/entry", holds(k))
    # havoc everything the body assigns; k = number of completed iterations
    for nm in names - tnames:
        if nm in env.vars and nm not in inv.keep:
            env.vars[nm] = fresh_like(env.vars[nm], nm)
    k = S(c.fresh("i", "it"))
    c.fact(k.e >= 0)
    if n is not None:
        c.fact(k.e <= n.e)
    c.assume(_s(holds(k)).e)
    if seq is not None:
        go = c.branch(k.e < n.e)
        if go:
            if seqf is not None:
                it.assign(st.target, seqf(k.e), env)
            elif all(isinstance(x, int) for x in lst) and lst == list(range(lst[0], lst[0] + len(lst))):
                it.assign(st.target, S(z3.simplify(k.e + lst[0])), env)
            else:
                raise Unsupported("invariant loop over a concrete list")
    else:
        go = it.truth(it.ev(st.test, env))
    if go:
        try:
            it.block(st.body, env)
        except Break:
            if gen:
                raise Unsupported("break out of a generator's loop")
            c.prove(tag + "/break", holds(k + 1))
            return
        except Continue:
            pass
        if gen:
            c.prove(tag + "/yields", inv.yields(get, k, env.vars["%yields"]))
        c.prove(tag + "/preserved", holds(k + 1))
        raise PathAbort()
    if gen:
        env.vars["%yields"] = Yielded(k)
    if isinstance(st, (ast.For, ast.While)) and st.orelse:
        it.block(st.orelse, env)
    return
