"""Summaries of functions of the repository that are proved against the same
postconditions by their own scenarios (P02), used at call sites."""
from dv import npmodel
from dv.core import B, I, S, SArr, SMap, ctx, z3, zi
from dv.npmodel import iv


def domain_map(sd, keep, eager=False):
    """domain label -> increasing positions carrying it, for the labels kept"""
    c = ctx()
    n = zi(sd.shape[0])
    K = c.fresh("i", "ndomains")
    key, cnt = c.func("dkey", I, I), c.func("dcnt", I, I)
    sel, pos, dom = c.func("dsel", I, I, I), c.func("dpos", I, I), c.func("ddom", I, I)
    j, j2, k, k2, v = iv("j"), iv("j2"), iv("k"), iv("k2"), iv("v")
    c.fact(K >= 0)
    inj = z3.And(0 <= j, j < K)
    at = lambda x: sd.fn(x).e
    c.forall([j], z3.Implies(inj, z3.And(keep(key(j)), cnt(j) >= 1)), [key(j)])
    c.forall([j], z3.Implies(inj, z3.And(keep(key(j)), cnt(j) >= 1, cnt(j) <= n)), [cnt(j)])
    c.forall([j, j2], z3.Implies(z3.And(inj, j2 > j, j2 < K), key(j) < key(j2)), [z3.MultiPattern(key(j), key(j2))])
    if eager:
        f = sel(j, z3.IntVal(0))
        c.forall([j], z3.Implies(inj, z3.And(0 <= f, f < n, at(f) == key(j))), [key(j)])
    s = sel(j, k)
    c.forall([j, k], z3.Implies(z3.And(inj, 0 <= k, k < cnt(j)), z3.And(
        0 <= s, s < n, at(s) == key(j), keep(at(s)), pos(s) == k, dom(s) == j)), [s])
    c.forall([j, k, k2], z3.Implies(z3.And(inj, 0 <= k, k < k2, k2 < cnt(j)), sel(j, k) < sel(j, k2)),
             [z3.MultiPattern(sel(j, k), sel(j, k2))])
    c.forall([v], z3.Implies(z3.And(0 <= v, v < n, keep(at(v))), z3.And(
        0 <= dom(v), dom(v) < K, key(dom(v)) == at(v), 0 <= pos(v), pos(v) < cnt(dom(v)), sel(dom(v), pos(v)) == v)),
        [dom(v)] + ([at(v)] if eager else []))
    member = lambda jj: (lambda x: z3.And(0 <= x, x < n, at(x) == key(jj)))
    m = SMap(S(K), lambda q: S(key(zi(q))),
             lambda q: SArr((S(cnt(zi(q))),), "i", lambda i, q=q: S(sel(zi(q), i)),
                            inv=(member(zi(q)), lambda x: pos(x))))
    c.memo.setdefault("domain_maps", []).append(m)
    m.ghost = dict(keep=keep, dom=dom, pos=pos, sel=sel, cnt=cnt, key=key, K=K)
    return m


def c_extract_domains_eager(it, sample_domain, split_source_target=False):
    return c_extract_domains_indices(it, sample_domain, split_source_target, eager=True)


def c_extract_domains_indices(it, sample_domain, split_source_target=False, eager=False):
    sd = npmodel.lit(sample_domain)
    if sd.ndim != 1:
        return NotImplemented
    if not split_source_target:
        return domain_map(sd, lambda v: z3.BoolVal(True), eager)
    return domain_map(sd, lambda v: v >= 0, eager), domain_map(sd, lambda v: v < 0, eager)
