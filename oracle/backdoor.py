from gutil import *
import itertools
from ylearn.causal_model.model import CausalModel
from ylearn.causal_model.utils import IdentificationError
STATS = {}
def cases(rng, n):
    for i in range(n):
        d = rand_graph(rng, nmin=2, nmax=6); ns = list(d['nodes']); rng.shuffle(ns)
        k = rng.choice([1, 1, 1, 2]) if len(ns) > 2 else 1; l = rng.choice([1, 1, 2]) if len(ns) > k + 1 else 1
        yield dict(graph=d, T=ns[:k], O=ns[k:k + l], str=rng.random() < .5)
def subsets(xs):
    xs = sorted(xs)
    return [set(c) for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]
def check(case):
    d = case['graph']; m = M.of(d); T, O = set(case['T']), set(case['O'])
    ta = case['T'][0] if case['str'] and len(T) == 1 else set(T); oa = case['O'][0] if case['str'] and len(O) == 1 else set(O)
    g = build(d); cm = CausalModel(causal_graph=g)
    cut = m.cut_out(T); de = m.desc(T)          # includes T
    sep = lambda z: cut.dsep(T, O, z)
    for z in subsets(m.n - O):
        r = bool(cm.is_valid_backdoor_set(set(z), ta, oa)); w = not (z & de) and sep(z)
        if z & T: w = False
        if r != w: return 'is_valid_backdoor_set(%r) = %s, expected %s' % (z, r, w)
    ok = [z for z in subsets(m.n - O - de) if sep(z)]
    STATS['sets'] = STATS.get('sets', 0) + len(ok)
    for style in ('all', 'minimal'):
        try: r = cm.get_backdoor_set(ta, oa, style)
        except IdentificationError: r = None
        if not ok:
            if r is not None: return '%s: %r although no set qualifies' % (style, r[0])
            continue
        if r is None: return '%s: error although %r qualifies' % (style, ok[0])
        got = [set(z) for z in r[0]]
        if style == 'all':
            if sorted(map(sorted, got)) != sorted(map(sorted, ok)): return 'all: %r, expected %r' % (got, ok)
        else:
            if len(got) != 1 or got[0] not in ok or len(got[0]) != min(map(len, ok)): return 'minimal: %r; qualifying: %r' % (got, ok)
        a = got[0]; p = r[1]
        if p.marginal != a: return '%s: estimand sums over %r, not over %r' % (style, p.marginal, a)
        if sorted((sorted(q.variables), sorted(q.conditional or ())) for q in p.product) != sorted([(sorted(O), sorted(T | a)), (sorted(a), [])]):
            return '%s: estimand factors %r' % (style, [(q.variables, q.conditional) for q in p.product])
    pa = set().union(*[m.pa(t) for t in T])
    r = cm.get_backdoor_set(ta, oa, 'simple')
    if pa or sep(set()):
        if r is None or set(r[0]) != pa: return 'simple: %r, parents are %r' % (r, pa)
    elif r is not None: return 'simple: %r although the empty set does not qualify' % (r[0],)
    # paths, on an independent explicit graph
    e = g.explicit_unob_var_dag; es = set(e.edges()) if not e.is_multigraph() else {(u, v) for u, v, k in e.edges(keys=True)}
    t, o = case['T'][0], case['O'][0]
    nb = {}
    for u, v in es: nb.setdefault(u, set()).add(v); nb.setdefault(v, set()).add(u)
    paths = []
    def go(p):
        if p[-1] == o: paths.append(list(p)); return
        for v in sorted(nb.get(p[-1], ())):
            if v not in p: go(p + [v])
    go([t])
    bd = [p for p in paths if len(p) > 2 and (p[1], p[0]) in es]
    got = cm.get_backdoor_path(t, o)
    if sorted(map(list, got)) != sorted(bd): return 'get_backdoor_path: %r, expected %r' % (got, bd)
    for p in paths[:40]:
        w = any((p[i - 1], p[i]) in es and (p[i + 1], p[i]) in es for i in range(1, len(p) - 1))
        r = bool(cm.has_collider(p))
        if r != w: return 'has_collider(%r) = %s, expected %s' % (p, r, w)
        STATS['paths'] = STATS.get('paths', 0) + 1
        if len(p) > 2 and (p[1], p[0]) in es and bool(cm.is_connected_backdoor_path(p)) != (not w): return 'is_connected_backdoor_path(%r) = %s' % (p, w)
    return differs(g, m, 'graph after queries: ')
def shrink(case):
    d = case['graph']
    for k in ('edges', 'arcs'):
        for i in range(len(d[k])):
            e = dict(d); e[k] = d[k][:i] + d[k][i + 1:]; yield dict(case, graph=e)
