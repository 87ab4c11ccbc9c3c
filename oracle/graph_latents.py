from gutil import *
STATS = {}
def cases(rng, n):
    for i in range(n):
        d = rand_graph(rng, nmax=7, q=rng.choice([.1, .3, .6])); ns = list(d['nodes']); rng.shuffle(ns)
        k = len(ns); a = rng.randint(1, max(1, k - 1)); b = rng.randint(a, k)
        yield dict(graph=d, X=ns[:min(a, 2)], Y=ns[min(a, 2):min(a, 2) + 1], Z=rand_subset(rng, ns[min(a, 2) + 1:]))
def check(case):
    d = case['graph']; g = build(d); m = M.of(d)
    arcs = list(g.latent_confounding_arcs)
    if sorted(map(sorted, arcs)) != sorted(map(sorted, m.a)): return 'latent arcs %r, expected %r' % (arcs, sorted(map(sorted, m.a)))
    e = g.explicit_unob_var_dag; lat = [v for v in e.nodes if v not in m.n]
    if set(e.nodes) - set(lat) != m.n: return 'explicit graph misses nodes'
    es = [(u, v) for u, v, k in e.edges(keys=True)]
    if len(es) != len(set(es)): return 'explicit graph has parallel edges'
    if {(u, v) for u, v in es if u in m.n} != m.e: return 'explicit graph changes observed edges'
    if sorted(tuple(sorted(v for u, v in es if u == l)) for l in lat) != sorted(tuple(sorted(x)) for x in m.a): return 'latent parents %r do not match the arcs' % [(l, sorted(v for u, v in es if u == l)) for l in lat]
    cc = [frozenset(c) for c in g.c_components]
    if len(cc) != len(set(cc)) or set(cc) != m.comps(): return 'c-components %r, expected %r' % (cc, m.comps())
    if case['X'] and case['Y']:
        for Z in (case['Z'], [], case['Z'][:1]):
            r = bool(g.is_d_separated(set(case['X']), set(case['Y']), set(Z)))
            if r != m.dsep(case['X'], case['Y'], Z): return 'is_d_separated(%r, %r, %r) = %s' % (case['X'], case['Y'], Z, r)
            STATS['dsep'] = STATS.get('dsep', 0) + 1; STATS['separated'] = STATS.get('separated', 0) + r
    w = g.to_adj_matrix(); ns = list(g.dag.nodes)
    for i, u in enumerate(ns):
        for j, v in enumerate(ns):
            if w[i][j] != ((u, v) in m.e) + (frozenset((u, v)) in m.a and u != v): return 'adjacency matrix entry %r -> %r is %r' % (u, v, w[i][j])
    return differs(g, m, 'graph after queries: ')
