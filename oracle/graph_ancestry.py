from gutil import *
from ylearn.causal_model import utils as U
STATS = {}
def cases(rng, n):
    for i in range(n):
        d = rand_graph(rng, nmax=8); ns = d['nodes']
        yield dict(graph=d, xs=rand_subset(rng, ns), one=rng.choice(ns), extra=rng.random() < .3, form=rng.choice(['set', 'list', 'tuple']))
def check(case):
    d = case['graph']; g = build(d); m = M.of(d)
    xs = {'set': set, 'list': list, 'tuple': tuple}[case['form']](case['xs'])
    if g.ancestors(xs) != m.anc(case['xs']): return 'ancestors(%r) = %r, expected %r' % (xs, g.ancestors(xs), m.anc(case['xs']))
    if g.descendents(xs) != m.desc(case['xs']): return 'descendents(%r) = %r, expected %r' % (xs, g.descendents(xs), m.desc(case['xs']))
    o = case['one']
    if g.ancestors(o) != m.anc([o]): return 'ancestors(%r) = %r, expected %r' % (o, g.ancestors(o), m.anc([o]))
    if g.descendents(o) != m.desc([o]): return 'descendents(%r) = %r, expected %r' % (o, g.descendents(o), m.desc([o]))
    for v in d['nodes']:
        if sorted(g.parents(v)) != sorted(m.pa(v)): return 'parents(%r) = %r' % (v, g.parents(v))
        al = g.parents(v, only_observed=False)
        lat = [p for p in al if p not in m.n]
        if sorted(p for p in al if p in m.n) != sorted(m.pa(v)) or len(lat) != sum(v in x for x in m.a) or len(set(lat)) != len(lat): return 'all parents of %r = %r' % (v, al)
    t = list(g.topo_order)
    if sorted(t) != sorted(m.n): return 'topological order %r misses or repeats nodes' % t
    for s, e in m.e:
        if t.index(s) > t.index(e): return 'topological order %r puts %r before its parent %r' % (t, e, s)
    if not g.is_dag: return 'acyclic graph reported cyclic'
    if m.e:
        s, e = sorted(m.e)[0]
        h = CausalGraph({**{k: list(m.pa(k)) for k in m.n}, s: sorted(m.pa(s) | {e})})
        if h.is_dag: return 'cyclic graph reported acyclic'
    ob = g.observed_dag
    if set(ob.nodes) != m.n or {(u, v) for u, v in ob.edges()} != m.e: return 'observed_dag differs'
    ps = U.powerset(case['xs'][:6])
    want = {frozenset(x) for r in range(len(case['xs'][:6]) + 1) for x in itertools.combinations(case['xs'][:6], r)}
    if len(ps) != len(want) or {frozenset(x) for x in ps} != want or [len(x) for x in ps] != sorted(len(x) for x in ps): return 'powerset(%r) = %r' % (case['xs'][:6], ps)
    e = g.explicit_unob_var_dag; be = {(u, v) for u, v, k in e.edges(keys=True)}
    for inc in (True, False):
        r = U.remove_ingo_edges(e, inc, set(case['xs']))
        w = {(u, v) for u, v in be if (v if inc else u) not in case['xs']}
        if {(u, v) for u, v, k in r.edges(keys=True)} != w or set(r.nodes) != set(e.nodes): return 'remove_ingo_edges(%s, %r) leaves %r, expected %r' % (inc, case['xs'], sorted(r.edges()), sorted(w))
        if {(u, v) for u, v, k in e.edges(keys=True)} != be: return 'remove_ingo_edges changed its argument'
    for ok, s in ((True, set(case['xs'])), (False, set(case['xs']) | {'no-such-node'})):
        try: U.check_nodes(g.ava_nodes, s); r = True
        except AssertionError: r = False
        if r != ok: return 'check_nodes(%r) %s' % (s, 'accepted' if r else 'rejected')
    return differs(g, m, 'graph after queries: ')
