from .gcommon import *
NUMERIC = False
LEVEL = 'proof'
CG = 'ylearn.causal_model.graph.CausalGraph.'
FUNCTIONS = [CG + n for n in ('__init__', 'observed_dag', 'add_nodes', 'add_edges_from', 'add_edge', 'remove_nodes', 'remove_edge', 'remove_edges_from', 'build_sub_graph', 'remove_incoming_edges', 'remove_outgoing_edges')] + ['ylearn.causal_model.utils.check_nodes']
ASSUMPTIONS = ['node names are opaque values with equality', 'input graphs satisfy the class invariant (every parent is a node; arcs join two distinct nodes)']
BOUND = 'graphs of 1-7 nodes, random sequences of 1-4 surgeries'

def h_init(x):
    """constructor: nodes, edges and arcs as given; the caller's parent table is not shared"""
    wf()
    d = RelDict(lambda n: K(n), lambda n, q: P(n, q), False)
    arcs = edgelist()
    E.assume(all2(lambda u, v: z3.Implies(R(u, v), z3.And(K(u), K(v), u != v))))
    none = E.choose(2) == 0
    g = x.CausalGraph(d, latent_confounding_arcs=None if none else arcs)
    lat = (lambda n, q: z3.BoolVal(False)) if none else (lambda n, q: z3.Or(R(n, q), R(q, n)))
    state_is(g, lambda n: K(n), lambda n, q: P(n, q), lat)
    E.prove('caller table', all2(lambda n, q: z3.And(d.K(n) == K(n), d.P(n, q) == P(n, q))))
    g.causation['fresh-parent-target'] = ['z']
    g.add_edge('u0', 'v0')
    E.prove('caller table not shared', all2(lambda n, q: z3.And(d.K(n) == K(n), d.P(n, q) == P(n, q))))

def h_observed(x):
    """observed_dag has exactly the nodes and the directed edges"""
    g = graph(x); o = g.observed_dag
    E.prove('nodes', all1(lambda n: o.Nd(n) == K(n)))
    E.prove('edges', all2(lambda n, q: o.any_edge()(q, n) == P(n, q)))
    unchanged(g)

def h_add_nodes(x):
    g = graph(x); new = E.choose(2) == 0
    ns = nodelist() if E.choose(2) == 0 else PySet.of_pred(lambda n: S(n))
    r = g.add_nodes(ns, new=new)
    state_is(r if new else g, lambda n: z3.Or(K(n), S(n)), lambda n, q: P(n, q), lambda n, q: Lt(n, q))
    if new: unchanged(g)

def h_add_edges(x):
    g = graph(x); new = E.choose(2) == 0
    E.assume(all2(lambda u, v: z3.Implies(R(u, v), z3.And(K(u), K(v)))))
    r = g.add_edges_from(edgelist(), new=new)
    state_is(r if new else g, lambda n: K(n), lambda n, q: z3.Or(P(n, q), R(q, n)), lambda n, q: Lt(n, q))
    if new: unchanged(g)

def h_add_arcs(x):
    g = graph(x); new = E.choose(2) == 0
    E.assume(all2(lambda u, v: z3.Implies(R(u, v), z3.And(K(u), K(v), u != v))))
    r = g.add_edges_from(edgelist(), new=new, observed=False)
    state_is(r if new else g, lambda n: K(n), lambda n, q: P(n, q), lambda n, q: z3.Or(Lt(n, q), R(q, n), R(n, q)))
    if new: unchanged(g)

def h_add_edge(x):
    g = graph(x)
    s, t = E.fresh_node('s'), E.fresh_node('t'); E.assume(z3.And(K(s.t), K(t.t), s.t != t.t))
    if E.choose(2) == 0:
        g.add_edge(s, t)
        state_is(g, lambda n: K(n), lambda n, q: z3.Or(P(n, q), z3.And(n == t.t, q == s.t)), lambda n, q: Lt(n, q))
    else:
        g.add_edge(s, t, observed=False)
        state_is(g, lambda n: K(n), lambda n, q: P(n, q), lambda n, q: z3.Or(Lt(n, q), z3.And(n == t.t, q == s.t), z3.And(n == s.t, q == t.t)))

def h_remove_nodes(x):
    g = graph(x); new = E.choose(2) == 0
    r = g.remove_nodes(nodeset(), new=new)
    keep = lambda n: z3.And(K(n), z3.Not(S(n)))
    state_is(r if new else g, keep, lambda n, q: z3.And(P(n, q), keep(n), keep(q)), lambda n, q: z3.And(Lt(n, q), keep(n), keep(q)))
    if new: unchanged(g)

def h_remove_edge(x):
    g = graph(x)
    s, t = E.fresh_node('s'), E.fresh_node('t')
    if E.choose(2) == 0:
        E.assume(P(t.t, s.t))
        g.remove_edge((s, t))
        state_is(g, lambda n: K(n), lambda n, q: z3.And(P(n, q), z3.Not(z3.And(n == t.t, q == s.t))), lambda n, q: Lt(n, q))
    else:
        E.assume(Lt(t.t, s.t))
        g.remove_edge((s, t), observed=False)
        state_is(g, lambda n: K(n), lambda n, q: P(n, q), lambda n, q: z3.And(Lt(n, q), z3.Not(z3.And(n == t.t, q == s.t)), z3.Not(z3.And(n == s.t, q == t.t))))

def h_remove_edges(x):
    g = graph(x); new = E.choose(2) == 0
    E.assume(all2(lambda u, v: z3.Implies(R(u, v), P(v, u))))
    r = g.remove_edges_from(edgelist(), new=new)
    state_is(r if new else g, lambda n: K(n), lambda n, q: z3.And(P(n, q), z3.Not(R(q, n))), lambda n, q: Lt(n, q))
    if new: unchanged(g)

def h_remove_arcs(x):
    g = graph(x); new = E.choose(2) == 0
    E.assume(all2(lambda u, v: z3.Implies(R(u, v), Lt(v, u))))
    r = g.remove_edges_from(edgelist(), new=new, observed=False)
    state_is(r if new else g, lambda n: K(n), lambda n, q: P(n, q), lambda n, q: z3.And(Lt(n, q), z3.Not(R(q, n)), z3.Not(R(n, q))))
    if new: unchanged(g)

def h_subgraph(x):
    g = graph(x); r = g.build_sub_graph(nodeset())
    state_is(r, lambda n: S(n), lambda n, q: z3.And(P(n, q), S(n), S(q)), lambda n, q: z3.And(Lt(n, q), S(n), S(q)))
    unchanged(g)

def h_incoming(x):
    g = graph(x); new = E.choose(2) == 0
    r = g.remove_incoming_edges(nodeset(), new=new)
    state_is(r if new else g, lambda n: K(n), lambda n, q: z3.And(P(n, q), z3.Not(S(n))), lambda n, q: z3.And(Lt(n, q), z3.Not(S(n)), z3.Not(S(q))))
    if new: unchanged(g)

def h_outgoing(x):
    g = graph(x); new = E.choose(2) == 0
    r = g.remove_outgoing_edges(nodeset(), new=new)
    state_is(r if new else g, lambda n: K(n), lambda n, q: z3.And(P(n, q), z3.Not(S(q))), lambda n, q: Lt(n, q))
    if new: unchanged(g)

HARNESS = {n[2:]: f for n, f in list(globals().items()) if n.startswith('h_')}
