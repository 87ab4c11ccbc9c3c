from .gcommon import *
NUMERIC = False
LEVEL = 'proof'
CG = 'ylearn.causal_model.graph.CausalGraph.'
UT = 'ylearn.causal_model.utils.'
FUNCTIONS = [CG + n for n in ('ancestors', 'descendents', 'parents', 'topo_order', 'is_dag', 'observed_dag')] + [UT + n for n in ('ancestors_of_iter', 'descendents_of_iter', 'check_nodes', 'powerset', 'remove_ingo_edges')]
ASSUMPTIONS = ['node names are opaque values with equality', 'class invariant of CausalGraph as precondition']
BOUND = 'graphs of 1-7 nodes'

def h_ancestors(x):
    """ancestors(S) = S plus everything with a directed path into S"""
    g = graph(x); r = g.ancestors(nodeset(within=None)); f = reach_of(g.observed_dag)
    E.prove('ancestors', all1(lambda n: r.as_pred()(n) == z3.Or(S(n), z3.Exists([b], z3.And(S(b), f(n, b))))))
    unchanged(g)
def h_ancestors_one(x):
    g = graph(x); s = E.fresh_node('x'); f = reach_of(g.observed_dag)
    r = g.ancestors(PySet([s]))
    E.prove('ancestors', all1(lambda n: r.as_pred()(n) == z3.Or(n == s.t, f(n, s.t))))
def h_descendents(x):
    g = graph(x); r = g.descendents(nodeset(within=None)); f = reach_of(g.observed_dag)
    E.prove('descendants', all1(lambda n: r.as_pred()(n) == z3.Or(S(n), z3.Exists([b], z3.And(S(b), f(b, n))))))
    unchanged(g)
def h_descendents_one(x):
    g = graph(x); s = E.fresh_node('x'); f = reach_of(g.observed_dag)
    r = g.descendents(PySet([s]))
    E.prove('descendants', all1(lambda n: r.as_pred()(n) == z3.Or(n == s.t, f(s.t, n))))
def h_parents(x):
    g = graph(x); s = E.fresh_node('x'); E.assume(K(s.t))
    l = g.parents(s)
    E.prove('observed parents', all1(lambda n: vcontains(l, SE(n)) == P(s.t, n)))
    U = names_apart(); A, l = arcs_contract(lambda u, v: Lt(u, v))
    with Stub(x.CausalGraph, 'latent_confounding_arcs', property(lambda self: l)): e = g.explicit_unob_var_dag
    with Stub(x.CausalGraph, 'explicit_unob_var_dag', property(lambda self: e)):
        l = g.parents(s, only_observed=False)
    E.prove('all parents', all1(lambda n: vcontains(l, SE(n)) == e.any_edge()(n, s.t)))
    unchanged(g)
def h_topo(x):
    g = graph(x); l = PyList(g.topo_order); sq = l.segs[0][1]; n = sq.n
    at = lambda i: sq.inst([i])[2].t
    i, j = z3.Ints('i j'); inr = lambda k: z3.And(0 <= k, k < n)
    E.prove('every node listed', all1(lambda m: z3.Implies(K(m), l.contains(SE(m)))))
    E.prove('only nodes listed', z3.ForAll([i], z3.Implies(inr(i), K(at(i)))))
    E.prove('each once', z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), at(i) == at(j)), i == j)))
    E.prove('parents first', z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), P(at(j), at(i))), i < j)))
def h_isdag(x):
    g = graph(x); r = g.is_dag; f = reach_of(g.observed_dag)
    E.prove('acyclic iff no node reaches itself', tob(r) == all1(lambda n: z3.Not(f(n, n))))
def h_powerset(x):
    s = nodeset(within=None); r = x.u.powerset(s)
    z = PySet.of_arr(z3.Const('Z', coll.SetS))
    E.prove('exactly the subsets', r.contains(z) == z.subset(s))
    E.prove('argument unchanged', all1(lambda n: s.as_pred()(n) == S(n)))
    sq = r.segs[0][1]
    if len(r.segs) == 1 and sq.order is not None:
        v1, c1, e1 = sq.inst(); v2, c2, e2 = sq.inst()
        E.prove('by increasing size', z3.Implies(z3.And(c1, c2, coll.CARD(e1.as_array()) < coll.CARD(e2.as_array())), z3.Not(sq.order(v2, v1))))
    else: raise Unsupported('order of the powerset')
def h_remove_ingo(x):
    g = graph(x).dag; G0, Gn = g.Ed[0], g.Ed['n']
    E.assume(all2(lambda u, v: z3.Not(z3.And(G0(u, v), Gn(u, v)))))
    inc = E.choose(2) == 0
    r = x.u.remove_ingo_edges(g, inc, nodeset())
    E.prove('edges', all2(lambda u, v: r.any_edge()(u, v) == z3.And(z3.Or(G0(u, v), Gn(u, v)), z3.Not(S(v) if inc else S(u)))))
    E.prove('nodes', all1(lambda n: r.Nd(n) == K(n)))
    E.prove('original', all2(lambda u, v: z3.And(g.Ed[0](u, v) == G0(u, v), g.Ed['n'](u, v) == Gn(u, v))))
def h_check_nodes(x):
    """check_nodes accepts exactly the sets of known nodes"""
    g = graph(x)
    ok = all1(lambda n: z3.Implies(S(n), K(n)))
    try: x.u.check_nodes(g.ava_nodes, nodeset(within=None)); passed = True
    except AssertionError: passed = False
    E.prove('accepts iff all known', ok if passed else z3.Not(ok))
HARNESS = {n[2:]: f for n, f in list(globals().items()) if n.startswith('h_')}
