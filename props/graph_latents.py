from .gcommon import *
NUMERIC = False
LEVEL = 'proof'
CG = 'ylearn.causal_model.graph.CausalGraph.'
FUNCTIONS = [CG + n for n in ('latent_confounding_arcs', 'explicit_unob_var_dag', 'c_components', 'is_d_separated', 'to_adj_matrix')]
ASSUMPTIONS = ['node names are opaque values with equality', 'class invariant of CausalGraph as precondition; no node is named like a synthetic latent parent (U0, U1, ...)']
BOUND = 'graphs of 1-7 nodes'

def h_arcs(x):
    g = graph(x); l = g.latent_confounding_arcs
    inl = lambda u, v: l.contains((SE(u), SE(v)))
    E.prove('only arcs', all2(lambda u, v: z3.Implies(inl(u, v), Lt(u, v))))
    E.prove('each arc in exactly one direction', all2(lambda u, v: z3.Implies(Lt(u, v), z3.Xor(inl(u, v), inl(v, u)))))
    unchanged(g)
def h_explicit(x):
    g = graph(x); U = names_apart()
    A, l = arcs_contract(lambda u, v: Lt(u, v))
    with Stub(x.CausalGraph, 'latent_confounding_arcs', property(lambda self: l)): e = g.explicit_unob_var_dag
    ed = e.any_edge(); d = z3.Const('d', Node)
    E.prove('observed edges', all2(lambda u, v: z3.Implies(z3.And(K(u), K(v)), ed(u, v) == P(v, u))))
    E.prove('observed nodes', all1(lambda n: z3.Implies(K(n), e.Nd(n))))
    E.prove('latent parents have no parents', all2(lambda u, v: z3.Implies(ed(u, v), K(v))))
    E.prove('every arc has a latent parent', all2(lambda u, v: z3.Implies(Lt(u, v), z3.Exists([c], z3.And(z3.Not(K(c)), ed(c, u), ed(c, v))))))
    E.prove('latent parents come from arcs', z3.ForAll([a, b, c], z3.Implies(z3.And(z3.Not(K(c)), ed(c, a), ed(c, b), a != b), Lt(a, b))))
    E.prove('one latent parent per arc', z3.ForAll([a, b, c, d], z3.Implies(z3.And(z3.Not(K(c)), z3.Not(K(d)), ed(c, a), ed(c, b), ed(d, a), ed(d, b), a != b), c == d)))
    E.prove('exactly two children', z3.ForAll([c], z3.Implies(z3.And(e.Nd(c), z3.Not(K(c))), z3.Exists([a, b], z3.And(a != b, ed(c, a), ed(c, b), z3.ForAll([d], z3.Implies(ed(c, d), z3.Or(d == a, d == b))))))))
    unchanged(g)
def h_components(x):
    g = graph(x); A, l = arcs_contract(lambda u, v: Lt(u, v))
    with Stub(x.CausalGraph, 'latent_confounding_arcs', property(lambda self: l)): cc = PyList(g.c_components)
    bi = Graph(); bi.Nd = lambda n: K(n); bi.Ed[0] = lambda u, v: Lt(u, v)
    f = conn_of(bi); s = cc.segs[0][1]
    E.prove('components are classes of arc-connectivity', s.forall(lambda s: z3.And(z3.Exists([a], s.as_pred()(a)), all1(lambda n: z3.Implies(s.as_pred()(n), K(n))), all2(lambda n, m: z3.Implies(s.as_pred()(n), s.as_pred()(m) == z3.And(K(m), f(n, m)))))))
    E.prove('components cover the nodes', all1(lambda n: z3.Implies(K(n), s.exists(lambda s: s.as_pred()(n)))))
    unchanged(g)
def h_dsep(x):
    """is_d_separated asks about the graph with its latent parents made explicit"""
    g = graph(x); U = names_apart(); A, l = arcs_contract(lambda u, v: Lt(u, v))
    with Stub(x.CausalGraph, 'latent_confounding_arcs', property(lambda self: l)): e = g.explicit_unob_var_dag
    X, Y, Z = (PySet.of_arr(z3.Const(n, SetS)) for n in 'XYZ')
    with Stub(x.CausalGraph, 'explicit_unob_var_dag', property(lambda self: e)):
        r = g.is_d_separated(X, Y, Z)
    E.prove('d-separation in the explicit graph', tob(r) == tob(d_separated(e, X, Y, Z)))
    unchanged(g)
def h_adj(x):
    g = graph(x); w = g.to_adj_matrix(); p = posid(g.dag).pos
    E.assume(z3.And(K(a), K(b)))
    E.prove('entry counts the edges', term(w[SN(p(a)), SN(p(b))]) == z3.If(P(b, a), 1, 0) + z3.If(Lt(a, b), 1, 0))
HARNESS = {n[2:]: f for n, f in list(globals().items()) if n.startswith('h_')}
