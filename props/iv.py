from .mcommon import *
NUMERIC = False
LEVEL = 'proof'
CM = 'ylearn.causal_model.model.CausalModel.'
FUNCTIONS = [CM + n for n in ('get_iv', 'is_valid_iv')] + ['ylearn.causal_model.utils.' + n for n in ('remove_ingo_edges', 'descendents_of_iter', 'check_nodes')] + ['ylearn.causal_model.graph.CausalGraph.parents']
ASSUMPTIONS = ['class invariant of CausalGraph as precondition; no node is named like a synthetic latent parent',
               'explicit_unob_var_dag is used through its contract (discharged under property C03)',
               'classical lemma, checked only by the bounded cross-check: two nodes are d-separated given nothing iff no node is an ancestor-or-self of both']
BOUND = 'graphs of 2-6 nodes'

def setup_args(x):
    g = graph(x); t, o = E.fresh_node('t'), E.fresh_node('o'); E.assume(z3.And(K(t.t), K(o.t), t.t != o.t))
    return g, t, o

def instrument(g, t, o):
    """spec: a parent of t that has no common ancestor with o (itself and o included) once the edges into t are cut"""
    e = explicit_contract(g)
    cut = MultiDiGraph(); cut.Nd = e.Nd; cut.simple = True
    for k in ('n', 0): cut.Ed[k] = lambda u, v, f=e.Ed[k]: z3.And(f(u, v), v != t.t)
    f = reach_of(cut); up = lambda c, n: z3.Or(c == n, f(c, n))
    return lambda n: z3.And(P(t.t, n), z3.Not(z3.Exists([c], z3.And(up(c, o.t), up(c, n)))))

def h_get_iv(x):
    with Model(x):
        g, t, o = setup_args(x); m = model(x, g)
        r = m.get_iv(t, o); w = instrument(g, t, o)
        if r is None: E.prove('none only when there is no instrument', all1(lambda n: z3.Not(w(n))))
        else: E.prove('exactly the instruments', all1(lambda n: vcontains(r, SE(n)) == w(n)))
        unchanged(g)
def valid_iv(x, one):
    with Model(x):
        g, t, o = setup_args(x); m = model(x, g)
        I_ = z3.Function('IV', Node, B)
        def get_iv(self, a, b):
            """contract of get_iv"""
            E.prove('precondition of get_iv', z3.And(eq(a, t), eq(b, o)))
            if E.fork(z3.Exists([c], I_(c))): return PySet.of_pred(lambda n: I_(n))
            return None
        if one: z = E.fresh_node('z'); zp = lambda n: n == z.t
        else: z = nodeset(); zp = lambda n: S(n)
        with Stub(x.CausalModel, 'get_iv', get_iv):
            try: r = m.is_valid_iv(t, o, z)
            except Exception as e:
                if getattr(e, '_modelled', False): raise
                E.prove('error only when there is no instrument at all', all1(lambda n: z3.Not(I_(n)))); return
            E.prove('every element is an instrument', tob(r) == all1(lambda n: z3.Implies(zp(n), I_(n))))
        unchanged(g)
def h_valid_set(x): valid_iv(x, False)
def h_valid_name(x): valid_iv(x, True)
HARNESS = {n[2:]: f for n, f in list(globals().items()) if n.startswith('h_')}
