from .mcommon import *
from vp.graphdom import PLEN, PEL, PathS, simple_path_rel
NUMERIC = False
LEVEL = 'proof'
CM = 'ylearn.causal_model.model.CausalModel.'
FUNCTIONS = [CM + n for n in ('is_frontdoor_set', 'get_frontdoor_set', 'get_backdoor_path', 'is_connected_backdoor_path')] + ['ylearn.causal_model.utils.powerset']
ASSUMPTIONS = ['class invariant of CausalGraph as precondition; no node is named like a synthetic latent parent',
               'explicit_unob_var_dag, has_collider and is_valid_backdoor_set are used through their contracts (discharged under C03 and C04)']
BOUND = 'graphs of 2-6 nodes'
Z = z3.Const('Z', coll.SetS); F = z3.Function('front', coll.SetS, B)
pp = z3.Const('p', PathS)

def setup_args(x):
    g = graph(x); t, o = E.fresh_node('t'), E.fresh_node('o'); E.assume(z3.And(K(t.t), K(o.t), t.t != o.t))
    return g, t, o
def path_of(p):
    s = pyfac.single_seq(p); return s.n.arg(0)
def backdoor_paths(e, t, m):
    """spec: the simple paths of the explicit graph, directions forgotten, from t to m, of more than two nodes, that start with an edge into t"""
    f = simple_path_rel(e.to_undirected()); ed = e.any_edge()
    return lambda p: z3.And(f(p, t, m), PLEN(p) > 2, ed(PEL(p, 1), t))
def h_get_backdoor_path(x):
    with Model(x):
        g, t, o = setup_args(x); r = model(x, g).get_backdoor_path(t, o)
        w = backdoor_paths(explicit_contract(g), t.t, o.t); q = z3.Const('q', PathS)
        E.prove('exactly the simple paths that enter the treatment', z3.ForAll([q], z3.Or([s.exists(lambda l: path_of(l) == q) for k, s in seq_of(r)]) == w(q)))
        unchanged(g)
def h_is_connected(x):
    with Model(x):
        g, t, o = setup_args(x); m = model(x, g); H = E.fresh('H', B); p = E.fresh('p', PathS)
        E.assume(backdoor_paths(explicit_contract(g), t.t, o.t)(p)); pl = graphdom.path_list(p)
        def hc(self, path, backdoor_path=True):
            E.prove('precondition of has_collider', path_of(path) == p); return SB(H)
        with Stub(x.CausalModel, 'has_collider', hc): r = m.is_connected_backdoor_path(pl)
        E.prove('open exactly without a collider', tob(r) == z3.Not(H))
def h_is_frontdoor(x):
    with Model(x):
        g, t, o = setup_args(x); m = model(x, g); e = explicit_contract(g)
        z = PySet.of_arr(Z); E.assume(all1(lambda n: z3.Implies(z3.Select(Z, n), z3.And(K(n), n != t.t, n != o.t))))
        V = E.fresh('backdoor', B)
        COLL = z3.Function('collider_on', PathS, B)      # abbreviates collider(e, p), the contract of is_connected_backdoor_path
        def conn(self, path): return mkb(z3.Not(COLL(path_of(path))))
        def valid(self, s, a, b):
            E.prove('precondition of is_valid_backdoor_set', z3.And(as_set(s).equals(PySet([t])), as_set(a).equals(z), as_set(b).equals(PySet([o]))))
            return SB(V)
        with Stub(x.CausalModel, 'is_connected_backdoor_path', conn), Stub(x.CausalModel, 'is_valid_backdoor_set', valid):
            r = m.is_frontdoor_set(z, t, o)
        i = z3.Const('i', I); d = simple_path_rel(g.observed_dag)
        hit = z3.ForAll([pp], z3.Implies(d(pp, t.t, o.t), z3.Exists([i], z3.And(i >= 0, i < PLEN(pp), z3.Select(Z, PEL(pp, i))))))
        clear = z3.ForAll([a, pp], z3.Implies(z3.And(z3.Select(Z, a), backdoor_paths(e, t.t, a)(pp)), COLL(pp)))
        E.prove('accepts exactly the sets meeting the criterion', tob(r) == z3.And(hit, clear, V))
        unchanged(g)

def search(x, style, sets):
    with Model(x):
        g, t, o = setup_args(x); m = model(x, g)
        f = simple_path_rel(g.observed_dag); i = z3.Const('i', I)
        between = lambda n: z3.And(n != t.t, n != o.t, z3.Exists([pp, i], z3.And(f(pp, t.t, o.t), i >= 0, i < PLEN(pp), PEL(pp, i) == n)))
        cand = lambda z: all1(lambda n: z3.Implies(z.as_pred()(n), between(n)))
        def fd(self, s, a, b):
            """contract of is_frontdoor_set: a predicate of the set"""
            E.prove('precondition of is_frontdoor_set', z3.And(eq(a, t), eq(b, o)))
            return mkb(F(as_set(s).as_array()))
        z = PySet.of_arr(Z); ok = lambda s: z3.And(cand(s), F(s.as_array()))
        y1, y2 = z3.Const('s1', coll.SetS), z3.Const('s2', coll.SetS)
        E.assume(z3.ForAll([y1, y2], z3.Implies(all1(lambda n: z3.Select(y1, n) == z3.Select(y2, n)), F(y1) == F(y2))))
        E.assume(z3.ForAll([y1, pp], z3.Implies(z3.And(F(y1), f(pp, t.t, o.t)), z3.Exists([i], z3.And(i >= 0, i < PLEN(pp), z3.Select(y1, PEL(pp, i)))))))     # first clause of that contract
        ta, oa = (PySet([t]), PySet([o])) if sets else (t, o)
        with Stub(x.CausalModel, 'is_frontdoor_set', fd):
            try: r = m.get_frontdoor_set(ta, oa, style)
            except x.u.IdentificationError:
                ne = z.nonempty() if style != 'all' else True
                E.prove('error only when no set qualifies', z3.Not(z3.And(tob(ne), ok(z)))); return
        if sets: E.prove("the caller's sets are untouched", z3.And(ta.equals(PySet([t])), oa.equals(PySet([o]))))
        if style == 'all':
            l = r[0]
            E.prove('lists exactly the qualifying sets', z3.Implies(ok(z), vcontains(l, z)))
            for k, v in seq_of(l): E.prove('every listed set qualifies', ok(as_set(v)) if k == 'c' else v.forall(lambda s: ok(as_set(s))))
        else:
            s = as_set(r[0])
            E.prove('the set qualifies', ok(s)); E.prove('not empty', s.nonempty())
            E.prove('no smaller set qualifies', z3.Implies(ok(z), coll.card(s) <= coll.card(z)))
        unchanged(g)
def h_all(x): search(x, 'all', False)
def h_all_sets(x): search(x, 'all', True)
def h_minimal(x): search(x, 'minimal', False)
def h_simple_sets(x): search(x, 'simple', True)
HARNESS = {n[2:]: f for n, f in list(globals().items()) if n.startswith('h_')}
