from .mcommon import *
NUMERIC = False
LEVEL = 'proof'
CM = 'ylearn.causal_model.model.CausalModel.'
FUNCTIONS = [CM + n for n in ('is_valid_backdoor_set', 'get_backdoor_set', 'has_collider', 'is_connected_backdoor_path')] + ['ylearn.causal_model.utils.powerset', 'ylearn.causal_model.graph.CausalGraph.remove_outgoing_edges']
ASSUMPTIONS = ['class invariant of CausalGraph as precondition; no node is named like a synthetic latent parent', 'explicit_unob_var_dag is used through its contract (discharged under property graph_latents)']
BOUND = 'graphs of 2-6 nodes'
T = z3.Function('T', Node, B); O = z3.Function('O', Node, B); Z = z3.Const('Z', coll.SetS)

def args(one):
    if one:
        t, o = E.fresh_node('t'), E.fresh_node('o'); E.assume(z3.And(K(t.t), K(o.t), t.t != o.t))
        return t, o, (lambda n: n == t.t), (lambda n: n == o.t)
    E.assume(all1(lambda n: z3.Implies(z3.Or(T(n), O(n)), K(n)))); E.assume(all1(lambda n: z3.Not(z3.And(T(n), O(n)))))
    return PySet.of_pred(lambda n: T(n)), PySet.of_pred(lambda n: O(n)), (lambda n: T(n)), (lambda n: O(n))

def criterion(x, g, tp, op, z):
    e = explicit_contract(cutgraph(x, tp))
    return tob(d_separated(e, PySet.of_pred(tp), PySet.of_pred(op), z))
def desc(g, tp):
    f = reach_of(g.observed_dag)
    return lambda n: z3.Exists([b], z3.And(tp(b), f(b, n)))

def valid(x, one):
    with Model(x):
        g = graph(x); t, o, tp, op = args(one)
        z = PySet.of_arr(Z); E.assume(all1(lambda n: z3.Implies(z3.Select(Z, n), K(n))))
        r = model(x, g).is_valid_backdoor_set(z, t, o)
        d = desc(g, tp)
        E.prove('accepts exactly the sets meeting the criterion', tob(r) == z3.And(z3.Not(z3.Exists([a], z3.And(z3.Select(Z, a), z3.Or(tp(a), d(a))))), criterion(x, g, tp, op, z)))
        unchanged(g)
def h_valid_sets(x): valid(x, False)
def h_valid_names(x): valid(x, True)

def search(x, one, style):
    with Model(x):
        g = graph(x); t, o, tp, op = args(one); m = model(x, g)
        d = desc(g, tp)
        ok = lambda z: z3.And(all1(lambda n: z3.Implies(z.as_pred()(n), z3.And(K(n), z3.Not(z3.Or(tp(n), op(n), d(n)))))), criterion(x, g, tp, op, z))
        z = PySet.of_arr(Z)
        try: r = m.get_backdoor_set(t, o, style)
        except x.u.IdentificationError:
            E.prove('error only when no set qualifies', z3.Not(ok(z))); return
        if r is None: E.prove('a result', False); return
        l = r[0]
        if style == 'all': E.prove('lists exactly the qualifying sets', z3.Implies(ok(z), vcontains(l, z)))
        empty = PySet()
        for k, v in seq_of(l):
            f = lambda s: z3.And(ok(as_set(s)))
            E.prove('every listed set qualifies', f(v) if k == 'c' else v.forall(f))
            if style == 'minimal':
                assert k == 'c'
                E.prove('no smaller set qualifies', z3.Implies(ok(z), coll.card(as_set(v)) <= coll.card(z)))
        unchanged(g)
def h_all_sets(x): search(x, False, 'all')
def h_all_names(x): search(x, True, 'all')
def h_minimal_sets(x): search(x, False, 'minimal')
def h_minimal_names(x): search(x, True, 'minimal')
def h_simple(x):
    with Model(x):
        g = graph(x); t, o, tp, op = args(True); m = model(x, g)
        r = m.get_backdoor_set(t, o, 'simple')
        if r is None:
            E.prove('none only when there are no parents and the empty set fails', z3.And(all1(lambda n: z3.Not(P(t.t, n))), z3.Not(criterion(x, g, tp, op, PySet())))); return
        E.prove('exactly the parents', all1(lambda n: vcontains(r[0], SE(n)) == P(t.t, n)))
        E.prove('the empty set is only given when it meets the criterion', z3.Implies(all1(lambda n: z3.Not(P(t.t, n))), criterion(x, g, tp, op, PySet())))
def apath(x, g):
    """a path of the explicit graph: n >= 2 nodes, consecutive ones joined by an edge"""
    n = E.fresh('n', I); el = E.fresh_fn('el', I, Node); i = z3.Const('i', I); k = bound('k', I)
    e = explicit_contract(g); ed = e.any_edge()
    E.assume(n >= 2); E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), e.Nd(el(i)))))
    fw = lambda i: ed(el(i - 1), el(i)); bw = lambda i: ed(el(i), el(i - 1))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < n), z3.And(z3.Or(fw(i), bw(i)), z3.Not(z3.And(fw(i), bw(i)))))))
    return n, fw, bw, PyList.of([('s', SSeq([k], z3.And(k >= 0, k < n), SE(el(k)), n, True))])
def turn(fw, bw, j, k):
    i = z3.Const('turn', I); return z3.Exists([i], z3.And(i >= j, i < k, fw(i), bw(i + 1)))
def h_turn_lemma(x):
    """a forward step followed later by a backward step: somewhere in between the direction turns (induction on the later step)"""
    g = graph(x); n, fw, bw, p = apath(x, g)
    j, k = E.fresh('j', I), E.fresh('k', I)
    E.assume(z3.And(j >= 1, j < k, k < n, fw(j), bw(k)))
    E.assume(z3.Implies(z3.And(j < k - 1, bw(k - 1)), turn(fw, bw, j, k - 1)))     # induction hypothesis
    E.prove('induction step', turn(fw, bw, j, k))
def h_collider(x):
    with Model(x):
        g = graph(x); n, fw, bw, p = apath(x, g); i, k = z3.Const('i', I), z3.Const('k', I)
        E.assume(z3.ForAll([i, k], z3.Implies(z3.And(i >= 1, i < k, k < n, fw(i), bw(k)), turn(fw, bw, i, k))))   # turn_lemma
        r = model(x, g).has_collider(p)
        E.prove('true exactly for paths with a collider', tob(r) == turn(fw, bw, 1, n - 1))
        unchanged(g)
HARNESS = {n[2:]: f for n, f in list(globals().items()) if n.startswith('h_')}
