from .mcommon import *
from vp.coll import merge_vals, subst
NUMERIC = False
LEVEL = 'proof'
FUNCTIONS = ['ylearn.causal_model.model.CausalModel.id', 'ylearn.causal_model.prob.Prob.__init__', 'ylearn.causal_model.graph.CausalGraph.prob']
ASSUMPTIONS = ['soundness and completeness of the published ID algorithm (Shpitser & Pearl 2006); the proof is that the code performs, for every input, the recursion step that the algorithm prescribes, with the recursive call used through this same contract',
               'graph operations are used through their contracts (discharged under C01, C02, C03)',
               'known finding: when the recursion of line 7 ends in line 6 or 7, the algorithm takes conditionals of the product distribution, the code those of the observational one; the proof covers lines 6 and 7 for the observational distribution',
               'y and x are non-empty disjoint sets of nodes at the entry']
BOUND = 'graphs of 2-6 binary variables, exact evaluation of the estimand against the interventional distribution'
GS = z3.DeclareSort('GraphTok'); G0 = z3.Const('G0', GS)
VV = z3.Function('nodes_of', GS, Node, B); CO = z3.Function('confounded', GS, Node, Node, B); REP = z3.Function('comp_rep', GS, Node, Node)
POS = z3.Function('topo_pos', GS, Node, I); AT = z3.Function('topo_at', GS, I, Node); NT = z3.Function('topo_len', GS, I)
X, Y = z3.Function('X', Node, B), z3.Function('Y', Node, B)

TOKS = []
def lookup(op, t, p):
    """the result of an operation is a function of the graph and of the set: the same name for the same arguments"""
    for o, u, q, r in TOKS:
        if o == op and z3.eq(u, t):
            if E.implied(all1(lambda n: p(n) == q(n))): return r
def opgraph(op, t, p):
    r = lookup(op, t, p)
    if r is not None: return r
    lv = list(E.loopvars)
    if any(pyfac._occurs(p(z3.Const('probe', Node)), {v.decl().name()}) for v in lv): f = E.fresh_fn(op + '_graph', *[v.sort() for v in lv], GS); r = f(*lv)
    else: r = E.fresh(op + '_graph', GS); TOKS.append((op, t, p, r)); lv = []
    glob = (lambda c: E.assume_global(z3.ForAll(lv, c))) if lv else E.assume_global
    if op == 'sub': glob(all1(lambda n: VV(r, n) == p(n)))
    if op == 'cut': glob(all1(lambda n: VV(r, n) == VV(t, n)))
    if op == 'del':
        glob(all1(lambda n: VV(r, n) == z3.And(VV(t, n), z3.Not(p(n)))))
        glob(all2(lambda u, v: z3.Implies(CO(r, u, v), CO(t, u, v))))      # confounded in the smaller graph, confounded in the larger
    if r.num_args() == 0: OPS[r.get_id()] = (op, t, p)
    return r
OPS = {}
def opfun(op, t, p):
    r = lookup(op, t, p)
    if r is not None: return r
    if any(pyfac._occurs(p(z3.Const('probe', Node)), {v.decl().name()}) for v in E.loopvars): raise Unsupported('ancestors of a loop element')
    f = E.fresh_fn(op, Node, B); TOKS.append((op, t, p, f))
    E.assume_global(all1(lambda n: z3.And(z3.Implies(f(n), VV(t, n)), z3.Implies(p(n), f(n)))))
    return f
class AGraph:
    """a graph known through the contracts of its operations only"""
    def __init__(self, t): self.__dict__['t'] = t
    def facts(self):
        t = self.t; i = z3.Const('i', I); u, v, w = z3.Consts('u v w', Node)
        E.assume_global(z3.ForAll([u], z3.Implies(VV(t, u), z3.And(POS(t, u) >= 0, POS(t, u) < NT(t), AT(t, POS(t, u)) == u))))
        E.assume_global(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < NT(t)), z3.And(VV(t, AT(t, i)), POS(t, AT(t, i)) == i))))
        E.assume_global(z3.ForAll([u], z3.Implies(VV(t, u), CO(t, u, u))))
        E.assume_global(z3.ForAll([u, v], z3.Implies(CO(t, u, v), z3.And(CO(t, v, u), VV(t, u), VV(t, v)))))
        E.assume_global(z3.ForAll([u, v, w], z3.Implies(z3.And(CO(t, u, v), CO(t, v, w)), CO(t, u, w))))
        E.assume_global(z3.ForAll([u], z3.Implies(VV(t, u), z3.And(CO(t, u, REP(t, u)), VV(t, REP(t, u))))))
        E.assume_global(z3.ForAll([u, v], z3.Implies(CO(t, u, v), REP(t, u) == REP(t, v))))
        return self
    def _nodes(self): t = self.t; return RelDict(lambda n: VV(t, n), lambda n, q: z3.Function('par', GS, Node, Node, B)(t, n, q), True)
    causation = property(_nodes)
    dag = property(lambda self: self)
    nodes = property(lambda self: self.causation.keys())
    ava_nodes = nodes
    @property
    def prob(self): return self.x.Prob(variables=PySet(self.causation.keys()))
    @property
    def topo_order(self):
        t = self.t; k = bound('k', I); return PyList.of([('s', SSeq([k], z3.And(k >= 0, k < NT(t)), SE(AT(t, k)), NT(t), True))])
    def _arr(self, s):
        s = as_set(s); p = s.as_pred()
        E.prove('precondition of a graph operation', all1(lambda n: z3.Implies(p(n), VV(self.t, n))))
        return p
    def ancestors(self, y):
        p = self._arr(y); f = opfun('anc', self.t, p)
        return PySet.of_pred(lambda n: f(n))
    def build_sub_graph(self, s): return self._mk('sub', self._arr(s))
    def remove_incoming_edges(self, s, new=False):
        if not new: raise Unsupported('graph changed in place')
        return self._mk('cut', self._arr(s))
    def remove_nodes(self, s, new=False):
        if not new: raise Unsupported('graph changed in place')
        return self._mk('del', self._arr(s))
    @property
    def c_components(self):
        t = self.t; r = bound('r', Node)
        return PyList.of([('s', SSeq([r], z3.And(VV(t, r), REP(t, r) == r), PySet.of_pred(lambda y: z3.And(VV(t, y), CO(t, r, y)))))])
    def _mk(self, op, p): g = AGraph(opgraph(op, self.t, p)); g.__dict__['x'] = self.x; return g.facts()
    def __setattr__(self, a, v): raise Unsupported('graph changed in place')

def setup(L):
    from . import mcommon
    x = mcommon.setup(L); P0 = x.prob.Prob
    class Prob(P0):
        """the repository's class, usable as the element of a symbolic family"""
        def __new__(cls, *a, **k):
            o = object.__new__(cls); o.__dict__['_born'] = next(E.births); return o
        def _subst(self, ps):
            r = object.__new__(Prob); r.__dict__.update({k: subst(v, ps) for k, v in self.__dict__.items()}); return r
        def _terms(self): return [t for v in self.__dict__.values() for t in pyfac.val_terms(v)]
    x.Prob = Prob; x.m.Prob = Prob; x.g.prob.Prob = Prob
    return x

class Rec:
    """the result of a recursive call, known by its arguments"""
    def __init__(self, y, x, prob, graph): self.y, self.x_, self.prob, self.graph = y, x, prob, graph
    def _subst(self, ps): return Rec(subst(self.y, ps), subst(self.x_, ps), subst(self.prob, ps) if hasattr(self.prob, '_subst') and any(pyfac._occurs(t, {v.decl().name() for v, _ in ps}) for t in self.prob._terms()) else self.prob, self.graph)
    def _terms(self): return pyfac.val_terms(self.y) + pyfac.val_terms(self.x_)

def same(name, s, f):
    p = as_set(s).as_pred(); E.prove(name, all1(lambda n: p(n) == f(n)))
def empty(name, s): E.prove(name, z3.Not(as_set(s).nonempty()))

def factors_obs(pre, prod, over, g):
    """product over v in `over` of P(v | the nodes before v)"""
    segs = prod.segs if isinstance(prod, PySet) and prod.segs is not None else None
    if segs is None or any(k == 'c' for k, _ in segs): raise Unsupported('product of factors')
    cover = []
    for _, s in segs:
        vs, c, e = s.inst()
        if len(vs) != 1: raise Unsupported('product of factors')
        v = vs[0]
        E.prove(pre + 'one factor per node of the component', z3.ForAll([v], z3.Implies(c, over(v))))
        q = z3.Const('q', Node); p, pc_ = as_set(e.variables).as_pred(), as_set(e.conditional).as_pred()
        E.prove(pre + 'factor of the node', z3.ForAll([v, q], z3.Implies(c, p(q) == (q == v))))
        E.prove(pre + 'given the nodes before it', z3.ForAll([v, q], z3.Implies(c, pc_(q) == z3.And(VV(g, q), POS(g, q) < POS(g, v)))))
        for nm in ('divisor', 'marginal', 'product'): empty(pre + 'plain factor: ' + nm, getattr(e, nm))
        cover.append((v, c))
    n = E.fresh('n', Node)
    if len(cover) != 1: raise Unsupported('product of several families')
    E.prove(pre + 'every node of the component has a factor', z3.Implies(over(n), z3.substitute(cover[0][1], (cover[0][0], n))))

def step(x, observational, passprob, xempty=False):
    """one call of id at (y, x, P, G)"""
    del TOKS[:]; OPS.clear()
    g = AGraph(G0); g.__dict__['x'] = x; g.facts(); V = lambda n: VV(G0, n)
    E.assume(all1(lambda n: z3.Implies(Y(n), V(n)))); E.assume(all1(lambda n: z3.Implies(X(n), z3.And(V(n), z3.Not(Y(n)))))); E.assume(z3.Exists([a], Y(a)))
    if xempty: E.assume(all1(lambda n: z3.Not(X(n))))
    else: E.assume(z3.Exists([a], X(a)))
    y, xs = PySet.of_pred(lambda n: Y(n)), PySet.of_pred(lambda n: X(n))
    M0, Q0, V0 = (z3.Function(n, Node, B) for n in ('M0', 'Q0', 'V0'))
    factors = PySet(); 
    if not observational: factors.items = None; factors.segs = [('c', x.Prob(variables=PySet.of_pred(lambda n: Q0(n))))]
    prob = x.Prob(variables=PySet.of_pred(lambda n: V0(n)) if observational else PySet(), marginal=PySet.of_pred(lambda n: M0(n)) if not observational else PySet(), product=factors)
    calls = []
    class CMx(x.CausalModel): pass
    m = object.__new__(x.CausalModel); m.causal_graph = g
    def rec(self, y2, x2, prob=None, graph=None):
        E.prove('precondition of the recursive call', z3.And(z3.Exists([a], as_set(y2).as_pred()(a))))
        return Rec(as_set(y2), as_set(x2), prob, graph)
    code = x.CausalModel.id
    with Stub(x.CausalModel, 'id', rec):
        try: r = code(m, y, xs, prob if passprob else None, g if passprob else None)
        except x.u.IdentificationError: r = 'fail'
    An = opfun('anc', G0, y.as_pred())
    noanc = z3.Exists([a], z3.And(V(a), z3.Not(An(a))))
    Xa = lambda n: z3.Or(X(n))
    cut = opgraph('cut', G0, xs.as_pred()); An2 = opfun('anc', cut, y.as_pred())
    W = lambda n: z3.And(V(n), z3.Not(X(n)), z3.Not(An2(n)))
    someW = z3.Exists([a], W(a))
    D = g._mk('del', xs.as_pred()).t
    r1, r2 = z3.Consts('r1 r2', Node)
    several = z3.Exists([r1, r2], z3.And(VV(D, r1), VV(D, r2), z3.Not(CO(D, r1, r2))))
    one_g = z3.ForAll([r1, r2], z3.Implies(z3.And(V(r1), V(r2)), CO(G0, r1, r2)))
    Sd = lambda n: VV(D, n)                                     # the only component of G - X
    closed = z3.ForAll([r1, r2], z3.Implies(z3.And(VV(D, r1), CO(G0, r1, r2)), VV(D, r2)))
    if xempty:
        E.prove('line 1: the given distribution', r is prob if passprob else True)
        if observational: same('line 1: its variables are y', r.variables, lambda n: Y(n)); empty('line 1: nothing summed', r.marginal)
        else: same('line 1: the rest is summed out', r.marginal, lambda n: z3.Or(M0(n), z3.And(V(n), z3.Not(Y(n))))); E.prove('line 1: factors kept', r.product is factors)
        return
    if r == 'fail':
        E.prove('line 5: failure only for a hedge', z3.And(z3.Not(noanc), z3.Not(someW), z3.Not(several), one_g)); return
    if isinstance(r, Rec):
        if r.graph is g:
            E.prove('line 3 applies', z3.And(z3.Not(noanc), someW))
            same('line 3: y', r.y, lambda n: Y(n)); same('line 3: x with the irrelevant nodes', r.x_, lambda n: z3.Or(X(n), W(n)))
            E.prove('line 3: distribution', r.prob is prob if passprob else isinstance(r.prob, x.Prob)); return
        sub = r.graph.t if isinstance(r.graph, AGraph) else None
        op = None if sub is None else OPS.get(sub.get_id())
        if op is None or op[0] != 'sub' or not z3.eq(op[1], G0): E.prove('the recursion goes to a subgraph', False); return
        part = op[2]
        if r.prob is not prob and not E.implied(noanc) and E.implied(z3.Not(noanc)):
            E.prove('line 7 applies', z3.And(z3.Not(noanc), z3.Not(someW), z3.Not(several), z3.Not(one_g), z3.Not(closed)))
            same('line 7: y', r.y, lambda n: Y(n))
            comp = lambda n: z3.And(V(n), z3.Exists([r1], z3.And(VV(D, r1), CO(G0, r1, n))))
            E.prove('line 7: subgraph of the component', all1(lambda n: part(n) == comp(n)))
            same('line 7: x in the component', r.x_, lambda n: z3.And(X(n), comp(n)))
            if observational:
                for nm in ('divisor', 'marginal', 'variables'): empty('line 7: product distribution: ' + nm, getattr(r.prob, nm))
                factors_obs('line 7: ', r.prob.product, comp, G0)
            return
        E.prove('line 2 applies', noanc)
        same('line 2: y', r.y, lambda n: Y(n)); same('line 2: x among the ancestors', r.x_, lambda n: z3.And(X(n), An(n)))
        E.prove('line 2: subgraph of the ancestors', all1(lambda n: part(n) == An(n)))
        E.prove('line 2: the caller keeps its distribution', r.prob is not prob)
        if observational: same('line 2: marginal distribution', r.prob.variables, An); empty('line 2: nothing else summed', r.prob.marginal); same("line 2: caller's variables", prob.variables, lambda n: V0(n)) if passprob else None
        else:
            same('line 2: the others are summed out', r.prob.marginal, lambda n: z3.Or(M0(n), z3.And(V(n), z3.Not(An(n))))); same("line 2: caller's sum", prob.marginal, lambda n: M0(n))
        return
    if not isinstance(r, x.Prob): E.prove('a result', False); return
    sg = r.product.segs if isinstance(r.product, PySet) else None
    if sg and len(sg) == 1 and sg[0][0] == 's' and isinstance(sg[0][1].elt, Rec):
        E.prove('line 4 applies', z3.And(z3.Not(noanc), z3.Not(someW), several))
        same('line 4: sum', r.marginal, lambda n: z3.And(V(n), z3.Not(Y(n)), z3.Not(X(n))))
        vs, c, e = sg[0][1].inst(); q = z3.Const('q', Node); v = vs[0]; py, px = e.y.as_pred(), e.x_.as_pred()
        E.prove('line 4: components of the graph without x', z3.ForAll([v, q], z3.Implies(c, py(q) == z3.And(VV(D, q), CO(D, v, q)))))
        E.prove('line 4: one factor per component', z3.ForAll([v, q], z3.Implies(z3.And(c, z3.substitute(c, (v, q)), CO(D, v, q)), v == q)))
        n = E.fresh('n', Node)
        E.prove('line 4: every component', z3.Implies(VV(D, n), z3.Or(z3.substitute(z3.And(c, CO(D, v, n)), (v, REP(D, n))), z3.Exists([v], z3.And(c, CO(D, v, n))))))
        E.prove('line 4: intervening on the rest', z3.ForAll([v, q], z3.Implies(c, px(q) == z3.And(V(q), z3.Not(py(q))))))
        E.prove('line 4: same graph and distribution', e.graph is g and (e.prob is prob or not passprob and isinstance(e.prob, x.Prob)))
        for nm in ('divisor', 'variables', 'conditional'): empty('line 4: only the product: ' + nm, getattr(r, nm))
        return
    E.prove('line 6 applies', z3.And(z3.Not(noanc), z3.Not(someW), z3.Not(several), z3.Not(one_g), closed))
    same('line 6: sum', r.marginal, lambda n: z3.And(VV(D, n), z3.Not(Y(n))))
    for nm in ('divisor', 'variables', 'conditional'): empty('line 6: only the product: ' + nm, getattr(r, nm))
    if observational: factors_obs('line 6: ', r.product, Sd, G0)
def h_observational(x): step(x, True, True)
def h_product(x): step(x, False, True)
def h_default_arguments(x): step(x, True, False)
def h_no_treatment(x): step(x, True, True, True)
def h_no_treatment_product(x): step(x, False, True, True)
HARNESS = {n[2:]: f for n, f in list(globals().items()) if n.startswith('h_')}
