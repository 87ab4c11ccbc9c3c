from .gcommon import *

LATP = z3.Function('latp', Node, Node, Node)
def setup(L):
    from . import gcommon
    x = gcommon.setup(L)
    x.m = L.load('ylearn.causal_model.model'); x.CausalModel = x.m.CausalModel; x.prob = L.load('ylearn.causal_model.prob')
    return x

LAT = []
E.reset_path_hooks.append(lambda: LAT.clear())
def latent_edges(Ln):
    """the latent part of the explicit graph, a function of the arcs: latedge(u,v): u is the latent parent of an arc at v"""
    u, v = z3.Const('u?l', Node), z3.Const('v?l', Node)
    for L0, f, nd in LAT:
        if E.implied(L0(u, v) == Ln(u, v), ms=3000): return f, nd
    k = next(E.ctr); f = z3.Function('latedge!%d' % k, Node, Node, B); nd = z3.Function('latnode!%d' % k, Node, B)
    E.assume_global(z3.ForAll([a, b], z3.Implies(f(a, b), z3.And(nd(a), z3.Not(K(a)), K(b)))))
    E.assume_global(z3.ForAll([a], z3.Implies(nd(a), z3.Not(K(a)))))
    LAT.append((Ln, f, nd)); return f, nd

def explicit_contract(self):
    """contract of explicit_unob_var_dag (verified in graph_latents): one latent parent per arc, named apart from the nodes"""
    d, G = self.causation, self.dag
    Kk, Pp, Ln = d.K, d.P, G.Ed['n']
    e = MultiDiGraph(); f, nd = latent_edges(Ln)
    e.Nd = lambda n: z3.Or(Kk(n), nd(n))
    e.Ed[0] = lambda u, v: Pp(v, u)
    e.Ed['n'] = lambda u, v: f(u, v)
    e.simple = True
    return e

def outgoing_contract(x):
    def remove_outgoing_edges(self, x_, new=False):
        """contract (discharged in graph_surgery): nodes and arcs unchanged, no directed edge out of x; new=True leaves self alone"""
        t = graphdom.as_names(x_); d, G = self.causation, self.dag
        E.prove('precondition of remove_outgoing_edges', all1(lambda n: z3.Implies(t(n), d.K(n))))
        if not new: raise Unsupported('remove_outgoing_edges in place')
        Pp, L0 = d.P, G.Ed['n']
        return graph(x, d.K, lambda n, q: z3.And(Pp(n, q), z3.Not(t(q))), L0, assume=False)
    return remove_outgoing_edges

class Model:
    """the callee contracts used while CausalModel methods are verified"""
    def __init__(self, x): self.x = x
    def __enter__(self):
        self.s = [Stub(self.x.CausalGraph, 'explicit_unob_var_dag', property(explicit_contract)),
                  Stub(self.x.CausalGraph, 'remove_outgoing_edges', outgoing_contract(self.x))]
        for s in self.s: s.__enter__()
    def __exit__(self, *a):
        for s in self.s: s.__exit__(*a)

def model(x, g):
    o = x.CausalModel(causal_graph=g)
    return o

def cutgraph(x, T):
    """spec: the graph without edges out of T"""
    return graph(x, K, lambda n, q: z3.And(P(n, q), z3.Not(T(q))), Lt, assume=False)
