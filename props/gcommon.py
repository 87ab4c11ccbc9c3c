"""A causal graph satisfying the class invariant, over an unbounded set of node names."""
import z3
from vp.core import *
from vp.core import E
from vp.coll import *
from vp.coll import SSeq, bound
from vp.graphdom import *
from vp import graphdom, pyfac, coll

a, b, c = z3.Consts('a b c', Node)
K = z3.Function('K', Node, B)            # nodes
P = z3.Function('P', Node, Node, B)      # P(a,b): b is a parent of a
Lt = z3.Function('L', Node, Node, B)     # latent confounding arcs
S = z3.Function('S', Node, B)            # an argument set of nodes
R = z3.Function('R', Node, Node, B)      # an argument list of edges
NOSELF = True

class Ctx: pass

def setup(L):
    x = Ctx(); x.L = L
    x.g = L.load('ylearn.causal_model.graph'); x.u = L.load('ylearn.causal_model.utils')
    x.CausalGraph = x.g.CausalGraph
    return x

def wf(k=K, p=P, l=Lt, acyclic=True):
    """class invariant: every parent is a key; arcs join two different keys, in both directions; no 1- and 2-cycles"""
    E.assume(z3.ForAll([a, b], z3.Implies(p(a, b), z3.And(k(a), k(b)))))
    E.assume(z3.ForAll([a, b], z3.Implies(l(a, b), z3.And(l(b, a), k(a), k(b), a != b))))
    E.assume(z3.ForAll([a, b], z3.Not(z3.And(p(a, b), p(b, a)))))
    E.assume(z3.ForAll([a], z3.Not(p(a, a))))

def graph(x, k=K, p=P, l=Lt, assume=True):
    if assume: wf(k, p, l)
    d = RelDict(lambda n: k(n), lambda n, q: p(n, q), True)
    G = MultiDiGraph(); G.Nd = lambda n: k(n); G.Ed[0] = lambda u, v: p(v, u); G.Ed['n'] = lambda u, v: l(u, v)
    o = object.__new__(x.CausalGraph); o.causation = d; o.ava_nodes = d.keys(); o.dag = G
    return o

def nodeset(s=S, within=K):
    if within is not None: E.assume(z3.ForAll([a], z3.Implies(s(a), within(a))))
    return PySet.of_pred(lambda n: s(n))

def nodelist(s=S):
    y = bound('y', Node); return PyList.of([('s', SSeq([y], s(y), SE(y)))])

def edgelist(r=R):
    u, v = bound('u', Node), bound('v', Node); return PyList.of([('s', SSeq([u, v], r(u, v), (SE(u), SE(v))))])

def conj(*xs): return z3.And(*xs)
def iff(p, q): return p == q
def all1(f): return z3.ForAll([a], f(a))
def all2(f): return z3.ForAll([a, b], f(a, b))

def state_is(g, k, p, l, pre=''):
    """the two representations of the graph agree with nodes k, parents p, arcs l"""
    E.prove(pre + 'nodes of the parent table', all1(lambda n: g.causation.K(n) == k(n)))
    E.prove(pre + 'parents', all2(lambda n, q: g.causation.P(n, q) == p(n, q)))
    E.prove(pre + 'nodes of the network', all1(lambda n: g.dag.Nd(n) == k(n)))
    E.prove(pre + 'edges of the network', all2(lambda n, q: g.dag.Ed[0](q, n) == p(n, q)))
    E.prove(pre + 'latent arcs of the network', all2(lambda n, q: g.dag.Ed['n'](n, q) == l(n, q)))
    E.prove(pre + 'no stray edges', all2(lambda n, q: z3.Not(g.dag.Ed[1](n, q))))

def unchanged(g, pre='original '):
    state_is(g, lambda n: K(n), lambda n, q: P(n, q), lambda n, q: Lt(n, q), pre)

class Stub:
    """replace a callee by its contract while the caller is verified"""
    def __init__(self, cls, name, value): self.cls, self.name, self.value = cls, name, value
    def __enter__(self):
        self.old = self.cls.__dict__.get(self.name, None) if isinstance(self.cls, type) else getattr(self.cls, self.name)
        setattr(self.cls, self.name, self.value)
    def __exit__(self, *a): setattr(self.cls, self.name, self.old)

def names_apart(k=K, tpl='U{}'):
    """precondition: no node of the graph is named like a synthetic latent parent"""
    f = z3.Function('fmt:' + tpl, I, Node); i = z3.Const('i', I)
    E.assume(z3.ForAll([i], z3.Not(k(f(i)))))
    return f

def arcs_contract(l):
    """contract of latent_confounding_arcs: every arc listed in exactly one direction"""
    A = E.fresh_fn('A', Node, Node, B)
    E.assume(all2(lambda u, v: z3.Implies(A(u, v), l(u, v))))
    E.assume(all2(lambda u, v: z3.Implies(l(u, v), z3.Xor(A(u, v), A(v, u)))))
    u, v = bound('u', Node), bound('v', Node)
    return A, PyList.of([('s', SSeq([u, v], A(u, v), (SE(u), SE(v))))])
