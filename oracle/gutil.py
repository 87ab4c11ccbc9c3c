"""random mixed graphs (directed acyclic edges + latent arcs) and an independent set-based model of them"""
import itertools
from ylearn.causal_model.graph import CausalGraph
NAMES = ['x', 'y', 'z', 'w', 'aa', 'b1', 'node_with_long_name', 'X', 'v7']

def rand_graph(rng, nmin=1, nmax=7, p=None, q=None, names=NAMES):
    n = rng.randint(nmin, nmax); ns = list(names); rng.shuffle(ns)
    long = p is None and nmax >= 5 and rng.random() < .12
    if long: n = min(len(ns), rng.randint(nmax, nmax + 3)); p = .06; q = rng.choice([0, .05]) if q is None else min(q, .05)
    ns = ns[:n]
    p = rng.choice([0.2, 0.4, 0.6]) if p is None else p
    q = rng.choice([0.0, 0.2, 0.4]) if q is None else q
    order = ns[:]; rng.shuffle(order)
    edges = [[order[i], order[j]] for i in range(n) for j in range(i + 1, n) if rng.random() < p or long and j == i + 1 and rng.random() < .9]
    arcs = []
    for i in range(n):
        for j in range(i + 1, n):
            if rng.random() < q:
                e = [order[i], order[j]]
                if rng.random() < .5: e.reverse()
                arcs.append(e)
    rng.shuffle(ns); rng.shuffle(edges); rng.shuffle(arcs)
    return dict(nodes=ns, edges=edges, arcs=arcs)

def build(d):
    c = {n: [] for n in d['nodes']}
    for u, v in d['edges']: c[v].append(u)
    return CausalGraph(c, latent_confounding_arcs=[tuple(a) for a in d['arcs']] if d['arcs'] else None)

class M:
    """independent model"""
    def __init__(self, nodes, edges, arcs):
        self.n, self.e, self.a = set(nodes), {tuple(e) for e in edges}, {frozenset(x) for x in arcs}
    @staticmethod
    def of(d): return M(d['nodes'], d['edges'], d['arcs'])
    def copy(self): return M(self.n, self.e, self.a)
    def pa(self, v): return {s for s, t in self.e if t == v}
    def ch(self, v): return {t for s, t in self.e if s == v}
    def anc(self, xs):
        r, st = set(xs), list(xs)
        while st:
            for p in self.pa(st.pop()):
                if p not in r: r.add(p); st.append(p)
        return r
    def desc(self, xs):
        r, st = set(xs), list(xs)
        while st:
            for p in self.ch(st.pop()):
                if p not in r: r.add(p); st.append(p)
        return r
    def sub(self, s): return M(self.n & set(s), {e for e in self.e if set(e) <= set(s)}, {x for x in self.a if x <= set(s)})
    def cut_in(self, s): return M(self.n, {e for e in self.e if e[1] not in s}, {x for x in self.a if not x & set(s)})
    def cut_in_edges(self, s):
        """cut every edge into s, an arc at s loses its end there"""
        return M(self.n, {e for e in self.e if e[1] not in s}, {x for x in self.a if not x & set(s)})
    def cut_out(self, s): return M(self.n, {e for e in self.e if e[0] not in s}, self.a)
    def comps(self):
        out, left = [], set(self.n)
        while left:
            r = {left.pop()}; st = list(r)
            while st:
                v = st.pop()
                for x in self.a:
                    if v in x:
                        for o in x - r: r.add(o); st.append(o)
            left -= r; out.append(frozenset(r))
        return set(out)
    def dsep(self, X, Y, Z):
        """d-separation by active trails on the graph with explicit latent parents (Bayes ball over edges)"""
        ch, pa = {}, {}
        def add(s, t): ch.setdefault(s, set()).add(t); pa.setdefault(t, set()).add(s)
        for s, t in self.e: add(s, t)
        for i, x in enumerate(self.a):
            for v in x: add(('latent', i), v)
        X, Y, Z = set(X), set(Y), set(Z)
        anc, st = set(Z), list(Z)
        while st:
            for p in pa.get(st.pop(), ()):
                if p not in anc: anc.add(p); st.append(p)
        seen, st = set(), [(x, 'up') for x in X]
        while st:
            v, d = st.pop()
            if (v, d) in seen: continue
            seen.add((v, d))
            if v in Y and v not in Z: return False
            if d == 'up' and v not in Z:
                st += [(p, 'up') for p in pa.get(v, ())] + [(c, 'down') for c in ch.get(v, ())]
            elif d == 'down':
                if v not in Z: st += [(c, 'down') for c in ch.get(v, ())]
                if v in anc: st += [(p, 'up') for p in pa.get(v, ())]
        return True

def state(g):
    """the two representations of a CausalGraph, normalised; raises when they are inconsistent"""
    dag = g.dag
    return dict(keys=set(g.causation.keys()), parents={k: sorted(v) for k, v in g.causation.items()}, nodes=set(dag.nodes),
                edges={(u, v) for u, v, k in dag.edges(keys=True) if k == 0},
                arcs={(u, v) for u, v, k in dag.edges(keys=True) if k == 'n'}, other={(u, v, k) for u, v, k in dag.edges(keys=True) if k not in (0, 'n')})

def differs(g, m, what=''):
    s = state(g)
    if s['keys'] != m.n: return '%snodes of the parent table %s, expected %s' % (what, s['keys'], m.n)
    if s['nodes'] != m.n: return '%snodes of the network %s, expected %s' % (what, s['nodes'], m.n)
    for k in m.n:
        if s['parents'][k] != sorted(m.pa(k)): return '%sparents of %s are %s, expected %s' % (what, k, s['parents'][k], sorted(m.pa(k)))
    if s['edges'] != m.e: return '%sedges of the network %s, expected %s' % (what, s['edges'], m.e)
    want = {(u, v) for x in m.a for u in x for v in x if u != v}
    if s['arcs'] != want: return '%slatent arcs of the network %s, expected %s' % (what, s['arcs'], want)
    if s['other']: return '%sedges under unexpected keys: %s' % (what, s['other'])
    return None

def rand_subset(rng, xs, p=None):
    p = rng.choice([.2, .5, .8]) if p is None else p
    return [x for x in xs if rng.random() < p]
