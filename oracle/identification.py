from gutil import *
import numpy as np, random as _random
from ylearn.causal_model.model import CausalModel
from ylearn.causal_model.utils import IdentificationError
STATS = {}
FIXED = [
    dict(nodes=list('wzxy'), edges=[['w', 'z'], ['z', 'x'], ['x', 'y']], arcs=[['w', 'x'], ['w', 'y']], y=['y'], x=['x']),                       # napkin: the known finding's class
    dict(nodes=list('xzy'), edges=[['x', 'z'], ['z', 'y']], arcs=[['x', 'y']], y=['y'], x=['x']),                                                  # frontdoor
    dict(nodes=list('xzy'), edges=[['x', 'z'], ['z', 'y'], ['x', 'y']], arcs=[['x', 'z']], y=['y'], x=['x']),                                      # bow
    dict(nodes=list('abcdy'), edges=[['a', 'b'], ['b', 'c'], ['c', 'd'], ['d', 'y']], arcs=[['a', 'c'], ['b', 'd'], ['a', 'y']], y=['y'], x=['d']),  # Tian & Pearl's functional-constraint graph
    dict(nodes=list('abcd') + ['e'], edges=[['a', 'b'], ['b', 'c'], ['c', 'd'], ['d', 'e']], arcs=[['a', 'c'], ['b', 'd'], ['c', 'e']], y=['e'], x=['b']),
]
def cases(rng, n):
    for d in FIXED:
        yield dict(graph={k: d[k] for k in ('nodes', 'edges', 'arcs')}, y=d['y'], x=d['x'], seed=7, style=0)
    for i in range(n):
        d = rand_graph(rng, nmin=2, nmax=rng.choice([3, 4, 5, 5, 6]), q=rng.choice([.15, .3, .3, .5])); ns = list(d['nodes'])
        if len(d['arcs']) > 5: d['arcs'] = rng.sample(d['arcs'], 5)
        rng.shuffle(ns); k = rng.choice([1, 1, 1, 2]) if len(ns) > 2 else 1; j = rng.choice([1, 1, 1, 2]) if len(ns) > k + 1 else 1
        if rng.random() < .6:
            m = M.of(d); ps = [(u, v) for u in sorted(m.n) for v in sorted(m.desc({u}) - {u})]
            if ps:
                t, o = rng.choice(ps); rest = [v for v in ns if v not in (t, o)]
                yield dict(graph=d, y=[o] + rest[:k - 1], x=[t] + rest[k - 1:k - 1 + j - 1], seed=rng.randrange(10**6), style=rng.randrange(5)); continue
        yield dict(graph=d, y=ns[:k], x=ns[k:k + j], seed=rng.randrange(10**6), style=rng.randrange(5))

def reference(m, y, x, after7=False):
    """Shpitser & Pearl's ID: 'fail', or True when the recursion of line 7 ends in line 6 or 7 (known finding), else False"""
    v, y, x = set(m.n), set(y), set(x)
    if not x: return False
    an = m.anc(y)
    if v - an: return reference(m.sub(an), y, x & an, after7)
    w = v - x - m.cut_in(x).anc(y)
    if w: return reference(m, y, x | w, after7)
    cs = m.sub(v - x).comps()
    if len(cs) > 1:
        rs = [reference(m, s, v - s, after7) for s in cs]
        return 'fail' if 'fail' in rs else any(rs)
    s = set(next(iter(cs))); cg = m.comps()
    if len(cg) == 1: return 'fail'
    if frozenset(s) in cg: return after7
    big = next(set(c) for c in cg if s <= c)
    r = reference(m.sub(big), y, x & big, True)
    return r if r == 'fail' else (r or after7)

class SCM:
    """random binary model with one hidden binary variable per arc; distributions as arrays with one axis per observed variable"""
    def __init__(self, m, seed):
        r = np.random.RandomState(seed); self.v = sorted(m.n); self.ix = {n: i for i, n in enumerate(self.v)}; k = len(self.v)
        arcs = sorted(map(sorted, m.a)); self.nl = len(arcs); tot = k + self.nl
        self.f = {}
        for n in self.v:
            ax = [self.ix[p] for p in m.pa(n)] + [self.ix[n]] + [k + j for j, a in enumerate(arcs) if n in a]
            p = r.uniform(.08, .92, size=[2 if i in ax and i != self.ix[n] else 1 for i in range(tot)])
            self.f[n] = np.concatenate([1 - p, p], axis=self.ix[n])
        pu = np.ones([1] * tot)
        for j in range(self.nl):
            q = r.uniform(.3, .7); pu = pu * np.array([1 - q, q]).reshape([2 if i == k + j else 1 for i in range(tot)])
        self.pu, self.lat = pu, tuple(range(k, tot)); self.joint = self.do(())
    def do(self, x):
        """P(v | do(x)) for every value of x"""
        a = self.pu
        for n in self.v:
            if n not in x: a = a * self.f[n]
        return a.sum(axis=self.lat) if self.lat else a
    def marg(self, a, keep): return a.sum(axis=tuple(i for i, n in enumerate(self.v) if n not in keep), keepdims=True)
    def value(self, p, depth=0):
        """the number an estimand denotes at every assignment"""
        if depth > 40: raise ValueError('estimand contains itself')
        r = np.ones([1] * len(self.v)); vs, cs = set(p.variables), set(p.conditional or ())
        for s in vs | cs | set(p.marginal):
            if s not in self.ix: raise ValueError('estimand mentions %r' % (s,))
        if p.divisor: raise ValueError('a divisor')
        if vs: r = r * self.marg(self.joint, vs | cs) / self.marg(self.joint, cs)
        elif cs: raise ValueError('P(|%s)' % cs)
        for q in p.product: r = r * self.value(q, depth + 1)
        s = tuple(self.ix[n] for n in p.marginal)
        full = np.broadcast_to(r, [2 if i in s else r.shape[i] for i in range(len(self.v))])
        return full.sum(axis=s, keepdims=True) if s else full
def check(case):
    d = case['graph']; m = M.of(d); y, x = set(case['y']), set(case['x']); g = build(d); cm = CausalModel(causal_graph=g)
    st = case['style']
    form = [set, list, tuple, lambda s: (list(s)[0] if len(s) == 1 else set(s)), lambda s: (list(s)[0] if len(s) == 1 else list(s))][st]
    ref = reference(m, y, x); STATS[str(ref)] = STATS.get(str(ref), 0) + 1
    a, b = form(sorted(y)), form(sorted(x)); a0, b0 = form(sorted(y)), form(sorted(x))
    for call in ('id', 'identify'):
        try: r = cm.id(a, b) if call == 'id' else cm.identify(b, a, 'general')['ID']
        except IdentificationError: r = None
        if (a, b) != (a0, b0): return '%s: arguments changed to %r, %r' % (call, a, b)
        e = differs(g, m, 'graph after %s: ' % call)
        if e: return e
        if (r is None) != (ref == 'fail'): return '%s: P(%s | do(%s)) is %sidentifiable, the code %s' % (call, sorted(y), sorted(x), 'not ' if ref == 'fail' else '', 'fails' if r is None else 'gives ' + r.parse())
        if r is None or ref is True: continue
        s = SCM(m, case['seed']); got = s.value(r); want = s.marg(s.do(x), y | x)
        if want.ndim and not np.allclose(np.broadcast_to(got, [2] * len(s.v)), np.broadcast_to(want, [2] * len(s.v)), atol=1e-9):
            return '%s: %s differs from P(%s | do(%s)) by %.3g' % (call, r.parse(), sorted(y), sorted(x), np.abs(np.broadcast_to(got, [2] * len(s.v)) - np.broadcast_to(want, [2] * len(s.v))).max())
def shrink(case):
    d = case['graph']
    for k in ('edges', 'arcs'):
        for i in range(len(d[k])):
            e = dict(d); e[k] = d[k][:i] + d[k][i + 1:]; yield dict(case, graph=e)
    for n in d['nodes']:
        if n not in case['x'] + case['y']:
            yield dict(case, graph=dict(nodes=[v for v in d['nodes'] if v != n], edges=[e for e in d['edges'] if n not in e], arcs=[e for e in d['arcs'] if n not in e]))
