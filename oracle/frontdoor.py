from gutil import *
import itertools
from ylearn.causal_model.model import CausalModel
from ylearn.causal_model.utils import IdentificationError
STATS = {}
def cases(rng, n):
    for i in range(n):
        if rng.random() < .4:
            # a chain t -> m1 -> m2 -> y with confounding, plus noise
            k = rng.choice([1, 2, 3, 1, 2, 3, 5]); ns = ['t'] + ['m%d' % j for j in range(k)] + ['y'] + (['w'] if rng.random() < .4 else []); order = ns[:]
            e = [[ns[j], ns[j + 1]] for j in range(k + 1)]
            if rng.random() < .3 and k > 1: e += [['t', 'm1']]
            if k > 1 and rng.random() < .2: e += [['t', 'm%d' % (k - 1)]]
            if 'w' in ns: e += rng.choice([[['w', 't'], ['w', 'y']], [['w', 'm0'], ['w', 'y']], [['t', 'w'], ['y', 'w']], [['w', 't'], ['w', 'm0']], [['m0', 'w'], ['w', 'y']]])
            d = dict(nodes=rng.sample(ns, len(ns)), edges=[x for i, x in enumerate(e) if x not in e[:i]], arcs=[['t', 'y']] if rng.random() < .7 else [])
            if rng.random() < .2: d['arcs'].append(['t', 'm0'])
            yield dict(graph=d, t='t', o='y', sets=rng.random() < .4); continue
        d = rand_graph(rng, nmin=2, nmax=6); ns = list(d['nodes']); rng.shuffle(ns)
        m = M.of(d); ps = [(u, v) for u in sorted(m.n) for v in sorted(m.desc({u}) - {u})]
        t, o = rng.choice(ps) if ps and rng.random() < .8 else (ns[0], ns[1])
        yield dict(graph=d, t=t, o=o, sets=rng.random() < .4)
def simple_paths(nb, s, t):
    out = []
    def go(p):
        if p[-1] == t: out.append(tuple(p)); return
        for v in sorted(nb.get(p[-1], ()), key=str):
            if v not in p: go(p + [v])
    go([s]); return out
def qualifies(m, t, o, z):
    """Pearl's frontdoor criterion"""
    ch = {}
    for u, v in m.e: ch.setdefault(u, set()).add(v)
    if any(not (set(p[1:-1]) & z) for p in simple_paths(ch, t, o)): return False
    es = set(m.e)
    for i, a in enumerate(sorted(map(sorted, m.a))):
        for v in a: es.add((('lat', i), v))
    nb = {}
    for u, v in es: nb.setdefault(u, set()).add(v); nb.setdefault(v, set()).add(u)
    for x in z:
        for p in simple_paths(nb, t, x):
            if len(p) > 2 and (p[1], t) in es and not any((p[i - 1], p[i]) in es and (p[i + 1], p[i]) in es for i in range(1, len(p) - 1)): return False
    if m.desc(z) & {t}: return False
    return m.cut_out(z).dsep(z, {o}, {t})
def subsets(xs):
    xs = sorted(xs); return [set(c) for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]
def check(case):
    d = case['graph']; m = M.of(d); t, o = case['t'], case['o']; g = build(d); cm = CausalModel(causal_graph=g)
    mk = (lambda: ({t}, {o})) if case['sets'] else (lambda: (t, o))
    ok = {}
    for z in subsets(m.n - {t, o}):
        w = ok[frozenset(z)] = qualifies(m, t, o, z); r = bool(cm.is_frontdoor_set(set(z), t, o))
        if r != w: return 'is_frontdoor_set(%r, %r, %r) = %s, expected %s' % (z, t, o, r, w)
    ch = {}
    for u, v in m.e: ch.setdefault(u, set()).add(v)
    cand = set().union(*[set(p) for p in simple_paths(ch, t, o)]) - {t, o}
    good = [set(z) for z, w in ok.items() if w and set(z) <= cand]
    STATS['with a set'] = STATS.get('with a set', 0) + any(good)
    for style in ('simple', 'minimal', 'all'):
        a, b = mk(); a0, b0 = (set(a), set(b)) if case['sets'] else (a, b)
        try: r = cm.get_frontdoor_set(a, b, style)
        except IdentificationError: r = None
        if (a, b) != (a0, b0): return '%s: arguments changed to %r, %r' % (style, a, b)
        if style == 'all':
            if (r is None) != (not good): return 'all: %r, expected %r' % (r, good)
            if r is None: continue
            got = [set(z) for z in r[0]]
            if sorted(map(sorted, got)) != sorted(map(sorted, good)): return 'all: %r, expected %r' % (got, good)
            adj = got[0]
        else:
            ne = [z for z in good if z]
            if (r is None) != (not ne): return '%s: %r, expected one of %r' % (style, r, ne)
            if r is None: continue
            adj = set(r[0])
            if adj not in ne or len(adj) != min(map(len, ne)): return '%s: %r, expected a smallest of %r' % (style, adj, ne)
        p = r[1]
        if set(p.marginal) != adj: return '%s: estimand sums over %r' % (style, p.marginal)
        fs = list(p.product); f1 = [q for q in fs if not q.product]; f2 = [q for q in fs if q.product]
        if len(f1) != 1 or len(f2) != 1: return 'estimand factors'
        if (set(f1[0].variables), set(f1[0].conditional)) != (adj, {t}): return 'estimand: P(%r|%r)' % (f1[0].variables, f1[0].conditional)
        if set(f2[0].marginal) != {t}: return 'estimand: inner sum over %r' % (f2[0].marginal,)
        if sorted((sorted(q.variables), sorted(q.conditional or ())) for q in f2[0].product) != sorted([([o], sorted(adj | {t})), ([t], [])]): return 'estimand: inner factors'
    return differs(g, m, 'graph after queries: ')
def shrink(case):
    d = case['graph']
    for k in ('edges', 'arcs'):
        for i in range(len(d[k])):
            e = dict(d); e[k] = d[k][:i] + d[k][i + 1:]; yield dict(case, graph=e)
