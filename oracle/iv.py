from gutil import *
from ylearn.causal_model.model import CausalModel
STATS = {}
def cases(rng, n):
    for i in range(n):
        d = rand_graph(rng, nmin=2, nmax=6, p=rng.choice([.2, .3, .5])); ns = list(d['nodes']); rng.shuffle(ns)
        m = M.of(d)
        c = [v for v in ns if m.pa(v)]
        t = rng.choice(c) if c and rng.random() < .9 else ns[0]
        o = rng.choice([v for v in ns if v != t])
        if rng.random() < .5: d['arcs'] += [[t, o]] if frozenset((t, o)) not in m.a else []
        yield dict(graph=d, t=t, o=o, sub=rng.randint(0, 63))
def check(case):
    d, t, o = case['graph'], case['t'], case['o']; m = M.of(d); g = build(d); cm = CausalModel(causal_graph=g)
    cut = m.cut_in_edges({t})
    want = {z for z in m.pa(t) if z != o and cut.dsep({z}, {o}, set())}
    r = cm.get_iv(t, o)
    if (set() if r is None else set(r)) != want: return 'get_iv(%r, %r) = %r, expected %r' % (t, o, r, want)
    if r is not None and not r: return 'empty set instead of None'
    STATS['with instrument'] = STATS.get('with instrument', 0) + bool(want)
    ns = sorted(m.n - {t, o}); sub = {v for i, v in enumerate(ns) if case['sub'] >> i & 1}
    for s in [sub, want, set(list(sorted(want))[:1])] + [{v} for v in ns]:
        for a in ([s, sorted(s)[0]] if len(s) == 1 else [s, list(s)]):
            try: r = cm.is_valid_iv(t, o, a)
            except Exception as e:
                if want: return 'is_valid_iv(%r): %r' % (a, e)
                continue
            if not want: return 'is_valid_iv(%r) = %r although there is no instrument' % (a, r)
            if bool(r) != (s <= want): return 'is_valid_iv(%r) = %r, instruments are %r' % (a, r, want)
    return differs(g, m, 'graph after queries: ')
def shrink(case):
    d = case['graph']
    for k in ('edges', 'arcs'):
        for i in range(len(d[k])):
            e = dict(d); e[k] = d[k][:i] + d[k][i + 1:]; yield dict(case, graph=e)
