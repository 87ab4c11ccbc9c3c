import numpy as np, pandas as pd, itertools
import torch
import ylearn.causal_discovery._discovery as dis, ylearn.causal_discovery._dydiscovery as dyd
from ylearn.causal_discovery._base import BaseDiscovery
from eutil import Diff, guard
STATS = {}
NET = {'CausalDiscovery': (dis, 'DagNet'), 'GolemDiscovery': (dis, 'Golem'), 'DagmaDiscovery': (dis, 'Dagma'), 'DyCausalDiscovery': (dyd, 'Dynotears'), 'DygolemCausalDiscovery': (dyd, 'Dynotears')}
def cases(rng, n):
    for i in range(n):
        yield dict(seed=rng.randrange(10 ** 6), n=rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7]), dens=rng.choice([.2, .4, .6, 1.]), signed=rng.random() < .6, ties=rng.random() < .3, diag=rng.random() < .2,
                   cls=rng.choice(sorted(NET)), frame=rng.random() < .6, out=rng.random() < .4, thr=rng.choice([None, 0.05, 0.3, 0.3, 1.0]), real=rng.random() < .04)
def learned(case):
    r = np.random.default_rng(case['seed']); n = case['n']
    m = r.normal(size=(n, n)) if case['signed'] else r.uniform(.01, 2, size=(n, n))
    if case['ties']: m = np.round(m * 2) / 2
    m = m * (r.uniform(size=(n, n)) < case['dens'])
    if not case['diag']: np.fill_diagonal(m, 0)
    return m
def closure(h):
    r = h | np.eye(len(h), dtype=bool)
    for _ in range(len(h)): r = r | ((r.astype(int) @ r.astype(int)) > 0)
    return r
def same(name, a, b):
    if np.shape(a) != np.shape(b): raise Diff('%s: shape %s, expected %s' % (name, np.shape(a), np.shape(b)))
    if not np.array_equal(a, b): raise Diff('%s:\n%s\nexpected\n%s' % (name, a, b))
def acyclic(name, m):
    h = m != 0; c = h & closure(h).T
    if c.any(): raise Diff('%s: directed cycle through %s in\n%s' % (name, tuple(int(x) for x in np.argwhere(c)[0]), m))
def trimmed(name, m, r):
    """r is m without lightest arcs of cycles, and has no cycle"""
    if not isinstance(r, np.ndarray) or r.shape != m.shape: raise Diff('%s: not a matrix of the same size' % name)
    if ((r != 0) & (r != m)).any(): raise Diff('%s: entries that are neither zero nor the weight given:\n%s\nfrom\n%s' % (name, r, m))
    acyclic(name, r); w = np.abs(m)
    for a, b in np.argwhere((m != 0) & (r == 0)):
        if not closure((m != 0) & (w >= w[a, b]))[b, a]: raise Diff('%s: arc %d -> %d was removed, a lightest arc of no cycle, from\n%s' % (name, a, b, m))
@guard
def check(case):
    m = learned(case); m0 = m.copy(); n = case['n']
    r = BaseDiscovery.trim_cycle(m); same('trim_cycle modified its argument', m, m0); trimmed('trim_cycle', m0, r)
    names = ['c%d' % i for i in np.random.default_rng(case['seed'] + 1).permutation(n)]
    f = pd.DataFrame(m0, columns=names, index=names); h = m0 != 0; np.fill_diagonal(h, False); anc = closure(m0 != 0)
    for arg, kw, key in ((m, {}, list(range(n))), (f, {}, names), (m, dict(names=names), names)):
        for depth in (None, 1):
            d = BaseDiscovery.matrix2dict(arg, depth=depth, **kw)
            e = {key[i]: {key[j] for j in range(n) if j != i and (h if depth else anc)[j, i]} for i in range(n)}
            if list(d) != key or {k: set(v) for k, v in d.items()} != e or any(len(set(v)) != len(v) for v in d.values()): raise Diff('matrix2dict(depth=%s): %s, expected %s' % (depth, dict(d), e))
        for fn in ('matrix2array', 'matrix2df'):
            l = getattr(BaseDiscovery, fn)(arg, **kw)
            if fn == 'matrix2df':
                if list(l.columns) != ['from', 'to', 'prob']: raise Diff('columns %s' % list(l.columns))
                l = l.values.tolist()
            pairs = sorted(tuple(sorted((key.index(a), key.index(b)))) for a, b, _ in l)
            if pairs != list(itertools.combinations(range(n), 2)): raise Diff('%s lists the pairs %s' % (fn, pairs))
            for a, b, v in l:
                i, j = key.index(a), key.index(b)
                if v != m0[i, j] or abs(v) < abs(m0[j, i]): raise Diff('%s: %s, the weights are %r and %r' % (fn, [a, b, v], m0[i, j], m0[j, i]))
    same('the argument is modified', m, m0); same('the frame is modified', f.values, m0)
    # the methods, with the learned weights given
    mod, net = NET[case['cls']]; C = getattr(mod, case['cls']); rows = 12
    if case['real']: return train(case, C, n)
    X = np.random.default_rng(case['seed'] + 2).normal(size=(rows, n)); data = pd.DataFrame(X, columns=names) if case['frame'] else X.copy()
    o = C(device='cpu', random_state=1) if case['cls'] != 'CausalDiscovery' else C(device='cpu', random_state=1, hidden_layer_dim=[2])
    base = getattr(mod, net); w = torch.nn.Parameter(torch.tensor(m0))
    init = base.__init__
    def fake(self, *a, **k):
        init(self, *a, **k)
        if hasattr(self, 'w_est'): self.w_est = w
        if hasattr(self, 'get_W'): self.get_W = lambda: w.detach().numpy().copy()
    kw = dict(threshold=case['thr'], return_dict=case['out'], verbose=False)
    if case['cls'] == 'DagmaDiscovery': o.train = lambda *a, **k: w
    else: kw['epoch'] = 0
    if mod is dyd: kw.update(order=1, step=2)
    base.__init__ = fake
    try: r = o(data, **kw)
    finally: base.__init__ = init
    STATS[case['cls']] = STATS.get(case['cls'], 0) + 1
    verdict(case, r, m0, names)
def verdict(case, r, w0, names):
    n, t, dy = case['n'], case['thr'], case['cls'].startswith('Dy'); who = case['cls']
    if dy:
        if not isinstance(r, tuple) or len(r) != 2: raise Diff('%s does not return two matrices' % who)
        r = r[0]
    th = w0.copy()
    if t is not None:
        th[np.abs(w0) < t] = 0
        if who in ('GolemDiscovery', 'DagmaDiscovery'): th[np.abs(w0) > t] = 1
    p = th.copy(); np.fill_diagonal(p, 0); ties = []
    for i, j in itertools.combinations(range(n), 2):
        if abs(p[i, j]) < abs(p[j, i]): p[i, j] = 0
        elif abs(p[i, j]) > abs(p[j, i]): p[j, i] = 0
        elif p[i, j] != 0: ties.append((i, j))
    if case['out'] and not dy:
        d = r
        if set(d) != set(names if case['frame'] else range(n)): raise Diff('%s: keys %s' % (who, list(d)))
        if ties: return
        ref = pd.DataFrame(BaseDiscovery.trim_cycle(p), columns=names, index=names) if case['frame'] else BaseDiscovery.trim_cycle(p)
        e = BaseDiscovery.matrix2dict(ref)
        if {k: sorted(map(str, v)) for k, v in e.items()} != {k: sorted(map(str, v)) for k, v in d.items()}: raise Diff('%s: dictionary %s, expected %s' % (who, dict(d), dict(e)))
        return
    if case['frame'] and not dy:
        if not isinstance(r, pd.DataFrame) or list(r.columns) != names or list(r.index) != names: raise Diff('%s: not a frame labelled with the columns' % who)
        r = r.values
    if not isinstance(r, np.ndarray) or r.shape != (n, n): raise Diff('%s: not a matrix' % who)
    if not ties: return trimmed(who, p, r)
    # one direction of each tie is dropped first
    for pick in itertools.product((0, 1), repeat=min(len(ties), 12)):
        q = p.copy()
        for (i, j), x in zip(ties, pick):
            q[(i, j) if x else (j, i)] = 0
        try: return trimmed(who, q, r)
        except Diff as e: last = e
    if len(ties) <= 12: raise last
    acyclic(who, r)
def train(case, C, n):
    n = max(n, 3); r = np.random.default_rng(case['seed'] + 3); X = r.normal(size=(60, n)); X[:, 1] += 2 * X[:, 0]; X[:, 2] -= 1.5 * X[:, 1]
    cols = ['k%d' % i for i in range(n)]; who = case['cls']; dy = who.startswith('Dy')
    o = C(device='cpu', random_state=3)
    kw = dict(threshold=case['thr'], verbose=False)
    if who == 'DagmaDiscovery': o.T, o.warm_iter, o.max_iter = 2, 30, 30
    else: kw.update(epoch=2 if who in ('CausalDiscovery', 'DyCausalDiscovery') else 8)
    if who in ('CausalDiscovery', 'DyCausalDiscovery'): kw['max_iter'] = 10
    if dy: kw.update(order=1, step=2)
    a = o(pd.DataFrame(X, columns=cols), **kw); a = a[0] if dy else a
    STATS['trained ' + who] = STATS.get('trained ' + who, 0) + 1
    if not dy and (list(a.columns) != cols or list(a.index) != cols): raise Diff('%s: labels' % who)
    v = a if dy else a.values
    if v.shape != (n, n): raise Diff('%s: shape' % who)
    acyclic(who, v)
    if case['thr'] is not None and ((v != 0) & (np.abs(v) < case['thr'])).any(): raise Diff('%s: weights below the threshold' % who)
def shrink(case):
    if case['n'] > 1: yield dict(case, n=case['n'] - 1)
    for k, v in (('frame', False), ('out', False), ('ties', False), ('diag', False), ('real', False), ('signed', False)):
        if case[k] != v: yield dict(case, **{k: v})
