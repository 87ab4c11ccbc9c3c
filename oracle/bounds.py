from eutil import *
from ylearn.estimator_model.approximation_bound import ApproxBound
from meta_learners import combos
STATS = {}
def cases(rng, n):
    for i in range(n):
        ls = [levels(rng)] if rng.random() < .7 else rng.choice([[[1, 4], [0, 2, 5]], [['a', 'b'], ['no', 'yes']], [[10, 20], [3, 7]]])
        yield dict(seed=rng.randrange(10 ** 6), levels=ls, nv=rng.choice([0, 0, 1, 2]), dv=rng.random() < .2, cm=rng.choice(['log', 'nb', 'tree']), ym=rng.choice(['ridge', 'tree', 'knn']), prob=rng.random() < .3, given=rng.random() < .5, lo0=rng.choice([0, 0, 1, 2]),
                   n=rng.choice([60, 90]), label=rng.random() < .7, ti=rng.randrange(50), ci=rng.randrange(50), refit=rng.random() < .25)
def frame2(case, seed, n, ls):
    d = frame(seed, n, ls, 1, 0, case['nv'], None, least=max(8, 3 * len(combos(ls))))
    if case['dv']:
        r = np.random.default_rng(seed + 9)
        for i in range(case['nv']): d['v%d' % i] = r.permutation(np.arange(len(d)) % 3) * 2 + 1
    return d
@guard
def check(case):
    ls = case['levels']; K = combos(ls); k = len(K)
    def mk(seed, n, ls=ls): return frame2(case, seed, n, ls)
    d, d2 = mk(case['seed'], case['n']), mk(case['seed'] + 1, 50 + 12 * k)
    if case['lo0']:      # outcomes above (below) zero, the range starts (ends) at exactly zero
        s = [0, 1, -1][case['lo0']]
        for dd in (d, d2): dd['y0'] = s * (dd['y0'].abs() + .5)
    X = ['x%d' % i for i in range(len(ls))]; V = ['v%d' % i for i in range(case['nv'])] or None; dv = bool(case['dv'] and V)
    def groups(d): return [np.logical_and.reduce([d[x].values == a for x, a in zip(X, q)]) for q in K]
    if any(g.sum() < 3 for dd in (d, d2) for g in groups(dd)): return None
    r = np.random.default_rng(case['seed'] + 2); P = None
    if case['prob']: P = r.dirichlet(np.ones(k))
    xm, ym = classifier(case['cm']), regressor(case['ym'])
    o = ApproxBound(ym, x_prob=None if P is None else P.copy(), x_model=None if P is not None or not V else xm)
    kf = dict(is_discrete_covariate=True) if dv else {}
    def lab_(q): return list(K[q]) if len(X) > 1 or case['ti'] % 2 else K[q][0]
    t, c, kw = 1, 0, {}
    if case['label']:
        t, c = case['ti'] % k, case['ci'] % k
        if t == c: c = (c + 1) % k
        kw = dict(treat=lab_(t), control=lab_(c))
    if case['refit'] and not case['prob']:
        o.fit(mk(case['seed'] + 5, case['n'], [[('q%s' % a) if isinstance(a, str) else a + 100 for a in l] for l in ls]), 'y0', X, covariate=V, **kf); o.estimate()
    d0, d20 = d.copy(), d2.copy()
    if o.fit(d, 'y0', X if len(X) > 1 else X[0], covariate=V, **kf) is not o: return 'fit does not return the estimator'
    G = groups(d); n = len(d); lab = np.argmax(np.stack(G, 1), 1); T = np.stack(G, 1).astype(float)
    def enc(dd):
        v = dd[V].values
        return v if not dv else np.hstack([(v[:, [j]] == np.unique(d[V].values[:, j])[None]).astype(float) for j in range(v.shape[1])])
    y = d['y0'].values; Z = np.hstack([T, enc(d)]) if V else T
    g = clone(ym).fit(Z, y)
    if V and P is None: pm = clone(xm).fit(enc(d), lab)
    STATS['covariates' if V else 'none'] = STATS.get('covariates' if V else 'none', 0) + 1
    for dd, data in ((d, None), (d2, d2)):
        m = len(dd) if V else 1
        pr = np.tile(P, (m, 1)) if P is not None else pm.predict_proba(enc(dd)) if V else np.array([[a.mean() for a in G]])
        def pred(i):
            u = np.zeros((m, k)); u[:, i] = 1
            return g.predict(np.hstack([u, enc(dd)]) if V else u)
        H = groups(dd); Y = dd['y0'].values; rows = H[t] | H[c]
        u, l = Y[rows].max(), Y[rows].min(); kb = {}
        if case['given']: u, l = (Y.max() + 1.5 if case['lo0'] != 2 else 0), (Y.min() - .5 if case['lo0'] != 1 else 0); kb = dict(y_upper=u, y_lower=l)
        yt, yc, pt, pc = pred(t), pred(c), pr[:, t], pr[:, c]
        up = pt * yt + (1 - pt) * u - pc * yc - (1 - pc) * l; lo = pt * yt + (1 - pt) * l - pc * yc - (1 - pc) * u
        def est(a): return o.estimate(data=data, assump=a, **kw, **kb)
        for a, (el, eu) in {None: (lo, up), 'no-assump': (lo, up), 'non-negative': (0 * lo, up), 'non-positive': (lo, 0 * lo)}.items():
            q = est(a); want('%s: lower bound' % a, q[0], el); want('%s: upper bound' % a, q[1], eu)
        if k == 2:
            (u1, l1), (u2, l2) = est('optimal')
            want('optimal: upper bound', u1, pt * yt - pt * l); want('optimal: lower bound', l1, pc * l - pc * yc)
            want('optimal: second upper bound', u2, yt - pt * l - pc * yc); want('optimal: second lower bound', l2, pt * yt + pc * l - yc)
        try: est('no such assumption'); return 'an unknown assumption is accepted'
        except Exception: pass
    unchanged('fit and estimate', d, d0); unchanged('estimate', d2, d20)
def shrink(case):
    for k, v in (('refit', False), ('dv', False), ('prob', False), ('given', True), ('label', False), ('lo0', 0)):
        if case[k] != v: yield dict(case, **{k: v})
    yield from smaller(case, ('nv', 0))
