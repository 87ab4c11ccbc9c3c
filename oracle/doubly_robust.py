from eutil import *
from sklearn.model_selection import KFold
from ylearn.estimator_model.doubly_robust import DoublyRobust
from meta_learners import combos
STATS = {}
def cases(rng, n):
    for i in range(n):
        ls = [levels(rng)] if rng.random() < .75 else rng.choice([[[1, 4], [0, 2, 5]], [['a', 'b'], ['no', 'yes']], [[10, 20], [3, 7]]])
        yield dict(seed=rng.randrange(10 ** 6), levels=ls, ny=rng.choice([1, 1, 2]), nw=rng.choice([1, 2, 3]), nv=rng.choice([0, 1, 2, 3]), folds=rng.choice([1, 1, 2, 3, 5]), cm=rng.choice(['log', 'nb']), ym=rng.choice(['ridge', 'tree', 'knn']), fm=rng.choice(['lin', 'ridge', 'knn']),
                   n=rng.choice([90, 120]), label=rng.random() < .7, ti=rng.randrange(50), ci=rng.randrange(50), oi=rng.randrange(50), refit=rng.random() < .25)
@guard
def check(case):
    ls = case['levels']; K = combos(ls); k = len(K)
    def mk(seed, n, ls=ls): return frame(seed, n, ls, case['ny'], case['nw'], case['nv'], None, least=max(12, 4 * k))
    d, d2 = mk(case['seed'], case['n']), mk(case['seed'] + 1, 60 + 12 * k)
    X = ['x%d' % i for i in range(len(ls))]; Y = ['y%d' % i for i in range(case['ny'])]
    W = ['w%d' % i for i in range(case['nw'])]; V = ['v%d' % i for i in range(case['nv'])] or None
    n = len(d); ny = len(Y)
    grp = [np.logical_and.reduce([d[x].values == a for x, a in zip(X, q)]) for q in K]; lab = np.argmax(np.stack(grp, 1), 1)
    if min(g.sum() for g in grp) < 5: return None
    if case['folds'] > 1 and any(len(set(lab[a])) < k for a, b in KFold(case['folds']).split(lab)): return None
    xm, ym, fm = classifier(case['cm']), regressor(case['ym']), regressor(case['fm'])
    o = DoublyRobust(xm, ym, fm, cf_fold=case['folds'])
    def lab_(q): return list(K[q]) if len(X) > 1 or case['ti'] % 2 else K[q][0]
    t, c, kw = 1, 0, {}
    if case['label']:
        t, c = case['ti'] % k, case['ci'] % k
        if t == c: c = (c + 1) % k
        kw = dict(treat=lab_(t), control=lab_(c))
    if case['refit']:
        o.fit(mk(case['seed'] + 5, case['n'], [[('q%s' % a) if isinstance(a, str) else a + 100 for a in l] for l in ls]), Y, X, adjustment=W, covariate=V); o.estimate()
    d0, d20 = d.copy(), d2.copy()
    if o.fit(d, Y, X, adjustment=W, covariate=V, **kw) is not o: return 'fit does not return the estimator'
    unchanged('fit', d, d0)
    wv = d[W + (V or [])].values; y = d[Y].values; y1 = y[:, 0] if ny == 1 else y; T = np.stack(grp, 1).astype(float)
    ps = np.full((n, k), np.nan); mu = np.full((n, ny, k), np.nan)
    for a, b in ([(np.arange(n), np.arange(n))] if case['folds'] == 1 else KFold(case['folds']).split(wv)):
        ps[b] = clone(xm).fit(wv[a], lab[a]).predict_proba(wv[b])
        g = clone(ym).fit(np.hstack([wv[a], T[a]]), y1[a])
        for i in range(k): u = np.zeros((len(b), k)); u[:, i] = 1; mu[b, :, i] = g.predict(np.hstack([wv[b], u])).reshape(len(b), ny)
    aipw = mu + (y[:, :, None] - mu) * T[:, None, :] / (ps[:, None, :] + 1e-5)
    rel = aipw - aipw[:, :, [c]]
    if V:
        v = d[V].values; G = [clone(fm).fit(v, rel[:, 0, i] if ny == 1 else rel[:, :, i]) for i in range(k)]
        def spec(dd): return np.stack([g.predict(dd[V].values).reshape(len(dd), ny) for g in G], 2)
    else:
        def spec(dd): return rel
    STATS[case['folds']] = STATS.get(case['folds'], 0) + 1
    oi = case['oi'] % k
    for dd, data in ((d2, d2), (d, None)):
        S = spec(dd)
        want('effect', o.estimate(data=data), S[:, :, t], 1e-6)
        for q in ('ATE', 'CATE') if V else ('ATE',): want('average effect ' + q, o.estimate(data=data, quantity=q), S[:, :, t].mean(axis=0), 1e-6)
        want('effects of all treatments', o.estimate(data=data, all_tr_effects=True), S, 1e-6)
        want('effect of a given treatment', o.estimate(data=data, treat=lab_(oi)), S[:, :, oi], 1e-6)
        e = S[:, :, [t]]; z = np.zeros_like(e)
        want('effect_nji', o.effect_nji(data=data), np.concatenate([z, e] if t > c else [e, z], 2), 1e-6)
    unchanged('estimate', d, d0); unchanged('estimate', d2, d20)
def shrink(case):
    for k, v in (('refit', False), ('folds', 1), ('ny', 1), ('label', False)):
        if case[k] != v: yield dict(case, **{k: v})
    yield from smaller(case, ('nw', 1), ('nv', 0))
