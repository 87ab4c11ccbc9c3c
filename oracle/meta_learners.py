from eutil import *
from ylearn.estimator_model.meta_learner import SLearner, TLearner, XLearner
STATS = {}
def cases(rng, n):
    for i in range(n):
        nt = rng.choice([1, 1, 1, 2])
        ls = [levels(rng) for _ in range(nt)] if nt == 1 else [levels(rng, 2), levels(rng, rng.choice([2, 3]))]
        if nt == 2 and len({type(a) for l in ls for a in l}) > 1: ls = [[1, 4], [0, 2, 5]] if rng.random() < .5 else [['a', 'b'], ['no', 'yes']]
        mode = rng.choice(['values', 'values', 'values', 'proba'])
        nw, nv = rng.choice([(2, 1), (1, 0), (0, 2), (3, 2), (1, 1)])
        yield dict(seed=rng.randrange(10 ** 6), cls=rng.choice(['S', 'T', 'X']), levels=ls, mode=mode, sep=rng.random() < .4, ny=1 if mode == 'proba' else rng.choice([1, 1, 2]), nw=nw, nv=nv,
                   ylevels=rng.choice([[0, 1], [1, 2, 3], ['bad', 'fair', 'good']]), model=rng.choice(['lin', 'tree', 'knn']), cmodel=rng.choice(['log', 'nb', 'tree']), label=rng.random() < .7, ti=rng.randrange(100), ci=rng.randrange(100),
                   listed=rng.random() < .5, refit=rng.random() < .3, rho=rng.choice([None, None, 0.0, 0.3, 1.0]), n=rng.choice([120, 160]), series=rng.random() < .3)
def make(case):
    kw = {}
    if case['mode'] == 'proba':
        m = classifier(case['cmodel']); kw = dict(is_discrete_outcome=True, proba_output=True)
        if case['cls'] == 'X': kw['final_proba_model'] = LinearRegression()
    else: m = regressor(case['model'])
    return {'S': SLearner, 'T': TLearner, 'X': XLearner}[case['cls']](m, **kw), m
def combos(ls):
    out = [()]
    for l in ls: out = [o + (a,) for o in out for a in l]
    return out
@guard
def check(case):
    ls, mode, sep, cls = case['levels'], case['mode'], case['sep'], case['cls']
    yl = sorted(case['ylevels']) if mode == 'proba' else None
    K = combos(ls)
    def mkdata(seed, n): return frame(seed, n, ls, case['ny'], case['nw'], case['nv'], yl, least=max(8, 3 * len(K)))
    d, d2 = mkdata(case['seed'], case['n']), mkdata(case['seed'] + 1, 40 + 3 * 3 * len(K) * max(map(len, ls)))
    X = ['x%d' % i for i in range(len(ls))]; Y = ['y%d' % i for i in range(case['ny'])]
    W = ['w%d' % i for i in range(case['nw'])] or None; V = ['v%d' % i for i in range(case['nv'])] or None
    wvn = (W or []) + (V or [])
    grp = [np.logical_and.reduce([d[x].values == a for x, a in zip(X, k)]) for k in K]
    if min(g.sum() for g in grp) < 6: return None
    if mode == 'proba' and any(len(set(d.loc[g, 'y0'])) < len(yl) for g in grp): return None
    wv, wv2 = d[wvn].values, d2[wvn].values
    y = d[Y].values; y = y[:, 0] if y.shape[1] == 1 else y
    o, m = make(case)
    if len(X) > 1 and sep and cls == 'S': return None        # one column of indicators per treatment: covered by the combined mode only
    if len(X) == 1 and sep and cls in 'TX' and False: return None
    t, c = (1, 0)
    kw = {}
    if not sep and case['label']:
        t = case['ti'] % len(K); c = case['ci'] % len(K)
        if c == t: c = (t + 1) % len(K)
        def lab(k):
            if len(X) > 1: return list(K[k]) if case['listed'] else np.array(K[k])
            return [K[k][0]] if case['listed'] else K[k][0]
        if len(X) > 1 and not case['listed']:
            kw = dict(treat=list(K[t]), control=list(K[c]))
        else: kw = dict(treat=lab(t), control=lab(c))
    one = len(Y) == 1 and case['series']
    fit = dict(outcome=Y[0] if one else Y, treatment=X[0] if one and len(X) == 1 else X, adjustment=W, covariate=V, combined_treatment=not sep, **kw)
    if case['refit']:
        # another fit and estimate before must leave no trace
        o2 = frame(case['seed'] + 9, case['n'], [[('q', a) if False else (('q%s' % a) if isinstance(a, str) else a + 100) for a in l] for l in ls], case['ny'], case['nw'], case['nv'], yl, least=max(8, 3 * len(K)))
        f2 = dict(fit); f2.pop('treat', None); f2.pop('control', None)
        o.fit(o2, **f2); o.estimate()
    d0, d20 = d.copy(), d2.copy()
    r = o.fit(d, **fit)
    if r is not o: return 'fit does not return the learner'
    unchanged('fit', d, d0)
    def out(mod, Z): return mod.predict_proba(Z) if mode == 'proba' else mod.predict(Z)
    def g2(a): return a.reshape(len(a), -1)
    k = len(K)
    if cls == 'S':
        OH = np.stack([g.astype(float) for g in grp], 1)
        f = clone(m).fit(np.hstack([wv, OH]), y)
        def pot(Z, j): u = np.zeros((len(Z), k)); u[:, j] = 1; return out(f, np.hstack([Z, u]))
        def pair(Z, t, c): return pot(Z, t) - pot(Z, c)
    elif cls == 'T':
        js = range(k) if sep else [t, c]
        P = {j: clone(m).fit(wv[grp[j]], y[grp[j]]) for j in js}
        def pair(Z, t, c): return out(P[t], Z) - out(P[c], Z)
    else:
        fm = LinearRegression() if mode == 'proba' else m
        c0 = 0 if sep else c
        P = {j: clone(m).fit(wv[grp[j]], y[grp[j]]) for j in (range(k) if sep else [t, c])}
        ind = (lambda q: np.stack([(q == l).astype(float) for l in yl], 1)) if mode == 'proba' else (lambda q: q)
        KM = {}
        for j in P:
            if j == c0: continue
            KM[j] = (clone(fm).fit(wv[grp[j]], ind(y[grp[j]]) - out(P[c0], wv[grp[j]])), clone(fm).fit(wv[grp[c0]], out(P[j], wv[grp[c0]]) - ind(y[grp[c0]])))
        rho = 0.5 if case['rho'] is None else case['rho']
        def pair(Z, t, c): return rho * KM[t][0].predict(Z) + (1 - rho) * KM[t][1].predict(Z)
    def spec(Z):
        if not sep: return pair(Z, t, c)
        return np.stack([g2(pair(Z, j, 0)) for j in order], 2).squeeze()
    order = list(range(1, k))
    ek = {} if cls != 'X' or case['rho'] is None else dict(rho=case['rho'])
    STATS[cls] = STATS.get(cls, 0) + 1
    want('effect on new data', o.estimate(data=d2, **ek), spec(wv2))
    want('effect on the training data', o.estimate(**ek), spec(wv))
    want('effect on the training data, repeated', o.estimate(**ek), spec(wv))
    for q in ('ATE', 'CATE'): want('average effect ' + q, o.estimate(data=d2, quantity=q, **ek), spec(wv2).mean(axis=0))
    if mode == 'proba':
        for i, l in enumerate(yl):
            e = spec(wv2); e = e[:, i] if e.ndim == 2 else e[:, i, :]
            want('effect on class %r' % l, g2(o.estimate(data=d2, target_outcome=l, **ek)), g2(e))
    if not ek:
        n2 = len(wv2); e = spec(wv2).reshape(n2, len(yl) if mode == 'proba' else len(Y), -1)
        want('effect_nji', o.effect_nji(data=d2), np.concatenate([np.zeros((n2, e.shape[1], 1)), e], 2))
    unchanged('estimate', d, d0); unchanged('estimate', d2, d20)
def shrink(case):
    for k, v in (('refit', False), ('mode', 'values'), ('ny', 1), ('rho', None), ('listed', False), ('series', False)):
        if case[k] != v: yield dict(case, **{k: v})
    if len(case['levels']) > 1: yield dict(case, levels=case['levels'][:1])
