from eutil import *
from sklearn.model_selection import KFold
from sklearn.preprocessing import PolynomialFeatures, StandardScaler
from ylearn.estimator_model.double_ml import DoubleML
from meta_learners import combos
from ylearn.estimator_model import RLoss, SLearner, DoublyRobust
STATS = {}
def cases(rng, n):
    for i in range(n):
        kind = rng.choice(['discrete', 'discrete', 'continuous'])
        ls = [levels(rng)] if rng.random() < .75 else rng.choice([[[1, 4], [0, 2, 5]], [['a', 'b'], ['no', 'yes']], [[10, 20], [3, 7]]])
        proba = rng.random() < .2
        yield dict(seed=rng.randrange(10 ** 6), kind=kind, levels=ls if kind == 'discrete' else [], cont=rng.choice([1, 1, 2]) if kind == 'continuous' else 0, ny=1 if proba else rng.choice([1, 1, 2]), proba=proba,
                   nw=rng.choice([0, 1, 2, 3]), nv=rng.choice([1, 2, 3]), folds=1 if proba else rng.choice([1, 1, 2, 3, 5]), xm=rng.choice(['lin', 'tree', 'knn']), cm=rng.choice(['log', 'nb']), ym=rng.choice(['lin', 'tree', 'knn']),
                   ylevels=rng.choice([[0, 1], [1, 2, 3], ['bad', 'fair', 'good']]), tr=rng.choice([None, None, 'scale', 'poly']), n=rng.choice([90, 120]), ti=rng.randrange(50), ci=rng.randrange(50), refit=rng.random() < .25, final=kind == 'discrete' or rng.random() < .3)
@guard
def check(case):
    disc = case['kind'] == 'discrete'; ls = case['levels']; proba = case['proba']
    yl = sorted(case['ylevels']) if proba else None
    K = combos(ls) if disc else []
    def mk(seed, n, ls=ls): return frame(seed, n, ls, case['ny'], case['nw'], case['nv'], yl, least=max(12, 4 * len(K)), cont=case['cont'])
    d, d2 = mk(case['seed'], case['n']), mk(case['seed'] + 1, 60 + 12 * len(K))
    X = [('x%d' if disc else 'c%d') % i for i in range(len(ls) if disc else case['cont'])]; Y = ['y%d' % i for i in range(case['ny'])]
    W = ['w%d' % i for i in range(case['nw'])] or None; V = ['v%d' % i for i in range(case['nv'])]
    n = len(d)
    def mktr(): return {None: None, 'scale': StandardScaler(), 'poly': PolynomialFeatures(2, include_bias=False)}[case['tr']]
    xm = classifier(case['cm']) if disc else regressor(case['xm']); ym = classifier(case['cm']) if proba else regressor(case['ym'])
    if disc:
        grp = [np.logical_and.reduce([d[x].values == a for x, a in zip(X, k)]) for k in K]
        if min(g.sum() for g in grp) < 5: return None
        # every training fold must see every treatment
        lab = np.argmax(np.stack(grp, 1), 1)
        if case['folds'] > 1 and any(len(set(lab[a])) < len(K) for a, b in KFold(case['folds']).split(lab)): return None
    kw = dict(is_discrete_outcome=True, proba_output=True) if proba else {}
    if case['final']: kw['yx_model'] = Ridge(.7)
    o = DoubleML(xm, ym, cf_fold=case['folds'], is_discrete_treatment=disc, adjustment_transformer=mktr(), covariate_transformer=mktr(), **kw)
    if case['refit']:
        o.fit(mk(case['seed'] + 5, case['n'], [[('q%s' % a) if isinstance(a, str) else a + 100 for a in l] for l in ls]), Y, X, adjustment=W, covariate=V); o.estimate(d2)
    d0, d20 = d.copy(), d2.copy()
    if o.fit(d, Y, X, adjustment=W, covariate=V) is not o: return 'fit does not return the estimator'
    unchanged('fit', d, d0)
    # reference
    w, v = (d[W].values if W else None), d[V].values
    tw, tv = mktr(), mktr()
    if tw is not None:
        w = tw.fit_transform(w) if w is not None else None; v = tv.fit_transform(v)
    wv = np.hstack([a for a in (w, v) if a is not None])
    y = d[Y].values; y1 = y[:, 0] if y.shape[1] == 1 else y
    T = np.stack(grp, 1).astype(float) if disc else d[X].values
    tt = lab if disc else (T[:, 0] if T.shape[1] == 1 else T)
    def px(m, Z): return m.predict_proba(Z) if disc else m.predict(Z)
    def py(m, Z): return m.predict_proba(Z) if proba else m.predict(Z)
    def cf(m, target, pred):
        m = clone(m)
        if case['folds'] == 1: return pred(m.fit(wv, target), wv).reshape(n, -1)
        r = None
        for a, b in KFold(case['folds']).split(wv):
            p = pred(clone(m).fit(wv[a], target[a]), wv[b]).reshape(len(b), -1)
            if r is None: r = np.full((n, p.shape[1]), np.nan)
            r[b] = p
        return r
    yy = np.stack([(y[:, 0] == l).astype(float) for l in yl], 1) if proba else y
    rx = T - cf(xm, tt, px); ry = yy - cf(ym, y1, py)
    v1 = np.hstack([np.ones((n, 1)), v]); p, q = T.shape[1], v1.shape[1]
    F = np.einsum('ni,nq->niq', rx, v1).reshape(n, p * q)
    fin = (Ridge(.7) if case['final'] else LinearRegression()).fit(F, ry)
    co = np.asarray(fin.coef_).reshape(ry.shape[1], p, q)
    # compare through effects of the stored model (the design is collinear for discrete treatments: minimum norm solutions agree)
    want('coefficients', np.asarray(o.yx_model.coef_).reshape(ry.shape[1], p * q), co.reshape(ry.shape[1], p * q), 1e-5)
    co = np.asarray(o.yx_model.coef_).reshape(ry.shape[1], p, q)
    def fij(dd):
        vv = dd[V].values; vv = tv.transform(vv) if tv is not None else vv
        return np.einsum('nq,jiq->nji', np.hstack([np.ones((len(vv), 1)), vv]), co)
    STATS[case['kind']] = STATS.get(case['kind'], 0) + 1
    if disc:
        t, c = case['ti'] % len(K), case['ci'] % len(K)
        def lab_(k): return list(K[k]) if len(X) > 1 or case['ti'] % 2 else K[k][0]
        for dd, data in ((d2, d2), (d, None)):
            F = fij(dd); e = F[:, :, t] - F[:, :, c]
            want('effect', o.estimate(data=data, treat=lab_(t), control=lab_(c)), e)
            for qn in ('ATE', 'CATE'): want('average effect ' + qn, o.estimate(data=data, treat=lab_(t), control=lab_(c), quantity=qn), e.mean(axis=0))
            if proba:
                for i, l in enumerate(yl): want('effect on class %r' % l, o.estimate(data=data, treat=lab_(t), control=lab_(c), target_outcome=l), e[:, [i]])
            want('effect_nji', o.effect_nji(data=data, control=lab_(c)), F - F[:, :, [c]])
            want('effect, no treatment given again', o.estimate(data=data, control=lab_(c)), e)
    else:
        r = np.random.default_rng(case['seed'] + 3)
        for dd, data in ((d2, d2), (d, None)):
            F = fij(dd); a, b = r.normal(), r.normal()
            if data is d2: want('unit effect', o.estimate(data=data), F)
            want('effect of a change', o.estimate(data=data, treat=a, control=b), F * (a - b))
            want('average effect', o.estimate(data=data, treat=a, control=b, quantity='ATE'), (F * (a - b)).mean(axis=0))
            ta, ca = r.normal(size=(len(dd), p)), r.normal(size=(len(dd), p))
            want('effect of changes by row', o.estimate(data=data, treat=ta, control=ca), F * (ta - ca)[:, None, :])
            want('effect of treatments by row', o.estimate(data=data, treat=ta, control=b), F * (ta - b)[:, None, :])
            if p == 1: want('effect of a series', o.estimate(data=data, treat=pd.Series(ta[:, 0]), control=b), F * (ta - b)[:, None, :])
            want('effect of one row of treatments', o.estimate(data=data, treat=ta[:1], control=b), F * (ta[:1] - b)[:, None, :])
            want('effect_nji', o.effect_nji(data=data), F)
    unchanged('estimate', d, d0); unchanged('estimate', d2, d20)
    # the same residuals score an estimator
    if not proba:
        a1 = lambda c: c[0] if c and len(c) == 1 and case['ti'] % 2 else c
        s = RLoss(xm, ym, cf_fold=case['folds'], is_discrete_treatment=disc, adjustment_transformer=mktr(), covariate_transformer=mktr())
        if case['refit']: s.fit(mk(case['seed'] + 5, case['n'], [[('q%s' % a) if isinstance(a, str) else a + 100 for a in l] for l in ls]), Y, X, adjustment=W, covariate=V)
        if s.fit(d, Y, X, adjustment=a1(W), covariate=a1(V)) is not s: return 'fit of the score does not return it'
        e = SLearner(regressor('lin')) if disc and case['ci'] % 2 else DoubleML(xm, ym, is_discrete_treatment=disc)
        W2, V2 = (W[::-1] if W else W), V[::-1]
        if case['ci'] % 3 == 0 and disc and case['ci'] % 2: W2 = None
        kw1, kw2 = {}, {}
        if disc:
            tq, cq = case['ti'] % len(K), case['ci'] % len(K)
            kw2 = dict(treat=lab_(tq), control=lab_(cq))
            if isinstance(e, SLearner): kw1, kw2 = kw2, kw1
        e.fit(mk(case['seed'] + 9, 100 + 12 * len(K)), Y, X, adjustment=a1(W2), covariate=a1(V2), **kw1)
        if disc:
            E_ = np.asarray(e.estimate(d, **kw2)).reshape(n, len(Y)); p2 = rx[:, [tq]] * E_
        else: p2 = np.einsum('nji,ni->nj', np.asarray(e.estimate(d)).reshape(n, len(Y), p), rx)
        want('score of an estimator', s.score(e, **kw2), np.mean((ry - p2) ** 2, axis=0), 1e-5)
        unchanged('score', d, d0); STATS['score'] = STATS.get('score', 0) + 1
def shrink(case):
    for k, v in (('refit', False), ('tr', None), ('folds', 1), ('ny', 1), ('proba', False)):
        if case[k] != v: yield dict(case, **{k: v})
    yield from smaller(case, ('nw', 0), ('nv', 1))
