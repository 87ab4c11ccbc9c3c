import itertools
from eutil import *
from sklearn.preprocessing import PolynomialFeatures, SplineTransformer, FunctionTransformer
from ylearn.estimator_model.iv import NP2SLS
STATS = {}
def cases(rng, n):
    for i in range(n):
        disc = rng.random() < .5
        ls = rng.choice([[levels(rng)], [levels(rng)], [[1, 4], [0, 2, 5]], [['a', 'b'], ['no', 'yes']]]) if disc else []
        yield dict(seed=rng.randrange(10 ** 6), levels=ls, cont=0 if disc else rng.choice([1, 1, 2]), ny=rng.choice([1, 1, 2]), nw=rng.choice([0, 1, 2]), nv=rng.choice([0, 1, 1, 2]), nz=rng.choice([1, 1, 2]), zd=rng.random() < .35,
                   zl=rng.choice([[0, 1], ['u', 'v', 'w'], [3, 5, 9]]), deg=[rng.choice([1, 2, 2, 3]) for _ in range(3)], how=rng.choice(['tuple', 'tuple', 'object', 'spline']), xm=rng.choice(['lin', 'tree', 'knn', 'ridge']), ym=rng.choice(['lin', 'ridge', 'tree']),
                   n=rng.choice([60, 90]), ti=rng.randrange(50), ci=rng.randrange(50), refit=rng.random() < .3, a=round(rng.uniform(-3, 3), 3), b=round(rng.uniform(-3, 3), 3), one=rng.random() < .5)
def basis(kind, deg):
    if kind == 'spline': return SplineTransformer(4, degree=min(deg, 2), extrapolation='linear')
    return PolynomialFeatures(deg) if kind == 'tuple' else PolynomialFeatures(deg, include_bias=False, interaction_only=True)
@guard
def check(case):
    ls = case['levels']; disc = bool(ls); p = len(ls) or case['cont']
    K = list(itertools.product(*[sorted(l) for l in ls])) if disc else []
    def mk(seed, n, ls=ls):
        d = frame(seed, n, ls, case['ny'], case['nw'], case['nv'], None, least=8, cont=case['cont']); r = np.random.default_rng(seed + 77)
        for i in range(case['nz']): d['z%d' % i] = spread(r, case['zl'], n, 4) if case['zd'] else r.normal(size=n)
        return d
    d, d2 = mk(case['seed'], case['n']), mk(case['seed'] + 1, 50)
    X = [('x%d' if disc else 'c%d') % i for i in range(p)]; Y = ['y%d' % i for i in range(case['ny'])]; Z = ['z%d' % i for i in range(case['nz'])]
    W = ['w%d' % i for i in range(case['nw'])] or None; V = ['v%d' % i for i in range(case['nv'])] or None
    def name(c): return c[0] if case['one'] and c is not None and len(c) == 1 else c
    def bs(i):
        return ('Poly', case['deg'][i]) if case['how'] == 'tuple' else basis(case['how'], case['deg'][i])
    objs = [bs(i) for i in range(3)]
    o = NP2SLS(x_model=regressor(case['xm']), y_model=regressor(case['ym']), is_discrete_treatment=disc)
    def fit(d, W=W, V=V): return o.fit(d, name(Y), name(X), name(Z), is_discrete_instrument=case['zd'], treatment_basis=objs[0], instrument_basis=objs[1], covar_basis=objs[2], adjustment=name(W), covariate=name(V))
    if case['refit']:
        q = case['seed'] % 4     # the roles of an earlier fit
        e = mk(case['seed'] + 5, case['n'] + 10, [[('q%s' % a) if isinstance(a, str) else a + 100 for a in l] for l in ls]); e['w9'], e['v9'] = e[Y[0]] * .3 + e[Z[0]].eq(e[Z[0]].iloc[0]), e[Y[0]] * .1
        fit(e, *((W, V) if q < 2 else ((['w9'], V) if q == 2 else (W, ['v9'])))); o.estimate()
    d0, d20 = d.copy(), d2.copy()
    if fit(d) is not o: return 'fit does not return the estimator'
    unchanged('fit', d, d0)
    # reference
    def enc(dd):
        if not disc: return dd[X].values
        return np.stack([[float(sorted(l).index(a)) for a in dd[x]] for x, l in zip(X, ls)], axis=1)
    n = len(d); b = [basis(case['how'], case['deg'][i]) for i in range(3)]
    z = np.hstack([np.stack([(d[c].values == l).astype(float) for l in sorted(case['zl'])], axis=1) for c in Z]) if case['zd'] else d[Z].values
    bx = b[0].fit_transform(enc(d)); bz = b[1].fit_transform(z); bv = b[2].fit_transform(d[V].values) if V else None
    def kron(a, v): return a if v is None else np.stack([np.kron(r, s) for r, s in zip(a, v)])
    def rows(m, dd): return np.hstack([m] + ([dd[W].values] if W else []) + [np.ones((len(m), 1))])
    Z1 = rows(kron(bz, bv), d); xm = regressor(case['xm']).fit(Z1, bx); xh = xm.predict(Z1).reshape(n, -1)
    ym = regressor(case['ym']).fit(rows(kron(xh, bv), d), d[Y].values)
    def out(dd, t):
        t = np.asarray(t, dtype=float)
        if t.ndim == 1: t = np.tile(t, (len(dd), 1))
        r = ym.predict(rows(kron(b[0].transform(t), b[2].transform(dd[V].values) if V else None), dd)); return r
    def eff(dd, t, c): return out(dd, t) - out(dd, c)
    tol = 1e-6
    STATS['discrete' if disc else 'continuous'] = STATS.get('discrete' if disc else 'continuous', 0) + 1
    t1, t0 = np.ones(p), np.zeros(p)
    for dd, data in ((d2, d2), (d, None)):
        want('effect of the default treatments', o.estimate(data), eff(dd, t1, t0), tol)
        want('average effect', o.estimate(data, quantity='ATE'), eff(dd, t1, t0).mean(axis=0), tol)
        if V: want('average conditional effect', o.estimate(data, quantity='CATE'), eff(dd, t1, t0).mean(axis=0), tol)
        want('outcome under the recorded treatments', o.estimate(data, quantity='CF'), out(dd, enc(dd)), tol)
        if disc:
            t, c = case['ti'] % len(K), case['ci'] % len(K); code = [np.array([float(sorted(l).index(a)) for a, l in zip(k, ls)]) for k in K]
            def lab(k): return np.array(list(K[k]), dtype=object if len({type(a) for a in K[k]}) > 1 else None).reshape(1, -1) if p > 1 else K[k][0]
            T, C, tc, cc = lab(t), lab(c), code[t], code[c]
        else:
            tc, cc = np.array([case['a'] + i for i in range(p)]), np.array([case['b'] - i for i in range(p)]); T, C = (list(tc), list(cc)) if p > 1 else (case['a'], case['b'])
        want('effect of given treatments', o.estimate(data, treat=T, control=C), eff(dd, tc, cc), tol)
        want('effect, default control', o.estimate(data, treat=T), eff(dd, tc, t0), tol)
        want('effect, default treatment', o.estimate(data, control=C), eff(dd, t1, cc), tol)
        own = dd[X].values
        want('effect of treatments row by row', o.estimate(data, treat=own, control=C), eff(dd, enc(dd), cc), tol)
        want('effect, controls row by row', o.estimate(data, treat=T, control=own), eff(dd, tc, enc(dd)), tol)
        m = len(dd)
        if disc: F = np.stack([eff(dd, cd, code[0]).reshape(m, -1) for cd in code], axis=2)
        else: e = eff(dd, t1, t0).reshape(m, -1); F = np.stack([e * 0, e], axis=2)
        if len(ls) < 3: want('effect_nji', o.effect_nji(data), F, tol)
        want('the effect again', o.estimate(data), eff(dd, t1, t0), tol)
    unchanged('estimate', d2, d20); unchanged('estimate', d, d0)
def shrink(case):
    yield from smaller(case, ('ny', 1), ('nw', 0), ('nv', 0), ('nz', 1), ('cont', 1), ('n', 60))
    for k, v in (('refit', False), ('zd', False), ('how', 'tuple'), ('xm', 'lin'), ('ym', 'lin'), ('deg', [2, 2, 2]), ('one', False)):
        if case[k] != v: yield dict(case, **{k: v})
