from .double_ml import *
FUNCTIONS = [M + 'doubly_robust.DoublyRobust.' + f for f in ('__init__', 'fit', 'estimate', 'comp_transormer', 'effect_nji', '_effect_nji_all', '_prepare4est', '_cross_fit', '_fit_1st_stage', '_fit_2nd_stage', '_gen_y_model')] + \
    [M + 'doubly_robust._YModelWrapper.' + f for f in ('__init__', 'fit', 'predict')] + [M + 'utils.' + f for f in ('get_wv', 'get_tr_ctrl', 'convert4onehot', 'convert2array', 'cartesian')] + [M + 'base_models.BaseEstModel.fit']
BOUND = 'rows, features, values unbounded; one treatment of 2-3 values (or two of 2), 1-2 outcomes, 1-3 folds'
def setup(L):
    x = setup_est(L); x.m = L.load(M + 'doubly_robust'); snp.MINROWS[0] = 2
    return x
def run(x, k, ny, folds, cov, what):
    np = x.np
    d = Data('d', ny, (k,), wv=('w', 'v') if cov else ('w',)); d2 = Data('t', ny, (k,), wv=('w', 'v') if cov else ('w',), share=d)
    ls = d.levels['x0']; n = d.arr('x').shape[0]
    t, c, ta, ca = [(1, 0, None, None), (k - 1, 0, ls[k - 1], ls[0]), (0, 1, PyList([ls[0]]), PyList([ls[1]]))][E.choose(3) if folds == 1 else E.choose(1)]
    o = x.m.DoublyRobust(SClassifier(classes=range(k)), SModel(), SModel(), cf_fold=folds)
    r = o.fit(d.frame, PyList(d.y), PyList(d.x), treat=ta, control=ca, adjustment=d.w, covariate=d.v)
    E.prove('fit returns the estimator', z3.BoolVal(r is o))
    f = fits(); X = d.wv(np); y = vec(d.arr('y'))
    E.prove('number of fits', z3.BoolVal(len(f) == 2 * folds + (k if cov else 0)))
    T = onehot(np, d.arr('x'), ls); lab = sum((j * (d.arr('x') == l)[:, 0].astype('float') for j, l in enumerate(ls)), np.zeros(n))
    XT = np.concatenate([X, T], axis=1)
    ps = stage1(np, 'treatment model', f[:folds], n, X, lab, (n, k), folds, lambda g: predictor(g, 'proba').predict_proba)
    # outcome model: predictions under every treatment
    def under(g, Z):
        m = Z.shape[0]; w = Z[:, :-k]
        return np.stack([predictor(g).predict(np.concatenate([w, unit(np, m, k, i)], axis=1)).reshape(m, ny) for i in range(k)], axis=2)
    if folds == 1:
        fitted_with('outcome model', f[1], XT, y); mu = under(f[1], XT)
    else:
        from vp.slearn import KFold
        mu = np.full((n, ny, k), np.nan)
        for j, (tr, te) in enumerate(KFold(folds).split(X)):
            g = f[folds + j]; fitted_with('outcome model: fold %d, rows outside the fold' % j, g, XT[tr], y[tr])
            mu[te] = under(g, XT[te])
    Y = d.arr('y')
    aipw = np.stack([mu[:, :, i] + (Y - mu[:, :, i]) * T[:, i].reshape(-1, 1) / (ps[:, i].reshape(-1, 1) + 1e-5) for i in range(k)], axis=2)
    rel = np.stack([aipw[:, :, i] - aipw[:, :, c] for i in range(k)], axis=2)
    if cov:
        v = d.arr('v'); G = f[2 * folds:]
        for i, g in enumerate(G): fitted_with('final model of treatment %d: contrast of doubly robust outcomes on the covariates' % i, g, v, rel[:, 0, i] if ny == 1 else rel[:, :, i])
        if what == 'fit': return
        def spec(dd):
            w = dd.arr('v'); return np.stack([predictor(g).predict(w).reshape(w.shape[0], ny) for g in G], axis=2)
    else:
        def spec(dd): return rel
    S = spec(d2); S0 = spec(d)
    same('effect on the training data', o.estimate(), S0[:, :, t])
    if what == 'fit': return
    if cov:
        same('effect on new data', o.estimate(data=d2.frame), S[:, :, t])
        same('average conditional effect', o.estimate(data=d2.frame, quantity='CATE'), np.mean(S[:, :, t], axis=0))
    same('average effect', o.estimate(data=d2.frame, quantity='ATE'), np.mean(S[:, :, t], axis=0))
    same('effects of all treatments', o.estimate(data=d2.frame, all_tr_effects=True), S)
    for i in range(k): same('effect of a given treatment', o.estimate(data=d2.frame, treat=ls[i]), S[:, :, i])
    m = S.shape[0]; e = S[:, :, t].reshape(m, ny, 1); z = np.zeros((m, ny, 1))
    same('effect_nji', o.effect_nji(data=d2.frame), np.concatenate([z, e] if t > c else [e, z], axis=2))
HARNESS = {}; THOROUGH = {}
for k, ny, cov in [(2, 1, True), (3, 1, True), (3, 2, True), (3, 1, False)]:
    for what in ('fit', 'estimate'):
        for folds in ((1, 2, 3) if what == 'fit' else (1,)):
            (THOROUGH if folds == 3 else HARNESS)['%s: %d values, %d outcome(s), %s%s' % (what, k, ny, 'covariates' if cov else 'adjustment only', ', %d fold(s)' % folds if what == 'fit' else '')] = mk(run, k, ny, folds, cov, what)
def refit_dr(x, cov):
    """a second fit on data with other treatment values equals a first fit"""
    np = x.np; wv = ('w', 'v') if cov else ('w',); d = Data('d', 1, (3,), wv=wv); d0 = Data('z', 1, (3,), wv=wv, lv='old', blocks=d); ls, old = d.levels['x0'], d0.levels['x0']
    def new(): return x.m.DoublyRobust(SClassifier(classes=range(3)), SModel(), SModel())
    def fit(o, d, ls): return o.fit(d.frame, PyList(d.y), PyList(d.x), treat=ls[2], control=ls[0], adjustment=d.w, covariate=d.v)
    o = new(); fit(o, d0, old); o.estimate(); n0 = len(fits()); fit(o, d, ls); n1 = len(fits()); fit(new(), d, ls)
    a, b = fits()[n0:n1], fits()[n1:]
    E.prove('as many models as a fresh fit', z3.BoolVal(len(a) == len(b)))
    for i, (u, v) in enumerate(zip(a[:2], b[:2])): fitted_with('model %d as in a fresh fit' % i, u, v.X, v.y)
for cov in (True, False): HARNESS['refit, %s' % ('covariates' if cov else 'adjustment only')] = mk(refit_dr, cov)
