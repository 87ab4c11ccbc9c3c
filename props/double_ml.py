from .meta_learners import *
FUNCTIONS = [M + 'double_ml.DoubleML.' + f for f in ('__init__', 'fit', 'estimate', 'comp_transormer', 'effect_nji', '_prepare4est', '_cross_fit', '_fit_1st_stage', '_fit_2nd_stage', '_cal_x_prime', 'outcome_classes_')] + \
    [M + 'utils.' + f for f in ('get_wv', 'get_tr_ctrl', 'convert4onehot', 'convert2array', 'cartesian', 'check_classes', 'nd_kron')] + [M + 'base_models.BaseEstModel.fit'] + [M + 'effect_score.RLoss.' + f for f in ('__init__', 'fit', 'score', '_fit_1st_stage')]
ASSUMPTIONS = ['scikit-learn estimators are arbitrary: a prediction is an arbitrary function of the feature row and of the call of fit, coefficients of the last stage an arbitrary function of its fit; KFold partitions the rows and trains on the complement; encoders, numpy and pandas operations by their documented contracts (vp/snp.py, vp/slearn.py)',
               'every fold and every treatment group has at least two rows; real arithmetic for floats']
BOUND = 'rows, adjustment features, values unbounded; 2 covariates, 1-2 continuous treatments or one treatment of 3 values, 1-2 outcomes, 1-3 folds'

def setup(L):
    x = setup_est(L); x.m = L.load(M + 'double_ml'); snp.MINROWS[0] = 2
    return x

def stage1(np, name, f, n, X, target, shape, folds, pred):
    """spec of (cross-)fitting: returns the out-of-fold predictions"""
    if folds == 1:
        E.prove(name + ': one fit', z3.BoolVal(len(f) == 1)); fitted_with(name, f[0], X, target)
        return pred(f[0])(X).reshape(*shape)
    E.prove(name + ': one fit per fold', z3.BoolVal(len(f) == folds))
    from vp.slearn import KFold
    r = np.full(shape, np.nan)
    for j, (tr, te) in enumerate(KFold(folds).split(X)):
        fitted_with('%s: fold %d, rows outside the fold' % (name, j), f[j], X[tr], target[tr])
        p = pred(f[j])(X[te]); r[te] = p.reshape(-1, *shape[1:]) if len(shape) > 1 and p.ndim != len(shape) else p
    return r

def run(x, kind, dim_, ny, folds, what):
    np = x.np; disc = kind == 'discrete'
    k = dim_
    lv = (k,) if disc else ()
    d = Data('d', ny, lv, xcont=0 if disc else k, vfix=2); d2 = Data('t', ny, lv, xcont=0 if disc else k, vfix=2, share=d)
    d.w = d.w; n = d.arr('x').shape[0]
    o = x.m.DoubleML(x_model=SClassifier(classes=range(k)) if disc else SModel(), y_model=SModel(), yx_model=SLinear(), cf_fold=folds, is_discrete_treatment=disc)
    r = o.fit(d.frame, PyList(d.y), PyList(d.x), adjustment=d.w, covariate=d.v)
    E.prove('fit returns the estimator', z3.BoolVal(r is o))
    f = fits(); nf = folds
    E.prove('number of fits', z3.BoolVal(len(f) == 2 * nf + 1))
    X = d.wv(np); y = vec(d.arr('y'))
    T = onehot(np, d.arr('x'), d.levels['x0']) if disc else d.arr('x')
    tt = sum((j * (d.arr('x') == l)[:, 0].astype('float') for j, l in enumerate(d.levels['x0'])), np.zeros(n)) if disc else (T[:, 0] if k == 1 else T)
    xhat = stage1(np, 'treatment model', f[:nf], n, X, tt, (n, T.shp[1]), folds, lambda g: out(predictor(g, 'proba' if disc else None), 'proba' if disc else None))
    yhat = stage1(np, 'outcome model', f[nf:2 * nf], n, X, y, (n, ny), folds, lambda g: predictor(g).predict)
    v1 = np.concatenate([np.ones((n, 1)), d.arr('v')], axis=1)
    rx = T - xhat; p = T.shp[1]
    feats = np.concatenate([rx[:, i].reshape(-1, 1) * v1 for i in range(p)], axis=1)
    if what == 'fit':
        fitted_with('last stage: outcome residual on treatment residual times (1, covariates)', f[-1], feats, d.arr('y') - yhat)
        return
    co = o.yx_model.coef_
    def fij(dd):
        m = dd.arr('v').shape[0]; w = np.concatenate([np.ones((m, 1)), dd.arr('v')], axis=1)
        # effect of treatment i on outcome j in row r: sum over q of coefficient[j, i*3 + q] * (1, v)[r, q]
        def el(j, i): return sum((w[:, q] * co[j, i * 3 + q] for q in range(3)), np.zeros(m))
        return np.stack([np.stack([el(j, i) for i in range(p)], axis=1) for j in range(ny)], axis=1)
    if disc:
        ls = d.levels['x0']
        t, c = [(k - 1, k - 2), (0, k - 1)][E.choose(2)]
        def spec(dd): F = fij(dd); return F[:, :, t] - F[:, :, c]
        same('effect on new data', o.estimate(data=d2.frame, treat=ls[t], control=ls[c]), spec(d2))
        same('effect on the training data', o.estimate(treat=PyList([ls[t]]), control=PyList([ls[c]])), spec(d))
        same('average effect', o.estimate(data=d2.frame, treat=ls[t], control=ls[c], quantity='ATE'), np.mean(spec(d2), axis=0))
        same('average conditional effect', o.estimate(data=d2.frame, treat=ls[t], control=ls[c], quantity='CATE'), np.mean(spec(d2), axis=0))
        F = fij(d2); same('effect_nji', o.effect_nji(data=d2.frame, control=ls[c]), np.stack([F[:, :, i] - F[:, :, c] for i in range(p)], axis=2))
        same('the same treatment when none is given again', o.estimate(data=d2.frame, control=ls[c]), spec(d2))
    else:
        F = fij(d2); a, b = val(z3.Const('treat', R)), val(z3.Const('control', R))
        same('unit effect', o.estimate(data=d2.frame), F)
        same('effect of a change', o.estimate(data=d2.frame, treat=a, control=b), F * (a - b))
        same('effect of a change, training data', o.estimate(treat=a, control=b), fij(d) * (a - b))
        same('average effect of a change', o.estimate(data=d2.frame, treat=a, control=b, quantity='ATE'), np.mean(F * (a - b), axis=0))
        ta, ca = d2.arr('x'), d2.arr('y')[:, 0].reshape(-1, 1) if p == 1 else d2.arr('v')
        G = np.stack([np.stack([F[:, j, i] * (ta[:, i] - ca[:, i]) for i in range(p)], axis=1) for j in range(ny)], axis=1)
        same('effect of changes given row by row', o.estimate(data=d2.frame, treat=ta, control=ca), G)
        G = np.stack([np.stack([F[:, j, i] * (ta[:, i] - b) for i in range(p)], axis=1) for j in range(ny)], axis=1)
        same('effect of treatments given row by row', o.estimate(data=d2.frame, treat=ta, control=b), G)
        same('effect_nji', o.effect_nji(data=d2.frame), F)
HARNESS = {}
for kind, k, ny in [('discrete', 2, 1), ('discrete', 3, 1), ('discrete', 3, 2), ('continuous', 1, 1), ('continuous', 2, 1), ('continuous', 2, 2)]:
    for what in ('fit', 'estimate'):
        for folds in ((1, 2, 3) if what == 'fit' else (1,)):
            HARNESS['%s: %s, %d, %d outcome(s)%s' % (what, kind, k, ny, ', %d fold(s)' % folds if what == 'fit' else '')] = mk(run, kind, k, ny, folds, what)
def refit_dml(x):
    """a second fit on data with other treatment values, after an estimate, equals a first fit"""
    np = x.np; d = Data('d', 1, (3,), vfix=2); d0 = Data('z', 1, (3,), vfix=2, lv='old', blocks=d); ls, old = d.levels['x0'], d0.levels['x0']
    def new(): return x.m.DoubleML(x_model=SClassifier(classes=range(3)), y_model=SModel(), yx_model=SLinear(), is_discrete_treatment=True)
    def fit(o, d): return o.fit(d.frame, PyList(d.y), PyList(d.x), adjustment=d.w, covariate=d.v)
    o = new(); fit(o, d0); o.estimate(treat=old[2], control=old[1]); n0 = len(fits()); fit(o, d); n1 = len(fits()); g = new(); fit(g, d)
    a, b = fits()[n0:n1], fits()[n1:]
    E.prove('as many models as a fresh fit', z3.BoolVal(len(a) == len(b)))
    for i, (u, v) in enumerate(zip(a[:2], b[:2])): fitted_with('model %d as in a fresh fit' % i, u, v.X, v.y)
    E.prove('estimate accepts the new treatment values', z3.BoolVal(o.estimate(treat=ls[1], control=ls[2]) is not None))
HARNESS['refit'] = refit_dml

# ---------------------------------------------------------------- RLoss: a double machine learning score of an effect estimator
EST = z3.Function('effect of the estimator', I, I, I, I, R)       # data, row, outcome, treatment
TRF = z3.Function('transformed feature', I, R, R, I, R)
class Transformer:
    """an arbitrary row-wise transformer with three features"""
    def __init__(self, i): self.i = i
    def fit_transform(self, A):
        f = A.snap(); last = A.shp[1] - 1
        return SArr((A.shp[0], 3), lambda ix: TRF(z3.IntVal(self.i), snp.real(f((ix[0], 0))), snp.real(f((ix[0], last))), ti(ix[1])), 'f')
def rloss(x, disc, k, ny, folds, adj, how=None):
    import types
    np = x.np
    ins = types.ModuleType('inspect')
    class Sig:
        def __init__(self, names): self.parameters = coll.PyDict({n: None for n in names})
    ins.signature = lambda f: Sig(f.params)
    x.L.facades['inspect'] = ins; al = types.ModuleType('asyncio.log'); al.logger = None; x.L.facades['asyncio.log'] = al; x.L.facades.setdefault('asyncio', types.ModuleType('asyncio'))
    RL = x.L.load(M + 'effect_score').RLoss
    d = Data('d', ny, (k,) if disc else (), xcont=0 if disc else k, vfix=3, wv=('v',))
    cov, ad = PyList(list(d.v)[:2]), PyList(list(d.v)[2:]) if adj else None
    if how == 'names': cov, ad = d.v[0], d.v[1]
    o = RL(x_model=SClassifier(classes=range(k)) if disc else SModel(), y_model=SModel(), cf_fold=folds, is_discrete_treatment=disc, **(dict(covariate_transformer=Transformer(0), adjustment_transformer=Transformer(1)) if how == 'transformed' else {}))
    if how == 'refit':
        d0 = Data('z', ny, (k,), vfix=3, lv='old', blocks=d); o.fit(d0.frame, PyList(d0.y), PyList(d0.x), adjustment=ad, covariate=cov)
    f0 = len(fits())
    r = o.fit(d.frame, PyList(d.y), PyList(d.x), adjustment=ad, covariate=cov)
    if how == 'names': cov, ad = PyList([cov]), PyList([ad])
    E.prove('fit returns the score', z3.BoolVal(r is o))
    f = fits()[f0:]; E.prove('number of fits', z3.BoolVal(len(f) == 2 * folds))
    n = d.arr('x').shape[0]; A = lambda c: d.frame[c].values
    tr = (lambda i, a: Transformer(i).fit_transform(a)) if how == 'transformed' else lambda i, a: a
    X = np.concatenate([tr(1, A(ad)), tr(0, A(cov))], axis=1) if adj else tr(0, A(cov)); y = vec(d.arr('y'))
    T = onehot(np, d.arr('x'), d.levels['x0']) if disc else d.arr('x')
    tt = sum((j * (d.arr('x') == l)[:, 0].astype('float') for j, l in enumerate(d.levels['x0'])), np.zeros(n)) if disc else (T[:, 0] if k == 1 else T)
    xhat = stage1(np, 'treatment model', f[:folds], n, X, tt, (n, T.shp[1]), folds, lambda g: out(predictor(g, 'proba' if disc else None), 'proba' if disc else None))
    yhat = stage1(np, 'outcome model', f[folds:], n, X, y, (n, ny), folds, lambda g: predictor(g).predict)
    rx, ry = T - xhat, d.arr('y') - yhat
    t = E.choose(k) if disc else None; calls = []
    class Effect:
        params = ('data', 'treat', 'control', 'quantity')
        def __call__(self, data=None, treat=None, control=None, quantity=None):
            calls.append((data, treat, control))
            e = SArr((n, ny) if disc else (n, ny, k), (lambda ix: EST(z3.IntVal(0), ti(ix[0]), ti(ix[1]), z3.IntVal(0))) if disc else (lambda ix: EST(z3.IntVal(0), ti(ix[0]), ti(ix[1]), ti(ix[2]))), 'f')
            return e[:, 0] if disc and ny == 1 else e
    class Est:
        is_discrete_treatment = disc; covariate = PyList(list(cov)[::-1]) if how == 'order' else cov[0] if how == 'names' else cov; adjustment = None if how == 'without' else ad[0] if how == 'names' else ad; treat = t; estimate = Effect()
    e = Est(); tv, cv = val(z3.Const('given treat', R)), val(z3.Const('given control', R))
    given = E.choose(2)
    s = o.score(e, **({'treat': tv, 'control': cv} if given else {}))
    E.prove('the effect is estimated once', z3.BoolVal(len(calls) == 1))
    if len(calls) != 1: return
    D, a, b = calls[0]
    E.prove('for the treatment and control given', z3.BoolVal((a is tv and b is cv) if given else (a is None and b is None)))
    for c in list(cov) + (list(ad) if adj else []): same('on the covariates and adjustment variables fitted on: ' + c, D[c].values, d.frame[c].values)
    ef = lambda j, q: SArr((n,), lambda ix: EST(z3.IntVal(0), ti(ix[0]), ti(j), ti(q)), 'f')
    pred = [rx[:, t] * ef(j, 0) if disc else sum((rx[:, q] * ef(j, q) for q in range(k)), np.zeros(n)) for j in range(ny)]
    same('mean square of outcome residual minus treatment residual times effect', s, np.stack([np.mean((ry[:, j] - pred[j]) ** 2) for j in range(ny)], axis=0) if ny > 1 else np.mean((ry[:, 0:1] - pred[0].reshape(-1, 1)) ** 2, axis=0))
for disc, k, ny in [(True, 2, 1), (True, 3, 1), (True, 3, 2), (False, 1, 1), (False, 2, 1), (False, 2, 2)]:
    for folds, adj in ((1, True), (2, True), (1, False)):
        HARNESS['RLoss: %s, %d, %d outcome(s), %d fold(s)%s' % ('discrete' if disc else 'continuous', k, ny, folds, '' if adj else ', no adjustment')] = mk(rloss, disc, k, ny, folds, adj)
for how in ('names', 'refit', 'order', 'without', 'transformed'): HARNESS['RLoss: discrete, 3, %s' % how] = mk(rloss, True, 3, 1, 1, True, how)
