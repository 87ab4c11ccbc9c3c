from .ecommon import *
NUMERIC = True
LEVEL = 'proof'
M = 'ylearn.estimator_model.'
FUNCTIONS = [M + 'meta_learner.%s.%s' % (c, f) for c in ('SLearner', 'TLearner', 'XLearner') for f in ('__init__', 'fit', '_fit_combined_treat', '_fit_separate_treat', '_comp_transformer', 'estimate', 'effect_nji', '_prepare4est', '_prepare_combined_treat', '_prepare_separate_treat', 'outcome_classes_')] + \
    [M + 'utils.' + f for f in ('get_wv', 'get_tr_ctrl', 'get_groups', 'convert4onehot', 'convert2array', 'cartesian', 'check_classes')] + [M + 'base_models.BaseEstModel.fit']
ASSUMPTIONS = ['scikit-learn estimators are arbitrary: a prediction is an arbitrary function of the feature row and of the call of fit; encoders, numpy and pandas operations by their documented contracts (vp/snp.py, vp/slearn.py)',
               'every treatment group has at least two rows; real arithmetic for floats']
BOUND = 'rows, features, values unbounded; 2 or 3 treatment values per column, at most 2 treatment columns, 1-2 outcomes, 3 outcome classes'

def setup(L):
    x = setup_est(L); x.m = L.load(M + 'meta_learner'); snp.MINROWS[0] = 2
    return x

def onehot(np, xcol, ls):
    """spec: indicator columns of the treatment values, in increasing order"""
    return np.concatenate([(xcol == l).astype('float') for l in ls], axis=1)
def unit(np, n, k, j):
    r = np.zeros((n, k)); r[:, j] = 1; return r
def vec(y): return y[:, 0] if y.shp[1] == 1 else y
def pick_target(x, d): return d

CONF = [(2, 1), (3, 1), (3, 2)]
def treats(d, k):
    """(treat argument, index, control argument, index)"""
    ls = d.levels['x0']
    return [(None, 1, None, 0), (ls[-1], k - 1, ls[0], 0), (PyList([ls[0]]), 0, PyList([ls[1]]), 1)]
def learner(x, cls, mode, d, **kw):
    """mode: values (regression), proba (class probabilities)"""
    C = getattr(x.m, cls)
    if mode == 'proba':
        if cls == 'XLearner': kw['final_proba_model'] = SModel()
        return C(SClassifier(classes=d.yl), is_discrete_outcome=True, proba_output=True, **kw)
    return C(SModel(), **kw)
def data(pre, k, ny, mode, **kw):
    yl = None
    if mode == 'proba':
        cs = [z3.Const('outcome_%d' % j, R) for j in range(3)]
        for a, b in zip(cs, cs[1:]): E.assume_global(a < b)
        yl = [SN(c) for c in cs]
    d = Data(pre, ny, k if isinstance(k, tuple) else (k,), ylevels=yl, **kw); d.yl = yl
    return d
def out(p, mode): return p.predict_proba if mode == 'proba' else p.predict
def group(np, d, j):
    """rows of the group whose treatment is the j-th value"""
    m = (d.arr('x') == d.levels['x0'][j])[:, 0]
    return d.wv(np)[m], vec(d.arr('y')[m])
def ind(np, y, yl): return onehot(np, y.reshape(-1, 1), yl)

def check(x, o, d, d2, spec, mode, sep, kw=None, y_d=None):
    """estimate: training data, new data, average, one class, again; effect_nji"""
    np = x.np; kw = kw or {}
    same('effect on the training data', o.estimate(**kw), spec(d.wv(np), None))
    w2 = d2.wv(np)
    same('effect on new data, after another estimate', o.estimate(data=d2.frame, **kw), spec(w2, None))
    for q in ('ATE', 'CATE'): same('average effect ' + q, o.estimate(quantity=q, data=d2.frame, **kw), np.mean(spec(w2, None), axis=0))
    if mode == 'proba':
        for c in (0, 1, 2):
            e = spec(w2, None)
            e = e[:, c] if e.ndim == 2 else e[:, c, :]
            r = o.estimate(data=d2.frame, target_outcome=d.yl[c], **kw)
            same('effect on the probability of class %d' % c, r.reshape(w2.shape[0], -1), e.reshape(w2.shape[0], -1))
    if not kw:
        e = spec(w2, None); n = w2.shape[0]; yd = 3 if mode == 'proba' else len(d.y)
        e = e.reshape(n, yd, -1)
        same('effect_nji', o.effect_nji(data=d2.frame), np.concatenate((np.zeros((n, yd, 1)), e), axis=2))

def s_run(x, k, ny, mode, sep):
    np = x.np; d = data('d', k, ny, mode); d2 = data('t', k, ny, mode, share=d)
    o = learner(x, 'SLearner', mode, d)
    X = np.concatenate([d.wv(np), onehot(np, d.arr('x'), d.levels['x0'])], axis=1)
    ta, t, ca, c = treats(d, k)[E.choose(3)] if not sep else treats(d, k)[0]
    r = o.fit(d.frame, PyList(d.y), PyList(d.x), adjustment=d.w, covariate=d.v, treat=ta, control=ca, combined_treatment=not sep)
    E.prove('fit returns the learner', z3.BoolVal(r is o))
    f = fits(); E.prove('one model fitted', z3.BoolVal(len(f) == 1))
    fitted_with('model', f[0], X, vec(d.arr('y')))
    p = predictor(f[0], mode)
    def at(w, j): return out(p, mode)(np.concatenate([w, unit(np, w.shape[0], k, j)], axis=1))
    def spec(w, _):
        if not sep: return at(w, t) - at(w, c)
        return np.stack([at(w, j).reshape(w.shape[0], -1) - at(w, 0).reshape(w.shape[0], -1) for j in range(1, k)], axis=2).squeeze()
    check(x, o, d, d2, spec, mode, sep)

def t_run(x, k, ny, mode, sep):
    np = x.np; d = data('d', k, ny, mode); d2 = data('t', k, ny, mode, share=d)
    o = learner(x, 'TLearner', mode, d)
    ta, t, ca, c = treats(d, k)[E.choose(3)] if not sep else treats(d, k)[0]
    r = o.fit(d.frame, PyList(d.y), PyList(d.x), adjustment=d.w, covariate=d.v, treat=ta, control=ca, combined_treatment=not sep)
    E.prove('fit returns the learner', z3.BoolVal(r is o))
    f = fits(); js = list(range(k)) if sep else [t, c]
    E.prove('one model per group', z3.BoolVal(len(f) == len(js)))
    P = {}
    for j, g in zip(js, f):
        X, y = group(np, d, j); fitted_with('model of group %d' % j, g, X, y); P[j] = predictor(g, mode)
    def at(w, j): return out(P[j], mode)(w)
    def spec(w, _):
        if not sep: return at(w, t) - at(w, c)
        return np.stack([at(w, j).reshape(w.shape[0], -1) - at(w, 0).reshape(w.shape[0], -1) for j in range(1, k)], axis=2).squeeze()
    check(x, o, d, d2, spec, mode, sep)

def x_run(x, k, ny, mode, sep, rho=None):
    np = x.np; d = data('d', k, ny, mode); d2 = data('t', k, ny, mode, share=d)
    o = learner(x, 'XLearner', mode, d)
    ta, t, ca, c = treats(d, k)[E.choose(3)] if not sep else treats(d, k)[0]
    r = o.fit(d.frame, PyList(d.y), PyList(d.x), adjustment=d.w, covariate=d.v, treat=ta, control=ca, combined_treatment=not sep)
    E.prove('fit returns the learner', z3.BoolVal(r is o))
    f = fits(); K = {}
    ts = list(range(1, k)) if sep else [t]
    E.prove('models fitted', z3.BoolVal(len(f) == (1 + 3 * (k - 1) if sep else 4)))
    X0, y0 = group(np, d, c)
    for q, j in enumerate(ts):
        # separate: the control model is fitted once, first
        ft, f0, kt, k0 = (f[1 + 3 * q], f[0], f[2 + 3 * q], f[3 + 3 * q]) if sep else f
        X1, y1 = group(np, d, j)
        fitted_with('outcome model of the treated', ft, X1, y1); fitted_with('outcome model of the control group', f0, X0, y0)
        pt, p0 = out(predictor(ft, mode), mode), out(predictor(f0, mode), mode)
        a, b = (ind(np, y1, d.yl), ind(np, y0, d.yl)) if mode == 'proba' else (y1, y0)
        fitted_with('effect model of the treated', kt, X1, a - p0(X1)); fitted_with('effect model of the control group', k0, X0, pt(X0) - b)
        K[j] = predictor(kt), predictor(k0)
    r_ = 0.5 if rho is None else rho
    def at(w, j): return r_ * K[j][0].predict(w) + (1 - r_) * K[j][1].predict(w)
    def spec(w, _):
        if not sep: return at(w, t)
        return np.stack([at(w, j).reshape(w.shape[0], -1) for j in range(1, k)], axis=2).squeeze()
    check(x, o, d, d2, spec, mode, sep, kw=None if rho is None else {'rho': rho})

def refit(x, cls, sep):
    """a second fit on data with other treatment values equals a first fit"""
    np = x.np; d = data('d', 3, 1, 'values'); d0 = data('z', 3, 1, 'values', lv='old', blocks=d); d2 = data('t', 3, 1, 'values', share=d)
    ls = d.levels['x0']; old = d0.levels['x0']
    def fit(o, d, ls): return o.fit(d.frame, PyList(d.y), PyList(d.x), adjustment=d.w, covariate=d.v, treat=ls[2], control=ls[0], combined_treatment=not sep)
    o = learner(x, cls, 'values', d); fit(o, d0, old); o.estimate(); o.estimate(data=d2.frame); n0 = len(fits()); fit(o, d, ls)
    fr = learner(x, cls, 'values', d); n1 = len(fits()); fit(fr, d, ls)
    F = fits(); a, b = F[n0:n1], F[n1:]
    E.prove('as many models as a fresh fit', z3.BoolVal(len(a) == len(b)))
    if cls == 'XLearner': return
    for i, (u, v) in enumerate(zip(a, b)): fitted_with('model %d as in a fresh fit' % i, u, v.X, v.y)

def mk(fn, *a):
    return lambda x: fn(x, *a)
HARNESS = {}
for sep in (False, True):
    for cls, fn in (('SLearner', s_run), ('TLearner', t_run), ('XLearner', x_run)):
        for k, ny, mode in [(2, 1, 'values'), (3, 1, 'values'), (3, 2, 'values'), (3, 1, 'proba')]:
            HARNESS['%s %s treat, %d values, %d outcome(s), %s' % (cls, 'separate' if sep else 'combined', k, ny, mode)] = mk(fn, k, ny, mode, sep)
        HARNESS['%s %s treat, refit' % (cls, 'separate' if sep else 'combined')] = mk(refit, cls, sep)
    HARNESS['XLearner %s treat, rho' % ('separate' if sep else 'combined')] = lambda x, sep=sep: x_run(x, 3, 1, 'values', sep, val(z3.Const('rho', R)))

def multi(x, cls):
    """two treatment columns combined into one"""
    np = x.np; d = Data('d', 1, (2, 2)); d2 = Data('t', 1, (2, 2), share=d)
    o = learner(x, cls, 'values', d); a, b = d.levels['x0'], d.levels['x1']
    combos = [(i, j) for i in range(2) for j in range(2)]
    ta, t, ca, c = [(PyList([a[1], b[1]]), 3, PyList([a[0], b[0]]), 0), (PyList([a[0], b[1]]), 1, PyList([a[1], b[0]]), 2)][E.choose(2)]
    X = d.arr('x')
    for q, (i, j) in enumerate(combos):       # every combination occurs
        r = z3.Const('row_%d' % q, I); E.assume_global(z3.And(r >= 0, r < ti(d.n), X.at((r, 0)) == a[i].t, X.at((r, 1)) == b[j].t))
    o.fit(d.frame, PyList(d.y), PyList(d.x), adjustment=d.w, covariate=d.v, treat=ta, control=ca)
    f = fits(); w2 = d2.wv(np)
    def ing(q): i, j = combos[q]; return np.logical_and(X[:, 0] == a[i], X[:, 1] == b[j])
    if cls == 'SLearner':
        E.prove('one model fitted', z3.BoolVal(len(f) == 1))
        oh = np.concatenate([ing(q).reshape(-1, 1).astype('float') for q in range(4)], axis=1)
        fitted_with('model', f[0], np.concatenate([d.wv(np), oh], axis=1), vec(d.arr('y')))
        p = predictor(f[0])
        def at(q): return p.predict(np.concatenate([w2, unit(np, w2.shape[0], 4, q)], axis=1))
        same('effect', o.estimate(data=d2.frame), at(t) - at(c))
    else:
        E.prove('models fitted', z3.BoolVal(len(f) == (2 if cls == 'TLearner' else 4)))
        for q, g in ((t, f[0]), (c, f[1])):
            m = ing(q); fitted_with('model of the group', g, d.wv(np)[m], vec(d.arr('y')[m]))
        if cls == 'TLearner': same('effect', o.estimate(data=d2.frame), predictor(f[0]).predict(w2) - predictor(f[1]).predict(w2))
        else:
            mt, mc = ing(t), ing(c); wv, y = d.wv(np), vec(d.arr('y'))
            fitted_with('effect model of the treated', f[2], wv[mt], y[mt] - predictor(f[1]).predict(wv[mt]))
            fitted_with('effect model of the control group', f[3], wv[mc], predictor(f[0]).predict(wv[mc]) - y[mc])
            same('effect', o.estimate(data=d2.frame), 0.5 * predictor(f[2]).predict(w2) + 0.5 * predictor(f[3]).predict(w2))
for cls in ('SLearner', 'TLearner', 'XLearner'): HARNESS['%s two treatment columns' % cls] = mk(multi, cls)
