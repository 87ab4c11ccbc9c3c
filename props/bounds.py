from .double_ml import *
FUNCTIONS = [M + 'approximation_bound.ApproxBound.' + f for f in ('__init__', 'fit', 'estimate', 'comp_transormer', '_prepare4est')] + \
    [M + 'utils.' + f for f in ('get_wv', 'get_tr_ctrl', 'get_groups', 'convert4onehot', 'convert2array', 'cartesian')] + [M + 'base_models.BaseEstModel.fit']
BOUND = 'rows, features, values unbounded; one treatment of 2-3 values (or two of 2), one outcome'
def setup(L):
    x = setup_est(L); x.m = L.load(M + 'approximation_bound'); snp.MINROWS[0] = 2
    return x
def labels(d):
    """treatment values of the groups, and the group of each row"""
    import itertools
    xs = list(d.levels)
    return list(itertools.product(*[d.levels[c] for c in xs]))
def member(d, q):
    a = d.arr('x'); m = None
    for i, l in enumerate(q): e = a[:, i] == l; m = e if m is None else m & e
    return m
def run(x, lv, cov, prob, what):
    np = x.np
    wv = ('v',) if cov else ()
    d = Data('d', 1, lv, wv=wv); d2 = Data('t', 1, lv, wv=wv, share=d)
    K = labels(d); k = len(K)
    for q in K:
        for dd in (d, d2): E.assume_global(tob(np.any(member(dd, q))))
    def lab(q): return q[0] if len(q) == 1 else PyList(list(q))
    t, c, ta, ca = [(1, 0, None, None), (k - 1, 1, lab(K[k - 1]), lab(K[1])), (0, k - 1, lab(K[0]), lab(K[k - 1]))][E.choose(3)]
    if t == c: return
    p = None
    if prob: p = np.array(PyList([SN(z3.Const('given_%d' % i, R)) for i in range(k)]))
    o = x.m.ApproxBound(SModel(), x_prob=p, x_model=SClassifier(classes=range(k)) if cov and not prob else None)
    r = o.fit(d.frame, PyList(d.y), PyList(d.x), covariate=d.v)
    E.prove('fit returns the estimator', z3.BoolVal(r is o))
    f = fits(); n = d.arr('x').shape[0]; y = d.arr('y')
    T = np.concatenate([member(d, q).astype('float').reshape(-1, 1) for q in K], axis=1)
    code = sum((j * T[:, j] for j in range(k)), np.zeros(n))
    X = np.concatenate([T, d.arr('v')], axis=1) if cov else T
    E.prove('number of fits', z3.BoolVal(len(f) == 1 + (cov and not prob)))
    fitted_with('outcome model', f[-1], X, vec(y)); g = predictor(f[-1])
    if cov and not prob: fitted_with('treatment model', f[0], d.arr('v'), code)
    if not cov and not prob:
        for i in range(k): same('probability of treatment %d' % i, o.x_prob[0, i], np.sum(member(d, K[i])) / n)
    def one(data, dd, yu, yl, assump):
        m = dd.arr('x').shape[0] if cov else 1
        v = dd.arr('v') if cov else None
        def p_(i):
            if prob: return p[i]
            if cov: return predictor(f[0], 'proba').predict_proba(v)[:, i]
            return o.x_prob[0, i]
        def y_(i):
            u = unit(np, m, k, i)
            return g.predict(np.concatenate([u, v], axis=1) if cov else u)
        if yu is None:
            Y = dd.arr('y'); a, b = Y[member(dd, K[t])], Y[member(dd, K[c])]
            u = np.maximum(np.max(a, axis=0), np.max(b, axis=0))[0]; l = np.minimum(np.min(a, axis=0), np.min(b, axis=0))[0]
        else: u, l = yu, yl
        pt, pc, yt, yc = p_(t), p_(c), y_(t), y_(c)
        up = pt * yt + (1 - pt) * u - (pc * yc + (1 - pc) * l)
        lo = pt * yt + (1 - pt) * l - (pc * yc + (1 - pc) * u)
        kw = dict(data=data, treat=ta, control=ca, assump=assump)
        if yu is not None: kw.update(y_upper=yu, y_lower=yl)
        r = o.estimate(**kw); z = np.zeros((m,))
        if assump == 'optimal':
            # two treatment values: the rows not treated are the control rows
            (u1, l1), (u2, l2) = r
            pi = pt; w = lambda e: e if cov or not prob else e
            same('optimal selection: upper bound', u1, pt * yt - (1 - pc) * l + (1 - pt - pc) * u)
            same('optimal selection: lower bound', l1, pc * l - pc * yc)
            same('optimal selection: second upper bound', u2, yt - pt * l - pc * yc)
            same('optimal selection: second lower bound', l2, pt * yt + pc * l - yc)
            return
        el, eu = {'non-negative': (z, up), 'non-positive': (lo, z)}.get(assump, (lo, up))
        same('lower bound', r[0], el); same('upper bound', r[1], eu)
    U, L_ = SN(z3.Const('y_up', R)), SN(z3.Const('y_lo', R))
    for data, dd in ((None, d), (d2.frame, d2)):
        if what == 'default': one(data, dd, None, None, None)
        else:
            for a in (None, 'no-assump', 'non-negative', 'non-positive') + (('optimal',) if k == 2 else ()): one(data, dd, U, L_, a)
def meaning(x):
    """what the formulas mean: within [l, u] for the unseen outcomes, the effect is within the bounds; the width; zero is inside"""
    pt, pc, yt, yc, u, l, a, b = [z3.Const(n, R) for n in 'pt pc yt yc u l a b'.split()]
    up = pt * yt + (1 - pt) * u - (pc * yc + (1 - pc) * l); lo = pt * yt + (1 - pt) * l - (pc * yc + (1 - pc) * u)
    pre = z3.And(pt >= 0, pt <= 1, pc >= 0, pc <= 1, l <= u)
    e = pt * yt + (1 - pt) * a - (pc * yc + (1 - pc) * b)
    E.prove('the effect lies between the bounds', z3.Implies(z3.And(pre, a >= l, a <= u, b >= l, b <= u), z3.And(lo <= e, e <= up)))
    E.prove('width', up - lo == (2 - pt - pc) * (u - l))
    E.prove('zero is inside', z3.Implies(z3.And(pre, pt + pc <= 1, l <= yt, yt <= u, l <= yc, yc <= u), z3.And(lo <= 0, 0 <= up)))
def refit(x, cov):
    np = x.np; wv = ('v',) if cov else (); d = Data('d', 1, (3,), wv=wv); d0 = Data('z', 1, (3,), wv=wv, lv='old', blocks=d); ls = d.levels['x0']
    U, L_ = SN(z3.Const('y_up', R)), SN(z3.Const('y_lo', R))
    def new(): return x.m.ApproxBound(SModel(), x_model=SClassifier(classes=range(3)) if cov else None)
    def fit(o, d): return o.fit(d.frame, PyList(d.y), PyList(d.x), covariate=d.v)
    o = new(); fit(o, d0); n0 = len(fits()); fit(o, d); n1 = len(fits()); o2 = new(); fit(o2, d)
    a, b = fits()[n0:n1], fits()[n1:]
    E.prove('as many models as a fresh fit', z3.BoolVal(len(a) == len(b)))
    for i, (u, v) in enumerate(zip(a, b)): fitted_with('model %d as in a fresh fit' % i, u, v.X, v.y)
    if not cov: same('probabilities as in a fresh fit', o.x_prob, o2.x_prob)
    else: same('probabilities', o.x_prob, predictor(a[0], 'proba').predict_proba(d.arr('v')))
HARNESS = {'meaning of the bounds': mk(meaning)}; THOROUGH = {}
for lv in ((2,), (3,), (2, 2)):
    for cov in (True, False):
        for prob in (False, True):
            if lv == (2, 2) and not cov and not prob: continue      # beyond the verifier: left to the bounded cross-check
            for what in ('default', 'given'):
                HARNESS['%s values, %s, %s, %s outcome range' % ('x'.join(map(str, lv)), 'covariates' if cov else 'no covariate', 'given probabilities' if prob else 'estimated probabilities', what)] = mk(run, lv, cov, prob, what)
for cov in (True, False): HARNESS['refit, %s' % ('covariates' if cov else 'no covariate')] = mk(refit, cov)
