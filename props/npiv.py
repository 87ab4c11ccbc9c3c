"""Nonparametric two-stage least squares (iv.py): both stages, effects, counterfactuals, refitting."""
import itertools
from .meta_learners import *
N = M + 'iv.NP2SLS.'
FUNCTIONS = [N + f for f in ('__init__', 'fit', 'estimate', 'effect_nji', '_prepare4est', '_check_data', 'get_basis_func', '_poly_basis_func')] + \
    [M + 'utils.' + f for f in ('get_wv', 'convert2array', 'cartesian', 'nd_kron')] + [M + 'base_models.BaseEstModel.fit']
ASSUMPTIONS = ['scikit-learn estimators are arbitrary: a prediction is an arbitrary function of the feature row and of the call of fit',
               'PolynomialFeatures lists the products of its columns by its documentation; encoders, numpy and pandas operations by their documented contracts (vp/snp.py, vp/slearn.py)',
               'real arithmetic for floats']
BOUND = 'rows, adjustment features and values unbounded; 0-2 covariates, 1-2 instruments, 1-2 treatments with any or 2-3 values, 1-2 outcomes, polynomial bases of degree 1-2 or an arbitrary basis of 2 functions'

def setup(L):
    x = setup_est(L); x.m = L.load(M + 'iv'); snp.MINROWS[0] = 2; snp.LEAD[0] = True
    return x

BASE = z3.Function('basis', I, I, snp.RowS, R)
class Basis:
    """an arbitrary tuple of k functions of the row, fixed by the call of fit"""
    k = 2; log = []
    def __init__(self, id): self.id = id; self.m = None
    def __deepcopy__(self, memo):
        b = type(self)(self.id); b.m = self.m; return b
    def fit(self, X, y=None):
        if X is None: e = ValueError('Expected 2D array'); e._modelled = True; raise e
        Basis.log.append((self.id, SArr(X.shp, X.snap(), X.kind), type(self))); pyfac.vsetattr(self, 'm', len(Basis.log) - 1); return self
    def transform(self, X):
        if self.m is None: raise slearn.NotFitted('This basis is not fitted yet')
        p, q = X.shp[1], Basis.log[self.m][1].shp[1]
        if not snp.deq(p, q): e = ValueError('X has a different number of features than the basis was fitted with'); e._modelled = True; raise e
        f = X.snap()
        return SArr((X.shp[0], self.k), lambda ix: BASE(z3.IntVal(self.m), ti(ix[1]), snp.lam_(X.shp[1], lambda j: snp.row(f, X.shp[1], ix[0], j))), 'f')
    def fit_transform(self, X, y=None): return self.fit(X).transform(X)
class One(Basis):
    k = 1
class IV(Data):
    """a data frame with instruments"""
    def __init__(self, pre, ny, levels, xcont, nv, nz, zlevels=None, w=True, share=None, blocks=None, lv='level'):
        Data.__init__(self, pre, ny, levels, wv=(('w',) if w else ()) + (('v',) if nv else ()), xcont=xcont, vfix=nv or None, share=share, blocks=blocks, lv=lv)
        self.z = []; self.zl = None
        if zlevels: self.zl = share.zl if share is not None else [SN(z3.Const('iv_' + lv + '_%d' % j, R)) for j in range(zlevels)]
        if zlevels and share is None:
            for a, b in zip(self.zl, self.zl[1:]): E.assume_global(a.t < b.t)
        for i in range(nz):
            c = column(pre, 'z%d' % i, self.n, 'f', self.zl if zlevels else None)
            if zlevels and share is None: occur(c, self.n)
            self.frame.cols[c.name] = c; self.z.append(c.name)

def kron(np, a, b):
    """spec: all products of a column of a with a column of b"""
    if b is None: return a
    return np.concatenate([a[:, i].reshape(-1, 1) * b for i in range(a.shp[1])], axis=1)
def rows(np, n, main, w):
    return np.concatenate([p for p in (main, w, np.ones((n, 1))) if p is not None], axis=1)
def codes(np, xcol, ls):
    r = np.zeros(xcol.shape) + float(len(ls) - 1)          # every cell is one of ls
    for j in range(len(ls) - 2, -1, -1): r = np.where(xcol == ls[j], float(j), r)
    return r

class Flat(SModel):
    """an estimator that predicts a flat array for a single target column"""
    def predict(self, X):
        r = SModel.predict(self, X)
        return r[:, 0] if r.ndim == 2 and isinstance(r.shp[1], int) and r.shp[1] == 1 else r

class Case:
    def __init__(s, x, kind, k, ny, nv, nz=1, zlevels=None, w=True, basis=2, flat=False):
        s.flat = flat; s.x, s.kind, s.k, s.ny, s.nv, s.nz, s.zlevels, s.w, s.basis = x, kind, k, ny, nv, nz, zlevels, w, basis
        s.disc = kind == 'discrete'; s.lv = tuple(k) if s.disc else (); s.p = len(k) if s.disc else k
    def data(s, pre, **kw): return IV(pre, s.ny, s.lv, 0 if s.disc else s.k, s.nv, s.nz, s.zlevels, s.w, **kw)
    def new(s): return s.x.m.NP2SLS(x_model=Flat() if s.flat else SModel(), y_model=Flat() if s.flat else SModel(), is_discrete_treatment=s.disc)
    def fit(s, o, d):
        kw = {}; s.from_ = len(Basis.log)
        if s.basis in ('any', 'one'): s.objs = [(One if s.basis == 'one' else Basis)(i) for i in range(3)]; kw = dict(treatment_basis=s.objs[0], instrument_basis=s.objs[1], covar_basis=s.objs[2])
        elif s.basis != 2: kw = dict(treatment_basis=('Poly', s.basis), instrument_basis=('Poly', s.basis), covar_basis=('Poly', s.basis))
        r = o.fit(d.frame, PyList(d.y), PyList(d.x), PyList(d.z), is_discrete_instrument=bool(s.zlevels), adjustment=d.w, covariate=d.v, **kw)
        s.upto = len(Basis.log); return r
    def base(s, which, a):
        if a is None: return None
        if s.basis in ('any', 'one'):
            # the function fixed by the fit of the estimator
            ks = [k for k, e in enumerate(Basis.log[:s.upto]) if e[0] == which]
            if not ks: E.prove('basis %d is fitted' % which, z3.BoolVal(False)); return a
            b = Basis.log[ks[-1]][2](which); b.m = ks[-1]; return b.transform(a)
        return slearn.PolynomialFeatures(s.basis).fit_transform(a)
    def enc(s, d, a=None):
        """treatments as numbers: codes of discrete treatments"""
        a = d.arr('x') if a is None else a; np = s.x.np
        if not s.disc: return a
        return np.concatenate([codes(np, a[:, i].reshape(-1, 1), d.levels['x%d' % i]) for i in range(s.p)], axis=1)
    def coded(s, d):
        np = s.x.np; z = d.arr('z')
        return np.concatenate([onehot(np, z[:, i].reshape(-1, 1), d.zl) for i in range(s.nz)], axis=1) if s.zlevels else z
    def stages(s, d):
        """spec of both regressions: [(features, target), ...] with the first-stage predictions as a function of the first fit"""
        np = s.x.np; n = d.arr('y').shape[0]; z = s.coded(d)
        v = s.base(2, d.arr('v')); w = d.arr('w')
        X1 = rows(np, n, kron(np, s.base(1, z), v), w); T1 = s.base(0, s.enc(d))
        return X1, T1, (lambda xh: rows(np, n, kron(np, xh, v), w)), d.arr('y')
    def outcome(s, o, d, t):
        """spec: what the second regression predicts on d under (encoded) treatments t, one row for each row of d"""
        np = s.x.np; n = d.arr('y').shape[0]
        return o.y_model.predict(rows(np, n, kron(np, s.base(0, t), s.base(2, d.arr('v'))), d.arr('w')))
    def const(s, d, vals):
        np = s.x.np; n = d.arr('y').shape[0]
        return np.concatenate([np.zeros((n, 1)) + v for v in vals], axis=1)
    def check_fit(s, d, f):
        E.prove('two regressions', z3.BoolVal(len(f) == 2))
        X1, T1, X2, y = s.stages(d)
        if s.basis in ('any', 'one'):
            for which, nm, a in ((0, 'treatment', s.enc(d)), (1, 'instrument', s.coded(d)), (2, 'covariate', d.arr('v'))):
                fs = [e for e in Basis.log[s.from_:] if e[0] == which]
                E.prove('one fit of the %s basis' % nm, z3.BoolVal(len(fs) == (a is not None)))
                if fs and a is not None: same('%s basis fitted on the training data' % nm, fs[0][1], a)
        fitted_with('first stage: treatment functions on products of instrument and covariate functions, adjustment, constant', f[0], X1, T1)
        fitted_with('second stage: outcome on products of predicted treatment functions and covariate functions, adjustment, constant', f[1], X2(predictor(f[0]).predict(X1)), y)

def cov_none(s): return s.nv == 0
def run(x, what, kind, k, ny, nv, **kw):
    Basis.log = []; np = x.np; s = Case(x, kind, k, ny, nv, **kw)
    d = s.data('d'); d2 = s.data('t', share=d)
    o = s.new(); r = s.fit(o, d); E.prove('fit returns the estimator', z3.BoolVal(r is o))
    if what == 'fit':
        s.check_fit(d, fits())
        if s.basis in ('any', 'one'): E.prove('given basis objects are not fitted themselves', z3.BoolVal(all(b.m is None for b in s.objs)))
        return
    Y = lambda dd, t: s.outcome(o, dd, t); C = lambda dd, vals: s.const(dd, vals)
    p = s.p
    one = lambda dd: Y(dd, C(dd, [1.] * p)) - Y(dd, C(dd, [0.] * p))
    if what == 'effect':
        same('effect of the default treatments, training data', o.estimate(), one(d))
        same('effect of the default treatments, new data', o.estimate(data=d2.frame), one(d2))
        same('average effect', o.estimate(data=d2.frame, quantity='ATE'), np.mean(one(d2), axis=0))
        if nv: same('average conditional effect', o.estimate(quantity='CATE'), np.mean(one(d), axis=0))
        same('predicted outcome under the recorded treatments, new data', o.estimate(data=d2.frame, quantity='CF'), Y(d2, s.enc(d2)))
        same('predicted outcome under the recorded treatments, training data', o.estimate(quantity='CF'), Y(d, s.enc(d)))
        return
    if what == 'given':
        if s.disc:
            ls = [d.levels['x%d' % i] for i in range(p)]; t = [len(l) - 1 for l in ls]; c = [E.choose(len(l)) for l in ls]
            tv, cv = [l[j] for l, j in zip(ls, t)], [l[j] for l, j in zip(ls, c)]
            te, ce = [float(j) for j in t], [float(j) for j in c]
        else:
            tv = [val(z3.Const('treat%d' % i, R)) for i in range(p)]; cv = [val(z3.Const('control%d' % i, R)) for i in range(p)]; te, ce = tv, cv
        arg = lambda v: v[0] if p == 1 else PyList(v)
        want = lambda dd, a, b: Y(dd, C(dd, a)) - Y(dd, C(dd, b))
        same('effect of given treatments, new data', o.estimate(data=d2.frame, treat=arg(tv), control=arg(cv)), want(d2, te, ce))
        same('effect of given treatments, training data', o.estimate(treat=arg(tv), control=arg(cv)), want(d, te, ce))
        same('treatment given, default control', o.estimate(data=d2.frame, treat=arg(tv)), want(d2, te, [0.] * p))
        same('control given, default treatment', o.estimate(data=d2.frame, control=arg(cv)), want(d2, [1.] * p, ce))
        T = d2.arr('x')
        same('treatments given row by row', o.estimate(data=d2.frame, treat=T, control=arg(cv)), Y(d2, s.enc(d2, T)) - Y(d2, C(d2, ce)))
        same('controls given row by row', o.estimate(data=d2.frame, treat=arg(tv), control=T), Y(d2, C(d2, te)) - Y(d2, s.enc(d2, T)))
        if not s.disc: same('average effect of given treatments', o.estimate(data=d2.frame, treat=arg(tv), control=arg(cv), quantity='ATE'), np.mean(want(d2, te, ce), axis=0))
        return
    if what == 'nji':
        if s.disc:
            cs = list(itertools.product(*[range(len(d.levels['x%d' % i])) for i in range(p)])) if p > 1 else [(j,) for j in range(s.lv[0])]
            base = lambda dd: Y(dd, C(dd, [0.] * p))
            def spec(dd): return np.stack([(Y(dd, C(dd, [float(j) for j in c])) - base(dd)).reshape(-1, ny) for c in cs], axis=2)
        else:
            def spec(dd): return np.stack([Y(dd, C(dd, [0.] * p)).reshape(-1, ny) * 0, one(dd).reshape(-1, ny)], axis=2)
        same('effect_nji, new data', o.effect_nji(data=d2.frame), spec(d2))
        same('effect_nji, training data', o.effect_nji(), spec(d))
        return
    if what == 'refit':
        # the first fit uses covariates and an adjustment set, whether or not the second does
        d0 = IV('z', s.ny, s.lv, 0 if s.disc else s.k, max(s.nv, 1), s.nz, s.zlevels, True, lv='old', blocks=d if s.w else None)
        o = s.new(); s.fit(o, d0); o.estimate(); n0 = len(fits()); s.fit(o, d); s.check_fit(d, fits()[n0:])
        same('effects on the training data after a second fit', o.estimate(), s.outcome(o, d, s.const(d, [1.] * p)) - s.outcome(o, d, s.const(d, [0.] * p)))
        same('effects after a second fit', o.estimate(data=d2.frame), s.outcome(o, d2, s.const(d2, [1.] * p)) - s.outcome(o, d2, s.const(d2, [0.] * p)))
        return
def h_requires(x):
    """no instrument, or no basis at all: refused"""
    s = Case(x, 'continuous', 1, 1, 1); d = s.data('d'); o = s.new()
    for nm, kw in (('no instrument', dict(instrument=None)), ('no basis', dict(instrument=PyList(d.z), treatment_basis=None, instrument_basis=None, covar_basis=None))):
        try: o.fit(d.frame, PyList(d.y), PyList(d.x), adjustment=d.w, covariate=d.v, **kw); ok = False
        except (AssertionError, ValueError): ok = True
        E.prove(nm + ': refused', z3.BoolVal(ok))
    try: o.estimate(); ok = False
    except Unsupported: raise
    except Exception: ok = True
    E.prove('not fitted: no estimate', z3.BoolVal(ok))
HARNESS = {'requires': h_requires}
CASES = [('continuous', 1, 1, 1, {}), ('continuous', 2, 1, 1, dict(nz=2)), ('continuous', 1, 2, 2, dict(basis=1)), ('continuous', 1, 1, 0, {}), ('continuous', 1, 1, 1, dict(w=False, zlevels=3)),
         ('continuous', 1, 1, 0, dict(w=False)), ('continuous', 2, 2, 1, dict(basis='any', nz=2)),
         ('discrete', (2,), 1, 1, {}), ('discrete', (3,), 1, 2, {}), ('discrete', (3,), 2, 0, dict(zlevels=2)), ('discrete', (2, 3), 1, 1, {}), ('discrete', (2, 2), 2, 1, dict(basis='any')), ('discrete', (3,), 1, 1, dict(basis=1, zlevels=2, nz=2)),
         ('continuous', 1, 1, 1, dict(basis='one', flat=True)), ('discrete', (3,), 1, 0, dict(flat=True, w=False)), ('discrete', (2, 2), 1, 1, dict(basis='one', flat=True))]
for kind, k, ny, nv, kw in CASES:
    for what in ('fit', 'effect', 'given', 'nji', 'refit'):
        nm = '%s: %s, %s, %d outcome(s), %d covariate(s)%s' % (what, kind, 'x'.join(map(str, k)) if isinstance(k, tuple) else k, ny, nv, ''.join(', %s %s' % (a, b) for a, b in kw.items()))
        HARNESS[nm] = (lambda what, kind, k, ny, nv, kw: (lambda x: run(x, what, kind, k, ny, nv, **kw)))(what, kind, k, ny, nv, kw)
