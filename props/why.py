"""The Why interface: what is fitted, and which effects are reported for which question."""
import z3, types, itertools
from vp.core import *
from vp.core import E, eq, tob, term, val
from vp import snp, coll, pyfac, libs, tables
from vp.tables import WFrame, WSeries, WCol, WIndex, Table, frame, Row
from vp.snp import SArr, nx, ti
from vp.coll import PyList, PyDict, subst
from .ecommon import same
NUMERIC = True
LEVEL = 'proof'
W = 'ylearn.api._why.Why.'
FUNCTIONS = [W + n for n in 'fit identify causal_effect _causal_effect_discrete _causal_effect_continuous individual_causal_effect _individual_causal_effect_discrete _individual_causal_effect_continuous whatif _whatif_discrete _whatif_continuous score _score_auuc_qini _score_rloss uplift_model policy_interpreter _effect_array _map_effect _permute_treat_control_combined _permute_treat_control_sequential _preprocess _get_estimator _transform_outcome _create_scorers'.split()] + \
    ['ylearn.api.utils.' + n for n in 'safe_remove align_task_to_first select_by_task cost_effect cost_effect_array safe_treat_control safe_treat_control_list select_by_treat_control transform_treat_control encode_treat_control'.split()] + ['ylearn.api._identifier.DefaultIdentifier.identify_aci', 'ylearn.api._identifier.DefaultIdentifier.identify_treatment', 'ylearn.api._identifier.IdentifierWithDiscovery.identify_treatment', W + '_create_estimator', W + '_get_default_treatment_count_limit']
ASSUMPTIONS = ['an estimator is known through fit, estimate and effect_nji only: its effects are an arbitrary function of the row of the data it is asked about, the treat and control values and the target outcome',
               'the preprocessor transforms each column by a function of its cells that is fixed by fit, and returns the columns in any order',
               'LabelEncoder: classes sorted, codes are positions among them, unseen labels rejected', 'row labels of the data frames are distinct',
               'the label of a result row is a function of the values printed in it; treat values are not printed as _x_ or _y_']
BOUND = '1 or 2 treatments with 2 or 3 values, outcomes with 3 classes, 1 adjustment, 2 covariates and 1 instrument; any number of rows and any cell values'
NAN = z3.Const('nan', R)
UTILS = {}

# ------------------------------------------------------------------ collaborators
def unseen():
    e = ValueError('y contains previously unseen labels'); e._modelled = True; raise e
class LabelEncoder:
    def fit(self, y):
        if not isinstance(y, WSeries) or y.levels is None: raise Unsupported('encoding a general column')
        pyfac.vsetattr(self, 'levels', list(y.levels)); pyfac.vsetattr(self, 'classes_', snp.array(PyList(list(y.levels)))); return self
    def fit_transform(self, y): return self.fit(y).transform(y)
    def _code(self, v):
        for i, l in enumerate(self.levels):
            if E.fork(tob(eq(v, l))): return i
        unseen()
    def transform(self, y):
        if not hasattr(self, 'levels'): raise Unsupported('encoder is not fitted')
        if isinstance(y, (WSeries, SArr)) and not (isinstance(y, SArr) and y.conc()):
            a = y.a if isinstance(y, WSeries) else y; f = a.snap(); i = z3.Const('en?', I)
            known = z3.Or([f((i,)) == term(l) for l in self.levels])
            if not E.fork(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ti(a.shp[0])), known))): unseen()
            def fn(ix):
                r = z3.IntVal(len(self.levels) - 1); v = f(ix)
                for k in range(len(self.levels) - 2, -1, -1): r = z3.If(v == term(self.levels[k]), z3.IntVal(k), r)
                return r
            return SArr(a.shp, fn, 'i', cats=[list(range(len(self.levels)))])
        return snp.array(PyList([self._code(v) for v in (y if not isinstance(y, SArr) else [val(y.at((i,))) for i in range(y.shp[0])])]))
    def inverse_transform(self, y):
        out = []
        for v in y:
            if isinstance(v, SN):
                for k in range(len(self.levels)):
                    if E.fork(v.t == k): v = k; break
                else: unseen()
            if not 0 <= v < len(self.levels): unseen()
            out.append(self.levels[v])
        return snp.array(PyList(out))

class Prep:
    """the general preprocessor: a function of the cells of each column, fixed by fit"""
    made = []
    def __init__(self): self.fitted = None; Prep.made.append(self); self.id = len(Prep.made)
    def fn(self, c): return z3.Function('PRE%d_%s' % (self.id, c), R, R)
    def fit_transform(self, X, y=None): self.fit(X, y); return self.transform(X)
    def fit(self, X, y=None): pyfac.vsetattr(self, 'fitted', X.copy()); pyfac.vsetattr(self, 'y', y); return self
    def transform(self, X):
        if self.fitted is None: raise Unsupported('preprocessor is not fitted')
        if set(X.cols) != set(self.fitted.cols):
            e = ValueError('columns are not those of fit'); e._modelled = True; raise e
        out = []
        for c in list(self.fitted.cols)[::-1]:
            out.append((c, WCol(SArr(X.cols[c].a.shp, (lambda f, g: (lambda ix: f(snp.real(g(ix)))))(self.fn(c), X.cols[c].a.snap()), 'f'))))
        return WFrame(X.index, out)

def real_(v): t = term(v); return z3.ToReal(t) if z3.is_int(t) else t
class BaseEstModel: pass
def norm(v, k):
    """a treat or control value: one per treatment"""
    if v is None: return None
    if isinstance(v, (WSeries, WFrame)): v = v.values
    if isinstance(v, SArr):
        if v.ndim == 0: v = v.item()
        elif k == 1 and v.ndim == 2 and not isinstance(v.shp[0], int): return [v.squeeze(1)]
        elif k == 1 and not isinstance(v.shp[0], int): return [v]
        else: v = [val(v.at((i,))) for i in range(v.shp[0])]
    if not isinstance(v, (list, tuple)): v = [v]
    v = list(v)
    E.prove('one value for each treatment of the estimator', len(v) == k)
    return v
class Est(BaseEstModel):
    """records fits; effects are an uninterpreted function of what is asked"""
    def __init__(self, ny=1, nji='all', discrete=True): self.fits = []; self.ny = ny; self.nji = nji; self.is_discrete_treatment = discrete; self._is_fitted = False; self.orig = None
    def __deepcopy__(self, memo): c = type(self)(self.ny, self.nji, self.is_discrete_treatment); c.orig = self.orig or self; c.fits = list(self.fits); return c
    def fit(self, data, outcome, treatment, adjustment=None, covariate=None, instrument=None, **kw):
        if isinstance(treatment, str): self.key = treatment; self.k = 1
        else: self.key = tuple(treatment); self.k = len(self.key)
        self.used = sorted(list(adjustment or []) + list(covariate or []) + list(instrument or []))
        self.fits.append(dict(data=data.copy(), outcome=outcome, treatment=treatment, adjustment=adjustment, covariate=covariate, instrument=instrument, kw=kw))
        self.train = self.fits[-1]['data']; self._is_fitted = True; return self
    def fun(self, nm, *sorts): return z3.Function('%s %s' % (nm, self.key if isinstance(self.key, str) else '*'.join(self.key)), *sorts)
    def rows(self, data):
        if data is None: data = self.train
        cols = []
        for c in self.used:
            if c not in data.cols:
                e = KeyError(c); e._modelled = True; raise e
            cols.append(data.cols[c].a.snap())
        return data, cols
    def value(self, cells, t, c, yo):
        f = self.fun('EFFECT', *[R] * (len(cells) + 2 * self.k), I, R)
        return f(*cells, *t, *c, z3.IntVal(-1) if yo is None else term(yo))
    def estimate(self, data=None, treat=None, control=None, target_outcome=None, **kw):
        d, cols = self.rows(data); n = d.index.n
        one = lambda v, dflt: [z3.RealVal(dflt)] * self.k if v is None else norm(v, self.k)
        t, c = one(treat, 1), one(control, 0)
        for v in list(t) + list(c):
            if isinstance(v, SArr) and not snp.deq(v.shp[0], n): raise ValueError('operands could not be broadcast together')
        if self.is_discrete_treatment and treat is None: raise Unsupported('default treat')
        def at(v, i): return real_(val(v.at((i,)))) if isinstance(v, SArr) else real_(v)
        yo = None if target_outcome is None else target_outcome
        r = SArr((n, 1), lambda ix: self.value([snp.real(g((ix[0],))) for g in cols], [at(v, ix[0]) for v in t], [at(v, ix[0]) for v in c], yo), 'f')
        return r
    def _nji(self, data, control, target_outcome, treat_only=False):
        d, cols = self.rows(data); n = d.index.n
        c = [z3.RealVal(0)] * self.k if control is None else norm(control, self.k)
        c = [(lambda i, v=v: real_(val(v.at((i,))))) if isinstance(v, SArr) else (lambda i, v=v: real_(v)) for v in c]
        nt = 1
        if self.is_discrete_treatment:
            for k in ([self.key] if isinstance(self.key, str) else self.key): nt *= len(self.train.cols[k].levels)
        ny = self.ny if self.nji == 'all' else 1
        f = self.fun('EFFECTS', *[R] * (len(cols) + self.k), I, I, I, R)
        return SArr((n, ny, nt), lambda ix: f(*[snp.real(g((ix[0],))) for g in cols], *[q(ix[0]) for q in c], z3.IntVal(-1) if target_outcome is None else term(target_outcome), ti(ix[1]), ti(ix[2])), 'f')
    def effect_nji(self, data=None, control=None): return self._nji(data, control, None)
class EstY(Est):
    def effect_nji(self, data=None, control=None, target_outcome=None): return self._nji(data, control, target_outcome)

class Uplift:
    last = []
    def fit(self, df_lift, outcome='y', treatment='x', random=None, **kw): self.df, self.outcome, self.treatment, self.random, self.kw = df_lift, outcome, treatment, random, kw; Uplift.last.append(self); return self
    def _score(self, nm): return Score(nm)
    def auuc_score(self): return Score('auuc')
    def qini_score(self): return Score('qini')
class Score:
    _is_series = True
    def __init__(self, nm): self.nm = nm
    def mean(self): return SN(z3.Const('mean %s score' % self.nm, R))
class Policy:
    last = []
    def __init__(self, **kw): self.kw = kw
    def fit(self, data, **kw): self.data, self.args = data, kw; Policy.last.append(self); return self
STD = z3.Function('std', I, z3.ArraySort(I, R), R)
def std(a):
    if a.ndim != 1: a = a.ravel()
    f = a.snap(); j = z3.Const('sd?', I)
    return SN(STD(ti(a.shp[0]), z3.Lambda([j], snp.real(f((j,))))))
SArr.std = lambda self, axis=None, **k: std(self)

COST = {}
def cost_fn(cols, eff):
    """the cost function of the user: any function of the original row and the effect"""
    f = z3.Function('COST', *[R] * (len(cols) + 1), R); COST['f'] = f
    def fn_cost(row):
        for c in list(cols) + [eff]: E.prove('the cost function is given the column ' + ('of the effect' if c == eff else c), c in row)
        return SN(f(*[real_(row[c]) for c in cols], real_(row[eff])))
    return fn_cost

# ------------------------------------------------------------------ a fitted object
class Case:
    """training data, names and expectations"""
    def __init__(self, x, treats=(2,), ylev=0, cont=0, sets='av', names='list', cost=False, nji='all', infer=True, pre='train', est=None):
        self.x, self.disc, self.ylev = x, not cont, ylev
        self.T = ['x%d' % i for i in range(len(treats))] if not cont else ['c%d' % i for i in range(cont)]
        lv = lambda nm, k: [SN(z3.Const('%s_%s_%d' % (pre, nm, j), R)) for j in range(k)]
        self.L = {}
        for t, k in zip(self.T, treats if not cont else [0] * cont):
            self.L[t] = lv(t, k) if k else None
        self.YL = lv('y', ylev) if ylev else None
        for ls in list(self.L.values()) + [self.YL]:
            for p, q in zip(ls or [], (ls or [])[1:]): E.assume_global(p.t < q.t)
        self.n = SN(z3.Const('n_' + pre, I)); E.assume_global(self.n.t >= 2)
        self.cols = {'v1': None, 'w0': None, **self.L, 'y': self.YL, 'z0': None, 'v0': None}
        self.train = frame(pre, term(self.n), self.cols)
        self.A, self.V, self.Z = {'av': (['w0'], ['v1', 'v0'], None), 'v': (None, ['v0', 'v1', 'w0'], None), 'a': (['v0', 'w0'], None, None), 'iv': (None, ['v1', 'v0'], ['z0']), 'extra': (['w0'], ['v1', 'v0'], ['z0']), 'none': (None, ['v1', 'w0', 'z0', 'v0'], None)}[sets]
        self.used = (self.A or []) + (self.V or []) + (self.Z or [])
        given = [list(a) if a else None for a in (self.A, self.V, self.Z)]
        if sets == 'extra': given[0] = self.T[:1] + given[0]; given[1] = given[1] + self.T[-1:]
        if sets == 'none': given = [None, None, None]
        self.given = [PyList(a) if a is not None else None for a in given]; self.tgiven = PyList(self.T)
        self.passed = self.given if names == 'list' else [None if a is None else ' , '.join(a) for a in self.given]
        self.tpassed = self.tgiven if names == 'list' else ','.join(self.T)
        self.keep = (list(self.T), [None if a is None else list(a) for a in self.given])
        self.costf = cost_fn([c for c in self.cols], 'gain') if cost else None
        self.est = est or (EstY if nji == 'own' else Est)(ylev or 1, nji, self.disc)
        kw = {} if infer else dict(discrete_outcome=bool(ylev), discrete_treatment=self.disc)
        self.why = x.Why(estimator=self.est, fn_cost=self.costf, effect_name='gain', **kw) if cost else x.Why(estimator=self.est, **kw)
    def fit(self, why=None, **kw):
        self.why = why or self.why
        a = {k: v for k, v in zip(('adjustment', 'covariate', 'instrument'), self.passed) if v is not None}
        r = self.why.fit(self.train, 'y', treatment=self.tpassed, marker=17, **a, **kw)
        E.prove('fit returns the object', r is self.why)
        return self
    def test(self, name='test', cols=None):
        n = z3.Const('n_' + name, I); E.assume_global(n >= 1)
        return frame(name, n, cols or self.cols)
    def code(self, x, l): return next(i for i, q in enumerate(self.L[x]) if q is l)
    # ---- expectations
    def pre(self, c): return self.why.preprocessor_.fn(c)
    def cells(self, e, data):
        return [(lambda ix, f=self.pre(c), g=data.cols[c].a.snap(): f(g(ix))) for c in e.used]
    def effect(self, key, data, t, c, yo=None):
        """the effect of the estimator of a treatment (or pair) on preprocessed rows of data; with the cost function applied to them"""
        e = self.why.estimators_[key]; cs = self.cells(e, data); n = data.index.n
        at = lambda v, i: real_(val(v.at((i,)))) if isinstance(v, SArr) else real_(v)
        r = lambda ix: e.value([g(ix) for g in cs], [at(v, ix[0]) for v in t], [at(v, ix[0]) for v in c], yo)
        return SArr((n,), r, 'f')
    def costed(self, a, data):
        if self.costf is None: return a
        f = COST['f']; g = a.snap(); rs = [c.a.snap() for c in data.cols.values()]
        return SArr(a.shp, lambda ix: f(*[r(ix) for r in rs], g(ix)), 'f')
    def yo(self, l=None):
        return None if not self.ylev else (self.ylev - 1 if l is None else next(i for i, q in enumerate(self.YL) if q is l))

def same_frame(name, f, g):
    E.prove(name + ': columns', list(f.cols) == list(g.cols))
    for c in g.cols:
        if c in f.cols: same('%s: column %s' % (name, c), f.cols[c].a, g.cols[c].a)
def snapshot(f): return f.copy()
def encoded(case, c, a):
    ls = case.L[c] if c != 'y' else case.YL
    f = a.snap()
    def fn(ix):
        r = z3.IntVal(len(ls) - 1)
        for k in range(len(ls) - 2, -1, -1): r = z3.If(f(ix) == term(ls[k]), z3.IntVal(k), r)
        return r
    return SArr(a.shp, fn, 'i')
def label(t, c): return pyfac.fstr(('%s' % '', -1, ''), (t, -1, ''), ' vs ', (c, -1, '')) if False else pyfac.fstr((t, -1, ''), ' vs ', (c, -1, ''))
# ------------------------------------------------------------------ fit
def check_fit(c, train0, names=True):
    w = c.why
    E.prove('the outcome is recognised', bool(w.discrete_outcome) == bool(c.ylev)); E.prove('the treatments are recognised', bool(w.discrete_treatment) == c.disc)
    same_frame('the data given is left alone', c.train, train0)
    if names: E.prove('the name lists given are left alone', (list(c.tgiven), [None if a is None else list(a) for a in c.given]) == c.keep)
    keys = list(c.T) + ([(a, b) for a in c.T for b in c.T if a != b] if c.disc else [])
    got = {(tuple(k) if isinstance(k, tuple) else k): v for k, v in w.estimators_.items()}
    E.prove('one estimator for each treatment and ordered pair', set(got) == set(keys))
    E.prove('the estimators are apart', len({id(v) for v in got.values()}) == len(got))
    p = w.preprocessor_
    E.prove('the preprocessor is fitted on the adjustment, covariate and instrument columns', isinstance(p, Prep) and p.fitted is not None and set(p.fitted.cols) == set(c.used))
    for q in c.used:
        if q in p.fitted.cols: same('preprocessor fitted on the values of ' + q, p.fitted.cols[q].a, train0.cols[q].a)
    for k in keys:
        e = got.get(k)
        if not isinstance(e, Est) or len(e.fits) != 1: E.prove('fitted once: %s' % (k,), False); continue
        g = e.fits[0]; nm = 'estimator of %s: ' % (k,)
        E.prove(nm + 'treatment', (tuple(g['treatment']) if not isinstance(g['treatment'], str) else g['treatment']) == k and g['outcome'] == 'y')
        for s, q in zip(('adjustment', 'covariate', 'instrument'), (c.A, c.V, c.Z)): E.prove(nm + s, list(g[s] or []) == list(q or []))
        E.prove(nm + 'options', dict(g['kw']) == dict(marker=17))
        E.prove(nm + 'columns', set(g['data'].cols) == set(train0.cols))
        for q in c.cols:
            if q not in g['data'].cols: continue
            a = train0.cols[q].a
            if q in c.used: ex = SArr(a.shp, (lambda f, h: (lambda ix: f(h(ix))))(c.pre(q), a.snap()), 'f')
            elif (q in c.T and c.disc) or (q == 'y' and c.ylev): ex = encoded(c, q, a)
            else: ex = a
            if q in c.used or q in c.T or q == 'y': same(nm + 'column ' + q, g['data'].cols[q].a, ex)
    E.prove('the caller sees no fitted estimator of its own', not c.est.fits)
def fit_case(x, **kw):
    c = Case(x, **kw); t0 = snapshot(c.train); c.fit(); check_fit(c, t0)
def h_fit_binary(x): fit_case(x, treats=(2,))
def h_fit_discrete_outcome(x): fit_case(x, treats=(3,), ylev=3, sets='extra', names='str')
def h_fit_two(x): fit_case(x, treats=(2, 3), sets='extra')
def h_fit_two_named(x): fit_case(x, treats=(2, 2), ylev=2, sets='a', names='str', infer=False)
def h_fit_default_sets(x): fit_case(x, treats=(2, 2), sets='none')
def h_fit_continuous(x): fit_case(x, cont=2, sets='extra')
def h_fit_continuous_default(x): fit_case(x, cont=1, sets='none', ylev=2)
def refit(x, first, second):
    a = Case(x, **first); a.fit(); b = Case(x, pre='again', est=a.est, **second); t0 = snapshot(b.train); b.fit(a.why); check_fit(b, t0)
def h_refit_discrete(x): refit(x, dict(cont=1), dict(treats=(2, 2), ylev=2))
def h_refit_continuous(x): refit(x, dict(treats=(2,), ylev=3, sets='iv'), dict(cont=2, sets='none'))

# ------------------------------------------------------------------ reported effects
def ready(x, **kw):
    """fitted as promised (discharged in the fit harnesses)"""
    c = Case(x, **kw); c.fit(); c.t0 = None; return c
def stats(name, s, a, detail):
    rec = s.rec
    E.prove(name + ': statistics', rec is not None and set(rec) - {'detail'} == {'mean', 'min', 'max', 'std'})
    if rec is None: return
    for k in ('mean', 'min', 'max'):
        v, w = snp.lift2(term(rec[k]), term(getattr(a, k)())); E.prove('%s: %s' % (name, k), v == w)
    E.prove(name + ': std', term(rec['std']) == std(a).t)
    E.prove(name + ': detail', ('detail' in rec) == detail)
    if detail and 'detail' in rec: same(name + ': detail', rec['detail'], a)
def names_is(name, got, exp):
    if isinstance(exp, tuple):
        E.prove(name, isinstance(got, tuple) and len(got) == len(exp))
        for g, e in zip(got, exp): text_is(name, g, e)
    else: text_is(name, got, exp)
def reported(name, r, exp, quantity, detail=False):
    """exp: [(label, effect column)]"""
    E.prove(name + ': a table', isinstance(r, Table)); E.prove(name + ': orientation', r.rows == (quantity == 'ATE'))
    ps = list(r.parts); E.prove(name + ': one entry for each contrast', len(ps) == len(exp))
    for s, (l, a) in zip(ps, exp):
        n = '%s: %s' % (name, l if isinstance(l, str) else l[0])
        names_is(n + ': label', s.name, l)
        if quantity == 'ATE': stats(n, s, a, detail)
        else: same(n + ': effect of each row', s.a, a)
def lab(t, c): return pyfac.fstr((t, -1, ''), ' vs ', (c, -1, ''))
def fork_value(c, x, nm):
    """a value of treatment x chosen by the caller"""
    ls = c.L[x]; v = ls[-1]
    for i, l in enumerate(ls[:-1]):
        if E.fork(z3.Bool('%s is %d' % (nm, i))): v = l; break
    return v
def discrete_effect(x, treat=None, control=None, sub=None, quantity='ATE', combined=False, detail=False, yo=False, given=True, **kw):
    c = ready(x, **kw); T = list(c.T)
    if sub == 'rev': T = T[::-1]
    if sub in ('one', 'str'): T = [T[-1]]
    arg = None if sub is None else PyList(T) if sub != 'str' else ' ' + T[0]
    data = c.test() if given else None; d0 = snapshot(data) if given else None; d = data if given else c.train
    cv = [fork_value(c, t, 'control of ' + t) for t in T] if control else [c.L[t][0] for t in T]
    y = None
    if yo: y = next((l for l in c.YL[:-1] if E.fork(z3.Bool('target %d' % c.YL.index(l)))), c.YL[-1]) if False else c.YL[0 if E.fork(z3.Bool('first target')) else 1]
    tr = None
    if treat: tv = [fork_value(c, t, 'treat of ' + t) for t in T]
    if treat == 'one': tr = tv[0] if len(T) == 1 else PyList(tv)
    if treat == 'nested':
        tw = [fork_value(c, t, 'second treat of ' + t) for t in T]; tr = PyList([PyList(tv), PyList(tw)])
    k = {}
    if arg is not None: k['treatment'] = arg
    if tr is not None: k['treat'] = tr
    if control: k['control'] = cv[0] if len(T) == 1 else PyList(cv)
    if y is not None: k['target_outcome'] = y
    if quantity != 'ATE': k['quantity'] = quantity
    if combined: k['combine_treatment'] = True
    if detail: k['return_detail'] = True
    exp = []
    tvs = None if tr is None else [tv] if treat == 'one' else [tv, tw]
    def eff(key, ts, cs): return c.costed(c.effect(key, d, [c.code(t, v) for t, v in zip((key,) if isinstance(key, str) else key, ts)], [c.code(t, v) for t, v in zip((key,) if isinstance(key, str) else key, cs)], c.yo(y)), d)
    if combined:
        one = len(T) == 1
        for ts in (tvs if tvs is not None else [list(p) for p in itertools.product(*[c.L[t] for t in T])]):
            if all(p is q for p, q in zip(ts, cv)): continue
            exp.append((('%s' % T[0] if one else str(T), lab(ts[0] if one else PyList(ts), cv[0] if one else PyList(cv))), eff(T[0] if one else tuple(T), ts, cv)))
    else:
        for i, t in enumerate(T):
            for v in ([q[i] for q in tvs] if tvs is not None else [l for l in c.L[t] if l is not cv[i]]): exp.append(((t, lab(v, cv[i])), eff(t, [v], [cv[i]])))
    if not exp: return
    try: r = c.why.causal_effect(data, **k)
    except AssertionError as e:
        if getattr(e, '_modelled', False): raise
        E.prove('a well-formed question is answered', False); return
    reported('causal effect', r, exp, quantity, detail)
    if given: same_frame('the test data is left alone', data, d0)
def h_ate_binary(x): discrete_effect(x, treats=(2,))
def h_ate_three(x): discrete_effect(x, treats=(3,), ylev=3, detail=True)
def h_ate_control(x): discrete_effect(x, treats=(3,), control=True, ylev=2, yo=True)
def h_ate_given(x): discrete_effect(x, treats=(3,), treat='one', control=True, cost=True)
def h_ate_two(x): discrete_effect(x, treats=(2, 3), sets='iv')
def h_ate_two_reversed(x): discrete_effect(x, treats=(2, 2), sub='rev', control=True, treat='one', ylev=2)
def h_ate_named(x): discrete_effect(x, treats=(2, 3), sub='str', cost=True)
def h_ate_combined(x): discrete_effect(x, treats=(2, 2), combined=True, ylev=2)
def h_ate_combined_reversed(x): discrete_effect(x, treats=(2, 2), combined=True, sub='rev', control=True, cost=True)
def h_ate_combined_given(x): discrete_effect(x, treats=(2, 2), combined=True, treat='nested', control=True)
def h_ate_combined_one(x): discrete_effect(x, treats=(3, 2), combined=True, sub='one', ylev=3, yo=True)
def h_ate_training(x): discrete_effect(x, treats=(2, 2), given=False)
def h_ite_binary(x): discrete_effect(x, treats=(2,), quantity='ITE', cost=True, ylev=2)
def h_ite_two(x): discrete_effect(x, treats=(2, 2), quantity='ITE', treat='nested', control=True)
def h_ite_combined(x): discrete_effect(x, treats=(2, 2), quantity='ITE', combined=True)

def vector(name, n):
    f = z3.Function(name, I, R); return SArr((nx(term(n)),), lambda ix: f(ti(ix[0])), 'f')
def continuous_effect(x, treat=None, control=None, sub=None, quantity='ATE', detail=False, given=True, **kw):
    c = ready(x, **kw); T = list(c.T)
    if sub == 'rev': T = T[::-1]
    if sub in ('one', 'str'): T = [T[-1]]
    arg = None if sub is None else PyList(T) if sub != 'str' else T[0]
    data = c.test() if given else None; d0 = snapshot(data) if given else None; d = data if given else c.train
    k = {}
    def values(kind, nm):
        if kind is None: return None, None
        if kind == 'num': vs = [SN(z3.Const('%s %s' % (nm, t), R)) for t in T]; return vs, vs
        vs = [vector('%s %s' % (nm, t), d.index.n) for t in T]
        return vs, [WSeries(v, d.index, 'q') for v in vs] if kind == 'series' else vs
    (tv, ta), (cv, ca) = values(treat, 'treat'), values(control, 'control')
    if arg is not None: k['treatment'] = arg
    if ta is not None: k['treat'] = ta[0] if len(T) == 1 else PyList(ta)
    if ca is not None: k['control'] = ca[0] if len(T) == 1 else PyList(ca)
    if quantity != 'ATE': k['quantity'] = quantity
    if detail: k['return_detail'] = True
    exp = [(t, c.costed(c.effect(t, d, [tv[i] if tv else 1], [cv[i] if cv else 0]), d)) for i, t in enumerate(T)]
    r = c.why.causal_effect(data, **k)
    reported('causal effect', r, exp, quantity, detail)
    if given: same_frame('the test data is left alone', data, d0)
def h_cate_two(x): continuous_effect(x, cont=2, sets='extra')
def h_cate_given(x): continuous_effect(x, cont=2, treat='num', control='num', detail=True, cost=True)
def h_cate_treat(x): continuous_effect(x, cont=2, treat='array', sub='rev')
def h_cate_control(x): continuous_effect(x, cont=1, control='series', sets='v')
def h_cate_named(x): continuous_effect(x, cont=2, treat='series', control='series', sub='str', quantity='ITE', cost=True)
def h_cate_training(x): continuous_effect(x, cont=2, given=False, treat='num')

def select_code(ls, v, of):
    """of(code of v)"""
    r = of(len(ls) - 1)
    for k in range(len(ls) - 2, -1, -1): r = z3.If(v == term(ls[k]), of(k), r)
    return r
def individual_discrete(x, control=False, yo=False, **kw):
    c = ready(x, **kw); T = c.T; data = c.test(); d0 = snapshot(data)
    cv = [fork_value(c, t, 'control of ' + t) for t in T] if control else [c.L[t][0] for t in T]
    y = c.YL[0 if E.fork(z3.Bool('first target')) else 1] if yo else None
    k = {}
    if control: k['control'] = cv[0] if len(T) == 1 else PyList(cv)
    if y is not None: k['target_outcome'] = y
    r = c.why.individual_causal_effect(data, **k)
    E.prove('a table of one row per effect', isinstance(r, Table) and r.rows)
    segs = list(coll.seq_of(r.parts)); got = {}
    for kd, sq in segs:
        E.prove('effects are listed for every row', kd == 's')
        vs, cond, e = sq.inst(); E.prove('rows in order', len(vs) == 1)
        E.prove('an effect of a row', isinstance(e, WSeries) and e.rec is not None and set(e.rec) == {'effect'} and isinstance(e.name, tuple) and len(e.name) == 3 and e.name[1] in T)
        got.setdefault(e.name[1], []).append((vs[0], cond, e))
    E.prove('every treatment is reported', set(got) == set(T))
    n = term(data.index.n); q = z3.Const('row', I); inr = z3.And(q >= 0, q < n)
    for j, t in enumerate(T):
        cs = [z3.substitute(cond, (v, q)) for v, cond, e in got[t]]
        E.prove('one effect for each row and treatment', z3.ForAll([q], z3.Implies(inr, z3.And(z3.Or(cs), *[z3.Not(z3.And(a, b)) for a, b in itertools.combinations(cs, 2)]))))
        ec = c.code(t, cv[j])
        for (v, cond, e), cd in zip(got[t], cs):
            old = data.cols[t].a.at((q,)); es = subst(e, [(v, q)])
            for k_, l in enumerate(c.L[t]):
                want = z3.RealVal(0) if k_ == ec else c.effect(t, data, [k_], [ec], c.yo(y)).at((q,))
                a, b = snp.lift2(term(es.rec['effect']), want)
                E.prove('effect of changing %s from the control to the value of the row' % t, z3.ForAll([q], z3.Implies(z3.And(inr, cd, old == term(l)), a == b)))
                E.prove('row of the effect', z3.ForAll([q], z3.Implies(z3.And(inr, cd, old == term(l)), term(es.name[0]) == q)))
            text = es.name[2]; vs = lab(val(old), cv[j])
            E.prove('label of the effect of ' + t, z3.ForAll([q], z3.Implies(z3.And(inr, cd), text.t == vs.t)) if isinstance(text, SE) else z3.BoolVal(False))
    same_frame('the test data is left alone', data, d0)
def h_individual_binary(x): individual_discrete(x, treats=(2,))
def h_individual_two(x): individual_discrete(x, treats=(2, 2), ylev=2, sets='extra')
def h_individual_control(x): individual_discrete(x, treats=(3,), control=True, ylev=3, yo=True)
def h_individual_two_control(x): individual_discrete(x, treats=(2, 3), control=True)
def individual_continuous(x, control=None, **kw):
    c = ready(x, **kw); T = c.T; data = c.test(); d0 = snapshot(data); k = {}
    if control == 'num': cv = [SN(z3.Const('control %s' % t, R)) for t in T]
    elif control == 'array': cv = [vector('control %s' % t, data.index.n) for t in T]
    else: cv = [0] * len(T)
    if control: k['control'] = cv[0] if len(T) == 1 else PyList(cv)
    r = c.why.individual_causal_effect(data, **k)
    reported('individual effect', r, [(t, c.effect(t, data, [data.cols[t].a], [v])) for t, v in zip(T, cv)], 'ITE')
    same_frame('the test data is left alone', data, d0)
def h_individual_continuous(x): individual_continuous(x, cont=2, sets='extra')
def h_individual_continuous_control(x): individual_continuous(x, cont=2, control='num')
def h_individual_continuous_each(x): individual_continuous(x, cont=1, control='array', sets='none')

def whatif(x, treat=None, new='array', **kw):
    c = ready(x, **kw); data = c.test(); d0 = snapshot(data); t = treat or c.T[0]; n = data.index.n
    nv = vector('new value', n)
    if c.disc:
        q = z3.Const('nv?', I); g = nv.snap()
        E.assume_global(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < term(n)), z3.Or([g((q,)) == l.t for l in c.L[t]])), patterns=[g((q,))]))
        nv.cats = [list(c.L[t])]
    arg = nv if new == 'array' else WSeries(nv, data.index, 'new', levels=c.L[t])
    r = c.why.whatif(data, arg, **({} if treat is None else dict(treatment=treat)))
    E.prove('an outcome for every row', isinstance(r, WSeries) and r.a is not None)
    y = data.cols['y'].a
    if not c.disc: exp = y + c.costed(c.effect(t, data, [nv], [data.cols[t].a]), data)
    else:
        old, g, L = data.cols[t].a.snap(), nv.snap(), c.L[t]; y0 = y.snap()
        zero = c.costed(snp.zeros((snp.dv(n),)), data).snap()
        eff = {(a, b): c.costed(c.effect(t, data, [a], [b]), data).snap() for a in range(len(L)) for b in range(len(L)) if a != b}
        exp = SArr((n,), lambda ix: y0(ix) + select_code(L, g(ix), lambda a: select_code(L, old(ix), lambda b: zero(ix) if a == b else eff[a, b](ix))), 'f')
    same('the outcome plus the effect of the change', r.a, exp)
    E.prove('labelled as the data', r.index is not None and r.index.same(data.index))
    same_frame('the test data is left alone', data, d0)
def h_whatif_continuous(x): whatif(x, cont=2, sets='extra')
def h_whatif_continuous_named(x): whatif(x, cont=2, treat='c1', new='series', cost=True)
def h_whatif_discrete(x): whatif(x, treats=(2,))
def h_whatif_discrete_named(x): whatif(x, treats=(2, 2), treat='x1', new='series', cost=True, sets='iv')

def uplift(x, treat=False, control=False, sub=None, yo=False, score=None, random=None, name=None, **kw):
    c = ready(x, **kw); T = list(c.T)
    if sub == 'rev': T = T[::-1]
    if sub in ('one', 'str'): T = [T[-1]]
    data = c.test(); d0 = snapshot(data)
    cv = [fork_value(c, t, 'control of ' + t) for t in T] if control else [c.L[t][0] for t in T]
    tv = [fork_value(c, t, 'treat of ' + t) for t in T] if treat else [c.L[t][-1] for t in T]
    if all(a is b for a, b in zip(tv, cv)): return
    y = c.YL[0 if E.fork(z3.Bool('first target')) else 1] if yo else None
    k = {}
    if sub: k['treatment'] = PyList(T) if sub != 'str' else T[0]
    if treat: k['treat'] = tv[0] if len(T) == 1 else PyList(tv)
    if control: k['control'] = cv[0] if len(T) == 1 else PyList(cv)
    if y is not None: k['target_outcome'] = y
    if random: k['random'] = random
    if name: k['name'] = name
    if not name:     # the label made of the treat values is no column label of the uplift data
        nm = pyfac.join('_', [v if isinstance(v, str) else pyfac.fstr((v, -1, '')) for v in tv])
        for w in ('_x_', '_y_'): E.assume_global(tob(z3.Not(tob(eq(nm, w)))))
    if score: r = c.why.score(data, scorer=score, **k)
    else: r = c.why.uplift_model(data, **k)
    E.prove('one uplift model', len(Uplift.last) == 1); um = Uplift.last[0]
    if score: E.prove('the %s score' % score, eq(r, Score(score).mean()))
    else: E.prove('the uplift model is returned', r is um)
    E.prove('random lift as asked', um.random == random)
    f = um.df; extra = [q for q in f.cols if q not in (um.outcome, um.treatment)]
    E.prove('one lift', len(extra) == 1 and um.outcome in f.cols and um.treatment in f.cols)
    E.prove('name of the lift', extra == [name or tables.label(nm)])
    # the rows that have the treat or the control values
    n = term(data.index.n); q = z3.Const('row', I); inr = z3.And(q >= 0, q < n)
    ist = z3.And([data.cols[t].a.at((q,)) == term(v) for t, v in zip(T, tv)]); isc = z3.And([data.cols[t].a.at((q,)) == term(v) for t, v in zip(T, cv)])
    mem = lambda i: f.index.member(i)
    E.prove('the rows with the treat or control values', z3.ForAll([q], mem(q) == z3.And(inr, z3.Or(ist, isc))))
    p = ti(f.index.pos(q)); g = z3.And(inr, z3.Or(ist, isc))
    key = T[0] if len(T) == 1 else tuple(T)
    eff = c.effect(key, data, [c.code(t, v) for t, v in zip(T, tv)], [c.code(t, v) for t, v in zip(T, cv)], c.yo(y)).at((q,))
    def col(nm, want):
        a, b = snp.lift2(f.cols[nm].a.at((p,)), want); E.prove('lift data: ' + (nm if nm in (um.outcome, um.treatment) else 'effect'), z3.ForAll([q], z3.Implies(g, a == b)))
    col(extra[0], eff); col(um.treatment, z3.If(ist, z3.RealVal(1), z3.RealVal(0)))
    yy = data.cols['y'].a.at((q,)); col(um.outcome, yy if not c.ylev else select_code(c.YL, yy, lambda b: z3.IntVal(b)))
    same_frame('the test data is left alone', data, d0)
def h_uplift_binary(x): uplift(x, treats=(2,))
def h_uplift_given(x): uplift(x, treats=(3,), treat=True, control=True, ylev=2, yo=True, random='rnd', name='lift')
def h_uplift_two(x): uplift(x, treats=(2, 2), ylev=3, sets='extra')
def h_uplift_two_given(x): uplift(x, treats=(2, 2), treat=True, control=True, sub='rev', name='lift')
def h_uplift_named(x): uplift(x, treats=(2, 3), sub='str', treat=True, name='q')
def h_score_auuc(x): uplift(x, treats=(2,), treat=True, control=True, ylev=2, yo=True, score='auuc')
def h_score_qini(x): uplift(x, treats=(3,), score='qini')

def policy(x, control=False, sub=None, yo=False, **kw):
    c = ready(x, **kw); T = list(c.T)
    if sub == 'rev': T = T[::-1]
    if sub in ('one', 'str'): T = [T[-1]]
    data = c.test(); d0 = snapshot(data); n = data.index.n
    y = c.YL[0 if E.fork(z3.Bool('first target')) else 1] if yo else None
    if c.disc: cv = [fork_value(c, t, 'control of ' + t) for t in T] if control else None
    else: cv = [SN(z3.Const('control %s' % t, R)) for t in T] if control else None
    k = {}
    if sub: k['treatment'] = PyList(T) if sub != 'str' else T[0]
    if control: k['control'] = cv[0] if len(T) == 1 else PyList(cv)
    if y is not None: k['target_outcome'] = y
    r = c.why.policy_interpreter(data, max_depth=3, **k)
    E.prove('one interpreter', len(Policy.last) == 1 and r is Policy.last[0]); E.prove('options of the interpreter', dict(r.kw) == dict(max_depth=3))
    a = r.args; E.prove('covariates of the interpreter', list(a['covariate']) == list(c.V or []))
    E.prove('no model is asked again', a['est_model'] is None)
    for q in c.used: same('data of the interpreter: ' + q, r.data.cols[q].a, SArr((n,), (lambda f, h: (lambda ix: f(h(ix))))(c.pre(q), data.cols[q].a.snap()), 'f'))
    def nji(key, cd, j, i):
        e = c.why.estimators_[key]; ks = c.cells(e, data)
        f = e.fun('EFFECTS', *[R] * (len(ks) + e.k), I, I, I, R); own = isinstance(e, EstY)
        col = 0 if own or not c.ylev or e.nji != 'all' else c.yo(y)
        yo_ = z3.IntVal(-1 if not own or y is None else c.yo(y))
        return f(*[g((i,)) for g in ks], *[real_(v) for v in cd], yo_, z3.IntVal(col), ti(j))
    if c.disc:
        key = T[0] if len(T) == 1 else tuple(T); cd = [c.code(t, v) for t, v in zip(T, cv)] if cv else [0] * len(T)
        combos = list(itertools.product(*[c.L[t] for t in T])); m = len(combos)
        exp = [SArr((n,), (lambda j: (lambda ix: nji(key, cd, j, ix[0])))(j), 'f') for j in range(m)]
    else:
        m = len(T); exp = [SArr((n,), (lambda t, v: (lambda ix: nji(t, [v], 0, ix[0])))(t, cv[i] if cv else 0), 'f') for i, t in enumerate(T)]
    exp = [c.costed(q, data) for q in exp]
    E.prove('an effect for each action', a['effect_array'].ndim == 2 and a['effect_array'].shp[1] == m)
    for j in range(m): same('effect of action %d' % j, a['effect_array'][:, j], exp[j])
    nm = list(a['treatment_names']); E.prove('a name for each action', len(nm) == m)
    if not c.disc: E.prove('names of the actions', nm == T)
    else:
        for g, cs in zip(nm, combos): text_is('name of an action', g, joined(cs))
    same_frame('the test data is left alone', data, d0)
def joined(cs): return pyfac.join('_', [v if isinstance(v, str) else pyfac.fstr((v, -1, '')) for v in cs])
def text_is(name, a, b): E.prove(name, tob(eq(a, b)))
def h_policy_binary(x): policy(x, treats=(2,))
def h_policy_control(x): policy(x, treats=(3,), control=True, ylev=2, yo=True)
def h_policy_own(x): policy(x, treats=(2,), ylev=3, yo=True, nji='own', cost=True)
def h_policy_two(x): policy(x, treats=(2, 2), sets='extra')
def h_policy_two_control(x): policy(x, treats=(2, 2), control=True, sub='rev', ylev=3, cost=True)
def h_policy_named(x): policy(x, treats=(2, 3), sub='str', control=True)
def h_policy_continuous(x): policy(x, cont=2, cost=True)
def h_policy_continuous_control(x): policy(x, cont=2, control=True, sub='rev')

class Scorer(BaseEstModel):
    made = []
    def __init__(self, opts): self.opts, self.fits, self.asked = opts, [], []; Scorer.made.append(self)
    def fit(self, data, outcome, treatment, **kw): self.fits.append((data.copy(), outcome, treatment, kw)); return self
    def score(self, est, treat=None, control=None):
        self.asked.append((est, treat, control)); return SN(z3.Const('score %s' % (est.key,), R))
def rloss(x, treat=False, control=False, auto=False, **kw):
    c = ready(x, **kw); T = c.T; data = c.test(); d0 = snapshot(data)
    pick_ = (lambda t, nm: fork_value(c, t, nm + t)) if c.disc else (lambda t, nm: SN(z3.Const(nm + t, R)))
    tv = [pick_(t, 'treat of ') for t in T] if treat else None; cv = [pick_(t, 'control of ') for t in T] if control else None
    k = {}
    if treat: k['treat'] = tv[0] if len(T) == 1 else PyList(tv)
    if control: k['control'] = cv[0] if len(T) == 1 else PyList(cv)
    if not auto: k['scorer'] = 'rloss'
    r = c.why.score(data, **k)
    ss = Scorer.made
    E.prove('one scorer for each treatment', len(ss) == len(T) and sorted(s.opts.get('treatment') for s in ss) == sorted(T))
    tot = 0
    for s in ss:
        t = s.opts['treatment']; j = T.index(t)
        E.prove('scorer of %s: fitted once and asked once' % t, len(s.fits) == 1 and len(s.asked) == 1)
        d, o, ft, fk = s.fits[0]; e, at, ac = s.asked[0]
        E.prove('scorer of %s: outcome and treatment' % t, o == 'y' and ft == t)
        E.prove('scorer of %s: sets' % t, [list(fk.get(q) or []) for q in ('adjustment', 'covariate', 'instrument')] == [list(q or []) for q in (c.A, c.V, c.Z)] and set(fk) <= {'adjustment', 'covariate', 'instrument'})
        for q in c.cols:
            a = d0.cols[q].a
            if q in c.used: ex = SArr(a.shp, (lambda f, h: (lambda ix: f(h(ix))))(c.pre(q), a.snap()), 'f')
            elif (q in T and c.disc) or (q == 'y' and c.ylev): ex = encoded(c, q, a)
            else: ex = a
            if q in d.cols: same('scorer of %s: column %s' % (t, q), d.cols[q].a, ex)
            else: E.prove('scorer of %s: column %s' % (t, q), q not in c.used and q != 'y' and q not in T)
        E.prove('scorer of %s: the estimator of the treatment is scored' % t, e is c.why.estimators_[t])
        for nm, got, given in (('treat', at, tv), ('control', ac, cv)):
            if given is None: E.prove('scorer of %s: default %s' % (t, nm), got is None)
            else: E.prove('scorer of %s: %s' % (t, nm), got is not None and (tob(eq(got, c.code(t, given[j]) if c.disc else given[j]))))
        tot = tot + SN(z3.Const('score %s' % (t,), R))
    E.prove('the mean of the scores', tob(eq(r, tot / len(T))))
    same_frame('the test data is left alone', data, d0)
def h_rloss_binary(x): rloss(x, treats=(2,), ylev=2)
def h_rloss_two(x): rloss(x, treats=(2, 3), treat=True, control=True, sets='iv')
def h_rloss_treat(x): rloss(x, treats=(3, 2), treat=True)
def h_rloss_continuous(x): rloss(x, cont=2, control=True, sets='extra')
def h_rloss_default(x): rloss(x, cont=2, auto=True, sets='v')

# ------------------------------------------------------------------ identify
class Importance:
    """all features, the strongest first"""
    order = ['q2', 'q0', 'q3', 'q1']
    def __init__(self, strategy=None, number=None, data_clean=True): self.number = number
    def fit(self, X, y=None, **k):
        self.seen = list(X.cols); pyfac.vsetattr(self, 'selected_features_', PyList([c for c in Importance.order if c in X.cols][:self.number])); return self
def choose(lst, nm):
    for i, v in enumerate(lst[:-1]):
        if E.fork(z3.Bool('%s is %s' % (nm, v))): return v
    return lst[-1]
def identify(x, known=None, limit=True, given=None, fit=False):
    kinds = {c: choose([True, False], c + ' discrete') for c in Importance.order}
    if known is not None and known not in kinds.values(): return       # no treatment of the kind
    n = z3.Const('n_train', I); E.assume_global(n >= 2)
    data = frame('train', n, {c: ([SN(z3.Const('%s_%d' % (c, j), R)) for j in range(2)] if kinds.get(c) else None) for c in ('q0', 'q1', 'y', 'q2', 'q3')}); d0 = snapshot(data)
    for c in data.cols.values():
        if c.levels: E.assume_global(c.levels[0].t < c.levels[1].t)
    lim = choose([1, 2, 3], 'limit') if limit else None
    est = Est(1, 'all', True); why = x.Why(estimator=est, discrete_treatment=known)
    a = dict(treatment_count_limit=lim) if limit else {}
    v = None
    if given: v = a['covariate'] = PyList(list(given))
    if fit:
        why.fit(data, 'y', **a); t, adj, cov, iv = why.treatment_, why.adjustment_, why.covariate_, why.instrument_
    else: t, adj, cov, iv = why.identify(data, 'y', **a)
    lim = 1 if lim is None else lim       # a tenth of the columns
    kind = kinds[Importance.order[0]] if known is None else known
    exp = [c for c in Importance.order if kinds[c] == kind][:lim]
    E.prove('the strongest features of one kind, at most the limit', list(t) == exp)
    E.prove('the kind of the treatment', why.discrete_treatment is kind)
    E.prove('no adjustment or instrument is made up', not adj and not iv)
    if given and [c for c in given if c not in exp]: E.prove('covariates given, without the treatments', list(cov) == [c for c in given if c not in exp])
    else: E.prove('the other columns are covariates', list(cov) == [c for c in data.cols if c != 'y' and c not in exp])
    if given: E.prove('the names given are left alone', list(v) == list(given))
    same_frame('the data given is left alone', data, d0)
def h_identify(x): identify(x)
def h_identify_discrete(x): identify(x, known=True, given=['q0', 'q3'])
def h_identify_continuous(x): identify(x, known=False)
def h_identify_default(x): identify(x, limit=False, given=['q2'])
def h_identify_fit(x): identify(x, fit=True)

class Causes:
    """a column of the causal matrix: strengths by name"""
    _is_series = True
    def __init__(self, items): self.items_ = list(items)
    def abs(self): return Causes([(k, SN(z3.If(v.t < 0, -v.t, v.t))) for k, v in self.items_])
    def sort_values(self, ascending=True, **k):
        out = []
        for kv in self.items_:
            i = 0
            while i < len(out) and not E.fork(kv[1].t < out[i][1].t if ascending else kv[1].t > out[i][1].t): i += 1
            out.insert(i, kv)
        return Causes(out)
    @property
    def index(self): return PyList([k for k, _ in self.items_])
    def __getitem__(self, k): return dict(self.items_)[k]
    def drop(self, k): return Causes([i for i in self.items_ if i[0] != k])
    def items(self): return iter(self.items_)
    def tolist(self): return PyList([v for _, v in self.items_])
class Causation(WFrame):
    def __init__(self, names): self.names = names; super().__init__(WIndex(len(names)), [(c, None) for c in names])
    def __getitem__(self, k):
        if not isinstance(k, str): raise Unsupported('causal matrix')
        return Causes([(c, SN(z3.Const('strength of %s on %s' % (c, k), R))) for c in self.names])
def discovered(x, ks, lim, known=None, excludes=None, cols=('q0', 'q1', 'y', 'q2')):
    kinds = dict(zip([c for c in cols if c != 'y'], ks))
    n = z3.Const('n_train', I); E.assume_global(n >= 2)
    data = frame('train', n, {c: ([SN(z3.Const('%s_%d' % (c, j), R)) for j in range(2)] if kinds.get(c) else None) for c in cols}); d0 = snapshot(data)
    for c in data.cols.values():
        if c.levels: E.assume_global(c.levels[0].t < c.levels[1].t)
    E.assume_global(z3.Const('strength of y on y', R) == 0)
    class Found(x.ident.IdentifierWithDiscovery):
        def _discovery(self, data, outcome): return Causation(list(cols))
    q = Found(); a = {} if not excludes else dict(excludes=PyList(list(excludes)))
    st = {c: z3.Const('strength of %s on y' % c, R) for c in cols}; ab = {c: z3.If(v < 0, -v, v) for c, v in st.items()}
    cand = [c for c in cols if c != 'y' and c not in (excludes or ())]
    cand = [c for c in cand if E.fork(ab[c] > 0)]
    r = list(q.identify_treatment(data, 'y', known, lim, **a))
    if not cand: E.prove('without causes found, the default features', r == [c for c in Importance.order if c in kinds and c not in (excludes or ()) and kinds[c] == (known if known is not None else kinds[next(d for d in Importance.order if d in kinds and d not in (excludes or ()))])][:lim]); return
    ok = lambda c, first: kinds[c] == (known if known is not None else kinds[first])
    # the first of the causes is one of the strongest
    E.prove('only causes found, each once', set(r) <= set(cand) and len(set(r)) == len(r))
    if known is None:
        E.prove('the strongest cause is a treatment', len(r) > 0 and z3.And([ab[r[0]] >= ab[c] for c in cand]))
    first = r[0] if r else None
    kind = [c for c in cand if (kinds[c] == known if known is not None else first is not None and kinds[c] == kinds[first])]
    E.prove('causes of one kind, as many as there are up to the limit', set(r) <= set(kind) and len(r) == min(lim, len(kind)))
    E.prove('the strongest of the kind, in order', z3.And([ab[a_] >= ab[b_] for a_, b_ in zip(r, r[1:])] + [ab[a_] >= ab[b_] for a_ in r for b_ in kind if b_ not in r] + [z3.BoolVal(True)]))
    same_frame('the data given is left alone', data, d0)
def h_discovered(x): discovered(x, (True, False, True), 2)
def h_discovered_one(x): discovered(x, (False, True, True), 1)
def h_discovered_all(x): discovered(x, (False, False, False), 3)
def h_discovered_kind(x): discovered(x, (True, False, False), 2, known=False)
def h_discovered_excludes(x): discovered(x, (True, True, False), 1, excludes=['q1'], known=True)

HARNESS = {n[2:]: f for n, f in list(globals().items()) if n.startswith('h_')}

def infer_task_type(y, **k):
    return ('multiclass' if (y.levels is not None and len(y.levels) > 2) else 'binary' if y.levels is not None else 'regression'), None

def setup(L):
    class X: pass
    x = X(); x.L = L; E.fast = True
    from vp import slearn
    L.facades.update({k: v for k, v in slearn.facades().items() if k not in ('pandas',)})
    L.facades['pandas'] = tables.make_pandas()
    L.facades['sklearn.preprocessing'].LabelEncoder = LabelEncoder
    L.facades['ylearn.sklearn_ex'].general_preprocessor = lambda *a, **k: Prep()
    L.facades['ylearn.sklearn_ex'].FeatureImportancesSelectionTransformer = Importance
    pk = lambda name, **kw: L.facades.__setitem__(name, libs.mod(name, **kw))
    pk('ylearn.uplift', UpliftModel=Uplift)
    class CausalGraph:
        def __init__(self, m): self.m = m
    pk('ylearn.causal_model', CausalGraph=CausalGraph, CausalModel=None)
    pk('ylearn.estimator_model', BaseEstModel=BaseEstModel, ESTIMATOR_FACTORIES={'rloss': lambda **k: (lambda data, outcome, **opts: Scorer(dict(opts, outcome=outcome)))})
    common = L.load('ylearn.utils._common')
    log = types.SimpleNamespace(info=lambda *a, **k: None, debug=lambda *a, **k: None, warning=lambda *a, **k: None, warn=lambda *a, **k: None, error=lambda *a, **k: None, is_info_enabled=lambda: False)
    pk('ylearn.utils', to_repr=lambda o: '<%s>' % type(o).__name__, logging=types.SimpleNamespace(get_logger=lambda *a: log), const=common.const, to_list=common.to_list, join_list=common.join_list,
       drop_none=common.drop_none, set_random_state=lambda *a: None, view_pydot=None, infer_task_type=infer_task_type)
    api = types.ModuleType('ylearn.api'); api.__path__ = []; api.__package__ = 'ylearn.api'; L.facades['ylearn.api'] = api
    x.utils = L.load('ylearn.api.utils'); api.utils = x.utils
    x.ident = L.load('ylearn.api._identifier'); api._identifier = x.ident
    pk('ylearn.api._wrapper', WrappedPolicyInterpreter=Policy)
    x.why = L.load('ylearn.api._why'); x.Why = x.why.Why
    L.facades['numpy'].nan = val(NAN)
    E.reset_path_hooks.append(lambda: (Prep.made.clear(), Uplift.last.clear(), Policy.last.clear(), Scorer.made.clear()))
    return x
