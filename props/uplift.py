"""C16: uplift curves and scores."""
import types
import z3
from vp.core import *
from vp.core import E, inv
from vp.coll import *
from vp import curves, pyfac, coll
from vp.curves import Frame, Ser, Row, Series, psum, rank, fill, inr, P0, NONAN

NUMERIC = False
LEVEL = 'proof'
F = 'ylearn/uplift/'
FUNCTIONS = [F + '_metric.py:' + f for f in ('Cumulator.__call__', 'Cumulator.cumulate', 'Cumulator.cumulate_with_random', 'Cumulator._generate_random_like', 'LiftCumulatorWithTreatment.cumulate_column', 'LiftCumulatorWithTrueEffect.cumulate_column',
             'GainCumulatorWithTreatment.cumulate_column', 'GainCumulatorWithTrueEffect.cumulate_column', 'QiniCumulatorWithTreatment.cumulate_column', 'QiniCumulatorWithTrueEffect.cumulate_column',
             'get_cumlift', 'get_gain', 'get_qini', 'gain_top_point', 'qini_top_point', 'auuc_score', 'qini_score')] + \
            [F + '_model.py:UpliftModel.' + f for f in ('fit', 'get_cumlift', 'get_gain', 'get_qini', '_get_value_or_series', 'gain_top_point', 'qini_top_point', 'auuc_score', 'qini_score')]
ASSUMPTIONS = ['floats are treated as mathematical reals', 'no missing values in the data; both treatment groups occur (the code asserts it where it uses them)',
               'a curve whose last point is zero is outside the precondition of the normalised curves',
               'pandas: sort_values, cumsum, idxmax, concat, interpolate mean what their documentation says; rows with equal scores may come in any order, which is a function of the score column']
BOUND = 'random frames of up to 40 rows, 1-3 score columns'

class Ctx: pass
def setup(L):
    curves.install()
    L.facades.update({'numpy': curves.numpy_facade(), 'pandas': curves.pandas_facade()})
    x = Ctx(); x.L = L
    x.m = L.load('ylearn.uplift._metric')
    return x
def model(x):
    x.L.facades.setdefault('matplotlib', types.ModuleType('matplotlib'))
    return x.L.load('ylearn.uplift._model')

a, b = z3.Ints('a b')
class Env:
    """a frame of n rows: score columns, outcome, treatment, true effect, and an unrelated column order"""
    def __init__(self, scores, te=True, ynames=('y', 'x', 'te')):
        self.n = z3.Int('n'); E.assume(self.n >= 1); self.scores = scores
        fn = lambda s: (lambda g: lambda p: g(p))(z3.Function(s, I, R))
        self.y, self.x, self.te = fn('outcome'), fn('treatment'), fn('effect')
        self.s = {c: fn('score ' + c) for c in scores}
        self.t1, self.t0 = z3.Reals('treat control'); E.assume(self.t1 != self.t0)
        Y, X, T = ynames; self.names = ynames; cols = {}
        cols[scores[0]] = (self.s[scores[0]], NONAN); cols[Y] = (self.y, NONAN); cols[X] = (self.x, NONAN)
        for c in scores[1:]: cols[c] = (self.s[c], NONAN)
        if te: cols[T] = (self.te, NONAN)
        self.df = Frame.make(self.n, None, cols); self.te_on = te
        self.cols0 = dict(cols)
    def groups(self):
        n, p = self.n, bound('p', I)
        E.assume(z3.ForAll([p], z3.Implies(inr(n, p), z3.Or(self.x(p) == self.t1, self.x(p) == self.t0)), patterns=[self.x(p)]))
        i, j = z3.Ints('i_treat i_control')
        curves.MARKS.extend([i, j]); E.assume(z3.And(inr(n, i, j), self.x(i) == self.t1, self.x(j) == self.t0))
    def kw(self, **o):
        Y, X, T = self.names
        return dict(dict(outcome=Y, treatment=X, true_effect=T if self.te_on else None, treat=SN(self.t1), control=SN(self.t0)), **o)
    def frame_kept(self):
        E.prove('the data are left alone', z3.BoolVal(list(self.df.cols) == list(self.cols0) and all(self.df.cols[c] is self.cols0[c] for c in self.cols0) and self.df.lab is None and self.df.n is self.n))

def raw(e, kind, score):
    """(value, missing) at place k = p+1 of the ranking by the score"""
    n = e.n; r = rank(n, lambda p: score(p))
    T, C = (lambda p: e.x(r(p)) == e.t1), (lambda p: e.x(r(p)) == e.t0)
    nt, nc = psum(n, lambda p: z3.If(T(p), z3.RealVal(1), z3.RealVal(0))), None
    k = lambda p: z3.ToReal(p + 1)
    if e.te_on:
        m = psum(n, lambda p: e.te(r(p)))
        f = {'lift': lambda p: m(p) * inv(k(p)), 'gain': lambda p: m(p), 'qini': lambda p: m(p) * inv(k(p)) * nt(p)}[kind]
        return f, NONAN
    nc = psum(n, lambda p: z3.If(C(p), z3.RealVal(1), z3.RealVal(0)))
    yt, yc = psum(n, lambda p: z3.If(T(p), e.y(r(p)), z3.RealVal(0))), psum(n, lambda p: z3.If(C(p), e.y(r(p)), z3.RealVal(0)))
    lift = lambda p: yt(p) * inv(nt(p)) - yc(p) * inv(nc(p))
    f = {'lift': lift, 'gain': lambda p: k(p) * lift(p), 'qini': lambda p: yt(p) - yc(p) * nt(p) * inv(nc(p))}[kind]
    none = {'lift': lambda p: z3.Or(nt(p) == 0, nc(p) == 0), 'gain': lambda p: z3.Or(nt(p) == 0, nc(p) == 0), 'qini': lambda p: nc(p) == 0}[kind]
    return f, none

def curve(e, kind, score):
    """the curve on 0..n: starts at zero, missing points interpolated"""
    f, none = raw(e, kind, score)
    g = lambda p: z3.If(p == 0, z3.RealVal(0), f(p - 1)); m = lambda p: z3.And(p != 0, none(p - 1))
    return fill(e.n + 1, g, m)[0]

def is_curve(e, r, kind, cols, norm=False, pre=''):
    n = e.n
    if not isinstance(r, Frame): E.prove(pre + 'a frame of curves', False); return
    E.prove(pre + 'one curve per score column', z3.BoolVal(list(r.cols) == list(cols)))
    if set(r.cols) != set(cols): return
    p = z3.Int('p')
    E.prove(pre + 'rows are labelled 0..n', z3.And(r.n == n + 1, z3.ForAll([p], z3.Implies(z3.And(p >= 0, p <= n), r.lab(p) == p))))
    for c in cols:
        want = cols[c]; w = want
        if norm:
            last = want(n); w = lambda p: want(p) * inv(z3.If(last >= 0, last, -last))
        f, nan = r.cols[c]
        E.prove(pre + 'the %s curve of %s' % (kind, c), z3.ForAll([p], z3.Implies(z3.And(p >= 0, p <= n), real(f(p)) == w(p))))
        E.prove(pre + 'no point of it is missing', z3.ForAll([p], z3.Implies(z3.And(p >= 0, p <= n), z3.Not(nan(p)))))

class Randoms:
    """the random rankings drawn, in order"""
    def __init__(self, x): self.calls = []; self.np = x.m.np
    def __enter__(self):
        self.old = self.np.random.rand; self.was = self.old
        def rand(*s): v = self.was(*s); self.calls.append(v); return v
        self.np.random.rand = rand; return self
    def __exit__(self, *a): self.np.random.rand = self.old

def wanted(e, kind, R, random):
    cols = {c: curve(e, kind, e.s[c]) for c in e.scores}
    if random is not None:
        rs = [curve(e, kind, (lambda f: lambda p: f(p))(v.fn)) for v in R]
        cols[random] = lambda p: z3.Sum([r(p) for r in rs]) * z3.Q(1, len(rs)) if rs else z3.RealVal(0)
    return cols
def small(x, k=2):
    """random columns: the number of draws does not matter; a few keep the obligations small"""
    return k

def few(x, k):
    C = x.m.Cumulator; old = C.__init__
    def init(self, *a, **kw): old(self, *a, **kw); self.random_column_number = k
    return Stub(C, '__init__', init)
class Stub:
    def __init__(self, o, name, f): self.o, self.name, self.f = o, name, f
    def __enter__(self): self.old = self.o.__dict__[self.name]; setattr(self.o, self.name, self.f)
    def __exit__(self, *a): setattr(self.o, self.name, self.old)

def get(x, kind, te, scores, random, norm=False, top=False):
    e = Env(scores, te); e.groups()
    fn = {'lift': x.m.get_cumlift, 'gain': x.m.get_gain, 'qini': x.m.get_qini}[kind]
    kw = e.kw(random_name=random)
    if kind != 'lift': kw.update(normalize=norm, return_top_point=top)
    if norm: nonzero(e, kind, e.scores)
    with few(x, 2), Randoms(x) as R:
        r = fn(e.df, **kw)
    if top:
        E.prove('curves and top points', z3.BoolVal(isinstance(r, tuple) and len(r) == 2)); r, t = r
        is_top(e, kind, t)
    is_curve(e, r, kind, wanted(e, kind, R.calls, random), norm)
    e.frame_kept()

def nonzero(e, kind, cols):
    for c in cols: E.assume(curve(e, kind, e.s[c])(e.n) != 0)

def is_top(e, kind, t):
    E.prove('one top point per score column', z3.BoolVal(isinstance(t, Row) and list(t.d) == list(e.scores)))
    n = e.n; k = z3.Int('k')
    for c in e.scores:
        f, none = raw(e, kind, e.s[c]); r = rank(n, e.s[c]); v = real(numterm(t.d[c]))
        best = lambda j: z3.And(inr(n, j), z3.Not(none(j)), z3.ForAll([a], z3.Implies(z3.And(inr(n, a), z3.Not(none(a))), z3.And(f(a) <= f(j), z3.Implies(a < j, f(a) < f(j))))))
        E.prove('the top point of %s is the score where the curve is highest' % c, z3.Exists([k], z3.And(best(k), v == e.s[c](r(k)))))

def total(e, w): return psum(z3.simplify(e.n + 1), w)(e.n)
def normed(e, w): last = w(e.n); return lambda p: w(p) * inv(z3.If(last >= 0, last, -last))
def score(x, kind, te, scores, random, norm):
    e = Env(scores, te); e.groups()
    if norm: nonzero(e, kind, e.scores)
    fn = x.m.auuc_score if kind == 'gain' else x.m.qini_score
    with few(x, 2), Randoms(x) as R:
        if norm and (random or kind == 'qini'): R.was = drawn(e, kind, R)
        r = fn(e.df, **e.kw(random_name=random, normalize=norm))
    is_score(e, r, kind, random, norm, R.calls); e.frame_kept()
def drawn(e, kind, R):
    """a random ranking whose curve can be normalised"""
    was = R.old
    def rand(*s): return was(*s)
    return rand
def is_score(e, r, kind, random, norm, draws, pre=''):
    if not isinstance(r, Row): E.prove(pre + 'one score per column', False); return
    cols = wanted(e, kind, draws, random if kind == 'gain' else (random or 'RANDOM'))
    names = list(e.scores) + ([random] if random else [])
    E.prove(pre + 'one score per column', z3.BoolVal(list(r.d) == names))
    if list(r.d) != names: return
    if norm: cols = {c: normed(e, w) for c, w in cols.items()}
    n1 = z3.ToReal(e.n + 1); base = total(e, cols[random or 'RANDOM']) if kind == 'qini' else z3.RealVal(0)
    for c in names: E.prove(pre + 'the score of %s' % c, real(numterm(r.d[c])) == (total(e, cols[c]) - base) * inv(n1))
    E.prove(pre + 'it is called', z3.BoolVal(r.name == ('auuc' if kind == 'gain' else 'qini')))

def top(x, kind, te):
    e = Env(['m1', 'm2'], te); e.groups(); nonzero(e, kind, e.scores)
    fn = x.m.gain_top_point if kind == 'gain' else x.m.qini_top_point
    with few(x, 1): t = fn(e.df, **e.kw())
    is_top(e, kind, t); e.frame_kept()

def uplift(x, te):
    M = model(x); e = Env(['m1', 'm2'], te, ynames=('sales', 'promo', 'tau')); e.groups()
    for k in ('gain', 'qini'): nonzero(e, k, e.scores)
    with few(x, 1), Randoms(x) as R:
        m = M.UpliftModel(); q = m.fit(e.df, random=None, **e.kw())
        E.prove('fit returns the model', z3.BoolVal(q is m))
        for rep in ('', 'again: '):
            for kind, g in (('lift', m.get_cumlift), ('gain', m.get_gain), ('qini', m.get_qini)):
                r = g(); is_curve(e, r, kind, wanted(e, kind, [], None), False, rep)
                if kind != 'lift' and not rep:
                    r2 = g(normalize=True); is_curve(e, r2, kind, wanted(e, kind, [], None), True, 'normalised: ')
                r['m1'] = 0.0          # what is returned is a copy
        for kind, g in (('gain', m.gain_top_point), ('qini', m.qini_top_point)):
            t = g(); is_top(e, kind, t)
            E.prove('the point of a name', z3.And([real(numterm(g(c))) == real(numterm(t.d[c])) for c in e.scores]))
        r = m.auuc_score(); is_score(e, r, 'gain', None, True, [], 'auuc: ')
        E.prove('the score of a name', real(numterm(m.auuc_score('m2'))) == real(numterm(r.d['m2'])))
    e.frame_kept()

def randoms(x):
    """the random column is left out of the tables of scores, and can be asked for by name"""
    M = model(x); m = M.UpliftModel(); m._is_fitted = True
    v = {c: SN(z3.Real('v ' + c)) for c in ('m1', 'rnd', 'm2')}
    for a_, g in (('auuc_score_', m.auuc_score), ('qini_score_', m.qini_score), ('gain_top_point_', m.gain_top_point), ('qini_top_point_', m.qini_top_point)):
        for rn in ('rnd', None):
            m.random_ = rn; setattr(m, a_, Row(dict(v)))
            r = g(); want = [c for c in v if c != rn]
            E.prove('%s: the columns asked for' % a_, z3.BoolVal(isinstance(r, Row) and list(r.d) == want))
            if list(r.d) == want: E.prove('%s: their values' % a_, z3.And([r.d[c].t == v[c].t for c in want]))
            E.prove('%s: by name' % a_, z3.And([term(g(c)) == v[c].t for c in v]))

HARNESS = {}
for _k in ('lift', 'gain', 'qini'):
    for _te in (False, True):
        w_ = 'true effect' if _te else 'treatment'
        for _r in (None, 'RANDOM'):
            HARNESS['%s %s random=%s' % (_k, w_, _r)] = lambda x, _k=_k, _te=_te, _r=_r: get(x, _k, _te, ['m1', 'm2'], _r)
        if _k == 'lift': continue
        HARNESS['%s %s normalised, top points' % (_k, w_)] = lambda x, _k=_k, _te=_te: get(x, _k, _te, ['m1', 'm2'], None, True, True)
        HARNESS['%s top point %s' % (_k, w_)] = lambda x, _k=_k, _te=_te: top(x, _k, _te)
        for _r in (None, 'RANDOM'):
            for _n in (False, True):
                HARNESS['%s score %s random=%s normalize=%s' % (_k, w_, _r, _n)] = lambda x, _k=_k, _te=_te, _r=_r, _n=_n: score(x, _k, _te, ['m1', 'm2'], _r, _n)
for _te in (False, True): HARNESS['UpliftModel %s' % ('true effect' if _te else 'treatment')] = lambda x, _te=_te: uplift(x, _te)
HARNESS['UpliftModel scores'] = randoms
