"""C17: permuted learners - one learner per pair of treatment values."""
import types
from .ecommon import *
from vp.coll import PyDict, seq_of
NUMERIC = True
LEVEL = 'proof'
M = 'ylearn.estimator_model.'
FUNCTIONS = [M + '_permuted.PermutedLearner.' + f for f in ('__init__', 'fit', '_permute_treats', '_get_learner', 'estimate', 'effect_nji', 'treat')] + \
    [M + '_permuted.' + f for f in ('_copy_and_fit', '_effect_nji', '_default_estimate_options')] + [M + 'base_models.BaseEstModel.fit']
ASSUMPTIONS = ['a learner is arbitrary: its effect for a treatment and a control is an arbitrary function of what it was fitted for and of the data; its effect_nji is a null effect and that effect, in the order of the treatment values (contracts of C08 and C10)',
               'joblib.Parallel returns the results of the calls in order']
BOUND = 'rows unbounded; 2 or 3 treatment values, at most 2 treatment columns, 1-2 outcomes or 3 outcome classes'

def parallel(**kw):
    return lambda it: PyList([f() for _, f in seq_of(it)])
def delayed(f): return lambda *a, **k: (lambda: f(*a, **k))
class Sig:
    def __init__(self, names): self.parameters = PyDict({n: None for n in names})

def setup(L):
    x = setup_est(L)
    jb = types.ModuleType('joblib'); jb.Parallel, jb.delayed = parallel, delayed
    ins = types.ModuleType('inspect'); ins.signature = lambda f: Sig(f.params); ins.isabstract = lambda *a: False
    L.facades['joblib'] = jb; L.facades['inspect'] = ins
    for n in ('doubly_robust', 'meta_learner', 'causal_tree'):
        m = types.ModuleType(M + n)
        for c in ('DoublyRobust', 'SLearner', 'TLearner', 'XLearner', 'CausalTree'): setattr(m, c, type(c, (), {}))
        L.facades[M + n] = m
    x.m = L.load(M + '_permuted'); x.base = L.load(M + 'base_models')
    return x

class Fn:
    def __init__(self, f, *params): self.f, self.params = f, params
    def __call__(self, *a, **k): return self.f(*a, **k)
EFF = z3.Function('effect of a learner', I, I, I, I, R)       # fit, data, row, outcome
def arbitrary(x, log, ny, classes):
    """an arbitrary learner: the interface of the estimators"""
    class Learner(x.base.BaseEstModel):
        def __init__(self, discrete=True):
            x.base.BaseEstModel.__init__(self, random_state=7, is_discrete_treatment=discrete, is_discrete_outcome=classes is not None)
            self.fitted = None
        def __deepcopy__(self, memo):
            r = Learner(); r.__dict__.update(self.__dict__); r.copied = True; return r
        def fit(self, data, outcome, treatment, treat=None, control=None, **kw):
            E.prove('the learner given is left alone: its copies are fitted', z3.BoolVal(getattr(self, 'copied', False) and self.fitted is None))
            self.fitted = len(log); log.append((data, outcome, treatment, treat, control, dict(kw))); self._is_fitted = True; return self
        @property
        def outcome_classes_(self): return None if classes is None else x.np.array(PyList(list(classes)))
        def all(self, data):
            d = log[self.fitted][0] if data is None else data
            return eff(x, self.fitted, d, ny if classes is None else len(classes))
        @property
        def estimate(self):
            def f(data=None, quantity=None, target_outcome=None):
                e = self.all(data)
                if classes is not None:
                    E.prove('a class of the outcome is asked for', z3.BoolVal(target_outcome is not None))
                    e = pick(x, e, classes, target_outcome)
                if e.shp[1] == 1: e = e[:, 0]
                return x.np.mean(e, axis=0) if quantity in ('ATE', 'CATE') else e
            return Fn(f, 'data', 'quantity', *(['target_outcome'] if classes is not None else []))
        @property
        def effect_nji(self):
            def f(data=None):
                e = self.all(data); n, k = e.shp
                return x.np.concatenate((x.np.zeros((n, k, 1)), e.reshape(n, k, 1)), axis=2)
            return Fn(f, 'data')
    return Learner()
IDS = {}
def eff(x, fit, d, k):
    i = IDS.setdefault(id(d), len(IDS))
    return SArr((d.shape[0], k), lambda ix: EFF(z3.IntVal(fit), z3.IntVal(i), ti(ix[0]), ti(ix[1])), 'f')
def pick(x, e, classes, c):
    for j, v in enumerate(classes):
        if E.fork(term(v) == term(c)): return e[:, j:j + 1]
    raise ValueError('no such class')

def run(x, levels, ny, classes, jobs, refit=False):
    np = x.np; IDS.clear(); log = []
    d = Data('d', ny, levels); d2 = Data('t', ny, levels, share=d)
    cl = None
    if classes:
        cs = [z3.Const('outcome_%d' % j, R) for j in range(3)]
        for a, b in zip(cs, cs[1:]): E.assume_global(a < b)
        cl = [SN(c) for c in cs]
    o = x.m.PermutedLearner(arbitrary(x, log, ny, cl))
    one = len(levels) == 1
    vals = list(d.levels['x0']) if one else [(a, b) for a in d.levels['x0'] for b in d.levels['x1']]
    Y, X = (d.y[0] if ny == 1 else PyList(d.y)), (d.x[0] if one else PyList(d.x))
    if refit:
        d0 = Data('z', ny, levels, lv='old', blocks=d); o.fit(d0.frame, Y, X, n_jobs=jobs, covariate=d.v); log.clear()
    r = o.fit(d.frame, Y, X, n_jobs=jobs, adjustment=d.w, covariate=d.v, combined_treatment=True)
    E.prove('fit returns the learner', z3.BoolVal(r is o))
    K = len(vals); pairs = {}
    same_ = lambda u, v: z3.And([term(a) == term(b) for a, b in zip(u, v)]) if not one else term(u) == term(v)
    E.prove('one learner per pair of treatment values', z3.BoolVal(len(log) == K * (K - 1) // 2))
    for i, (fd, fo, ft, t, c, kw) in enumerate(log):
        E.prove('fitted on the data', z3.BoolVal(fd is d.frame and fo is Y and kw.get('adjustment') is d.w and kw.get('covariate') is d.v and kw.get('combined_treatment') is True and set(kw) == {'adjustment', 'covariate', 'combined_treatment'}))
        q = [(a, b) for a in range(K) for b in range(K) if a != b and E.implied(z3.And(same_(t, vals[a]), same_(c, vals[b])))]
        E.prove('fitted for a pair of values', z3.BoolVal(len(q) == 1))
        if len(q) != 1: return
        pairs[q[0]] = i
    E.prove('every pair', z3.BoolVal(all(((a, b) in pairs) != ((b, a) in pairs) for a in range(K) for b in range(a))))
    def want(fr, t, c, j=None):
        """(n, y)"""
        k = ny if cl is None else len(cl)
        if t == c: e = np.zeros((fr.shape[0], k))
        elif (t, c) in pairs: e = eff(x, pairs[(t, c)], fr, k)
        else: e = -eff(x, pairs[(c, t)], fr, k)
        return e if cl is None else e[:, (len(cl) - 1 if j is None else j):][:, :1]
    def flat(e): return e[:, 0] if e.shp[1] == 1 else e
    arg = lambda v: v if one else PyList(list(v))
    same('default effect', o.estimate(), flat(want(d.frame, K - 1, 0)))
    ps = [(t, c) for t in range(K) for c in range(K) if t != c]
    if K > 3: ps = [(1, 2), (3, 0), (0, 3), (2, 1)]
    for t, c in ps:
        kw = dict(treat=arg(vals[t]), control=arg(vals[c]))
        same('effect of value %d against %d' % (t, c), o.estimate(d2.frame, **kw), flat(want(d2.frame, t, c)))
        if cl is None: same('average effect of value %d against %d' % (t, c), o.estimate(d2.frame, quantity='ATE', **kw), -np.mean(flat(want(d2.frame, c, t)), axis=0) if (c, t) in pairs else np.mean(flat(want(d2.frame, t, c)), axis=0))
    if one: same('values in lists', o.estimate(d2.frame, treat=PyList([vals[0]]), control=PyList([vals[1]])), flat(want(d2.frame, 0, 1)))
    if cl is not None:
        for j in range(3): same('effect on the class %d' % j, o.estimate(d2.frame, treat=arg(vals[1]), control=arg(vals[0]), target_outcome=cl[j]), flat(want(d2.frame, 1, 0, j)))
    if one:
        def refused(name, t, c):
            if E.fork(z3.Or([term(a) == term(v) for a in (t, c) for v in vals if a is not v])): return
            try: o.estimate(d2.frame, treat=t, control=c)
            except ValueError: return
            E.prove(name + ' is refused', z3.BoolVal(False))
        olds = list(d0.levels['x0']) if refit else [val(z3.Const('unknown value', R))]
        if refit: refused('a pair of values of an earlier fit', olds[1], olds[0])
        else: refused('a value against itself', vals[0], vals[0])
        refused('an unknown value', olds[-1], vals[0]); refused('an unknown control', vals[0], olds[-1])
    def table(fr, c, j=None): return np.concatenate([want(fr, t, c, j).reshape(fr.shape[0], -1, 1) for t in range(K)], axis=2)
    c = K - 1
    which = E.choose(3 if cl is None else 6)       # one table per path
    if which == 0: same('effects against the first value', o.effect_nji(d2.frame, n_jobs=jobs), table(d2.frame, 0))
    elif which == 1: same('effects on the training data', o.effect_nji(n_jobs=jobs), table(d.frame, 0))
    elif which == 2: same('effects against the last value', o.effect_nji(d2.frame, control=arg(vals[c]), n_jobs=jobs), table(d2.frame, c))
    else: j = which - 3; same('effects on the class %d' % j, o.effect_nji(d2.frame, control=arg(vals[1]), target_outcome=cl[j], n_jobs=jobs), table(d2.frame, 1, j))

HARNESS = {}
for _l in ((2,), (3,), (2, 2)):
    for _ny, _c in ((1, False), (2, False), (1, True)):
        HARNESS['%s values, %d outcome(s)%s' % (' x '.join(map(str, _l)), _ny, ', classes' if _c else '')] = lambda x, _l=_l, _ny=_ny, _c=_c: run(x, _l, _ny, _c, 1)
HARNESS['3 values, in parallel'] = lambda x: run(x, (3,), 1, False, None)
HARNESS['3 values, refit'] = lambda x: run(x, (3,), 1, False, 1, True)
