"""Why: the recording estimator makes every routed effect recomputable."""
from eutil import *
import zlib
from ylearn import Why
from ylearn.estimator_model import BaseEstModel
import ylearn.effect_interpreter.policy_interpreter as pim
STATS = {}
def h(s): return (zlib.crc32(str(s).encode()) % 97) / 97.0
def num(t):
    if isinstance(t, (tuple, list)): return sum((i + 1) * 1.3 ** i * np.asarray(v, dtype=float) for i, v in enumerate(t))
    return np.asarray(t, dtype=float)
def effect_of(key, cols, data, t, c, yo):
    base = sum((data[k].values.astype(float) * (h(k) - .4) for k in cols), np.zeros(len(data)))
    t, c = num(t), num(c)
    return (t - c) * (1 + h(key)) * (1 + .1 * base) + .01 * base * (t + 2 * c) + (0 if yo is None else (yo + 1) * .37)
class Rec(BaseEstModel):
    """an estimator whose effects are a fixed function of what it is asked"""
    def __init__(self, dx, dy, nyx=1):
        super().__init__(random_state=1, is_discrete_treatment=dx, is_discrete_outcome=dy); self.nyx = nyx; self.fits = []
    def fit(self, data, outcome, treatment, adjustment=None, covariate=None, instrument=None, **kw):
        self.fits.append(dict(data=data.copy(), outcome=outcome, treatment=treatment, adjustment=adjustment, covariate=covariate, instrument=instrument, kw=kw))
        self.key = tuple(treatment) if not isinstance(treatment, str) else treatment
        self.cols = sorted((adjustment or []) + (covariate or []) + (instrument or [])); self._is_fitted = True; self.train = self.fits[-1]['data']; return self
    def estimate(self, data=None, treat=None, control=None, target_outcome=None, **kw):
        d = self.train if data is None else data
        t = 1 if treat is None else treat; c = 0 if control is None else control
        if isinstance(t, (tuple, list)) and len(t) == 1: t, = t
        if isinstance(c, (tuple, list)) and len(c) == 1: c, = c
        return effect_of(self.key, self.cols, d, t, c, target_outcome).reshape(-1, 1)
    def _nji(self, data, control, yo):
        d = self.train if data is None else data
        if not self.is_discrete_treatment: return effect_of(self.key, self.cols, d, 1, 0 if control is None else control, yo).reshape(-1, 1, 1)
        ks = [self.key] if isinstance(self.key, str) else list(self.key)
        import itertools
        xs = list(itertools.product(*[range(int(self.train[k].max()) + 1) for k in ks]))
        c = (0,) * len(ks) if control is None else control if isinstance(control, (tuple, list)) else (control,)
        return np.stack([effect_of(self.key, self.cols, d, t, tuple(c), yo).reshape(-1, 1) for t in xs], axis=2)
    def effect_nji(self, data=None, control=None): return self._nji(data, control, None)
class RecY(Rec):
    """... also of the outcome asked for"""
    def effect_nji(self, data=None, control=None, target_outcome=None): return self._nji(data, control, target_outcome)
class RecAll(Rec):
    """... or for all the outcomes"""
    def effect_nji(self, data=None, control=None): return np.concatenate([self._nji(data, control, k) for k in range(self.nyx)], axis=1)

def mkdata(f, seed, n):
    d = frame(seed, n, f['treats'], 1, max(f['nw'], 1), f['nv'] , f['ylev'], least=5, cont=f['ncont'], odd_index=f['odd'])
    r = np.random.default_rng(seed + 1)
    if f['kinds'] & 1: d['vs'] = [('p', 'q', 'rr')[i] for i in r.integers(0, 3, n)]
    if f['kinds'] & 2: d['vb'] = r.integers(0, 2, n).astype(bool)
    if f['kinds'] & 4: d['vn'] = np.where(r.random(n) < .2, np.nan, r.normal(size=n))
    if f['kinds'] & 8: d['vm'] = [('u', 'v', np.nan)[i] for i in r.integers(0, 3, n)]
    if f['kinds'] & 16: d['z0'] = r.normal(size=n)
    d = d.rename(columns={'y0': f['yname']})
    return d
def cases(rng, n):
    for i in range(n):
        fits = []
        for _ in range(rng.choice([1, 1, 2])):
            disc = rng.random() < .72
            k = rng.choice([1, 1, 2, 2, 3])
            fits.append(dict(seed=rng.randint(0, 10 ** 6), n=rng.choice([40, 50, 61]), treats=[levels(rng) for _ in range(k)] if disc else [], ncont=0 if disc else k, ylev=levels(rng) if rng.random() < .45 else None,
                             nw=rng.choice([0, 1, 2]), nv=rng.choice([1, 2]), kinds=rng.randint(0, 31), odd=rng.random() < .7, yname=rng.choice(['y', 'a out', 'zz']),
                             sets=rng.choice(['av', 'av', 'v', 'none', 'a', 'extra']), asstr=rng.random() < .3))
        # an option given explicitly must be right for every fit
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append(dict(op=rng.choice(['ate', 'ate', 'ite', 'individual', 'whatif', 'uplift', 'policy', 'score', 'fit', 'identify']), seed=rng.randint(0, 10 ** 6), n=rng.choice([23, 30]),
                            test=rng.random() < .8, sub=rng.choice(['all', 'all', 'one', 'str', 'rev']), treat=rng.choice([None, None, 'given']), control=rng.choice([None, 'given']), yo=rng.choice([None, 'given']),
                            combined=rng.random() < .3, detail=rng.random() < .5))
        yield dict(fits=fits, ops=ops, cost=rng.random() < .35, effname=rng.choice(['effect', 'eff']), nji=rng.choice(['Rec', 'RecY', 'RecAll']), explicit=rng.random() < .5, seed=i)

class Ref:
    """what a fit determines"""
    def __init__(self, f, d, given):
        self.f, self.d, self.y = f, d, f['yname']
        self.disc = not f['ncont']; self.dy = f['ylev'] is not None
        self.T = ['x%d' % i for i in range(len(f['treats']))] if self.disc else ['c%d' % i for i in range(f['ncont'])]
        self.A, self.V, self.Z = given
        self.cls = {t: sorted(set(d[t].tolist())) for t in self.T} if self.disc else {}
        self.ycls = sorted(set(d[self.y].tolist())) if self.dy else None
        self.cols = (self.A or []) + (self.V or []) + (self.Z or [])
        self.enc = {}
        for c in self.cols:
            if d[c].dtype == object: self.enc[c] = ('cat', sorted(set('' if v != v else v for v in d[c].tolist())))
            elif d[c].dtype == bool: self.enc[c] = ('cat', sorted(set(d[c].tolist())))
            else: self.enc[c] = ('num', float(np.nanmean(d[c].values.astype(float))))
    def pre(self, d):
        o = d.copy()
        for c, (k, m) in self.enc.items():
            if k == 'cat': o[c] = [float(m.index('' if v != v else v)) if ('' if v != v else v) in m else float(len(m)) for v in d[c].tolist()]
            else: o[c] = [m if v != v else float(v) for v in d[c].tolist()]
        if self.dy and self.y in o: o[self.y] = [self.ycls.index(v) for v in d[self.y].tolist()]
        return o
    def code(self, x, v): return self.cls[x].index(v)
    def effect(self, key, d, t, c, yo=None): return effect_of(key, sorted(self.cols), self.pre(d), t, c, yo)
    def yo(self, v): return None if not self.dy else (len(self.ycls) - 1 if v is None else self.ycls.index(v))

def fit(case, why, f):
    d = mkdata(f, f['seed'], f['n'])
    T = ['x%d' % i for i in range(len(f['treats']))] or ['c%d' % i for i in range(f['ncont'])]
    w = [c for c in d if c[0] == 'w']; v = [c for c in d if c[0] == 'v']; z = ['z0'] if 'z0' in d.columns else None
    s = f['sets']; given = {'av': (w, v, z), 'v': (None, w + v, None), 'none': (None, None, None), 'a': (w + v, None, z), 'extra': (T[:1] + w, v + T[-1:], z)}[s]
    if s in ('v', 'a') and z and s == 'v': pass
    args = [None if g is None else list(g) for g in given]; tt = list(T)
    if f['asstr']: pas = [None if a is None else ', '.join(a) for a in args]; tp = ','.join(tt)
    else: pas, tp = args, tt
    keep = (list(tt), [None if a is None else list(a) for a in args]); d0 = d.copy()
    kw = dict(zip(('adjustment', 'covariate', 'instrument'), pas)); kw = {k: a for k, a in kw.items() if a is not None}
    r = why.fit(d, f['yname'], treatment=tp, marker=f['seed'], **kw)
    if r is not why: raise Diff('fit does not return the object')
    unchanged('fit', d, d0)
    if not f['asstr'] and (tt, args) != keep: raise Diff('fit modified the name lists it was given: %r became %r' % (keep, (tt, args)))
    if s == 'none': sets = (None, [c for c in d.columns if c not in T and c != f['yname']], None)
    else: sets = tuple(None if a is None else [c for c in a if c not in T] for a in keep[1])
    R = Ref(f, d, sets)
    if why.discrete_outcome != R.dy: raise Diff('discrete_outcome is %r for %r' % (why.discrete_outcome, f['ylev']))
    if why.discrete_treatment != R.disc: raise Diff('discrete_treatment is %r for %r' % (why.discrete_treatment, f['treats']))
    keys = list(T) + ([(a, b) for a in T for b in T if a != b] if R.disc else [])
    if set(why.estimators_) != set(keys): raise Diff('estimators for %r, expected %r' % (list(why.estimators_), keys))
    p = R.pre(d)
    for t in R.cls: p[t] = [R.code(t, q) for q in d[t].tolist()]
    for k in keys:
        e = why.estimators_[k]
        if len(e.fits) != 1: raise Diff('estimator of %r fitted %d times' % (k, len(e.fits)))
        g = e.fits[0]
        if (tuple(g['treatment']) if not isinstance(g['treatment'], str) else g['treatment']) != k or g['outcome'] != f['yname']: raise Diff('estimator of %r fitted for %r -> %r' % (k, g['treatment'], g['outcome']))
        for nm, q in zip(('adjustment', 'covariate', 'instrument'), sets):
            if (g[nm] or None) != (q or None) and list(g[nm] or []) != list(q or []): raise Diff('estimator of %r fitted with %s %r, expected %r' % (k, nm, g[nm], q))
        if g['kw'] != dict(marker=f['seed']): raise Diff('options of fit: %r' % (g['kw'],))
        if list(g['data'].index) != list(d.index): raise Diff('rows of the fitted data')
        for c in R.cols + T + [f['yname']]: want('fitted data, column %s' % c, g['data'][c].values.astype(float), p[c].values.astype(float))
    return R
def identify(rng, R, f):
    """treatments found by a discovery method: the strongest causes of one kind"""
    d = mkdata(f, f['seed'], f['n']); d0 = d.copy(); y = R.y
    names = [c for c in d.columns if c != y]; causes = [c for c in names if rng.random() < .7] or names[:1]
    r = np.random.default_rng(f['seed']); wt = {c: (1 if rng.random() < .5 else -1) * (.1 + i) for i, c in zip(r.permutation(len(causes)), causes)}
    def learner(X):
        m = pd.DataFrame(0.0, index=X.columns, columns=X.columns)
        for c, v in wt.items(): m.loc[c, y] = v
        for a, b in zip(names, names[1:]): m.loc[a, b] = .3
        m.loc[y, y] = 99.0 if rng.random() < .3 else 0.0
        return m
    disc = rng.choice([None, True, False]); lim = rng.choice([None, 1, 2, 3]); arr = rng.random() < .4
    fn = (lambda X: learner(X).values) if arr else (lambda X: learner(X))
    kind = lambda c: not (c[0] in 'wcz' or c[:2] in ('v0', 'v1', 'vn'))
    order = sorted(wt, key=lambda c: -abs(wt[c]))
    k0 = kind(order[0]) if disc is None else disc
    n = lim if lim is not None else min(int(np.ceil(d.shape[1] * .1)), 5)
    exp = [c for c in order if kind(c) == k0][:n]
    if not exp: return
    cov = [c for c in names if c[0] in 'wv']
    w = Why(identifier=fn, discrete_treatment=disc); keep = list(cov)
    t, a, v, z = w.identify(d, y, covariate=cov, treatment_count_limit=lim)
    unchanged('identify', d, d0)
    if cov != keep: raise Diff('identify modified the names it was given')
    if list(t) != exp: raise Diff('identified treatments %r, expected %r (weights %r)' % (t, exp, wt))
    if list(v) != [c for c in keep if c not in exp] or a or z: raise Diff('identified covariates %r' % (v,))
    if bool(w.discrete_treatment) != k0: raise Diff('discrete_treatment %r' % w.discrete_treatment)
def sel(R, op, rng):
    T = list(R.T)
    if op['sub'] == 'one': T = [rng.choice(T)]
    elif op['sub'] == 'rev': T = T[::-1]
    return T
def cost(case, R, d, eff):
    if not case['cost']: return eff
    return np.asarray([e * 2 - 3 * a + (1 if b == R.f_first else 0) for e, a, b in zip(eff, d['v0'].values, d[R.T[0]].tolist())])
@guard
def check(case):
    import random
    kinds = {(bool(f['treats']), f['ylev'] is not None) for f in case['fits']}
    opt = {}
    if case['explicit'] and len(kinds) == 1: (dx, dy), = kinds; opt = dict(discrete_outcome=dy, discrete_treatment=dx)
    f0 = case['fits'][0]
    first = {}
    eff = case['effname']
    def fc(row): return row[eff] * 2 - 3 * row['v0'] + (1 if row[first['x']] == first['v'] else 0)
    why = Why(estimator=None if False else Rec(bool(f0['treats']), f0['ylev'] is not None), fn_cost=fc if case['cost'] else None, effect_name=eff, **opt)
    fi = 0
    def dofit(f):
        cls = {'Rec': Rec, 'RecY': RecY, 'RecAll': RecAll}[case['nji']] if f['ylev'] is not None else Rec
        why.estimator = cls(bool(f['treats']), f['ylev'] is not None, len(f['ylev'] or [0]))
        R = fit(case, why, f); R.f_first = f['treats'][0][0] if f['treats'] else -99; first.update(x=R.T[0], v=R.f_first); return R
    R = dofit(f0)
    for op in case['ops']:
        rng = random.Random(op['seed']); o = op['op']; f = R.f; STATS[o] = STATS.get(o, 0) + 1
        if o == 'identify': identify(rng, R, f); continue
        if o == 'fit': fi = (fi + 1) % len(case['fits']); R = dofit(case['fits'][fi]); continue
        d = mkdata(f, op['seed'], max(op['n'], 30 if f['ylev'] else 25)) if op['test'] or case['cost'] or o not in ('ate', 'ite') else None
        if d is not None and R.disc: d = d[[all(r[t] in R.cls[t] for t in R.T) for _, r in d.iterrows()]]
        if d is not None and R.dy: d = d[[y in R.ycls for y in d[R.y].tolist()]]
        d0 = None if d is None else d.copy()
        T = sel(R, op, rng); targ = None if op['sub'] == 'all' else (','.join(T) if op['sub'] == 'str' else list(T)); tkw = {} if targ is None else dict(treatment=targ)
        base = R.d if d is None else d
        yov = rng.choice(R.ycls) if R.dy and op['yo'] else None; ykw = {} if yov is None else dict(target_outcome=yov); yo = R.yo(yov)
        if o in ('ate', 'ite'):
            comb = op['combined'] and R.disc and len(T) <= 2
            kw = dict(tkw, **ykw)
            if d is not None: kw['test_data'] = d
            if o == 'ite': kw['quantity'] = 'ITE'
            elif op['detail']: kw['return_detail'] = True
            if comb: kw['combine_treatment'] = True
            exp = []
            if R.disc:
                cv = [rng.choice(R.cls[x]) for x in T]; tv = [rng.choice([q for q in R.cls[x] if q != c] or R.cls[x]) for x, c in zip(T, cv)]
                form = lambda v: v[0] if len(v) == 1 and rng.random() < .5 else list(v)
                if op['control']: kw['control'] = form(cv)
                else: cv = [R.cls[x][0] for x in T]
                if op['treat']: kw['treat'] = form(tv)
                if comb:
                    import itertools
                    ts = [tuple(tv)] if op['treat'] else list(itertools.product(*[R.cls[x] for x in T]))
                    for t in ts:
                        if t == tuple(cv): continue
                        if len(T) == 1: exp.append(((T[0], '%s vs %s' % (t[0], cv[0])), R.effect(T[0], base, R.code(T[0], t[0]), R.code(T[0], cv[0]), yo)))
                        else: exp.append(((str(T), '%s vs %s' % (list(t), list(cv))), R.effect(tuple(T), base, tuple(map(R.code, T, t)), tuple(map(R.code, T, cv)), yo)))
                else:
                    for x, c, t1 in zip(T, cv, tv):
                        for t in ([t1] if op['treat'] else [q for q in R.cls[x] if q != c]):
                            exp.append(((x, '%s vs %s' % (t, c)), R.effect(x, base, R.code(x, t), R.code(x, c), yo)))
                if not exp: continue
            else:
                n = len(base)
                arr = lambda: [round(rng.uniform(-2, 2), 3) if rng.random() < .6 else np.array([rng.uniform(-2, 2) for _ in range(n)]) for _ in T]
                tv, cv = arr() if op['treat'] else None, arr() if op['control'] else None
                form = lambda v: v[0] if len(v) == 1 and rng.random() < .5 else list(v)
                if tv: kw['treat'] = form(tv)
                if cv: kw['control'] = form(cv)
                for i, x in enumerate(T):
                    t = tv[i] if tv else 1.0; c = cv[i] if cv else 0.0
                    exp.append((x, R.effect(x, base, t, c)))
            e = why.causal_effect(**kw)
            if o == 'ite':
                # columns: one per comparison
                got = [(k, e.iloc[:, i].values) for i, k in enumerate(e.columns)]
            else: got = [(k, e.iloc[i]) for i, k in enumerate(e.index)]
            if R.disc and comb and len(T) == 2:
                import re
                norm = lambda k: (k[0], re.sub(r'[\'"() ]|\[|\]', '', re.sub(r'np\.\w+\(', '', k[1])))
                # labels of two treatments: compare by text without punctuation (mixed types become text)
                nm = lambda k: [re.sub(r"\.0$", '', q) for q in norm(k)[1].replace('vs', ',').split(',')]
                if [nm(k) for k, _ in got] != [nm(k) for k, _ in exp]: raise Diff('causal_effect %r: rows %r, expected %r' % (kw.keys(), [k for k, _ in got], [k for k, _ in exp]))
            elif [str(k) for k, _ in got] != [str(k) for k, _ in exp]: raise Diff('causal_effect %r: rows %r, expected %r' % ({k: v for k, v in kw.items() if k != 'test_data'}, [k for k, _ in got], [k for k, _ in exp]))
            for (k, g), (_, x) in zip(got, exp):
                x = cost(case, R, base, x)
                if o == 'ite': want('causal_effect ITE of %r' % (k,), g, x)
                else:
                    want('causal_effect ATE of %r' % (k,), [g['mean'], g['min'], g['max'], g['std']], [x.mean(), x.min(), x.max(), x.std()])
                    if op['detail']: want('details of %r' % (k,), g['detail'], x)
        elif o == 'individual':
            d = d.iloc[:8]; d0 = d.copy(); kw = dict(ykw)
            if R.disc:
                cv = [rng.choice(R.cls[x]) for x in R.T]
                if op['control']: kw['control'] = cv[0] if len(cv) == 1 and rng.random() < .5 else list(cv)
                else: cv = [R.cls[x][0] for x in R.T]
                e = why.individual_causal_effect(d, **kw)
                i = 0
                for q, ri in enumerate(d.index):
                    for x, c in zip(R.T, cv):
                        t = d[x].tolist()[q]; k = e.index[i]; v = float(e.iloc[i]['effect']); i += 1
                        if tuple(map(str, k)) != (str(ri), x, '%s vs %s' % (t, c)): raise Diff('individual effect labelled %r, expected %r' % (k, (ri, x, '%s vs %s' % (t, c))))
                        want('individual effect of %r (target outcome %r)' % (k, yov), v, 0.0 if t == c else R.effect(x, d.iloc[q:q + 1], R.code(x, t), R.code(x, c), yo)[0])
                if i != len(e): raise Diff('%d individual effects, expected %d' % (len(e), i))
            else:
                cv = [round(rng.uniform(-2, 2), 3) for _ in R.T]
                if op['control']: kw['control'] = list(cv)
                else: cv = [0.0] * len(R.T)
                e = why.individual_causal_effect(d, **kw)
                if list(e.columns) != R.T: raise Diff('individual effects of %r' % list(e.columns))
                for x, c in zip(R.T, cv): want('individual effect of %s' % x, e[x].values, R.effect(x, d, d[x].values, c))
        elif o == 'whatif':
            if R.dy: continue
            x = T[0]; nv = [rng.choice(R.cls[x]) for _ in range(len(d))] if R.disc else np.array([rng.uniform(-2, 2) for _ in range(len(d))])
            arg = pd.Series(nv, index=d.index) if rng.random() < .5 or R.disc and isinstance(nv[0], str) else np.array(nv)
            kw = {} if op['sub'] == 'all' else dict(treatment=x)
            if op['sub'] == 'all': x = R.T[0] if not R.disc or x == R.T[0] else x
            y = why.whatif(d, arg, **kw)
            if list(y.index) != list(d.index): raise Diff('whatif changes the rows')
            if R.disc:
                ef = np.array([0.0 if t == c else R.effect(x, d.iloc[q:q + 1], R.code(x, t), R.code(x, c))[0] for q, (t, c) in enumerate(zip(nv, d[x].tolist()))])
            else: ef = R.effect(x, d, nv, d[x].values)
            want('whatif %s' % x, y.values, d[R.y].values.astype(float) + cost(case, R, d, ef))
        elif o in ('uplift', 'score'):
            if not R.disc or len(T) > 2 or (op['sub'] == 'all' and len(R.T) > 2): continue
            if not R.V: continue
            kw = dict(tkw, **ykw)
            cv = [R.cls[x][0] for x in T]; tv = [R.cls[x][-1] for x in T]
            cv2 = [rng.choice(R.cls[x]) for x in T]; tv2 = [rng.choice(R.cls[x]) for x in T]
            if op['control'] and cv2 != tv2 and cv2 != tv: cv = cv2; kw['control'] = list(cv)
            if op['treat'] and tv2 != cv: tv = tv2; kw['treat'] = list(tv)
            rows = np.array([tuple(q) in (tuple(tv), tuple(cv)) for q in zip(*[d[x].tolist() for x in T])])
            isT = np.array([tuple(q) == tuple(tv) for q in zip(*[d[x].tolist() for x in T])])
            if isT.sum() < 1 or (rows & ~isT).sum() < 1: continue
            np.random.seed(5); um = why.uplift_model(d, **kw); l = um.lift_; key = T[0] if len(T) == 1 else tuple(T)
            if list(l.index) != list(d.index[rows]): raise Diff('uplift data has rows %r, expected %r' % (list(l.index), list(d.index[rows])))
            ex = R.effect(key, d[rows], tuple(map(R.code, T, tv)) if len(T) > 1 else R.code(T[0], tv[0]), tuple(map(R.code, T, cv)) if len(T) > 1 else R.code(T[0], cv[0]), yo)
            name = '_'.join(map(str, tv))
            if name not in l.columns: raise Diff('uplift columns %r, expected %r' % (list(l.columns), name))
            want('uplift effect of %r for %r vs %r (outcome %r)' % (key, tv, cv, yov), l[name].values, ex)
            want('uplift treatment', l['_x_'].values, isT[rows].astype(float)); want('uplift outcome', l['_y_'].values, R.pre(d)[R.y].values[rows])
            if o == 'score' and op['sub'] == 'all':
                for sc in ('auuc', 'qini'):
                    np.random.seed(5); want('score %s' % sc, why.score(d, scorer=sc, **kw), (um.auuc_score() if sc == 'auuc' else um.qini_score()).mean())
        elif o == 'policy':
            if len(T) > 2 or not R.V or (R.dy and not R.disc): continue
            if op['sub'] == 'all': T = R.T[:2]
            kw = dict(tkw, **ykw) if R.disc else dict(tkw); seen = []
            if R.disc:
                cv = [rng.choice(R.cls[x]) for x in T]
                if op['control']: kw['control'] = list(cv)
                else: cv = [R.cls[x][0] for x in T]
            elif op['control']: cv = [round(rng.uniform(-2, 2), 3) for _ in T]; kw['control'] = list(cv)
            else: cv = [0.0] * len(T)
            P = pim.PolicyInterpreter; keep = P.fit
            def fake(self, data, est_model, *, covariate=None, effect=None, effect_array=None, treatment_names=None, **k): seen.append((data, covariate, effect_array, treatment_names)); return self
            P.fit = fake
            try: why.policy_interpreter(d, **kw)
            finally: P.fit = keep
            dd, cov, ea, names = seen[0]
            if list(cov) != list(R.V): raise Diff('policy covariates %r' % (cov,))
            p = R.pre(d)
            for c in R.V: want('policy data %s' % c, dd[c].values.astype(float), p[c].values)
            if R.disc:
                import itertools
                combos = list(itertools.product(*[R.cls[x] for x in T])); key = T[0] if len(T) == 1 else tuple(T)
                if list(names) != ['_'.join(map(str, q)) for q in combos]: raise Diff('policy treatment names %r' % (names,))
                yy = yo if case['nji'] == 'RecAll' or (case['nji'] == 'RecY' and yov is not None) else None
                ex = np.stack([effect_of(key, sorted(R.cols), p, tuple(map(R.code, T, q)), tuple(map(R.code, T, cv)), yy if R.dy else None) for q in combos], axis=1)
            else:
                if list(names) != list(T): raise Diff('policy treatment names %r' % (names,))
                ex = np.stack([effect_of(x, sorted(R.cols), p, 1, c, None) for x, c in zip(T, cv)], axis=1)
            ex = np.stack([cost(case, R, d, ex[:, i]) for i in range(ex.shape[1])], axis=1)
            want('policy effects of %r' % (T,), ea, ex)
        if d is not None: unchanged(o, d, d0)
def shrink(case):
    o = case['ops']
    for i in range(len(o)): yield dict(case, ops=o[:i] + o[i + 1:])
    for k in ('cost',):
        if case[k]: yield dict(case, **{k: False})
    for i, f in enumerate(case['fits']):
        for k, v in (('kinds', 0), ('asstr', False), ('odd', False), ('nw', 0)):
            if f[k]: yield dict(case, fits=case['fits'][:i] + [dict(f, **{k: v})] + case['fits'][i + 1:])
