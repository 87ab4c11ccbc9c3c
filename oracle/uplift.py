import numpy as np, pandas as pd
from ylearn.uplift import _metric as M, UpliftModel
from eutil import Diff, guard, want, unchanged
STATS = {}
def cases(rng, n):
    for i in range(n):
        yield dict(seed=rng.randrange(10 ** 6), n=rng.choice([2, 3, 4, 6, 9, 15, 25, 40]), cols=rng.choice([1, 2, 3]), te=rng.random() < .4, groups=rng.choice([[1, 0], [1, 0], [0, 1], [2, 1], ['a', 'b'], ['yes', 'no']]),
                   random=rng.choice([None, 'RANDOM', 'rnd']), late=rng.random() < .3, neg=rng.random() < .4, names=rng.choice([['y', 'x', 'te'], ['sales', 'promo', 'tau']]), dup=rng.random() < .2, const=rng.random() < .1)
def data(case):
    r = np.random.default_rng(case['seed']); n = case['n']; Y, X, T = case['names']; t, c = case['groups']
    x = [t, c] + [(t, c)[k] for k in r.integers(0, 2, n - 2)]; x = [x[i] for i in r.permutation(n)]
    cols = {Y: np.round(r.normal(size=n), 3) + (-3 if case['neg'] else 1), X: x}
    if case['te']: cols[T] = np.round(r.normal(size=n) + .7, 3)
    for i in range(case['cols']): cols['m%d' % i] = r.permutation(n) * .37 - 3 + (np.array([1000. * (v == c) for v in x]) if case['late'] and i == 0 else 0)
    if case['const']: cols[Y] = np.full(n, 2.5)
    names = list(cols); d = pd.DataFrame({k: cols[k] for k in (names[i] for i in r.permutation(len(names)))})
    d.index = r.integers(0, 3, n) if case['dup'] else r.permutation(n) * 2 + 5
    return d
def raw(case, d, kind, score):
    """the curve at places 1..n, None where it is not defined"""
    Y, X, T = case['names']; t, c = case['groups']; n = len(d)
    order = sorted(range(n), key=lambda i: -score[i]); y, x = list(d[Y]), list(d[X]); te = list(d[T]) if case['te'] else None
    out = []
    for k in range(1, n + 1):
        top = order[:k]; T1 = [i for i in top if x[i] == t]; T0 = [i for i in top if x[i] == c]
        if te is not None:
            m = sum(te[i] for i in top) / k; v = {'lift': m, 'gain': m * k, 'qini': m * len(T1)}[kind]
        elif kind == 'qini': v = None if not T0 else sum(y[i] for i in T1) - sum(y[i] for i in T0) * len(T1) / len(T0)
        else: v = None if not T0 or not T1 else (sum(y[i] for i in T1) / len(T1) - sum(y[i] for i in T0) / len(T0)) * (k if kind == 'gain' else 1)
        out.append(v)
    return out, [score[i] for i in order]
def curve(v):
    v = [0.0] + list(v)
    for k in range(len(v)):
        if v[k] is not None: continue
        a = k - 1; b = next((j for j in range(k, len(v)) if v[j] is not None), None)
        if b is None: v[k] = v[a]
        else: v[k] = v[a] + (v[b] - v[a]) / (b - a)
    return np.array(v)
class Draws:
    """the random rankings drawn"""
    def __enter__(self):
        self.calls = []; self.old = np.random.rand
        def rand(*s): v = self.old(*s); self.calls.append(v); return v
        np.random.rand = rand; return self
    def __exit__(self, *a): np.random.rand = self.old
def table(case, d, kind, draws, random):
    scores = {c: list(d[c]) for c in d.columns if c not in case['names']}
    out = {c: curve(raw(case, d, kind, s)[0]) for c, s in scores.items()}
    if random is not None: out[random] = np.mean([curve(raw(case, d, kind, list(v))[0]) for v in draws], axis=0) if len(draws) == 10 else None
    return out
def norm(w): return None if w is None else w / abs(w[-1])
def compare(name, got, exp, f=lambda w: w):
    if list(got.columns) != list(exp): raise Diff('%s: columns %s, expected %s' % (name, list(got.columns), list(exp)))
    n = len(next(iter(exp.values())))
    if list(got.index) != list(range(n)): raise Diff('%s: rows %s' % (name, list(got.index)))
    for c, w in exp.items():
        if w is not None: want('%s of %s' % (name, c), got[c].values, f(w), 1e-6)
        elif got[c].isnull().any() or got[c].iloc[0] != 0: raise Diff('%s: the random curve is incomplete' % name)
def tops(name, case, d, kind, t):
    scores = {c: list(d[c]) for c in d.columns if c not in case['names']}
    if list(t.index) != list(scores): raise Diff('%s: %s, expected %s' % (name, list(t.index), list(scores)))
    for c, s in scores.items():
        v, sc = raw(case, d, kind, s); best = max(u for u in v if u is not None)
        ok = [sc[k] for k, u in enumerate(v) if u is not None and abs(u - best) < 1e-7]
        if min(abs(t[c] - o) for o in ok) > 1e-9: raise Diff('%s of %s: %r, the curve is highest at %s' % (name, c, t[c], ok[:3]))
def score(name, got, exp, kind, random, base):
    names = [c for c in exp if c != base or random is not None]
    if list(got.index) != names: raise Diff('%s: %s, expected %s' % (name, list(got.index), names))
    if got.name != ('auuc' if kind == 'gain' else 'qini'): raise Diff('%s is called %s' % (name, got.name))
    for c in names:
        w = exp[c]; b = exp[base] if kind == 'qini' else 0
        if w is None or b is None: continue
        want('%s of %s' % (name, c), got[c], (np.sum(w) - np.sum(b)) / len(w), 1e-6)
@guard
def check(case):
    d = data(case); d0 = d.copy(); Y, X, T = case['names']; t, c = case['groups']; rn = case['random']
    kw = dict(outcome=Y, treatment=X, true_effect=T if case['te'] else None, treat=t, control=c)
    flat = False
    for k in ('gain', 'qini'):
        e = table(case, d, k, [], None); flat = flat or any(abs(w[-1]) < 1e-9 for w in e.values())
    for kind, f in (('lift', M.get_cumlift), ('gain', M.get_gain), ('qini', M.get_qini)):
        with Draws() as D: r = f(d, random_name=rn, **dict(kw, **({} if kind == 'lift' else dict(normalize=False))))
        exp = table(case, d, kind, D.calls, rn); compare(kind, r, exp); unchanged(kind, d, d0)
        if kind == 'lift': continue
        with Draws() as D: r, p = f(d, random_name=rn, return_top_point=True, **kw)
        if not flat: compare('normalised ' + kind, r, table(case, d, kind, D.calls, rn), norm)
        tops(kind + ' top point', case, d, kind, p)
        tops(kind + ' top point', case, d, kind, (M.gain_top_point if kind == 'gain' else M.qini_top_point)(d, **kw))
        for nm in (False, True):
            if nm and flat: continue
            with Draws() as D: r = (M.auuc_score if kind == 'gain' else M.qini_score)(d, random_name=rn, normalize=nm, **kw)
            base = rn or 'RANDOM'
            exp = table(case, d, kind, D.calls, rn if kind == 'gain' else base)
            score('%s score' % kind, r, {a: norm(w) if nm else w for a, w in exp.items()}, kind, rn, base)
    m = UpliftModel(); m.fit(d, random=rn, **kw); unchanged('fit', d, d0)
    for kind, g in (('lift', m.get_cumlift), ('gain', m.get_gain), ('qini', m.get_qini)):
        for again in (0, 1):
            r = g(); compare('UpliftModel ' + kind, r, dict(table(case, d, kind, [], None), **({rn: None} if rn else {}))); r.iloc[:, :] = 7.
        if kind != 'lift' and not flat: compare('UpliftModel normalised ' + kind, g(normalize=True), dict(table(case, d, kind, [], None), **({rn: None} if rn else {})), norm)
    cols = [a for a in d.columns if a not in case['names']]
    tops('UpliftModel.gain_top_point', case, d, 'gain', m.gain_top_point()); tops('UpliftModel.qini_top_point', case, d, 'qini', m.qini_top_point())
    if not flat:
        a = m.auuc_score(); e = table(case, d, 'gain', [], None)
        if list(a.index) != cols or list(m.qini_score().index) != cols: raise Diff('UpliftModel scores of %s' % list(a.index))
        for q in cols: want('UpliftModel.auuc_score of ' + q, a[q], norm(e[q]).mean(), 1e-6); want('auuc_score by name', m.auuc_score(q), a[q]); want('qini_score by name', m.qini_score(q), m.qini_score()[q])
        q = m.qini_score(); e = table(case, d, 'qini', [], None)
        diff = [q[c_] - norm(e[c_]).mean() for c_ in cols]
        if max(diff) - min(diff) > 1e-6: raise Diff('UpliftModel.qini_score: not the areas less a common one: %s' % dict(q))
    return None
def shrink(case):
    for k in (2, 3, 4, 6, 9):
        if k < case['n']: yield dict(case, n=k)
    if case['cols'] > 1: yield dict(case, cols=1)
