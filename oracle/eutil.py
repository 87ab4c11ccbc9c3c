"""Concrete estimator oracles: random data frames, reference computations, comparison."""
import warnings; warnings.simplefilter('ignore')
import logging; logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd
from sklearn.base import clone
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.neighbors import KNeighborsRegressor, KNeighborsClassifier
from sklearn.tree import DecisionTreeRegressor, DecisionTreeClassifier
from sklearn.naive_bayes import GaussianNB

LEVELS = [[0, 1], [0, 1, 2], [10, 20], [3, 5, 9], [-2, 0, 7, 8], ['a', 'b'], ['run', 'rest', 'walk'], [0.5, 1.5], [1, 2], [2, 1, 0]]
def levels(rng, k=None):
    ls = rng.choice([l for l in LEVELS if k is None or len(l) == k])
    return sorted(ls)
def regressor(name):
    return {'lin': LinearRegression(), 'knn': KNeighborsRegressor(3), 'tree': DecisionTreeRegressor(max_depth=4, random_state=0), 'ridge': Ridge(1.3)}[name]
def classifier(name):
    return {'log': LogisticRegression(max_iter=500), 'nb': GaussianNB(), 'knn': KNeighborsClassifier(5), 'tree': DecisionTreeClassifier(max_depth=4, random_state=0)}[name]
def spread(r, levels, n, least):
    """n values, each level at least `least` times, shuffled"""
    x = [l for l in levels for _ in range(least)]
    x += [levels[i] for i in r.integers(0, len(levels), n - len(x))]
    idx = r.permutation(n)
    return [x[i] for i in idx]
def frame(seed, n, treats, ny=1, nw=2, nv=1, ylevels=None, least=6, cont=0, odd_index=True):
    """columns y0.., x0.. (discrete), c0.. (continuous treatments), w.., v.."""
    r = np.random.default_rng(seed)
    cols = {}
    for i in range(nw): cols['w%d' % i] = r.normal(size=n)
    for i in range(nv): cols['v%d' % i] = r.normal(size=n)
    code = np.zeros(n)
    for i, l in enumerate(treats):
        x = spread(r, l, n, least); cols['x%d' % i] = x; code = code * 1.7 + np.array([l.index(a) for a in x])
    for i in range(cont): cols['c%d' % i] = r.normal(size=n) + (cols['w0'] if nw else 0); code = code + cols['c%d' % i] * (1 + i)
    base = sum((cols[c] for c in cols if c[0] in 'wv'), np.zeros(n))
    for i in range(ny):
        y = code * (1 + i) + base * (1 + .5 * code) + r.normal(size=n)
        if ylevels is not None:
            # every class in every treatment group
            key = code if treats else np.zeros(n); out = np.empty(n, dtype=object)
            for g in np.unique(key):
                ix = np.where(key == g)[0]; o = ix[np.argsort(y[ix] + 2 * r.normal(size=len(ix)))]
                for j, p in enumerate(np.array_split(o, len(ylevels))):
                    for q in p: out[q] = ylevels[j]
            y = pd.Series(list(out)).values
        cols['y%d' % i] = y
    names = list(cols); names = [names[i] for i in r.permutation(len(names))]
    d = pd.DataFrame({c: cols[c] for c in names})
    if odd_index: d.index = r.permutation(n) * 3 + 7
    return d
def close(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape: return 'shape %s, expected %s' % (a.shape, b.shape)
    if not np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True):
        bad = ~np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True); i = tuple(int(q) for q in np.argwhere(bad)[0])
        return 'value %r at %s, expected %r (%d of %d differ)' % (float(a[i]), i, float(b[i]), int(bad.sum()), bad.size)
class Diff(Exception): pass
def want(name, a, b, tol=1e-7):
    m = close(a, b, tol)
    if m: raise Diff('%s: %s' % (name, m))
def guard(f):
    """a check function that reports Diff as a message"""
    def g(case):
        try: return f(case)
        except Diff as e: return str(e)
    return g
def unchanged(name, d, d0):
    if list(d.columns) != list(d0.columns) or not d.equals(d0) or not d.index.equals(d0.index): raise Diff('%s modified the data frame it was given' % name)
def smaller(case, *keys):
    for k, lo in keys:
        if isinstance(case.get(k), int) and case[k] > lo: yield dict(case, **{k: case[k] - 1})
