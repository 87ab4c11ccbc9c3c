"""Facades of pandas frames, scikit-learn estimators and encoders: their assumed contracts, in terms of symbolic arrays."""
import builtins, types
import z3
from .core import *
from .core import E, eq, tob, term, val, mkb
from . import coll, pyfac, snp
from .coll import PyList, bound, SSeq
from .snp import SArr, nx, ti, ite, ilt, isub, iadd, real

# ------------------------------------------------------------------ data frames
class Col:
    """one column: name, element term of a row index, kind, and (for a treatment or a class) its sorted distinct values"""
    def __init__(self, name, fn, kind='f', levels=None): self.name, self.fn, self.kind, self.levels = name, fn, kind, levels
class Block:
    """a list of an arbitrary number p of column names"""
    def __init__(self, name, p): self.name, self.p = name, nx(p)
    def vlen(self): return snp.dv(self.p)

def column(prefix, name, n, kind='f', levels=None):
    f = z3.Function('%s.%s' % (prefix, name), I, snp.SORT[kind])
    k = z3.Const('k', I)
    if levels is not None:
        ts = [snp.to_kind(term(l), kind) for l in levels]
        E.assume_global(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ti(n)), z3.Or([f(k) == t for t in ts])), patterns=[f(k)]))
    return Col(name, lambda i: f(ti(i)), kind, levels)
def occur(col, n):
    """every listed value occurs in the column"""
    k = z3.Const('k', I)
    for l in col.levels:
        E.assume_global(z3.Exists([k], z3.And(k >= 0, k < ti(n), col.fn(k) == snp.to_kind(term(l), col.kind))))

class SSeries:
    def __init__(self, n, col): self.n, self.col = nx(n), col; self.name = col.name
    @property
    def values(self):
        c = self.col; return SArr((self.n,), lambda ix: c.fn(ix[0]), c.kind, cats=None if c.levels is None else [list(c.levels)])
    to_numpy = lambda self, *a, **k: self.values
    _as_sarr = lambda self: self.values
    def unique(self):
        if self.col.levels is None: raise Unsupported('unique of a general column')
        # in order of appearance: an unknown permutation
        u = snp.array(PyList([SN(E.fresh('uniq', snp.SORT[self.col.kind])) for _ in self.col.levels]))
        u._sorted = snp.array(PyList(list(self.col.levels))); return u
    def vlen(self): return snp.dv(self.n)
    @property
    def shape(self): return (snp.dv(self.n),)
    ndim = 1
    def _b(self, o, op):
        v = self.values; r = op(v, o.values if isinstance(o, SSeries) else o)
        f = r.snap(); return SSeries(self.n, Col(self.name, lambda i: f((i,)), r.kind))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __eq__(self, o): return self._b(o, lambda a, b: a == b)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b)
    def __lt__(self, o): return self._b(o, lambda a, b: a < b)
    __hash__ = None
    def mean(self): return self.values.mean()
    def astype(self, dt): return self._b(0, lambda a, b: a.astype(dt))
    def __deepcopy__(self, memo): return self
    def copy(self): return SSeries(self.n, self.col)

class SFrame:
    def __init__(self, n, cols, blocks=()):
        self.n = nx(n); self.cols = PyDictN(cols); self.blocks = list(blocks)      # blocks: [(Block, fn(i,j))]
        self._born = next(E.births)
    @property
    def shape(self):
        return (snp.dv(self.n), snp.dv(self.width()))
    def width(self):
        w = len(self.cols)
        for b, _ in self.blocks: w = iadd(w, b.p)
        return w
    def vlen(self): return snp.dv(self.n)
    @property
    def columns(self): return PyList(list(self.cols))
    ndim = 2
    def __getitem__(self, key):
        if isinstance(key, str):
            if key not in self.cols: raise KeyError(key)
            return SSeries(self.n, self.cols[key])
        if isinstance(key, Block):
            for b, f in self.blocks:
                if b is key: return SFrame(self.n, [], [(b, f)])
            raise KeyError(key.name)
        if isinstance(key, tuple): raise KeyError(key)      # a tuple is a single label
        if isinstance(key, list):
            out = []
            for k in key:
                if not isinstance(k, str) or k not in self.cols: raise KeyError(k)
                out.append((k, self.cols[k]))
            return SFrame(self.n, out)
        raise Unsupported('frame selection')
    def __contains__(self, k): return k in self.cols
    @property
    def values(self):
        parts = []
        for c in self.cols.values():
            parts.append(SArr((self.n, 1), (lambda f: (lambda ix: f(ix[0])))(c.fn), c.kind))
        for b, f in self.blocks: parts.append(SArr((self.n, b.p), (lambda f: (lambda ix: f(ix[0], ix[1])))(f), 'f'))
        r = snp.concatenate(parts, axis=1) if len(parts) > 1 else parts[0]
        if not self.blocks and all(c.levels is not None for c in self.cols.values()): r.cats = [list(c.levels) for c in self.cols.values()]
        return r
    to_numpy = lambda self, *a, **k: self.values
    _as_sarr = lambda self: self.values
    def copy(self, *a, **k): return SFrame(self.n, list(self.cols.items()), self.blocks)
    def __deepcopy__(self, memo): return self.copy()
    def __setitem__(self, k, v):
        if not isinstance(k, str): raise Unsupported('frame assignment')
        coll.note(self, ('mut',))
        if E.jon and self._born <= getattr(E.frames[-1], 'birth', 0):
            old = dict(self.cols); E.log(lambda: self.cols.__init__(old))
        if isinstance(v, SSeries): self.cols[k] = v.col; return
        v = snp.arr(v) if not isinstance(v, (int, float, SN, SB)) else v
        if isinstance(v, SArr):
            if v.ndim == 2: v = v.squeeze(1)
            f = v.snap(); self.cols[k] = Col(k, lambda i: f((i,)), v.kind, v.cats[0] if v.cats else None)
        else:
            t = term(v); self.cols[k] = Col(k, lambda i: t, snp.kind_of(t))
class PyDictN(dict): pass

def make_pandas():
    class _D(type):
        def __instancecheck__(c, x): return isinstance(x, SFrame)
        def __call__(c, *a, **k):
            if len(a) != 1 or k or not isinstance(a[0], (dict, coll.PyDict)) or len(getattr(a[0], 'ks', a[0])) == 0: raise Unsupported('pd.DataFrame(...)')
            fr = None
            for q, v in (a[0].items() if isinstance(a[0], dict) else zip(a[0].ks, a[0].vs)):
                if isinstance(v, SArr) and v.ndim != 1: raise ValueError('Per-column arrays must each be 1-dimensional')
                if not isinstance(q, str) or not isinstance(v, (SArr, SSeries)): raise Unsupported('pd.DataFrame(...)')
                n = v.shp[0] if isinstance(v, SArr) else v.n
                if fr is None: fr = SFrame(n, [])
                elif not snp.deq(n, fr.n) and (snp.dne(n, fr.n) or not E.fork(ti(n) == ti(fr.n))): raise ValueError('All arrays must be of the same length')
                fr[q] = v
            return fr
    class DataFrame(metaclass=_D): pass
    class _S(type):
        def __instancecheck__(c, x): return isinstance(x, SSeries)
        def __call__(c, *a, **k): raise Unsupported('pd.Series(...)')
    class Series(metaclass=_S): pass
    from .libs import mod
    return mod('pandas', DataFrame=DataFrame, Series=Series)

# ------------------------------------------------------------------ estimators
PRED = z3.Function('prediction', I, snp.RowS, I, R)      # (fit, feature row, output column)
PROBA = z3.Function('probability', I, snp.RowS, I, R)
class Fit:
    """one call of fit: the arrays it was given"""
    def __init__(self, model, X, y, kw): self.model, self.X, self.y, self.kw = model, X, y, kw; self.id = len(snp.Cache.fits); snp.Cache.fits.append(self)
class NotFitted(ValueError): pass

class SModel:
    """an arbitrary estimator: its predictions are an arbitrary function of the feature row and of the fit"""
    kind = 'regressor'
    def __init__(self, name='model', classes=None):
        self.name = name; self.fit_ = None; self.classes = classes; self.ncoef = None
        self._born = next(E.births)
    def _clone(self):
        m = type(self)(self.name, self.classes); return m
    def get_params(self, deep=True): return pyfac.VDict()
    def __deepcopy__(self, memo):
        m = self._clone(); m.fit_ = self.fit_; return m
    def fit(self, X, y=None, *a, **kw):
        X = X.values if isinstance(X, SFrame) else snp.arr(X)
        y = y.values if isinstance(y, (SFrame, SSeries)) else snp.arr(y)
        if X.ndim != 2: raise ValueError('Expected 2D array, got %dD array instead' % X.ndim)
        if y.ndim == 0: raise ValueError('Expected array-like y')
        if not snp.deq(X.shp[0], y.shp[0]):
            if snp.dne(X.shp[0], y.shp[0]) or not E.fork(ti(X.shp[0]) == ti(y.shp[0])): raise ValueError('Found input variables with inconsistent numbers of samples')
        if a: raise Unsupported('positional fit arguments')
        pyfac.vsetattr(self, 'fit_', Fit(self, SArr(X.shp, X.snap(), X.kind), SArr(y.shp, y.snap(), y.kind), kw))
        if self.classes is not None: pyfac.vsetattr(self, 'classes_', snp.array(PyList(list(self.classes))))
        return self
    def _rows(self, X):
        if self.fit_ is None: raise NotFitted('This %s instance is not fitted yet' % self.name)
        X = X.values if isinstance(X, SFrame) else snp.arr(X)
        if X.ndim != 2: raise ValueError('Expected 2D array, got %dD array instead' % X.ndim)
        p, q = X.shp[1], self.fit_.X.shp[1]
        if not snp.deq(p, q):
            if snp.dne(p, q) or not E.fork(ti(p) == ti(q)): raise ValueError('X has a different number of features than the estimator was fitted with')
        f = X.snap()
        if snp.LEAD[0]: return X.shp[0], (lambda i: snp.lam_(p, lambda j: snp.row(f, p, i, j)))
        return X.shp[0], (lambda i: snp.lam_(p, lambda j: snp.real(f((i, j)))))
    def predict(self, X):
        n, row = self._rows(X); F = self.fit_
        if F.y.ndim == 1: return SArr((n,), lambda ix: PRED(z3.IntVal(F.id), row(ix[0]), z3.IntVal(0)), 'f')
        return SArr((n, F.y.shp[1]), lambda ix: PRED(z3.IntVal(F.id), row(ix[0]), ti(ix[1])), 'f')
class SClassifier(SModel):
    kind = 'classifier'
    def predict_proba(self, X):
        n, row = self._rows(X); F = self.fit_
        return SArr((n, len(self.classes)), lambda ix: PROBA(z3.IntVal(F.id), row(ix[0]), ti(ix[1])), 'f')
COEF = z3.Function('coefficient', I, I, I, R)
class SLinear(SModel):
    """linear regression: coefficients are an arbitrary function of the fit"""
    def __init__(self, name='linear', classes=None, **k): SModel.__init__(self, name, classes); self.kw = k
    def fit(self, X, y=None, *a, **kw):
        SModel.fit(self, X, y, *a, **kw); F = self.fit_
        i = z3.IntVal(F.id)
        if F.y.ndim == 1: c = SArr((F.X.shp[1],), lambda ix: COEF(i, z3.IntVal(0), ti(ix[0])), 'f')
        else: c = SArr((F.y.shp[1], F.X.shp[1]), lambda ix: COEF(i, ti(ix[0]), ti(ix[1])), 'f')
        pyfac.vsetattr(self, 'coef_', c); return self

def clone(m, **k):
    if m is None: return None
    if not hasattr(m, '_clone'): raise TypeError('Cannot clone object')
    return m._clone()

# ------------------------------------------------------------------ encoders
class Enc:
    def __init__(self, *, categories='auto', **kw):
        self.categories = categories; self.kw = kw
        if kw and any(k not in ('dtype', 'sparse', 'sparse_output') for k in kw): raise Unsupported('encoder option')
    def get_params(self, deep=True): return {}
    def _clone(self): return type(self)(categories=self.categories, **self.kw)
    def fit(self, X, y=None):
        X = X.values if isinstance(X, SFrame) else snp.arr(X)
        if X.ndim != 2: raise ValueError('Expected 2D array, got %dD array instead' % X.ndim)
        if not isinstance(X.shp[1], int): raise Unsupported('encoder over an unknown number of columns')
        if isinstance(self.categories, str):
            cs = [snp.levels_of(X, j) for j in range(X.shp[1])]
        else:
            if len(self.categories) != X.shp[1]: raise ValueError('Shape mismatch: if categories is an array, it has to be of shape (n_features,).')
            cs = [list(c) if not isinstance(c, SArr) else [v for _, v in c._segs()] for c in self.categories]
        pyfac.vsetattr(self, 'categories_', PyList([snp.array(PyList(c)) for c in cs])); pyfac.vsetattr(self, '_cs', cs); return self
    def _in(self, X):
        if not hasattr(self, '_cs'): raise NotFitted('This encoder is not fitted yet')
        X = X.values if isinstance(X, SFrame) else snp.arr(X)
        if X.ndim != 2: raise ValueError('Expected 2D array, got %dD array instead' % X.ndim)
        if X.shp[1] != len(self._cs): raise ValueError('X has %s features, but the encoder is expecting %d' % (X.shp[1], len(self._cs)))
        # unknown categories are rejected
        f = X.snap()
        for j, c in enumerate(self._cs):
            i = z3.Const('enc?', I); g = z3.And(i >= 0, i < ti(X.shp[0]))
            known = z3.Or([tob(eq(val(f((i, j))), v)) for v in c] or [z3.BoolVal(False)])
            if not E.implied(z3.Implies(g, known), ms=3000):
                if not E.fork(coll.bind(z3.ForAll, [i], z3.Implies(g, known))): raise ValueError('Found unknown categories in column %d during transform' % j)
        return X
    def fit_transform(self, X, y=None): return self.fit(X, y).transform(X)
class OrdinalEncoder(Enc):
    def transform(self, X):
        X = self._in(X); f = X.snap(); cs = self._cs
        def code(x, c):
            for a in range(len(c)):
                if z3.is_expr(x) and z3.eq(x, term(c[a])): return z3.RealVal(a)        # categories are distinct
            r = z3.RealVal(len(c) - 1)
            for a in range(len(c) - 2, -1, -1): r = z3.If(tob(eq(val(x), c[a])), z3.RealVal(a), r)
            return z3.simplify(r) if snp.const(x) else r
        def fn(ix):
            return snp.pickt([code(f((ix[0], j)), c) for j, c in enumerate(cs)], ix[1])
        return SArr(X.shp, fn, 'f')
class OneHot(Enc):
    def _tr(self, X):
        X = self._in(X); f = X.snap(); pos = [(j, v) for j, c in enumerate(self._cs) for v in c]
        def cell(i, j, v):
            t = tob(eq(val(f((i, j))), v)); return z3.simplify(z3.If(t, z3.RealVal(1), z3.RealVal(0)))
        return SArr((X.shp[0], len(pos)), lambda ix: snp.pickt([cell(ix[0], j, v) for j, v in pos], ix[1]) if not isinstance(ix[1], int) else cell(ix[0], *pos[ix[1]]), 'f')
    def transform(self, X): return self._tr(X)
class ArrayOneHotEncoder(OneHot): pass
class OneHotEncoder(OneHot):
    def transform(self, X):
        a = self._tr(X)
        if self.kw.get('sparse_output', self.kw.get('sparse', True)) is False: return a
        return Sparse(a)
class Sparse:
    def __init__(self, a): self.a = a
    def toarray(self): return self.a
    @property
    def shape(self): return self.a.shape

class PolynomialFeatures:
    """every product of at most `degree` of the columns, by degree and then in the order of combinations with repetition"""
    def __init__(self, degree=2, *, interaction_only=False, include_bias=True, order='C'):
        if not isinstance(degree, int) or not isinstance(include_bias, bool) or not isinstance(interaction_only, bool): raise Unsupported('PolynomialFeatures option')
        self.degree, self.interaction_only, self.include_bias = degree, interaction_only, include_bias; self._m = None
    def fit(self, X, y=None):
        if X is None or isinstance(X, (int, float, str)): e = ValueError('Expected 2D array, got scalar array instead'); e._modelled = True; raise e
        if isinstance(X, Sparse): X = X.a
        X = X.values if isinstance(X, SFrame) else snp.arr(X)
        if X.ndim != 2: e = ValueError('Expected 2D array, got %dD array instead' % X.ndim); e._modelled = True; raise e
        if not isinstance(X.shp[1], int): raise Unsupported('polynomial of an unknown number of columns')
        pyfac.vsetattr(self, '_m', X.shp[1]); return self
    def transform(self, X):
        if self._m is None: raise NotFitted('This PolynomialFeatures instance is not fitted yet')
        if isinstance(X, Sparse): return Sparse(self.transform(X.a))
        X = X.values if isinstance(X, SFrame) else snp.arr(X)
        if X.ndim != 2: e = ValueError('Expected 2D array, got %dD array instead' % X.ndim); e._modelled = True; raise e
        if not isinstance(X.shp[1], int) or X.shp[1] != self._m: e = ValueError('X has a different number of features than PolynomialFeatures is expecting'); e._modelled = True; raise e
        import itertools
        comb = itertools.combinations if self.interaction_only else itertools.combinations_with_replacement
        terms = [c for d in range(0 if self.include_bias else 1, self.degree + 1) for c in comb(range(self._m), d)]
        f = X.snap()
        def cell(i, c):
            r = z3.RealVal(1)
            for k, j in enumerate(c): r = snp.real(f((i, j))) if not k else r * snp.real(f((i, j)))
            return r
        return SArr((X.shp[0], len(terms)), lambda ix: cell(ix[0], terms[ix[1]]) if isinstance(ix[1], int) else snp.pickt([cell(ix[0], c) for c in terms], ix[1]), 'f')
    def fit_transform(self, X, y=None): return self.fit(X).transform(X)
    def get_params(self, deep=True): return dict(degree=self.degree, interaction_only=self.interaction_only, include_bias=self.include_bias)
    def _clone(self): return type(self)(self.degree, interaction_only=self.interaction_only, include_bias=self.include_bias)

FOLD = z3.Function('fold_of', I, I, I)        # (number of rows, row) -> fold
class KFold:
    """contiguous disjoint test folds that cover every row; the training rows are the others (a function of the number of rows)"""
    def __init__(self, n_splits=5, shuffle=False, random_state=None):
        if shuffle is not False: raise Unsupported('shuffled folds')
        self.n_splits = n_splits
    def split(self, X, y=None, groups=None):
        n = X.shp[0] if isinstance(X, SArr) else nx(X.n)
        k = self.n_splits
        if not isinstance(k, int): raise Unsupported('symbolic number of folds')
        q = z3.Const('q', I)
        E.assume_global(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ti(n)), z3.And(FOLD(ti(n), q) >= 0, FOLD(ti(n), q) < k)), patterns=[FOLD(ti(n), q)]))
        E.assumed.add('KFold: test folds partition the rows, training rows are the complement')
        out = []
        for j in range(k):
            m = SArr((n,), (lambda j: (lambda ix: FOLD(ti(n), ti(ix[0])) == j))(j), 'b')
            out.append((snp.mask(~m), snp.mask(m)))
        return iter(out)        # single use, as the generator
    def get_n_splits(self, *a): return self.n_splits

def facades():
    from .libs import mod
    log = types.SimpleNamespace(info=lambda *a, **k: None, debug=lambda *a, **k: None, warning=lambda *a, **k: None, warn=lambda *a, **k: None, error=lambda *a, **k: None)
    pk = {}
    for name in ('ylearn', 'ylearn.estimator_model', 'ylearn.effect_interpreter', 'ylearn.policy', 'ylearn.uplift'):
        # package initialisers only re-export: their modules are loaded one by one
        m = types.ModuleType(name); m.__path__ = []; m.__package__ = name; pk[name] = m
    return {**pk, 'pandas': make_pandas(),
            'sklearn': mod('sklearn', clone=clone),
            'sklearn.base': mod('sklearn.base', clone=clone, BaseEstimator=type('BaseEstimator', (), {}), TransformerMixin=type('TransformerMixin', (), {})),
            'sklearn.preprocessing': mod('sklearn.preprocessing', OrdinalEncoder=OrdinalEncoder, OneHotEncoder=OneHotEncoder, PolynomialFeatures=PolynomialFeatures),
            'sklearn.model_selection': mod('sklearn.model_selection', KFold=KFold),
            'sklearn.linear_model': mod('sklearn.linear_model', LinearRegression=SLinear),
            'ylearn.sklearn_ex': mod('ylearn.sklearn_ex', ArrayOneHotEncoder=ArrayOneHotEncoder),
            'ylearn.utils': mod('ylearn.utils', to_repr=lambda o: '<%s>' % type(o).__name__, logging=types.SimpleNamespace(get_logger=lambda *a: log))}
