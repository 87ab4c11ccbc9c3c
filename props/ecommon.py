"""Estimator harness vocabulary: data frames of symbolic length, arbitrary models, comparison of arrays."""
import z3
from vp.core import *
from vp.core import E, eq, tob, term, val
from vp import snp, slearn, coll, pyfac
from vp.snp import SArr, ti, nx
from vp.slearn import SFrame, SModel, SClassifier, SLinear, Block, column, occur, Col
from vp.coll import PyList

def setup_est(L):
    class X: pass
    E.fast = True
    x = X(); x.L = L; x.np = L.facades['numpy']
    x.load = L.load
    return x

def dim(name, lo=1):
    d = z3.Const(name, I); E.assume_global(d >= lo); return SN(d)

class Data:
    """a data frame: outcome columns, treatment columns with known distinct values, adjustment and covariate blocks"""
    def __init__(self, pre='d', ny=1, levels=(2,), n=None, wv=('w', 'v'), ylevels=None, xcont=0, vfix=None, share=None, lv='level', blocks=None):
        self.n = n if n is not None else dim('n_' + pre, 2)
        self.cols = []; self.x = []; self.y = []
        for i in range(ny):
            c = column(pre, 'y%d' % i, self.n, 'f', ylevels); self.cols.append((c.name, c)); self.y.append(c.name)
            if ylevels: occur(c, self.n)
        self.levels = {}
        for i, k in enumerate(levels):
            if share is not None: ls = share.levels['x%d' % i]
            else:
                cs = [z3.Const(lv + '_%d_%d' % (i, j), R) for j in range(k)]
                for a, b in zip(cs, cs[1:]): E.assume_global(a < b)
                ls = [SN(c) for c in cs]
            self.levels['x%d' % i] = ls
            c = column(pre, 'x%d' % i, self.n, 'f', ls); occur(c, self.n) if share is None else None
            self.cols.append((c.name, c)); self.x.append(c.name)
        for i in range(xcont):
            c = column(pre, 'x%d' % i, self.n); self.cols.append((c.name, c)); self.x.append(c.name)
        self.blocks = []; self.w = self.v = None
        for b in ('w', 'v'):
            if b not in wv: continue
            if b == 'v' and vfix is not None:
                nm = []
                for j in range(vfix):
                    c = column(pre, 'v%d' % j, self.n); self.cols.append((c.name, c)); nm.append(c.name)
                self.v = PyList(nm); continue
            blk = getattr(share or blocks, b) if share or blocks else Block(b, dim('p_' + b, 1).t)
            f = z3.Function('%s.%s' % (pre, b), I, I, R)
            self.blocks.append((blk, (lambda f: (lambda i, j: f(ti(i), ti(j))))(f))); setattr(self, b, blk)
        self.frame = SFrame(self.n, self.cols, self.blocks)
    def arr(self, which):
        cols = getattr(self, which)
        if cols is None: return None
        return self.frame[PyList(cols) if isinstance(cols, list) else cols].values
    def wv(self, np):
        parts = [a for a in (self.arr('w'), self.arr('v')) if a is not None]
        return np.concatenate(parts, axis=1)

def same(name, a, b):
    """two arrays have the same shape and the same elements"""
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        if isinstance(a, SArr) and a.ndim == 0: a = a.item()
        if isinstance(b, SArr) and b.ndim == 0: b = b.item()
        if isinstance(a, SArr) or isinstance(b, SArr): E.prove(name + ': shape', z3.BoolVal(False)); return
        x, y = snp.lift2(term(a), term(b)); E.prove(name, x == y); return
    if a.ndim != b.ndim: E.prove(name + ': number of dimensions %d, expected %d' % (a.ndim, b.ndim), z3.BoolVal(False)); return
    E.prove(name + ': shape', z3.And([ti(p) == ti(q) for p, q in zip(a.shp, b.shp)] or [z3.BoolVal(True)]))
    ix = tuple(z3.Const('e%d' % i, I) for i in range(a.ndim))
    if snp.LEAD[0] and a.ndim == 2 and not (isinstance(b.shp[1], int) and b.shp[1] <= 6):
        # column by column as far as the columns are known one by one
        n, cells, tail = snp.columns(b.snap(), b.shp[1]); n2, cells2, tail2 = snp.columns(a.snap(), a.shp[1]); i, j = ix
        if n <= 40:
            g = []
            for q in range(n): x, y = snp.lift2(cells2[q](i) if q < n2 else a.at((i, q)), cells[q](i)); g.append(x == y)
            E.prove(name, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ti(b.shp[0])), z3.And(g or [z3.BoolVal(True)]))))
            if tail is not None:
                x, y = snp.lift2(tail2(i, j) if n2 == n and tail2 is not None else a.at((i, j)), tail(i, j))
                E.prove(name + ' (other columns)', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < ti(b.shp[0]), j >= n, j < ti(b.shp[1])), x == y)))
            return
    rng = [z3.And(i >= 0, i < ti(d)) for i, d in zip(ix, b.shp)]
    # concrete dimensions are compared index by index
    conc = [range(d) if isinstance(d, int) and d <= 6 else [i] for i, d in zip(ix, b.shp)]
    import itertools
    gs = []
    for c in itertools.product(*conc):
        x, y = snp.lift2(a.at(c), b.at(c)); gs.append(x == y)
    r = [g for g, d in zip(rng, b.shp) if not (isinstance(d, int) and d <= 6)]
    E.prove(name, z3.ForAll(list(ix), z3.Implies(z3.And(r or [z3.BoolVal(True)]), z3.And(gs or [z3.BoolVal(True)]))))

def fits(): return list(snp.Cache.fits)
def fitted_with(name, f, X, y):
    same(name + ': features', f.X, X); same(name + ': target', f.y, y)
def predictor(f, mode=None):
    m = SClassifier(classes=f.model.classes) if mode == 'proba' else SModel()
    m.fit_ = f
    return m
