"""Facade of pandas: labelled columns over rows; positions and labels are kept apart (row labels are distinct; the labels of
the data frame a harness starts from are its row numbers), assignments and arithmetic align as pandas does."""
import z3
from .core import *
from .core import E, eq, tob, term, val
from . import coll, pyfac, snp
from .coll import PyList, PyDict, SSeq, bound, subst
from .snp import SArr, nx, ti

def ident(i): return ti(i)
class WIndex:
    """row labels: lab(position), and for a known label its position"""
    def __init__(self, n, lab=ident, pos=None, member=None, base=True): self.n, self.lab, self.pos, self.member, self.base = nx(n), lab, pos or ident, member or (lambda l: z3.And(ti(l) >= 0, ti(l) < ti(self.n))), base
    def same(self, o):
        if o is self or (self.base and o.base and snp.deq(self.n, o.n)): return True
        if not snp.deq(self.n, o.n): return False
        p = z3.Const('ps?', I)
        return E.implied(z3.Implies(z3.And(p >= 0, p < ti(self.n)), self.lab(p) == o.lab(p)), ms=3000)
    def _segs(self):
        if isinstance(self.n, int): return [('c', val(self.lab(i))) for i in range(self.n)]
        i = bound('row', I); return [('s', SSeq([i], z3.And(i >= 0, i < ti(self.n)), SN(self.lab(i)), self.n, True))]
    def _issym(self): return not isinstance(self.n, int)
    def __iter__(self):
        if isinstance(self.n, int): return iter([v for _, v in self._segs()])
        raise Unsupported('iterating over the rows')
    def tolist(self): return PyList.of(self._segs())
    def vlen(self): return snp.dv(self.n)
    def __len__(self):
        if isinstance(self.n, int): return self.n
        raise Unsupported('len of an index')

class WSeries:
    """a column with its row labels; or a record of named values (rec)"""
    def __init__(self, a=None, index=None, name=None, rec=None, levels=None):
        self.a, self.index, self.name, self.rec, self.levels = a, index, name, rec, levels
    @property
    def values(self):
        if self.rec is not None: raise Unsupported('values of a record')
        return self.a.copy()
    def to_numpy(self, *a, **k): return self.values
    @property
    def dtype(self): return self.a.dtype
    @property
    def shape(self): return self.a.shape
    ndim = 1
    @property
    def size(self): return snp.dv(self.a.shp[0])
    def vlen(self): return snp.dv(self.a.shp[0])
    def __len__(self):
        if isinstance(self.a.shp[0], int): return self.a.shp[0]
        raise Unsupported('len of a column')
    def tolist(self):
        n = self.a.shp[0]
        if isinstance(n, int): return PyList([val(self.a.at((i,))) for i in range(n)])
        i = bound('row', I); f = self.a.snap()
        return PyList.of([('s', SSeq([i], z3.And(i >= 0, i < ti(n)), val(f((i,))), n, True))])
    def _as_sarr(self): return self.values
    def copy(self, deep=True): return WSeries(None if self.a is None else self.a.copy(), self.index, self.name, None if self.rec is None else PyDict(self.rec), self.levels)
    def __deepcopy__(self, memo): return self.copy()
    def __getitem__(self, k):
        if self.rec is not None:
            if k not in self.rec: raise KeyError(k)
            return self.rec[k]
        if isinstance(k, WSeries) and k.a.kind == 'b': return select(self.to_frame_('_'), k)['_']
        raise Unsupported('element of a column by label')
    def __setitem__(self, k, v):
        if self.rec is None: raise Unsupported('assignment to a column')
        self.rec[k] = v
    def to_frame_(self, nm): return WFrame(self.index, [(nm, WCol(self.a, self.levels))])
    def to_frame(self, name=None): return self.to_frame_(name or self.name)
    @property
    def iloc(self): return self.a
    def _o(self, o):
        if isinstance(o, WSeries):
            if not self.index.same(o.index): raise Unsupported('aligning different rows')
            return o.a
        return o
    def _b(self, o, f):
        if self.a is None: raise Unsupported('arithmetic on a record')
        if isinstance(o, WTuples) or isinstance(o, tuple): raise Unsupported('comparison with tuples')
        return WSeries(f(self.a, self._o(o)), self.index, self.name)
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __eq__(self, o): return self._b(o, lambda a, b: a == b)
    def __ne__(self, o): return self._b(o, lambda a, b: a != b)
    def __lt__(self, o): return self._b(o, lambda a, b: a < b)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b)
    def __and__(self, o): return self._b(o, lambda a, b: a & b)
    def __or__(self, o): return self._b(o, lambda a, b: a | b)
    def __invert__(self): return WSeries(~self.a, self.index, self.name)
    __hash__ = None
    def mean(self): return self.a.mean()
    def max(self): return self.a.max()
    def min(self): return self.a.min()
    def sum(self): return self.a.sum()
    def astype(self, dt): return WSeries(self.a.astype(dt), self.index, self.name)
    def _subst(self, ps): return WSeries(None if self.a is None else self.a._subst(ps), self.index, subst(self.name, ps) if self.name is not None else None, None if self.rec is None else PyDict([(k, subst(v, ps)) for k, v in self.rec.items()]), self.levels)
    def _terms(self): return [t for v in ([self.name] + (list(self.rec.values()) if self.rec is not None else [])) for t in pyfac.val_terms(v)]
    def _merge(self, items):
        vs = [v for _, v in items]; mv = coll.merge_vals
        nm = vs[0].name if all(v.name is None for v in vs) else mv([(c, v.name) for c, v in items], 'names')
        if all(v.rec is not None for v in vs):
            if any(list(v.rec) != list(vs[0].rec) for v in vs): raise Unsupported('merging different records')
            return WSeries(None, None, nm, PyDict([(k, mv([(c, v.rec[k]) for c, v in items], 'records')) for k in vs[0].rec]))
        if any(v.rec is not None for v in vs) or not all(v.index.same(vs[0].index) for v in vs): raise Unsupported('merging columns')
        return WSeries(mv([(c, v.a) for c, v in items]), vs[0].index, nm, levels=vs[0].levels if all(v.levels == vs[0].levels for v in vs) else None)
    def __bool__(self): raise ValueError('The truth value of a Series is ambiguous')

class WCol:
    def __init__(self, a, levels=None): self.a, self.levels = a, levels

class WTuples:
    """a column of tuples"""
    @property
    def a(self): return self
    def copy(self, deep=True): return self
    def snap(self): return self
    kind = 'o'
    def __init__(self, cols, index, levels): self.cols, self.index, self.levels = cols, index, levels
    def __eq__(self, o):
        if not isinstance(o, tuple) or len(o) != len(self.cols): raise Unsupported('comparison with a column of tuples')
        r = None
        for c, v in zip(self.cols, o): r = (c == v) if r is None else r & (c == v)
        return WSeries(r, self.index)
    __hash__ = None
    def unique(self):
        """the tuples that occur, each once (of columns with known values)"""
        if any(l is None for l in self.levels): raise Unsupported('unique of a general column')
        import itertools
        out = []
        for t in itertools.product(*self.levels):
            m = (self == t).a; i = z3.Const('un?', I)
            if E.fork(z3.Exists([i], z3.And(i >= 0, i < ti(self.index.n), m.at((i,))))): out.append(t)
        return Uniq(out)
class Uniq(list):
    def tolist(self): return PyList(list(self))

class Row:
    """one row of a frame"""
    def __init__(self, f, p): self.f, self.p = f, p
    def _cell(self, k):
        if k not in self.f.cols:
            e = KeyError(k); e._modelled = True; raise e
        return val(self.f.cols[k].a.at((self.p,)))
    def __getitem__(self, k): return self._cell(k)
    def __contains__(self, k): return k in self.f.cols
    def get(self, k, d=None): return self._cell(k) if k in self.f.cols else d
    @property
    def index(self): return PyList(list(self.f.cols))
    @property
    def name(self): return val(self.f.index.lab(self.p))
    def __getattr__(self, k):
        if k.startswith('_') or k not in self.__dict__['f'].cols: raise AttributeError(k)
        return self._cell(k)
    def __iter__(self): return iter([self._cell(k) for k in self.f.cols])

class Loc:
    def __init__(self, f): self.f = f
    def __getitem__(self, k):
        f = self.f
        cols = None
        if isinstance(k, tuple) and len(k) == 2: k, cols = k
        if isinstance(k, slice):
            if k.step is None and k.start is not None and k.start is k.stop or (isinstance(k.start, SN) and isinstance(k.stop, SN) and k.step is None and z3.eq(k.start.t, k.stop.t)):
                p = f.index.pos(term(k.start)); r = one_row(f, p, term(k.start))
            elif k.start is k.stop is k.step is None: r = f
            else: raise Unsupported('row slice')
        elif isinstance(k, WIndex): r = by_index(f, k)
        elif isinstance(k, WSeries) and k.a is not None and k.a.kind == 'b': r = select(f, k)
        elif isinstance(k, SN):
            r = Row(f, f.index.pos(term(k)))
            return r if cols is None else r[cols]
        elif isinstance(k, (list, PyList)) and len(k) == 1 and isinstance(k[0], SN): r = one_row(f, f.index.pos(term(k[0])), term(k[0]))
        else: raise Unsupported('row selection')
        return r if cols is None else r[cols]
def one_row(f, p, lab):
    ix = WIndex(1, lambda i: lab, lambda l: z3.IntVal(0), lambda l: ti(l) == lab, False)
    return WFrame(ix, [(k, WCol(SArr((1,), (lambda g: (lambda jx: g((p,))))(c.a.snap()), c.a.kind), c.levels)) for k, c in f.cols.items()])
def by_index(f, k):
    if k is f.index or k.same(f.index): return f.copy()
    p = z3.Const('bi?', I)
    E.prove('selected rows exist', z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < ti(k.n)), f.index.member(k.lab(p)))))
    pos = f.index.pos
    return WFrame(k, [(c_, WCol(SArr((k.n,), (lambda g: (lambda jx: g((pos(k.lab(ti(jx[0]))),))))(c.a.snap()), c.a.kind), c.levels)) for c_, c in f.cols.items()])
def select(f, k):
    """boolean selection"""
    if isinstance(k, WSeries):
        if not k.index.same(f.index): raise Unsupported('selecting by rows of another frame')
        k = k.a
    if not snp.deq(k.shp[0], f.index.n): raise ValueError('Item wrong length')
    s = snp.mask(k); old = f.index; m = s.shp[0]; sel = s.snap()
    if s.index is None: raise Unsupported('selection of a fixed number of rows')
    mem, rank = s.index
    ix = WIndex(m, lambda i: old.lab(sel((i,))), lambda l: ti(rank(old.pos(l))), lambda l: z3.And(old.member(l), mem(old.pos(l))), False)
    ix.root = getattr(old, 'root', old)
    return WFrame(ix, [(c_, c if isinstance(c, WTuples) else WCol(c.a[s], c.levels)) for c_, c in f.cols.items() if not isinstance(c, WTuples)])

class Label(str):
    """a column label that is a symbolic text; it equals another label when the texts are the same expression"""
def label(k):
    if isinstance(k, str): return k
    if isinstance(k, SE):
        r = Label('\u27e8%s\u27e9' % k.t.sexpr()); r.text = k; return r
    raise Unsupported('column label')
class Labels(PyList):
    """column labels"""
    def tolist(self): return PyList(list(self))
    def to_list(self): return self.tolist()
    @property
    def values(self): return self

class WFrame:
    def __init__(self, index, cols, name=None):
        self.index = index; self.cols = dict(cols); self.fname = name; self._born = next(E.births)
    @property
    def columns(self): return Labels(list(self.cols))
    @property
    def shape(self): return (snp.dv(self.index.n), len(self.cols))
    ndim = 2
    def vlen(self): return snp.dv(self.index.n)
    def __len__(self):
        if isinstance(self.index.n, int): return self.index.n
        raise Unsupported('len of a frame')
    def __contains__(self, k): return k in self.cols
    def __iter__(self): return iter(list(self.cols))
    def copy(self, deep=True): return WFrame(self.index, [(k, c if isinstance(c, WTuples) else WCol(c.a.copy(), c.levels)) for k, c in self.cols.items()])
    def __deepcopy__(self, memo): return self.copy()
    def keys(self): return self.columns
    def __getitem__(self, k):
        if isinstance(k, (str, SE)):
            k = label(k)
            if k not in self.cols:
                e = KeyError(k); e._modelled = True; raise e
            c = self.cols[k]
            if isinstance(c, WTuples): return c
            return WSeries(c.a, self.index, k, levels=c.levels)
        if isinstance(k, WSeries) and k.a is not None and k.a.kind == 'b': return select(self, k)
        if isinstance(k, SArr) and k.kind == 'b': return select(self, k)
        if isinstance(k, (list, Labels)):
            out = []
            for n in k:
                n = label(n)
                if n not in self.cols:
                    e = KeyError(n); e._modelled = True; raise e
                out.append((n, self.cols[n]))
            return WFrame(self.index, [(n, c if isinstance(c, WTuples) else WCol(c.a.copy(), c.levels)) for n, c in out])
        raise Unsupported('frame selection')
    def _touch(self):
        coll.note(self, ('mut',))
        if E.jon and self._born <= getattr(E.frames[-1], 'birth', 0):
            old = dict(self.cols); E.log(lambda: self.__dict__.__setitem__('cols', old)); self.cols = dict(old)
    def __setitem__(self, k, v):
        if isinstance(k, (list, Labels)):
            ks = list(k)
            if isinstance(v, WFrame):       # positional: the first column named gets the first column of v
                if len(v.cols) != len(ks): raise ValueError('Columns must be same length as key')
                if not v.index.same(self.index): raise Unsupported('aligning different rows')
                for n, c in zip(ks, list(v.cols.values())): self[n] = WSeries(c.a, self.index, levels=c.levels)
                return
            if isinstance(v, SArr) and v.ndim == 2 and v.shp[1] == len(ks):
                for j, n in enumerate(ks): self[n] = v[:, j]
                return
            raise Unsupported('assignment of several columns')
        k = label(k)
        self._touch()
        if isinstance(v, WTuples): self.cols[k] = v; return
        if isinstance(v, WFrame) and len(v.cols) == 1: v = WSeries(list(v.cols.values())[0].a, v.index, levels=list(v.cols.values())[0].levels)
        if isinstance(v, WSeries):
            if v.index.same(self.index): self.cols[k] = WCol(v.a.copy(), v.levels); return
            p = z3.Const('al?', I)
            E.prove('assigned values exist for every row', z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < ti(self.index.n)), v.index.member(self.index.lab(p)))))
            f = v.a.snap(); lab = self.index.lab; pos = v.index.pos
            self.cols[k] = WCol(SArr((self.index.n,), lambda ix: f((pos(lab(ti(ix[0]))),)), v.a.kind), v.levels); return
        if isinstance(v, (list, PyList, SArr)):
            a = snp.arr(v)
            if a.ndim == 2: a = a.squeeze(1)
            if not snp.deq(a.shp[0], self.index.n): raise ValueError('Length of values does not match length of index')
            self.cols[k] = WCol(a.copy(), a.cats[0] if a.cats else None); return
        if isinstance(v, (int, float, SN, SB)):
            self.cols[k] = WCol(snp.full((snp.dv(self.index.n),), v)); return
        raise Unsupported('assigned value')
    def pop(self, k):
        r = self[k]; self._touch(); del self.cols[k]; return r
    def drop(self, labels=None, axis=0, columns=None, **kw):
        c = columns if columns is not None else labels if axis in (1, 'columns') else None
        if c is None: raise Unsupported('drop of rows')
        c = [c] if isinstance(c, str) else list(c)
        for n in c:
            if n not in self.cols: raise KeyError(n)
        return WFrame(self.index, [(k, v) for k, v in self.copy().cols.items() if k not in c])
    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items(): r[k] = v(r) if callable(v) else v
        return r
    @property
    def loc(self): return Loc(self)
    @property
    def iloc(self): return Iloc(self)
    @property
    def values(self):
        return snp.column_stack([c.a for c in self.cols.values()])
    def to_numpy(self, *a, **k): return self.values
    def _as_sarr(self): return self.values
    def apply(self, fn, axis=0, **kw):
        if axis not in (1, 'columns') or kw: raise Unsupported('apply over columns')
        if fn in (tuple, pyfac.BUILTINS.get('tuple')) or getattr(fn, '__name__', '') == 'tuple': return WTuples([c.a for c in self.cols.values()], self.index, [c.levels for c in self.cols.values()])
        n = self.index.n
        if isinstance(n, int): return WSeries(snp.array(PyList([fn(Row(self, i)) for i in range(n)])), self.index)
        i = bound('row', I)
        r = pyfac.listcomp(PyList.of([('s', SSeq([i], z3.And(i >= 0, i < ti(n)), SN(i), n, True))]), lambda k: fn(Row(self, term(k))))
        return WSeries(snp.array(r), self.index)
    def iterrows(self): raise Unsupported('iterrows')
    def groupby(self, *a, **k): raise Unsupported('groupby')
    def __bool__(self): raise ValueError('The truth value of a DataFrame is ambiguous')
class Iloc:
    def __init__(self, f): self.f = f
    def __getitem__(self, k):
        if isinstance(k, slice) and isinstance(k.start, SN) and isinstance(k.stop, SN) and z3.eq(z3.simplify(k.stop.t - k.start.t), z3.IntVal(1)): return one_row(self.f, term(k.start), self.f.index.lab(term(k.start)))
        if isinstance(k, (SN, int)): return Row(self.f, term(k))
        if isinstance(k, SArr) and k.kind == 'b': return select(self.f, k)
        raise Unsupported('iloc')

class Table:
    """a table of labelled records or columns: what a concatenation of series gives"""
    def __init__(self, parts, rows): self.parts, self.rows = parts, rows      # rows: each part is a row
    @property
    def T(self): return Table(self.parts, not self.rows)
    def transpose(self): return self.T
    def vlen(self): raise Unsupported('len of a table')

def concat(objs, axis=0, **kw):
    if kw and set(kw) - {'sort', 'copy'}: raise Unsupported('concat options')
    objs = objs if isinstance(objs, PyList) else PyList(objs)
    conc = not coll.is_sym_iter(objs)
    if conc and not len(objs): raise ValueError('No objects to concatenate')
    if conc and axis in (0, 'index') and all(isinstance(o, WFrame) for o in objs): return concat_rows([o for o in objs])
    if conc and axis in (0, 'index') and all(isinstance(o, WSeries) and o.a is not None for o in objs):
        f = concat_rows([o.to_frame_('_') for o in objs]); return f['_']
    if axis in (1, 'columns'):
        if conc and not all(isinstance(o, WSeries) for o in objs): raise Unsupported('concat of columns')
        return Table(objs, False)
    raise Unsupported('concat')
def concat_rows(fs):
    if len(fs) == 1:
        ix = fs[0].index; rt = getattr(ix, 'root', ix); l = z3.Const('cc?', I)
        if rt is not ix and E.implied(z3.Implies(rt.member(l), ix.member(l)), ms=4000): E.assume_global(ti(ix.n) == ti(rt.n))
        return fs[0].copy()
    names = list(fs[0].cols)
    for f in fs:
        if list(f.cols) != names: raise Unsupported('concat of frames with different columns')
    l = z3.Const('cc?', I)
    for i, f in enumerate(fs):
        for g in fs[:i]:
            if not E.implied(z3.Not(z3.And(f.index.member(l), g.index.member(l))), ms=4000): raise Unsupported('concat of frames that share labels')
    tot = 0
    for f in fs: tot = snp.iadd(tot, f.index.n)
    n = E.fresh('nconcat', I); E.assume_global(n == ti(tot))
    rt = getattr(fs[0].index, 'root', fs[0].index)
    if all(getattr(f.index, 'root', f.index) is rt for f in fs) and E.implied(z3.Implies(rt.member(l), z3.Or([f.index.member(l) for f in fs])), ms=4000):
        E.assume_global(n == ti(rt.n))      # disjoint pieces that cover all rows
    def member(l): return z3.Or([f.index.member(l) for f in fs])
    starts, s = [], 0
    for f in fs: starts.append(s); s = snp.iadd(s, f.index.n)
    def pos(l):
        r = ti(fs[-1].index.pos(l)) + ti(starts[-1])
        for f, st in list(zip(fs, starts))[-2::-1]: r = z3.If(f.index.member(l), ti(f.index.pos(l)) + ti(st), r)
        return r
    def at(fns):
        def g(ix):
            p = ti(ix[0]); r = None
            for fn, f, st in list(zip(fns, fs, starts))[::-1]:
                v = fn((nx(p - ti(st)),)); r = v if r is None else snp_if(p < ti(st) + ti(f.index.n), v, r)
            return r
        return g
    lab = at([(lambda ix, f=f: f.index.lab(ti(ix[0]))) for f in fs])
    ix = WIndex(n, lambda p: lab((p,)), pos, member, False)
    cols = []
    for c in names:
        # read by label: the piece that has it
        fns = [f.cols[c].a.snap() for f in fs]
        cols.append((c, WCol(SArr((n,), at(fns), fs[0].cols[c].a.kind))))
    r = WFrame(ix, cols)
    return r
def snp_if(c, a, b):
    x, y = snp.lift2(a, b); return z3.If(c, x, y)

def Series(data=None, index=None, name=None, dtype=None, **kw):
    if kw: raise Unsupported('pd.Series options')
    if isinstance(data, WSeries): return WSeries(data.a, data.index if index is None else index, name or data.name, data.rec, data.levels)
    if isinstance(data, (dict, PyDict)): return WSeries(None, None, name, PyDict(data))
    if isinstance(data, (SArr, list, PyList)):
        a = snp.arr(data).copy()
        if a.ndim != 1: raise ValueError('Data must be 1-dimensional')
        if index is not None:
            if not snp.deq(index.n, a.shp[0]): raise ValueError('Length of values does not match length of index')
            return WSeries(a, index, name)
        return WSeries(a, WIndex(a.shp[0]), name)
    raise Unsupported('pd.Series(...)')
def DataFrame(data=None, index=None, columns=None, **kw):
    if kw or columns is not None: raise Unsupported('pd.DataFrame options')
    if not isinstance(data, (dict, PyDict)): raise Unsupported('pd.DataFrame(...)')
    n = index.n if isinstance(index, WIndex) else None
    if index is not None and n is None: raise Unsupported('index')
    if n is None:
        for v in data.values():
            if isinstance(v, WSeries): index = v.index; n = index.n; break
        else:
            for v in data.values():
                if isinstance(v, (SArr, PyList, list)): n = snp.arr(v).shp[0]; index = WIndex(n); break
    if n is None: raise Unsupported('pd.DataFrame of scalars')
    f = WFrame(index, [])
    for k, v in data.items(): f[k] = v
    return f
class _DM(type):
    def __instancecheck__(c, x): return isinstance(x, WFrame)
    def __call__(c, *a, **k): return DataFrame(*a, **k)
class DataFrameT(metaclass=_DM): pass
class _SM(type):
    def __instancecheck__(c, x): return isinstance(x, WSeries) or getattr(x, '_is_series', False)
    def __call__(c, *a, **k): return Series(*a, **k)
class SeriesT(metaclass=_SM): pass
def make_pandas():
    from .libs import mod
    return mod('pandas', DataFrame=DataFrameT, Series=SeriesT, concat=concat, isna=lambda v: snp.isnan(v), isnull=lambda v: snp.isnan(v))
def frame(name, n, cols):
    """cols: {name: levels or None}"""
    out = []
    for c, lv in cols.items():
        f = z3.Function('%s.%s' % (name, c), I, R); k = z3.Const('k', I)
        if lv is not None:
            E.assume_global(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ti(n)), z3.Or([f(k) == term(l) for l in lv])), patterns=[f(k)]))
        out.append((c, WCol(SArr((nx(n),), (lambda f: (lambda ix: f(ti(ix[0]))))(f), 'f'), None if lv is None else list(lv))))
    return WFrame(WIndex(n), out, name)
