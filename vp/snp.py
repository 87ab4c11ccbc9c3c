"""Symbolic numpy: arrays whose dimensions may be symbolic and whose elements are terms in the index (real arithmetic).

The facade states the assumed contract of each numpy operation the repository uses: element (i,j,..) of the result as a
term over the elements of the arguments."""
import builtins, types, math
import z3
from .core import *
from .core import E, eq, tob, term, val, mkb
from . import coll, pyfac
from .coll import bound, SSeq, PyList, note

IntI = I
RowS = z3.ArraySort(I, R)
EXT = {o: z3.Function(o + '_of', I, RowS, R if o in ('max', 'min') else I) for o in ('max', 'min', 'argmax', 'argmin')}
ISUM = z3.Function('isum', RowS, I)                # the same sum of integers, as an integer
SUM = z3.Function('sum', RowS, R)                 # sum of a finitely supported family
_MINC = {}

# ------------------------------------------------------------------ index arithmetic (python ints stay python ints)
def ti(x):
    if isinstance(x, SN): return x.t
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    return x
def nx(x):
    """normalise: python int when it is a numeral"""
    if isinstance(x, int): return int(x)
    x = z3.simplify(ti(x))
    return x.as_long() if z3.is_int_value(x) else x
def iadd(a, b): return a + b if isinstance(a, int) and isinstance(b, int) else nx(ti(a) + ti(b))
def isub(a, b): return a - b if isinstance(a, int) and isinstance(b, int) else nx(ti(a) - ti(b))
def imul(a, b): return a * b if isinstance(a, int) and isinstance(b, int) else nx(ti(a) * ti(b))
def ieq(a, b): return (a == b) if isinstance(a, int) and isinstance(b, int) else z3.simplify(ti(a) == ti(b))
def ilt(a, b): return (a < b) if isinstance(a, int) and isinstance(b, int) else z3.simplify(ti(a) < ti(b))
def ile(a, b): return (a <= b) if isinstance(a, int) and isinstance(b, int) else z3.simplify(ti(a) <= ti(b))
def iand(*cs):
    out = []
    for c in cs:
        if c is True or (z3.is_expr(c) and z3.is_true(c)): continue
        if c is False or (z3.is_expr(c) and z3.is_false(c)): return False
        out.append(c)
    if not out: return True
    return z3.And(out) if len(out) > 1 else out[0]
def inot(c): return (not c) if isinstance(c, bool) else z3.Not(c)
def ite(c, a, b):
    """a, b thunks"""
    if c is True or (z3.is_expr(c) and z3.is_true(c)): return a()
    if c is False or (z3.is_expr(c) and z3.is_false(c)): return b()
    x, y = a(), b()
    if x.sort() != y.sort(): x, y = lift2(x, y)
    if z3.eq(x, y): return x
    return z3.If(c, x, y)
def lift2(x, y):
    if x.sort() == y.sort(): return x, y
    if z3.is_bool(x) and not z3.is_bool(y): x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(y) and not z3.is_bool(x): y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
    if x.sort() == y.sort(): return x, y
    if x.sort() in (I, R) and y.sort() in (I, R): return real(x), real(y)
    raise Unsupported('mixed element kinds')
def dv(d): return d if isinstance(d, int) else val(d)      # dimension as the code sees it
def D(x):
    """dimension from a user value"""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if isinstance(x, SN):
        return nx(x.t)
    if z3.is_expr(x): return nx(x)
    if isinstance(x, SArr) and x.ndim == 0: return D(x.item())
    if hasattr(x, '__index__'): return int(x)
    raise Unsupported('dimension %r' % (x,))
def deq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if not isinstance(a, int) and not isinstance(b, int) and z3.eq(ti(a), ti(b)): return True
    return E.implied(ti(a) == ti(b))
def dne(a, b):
    if isinstance(a, int) and isinstance(b, int): return a != b
    return E.implied(ti(a) != ti(b))
def dim_is(d, k):
    """decide d == k (forking when open)"""
    if isinstance(d, int): return d == k
    if E.implied(d != k): return False
    return E.fork(ti(d) == k)
def leafmap(t, f):
    """apply f to the leaves of an ite term"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = leafmap(t.arg(1), f), leafmap(t.arg(2), f)
        if a.sort() != b.sort(): a, b = lift2(a, b)
        return a if z3.eq(a, b) else z3.If(t.arg(0), a, b)
    return f(t)
def to_int(t):
    if z3.is_bool(t): return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(t): return t
    def f(x):
        if z3.is_rational_value(x):
            v = x.numerator_as_long() / x.denominator_as_long(); return z3.IntVal(int(v))
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return x.arg(0)
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    return leafmap(z3.simplify(t), f)
def to_kind(t, k):
    if k == 'f': return real(t)
    if k == 'i': return to_int(t)
    if k == 'b':
        if z3.is_bool(t): return t
        return t != 0
    return t
def kind_of(t):
    if z3.is_bool(t): return 'b'
    if z3.is_int(t): return 'i'
    if z3.is_real(t): return 'f'
    return 'o'
SORT = {'f': R, 'i': I, 'b': B, 'o': Node}
def dt_kind(dt):
    if dt is None: return None
    if isinstance(dt, DT): return dt.kind
    n = getattr(dt, '__name__', str(dt)).lower()
    if 'bool' in n: return 'b'
    if 'uint' in n or 'int' in n: return 'i'
    if 'float' in n or 'double' in n: return 'f'
    if n in ('str', 'object', 'o'): return 'o'
    raise Unsupported('dtype %s' % n)
class DT:
    def __init__(self, kind): self.kind = kind; self.name = {'f': 'float64', 'i': 'int64', 'b': 'bool', 'o': 'object'}[kind]; self.__name__ = self.name
    def __eq__(self, o):
        try: return dt_kind(o) == self.kind
        except Unsupported: return False
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.kind)
    def __call__(self, x): return val(to_kind(term(x), self.kind))
    def __repr__(self): return self.name
    type = property(lambda self: self)

def zsub(t, pairs): return z3.substitute(t, *pairs) if pairs else t

class SArr:
    __array_priority__ = 2000
    __hash__ = None
    def __init__(self, shape, fn, kind, root=None, fwd=None, inv=None, cats=None, index=None):
        self.shp = tuple(nx(d) for d in shape); self.kind = kind
        self._born = next(E.births)
        self.root, self.fwd, self.inv = root, fwd, inv
        if root is None: self.fn = fn
        self.cats = cats          # per column: the sorted distinct values, when known
        self.index = index        # (member, rank): for integer index arrays without repetition
    # ---- reading
    def snap(self):
        """the contents now, as a pure function of the index"""
        if self.root is None: return self.fn
        r, f = self.root.fn, self.fwd
        return lambda ix: r(f(ix))
    def at(self, ix): return self.snap()(tuple(ix))
    @property
    def ndim(self): return len(self.shp)
    @property
    def shape(self): return tuple(dv(d) for d in self.shp)
    @property
    def size(self):
        r = 1
        for d in self.shp: r = imul(r, d)
        return dv(r)
    @property
    def dtype(self): return DT(self.kind)
    @property
    def T(self): return self.transpose()
    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)): ax = tuple(ax[0])
        n = self.ndim; ax = tuple(ax) if ax else tuple(range(n))[::-1]
        def fwd(ix):
            o = [None] * n
            for k, a in enumerate(ax): o[a] = ix[k]
            return tuple(o)
        def inv(ix): return True, tuple(ix[a] for a in ax)
        return self.view(tuple(self.shp[a] for a in ax), fwd, inv)
    def view(self, shape, fwd, inv, cats=None):
        if self.root is None: return SArr(shape, None, self.kind, self, fwd, inv, cats)
        f0, i0 = self.fwd, self.inv
        def i2(ix):
            c, y = i0(ix)
            if c is False: return False, None
            c2, z = inv(y); return iand(c, c2), z
        return SArr(shape, None, self.kind, self.root, lambda ix: f0(fwd(ix)), i2, cats)
    def vlen(self):
        if not self.shp: raise TypeError('len() of unsized object')
        return dv(self.shp[0])
    def __len__(self):
        d = self.vlen()
        if isinstance(d, int): return d
        raise Unsupported('len of an array with a symbolic dimension')
    def conc(self): return all(isinstance(d, int) for d in self.shp)
    def _issym(self): return not self.shp or not isinstance(self.shp[0], int)
    def _segs(self):
        if not self.shp: raise TypeError('iteration over a 0-d array')
        n = self.shp[0]
        if isinstance(n, int): return [('c', self[i]) for i in range(n)]
        k = bound('k', I)
        if len(self.shp) == 1: e = val(self.at((k,)))
        else: e = self.view(self.shp[1:], lambda ix: (k,) + tuple(ix), lambda ix: (ieq(ix[0], k), tuple(ix[1:])))
        return [('s', SSeq([k], z3.And(k >= 0, k < n), e, n, True))]
    def __iter__(self):
        if self._issym(): raise Unsupported('native iteration over an array with a symbolic dimension')
        return iter([v for _, v in self._segs()])
    def __contains__(self, x):
        if not self.conc(): raise Unsupported('membership in a symbolic array')
        return E.fork(z3.Or([tob(eq(val(self.at(i)), x)) for i in indices(self.shp)] or [z3.BoolVal(False)]))
    def item(self, *a):
        if a: return self[a if len(a) > 1 else a[0]]
        if any(dim_is(d, 1) is False for d in self.shp): raise ValueError('can only convert an array of size 1 to a Python scalar')
        return val(self.at((0,) * self.ndim))
    def tolist(self):
        if self.ndim == 0: return self.item()
        if self.ndim == 1 and not self.conc(): return PyList(self)
        return PyList([x.tolist() if isinstance(x, SArr) else x for x in self])
    def __bool__(self):
        if not self.conc() or self.size != 1: raise ValueError('The truth value of an array with more than one element is ambiguous')
        return E.fork(tob(self.item())) if not isinstance(self.item(), bool) else self.item()
    def __index__(self):
        v = self.item()
        if isinstance(v, int): return v
        return v.__index__()
    __int__ = __index__
    def __float__(self):
        v = self.item()
        if isinstance(v, (int, float)): return float(v)
        raise Unsupported('float() of a symbolic value')
    def _subst(self, ps):
        f = self.snap(); shp = tuple(zsub(ti(d), ps) if not isinstance(d, int) else d for d in self.shp)
        if self.root is not None:
            # a view keeps its base: writing through it stays visible
            fw, iv = self.fwd, self.inv
            def sx(ix): return tuple(nx(zsub(ti(i), ps)) if not isinstance(i, int) else i for i in ix)
            def iv2(ix):
                c, y = iv(ix)
                if c is False: return False, None
                return (zsub(c, ps) if z3.is_expr(c) else c), sx(y)
            return SArr(shp, None, self.kind, self.root, lambda ix: sx(fw(ix)), iv2)
        return SArr(shp, lambda ix: zsub(f(ix), ps), self.kind)
    def _terms(self):
        ix = tuple(z3.Const('pr?%d' % i, I) for i in range(self.ndim))
        return [self.at(ix)] + [ti(d) for d in self.shp if not isinstance(d, int)]
    def _merge(self, items):
        vs = [v for _, v in items]
        if any(len(v.shp) != len(vs[0].shp) for v in vs) or any(not deq(a, b) for v in vs for a, b in zip(v.shp, vs[0].shp)): raise Unsupported('merging arrays of different shapes')
        fs = [(c, v.snap()) for c, v in items]
        k = vs[0].kind
        for v in vs: k = join(k, v.kind)
        def fn(ix):
            r = to_kind(fs[-1][1](ix), k)
            for c, f in reversed(fs[:-1]): r = z3.If(c, to_kind(f(ix), k), r)
            return r
        return SArr(vs[0].shp, fn, k)
    def __deepcopy__(self, memo): return SArr(self.shp, self.snap(), self.kind, cats=self.cats, index=self.index)
    def __copy__(self): return self.__deepcopy__(None)
    def copy(self, *a, **k): return self.__deepcopy__(None)
    def astype(self, dt, **k):
        f, kd = self.snap(), dt_kind(dt)
        return SArr(self.shp, lambda ix: to_kind(f(ix), kd), kd, cats=self.cats)
    # ---- loops
    def _acc_storage(self, name):
        f = z3.Function(name, *([I] * self.ndim), SORT[self.kind])
        return lambda ix: f(*[ti(i) for i in ix])
    def _acc_closed(self, t, res, vs, c, syms, ordered):
        if len(vs) != 1: raise Unsupported('array written in a nested symbolic family')
        k = vs[0]
        ix = tuple(z3.Const('ix?%d' % next(E.ctr), I) for _ in self.shp)
        leaf = t.fn(ix); old = t.restore
        ts = [(p, f(ix)) for p, f in res]
        r = ts[-1][1]
        for p, q in reversed(ts[:-1]): r = z3.If(p, q, r)
        r = z3.simplify(r)
        u1, u2 = z3.Const('u1?', leaf.sort()), z3.Const('u2?', leaf.sort())
        r1, r2 = z3.substitute(r, (leaf, u1)), z3.substitute(r, (leaf, u2))
        if pyfac._occurs(r1, syms): raise Unsupported('loop body reads accumulated array elements')
        W = z3.simplify(untouched(r, leaf))
        rng = z3.And([z3.And(i >= 0, i < ti(d)) for i, d in zip(ix, self.shp)])
        for a in range(self.ndim):
            for off in (0, 1, -1):
                if E.implied(z3.Implies(z3.And(c, rng, z3.Not(W)), k == ix[a] + off), ms=3000):
                    def fn(jx, a=a, off=off):
                        ps = [(x, ti(j)) for x, j in zip(ix, jx)]
                        o = old(jx)
                        # the iteration that writes this element
                        kk = ti(iadd(jx[a], off))
                        body = z3.substitute(z3.substitute(r, (k, kk)) if True else r, *ps) if False else z3.substitute(z3.substitute(r, *ps), (k, kk))
                        lf = z3.substitute(leaf, *ps); cc = z3.substitute(c, (k, kk))
                        return z3.simplify(z3.If(cc, z3.substitute(body, (lf, o)), o))
                    return fn
        raise Unsupported('no closed form for an array updated in a loop')
    def _log(self):
        if not E.jon: return
        if E.frames and self._born > getattr(E.frames[-1], 'birth', 0): return
        old = self.fn
        def undo(): self.fn = old
        E.log(undo)
    # ---- indexing
    def _key(self, key):
        """-> (view shape, fwd, inv, fancy?)"""
        key = key if isinstance(key, tuple) else (key,)
        key = [k for k in key]
        nnew = builtins.sum(1 for k in key if k is None)
        def width(k): return k.ndim if isinstance(k, SArr) and k.kind == 'b' and k.ndim > 1 else 1
        used = builtins.sum(width(k) for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + [slice(None)] * (self.ndim - used) + key[p + 1:]
        else: key = key + [slice(None)] * (self.ndim - used)
        if builtins.sum(width(k) for k in key if k is not None) > self.ndim: raise IndexError('too many indices for array')
        specs = []; shape = []; ax = 0; fancy = False; adv = 0
        for k in key:
            if k is None: specs.append(('n', len(shape))); shape.append(1); continue
            d = self.shp[ax]
            if isinstance(k, SArr) and k.ndim == 0: k = k.item()
            if isinstance(k, SB): raise Unsupported('boolean scalar index')
            if isinstance(k, SN):
                t = z3.simplify(k.t)
                if isinstance(d, int):
                    cc = k.concrete()
                    if cc is not None: k = int(cc)
                    elif d <= 6 and not E.loopvars:
                        for j in range(d):
                            if E.implied(t == j): k = j; break
                if isinstance(k, SN):
                    if not z3.is_int(t): raise IndexError('only integers, slices are valid indices')
                    if not E.implied(z3.And(t >= 0, t < ti(d))):
                        if E.implied(z3.And(t < 0, t >= -ti(d))): t = t + ti(d)
                        elif not E.fork(z3.And(t >= -ti(d), t < ti(d))): raise IndexError('index out of bounds')
                        else: t = z3.If(t < 0, t + ti(d), t)
                    specs.append(('i', ax, nx(t))); ax += 1; continue
            if isinstance(k, float): raise IndexError('only integers, slices are valid indices')
            if isinstance(k, int):
                if isinstance(d, int):
                    if not -d <= k < d: raise IndexError('index %d is out of bounds for axis %d with size %d' % (k, ax, d))
                    k = k % d if d else k
                else:
                    if not E.implied(z3.And(k < ti(d), -k <= ti(d))) and not E.fork(z3.And(k < ti(d), -k <= ti(d))): raise IndexError('index out of bounds')
                    k = k if k >= 0 else nx(ti(d) + k)
                specs.append(('i', ax, k)); ax += 1; continue
            if isinstance(k, slice):
                st = 1 if k.step is None else k.step
                if isinstance(st, int) and st < 0 and k.start is None and k.stop is None and st == -1:
                    specs.append(('r', ax, len(shape), d)); shape.append(d); ax += 1; continue
                if st != 1:
                    if isinstance(d, int) and all(isinstance(x, (int, type(None))) for x in (k.start, k.stop)):
                        lst = list(range(*k.indices(d))); specs.append(('g', ax, len(shape), lst)); shape.append(len(lst)); ax += 1; continue
                    raise Unsupported('slice step')
                lo, hi = bnd(k.start, d, 0), bnd(k.stop, d, d)
                n = isub(hi, lo)
                if isinstance(n, int): n = max(n, 0)
                elif not E.implied(n >= 0): n = z3.If(n >= 0, n, z3.IntVal(0))
                specs.append(('s', ax, len(shape), lo, n)); shape.append(n); ax += 1; continue
            if isinstance(k, SubIdx) or isinstance(k, range) or (isinstance(k, (list, tuple))): k = array(k)
            if isinstance(k, SArr) and k.kind == 'b':
                if k.ndim == 1:
                    if not deq(k.shp[0], d): raise IndexError('boolean index did not match indexed array')
                    m = mask(k)
                    specs.append(('f', ax, len(shape), m)); shape.append(m.shp[0]); ax += 1; fancy = True; adv += 1; continue
                raise Unsupported('boolean index of more than one dimension')
            if isinstance(k, SArr) and k.kind == 'i':
                if k.ndim == 1: specs.append(('f', ax, len(shape), k)); shape.append(k.shp[0]); ax += 1; fancy = True; adv += 1; continue
                raise Unsupported('index array of more than one dimension')
            if isinstance(k, SArr): raise IndexError('arrays used as indices must be of integer (or boolean) type')
            raise Unsupported('index %r' % (k,))
        if adv and any(s[0] == 'i' for s in specs):
            # an integer beside an index array broadcasts with it (same axes when adjacent)
            fi = [i for i, s in enumerate(specs) if s[0] in 'fi']
            if fi != list(range(fi[0], fi[-1] + 1)) and not any(s[0] == 'f' and self._adv_front(specs) for s in specs): raise Unsupported('separated advanced indices')
        if adv > 1:
            # several index arrays broadcast together: pointwise selection
            fs = [s for s in specs if s[0] == 'f']
            pos = [i for i, s in enumerate(specs) if s[0] == 'f']
            if pos != list(range(pos[0], pos[0] + len(pos))): raise Unsupported('separated index arrays')
            n = fs[0][3].shp[0]
            for s in fs[1:]:
                if not deq(n, s[3].shp[0]): raise Unsupported('index arrays of different lengths')
            first = fs[0][2]; drop = len(fs) - 1
            shape = shape[:first + 1] + shape[first + 1 + drop:]
            specs = [(s if s[0] == 'i' else ('n', s[1] if s[1] <= first else s[1] - drop) if s[0] == 'n' else (s[0], s[1], first if s[0] == 'f' else (s[2] if s[2] < first else s[2] - drop)) + tuple(s[3:])) for s in specs]
            return shape, specs, True
        return shape, specs, fancy
    def _adv_front(self, specs):
        raise Unsupported('separated advanced indices')
    def __getitem__(self, key):
        if isinstance(key, SArr) and key.kind == 'b' and key.ndim > 1:
            return self._boolsel(key)
        shape, specs, fancy = self._key(key)
        n = self.ndim
        idxf = {s[1]: s[3].snap() for s in specs if s[0] == 'f'}
        dims = {s[1]: self.shp[s[1]] for s in specs if s[0] == 'f'}
        def fwd(ix):
            o = [None] * n
            for s in specs:
                if s[0] == 'i': o[s[1]] = s[2]
                elif s[0] == 's': o[s[1]] = iadd(ix[s[2]], s[3])
                elif s[0] == 'r': o[s[1]] = isub(isub(s[3], 1), ix[s[2]])
                elif s[0] == 'g':
                    i = ix[s[2]]
                    if not isinstance(i, int): raise Unsupported('symbolic index of a strided slice')
                    o[s[1]] = s[3][i]
                elif s[0] == 'f': o[s[1]] = neg(nx(idxf[s[1]]((ix[s[2]],))), dims[s[1]])
            return tuple(o)
        if not shape: 
            return val(self.at(fwd(())))
        cats = None
        if self.cats is not None and self.ndim == 2 and len(specs) == 2 and specs[0][0] in 'sf' and specs[1][0] == 's' and specs[1][3] == 0 and isinstance(specs[1][4], int) and specs[1][4] == self.shp[1]: cats = self.cats
        if self.cats is not None and self.ndim == 2 and len(specs) == 2 and specs[0][0] in 'sf' and specs[1][0] == 'i': cats = [self.cats[specs[1][2]]]
        if self.cats is not None and self.ndim == 1 and not cats: cats = self.cats
        if fancy:
            f = self.snap()
            return SArr(shape, lambda ix: f(fwd(ix)), self.kind, cats=cats)
        def inv(ix):
            c = True; o = [0] * len(shape)
            for s in specs:
                if s[0] == 'i': c = iand(c, ieq(ix[s[1]], s[2]))
                elif s[0] == 's':
                    c = iand(c, ile(s[3], ix[s[1]]), ilt(ix[s[1]], iadd(s[3], s[4]))) if not (s[3] == 0 and (s[4] is self.shp[s[1]] or s[4] == self.shp[s[1]] if isinstance(s[4], int) and isinstance(self.shp[s[1]], int) else z3.eq(ti(s[4]), ti(self.shp[s[1]])))) else c
                    o[s[2]] = isub(ix[s[1]], s[3])
                elif s[0] == 'r': o[s[2]] = isub(isub(s[3], 1), ix[s[1]])
                elif s[0] == 'g': raise Unsupported('write through a strided slice')
            return c, tuple(o)
        return self.view(shape, fwd, inv, cats)
    def _boolsel(self, key):
        if key.ndim == self.ndim and all(deq(a, b) for a, b in zip(key.shp, self.shp)):
            if all(isinstance(d, int) for d in self.shp):
                out = [val(self.at(i)) for i in indices(self.shp) if E.fork(key.at(i))]
                return array(PyList(out)) if out else zeros((0,))
            if self.ndim == 2 and self.shp[1] == 1:
                m = mask(key[:, 0]); f = self.snap(); g = m.snap()
                return SArr(m.shp, lambda ix: f((nx(g(ix)), 0)), self.kind)
        raise Unsupported('boolean selection in several dimensions')
    def __setitem__(self, key, v):
        root = self if self.root is None else self.root
        note(root, ('mut',)); root._log()
        if isinstance(key, SArr) and key.kind == 'b' and key.ndim == self.ndim and self.ndim >= 1 and all(deq(a, b) for a, b in zip(key.shp, self.shp)):
            mf = key.snap()
            if isinstance(v, SArr) and v.ndim: 
                raise Unsupported('boolean assignment of an array')
            vt = term(v)
            self._put(lambda ix: (mf(ix), lambda: vt)); return
        shape, specs, fancy = self._key(key)
        if not isinstance(v, SArr):
            v = array(v) if isinstance(v, (list, tuple)) else v
        if isinstance(v, SArr):
            vs = v.shp; vf = v.snap()
            while len(vs) > len(shape) and vs[0] == 1: vs = vs[1:]; vf = (lambda g: (lambda ix: g((0,) + tuple(ix))))(vf)
            if len(vs) > len(shape): raise ValueError('could not broadcast input array from shape %s into shape %s' % (v.shape, tuple(shape)))
            off = len(shape) - len(vs); one = []
            for d, s in zip(vs, shape[off:]):
                if deq(d, s): one.append(False)
                elif dim_is(d, 1): one.append(True)
                elif isinstance(d, int) and isinstance(s, int): raise ValueError('could not broadcast input array from shape %s into shape %s' % (v.shape, tuple(shape)))
                elif E.fork(ti(d) == ti(s)): one.append(False)
                else: raise ValueError('could not broadcast input array')
            get = lambda ix: vf(tuple(0 if o else i for o, i in zip(one, ix[off:])))
        else:
            vt = term(v); get = lambda ix: vt
        idx = {s[1]: s[3] for s in specs if s[0] == 'f'}
        if fancy and builtins.sum(1 for s in specs if s[0] == 'f') > 1: raise Unsupported('assignment through several index arrays')
        def inv(ix):
            c = True; o = [0] * len(shape)
            for s in specs:
                b = ix[s[1]] if s[0] != 'n' else None
                if s[0] == 'i': c = iand(c, ieq(b, s[2]))
                elif s[0] == 's':
                    full = isinstance(s[3], int) and s[3] == 0 and deq_fast(s[4], self.shp[s[1]])
                    if not full: c = iand(c, ile(s[3], b), ilt(b, iadd(s[3], s[4])))
                    o[s[2]] = isub(b, s[3])
                elif s[0] == 'r': o[s[2]] = isub(isub(s[3], 1), b)
                elif s[0] == 'g':
                    if not isinstance(b, int): raise Unsupported('strided assignment')
                    if b not in s[3]: return False, None
                    o[s[2]] = s[3].index(b)
                elif s[0] == 'f':
                    a = idx[s[1]]
                    if a.index is not None:
                        c = iand(c, a.index[0](b)); o[s[2]] = a.index[1](b)
                    elif isinstance(a.shp[0], int):
                        af = a.snap(); hit = [nx(af((j,))) for j in range(a.shp[0])]; hit = [neg(h, self.shp[s[1]]) for h in hit]
                        c = iand(c, zor([ieq(b, h) for h in hit]))
                        pos = 0
                        for j, h in enumerate(hit):
                            e = ieq(b, h)
                            pos = j if e is True else pos if e is False else nx(z3.If(e, z3.IntVal(j), ti(pos)))
                        o[s[2]] = pos
                    else: raise Unsupported('assignment through an index array that may repeat')
            return c, tuple(o)
        def upd(ix):
            c, y = inv(ix)
            return c, (lambda: get(y))
        self._put(upd)
    def _put(self, upd):
        kd = self.kind
        if self.root is None:
            old = self.fn
            def fn(ix):
                c, th = upd(ix)
                if c is False: return old(ix)
                return ite(c, lambda: to_kind(th(), kd), lambda: old(ix))
            self.fn = fn
        else:
            root, iv = self.root, self.inv; old = root.fn
            def fn(ix):
                c0, y = iv(ix)
                if c0 is False: return old(ix)
                c, th = upd(y); c = iand(c0, c)
                if c is False: return old(ix)
                return ite(c, lambda: to_kind(th(), kd), lambda: old(ix))
            root.fn = fn
    # ---- shape
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def reshape(self, *s, order='C'):
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        s = [x if isinstance(x, int) and x == -1 else D(x) for x in s]
        new = infer(self.shp, s)
        rm = remap(self.shp, new)
        f = None
        inv0 = remap(new, self.shp)
        cats = self.cats if (len(new) == 2 and new[1] == 1 and self.ndim == 1) or (len(new) == 1 and self.ndim == 2 and self.shp[1] == 1) or tuple(new) == self.shp else None
        return self.view(new, rm, lambda ix: (True, inv0(ix)), cats)
    def ravel(self, *a): return self.reshape(-1)
    flatten = lambda self, *a: self.reshape(-1).copy()
    def squeeze(self, axis=None):
        drop = []
        for a, d in enumerate(self.shp):
            if axis is not None and a not in ((axis,) if isinstance(axis, int) else axis) and a - self.ndim not in ((axis,) if isinstance(axis, int) else axis): continue
            if dim_is(d, 1): drop.append(a)
            elif axis is not None: raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        keep = [a for a in range(self.ndim) if a not in drop]; n = self.ndim
        def fwd(ix):
            o = [0] * n
            for k, a in enumerate(keep): o[a] = ix[k]
            return tuple(o)
        return self.view(tuple(self.shp[a] for a in keep), fwd, lambda ix: (True, tuple(ix[a] for a in keep)), self.cats if keep and keep[0] == 0 else None)
    def swapaxes(self, a, b):
        ax = list(range(self.ndim)); ax[a], ax[b] = ax[b], ax[a]; return self.transpose(*ax)
    # ---- arithmetic
    def _b(self, o, f, kind=None, rev=False):
        r = binop(self, o, (lambda x, y: f(y, x)) if rev else f, kind)
        return r
    def __add__(self, o): return self._b(o, lambda x, y: x + y)
    def __radd__(self, o): return self._b(o, lambda x, y: x + y, rev=True)
    def __sub__(self, o): return self._b(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._b(o, lambda x, y: x - y, rev=True)
    def __mul__(self, o): return self._b(o, tmul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda x, y: tmul(real(x), inv(real(y))), 'f')
    def __rtruediv__(self, o): return self._b(o, lambda x, y: tmul(real(x), inv(real(y))), 'f', rev=True)
    def __floordiv__(self, o): return self._b(o, lambda x, y: term(val(x) // val(y)))
    def __mod__(self, o): return self._b(o, lambda x, y: term(val(x) % val(y)))
    def __pow__(self, o):
        if isinstance(o, (int, float)) and o in (0, 1, 2, 3, 4): return unop(self, lambda x: term(val(x) ** int(o)))
        if o == 0.5: return unop(self, lambda x: sqrt_t(real(x)), 'f')
        if o == -1: return 1 / self
        raise Unsupported('power')
    def __neg__(self): return unop(self, lambda x: -x)
    def __pos__(self): return self
    def __abs__(self): return unop(self, lambda x: z3.If(x >= 0, x, -x))
    def __invert__(self):
        if self.kind != 'b': raise Unsupported('~')
        return unop(self, lambda x: z3.Not(x), 'b')
    def __and__(self, o): return self._b(o, lambda x, y: z3.And(tobb(x), tobb(y)), 'b')
    __rand__ = __and__
    def __or__(self, o): return self._b(o, lambda x, y: z3.Or(tobb(x), tobb(y)), 'b')
    __ror__ = __or__
    def _c(self, o, f):
        if o is None or isinstance(o, str) and self.kind != 'o': return full(self.shape, False, dtype=bool)
        return self._b(o, f, 'b')
    def __eq__(self, o): return self._c(o, lambda x, y: x == y)
    def __ne__(self, o): return self._c(o, lambda x, y: x != y)
    def __lt__(self, o): return self._c(o, lambda x, y: x < y)
    def __le__(self, o): return self._c(o, lambda x, y: x <= y)
    def __gt__(self, o): return self._c(o, lambda x, y: x > y)
    def __ge__(self, o): return self._c(o, lambda x, y: x >= y)
    def _inplace(self, r):
        k = (slice(None),) * self.ndim if self.ndim else ()
        if self.kind == 'i' and r.kind == 'f': raise TypeError('cannot cast ufunc output from float64 to int64')
        if not self.ndim: return r
        self[k] = r; return self
    def __iadd__(self, o): return self._inplace(arr(self + o))
    def __isub__(self, o): return self._inplace(arr(self - o))
    def __imul__(self, o): return self._inplace(arr(self * o))
    def __itruediv__(self, o): return self._inplace(arr(self / o))
    def dot(self, o): return dot(self, o)
    def __matmul__(self, o): return matmul(self, o)
    # ---- reductions
    def sum(self, axis=None, keepdims=False, dtype=None, out=None): return reduce_(self, axis, 'sum', keepdims)
    def mean(self, axis=None, keepdims=False, dtype=None, out=None): return reduce_(self, axis, 'mean', keepdims)
    def max(self, axis=None, keepdims=False): return reduce_(self, axis, 'max', keepdims)
    def min(self, axis=None, keepdims=False): return reduce_(self, axis, 'min', keepdims)
    def all(self, axis=None, keepdims=False): return reduce_(self, axis, 'all', keepdims)
    def any(self, axis=None, keepdims=False): return reduce_(self, axis, 'any', keepdims)
    def argmax(self, axis=None): return argm(self, axis, 'max')
    def argmin(self, axis=None): return argm(self, axis, 'min')
    def clip(self, lo=None, hi=None): return clip(self, lo, hi)
    def minmax1(self, name): 
        if self.ndim != 1: raise ValueError('The truth value of an array with more than one element is ambiguous')
        return reduce_(self, None, name, False)
    def nonzero(self): return nonzero(self)
    def _extremum(self, o, name):
        # max / min of one-element arrays
        if self.shp != (1,) or o.shp != (1,): return None
        return where(o < self if name == 'min' else o > self, o, self)
    def fill(self, v): self[(slice(None),) * self.ndim] = v
    def toarray(self): raise AttributeError("'numpy.ndarray' object has no attribute 'toarray'")
    def __repr__(self): return 'SArr%s' % (self.shp,)
    def to_numpy(self): return self

class SubIdx: pass

def tobb(x): return x if z3.is_bool(x) else x != 0
def untouched(r, leaf):
    """condition under which r is the old element itself"""
    if z3.eq(r, leaf): return z3.BoolVal(True)
    if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ITE: return z3.If(r.arg(0), untouched(r.arg(1), leaf), untouched(r.arg(2), leaf))
    return z3.BoolVal(False)
def tmul(x, y):
    for a, b in ((x, y), (y, x)):
        s = z3.simplify(a)
        if z3.is_rational_value(s) or z3.is_int_value(s):
            n = s.as_long() if z3.is_int_value(s) else (s.numerator_as_long() if s.denominator_as_long() == 1 else None)
            if n == 1: return b
            if n == 0: return z3.IntVal(0) if z3.is_int(b) else z3.RealVal(0)
    return x * y
def zor(cs):
    out = []
    for c in cs:
        if c is True or (z3.is_expr(c) and z3.is_true(c)): return True
        if c is False or (z3.is_expr(c) and z3.is_false(c)): continue
        out.append(c)
    return False if not out else (z3.Or(out) if len(out) > 1 else out[0])
def deq_fast(a, b):
    if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
    return z3.eq(ti(a), ti(b))
def neg(i, d):
    if isinstance(i, int): return i if i >= 0 else iadd(d, i)
    return i
def bnd(x, d, dflt):
    if x is None: return dflt
    if isinstance(x, SArr): x = x.item()
    x = D(x)
    if isinstance(x, int):
        if x < 0:
            r = iadd(d, x)
            if isinstance(r, int): return max(r, 0)
            return r if E.implied(r >= 0) else z3.If(r >= 0, r, z3.IntVal(0))
        if isinstance(d, int): return min(x, d)
        if E.implied(ti(d) >= x): return x
        return z3.If(ti(d) >= x, z3.IntVal(x), ti(d))
    if E.implied(z3.And(x >= 0, x <= ti(d))): return x
    x = z3.If(x < 0, x + ti(d), x)
    return nx(z3.If(x < 0, 0, z3.If(x > ti(d), ti(d), x)))
def indices(shp):
    import itertools
    return itertools.product(*[range(d) for d in shp])
def join(a, b):
    o = 'bifo'
    return a if o.index(a) >= o.index(b) else b
def arr(x):
    return x if isinstance(x, SArr) else array(x)
def scalar(x): return not isinstance(x, (SArr, list, tuple, coll.PyList)) 

def bshape(a, b):
    n = max(len(a), len(b)); a = (1,) * (n - len(a)) + tuple(a); b = (1,) * (n - len(b)) + tuple(b)
    out, oa, ob = [], [], []
    for x, y in zip(a, b):
        if deq(x, y): out.append(x); oa.append(False); ob.append(False)
        elif isinstance(x, int) and x == 1: out.append(y); oa.append(True); ob.append(False)
        elif isinstance(y, int) and y == 1: out.append(x); oa.append(False); ob.append(True)
        elif isinstance(x, int) and isinstance(y, int): raise ValueError('operands could not be broadcast together')
        elif dim_is(x, 1): out.append(y); oa.append(True); ob.append(False)
        elif dim_is(y, 1): out.append(x); oa.append(False); ob.append(True)
        elif E.fork(ti(x) == ti(y)): out.append(x); oa.append(False); ob.append(False)
        else: raise ValueError('operands could not be broadcast together')
    return out, oa, ob
def binop(a, b, f, kind=None):
    if isinstance(b, (list, tuple)): b = array(b)
    if hasattr(b, '_as_sarr'): b = b._as_sarr()
    if not isinstance(b, SArr):
        if not isinstance(b, (int, float, bool, SN, SB, SE, str)):
            if hasattr(b, 'item'): b = b.item()
            else: return NotImplemented
        tb = term(b); g = a.snap()
        def fn(ix):
            x, y = lift2(g(ix), tb); return arith(f, x, y, kind)
        return SArr(a.shp, fn, kind or join(a.kind, kind_of(tb) if a.kind != 'b' or kind_of(tb) != 'b' else 'i'))
    shp, oa, ob = bshape(a.shp, b.shp)
    ga, gb, na, nb, n = a.snap(), b.snap(), len(a.shp), len(b.shp), len(shp)
    def fn(ix):
        x = ga(tuple(0 if o else i for o, i in zip(oa[n - na:], ix[n - na:])))
        y = gb(tuple(0 if o else i for o, i in zip(ob[n - nb:], ix[n - nb:])))
        x, y = lift2(x, y)
        return arith(f, x, y, kind)
    r = SArr(shp, fn, kind or ('i' if a.kind == b.kind == 'b' else join(a.kind, b.kind)))
    if not shp: return val(r.at(()))
    return r
def arith(f, x, y, kind):
    if kind is None and z3.is_bool(x): x, y = to_int(x), to_int(y)
    return z3.simplify(f(x, y)) if (const(x) and const(y)) else f(x, y)
def const(x): return z3.is_rational_value(x) or z3.is_int_value(x) or z3.is_true(x) or z3.is_false(x)
def unop(a, f, kind=None):
    if not isinstance(a, SArr):
        if isinstance(a, (list, tuple)): a = array(a)
        else: return val(f(numterm(a)))
    g = a.snap()
    def fn(ix):
        x = g(ix)
        if z3.is_bool(x) and kind != 'b': x = to_int(x)
        return f(x)
    return SArr(a.shp, fn, kind or ('i' if a.kind == 'b' else a.kind))

# ------------------------------------------------------------------ reshape
def prod_t(ds):
    r = 1
    for d in ds: r = imul(r, d)
    return r
def infer(old, s):
    """resolve -1 in a reshape; dimensions are positive"""
    if any(isinstance(x, int) and x == -1 for x in s):
        k = [i for i, x in enumerate(s) if isinstance(x, int) and x == -1][0]
        rest = [x for i, x in enumerate(s) if i != k]
        left = list(old)
        for r in rest:
            if isinstance(r, int):
                if r == 1: continue
                hit = [i for i, d in enumerate(left) if isinstance(d, int) and d == r]
                if hit: left.pop(hit[0]); continue
                # a factor of the concrete part
                c = 1; idx = [i for i, d in enumerate(left) if isinstance(d, int)]
                for i in idx: c *= left[i]
                if c % r == 0:
                    left = [d for d in left if not isinstance(d, int)] + [c // r]; continue
                if all(isinstance(d, int) for d in left): raise ValueError('cannot reshape array of size %d into shape %s' % (c, s))
                raise Unsupported('reshape')
            hit = [i for i, d in enumerate(left) if not isinstance(d, int) and deq(d, r)]
            if not hit: raise Unsupported('reshape of symbolic dimensions')
            left.pop(hit[0])
        new = list(s); new[k] = prod_t(left)
        return new
    if all(isinstance(d, int) for d in list(old) + list(s)) and prod_t(old) != prod_t(s): raise ValueError('cannot reshape array of shape %s into shape %s' % (tuple(old), tuple(s)))
    return list(s)
def remap(old, new):
    """index map new -> old for a C-order reshape; groups of dimensions with equal products are mapped on their own"""
    groups = []; i = j = 0; old = list(old); new = list(new)
    while i < len(old) or j < len(new):
        a, b = i, j
        if i < len(old) and j < len(new) and deq(old[i], new[j]): i += 1; j += 1
        elif i < len(old) and isinstance(old[i], int) and old[i] == 1 and not (j < len(new) and isinstance(new[j], int) and new[j] == 1): i += 1
        elif j < len(new) and isinstance(new[j], int) and new[j] == 1: j += 1
        else:
            # smallest concrete block with equal products
            ok = False
            for di in range(1, len(old) - i + 1):
                for dj in range(1, len(new) - j + 1):
                    po, pn = prod_t(old[i:i + di]), prod_t(new[j:j + dj])
                    if (isinstance(po, int) and isinstance(pn, int) and po == pn) or (not isinstance(po, int) and not isinstance(pn, int) and deq(po, pn)):
                        i += di; j += dj; ok = True; break
                if ok: break
            if not ok:
                if E.fork(ti(prod_t(old)) == ti(prod_t(new))): 
                    i, j = len(old), len(new)
                else: raise ValueError('cannot reshape array of shape %s into shape %s' % (tuple(old), tuple(new)))
        groups.append((a, i, b, j))
    def fwd(ix):
        o = [0] * len(old)
        for a, i, b, j in groups:
            if i - a == 1 and j - b == 1: o[a] = ix[b]; continue
            if i == a: continue
            if j == b: continue
            lin = 0
            for q in range(b, j): lin = iadd(imul(lin, new[q]), ix[q])
            for q in range(i - 1, a - 1, -1):
                if q == a: o[q] = lin
                else:
                    d = old[q]
                    if isinstance(lin, int) and isinstance(d, int): o[q] = lin % d; lin = lin // d
                    else:
                        # (x*d + y) with 0<=y<d: the common case
                        o[q], lin = divmod_t(lin, d, ix, new, b, j)
        return tuple(o)
    return fwd
def divmod_t(lin, d, ix, new, b, j):
    if not isinstance(d, int): 
        if len(new[b:j]) >= 1 and deq(new[j - 1], d) and j - b >= 2:
            rest = 0
            for q in range(b, j - 1): rest = iadd(imul(rest, new[q]), ix[q])
            return ix[j - 1], rest
        raise Unsupported('reshape across symbolic dimensions')
    t = ti(lin)
    return nx(t % d), nx(t / d)

# ------------------------------------------------------------------ masks
class Cache:
    masks = []; ext = []; fits = []
def _reset(): Cache.masks = []; Cache.ext = []; Cache.fits = []; Cache.unq = []
E.reset_path_hooks.append(_reset)
MINROWS = [0]
def mask(k):
    """positions of the true elements of a one-dimensional mask, in order"""
    n = k.shp[0]; f = k.snap()
    if isinstance(n, int):
        hit = [i for i in range(n) if E.fork(f((i,)))]
        return SArr((len(hit),), lambda ix: z3.IntVal(hit[ix[0]]) if isinstance(ix[0], int) else pick(hit, ix[0]), 'i')
    g = z3.Const('mk?', I)
    me = z3.simplify(f((g,)))
    for n0, me0, r in Cache.masks:
        if deq_fast(n0, n) and z3.eq(me0, me): return r
    for n0, me0, r in Cache.masks:
        if deq(n0, n) and E.implied(z3.Implies(z3.And(g >= 0, g < n), me0 == me), ms=2000): return r
    lv = E.loopvars
    if any(pyfac._occurs(me, {v.decl().name()}) for v in lv): raise Unsupported('mask depending on a loop variable')
    u = next(E.ctr)
    m = z3.Const('rows!%d' % u, I); sel = z3.Function('sel!%d' % u, I, I); rk = z3.Function('rank!%d' % u, I, I)
    q, q2 = z3.Const('q', I), z3.Const('q2', I)
    E.assume_global(z3.And(m >= MINROWS[0], m <= n))
    E.assume_global(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), z3.And(sel(q) >= 0, sel(q) < n, z3.substitute(me, (g, sel(q))), rk(sel(q)) == q)), patterns=[sel(q)]))
    E.assume_global(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, z3.substitute(me, (g, q))), z3.And(rk(q) >= 0, rk(q) < m, sel(rk(q)) == q)), patterns=[rk(q)]))
    E.assume_global(z3.ForAll([q, q2], z3.Implies(z3.And(q >= 0, q < q2, q2 < m), sel(q) < sel(q2)), patterns=[z3.MultiPattern(sel(q), sel(q2))]))
    r = SArr((m,), lambda ix: sel(ti(ix[0])), 'i', index=((lambda b: zand(ile(0, b), ilt(b, n), z3.substitute(me, (g, ti(b))))), (lambda b: rk(ti(b)))))
    Cache.masks.append((n, me, r)); return r
def zand(*c): return iand(*c)
def pick(lst, i):
    r = z3.IntVal(lst[-1]) if lst else z3.IntVal(0)
    for j in range(len(lst) - 2, -1, -1): r = z3.If(ti(i) == j, z3.IntVal(lst[j]), r)
    return r
def pickt(ts, i):
    """term i of a concrete list, i possibly symbolic"""
    if isinstance(i, int): return ts[i]
    if not ts: raise Unsupported('empty')
    r = ts[-1]
    for j in range(len(ts) - 2, -1, -1):
        a, b = lift2(ts[j], r); r = a if z3.eq(a, b) else z3.If(ti(i) == j, a, b)
    return r

# ------------------------------------------------------------------ construction
def array(x, dtype=None, copy=True, ndmin=0, **k):
    kd = dt_kind(dtype)
    if hasattr(x, '_as_sarr'): x = x._as_sarr()
    if isinstance(x, SArr):
        r = x.copy()
        return r.astype(dtype) if kd and kd != r.kind else r
    if isinstance(x, (pyfac.Gen, map, filter, zip)): raise Unsupported('array of an iterator')
    if isinstance(x, (list, tuple, range)) or isinstance(x, coll.PyList):
        if coll.is_sym_iter(x):
            s = pyfac.single_seq(x)
            if s is None or not s.dense: raise Unsupported('array of a symbolic list')
            vs, c, e = s.inst(); v = vs[0]
            if isinstance(e, SArr):
                g = e.snap(); return SArr((s.n,) + e.shp, lambda ix: zsub(g(tuple(ix[1:])), [(v, ti(ix[0]))]), e.kind)
            if isinstance(e, (tuple, list)): raise Unsupported('array of tuples')
            t = term(e); return SArr((s.n,), lambda ix: zsub(t, [(v, ti(ix[0]))]), kd or kind_of(t))
        xs = [v for _, v in coll.seq_of(x)] if not isinstance(x, range) else list(x)
        if not xs: return SArr((0,), lambda ix: z3.RealVal(0), kd or 'f')
        if any(isinstance(v, (list, tuple, SArr)) and not (isinstance(v, SArr) and v.ndim == 0) for v in xs):
            ps = [array(v) for v in xs]
            shp = ps[0].shp
            for p in ps[1:]:
                if len(p.shp) != len(shp) or not all(deq(a, b) for a, b in zip(p.shp, shp)): raise Unsupported('ragged array')
            k2 = kd or ps[0].kind
            for p in ps: k2 = kd or join(k2, p.kind)
            fs = [p.snap() for p in ps]
            return SArr((len(ps),) + shp, lambda ix: to_kind(pickt([f(tuple(ix[1:])) for f in fs], ix[0]) if not isinstance(ix[0], int) else fs[ix[0]](tuple(ix[1:])), k2), k2)
        ts = [term(v) for v in xs]; k2 = kd or kind_of(ts[0])
        for t in ts: k2 = kd or join(k2, kind_of(t))
        ts = [to_kind(t, k2) for t in ts]
        return SArr((len(ts),), lambda ix: pickt(ts, ix[0]), k2)
    t = term(x)
    return SArr((), lambda ix: to_kind(t, kd or kind_of(t)), kd or kind_of(t))
def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or dt_kind(dtype) == x.kind): return x
    return array(x, dtype)
def shp(s): return tuple(D(x) for x in (s if isinstance(s, (tuple, list)) else (s,)))
def full(s, v, dtype=None, **k):
    if isinstance(v, SArr) and v.ndim:
        r = zeros(s); r = r.astype(v.kind if dtype is None else dtype) if False else SArr(shp(s), lambda ix: to_kind(z3.IntVal(0), v.kind), v.kind)
        r[(slice(None),) * r.ndim] = v; return r
    t = term(v); kd = dt_kind(dtype) or kind_of(t); t = to_kind(t, kd)
    return SArr(shp(s), lambda ix: t, kd)
def zeros(s, dtype=float, **k): return full(s, 0, dtype)
def ones(s, dtype=float, **k): return full(s, 1, dtype)
def empty(s, dtype=float, **k):
    kd = dt_kind(dtype); u = next(E.ctr); d = shp(s); f = z3.Function('uninit!%d' % u, *([I] * len(d)), SORT[kd])
    return SArr(d, lambda ix: f(*[ti(i) for i in ix]), kd)
def like(a, v, dtype=None):
    a = arr(a); return full(a.shape, v, dtype or DT(a.kind))
def zeros_like(a, dtype=None, **k): return like(a, 0, dtype)
def ones_like(a, dtype=None, **k): return like(a, 1, dtype)
def full_like(a, v, dtype=None, **k): return like(a, v, dtype)
def empty_like(a, dtype=None, **k): return empty(arr(a).shape, dtype or DT(arr(a).kind))
def arange(*a, start=None, stop=None, step=None, dtype=None):
    if start is not None or stop is not None:
        a = (start or 0, stop if stop is not None else a[0])
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    st = a[2] if len(a) > 2 else (step or 1)
    if st != 1: raise Unsupported('arange step')
    lo, hi = D(lo), D(hi); n = isub(hi, lo)
    if isinstance(n, int): n = max(n, 0)
    r = SArr((n,), lambda ix: ti(iadd(ix[0], lo)), 'i', index=((lambda b: zand(ile(lo, b), ilt(b, hi))), (lambda b: isub(b, lo))))
    if isinstance(lo, int) and isinstance(hi, int): r.cats = [[val(z3.IntVal(v)) for v in range(lo, hi)]]
    return r.astype(dtype) if dtype is not None else r
def eye(n, m=None, **k):
    n = D(n); return SArr((n, n), lambda ix: ite(ieq(ix[0], ix[1]), lambda: z3.RealVal(1), lambda: z3.RealVal(0)), 'f')
def concatenate(xs, axis=0, **k):
    xs = [arr(x) for x in (xs if not isinstance(xs, SArr) else list(xs))]
    if not xs: raise ValueError('need at least one array to concatenate')
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs): raise ValueError('all the input array dimensions must match')
    if nd == 0: raise ValueError('zero-dimensional arrays cannot be concatenated')
    if axis is None: xs = [x.ravel() for x in xs]; axis = 0; nd = 1
    if not -nd <= axis < nd: raise ValueError('axis %d is out of bounds for array of dimension %d' % (axis, nd))
    axis %= nd
    for x in xs[1:]:
        for a in range(nd):
            if a != axis and not deq(x.shp[a], xs[0].shp[a]):
                if dne(x.shp[a], xs[0].shp[a]) or not E.fork(ti(x.shp[a]) == ti(xs[0].shp[a])): raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    kd = xs[0].kind
    for x in xs[1:]: kd = join(kd, x.kind)
    offs = [0]
    for x in xs: offs.append(iadd(offs[-1], x.shp[axis]))
    fs = [x.snap() for x in xs]
    def fn(ix):
        i = ix[axis]
        def go(j):
            sub = tuple(ix[:axis]) + (isub(i, offs[j]),) + tuple(ix[axis + 1:])
            if j == len(fs) - 1: return to_kind(fs[j](sub), kd)
            return ite(ilt(i, offs[j + 1]), lambda: to_kind(fs[j](sub), kd), lambda: go(j + 1))
        # a symbolic index may fall before the block it is read from only under a false condition
        return go(0)
    s = list(xs[0].shp); s[axis] = offs[-1]
    if nd == 2 and axis == 1:
        # the columns part by part, for comparisons column by column
        ps = []
        for x, f in zip(xs, fs):
            for w, g in getattr(f, 'parts', [(x.shp[1], f)]): ps.append((w, (lambda g: (lambda ix: to_kind(g(ix), kd)))(g)))
        fn.parts = ps
    return SArr(s, fn, kd)
LEAD = [False]          # rows given to estimators are written column by column as far as their number is known
def columns(f, width):
    """(number of leading columns known one by one, their readers i -> term, reader of the others (i, j) -> term or None)"""
    ps = getattr(f, 'parts', [(width, f)]); cells = []; k = 0
    while k < len(ps) and isinstance(ps[k][0], int):
        w, g = ps[k]; cells += [(lambda g, j: (lambda i: g((i, j))))(g, j) for j in range(w)]; k += 1
    rest = ps[k:]
    if not rest: return len(cells), cells, None
    def tail(i, j):
        def go(k, off):
            w, g = rest[k]
            if k == len(rest) - 1: return g((i, isub(j, off)))
            end = iadd(off, w); return ite(ilt(j, end), lambda: g((i, isub(j, off))), lambda: go(k + 1, end))
        return go(0, len(cells))
    return len(cells), cells, tail
def row(f, width, i, j):
    """term of column j (symbolic) of row i, the leading columns one by one"""
    n, cells, tail = columns(f, width)
    if n > 40: return f((i, j))
    ts = [real(c(i)) for c in cells]
    if tail is None: return pickt(ts, j)
    r = real(tail(i, j))
    for q in range(n - 1, -1, -1): r = z3.If(ti(j) == q, ts[q], r)
    return r
def atleast_1d(x): x = arr(x); return x.reshape(1) if x.ndim == 0 else x
def atleast_2d(x):
    x = arr(x); return x.reshape(1, 1) if x.ndim == 0 else x.reshape(1, -1) if x.ndim == 1 else x
def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)
def vstack(xs): return concatenate([atleast_2d(x) for x in xs], 0)
def stack(xs, axis=0):
    xs = [arr(x) for x in xs]; return concatenate([expand_dims(x, axis) for x in xs], axis)
def column_stack(xs): return concatenate([x.reshape(-1, 1) if x.ndim == 1 else x for x in map(arr, xs)], 1)
def expand_dims(x, axis):
    x = arr(x); axis = axis % (x.ndim + 1)
    key = (slice(None),) * axis + (None,); r = x[key]
    if x.cats is not None and x.ndim == 1: r.cats = x.cats
    return r
def squeeze(x, axis=None): return arr(x).squeeze(axis)
def reshape(x, s, **k): return arr(x).reshape(*(s if isinstance(s, (tuple, list)) else (s,)))
def ravel(x): return arr(x).ravel()
def transpose(x, axes=None): return arr(x).transpose(*(axes or ()))
def repeat(x, n, axis=None):
    x = arr(x)
    if axis is None: x = x.ravel(); axis = 0
    axis %= x.ndim; n = D(n); f = x.snap(); d = x.shp[axis]
    s = list(x.shp); s[axis] = imul(d, n)
    def fn(ix):
        i = ix[axis]
        if isinstance(d, int) and d == 1: j = 0
        elif isinstance(i, int) and isinstance(n, int): j = i // n
        elif isinstance(n, int) and n == 1: j = i
        else: j = nx(ti(i) / ti(n))
        return f(tuple(ix[:axis]) + (j,) + tuple(ix[axis + 1:]))
    return SArr(s, fn, x.kind)
def tile(x, reps):
    x = arr(x); reps = shp(reps); nd = max(len(reps), x.ndim)
    reps = (1,) * (nd - len(reps)) + tuple(reps); x = x.reshape(*((1,) * (nd - x.ndim) + tuple(x.shape)))
    f = x.snap(); s0 = x.shp
    def fn(ix): return f(tuple(0 if isinstance(d, int) and d == 1 else (i if isinstance(r, int) and r == 1 else (i % d if isinstance(i, int) and isinstance(d, int) else nx(ti(i) % ti(d)))) for i, d, r in zip(ix, s0, reps)))
    return SArr([imul(d, r) for d, r in zip(s0, reps)], fn, x.kind)
def meshgrid(*xs, **k):
    xs = [arr(x) for x in xs]
    if k.get('indexing', 'xy') != 'xy': raise Unsupported('meshgrid')
    n = len(xs); dims = [x.shp[0] for x in xs]
    if n >= 2: s = [dims[1], dims[0]] + dims[2:]
    else: s = dims
    out = PyList()
    for a, x in enumerate(xs):
        f = x.snap(); pos = a if n < 2 or a > 1 else 1 - a
        out.append(SArr(s, (lambda f, pos: (lambda ix: f((ix[pos],))))(f, pos), x.kind))
    return out
def dot(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    if a.ndim == 1 and b.ndim == 1: return contract(a, b, (), ())
    if b.ndim == 1: return contract(a, b, a.shp[:-1], ())
    if a.ndim == 1: return contract(a, b, (), b.shp[1:]) if b.ndim == 2 else _un('dot')
    if a.ndim == 2 and b.ndim == 2: return contract(a, b, a.shp[:1], b.shp[1:])
    raise Unsupported('dot')
def _un(n): raise Unsupported(n)
matmul = dot
def contract(a, b, sa, sb):
    k = a.shp[-1]
    if not deq(k, b.shp[0]):
        if dne(k, b.shp[0]) or not E.fork(ti(k) == ti(b.shp[0])): raise ValueError('shapes not aligned')
    if not isinstance(k, int) and isinstance(b.shp[0], int): k = b.shp[0]
    fa, fb, na = a.snap(), b.snap(), len(sa)
    kd = join(a.kind, b.kind); kd = 'i' if kd == 'b' else kd
    def fn(ix):
        l, r = tuple(ix[:na]), tuple(ix[na:])
        def e(j):
            x, y = lift2(to_kind(fa(l + (j,)), join(a.kind, 'i')), to_kind(fb((j,) + r), join(b.kind, 'i'))); return tmul(x, y)
        return total(k, e, kd)
    r = SArr(tuple(sa) + tuple(sb), fn, kd)
    return r if r.shp else val(r.at(()))
def total(k, e, kd='f'):
    """sum over 0 <= j < k"""
    if isinstance(k, int):
        r = z3.IntVal(0) if kd == 'i' else z3.RealVal(0); first = True
        for j in range(k):
            x = to_kind(e(j), kd)
            if const(x) and z3.is_true(z3.simplify(x == 0)): continue
            r = x if first else r + x; first = False
        return r
    j = z3.Const('j', I)
    return SUM(lam_(k, lambda i: real(e(i))))
def lam_(k, e):
    """the family extended by zero outside 0 <= j < k, as an array"""
    j = z3.Const('lj?', I)
    return z3.Lambda([j], z3.If(z3.And(j >= 0, j < ti(k)), real(e(j)), z3.RealVal(0)))
def einsum(spec, *xs, **k):
    xs = [arr(x) for x in xs]; ins, out = spec.replace(' ', '').split('->'); ins = ins.split(',')
    dims = {}
    for s, x in zip(ins, xs):
        if len(s) != x.ndim: raise ValueError('einstein sum subscripts string does not match the operand')
        for c, d in zip(s, x.shp):
            if c in dims:
                if deq(dims[c], d): continue
                if isinstance(dims[c], int) and dims[c] == 1: dims[c] = d; continue
                if isinstance(d, int) and d == 1: continue
                if dne(dims[c], d) or not E.fork(ti(dims[c]) == ti(d)): raise ValueError('operands could not be broadcast together (einsum)')
            else: dims[c] = d
    red = [c for c in dims if c not in out]
    fs = [x.snap() for x in xs]; sh = [x.shp for x in xs]
    kd = xs[0].kind
    for x in xs[1:]: kd = join(kd, x.kind)
    def fn(ix):
        env = dict(zip(out, ix))
        def go(rest, env):
            if not rest:
                r = None
                for s, f, h in zip(ins, fs, sh):
                    v = f(tuple(0 if isinstance(d, int) and d == 1 else env[c] for c, d in zip(s, h)))
                    if r is None: r = v
                    else: r = tmul(*lift2(r, v))
                return r
            return total(dims[rest[0]], lambda j: go(rest[1:], {**env, rest[0]: j}), 'f' if kd == 'f' else 'i')
        return go(red, env)
    r = SArr([dims[c] for c in out], fn, kd)
    return r if r.shp else val(r.at(()))
def kron(a, b):
    a, b = arr(a), arr(b)
    if a.ndim != 1 or b.ndim != 1 or not isinstance(b.shp[0], int): raise Unsupported('kron')
    fa, fb, m = a.snap(), b.snap(), b.shp[0]
    def fn(ix):
        i = ix[0]; p, q = (i // m, i % m) if isinstance(i, int) else (nx(ti(i) / m), nx(ti(i) % m))
        return tmul(*lift2(fa((p,)), fb((q,))))
    return SArr((imul(a.shp[0], m),), fn, join(a.kind, b.kind))
def vectorize(f, signature=None, **k):
    if f is not kron or signature != '(n),(m)->(k)': raise Unsupported('np.vectorize')
    def g(x, y):
        x, y = arr(x), arr(y)
        if x.ndim != 2 or y.ndim != 2 or not isinstance(y.shp[1], int): raise Unsupported('vectorised kron')
        if not deq(x.shp[0], y.shp[0]): raise ValueError('could not broadcast')
        fx, fy, m = x.snap(), y.snap(), y.shp[1]
        def fn(ix):
            i = ix[1]; p, q = (i // m, i % m) if isinstance(i, int) else (nx(ti(i) / m), nx(ti(i) % m))
            return tmul(*lift2(fx((ix[0], p)), fy((ix[0], q))))
        return SArr((x.shp[0], imul(x.shp[1], m)), fn, join(x.kind, y.kind))
    return g

# ------------------------------------------------------------------ reductions
def reduce_(a, axis, op, keep=False):
    a = arr(a)
    if axis is None:
        if a.ndim == 0: return a.item()
        r = a
        if a.ndim > 1:
            if op in ('sum', 'max', 'min', 'all', 'any'):
                for _ in range(a.ndim): r = reduce_(r, 0, op) if isinstance(r, SArr) else r
                return r
            if op == 'mean': return reduce_(a, None, 'sum') / a.size
        axis = 0
    if isinstance(axis, tuple):
        r = a
        for x in sorted([x % a.ndim for x in axis], reverse=True): r = reduce_(r, x, op, keep)
        return r
    if not -a.ndim <= axis < a.ndim: raise ValueError('axis %d is out of bounds for array of dimension %d' % (axis, a.ndim))
    axis %= a.ndim; k = a.shp[axis]; f = a.snap()
    rest = a.shp[:axis] + a.shp[axis + 1:]
    def at(ix, j): return f(tuple(ix[:axis]) + (j,) + tuple(ix[axis:]))
    if op == 'sum':
        kd = 'i' if a.kind in 'bi' else 'f'
        if not isinstance(k, int): kd = 'f' if a.kind == 'f' else 'i'
        def fn(ix):
            r = total(k, lambda j: to_kind(at(ix, j), 'i' if a.kind == 'b' else a.kind), kd)
            if kd == 'i' and z3.is_real(r):
                if z3.is_app(r) and r.decl().eq(SUM):
                    if not any(z3.is_expr(i) for i in ix): E.assume_global(z3.ToReal(ISUM(r.arg(0))) == r)
                    return ISUM(r.arg(0))
            return to_int(r) if kd == 'i' and z3.is_real(r) else r
        kind = kd
    elif op == 'mean':
        def fn(ix):
            s = total(k, lambda j: real(to_kind(at(ix, j), 'i' if a.kind == 'b' else a.kind)), 'f')
            return tmul(s, inv(real(ti(k))))
        kind = 'f'
    elif op in ('all', 'any'):
        q = z3.And if op == 'all' else z3.Or
        def fn(ix):
            if isinstance(k, int): return z3.simplify(q([tobb(at(ix, j)) for j in range(k)] or [z3.BoolVal(op == 'all')]))
            j = bound('j', I); r = z3.And(j >= 0, j < k); t = tobb(at(ix, j))
            return coll.quant(z3.ForAll, [j], z3.Implies(r, t)) if op == 'all' else coll.quant(z3.Exists, [j], z3.And(r, t))
        kind = 'b'
    elif op in ('max', 'min'):
        kind = a.kind
        if isinstance(k, int):
            if k == 0: raise ValueError('zero-size array to reduction operation')
            def fn(ix):
                r = at(ix, 0)
                for j in range(1, k):
                    x = at(ix, j); r = z3.If(x > r if op == 'max' else x < r, x, r)
                return r
        else:
            # the extremum is a function of the length and of the family
            G = EXT[op]; W = EXT['arg' + op]
            def term_(ix): return G(ti(k), lam_(k, lambda j: real(at(tuple(ix), j))))
            def wit(ix): return W(ti(k), lam_(k, lambda j: real(at(tuple(ix), j))))
            for ix in (list(indices(rest)) if all(isinstance(d, int) for d in rest) else [None]):
                ms = [z3.Const('mx%d' % i, I) for i in range(len(rest))] if ix is None else []; j = z3.Const('mj', I)
                p = tuple(ms) if ix is None else tuple(ix); mt, wt = term_(p), wit(p); x = real(at(p, j))
                E.assume_late(z3.ForAll(ms + [j], z3.Implies(z3.And(j >= 0, j < k), x <= mt if op == 'max' else x >= mt)))
                b2 = z3.Implies(ti(k) >= 1, z3.And(wt >= 0, wt < k, real(at(p, wt)) == mt))
                E.assume_late(z3.ForAll(ms, b2) if ms else b2)
            def fn(ix):
                t = term_(ix); return to_int(t) if kind == 'i' else t
    else: raise Unsupported(op)
    r = SArr(rest, fn, kind)
    if keep: r = expand_dims(r, axis) if r.shp else array(r.item()).reshape(*((1,) * a.ndim))
    if not r.shp: return val(r.at(()))
    return r
def argm(a, axis, op):
    a = arr(a)
    if axis is None:
        if a.ndim != 1: a = a.ravel()
        axis = 0
    axis %= a.ndim; k = a.shp[axis]; f = a.snap()
    rest = a.shp[:axis] + a.shp[axis + 1:]
    if not isinstance(k, int): raise Unsupported('argmax over a symbolic dimension')
    def fn(ix):
        at = lambda j: f(tuple(ix[:axis]) + (j,) + tuple(ix[axis:]))
        b, bi = at(0), z3.IntVal(0)
        for j in range(1, k):
            x = at(j); c = x > b if op == 'max' else x < b
            b, bi = z3.If(c, x, b), z3.If(c, z3.IntVal(j), bi)
        return bi
    r = SArr(rest, fn, 'i')
    return val(r.at(())) if not r.shp else r
def mk_red(op):
    def f(a, axis=None, keepdims=False, **k):
        if not isinstance(a, SArr) and not isinstance(a, (list, tuple)) and not hasattr(a, '_as_sarr'): return a
        return reduce_(arr(a), axis, op, keepdims)
    return f
def where(c, *ab):
    c = arr(c)
    if not ab: return nonzero(c)
    x, y = ab
    x = x if isinstance(x, SArr) else arr(x); y = y if isinstance(y, SArr) else arr(y)
    xy = binop3(c, x, y); return xy
def binop3(c, x, y):
    s1, _, _ = bshape(x.shp, y.shp); s, _, _ = bshape(c.shp, tuple(s1))
    kd = join(x.kind, y.kind)
    def rd(a):
        f = a.snap(); n, m = len(s), a.ndim
        return lambda ix: f(tuple(0 if isinstance(d, int) and d == 1 else i for d, i in zip(a.shp, ix[n - m:])))
    fc, fx, fy = rd(c), rd(x), rd(y)
    r = SArr(s, lambda ix: ite(z3.simplify(tobb(fc(ix))), lambda: to_kind(fx(ix), kd), lambda: to_kind(fy(ix), kd)), kd)
    return r if r.shp else val(r.at(()))
def nonzero(c):
    c = arr(c)
    if c.ndim == 1:
        return (mask(c if c.kind == 'b' else (c != 0)),)
    raise Unsupported('nonzero')
def unique(a, return_counts=False, return_inverse=False, return_index=False, axis=None):
    a = arr(a)
    if return_inverse or return_index or axis is not None: raise Unsupported('unique')
    vs = levels_of(a)
    u = array(PyList(vs)); u.cats = [vs]
    if return_counts: 
        a1 = a.ravel()
        return (u, array(PyList([reduce_(a1 == v, None, 'sum') for v in vs])))
    return u
def first_cond(x):
    st = [x]; seen = set()
    while st:
        a = st.pop()
        if a.get_id() in seen or z3.is_quantifier(a): continue
        seen.add(a.get_id())
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            b = first_cond(a.arg(0))
            return b if b is not None else a.arg(0)
        if z3.is_app(a): st.extend(a.children())
def levels_of(a, col=None):
    """the sorted distinct values of an array that takes finitely many values"""
    if a.cats is not None and (col is not None or len(a.cats) == 1): return list(a.cats[col or 0])
    b = a[:, col] if col is not None else a
    if isinstance(b, SArr) and b.conc():
        xs = [val(b.at(i)) for i in indices(b.shp)]; out = []
        for x in xs:
            if not any(pyfac.truth(mkb(tob(eq(x, y)))) for y in out): out.append(x)
        return list(pyfac.vsorted(PyList(out)))
    ix = tuple(z3.Const('lv?%d' % i, I) for i in range(b.ndim))
    t = z3.simplify(b.at(ix)); leaves = {}; unset = []; conds = {}
    def walk(x, cs):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: walk(x.arg(1), cs + [x.arg(0)]); walk(x.arg(2), cs + [z3.Not(x.arg(0))])
        else:
            leaves[x.get_id()] = x; conds.setdefault(x.get_id(), []).append(z3.And(cs or [z3.BoolVal(True)]))
            if z3.eq(x, NANC): unset.append(z3.And(cs or [z3.BoolVal(True)]))
    def split(x, n=0):
        """a case distinction inside arithmetic moves to the top"""
        if n > 8 or not any(pyfac._occurs(x, {i.decl().name()}) for i in ix): return x
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return z3.If(x.arg(0), split(x.arg(1), n), split(x.arg(2), n))
        c = first_cond(x)
        if c is None: return x
        return z3.If(c, *[split(z3.simplify(z3.substitute(x, (c, z3.BoolVal(v)))), n + 1) for v in (True, False)])
    walk(split(t), [])
    out = []
    rng = z3.And([z3.And(i >= 0, i < ti(d)) for i, d in zip(ix, b.shp)])
    for l in leaves.values():
        if z3.eq(l, NANC):
            if not E.implied(coll.bind(z3.ForAll, list(ix), z3.Implies(rng, z3.Not(z3.Or(unset))))): raise Unsupported('distinct values of an array with unset elements')
            continue
        if any(pyfac._occurs(l, {i.decl().name()}) for i in ix): raise Unsupported('distinct values of a general array')
        ex = coll.bind(z3.Exists, list(ix), z3.And(rng, z3.Or(conds[l.get_id()]) if const(l) else t == l))
        if E.implied(ex, ms=3000) or E.fork(ex): out.append(val(l))
    return list(pyfac.vsorted(PyList(out)))
def sort(a, axis=-1, **k):
    a = arr(a)
    if a.ndim != 1: raise Unsupported('sort')
    if getattr(a, '_sorted', None) is not None: return a._sorted
    if not a.conc(): raise Unsupported('sort of a symbolic array')
    return array(pyfac.vsorted(PyList(list(a))))
def argsort(a, axis=-1, **k):
    a = arr(a)
    if a.ndim != 1 or not a.conc(): raise Unsupported('argsort')
    xs = list(a); order = []
    for i, x in enumerate(xs):
        j = len(order)
        while j > 0 and pyfac.truth(x < xs[order[j - 1]]): j -= 1
        order.insert(j, i)
    return array(PyList(order))
def fmin2(op):
    def f(x, y):
        if not isinstance(x, SArr) and not isinstance(y, SArr):
            a, b = lift2(numterm(x), numterm(y)); return val(z3.If(a > b if op == 'max' else a < b, a, b))
        x = arr(x); return binop(x, y, lambda a, b: z3.If(a > b if op == 'max' else a < b, a, b))
    return f
maximum, minimum = fmin2('max'), fmin2('min')
def clip(a, lo=None, hi=None, **k):
    r = a
    if lo is not None: r = maximum(r, lo)
    if hi is not None: r = minimum(r, hi)
    return r
def isnan(a):
    return unop(a, lambda x: real(x) == NANC, 'b') if isinstance(a, SArr) else (val(real(term(a)) == NANC))
_UF = {}
def ufunc(name):
    f = z3.Function(name, R, R)
    def g(a, **k): return unop(a, lambda x: f(real(x)), 'f')
    return g
def nsign(a): return unop(a, lambda x: z3.If(x > 0, 1, z3.If(x < 0, -1, 0)) if z3.is_int(x) else z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0))))
def isin(a, xs, **k):
    a = arr(a); xs = [val(arr(xs).at(i)) for i in indices(arr(xs).shp)]
    return unop(a, lambda t: z3.Or([term(eq_num(val(t), x)) for x in xs] or [z3.BoolVal(False)]), 'b')
def eq_num(a, b): return tob(eq(a, b))
def ndim(a): return a.ndim if isinstance(a, SArr) else arr(a).ndim
def shape(a): return arr(a).shape
def array_equal(a, b):
    a, b = arr(a), arr(b)
    if a.ndim != b.ndim or not all(deq(x, y) for x, y in zip(a.shp, b.shp)): return False
    return (a == b).all()
def cumsum(a, axis=None, **k):
    a = arr(a)
    if a.ndim != 1 or not a.conc(): raise Unsupported('cumsum')
    out, r = [], 0
    for x in a: r = r + x; out.append(r)
    return array(PyList(out))
def split(a, n, axis=0): raise Unsupported('split')

# ------------------------------------------------------------------ sums of loops
def mk_sum(vs, c, h):
    """sum of h over the family (vs : c), a one-dimensional integer family"""
    if len(vs) != 1 or vs[0].sort() != I: raise Unsupported('sum over a symbolic family')
    k = vs[0]; j = z3.Const('lj?', I)
    l = z3.Lambda([j], z3.substitute(z3.If(c, real(h), z3.RealVal(0)), (k, j)))
    s = SUM(l)
    return to_int(s) if z3.is_int(h) or z3.is_bool(h) else s

def make():
    m = types.ModuleType('numpy')
    class _ND(type):
        def __instancecheck__(c, x): return isinstance(x, SArr)
    class ndarray(metaclass=_ND): pass
    m.ndarray = ndarray
    for n in 'array asarray full zeros ones empty zeros_like ones_like full_like empty_like arange eye concatenate hstack vstack stack column_stack expand_dims squeeze reshape ravel transpose repeat tile meshgrid dot matmul einsum kron vectorize where nonzero unique sort argsort maximum minimum clip isnan isin ndim shape array_equal cumsum atleast_1d atleast_2d'.split():
        setattr(m, n, globals()[n])
    m.identity = eye; m.asanyarray = asarray; m.ascontiguousarray = asarray; m.copy = lambda a: arr(a).copy()
    for n in ('sum', 'mean', 'max', 'min', 'all', 'any'): setattr(m, n, mk_red(n))
    m.amax, m.amin = m.max, m.min
    m.average = lambda a, axis=None, weights=None: (reduce_(arr(a), axis, 'mean') if weights is None else _un('weighted average'))
    m.argmax = lambda a, axis=None: argm(a, axis, 'max'); m.argmin = lambda a, axis=None: argm(a, axis, 'min')
    m.abs = m.absolute = lambda a: abs(a); m.sign = nsign
    m.sqrt = lambda a: unop(a, lambda x: sqrt_t(real(x)), 'f'); m.square = lambda a: a * a
    for n in ('exp', 'log', 'sin', 'cos', 'tanh'): setattr(m, n, ufunc(n))
    m.add = lambda a, b: a + b; m.subtract = lambda a, b: a - b; m.multiply = lambda a, b: a * b; m.divide = lambda a, b: a / b
    m.logical_and = lambda a, b: arr(a) & b; m.logical_or = lambda a, b: arr(a) | b; m.logical_not = lambda a: ~arr(a)
    m.nan = m.NaN = m.NAN = float('nan'); m.inf = float('inf'); m.newaxis = None; m.pi = math.pi
    for n, k in (('float64', 'f'), ('float32', 'f'), ('float_', 'f'), ('int64', 'i'), ('int32', 'i'), ('int_', 'i'), ('bool_', 'b'), ('object_', 'o'), ('int8', 'i'), ('uint8', 'i'), ('intp', 'i')): setattr(m, n, DT(k))
    class _T(type):
        def __instancecheck__(c, x): return isinstance(x, c.test)
    class integer: pass
    class floating: pass
    class number: pass
    m.integer, m.floating, m.number, m.generic = integer, floating, number, number
    m.random = types.SimpleNamespace(seed=lambda *a: None)
    lin = types.ModuleType('numpy.linalg')
    def linv(a): raise Unsupported('matrix inverse')
    lin.inv = linv; lin.pinv = linv; m.linalg = lin
    from . import graphdom
    def __getattr__(a):
        if a.startswith('__'): raise AttributeError(a)
        return graphdom._Unk('numpy.' + a)
    m.__getattr__ = __getattr__
    return m, lin

def facades():
    m, lin = make()
    from . import slearn
    f = {'numpy': m, 'numpy.linalg': lin}
    f.update(slearn.facades())
    return f
