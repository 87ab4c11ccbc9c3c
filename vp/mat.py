"""Square matrices of unknown size and weighted digraphs on 0..n-1 (facades of numpy, pandas and networkx for them)."""
import types, builtins
import z3
from .core import *
from .core import E, eq, tob, term, val, mkb
from . import coll, pyfac, graphdom
from .coll import PyList, PySet, PyDict, SSeq, bound, quant, seq_of, is_sym_iter, note
from .pyfac import _occurs, E_valid, eq_candidates
from .graphdom import NetworkXError, NetworkXNoPath

X0, Y0 = z3.Ints('x0? y0?')

def itm(i):
    if isinstance(i, int) and not isinstance(i, bool): return z3.IntVal(i)
    if isinstance(i, SN) and z3.is_int(i.t): return i.t
    raise Unsupported('matrix index %r' % (i,))

def index(i, n, what='index out of bounds'):
    t = itm(i)
    if E.implied(z3.And(t >= 0, t < n)): return t
    if E.fork(z3.And(t >= 0, t < n)): return t
    if E.fork(z3.And(t >= -n, t < 0)): return z3.simplify(t + n)
    e = IndexError(what); e._modelled = True; raise e

class Mat:
    """n x n matrix of reals (or of booleans)"""
    ndim = 2
    __array_priority__ = 2000
    def __init__(self, n, fn, boolean=False): self.n, self.fn, self.boolean = n, fn, boolean; self._born = next(E.births)
    @property
    def shape(self): return (val(self.n), val(self.n))
    @property
    def size(self): return val(self.n * self.n)
    @property
    def dtype(self): return VDType('bool' if self.boolean else 'float64')
    def __call__(self, a, b): return self.fn(a, b)
    # -- mutation
    def _log(self):
        note(self, ('mut',))
        if E.jon:
            f = self.fn; E.log(lambda: builtins.setattr(self, 'fn', f))
    def __getitem__(self, k):
        if isinstance(k, tuple) and builtins.len(k) == 2 and not builtins.any(isinstance(x, slice) for x in k):
            return val(self.fn(index(k[0], self.n), index(k[1], self.n)))
        if isinstance(k, (int, SN)): return Row(self, index(k, self.n))
        raise Unsupported('matrix selection %r' % (k,))
    def __setitem__(self, k, v):
        f = self.fn
        if isinstance(k, tuple) and builtins.len(k) == 2 and not builtins.any(isinstance(x, slice) for x in k):
            i, j = index(k[0], self.n), index(k[1], self.n); t = real(numterm(v)) if not self.boolean else tob(v)
            self._log(); self.fn = lambda a, b: z3.If(z3.And(a == i, b == j), t, f(a, b)); return
        if isinstance(k, Mat) and k.boolean:
            m = k.fn
            if isinstance(v, Mat): raise Unsupported('masked assignment of an array')
            t = real(numterm(v)) if not self.boolean else tob(v)
            self._log(); self.fn = lambda a, b: z3.If(m(a, b), t, f(a, b)); return
        raise Unsupported('matrix store %r' % (k,))
    # -- elementwise
    def _with(self, o, f, boolean=False):
        g = self.fn
        if isinstance(o, Mat):
            if not z3.eq(o.n, self.n): raise Unsupported('matrices of different sizes')
            h = o.fn; return Mat(self.n, lambda a, b: f(g(a, b), h(a, b)), boolean)
        if isinstance(o, (int, float, bool, SN, SB)):
            t = tob(o) if self.boolean and isinstance(o, (bool, SB)) else real(numterm(o)); return Mat(self.n, lambda a, b: f(g(a, b), t), boolean)
        return NotImplemented
    def _num(self): return self if not self.boolean else Mat(self.n, (lambda f: lambda a, b: real(f(a, b)))(self.fn))
    def __add__(self, o): return self._num()._with(num_(o), lambda x, y: x + y)
    __radd__ = __add__
    def __sub__(self, o): return self._num()._with(num_(o), lambda x, y: x - y)
    def __rsub__(self, o): return self._num()._with(num_(o), lambda x, y: y - x)
    def __mul__(self, o):
        if self.boolean or (isinstance(o, Mat) and o.boolean):
            m, v = (self, num_(o)) if self.boolean else (o, self)
            return m._with(v, lambda x, y: z3.If(x, y, z3.RealVal(0))) if not isinstance(v, (bool, SB)) else NotImplemented
        return self._with(o, lambda x, y: x * y)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._num()._with(num_(o), lambda x, y: x * inv(y))
    def __neg__(self): return Mat(self.n, (lambda f: lambda a, b: -f(a, b))(self.fn))
    def __abs__(self): return Mat(self._num().n, (lambda f: lambda a, b: z3.If(f(a, b) >= 0, f(a, b), -f(a, b)))(self._num().fn))
    def __pow__(self, k):
        if k != 2: raise Unsupported('matrix power')
        return self * self
    def __lt__(self, o): return self._num()._with(num_(o), lambda x, y: x < y, True)
    def __le__(self, o): return self._num()._with(num_(o), lambda x, y: x <= y, True)
    def __gt__(self, o): return self._num()._with(num_(o), lambda x, y: x > y, True)
    def __ge__(self, o): return self._num()._with(num_(o), lambda x, y: x >= y, True)
    def __eq__(self, o): return self._num()._with(num_(o), lambda x, y: x == y, True)
    def __ne__(self, o): return self._num()._with(num_(o), lambda x, y: x != y, True)
    def _bool(self):
        if not self.boolean: raise Unsupported('bitwise operation on numbers')
        return self
    def __and__(self, o): return self._bool()._with(o, z3.And, True)
    def __or__(self, o): return self._bool()._with(o, z3.Or, True)
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return Mat(self.n, (lambda f: lambda a, b: z3.Not(f(a, b)))(self._bool().fn), True)
    __hash__ = object.__hash__
    def __bool__(self):
        e = ValueError('The truth value of an array with more than one element is ambiguous'); e._modelled = True; raise e
    # -- whole-matrix
    @property
    def T(self): return Mat(self.n, (lambda f: lambda a, b: f(b, a))(self.fn), self.boolean)
    def transpose(self): return self.T
    def copy(self): return Mat(self.n, self.fn, self.boolean)
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, t):
        if t is builtins.float or t is pyfac.VFloat or t == 'float64': return self._num().copy()
        if t is builtins.bool or t is pyfac.VBool: return self != 0 if not self.boolean else self.copy()
        raise Unsupported('matrix of another type')
    def any(self): a, b = bound('a', I), bound('b', I); return mkb(quant(z3.Exists, [a, b], z3.And(self._in(a, b), (self if self.boolean else self != 0).fn(a, b))))
    def all(self): a, b = bound('a', I), bound('b', I); return mkb(quant(z3.ForAll, [a, b], z3.Implies(self._in(a, b), (self if self.boolean else self != 0).fn(a, b))))
    def _in(self, a, b): return z3.And(a >= 0, a < self.n, b >= 0, b < self.n)
    def vlen(self): return val(self.n)
    def __iter__(self): raise Unsupported('iterating over a matrix')
    def _subst(self, ps): return Mat(z3.substitute(self.n, *ps), (lambda f: lambda a, b: z3.substitute(f(a, b), *ps))(self.fn), self.boolean)
    def _merge(self, items):
        if builtins.any(v.boolean != self.boolean or not z3.eq(v.n, self.n) for _, v in items): raise Unsupported('merge of matrices')
        def fn(a, b):
            r = items[-1][1].fn(a, b)
            for c, v in reversed(items[:-1]): r = z3.If(c, v.fn(a, b), r)
            return r
        return Mat(self.n, fn, self.boolean)
    def _terms(self): return [self.fn(X0, Y0)]
    # -- loop protocol: elements written by a symbolic loop
    def _acc_storage(self, name):
        f = z3.Function(name, I, I, B if self.boolean else R); return lambda a, b: f(a, b)
    def _acc_closed(self, t, res, vs, c, syms, ordered):
        """every element is written by at most one iteration, which reads only elements no other iteration writes"""
        if builtins.len(vs) != 1 or not ordered: raise Unsupported('matrix written in a nested symbolic family')
        k = vs[0]; n = self.n
        ts = [(p, f(X0, Y0)) for p, f in res]
        r = ts[-1][1]
        for p, q in reversed(ts[:-1]): r = z3.If(p, q, r)
        r = z3.simplify(r); leaf = t.fn(X0, Y0); H = leaf.decl().name()
        atoms = pyfac.sym_atoms(r, syms)
        if builtins.any(x.decl().name() != H or builtins.any(_occurs(y, syms) for y in x.children()) for x in atoms): raise Unsupported('loop body reads other accumulated state')
        A = written(r, leaf, syms)
        rng = z3.And(X0 >= 0, X0 < n, Y0 >= 0, Y0 < n)
        k2, cc = bound('k', I), lambda x: z3.substitute(c, (k, x))
        at = lambda f, x, y, kk: z3.substitute(f, (X0, x), (Y0, y), (k, kk))
        if not E_valid(z3.Implies(z3.And(c, cc(k2), rng, A, at(A, X0, Y0, k2)), k == k2)): raise Unsupported('matrix element written by several iterations')
        for x in atoms:
            u, v = x.children()
            if not E_valid(z3.Implies(z3.And(c, cc(k2), rng, A, k != k2), z3.Not(at(A, u, v, k2)))): raise Unsupported('loop body reads accumulated matrix elements')
        cands = []
        for q in solutions(A, k):
            if not builtins.any(z3.eq(q, w) for w in cands): cands.append(q)
        if not E_valid(z3.Implies(z3.And(c, rng, A), z3.Or([k == q for q in cands] or [z3.BoolVal(False)]))): raise Unsupported('iteration writing a matrix element')
        old = t.restore
        r0 = z3.substitute(r, *[(x, old(*x.children())) for x in atoms]) if atoms else r
        def fn(a, b):
            out = old(a, b)
            for q in cands:
                qq = z3.substitute(q, (X0, a), (Y0, b))
                g = z3.substitute(z3.And(c, A), (X0, a), (Y0, b)); g = z3.substitute(g, (k, qq))
                v = z3.substitute(z3.substitute(r0, (X0, a), (Y0, b)), (k, qq))
                out = z3.If(g, v, out)
            return z3.simplify(out)
        return fn

def solve(x, y, k):
    """the value of k with x == y, when it occurs once with coefficient 1 or -1"""
    if not z3.is_int(x): return None
    d = x - y; d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0)))); co = z3.simplify(z3.substitute(d, (k, k + 1)) - d)
    if not z3.is_int_value(co) or co.as_long() not in (1, -1) or _occurs(d0, {k.decl().name()}): return None
    return z3.simplify(-d0 if co.as_long() == 1 else d0)
def solutions(t, k):
    out, seen, st = [], builtins.set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_eq(x):
            q = solve(x.arg(0), x.arg(1), k)
            if q is not None: out.append(q)
        if z3.is_app(x): st.extend(x.children())
    return out

def num_(o): return o._num() if isinstance(o, Mat) else o

def written(r, leaf, syms):
    """an over-approximation, free of element values, of the condition under which r differs from the element itself"""
    if z3.eq(r, leaf): return z3.BoolVal(False)
    if z3.is_app_of(r, z3.Z3_OP_ITE):
        c, x, y = r.children(); wx, wy = written(x, leaf, syms), written(y, leaf, syms)
        if _occurs(c, syms):
            p, q = index_only(c, syms, True), index_only(c, syms, False)
            return z3.simplify(z3.Or(z3.And(p, wx), z3.And(q, wy)))
        return z3.simplify(z3.Or(z3.And(c, wx), z3.And(z3.Not(c), wy)))
    return z3.BoolVal(True)

def index_only(c, syms, pol):
    """a weakening of c (of its negation) without the element values"""
    if not _occurs(c, syms): return c if pol else z3.Not(c)
    if z3.is_not(c): return index_only(c.arg(0), syms, not pol)
    if z3.is_and(c) or z3.is_or(c):
        xs = [index_only(x, syms, pol) for x in c.children()]
        return z3.And(xs) if z3.is_and(c) == pol else z3.Or(xs)
    return z3.BoolVal(True)

class Row:
    """one row of a matrix (a view)"""
    ndim = 1
    def __init__(self, m, i): self.m, self.i = m, i
    @property
    def shape(self): return (val(self.m.n),)
    def vlen(self): return val(self.m.n)
    def __getitem__(self, j): return self.m[SN(self.i) if not z3.is_int_value(self.i) else self.i.as_long(), j]
    def __setitem__(self, j, v): self.m[SN(self.i) if not z3.is_int_value(self.i) else self.i.as_long(), j] = v
    def __iter__(self): raise Unsupported('iterating over a row')
    def _segs(self): k = bound('k', I); return [('s', SSeq([k], z3.And(k >= 0, k < self.m.n), val(self.m.fn(self.i, k)), self.m.n, True))]
    def _issym(self): return True

class VDType:
    def __init__(self, n): self.name = n
    def __eq__(self, o): return o == self.name or getattr(o, 'name', o) == self.name
    __hash__ = None

class Index:
    """the labels of a frame"""
    def __init__(self, l): self.l = l
    def tolist(self): return PyList(self.l) if not isinstance(self.l, SSeq) else PyList.of([('s', self.l)])
    to_list = tolist
    def _segs(self): return seq_of(self.l)
    def _issym(self): return is_sym_iter(self.l)
    def vlen(self): return pyfac.vlen(self.l)
    def __getitem__(self, i): return self.l[i]

class ILoc:
    def __init__(self, m): self.m = m
    def __getitem__(self, k): return self.m[k]
    def __setitem__(self, k, v): self.m[k] = v

class Frame:
    """pandas.DataFrame holding a square matrix (or the rows of a table)"""
    ndim = 2
    def __init__(self, data=None, index=None, columns=None, **kw):
        self._born = next(E.births)
        if kw: raise Unsupported('DataFrame options')
        if isinstance(data, Frame): data, index, columns = data.mat, index if index is not None else data.index.l, columns if columns is not None else data.columns.l
        if isinstance(data, (Mat, Data)):
            self.mat = data; self.rows = None
            n = data.n if isinstance(data, Mat) else data.m
            for l in (index, columns):
                if l is not None and isinstance(data, Mat) and not E.implied(term(pyfac.vlen(l)) == n): raise Unsupported('labels of a frame')
        elif isinstance(data, PyList): self.mat, self.rows = None, data
        else: raise Unsupported('DataFrame of %s' % type(data).__name__)
        raw = lambda l: l.l if isinstance(l, Index) else l
        self.columns, self.index = Index(raw(columns) if columns is not None else self._default()), Index(raw(index) if index is not None else self._default())
    def _default(self):
        if self.rows is not None: return None
        return pyfac.vrange(val(self.mat.n if isinstance(self.mat, Mat) else self.mat.m))
    @property
    def shape(self): return self.mat.shape
    @property
    def values(self): return self.mat
    def to_numpy(self): return self.mat
    @property
    def iloc(self): return ILoc(self.mat)
    @property
    def n(self): return self.mat.n
    def copy(self, deep=True): return Frame(self.mat.copy(), self.index, self.columns)
    @property
    def T(self): return Frame(self.mat.T, self.columns, self.index)
    def abs(self): return Frame(abs(self.mat), self.index, self.columns)
    __abs__ = abs
    def vlen(self): return val(self.mat.n if isinstance(self.mat, Mat) else self.mat.n)
    def __iter__(self): raise Unsupported('iterating over a frame')

class Data:
    """training data: any table with m columns; only its shape is known"""
    ndim = 2
    def __init__(self, n, m, k=None): self.n, self.m, self.k = n, m, k
    @property
    def shape(self): return ((self.k,) if self.k is not None else ()) + (val(self.n), val(self.m))
    def reshape(self, *s):
        if builtins.len(s) == 3 and isinstance(s[2], SN) and z3.eq(s[2].t, self.m): return Data(term(s[1]), self.m, s[0])
        raise Unsupported('reshape of the data')
    def astype(self, *_): return self
    def copy(self): return self
    @property
    def values(self): return self

# ------------------------------------------------------------------ graphs
def sem_eq(p, q):
    x, y = z3.simplify(p(X0, Y0)), z3.simplify(q(X0, Y0))
    if z3.eq(x, y): return True
    same = symbols(x) == symbols(y)      # relations over different symbols are seldom the same
    return E.implied(x == y, ms=4000 if same else 700)
def symbols(t):
    out, seen, st = builtins.set(), builtins.set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): out.add(x.decl().name())
            st.extend(x.children())
    return out

REL = []     # (n, H, reach) of this path
BOT = []     # (n, H, w, bottleneck relation)
E.reset_path_hooks.append(lambda: (REL.clear(), BOT.clear(), WGS.clear()))
WGS = []

def outside(terms):
    names = {v.decl().name() for v in E.loopvars}
    return not names or not builtins.any(_occurs(t, names) for t in terms)

def reach_of(n, H):
    """the reflexive-transitive closure of H: the same function for equivalent relations, the converse for converse ones"""
    glob = outside([H(X0, Y0)])
    if glob:
        for n2, H2, r in REL:
            if z3.eq(n, n2):
                if sem_eq(H, H2): return r
                if sem_eq(H, lambda a, b: H2(b, a)): return lambda a, b, r=r: r(b, a)
    lv = E.loopvars
    if glob: E.loopvars = []
    try: r = E.fresh_fn('reach', I, I, B)
    finally: E.loopvars = lv
    a, b, c = bound('a', I), bound('b', I), bound('c', I)
    put = E.assume_global
    put(z3.ForAll([a], r(a, a), patterns=[r(a, a)])); put(z3.ForAll([a, b], z3.Implies(H(a, b), r(a, b))))
    put(z3.ForAll([a, b, c], z3.Implies(z3.And(r(a, b), r(b, c)), r(a, c)), patterns=[z3.MultiPattern(r(a, b), r(b, c))]))
    if glob: REL.append((n, H, r))
    return r

def bottleneck_of(n, H, w):
    """bn(t, a, b): b can be reached from a over arcs of weight at least t"""
    for n2, H2, w2, r in BOT:
        if z3.eq(n, n2) and sem_eq(H, H2) and E_valid(z3.Implies(H(X0, Y0), w(X0, Y0) == w2(X0, Y0))): return r
    lv = E.loopvars; E.loopvars = []
    try: r = E.fresh_fn('bottleneck', R, I, I, B)
    finally: E.loopvars = lv
    t, a, b, c = bound('t', R), bound('a', I), bound('b', I), bound('c', I)
    E.assume_global(z3.ForAll([t, a], r(t, a, a), patterns=[r(t, a, a)]))
    E.assume_global(z3.ForAll([t, a, b], z3.Implies(z3.And(H(a, b), w(a, b) >= t), r(t, a, b)), patterns=[r(t, a, b)]))
    E.assume_global(z3.ForAll([t, a, b, c], z3.Implies(z3.And(r(t, a, b), r(t, b, c)), r(t, a, c)), patterns=[z3.MultiPattern(r(t, a, b), r(t, b, c))]))
    BOT.append((n, H, w, r)); return r

class Root:
    """the graph as it was made: the reference of the invariants"""
    def __init__(self, n, H, w): self.n, self.H, self.w = n, H, w; self.bn = bottleneck_of(n, H, w)

class WGraph:
    """networkx.DiGraph on the nodes 0..n-1 with one weight per arc"""
    def __init__(self, n, H, w, root=None):
        self._born = next(E.births); self.n, self.H, self.w = n, H, w
        self.root = root or Root(n, H, w)
        if not E.loopvars:
            WGS.append(self)
            if E.jon: E.log(lambda: WGS.remove(self) if self in WGS else None)
    def _in(self, a): return z3.And(a >= 0, a < self.n)
    def reach(self): return reach_of(self.n, self.H)
    # loop protocol
    def _acc_preds(self): return {'H': ((I, I), self.H)}
    def _acc_setpreds(self, d): self.H = d['H']
    def _acc_state(self): return self.H
    def _acc_restore(self, st): self.H = st
    def _mut(self):
        note(self, ('mut',))
        if E.jon:
            h = self.H; E.log(lambda: builtins.setattr(self, 'H', h))
    def _nodes(self, *xs):
        ts = [itm(x) for x in xs]
        if not E.implied(z3.And([self._in(t) for t in ts])): raise Unsupported('node outside the matrix')
        return ts
    # networkx
    def has_edge(self, u, v):
        u, v = itm(u), itm(v); return mkb(self.H(u, v))
    def remove_edge(self, u, v):
        u, v = itm(u), itm(v); H = self.H
        if not E.fork(H(u, v)): raise NetworkXError('The edge is not in the graph.')
        self._mut(); self.H = lambda a, b: z3.And(H(a, b), z3.Not(z3.And(a == u, b == v)))
    def remove_edges_from(self, es):
        H = self.H; l = PyList(es) if not isinstance(es, PyList) else es
        self._mut(); self.H = lambda a, b: z3.And(H(a, b), z3.Not(l.contains((val(a), val(b)))))
    def copy(self): return WGraph(self.n, self.H, self.w, self.root)
    def reverse(self, copy=True):
        H, w = self.H, self.w; return WGraph(self.n, lambda a, b: H(b, a), lambda a, b: w(b, a))
    def nodes_(self): k = bound('k', I); return SSeq([k], z3.And(k >= 0, k < self.n), val(k), self.n, True)
    @property
    def nodes(self): return Callable_(self.nodes_)
    def _edges(self, data=False):
        a, b = bound('a', I), bound('b', I)
        e = (val(a), val(b)) if data is False else ((val(a), val(b), val(self.w(a, b))) if data == 'weight' else (val(a), val(b), Attr(self, a, b)))
        return SSeq([a, b], self.H(a, b), e)
    @property
    def edges(self): return Callable_(self._edges)
    def number_of_nodes(self): return val(self.n)
    def vlen(self): return val(self.n)
    def __getitem__(self, u): u, = self._nodes(u); return Adj(self, u)
    def successors(self, u): u, = self._nodes(u); v = bound('v', I); H = self.H; return SSeq([v], H(u, v), val(v))
    def predecessors(self, u): u, = self._nodes(u); v = bound('v', I); H = self.H; return SSeq([v], H(v, u), val(v))

class Attr:
    def __init__(self, g, a, b): self.g, self.a, self.b = g, a, b
    def __getitem__(self, k):
        if k != 'weight': raise KeyError(k)
        return val(self.g.w(self.a, self.b))
    def get(self, k, d=None): return self[k] if k == 'weight' else d
    def _subst(self, ps): return Attr(self.g, z3.substitute(self.a, *ps), z3.substitute(self.b, *ps))
class Adj:
    def __init__(self, g, u): self.g, self.u = g, u
    def __getitem__(self, v):
        v = itm(v)
        if not E.fork(self.g.H(self.u, v)): raise KeyError(v)
        return Attr(self.g, self.u, v)
class Callable_:
    """G.nodes / G.edges: a view that can also be called"""
    def __init__(self, f): self.f = f
    def __call__(self, *a, **k): return self.f(*a, **k)
    def _segs(self): return [('s', self.f())]
    def _issym(self): return True
    def __iter__(self): raise Unsupported('native iteration of a graph view')
    def __getitem__(self, e):
        raise Unsupported('graph view item')

class EdgeAttr:
    """nx.get_edge_attributes(g, 'weight'): a snapshot"""
    _isdict = True
    def __init__(self, g): self.H, self.w = g.H, g.w
    def __getitem__(self, e):
        u, v = itm(e[0]), itm(e[1])
        if not E.fork(self.H(u, v)): raise KeyError(e)
        return val(self.w(u, v))
    def get(self, e, d=None): return self[e] if E.fork(self.H(itm(e[0]), itm(e[1]))) else d
    def keys(self):
        a, b = bound('a', I), bound('b', I); return PyList.of([('s', SSeq([a, b], self.H(a, b), (val(a), val(b))))])
    def items(self):
        a, b = bound('a', I), bound('b', I); return PyList.of([('s', SSeq([a, b], self.H(a, b), ((val(a), val(b)), val(self.w(a, b)))))])
    def _segs(self): return seq_of(self.keys())
    def _issym(self): return True
    def contains(self, e): return self.H(itm(e[0]), itm(e[1]))
    def __contains__(self, e): return E.fork(self.contains(e))
    def __iter__(self): raise Unsupported('native iteration of edge attributes')

class nx:
    DiGraph = WGraph
    NetworkXError, NetworkXNoPath = NetworkXError, NetworkXNoPath
    NetworkXException = graphdom.NXError
    @staticmethod
    def from_numpy_array(m, create_using=None, **kw):
        if create_using is not WGraph or not isinstance(m, Mat) or kw: raise Unsupported('from_numpy_array')
        f, n = m._num().fn, m.n
        return WGraph(n, lambda a, b: z3.And(a >= 0, a < n, b >= 0, b < n, f(a, b) != 0), f)
    @staticmethod
    def to_numpy_array(g, **kw):
        if kw: raise Unsupported('to_numpy_array options')
        H, w = g.H, g.w; return Mat(g.n, lambda a, b: z3.If(H(a, b), w(a, b), z3.RealVal(0)))
    @staticmethod
    def get_edge_attributes(g, name):
        if name != 'weight': raise Unsupported('edge attribute')
        return EdgeAttr(g)
    @staticmethod
    def has_path(g, u, v):
        u, v = g._nodes(u, v); return mkb(g.reach()(u, v))
    @staticmethod
    def is_directed_acyclic_graph(g):
        a, b = bound('a', I), bound('b', I); r = g.reach()
        return mkb(z3.Not(quant(z3.Exists, [a, b], z3.And(g.H(a, b), r(b, a)))))
    @staticmethod
    def selfloop_edges(g, **kw):
        a = bound('a', I); return SSeq([a], g.H(a, a), (val(a), val(a)))
    @staticmethod
    def shortest_path(g, u, v, weight=None): return nx.all_shortest_paths(g, u, v, weight)[0]
    @staticmethod
    def all_shortest_paths(g, u, v, weight=None, method='dijkstra'):
        """at least one path of arcs of g from u to v (which of them is left open)"""
        E.assumed.add('networkx.all_shortest_paths(g, u, v, weight) yields at least one path along arcs of g from u to v, if there is one; weights must not be negative')
        u, v = g._nodes(u, v); H, w, rt, r = g.H, g.w, g.root, g.reach()
        a, b = bound('a', I), bound('b', I)
        if weight is not None and not E.implied(z3.ForAll([a, b], z3.Implies(H(a, b), w(a, b) >= 0))):
            if not E.fork(z3.ForAll([a, b], z3.Implies(H(a, b), w(a, b) >= 0))): raise ValueError('Contradictory paths found: negative weights?')
        if not E.fork(r(u, v)): raise NetworkXNoPath('no path')
        m = E.fresh('paths', I); ln = E.fresh_fn('plen', I, I); nd = E.fresh_fn('pnode', I, I, I)
        k, j, t = bound('k', I), bound('j', I), bound('t', R)
        ok = z3.And(k >= 0, k < m)
        E.assume(m >= 1)
        E.assume(z3.ForAll([k], z3.Implies(ok, z3.And(ln(k) >= 0, nd(k, z3.IntVal(0)) == u, nd(k, ln(k)) == v)), patterns=[ln(k)]))
        E.assume(z3.ForAll([k, j], z3.Implies(z3.And(ok, j >= 0, j <= ln(k)), z3.And(g._in(nd(k, j)), r(u, nd(k, j)), r(nd(k, j), v))), patterns=[nd(k, j)]))
        E.assume(z3.ForAll([k, j], z3.Implies(z3.And(ok, j >= 0, j < ln(k)), H(nd(k, j), nd(k, j + 1))), patterns=[nd(k, j)]))
        if E.implied(u != v): E.assume(z3.ForAll([k], z3.Implies(ok, ln(k) >= 1), patterns=[ln(k)]))
        # a lightest arc of the path (when it has one), and by induction along the path: its nodes are joined over arcs at least as heavy
        lo = E.fresh_fn('lightest', I, I)
        wt = lambda k, j: w(nd(k, j), nd(k, j + 1))
        E.assume(z3.ForAll([k], z3.Implies(z3.And(ok, ln(k) > 0), z3.And(lo(k) >= 0, lo(k) < ln(k))), patterns=[lo(k)]))
        E.assume(z3.ForAll([k, j], z3.Implies(z3.And(ok, j >= 0, j < ln(k)), wt(k, lo(k)) <= wt(k, j)), patterns=[nd(k, j)]))
        sub = z3.ForAll([a, b], z3.Implies(H(a, b), rt.H(a, b)))
        if E.implied(sub):
            E.assume(z3.ForAll([k, j, t], z3.Implies(z3.And(ok, j >= 0, j <= ln(k), t <= wt(k, lo(k))), z3.And(rt.bn(t, u, nd(k, j)), rt.bn(t, nd(k, j), v))),
                               patterns=[z3.MultiPattern(rt.bn(t, u, nd(k, j))), z3.MultiPattern(rt.bn(t, nd(k, j), v))]))
            # lemma: when no arc of g on a cycle is heavier than the arc (v, u), the paths close cycles over it
            if E.implied(H(v, u)) and E.implied(z3.ForAll([a, b], z3.Implies(z3.And(H(a, b), r(b, a)), w(a, b) <= w(v, u)))):
                E.assume(z3.ForAll([k, j, t], z3.Implies(z3.And(ok, j >= 0, j < ln(k), t <= wt(k, lo(k))), rt.bn(t, nd(k, j + 1), nd(k, j))), patterns=[rt.bn(t, nd(k, j + 1), nd(k, j))]))
        k2, j2 = bound('k', I), bound('j', I)
        path = PyList.of([('s', SSeq([j2], z3.And(j2 >= 0, j2 < ln(k2) + 1), val(nd(k2, j2)), ln(k2) + 1, True))])
        return PyList.of([('s', SSeq([k2], z3.And(k2 >= 0, k2 < m), PathV(path), m, True))])
    @staticmethod
    def dfs_edges(g, source=None, depth_limit=None, **kw):
        """tree arcs: one into every node but the source that can be reached (within one step, for depth 1)"""
        if kw or source is None: raise Unsupported('dfs_edges options')
        s, = g._nodes(source); v = bound('v', I)
        par = E.fresh_fn('parent', I, I)
        if depth_limit is None or (not (isinstance(depth_limit, int) and depth_limit == 1) and E.implied(itm(depth_limit) >= g.n - 1)): r = g.reach(); c = z3.And(g._in(v), v != s, r(s, v))
        elif isinstance(depth_limit, int) and depth_limit == 1: c = z3.And(g._in(v), v != s, g.H(s, v)); par = lambda x: s
        elif E.implied(itm(depth_limit) >= 1):
            # which nodes a bounded search finds depends on the order of the arcs; the direct successors are among them
            r = g.reach(); f = E.fresh_fn('found', I, B)
            E.assume(z3.ForAll([v], z3.Implies(z3.And(g._in(v), g.H(s, v)), f(v)), patterns=[f(v)])); c = z3.And(g._in(v), v != s, r(s, v), f(v))
        else: raise Unsupported('dfs_edges with this depth limit')
        return SSeq([v], c, (val(par(v)), val(v)))
    @staticmethod
    def descendants(g, source): s, = g._nodes(source); v = bound('v', I); r = g.reach(); p = PySet(SSeq([v], z3.And(g._in(v), v != s, r(s, v)), val(v))); return p
    @staticmethod
    def ancestors(g, source): s, = g._nodes(source); v = bound('v', I); r = g.reach(); return PySet(SSeq([v], z3.And(g._in(v), v != s, r(v, s)), val(v)))

class PathV:
    """a path as a list of nodes (element of a family)"""
    def __new__(cls, l): return PyListV.of(l)
class PyListV(PyList):
    @staticmethod
    def of(l):
        r = PyListV(); r.segs = list(l.segs); return r
    def _subst(self, ps): return PyListV.of(PyList.of([(k, s._subst(ps)) for k, s in self.segs]))
    def _terms(self): return []

# ------------------------------------------------------------------ loop contract of the cycle-breaking loop
class Trim:
    """invariant of every while loop that changes a graph: the arcs left are arcs of the original graph, there is no self
    loop, and every arc that is gone closes a cycle on which no arc is lighter; every round removes an arc"""
    def __init__(self, tag=''): self.tag = tag
    def applies(self): return bool(WGS)
    def inv(self, g):
        a, b = z3.Ints('a b'); rt = g.root; H = g.H
        return [('arcs left are arcs of the original', z3.ForAll([a, b], z3.Implies(H(a, b), rt.H(a, b)))),
                ('no self loop is left', z3.ForAll([a], z3.Not(H(a, a)))),
                ('a removed arc is a lightest arc of a cycle', z3.ForAll([a, b], z3.Implies(z3.And(rt.H(a, b), z3.Not(H(a, b))), rt.bn(rt.w(a, b), b, a))))]
    def enter(self):
        gs = list(WGS); olds = []
        for g in gs:
            for nm, f in self.inv(g): E.prove('on entry: ' + nm, f)
        for g in gs:
            g._mut(); f = E.fresh_fn('arcs', I, I, B); g.H = lambda a, b, f=f: f(a, b)
            for nm, c in self.inv(g): E.assume(c)
            olds.append(g.H)
        return gs, olds
    def again(self, tok):
        gs, olds = tok; a, b = z3.Ints('a b')
        for g, H in zip(gs, olds):
            for nm, f in self.inv(g): E.prove('kept by the loop: ' + nm, f)
        def fewer(g, H):
            gone = [z3.And(H(p, q), z3.Not(g.H(p, q))) for p, q in picks(g.H)] or [z3.Exists([a, b], z3.And(H(a, b), z3.Not(g.H(a, b))))]
            return z3.And(z3.Or(gone), z3.ForAll([a, b], z3.Implies(g.H(a, b), H(a, b))))
        E.prove('every round removes an arc', z3.Or([fewer(g, H) for g, H in zip(gs, olds)]))

def picks(h):
    """arcs a change singles out: the values compared with both ends in the relation (first member of each family)"""
    es, st, seen = ([], []), [h(X0, Y0)], builtins.set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(z3.substitute_vars(x.body(), *[z3.IntVal(0) if x.var_sort(i) == I else E.fresh('w', x.var_sort(i)) for i in builtins.range(x.num_vars())])); continue
        if z3.is_eq(x):
            for p, q in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                for i, v in enumerate((X0, Y0)):
                    if z3.eq(p, v) and not builtins.any(z3.eq(q, y) for y in es[i]): es[i].append(q)
        if z3.is_app(x): st.extend(x.children())
    ok = lambda t: not _occurs(t, {X0.decl().name(), Y0.decl().name()})
    return [(p, q) for p in es[0] for q in es[1] if ok(p) and ok(q)]

# ------------------------------------------------------------------ numpy, pandas
class _Meta(type):
    def __instancecheck__(c, x): return isinstance(x, c._of)
    def __call__(c, *a, **k): return c._of[0](*a, **k)
def where(c, x=None, y=None):
    if not isinstance(c, Mat) or x is None: raise Unsupported('np.where')
    c = c if c.boolean else c != 0
    def part(v):
        if isinstance(v, Mat): return v._num().fn
        t = real(numterm(v)); return lambda a, b: t
    p, q, m = part(x), part(y), c.fn
    return Mat(c.n, lambda a, b: z3.If(m(a, b), p(a, b), q(a, b)))
def tri(keep):
    def f(m, k=0):
        g = m._num().fn; t = term(k); return Mat(m.n, lambda a, b: z3.If(keep(a, b, t), g(a, b), z3.RealVal(0)))
    return f
def fill_diagonal(m, v):
    f = m.fn; t = real(numterm(v)) if not m.boolean else tob(v); m._log(); m.fn = lambda a, b: z3.If(a == b, t, f(a, b))
def zeros(shape, *a, **k):
    if isinstance(shape, tuple) and len(shape) == 2 and term(shape[0]).eq(term(shape[1])): return Mat(term(shape[0]), lambda a, b: z3.RealVal(0))
    raise Unsupported('np.zeros')
def lift(f, g=None):
    def h(x, *a, **k):
        if isinstance(x, Frame): x = x.mat
        if isinstance(x, Mat): return f(x, *a, **k)
        if g is not None: return g(x, *a, **k)
        raise Unsupported('numpy function')
    return h
def numpy_facade():
    m = types.ModuleType('numpy')
    nd = _Meta('ndarray', (), {'_of': (Mat, Data)})
    d = dict(ndarray=nd, abs=lift(abs, abs), absolute=lift(abs, abs), fabs=lift(abs, abs), where=where, triu=lift(tri(lambda a, b, k: b - a >= k)), tril=lift(tri(lambda a, b, k: b - a <= k)), fill_diagonal=fill_diagonal,
             zeros_like=lambda x, *a, **k: Mat(x.n, lambda a, b: z3.RealVal(0)), zeros=zeros, array=lift(lambda x, *a, **k: x.copy()), asarray=lift(lambda x, *a, **k: x), copy=lift(lambda x: x.copy()),
             isnan=lift(lambda x: Mat(x.n, lambda a, b: z3.BoolVal(False), True)), any=lift(lambda x: x.any()), all=lift(lambda x: x.all()), inf=float('inf'), nan=float('nan'), transpose=lift(lambda x: x.T),
             logical_and=lambda x, y: x & y, logical_or=lambda x, y: x | y, logical_not=lambda x: ~x,
             maximum=lambda x, y: x._with(y, lambda p, q: z3.If(p >= q, p, q)), minimum=lambda x, y: x._with(y, lambda p, q: z3.If(p <= q, p, q)))
    for k, v in d.items(): setattr(m, k, v)
    def __getattr__(a):
        if a.startswith('__'): raise AttributeError(a)
        from .xform import _stub
        return _stub('numpy.' + a)
    m.__getattr__ = __getattr__
    return m
def pandas_facade():
    m = types.ModuleType('pandas'); m.DataFrame = Frame
    def __getattr__(a):
        if a.startswith('__'): raise AttributeError(a)
        from .xform import _stub
        return _stub('pandas.' + a)
    m.__getattr__ = __getattr__
    return m
def networkx_facade():
    m = types.ModuleType('networkx')
    for k, v in vars(nx).items():
        if not k.startswith('__'): setattr(m, k, v.__func__ if isinstance(v, staticmethod) else v)
    def __getattr__(a):
        if a.startswith('__'): raise AttributeError(a)
        from .xform import _stub
        return _stub('networkx.' + a)
    m.__getattr__ = __getattr__
    return m
