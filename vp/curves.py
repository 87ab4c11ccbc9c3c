"""Columns of numbers over an unknown number of rows, ranked and accumulated (facades of numpy and pandas for them).

A column is a function of the row position with a flag for missing values.  Prefix sums, rankings and interpolations are
opaque functions of the column: the same function for columns that are equal row by row."""
import builtins, types
import z3
from .core import *
from .core import E, eq, tob, term, val, mkb, inv
from . import coll, pyfac, graphdom
from .coll import PyList, PySet, PyDict, SSeq, bound, seq_of, is_sym_iter
from .pyfac import E_valid
from .libs import mod
from .mat import symbols
from . import prover

P0 = z3.Int('row?')
F_ = z3.BoolVal(False)
NONAN = lambda p: F_
REG = []
E.reset_path_hooks.append(REG.clear)

def inr(n, *ps): return z3.And([z3.And(p >= 0, p < n) for p in ps])
def fa(n, f, m=None): p = bound('p', I); return z3.ForAll([p], z3.Implies(inr(n, p) if m is None else z3.And(p >= 0, p <= m), f(p)))
def same(n, f, g):
    x, y = z3.simplify(f(P0)), z3.simplify(g(P0))
    if z3.eq(x, y): return True
    if x.sort() != y.sort(): return False
    d = z3.simplify(x - y, som=True) if x.sort() in (R, I) else None
    if d is not None and (z3.is_rational_value(d) or z3.is_int_value(d)): return str(d) == '0'
    if symbols(x) != symbols(y): return False          # columns over different symbols: not looked at
    return holds(z3.Implies(inr(n, P0), x == y))
def num(t): return real(t)
MARKS = []    # rows whose place in every ranking is of interest
E.reset_path_hooks.append(MARKS.clear)
E.slow = False      # a comparison of columns ran out of time: what fails afterwards is undecided, not refuted
def _fast(): E.slow = False
E.reset_path_hooks.append(_fast)

def holds(c, ms=500, rounds=1):
    """a fact about arbitrary rows that follows from instances of what is known at the rows named in it (no quantifiers)"""
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    facts, ground, st = [], [], list(E.pc) + E.gfacts
    while st:
        h = st.pop()
        if z3.is_and(h): st.extend(h.children()); continue
        if z3.is_quantifier(h):
            if h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == I and not has_quant(h.body()): facts.append(h)
        elif not has_quant(h): ground.append(h)
    import time
    rows, new, seen = {}, [c], ground
    for _ in range(rounds):
        fresh = {}
        for a in prover.subterms(new):
            if a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for y in a.children():
                    if y.sort() == I and not prover.has_var(y) and y.get_id() not in rows: fresh[y.get_id()] = y
        if not fresh or len(rows) + len(fresh) > (40 if rounds < 3 else 200): break
        rows.update(fresh)
        new = [z3.simplify(z3.substitute_vars(h.body(), t)) for h in facts for t in fresh.values()]
        new = [h for h in new if not z3.is_true(h)]; seen = seen + new
        s = z3.SimpleSolver(); s.set('timeout', ms)
        for h in seen: s.add(h)
        s.add(z3.Not(c))
        t = time.time(); r = s.check(); E.solver_secs += time.time() - t; E.queries += 1
        if r == z3.unsat: return True
        if r == z3.unknown and not rounds > 1: E.slow = True
    if not rows:
        s = z3.SimpleSolver(); s.set('timeout', ms)
        for h in ground: s.add(h)
        s.add(z3.Not(c))
        return s.check() == z3.unsat
    return False
def nonzero(t): t = num(numterm(t)); return holds(t != 0, 6000, 3) or E.implied(t != 0, ms=20000)

def psum(n, f):
    """S(p): the sum of f over the rows 0..p"""
    t = z3.simplify(num(f(P0)), som=True)
    ROW = {'row?'}
    if not pyfac._occurs(t, ROW): return lambda p: z3.ToReal(p + 1) * t
    if z3.is_add(t):         # sums are linear
        ss = [psum(n, lambda p, c=c: z3.substitute(c, (P0, p))) for c in t.children()]
        return lambda p: z3.Sum([s(p) for s in ss])
    if z3.is_mul(t):
        k = [c for c in t.children() if not pyfac._occurs(c, ROW)]
        if k:
            r = z3.Product([c for c in t.children() if pyfac._occurs(c, ROW)]); s = psum(n, lambda p: z3.substitute(r, (P0, p))); k = z3.Product(k)
            return lambda p: k * s(p)
    f = lambda p: z3.substitute(t, (P0, p))
    for r in REG:
        if r[0] == 'sum' and z3.eq(r[1], n) and same(n, r[2], f): return r[3]
    for r in list(REG):      # combinations of sums known already
        if r[0] != 'sum' or not z3.eq(r[1], n): continue
        for g, h in ((lambda p: -r[2](p), lambda p: -r[3](p)),):
            if same(n, g, f): return h
    S = z3.Function('sum!%d' % next(E.ctr), I, R)
    if pyfac._occurs(t, ROW):        # a total does not depend on the order of the rows
        for r in list(REG):
            if r[0] != 'rank' or not z3.eq(r[1], n): continue
            h = z3.Int('hole?'); u = z3.substitute(t, (r[3](P0), h))
            if pyfac._occurs(u, {'hole?'}) and not pyfac._occurs(u, ROW) and not any(q[0] == 'rank' and pyfac._occurs(u, {q[3].name()}) for q in REG):
                T = psum(n, lambda p: z3.substitute(u, (h, p))); E.assume_global(z3.Implies(n > 0, S(n - 1) == T(n - 1)))
                E.assumed.add('the total of a column does not depend on the order of the rows')
    E.assumed.add('a prefix sum is zero where all its terms are, and only there when they are not negative')
    _enter(n, f, S, S)
    if holds(z3.Implies(inr(n, P0), z3.Or(f(P0) == 0, f(P0) == 1))): _enter(n, lambda p: 1 - f(p), lambda p: z3.ToReal(p + 1) - S(p), S)
    return S
def ranks(t): return {x for x in symbols(t) if x.startswith('ranked!')}
def _enter(n, f, S, trig):
    """register a prefix sum (trig: the function applied at p in S(p)) with its lemmas"""
    p, j = bound('p', I), bound('j', I)
    pos = holds(z3.Implies(inr(n, P0), f(P0) >= 0))
    if pos:
        E.assume_global(z3.ForAll([p], z3.Implies(inr(n, p), S(p) >= 0), patterns=[trig(p)]))
        ts = [x for x in prover.subterms([f(j)]) if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(z3.eq(y, j) for y in x.children())]
        if ts: E.assume_global(z3.ForAll([p, j], z3.Implies(z3.And(inr(n, p), j >= 0, j <= p, S(p) == 0), f(j) == 0), patterns=[z3.MultiPattern(trig(p), ts[0])]))
        for r in REG:        # the rows of interest, at their places
            if r[0] == 'rank' and z3.eq(r[1], n) and r[3].name() in ranks(f(P0)):
                for m in MARKS: E.assume_global(z3.Implies(z3.And(n > 0, S(n - 1) == 0), z3.simplify(z3.substitute(z3.simplify(f(r[4](m))), (r[3](r[4](m)), m)) == 0)))
    for r in REG:
        if r[0] != 'sum' or not z3.eq(r[1], n) or ranks(r[2](P0)) != ranks(f(P0)) or not symbols(r[2](P0)) & symbols(f(P0)): continue
        for (g, G, gp), (h, H, ht) in (((r[2], r[3], r[4]), (f, S, trig)), ((f, S, pos), (r[2], r[3], r[5]))):
            if gp and holds(z3.Implies(z3.And(inr(n, P0), g(P0) == 0), h(P0) == 0)):
                E.assume_global(z3.ForAll([p], z3.Implies(z3.And(inr(n, p), G(p) == 0), H(p) == 0), patterns=[ht(p)]))
    REG.append(('sum', n, f, S, pos, trig))

def rank(n, f):
    """perm(k): the row at place k of the ranking by f, highest first"""
    for r in REG:
        if r[0] == 'rank' and z3.eq(r[1], n) and same(n, r[2], f): return r[3]
    k = next(E.ctr); perm, place = z3.Function('ranked!%d' % k, I, I), z3.Function('place!%d' % k, I, I)
    p, q = bound('p', I), bound('q', I)
    E.assume_global(z3.ForAll([p], z3.Implies(inr(n, p), z3.And(inr(n, perm(p)), place(perm(p)) == p)), patterns=[perm(p)]))
    E.assume_global(z3.ForAll([p], z3.Implies(inr(n, p), z3.And(inr(n, place(p)), perm(place(p)) == p)), patterns=[place(p)]))
    E.assume_global(z3.ForAll([p, q], z3.Implies(z3.And(inr(n, p, q), p < q), f(perm(p)) >= f(perm(q))), patterns=[z3.MultiPattern(perm(p), perm(q))]))
    for m in MARKS: E.assume_global(z3.And(inr(n, place(m)), perm(place(m)) == m))
    E.assumed.add('sort_values puts the rows in an order of the column; the order is a function of the column')
    REG.append(('rank', n, f, perm, place)); return perm

def fill(n, f, nan):
    """linear interpolation over the missing rows (n rows; the last value is carried on)"""
    if z3.is_false(z3.simplify(nan(P0))): return f, nan
    for r in REG:
        if r[0] == 'fill' and E.implied(r[1] == n, ms=500):
            a, b = nan(P0), r[3](P0)
            if symbols(a) != symbols(b) or not symbols(f(P0)) & symbols(r[2](P0)): continue
            if holds(z3.Implies(inr(n, P0), z3.And(a == b, z3.Or(a, f(P0) == r[2](P0))))): return r[4], r[5]
    g = z3.Function('filled!%d' % next(E.ctr), I, R)
    p = bound('p', I)
    E.assume_global(z3.ForAll([p], z3.Implies(z3.And(inr(n, p), z3.Not(nan(p))), g(p) == f(p)), patterns=[g(p)]))
    E.assumed.add('DataFrame.interpolate keeps the values present; the values it fills in are a function of those present and their positions')
    if E.implied(z3.And(n > 0, z3.Not(nan(z3.IntVal(0))))): m = NONAN
    else: m = lambda p: z3.Not(z3.Exists([P0], z3.And(P0 >= 0, P0 <= p, z3.Not(nan(P0)))))
    REG.append(('fill', n, f, nan, g, m)); return g, m

# ---------------------------------------------------------------- scalars with a missing flag
def factors(t):
    if z3.is_mul(t): return [f for c in t.children() for f in factors(c)]
    return [t]
def times(x, y, missing):
    """the product, a number and its reciprocal cancelled where neither is missing"""
    fs = factors(x) + factors(y); out = []
    for f in fs:
        for g in out:
            a, b = (f, g) if f.num_args() == 1 and f.decl().name() == 'inv' else (g, f)
            if a.num_args() == 1 and a.decl().name() == 'inv' and z3.eq(a.arg(0), z3.simplify(b)) and holds(z3.Implies(z3.Not(missing), b != 0)): out.remove(g); break
        else: out.append(f)
    return z3.Product(out) if out else z3.RealVal(1)
def at_row(t): t = z3.simplify(t); return lambda p: z3.substitute(t, (P0, p))
class DivZero(Unsupported): pass
def arith(op, a, b, an, bn, dom):
    """(value, nan) of a op b as functions of the position"""
    x, y = (lambda p: num(a(p))), (lambda p: num(b(p)))
    nn = lambda p: z3.Or(an(p), bn(p))
    if op == '/':
        z = z3.simplify(y(P0))
        g = z3.Implies(z3.And(dom(P0), z3.Not(nn(P0)), z == 0), x(P0) == 0)
        if holds(z3.Implies(z3.And(dom(P0), z3.Not(nn(P0))), z != 0)): return at_row(times(x(P0), inv(y(P0)), z3.Not(z3.And(dom(P0), z3.Not(nn(P0)))))), nn
        if not holds(g) and not E.implied(g, ms=4000): raise DivZero('division of a number by zero')
        return at_row(times(x(P0), inv(y(P0)), z3.Not(z3.And(dom(P0), z3.Not(nn(P0)))))), (lambda p: z3.Or(nn(p), y(p) == 0))
    if op == '*': return at_row(times(x(P0), y(P0), z3.Not(z3.And(dom(P0), z3.Not(nn(P0)))))), nn
    f = {'+': lambda u, v: u + v, '-': lambda u, v: u - v, '*': lambda u, v: u * v}[op]
    return (lambda p: f(x(p), y(p))), nn

class Idx:
    """row labels"""
    def __init__(self, n, lab): self.n, self.lab = n, lab
    @property
    def values(self): return Vec(self.n, self.lab)
    def to_numpy(self): return self.values
    def vlen(self): return val(self.n)
    def __iter__(self): raise Unsupported('iterating over labels')
    def _a(self): return Vec(self.n, self.lab)
    def __add__(self, o): return self._a() + o
    __radd__ = __add__
    def __sub__(self, o): return self._a() - o
    def __rsub__(self, o): return o - self._a()
    def __mul__(self, o): return self._a() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self._a() / o
    def __rtruediv__(self, o): return o / self._a()
def same_labels(n, a, b):
    if a is b: return True
    if a is None or b is None: return False
    return same(n, a, b)

class Seq:
    ndim = 1
    __array_priority__ = 3000
    @property
    def shape(self): return (val(self.n),)
    @property
    def size(self): return val(self.n)
    def vlen(self): return val(self.n)
    def __iter__(self): raise Unsupported('iterating over a column')
    def __bool__(self):
        e = ValueError('The truth value of a Series is ambiguous'); e._modelled = True; raise e
    __hash__ = object.__hash__
    def _new(self, o, f, nan): raise NotImplementedError
    def _bin(self, o, op, flip=False):
        if isinstance(o, Idx): o = o._a()
        if isinstance(o, (int, float, bool, SN, SB)):
            t = num(numterm(o)); b, bn = (lambda p: t), NONAN
        elif isinstance(o, Seq):
            if not isinstance(self, Ser) and isinstance(o, Ser): return NotImplemented
            if not z3.eq(z3.simplify(self.n), z3.simplify(o.n)) and not E.implied(self.n == o.n): raise Unsupported('columns of different lengths')
            if isinstance(self, Ser) and isinstance(o, Ser) and not same_labels(self.n, self.lab, o.lab): raise Unsupported('columns with different labels')
            b, bn = o.fn, o.nan
        else: return NotImplemented
        a, an = self.fn, self.nan
        if flip: a, an, b, bn = b, bn, a, an
        n = self.n
        if op in '+-*/': f, nan = arith(op, a, b, an, bn, lambda p: inr(n, p)); return self._new(f, nan)
        if op in ('and', 'or'):
            c = z3.And if op == 'and' else z3.Or
            if not (z3.is_bool(a(P0)) and z3.is_bool(b(P0))): raise Unsupported('bitwise operation on numbers')
            return self._new(lambda p: c(a(p), b(p)), NONAN)
        cmp_ = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[op]
        none = lambda p: z3.Or(an(p), bn(p))
        return self._new((lambda p: z3.And(z3.Not(none(p)), cmp_(num(a(p)), num(b(p))))) if op != '!=' else (lambda p: z3.Or(none(p), num(a(p)) != num(b(p)))), NONAN)
    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+')
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*')
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __eq__(self, o): return self._bin(o, '==')
    def __ne__(self, o): return self._bin(o, '!=')
    def __lt__(self, o): return self._bin(o, '<')
    def __le__(self, o): return self._bin(o, '<=')
    def __gt__(self, o): return self._bin(o, '>')
    def __ge__(self, o): return self._bin(o, '>=')
    def __and__(self, o): return self._bin(o, 'and')
    def __or__(self, o): return self._bin(o, 'or')
    def __neg__(self): return self._new((lambda f: lambda p: -num(f(p)))(self.fn), self.nan)
    def __invert__(self):
        if not z3.is_bool(self.fn(P0)): raise Unsupported('bitwise operation on numbers')
        return self._new((lambda f: lambda p: z3.Not(f(p)))(self.fn), NONAN)
    def __abs__(self): return self._new((lambda f: lambda p: z3.If(num(f(p)) >= 0, num(f(p)), -num(f(p))))(self.fn), self.nan)
    def abs(self): return abs(self)
    def _total(self):
        if not z3.is_false(z3.simplify(self.nan(P0))) and not E.implied(z3.Implies(inr(self.n, P0), z3.Not(self.nan(P0))), ms=2000): raise Unsupported('accumulating missing values')
    def cumsum(self, axis=None): self._total(); return self._new(psum(self.n, self.fn), NONAN)
    def sum(self, axis=None):
        self._total(); return val(z3.If(self.n > 0, psum(self.n, self.fn)(self.n - 1), z3.RealVal(0)) if not E.implied(self.n > 0) else psum(self.n, self.fn)(self.n - 1))
    def mean(self, axis=None): return self.sum() / val(self.n)
    def astype(self, t):
        if z3.is_bool(self.fn(P0)): return self._new((lambda f: lambda p: num(f(p)))(self.fn), self.nan)
        if t is builtins.float or t is pyfac.VFloat or t == 'float64' or t == 'float': return self._new(self.fn, self.nan)
        raise Unsupported('cast of a column')
    def at(self, p): return val(self.fn(p))
    def _pos(self, k):
        t = term(k)
        if not z3.is_int(t): raise Unsupported('position %r' % (k,))
        if E.implied(z3.And(t >= 0, t < self.n)): return t
        if E.implied(z3.And(t < 0, t >= -self.n)): return z3.simplify(t + self.n)
        raise Unsupported('position %r' % (k,))
    def _value(self, p):
        if not z3.is_false(z3.simplify(self.nan(p))) and not E.implied(z3.Not(self.nan(p)), ms=2000): raise Unsupported('a missing value')
        return val(self.fn(p))

class Vec(Seq):
    """numpy array of one dimension"""
    def __init__(self, n, fn, nan=NONAN): self.n, self.fn, self.nan = n, fn, nan
    def _new(self, f, nan): return Vec(self.n, f, nan)
    def copy(self): return self._new(self.fn, self.nan)
    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None, None, -1): return rev(self)
        if isinstance(k, (int, SN)): return self._value(self._pos(k))
        raise Unsupported('array selection')
    def reshape(self, *s): raise Unsupported('reshape')

def rev(s):
    n, f, m = s.n, s.fn, s.nan; return s._new(lambda p: f(n - 1 - p), lambda p: m(n - 1 - p))

class Series:
    def __new__(cls, data=None, *a, **kw):
        if cls is Series:
            if isinstance(data, PyDict) and not a and not kw:
                ks = builtins.list(data.keys()); return Row({k: data[k] for k in ks})
            if isinstance(data, dict) and not a and not kw: return Row(dict(data))
            if isinstance(data, Seq) and not a and set(kw) <= {'index', 'name'}:
                i = kw.get('index'); r = Ser(data.n, data.fn, data.nan, i.lab if i is not None else (data.lab if isinstance(data, Ser) else (lambda p: p))); r.name = kw.get('name'); return r
            raise Unsupported('pandas.Series of %s' % type(data).__name__)
        return object.__new__(cls)

class Uniq:
    """the distinct values of a column"""
    def __init__(self, s): self.s = s

class Ser(Seq, Series):
    """pandas.Series"""
    def __init__(self, n, fn, nan, lab, name=None): self.n, self.fn, self.nan, self.lab, self.name = n, fn, nan, lab, name; self._born = next(E.births)
    def _new(self, f, nan): return Ser(self.n, f, nan, self.lab, self.name)
    @property
    def index(self): return Idx(self.n, self._lab())
    @index.setter
    def index(self, i): self.lab = relabel(self.n, i)
    def _lab(self):
        if self.lab is None: raise Unsupported('labels of the data')
        return self.lab
    @property
    def values(self): return Vec(self.n, self.fn, self.nan)
    def to_numpy(self): return self.values
    def copy(self, deep=True): return self._new(self.fn, self.nan)
    def rename(self, name):
        r = self.copy(); r.name = name; return r
    def _m(op, flip=False):
        def f(self, o, axis=None, level=None, fill_value=None):
            if fill_value is not None or level is not None: raise Unsupported('fill_value')
            return self._bin(o, op, flip)
        return f
    mul = multiply = _m('*'); add = _m('+'); sub = subtract = _m('-'); div = divide = truediv = _m('/'); eq = _m('=='); ne = _m('!='); rsub = _m('-', True)
    def unique(self): return Uniq(self)
    def isin(self, l):
        its = [v for k, v in seq_of(l)]; f = self.fn
        ts = [num(numterm(v)) for v in its]
        return self._new(lambda p: z3.Or([num(f(p)) == t for t in ts] or [F_]), NONAN)
    def idxmax(self, axis=None, skipna=True):
        if not skipna: raise Unsupported('idxmax without skipna')
        return self._best(lambda x, y: x >= y, lambda x, y: x > y)
    def idxmin(self, axis=None, skipna=True):
        if not skipna: raise Unsupported('idxmin without skipna')
        return self._best(lambda x, y: x <= y, lambda x, y: x < y)
    def _best(self, ge, gt):
        n, f, nan, lab = self.n, self.fn, self.nan, self._lab()
        if not E.implied(z3.And(n > 0, z3.Not(nan(n - 1)))) and not E.implied(z3.Exists([P0], z3.And(inr(n, P0), z3.Not(nan(P0)))), ms=4000): raise Unsupported('idxmax of a column of missing values')
        k = E.fresh('best', I)
        E.assume(z3.And(inr(n, k), z3.Not(nan(k))))
        E.assume(fa(n, lambda p: z3.Implies(z3.Not(nan(p)), z3.And(ge(num(f(k)), num(f(p))), z3.Implies(p < k, gt(num(f(k)), num(f(p))))))))
        return val(lab(k))
    @property
    def loc(self): return Loc(self)
    @property
    def iloc(self): return ILoc(self)
    def interpolate(self, *a, **kw):
        if a or kw: raise Unsupported('interpolate options')
        f, m = fill(self.n, self.fn, self.nan); return self._new(f, m)
    def where(self, c, other=None):
        if isinstance(c, Seq) and isinstance(other, (int, float)) and not isinstance(other, bool):
            f, g, nan = self.fn, c.fn, self.nan; t = num(numterm(other)); return self._new(lambda p: z3.If(g(p), num(f(p)), t), lambda p: z3.And(g(p), nan(p)))
        raise Unsupported('where')
    def fillna(self, v):
        f, nan = self.fn, self.nan; t = num(numterm(v)); return self._new(lambda p: z3.If(nan(p), t, num(f(p))), NONAN)
    def max(self): raise Unsupported('max of a column')
    def __getitem__(self, k): raise Unsupported('item of a column')

def relabel(n, i):
    if isinstance(i, Idx):
        if not E.implied(i.n == n): e = ValueError('Length mismatch'); e._modelled = True; raise e
        return i.lab
    if isinstance(i, Vec): return i.fn
    if isinstance(i, PyList) and builtins.len(i.segs) == 1 and isinstance(i.segs[0], SSeq): i = i.segs[0]
    if isinstance(i, SSeq) and i.n is not None and i.dense and builtins.len(i.vars) == 1 and i.vars[0].sort() == I:
        if not E.implied(term(i.n) == n): e = ValueError('Length mismatch'); e._modelled = True; raise e
        v, t = i.vars[0], term(i.elt); return lambda p: z3.simplify(z3.substitute(t, (v, p)))
    raise Unsupported('labels of type %s' % type(i).__name__)

class Loc:
    def __init__(self, s): self.s = s
    def __getitem__(self, k):
        s = self.s
        if isinstance(s, Frame) and isinstance(k, tuple) and builtins.len(k) == 2: return s[k[1]].loc[k[0]]
        t = term(k) if not isinstance(k, Seq) else None
        if t is None: raise Unsupported('selection of rows')
        lab = s._lab() if isinstance(s, Ser) else s.lab
        if isinstance(s, Frame): raise Unsupported('row of a frame')
        # a row with this label: labels that only shift the position
        d = z3.simplify(lab(P0) - P0)
        if pyfac._occurs(d, {'row?'}): raise Unsupported('label lookup')
        p = z3.simplify(t - d)
        if not E.implied(inr(s.n, p)): raise Unsupported('label lookup')
        return s._value(p)
    def __setitem__(self, k, v):
        s = self.s
        if not isinstance(s, Frame) or not isinstance(k, (int, SN)): raise Unsupported('assignment of rows')
        t = term(k); n, lab = s.n, s.lab
        if lab is None or not E.implied(fa(n, lambda p: lab(p) != t)): raise Unsupported('assignment to an existing row')
        vs = row_values(v, builtins.list(s.cols)); base = (n, lab, builtins.dict(s.cols), t, vs)
        for c, (f, nan) in builtins.list(s.cols.items()):
            x = vs[c]; s.cols[c] = ((lambda p, f=f, x=x: z3.If(p < n, num(f(p)), x)), (lambda p, nan=nan: z3.And(p < n, nan(p))))
        s.n = z3.simplify(n + 1); s.lab = lambda p: z3.If(p < n, lab(p), t); s.appended = (base, builtins.dict(s.cols), s.lab)
def row_values(v, cols):
    if isinstance(v, (int, float, SN)): return {c: num(numterm(v)) for c in cols}
    if isinstance(v, Row): return {c: num(numterm(v.d[c])) for c in cols}
    l = [x for _, x in seq_of(v)] if not isinstance(v, (list, tuple)) else builtins.list(v)
    if builtins.len(l) != builtins.len(cols): e = ValueError('cannot set a row with mismatched columns'); e._modelled = True; raise e
    return {c: num(numterm(x)) for c, x in zip(cols, l)}

class ILoc:
    def __init__(self, s): self.s = s
    def __getitem__(self, k):
        s = self.s
        if isinstance(k, slice) and k == slice(None, None, -1): return s._reversed() if isinstance(s, Frame) else Ser(s.n, rev(s).fn, rev(s).nan, (lambda n, l: None if l is None else lambda p: l(n - 1 - p))(s.n, s.lab), s.name)
        if isinstance(s, Ser): return s._value(s._pos(k))
        if isinstance(k, tuple) and builtins.len(k) == 2:
            if isinstance(k[1], slice) and k[1] == slice(None): k = k[0]
            elif isinstance(k[0], slice) and k[0] == slice(None) and isinstance(k[1], int): return s[builtins.list(s.cols)[k[1]]]
            else: raise Unsupported('iloc')
        if isinstance(k, (int, SN)): return Row({c: s[c]._value(s[c]._pos(k)) for c in s.cols})
        raise Unsupported('iloc')

class ColIdx:
    """the names of the columns"""
    def __init__(self, l): self.l = builtins.list(l)
    def tolist(self): return PyList(self.l)
    to_list = tolist
    def __iter__(self): return iter(self.l)
    def __len__(self): return builtins.len(self.l)
    def __contains__(self, k): return k in self.l
    def contains(self, k): return z3.BoolVal(k in self.l)
    def _segs(self): return [('c', k) for k in self.l]
    def _issym(self): return False
    def vlen(self): return builtins.len(self.l)
    def __getitem__(self, i): return self.l[i] if isinstance(i, int) else ColIdx(self.l[i])
    def __eq__(self, o): return Mask([k == o for k in self.l]) if isinstance(o, str) else NotImplemented
    def __ne__(self, o): return Mask([k != o for k in self.l]) if isinstance(o, str) else NotImplemented
    __hash__ = None
    def isin(self, o): o = builtins.list(o); return Mask([k in o for k in self.l])
    def difference(self, o): o = builtins.list(o); return ColIdx([k for k in self.l if k not in o])
class Mask(list):
    def __invert__(self): return Mask([not b for b in self])

class Row(Series):
    """a Series labelled by names: one value per column"""
    ndim = 1
    __array_priority__ = 3000
    def __init__(self, d=None, *a, **k):
        if isinstance(d, PyDict): d = {x: d[x] for x in builtins.list(d.keys())}
        self.d = builtins.dict(d); self.name = None
    def _w(self, f): r = Row({k: f(k, v) for k, v in self.d.items()}); r.name = self.name; return r
    def _b(self, o, f):
        if isinstance(o, Row):
            if builtins.list(o.d) != builtins.list(self.d): raise Unsupported('rows of different columns')
            return self._w(lambda k, v: f(v, o.d[k]))
        if isinstance(o, (int, float, SN)): return self._w(lambda k, v: f(v, o))
        return NotImplemented
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def _div(a, b):
        if not nonzero(b): raise DivZero('division by zero')
        return a / b
    def __truediv__(self, o): return self._b(o, Row._div)
    sub, add, mul, div = __sub__, __add__, __mul__, __truediv__
    def __abs__(self): return self._w(lambda k, v: builtins.abs(v))
    def abs(self): return abs(self)
    def __neg__(self): return self._w(lambda k, v: -v)
    def copy(self, deep=True): return self._w(lambda k, v: v)
    def rename(self, n): r = self.copy(); r.name = n; return r
    def drop(self, k=None, labels=None, index=None, errors='raise'):
        k = next(x for x in (k, labels, index) if x is not None)
        ks = [k] if isinstance(k, str) else [v for _, v in seq_of(k)]
        for x in ks:
            if x not in self.d: e = KeyError('%r not found in axis' % (x,)); e._modelled = True; raise e
        r = Row({x: v for x, v in self.d.items() if x not in ks}); r.name = self.name; return r
    @property
    def index(self): return ColIdx(self.d)
    def keys(self): return self.index
    def items(self): return PyList([(k, v) for k, v in self.d.items()])
    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.d: e = KeyError(k); e._modelled = True; raise e
            return self.d[k]
        if isinstance(k, Mask): r = Row({x: v for b, (x, v) in zip(k, self.d.items()) if b}); r.name = self.name; return r
        if isinstance(k, ColIdx) or isinstance(k, list): r = Row({x: self.d[x] for x in k}); r.name = self.name; return r
        raise Unsupported('item of a row')
    @property
    def loc(self): return self
    def __setitem__(self, k, v): self.d[k] = v
    def __contains__(self, k): return k in self.d
    def vlen(self): return builtins.len(self.d)
    def sum(self): r = 0; [r := r + v for v in self.d.values()]; return r
    def mean(self): return self.sum() / builtins.len(self.d)
    def __bool__(self):
        e = ValueError('The truth value of a Series is ambiguous'); e._modelled = True; raise e
    __hash__ = object.__hash__

class Frame:
    """pandas.DataFrame: named columns"""
    ndim = 2
    __array_priority__ = 3000
    def __init__(self, data=None, index=None, columns=None, **kw):
        self._born = next(E.births)
        if kw or columns is not None: raise Unsupported('DataFrame options')
        if isinstance(data, (PyDict, dict)):
            ks = builtins.list(data.keys()); self.cols = {}; self.n = None
            for k in ks:
                v = data[k]
                if not isinstance(v, Seq): raise Unsupported('DataFrame of %s' % type(v).__name__)
                if isinstance(v, Ser) and index is not None and not same_labels(v.n, v.lab, index.lab): raise Unsupported('labels')
                if self.n is not None and not E.implied(self.n == v.n): raise Unsupported('columns of different lengths')
                self.n = v.n if self.n is None else self.n; self.cols[k] = (v.fn, v.nan)
            self.lab = index.lab if index is not None else (lambda p: p); return
        if isinstance(data, Frame) and index is None: self.n, self.lab, self.cols = data.n, data.lab, dict(data.cols); return
        raise Unsupported('DataFrame of %s' % type(data).__name__)
    @staticmethod
    def make(n, lab, cols): r = object.__new__(Frame); r.n, r.lab, r.cols = n, lab, builtins.dict(cols); r._born = next(E.births); return r
    @property
    def columns(self): return ColIdx(self.cols)
    @property
    def index(self): return RawIdx(self.n, self.lab)
    @index.setter
    def index(self, i): self.lab = relabel(self.n, i)
    @property
    def shape(self): return (val(self.n), builtins.len(self.cols))
    def vlen(self): return val(self.n)
    def __iter__(self): return iter(builtins.list(self.cols))
    def _segs(self): return [('c', k) for k in self.cols]
    def _issym(self): return False
    def __contains__(self, k): return k in self.cols
    def _col(self, k):
        if k not in self.cols: e = KeyError(k); e._modelled = True; raise e
        f, nan = self.cols[k]; return Ser(self.n, f, nan, self.lab, k)
    def __getitem__(self, k):
        if isinstance(k, str): return self._col(k)
        if isinstance(k, ColIdx) or isinstance(k, (list, PyList)) and not isinstance(k, Mask):
            l = builtins.list(k) if isinstance(k, ColIdx) else [v for _, v in seq_of(k)]
            if builtins.len(builtins.set(l)) != builtins.len(l): raise Unsupported('a column twice')
            return Frame.make(self.n, self.lab, {c: (self._col(c).fn, self._col(c).nan) for c in l})
        if isinstance(k, Seq): raise Unsupported('selection of rows')
        raise Unsupported('selection from a frame')
    def __setitem__(self, k, v):
        if not isinstance(k, str): raise Unsupported('column %r' % (k,))
        if isinstance(v, Idx): v = v._a()
        if isinstance(v, (int, float, SN)): t = num(numterm(v)); self.cols[k] = ((lambda p: t), NONAN); return
        if not isinstance(v, Seq): raise Unsupported('column of type %s' % type(v).__name__)
        if isinstance(v, Ser) and not same_labels(self.n, self.lab, v.lab): raise Unsupported('columns with different labels')
        if not E.implied(self.n == v.n): raise Unsupported('columns of different lengths')
        self.cols[k] = (v.fn, v.nan)
    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items(): r[k] = v(r) if callable(v) else v
        return r
    def pop(self, k): s = self._col(k); del self.cols[k]; return s
    def copy(self, deep=True): return Frame.make(self.n, self.lab, self.cols)
    def drop(self, labels=None, columns=None, axis=0, **kw):
        if kw: raise Unsupported('drop')
        k = columns if columns is not None else labels if axis == 1 or axis == 'columns' else None
        if k is None: raise Unsupported('drop of rows')
        ks = [k] if isinstance(k, str) else [v for _, v in seq_of(k)]
        return Frame.make(self.n, self.lab, {c: v for c, v in self.cols.items() if c not in ks})
    def _permuted(self, perm):
        lab = self.lab; l2 = None if lab is None else (lambda p: lab(perm(p)))
        return Frame.make(self.n, l2, {c: ((lambda p, f=f: f(perm(p))), (lambda p, m=m: m(perm(p)))) for c, (f, m) in self.cols.items()})
    def _reversed(self): n = self.n; return self._permuted(lambda p: n - 1 - p)
    def sort_values(self, by, ascending=True, axis=0, ignore_index=False, kind=None, inplace=False, na_position='last'):
        if inplace or axis not in (0, 'index') or na_position != 'last': raise Unsupported('sort_values options')
        if not isinstance(by, str): by = [v for _, v in seq_of(by)]; by = by[0] if builtins.len(by) == 1 else None
        if isinstance(ascending, (list, PyList)): ascending = builtins.list(ascending)[0]
        if by is None or not isinstance(ascending, (bool, int)): raise Unsupported('sort_values by several columns')
        s = self._col(by); s._total(); n = self.n; f = s.fn
        perm = rank(n, lambda p: num(f(p)))
        r = self._permuted(perm if not ascending else (lambda p: perm(n - 1 - p)))
        if ignore_index: r.lab = lambda p: p
        return r
    def reset_index(self, drop=False):
        if not drop: raise Unsupported('reset_index')
        return Frame.make(self.n, lambda p: p, self.cols)
    def sort_index(self, ascending=True):
        n, lab = self.n, self.lab
        if not ascending or lab is None: raise Unsupported('sort_index')
        if getattr(self, 'appended', None) is not None and self.appended[1] == self.cols and self.appended[2] is lab:
            (n0, l0, c0, t, vs), _, _ = self.appended; d = z3.simplify(l0(P0) - P0)
            if not pyfac._occurs(d, {'row?'}) and z3.is_int_value(z3.simplify(t - d)) and z3.simplify(t - d).as_long() == -1:       # a row in front of consecutive ones
                put = lambda f, x: lambda p: z3.If(p == 0, x, f(p - 1))
                return Frame.make(n, lambda p: z3.simplify(t + p), {c: (put((lambda f: lambda p: num(f(p)))(f), vs[c]), (lambda p, m=m: z3.And(p != 0, m(p - 1)))) for c, (f, m) in c0.items()})
        P1 = P0 + 1
        if E.implied(z3.Implies(z3.And(P0 >= 0, P1 < n), lab(P0) < lab(P1))): return self.copy()
        if E.implied(z3.And(n >= 1, z3.Implies(n >= 2, lab(n - 1) < lab(z3.IntVal(0))), z3.Implies(z3.And(P0 >= 0, P1 < n - 1), lab(P0) < lab(P1)))):
            g = lambda p: z3.If(p == 0, n - 1, p - 1)
            r = Frame.make(n, lambda p: z3.simplify(lab(g(p))), {c: ((lambda p, f=f: z3.simplify(f(g(p)))), (lambda p, m=m: z3.simplify(m(g(p))))) for c, (f, m) in self.cols.items()})
            l0 = z3.simplify(r.lab(z3.IntVal(0)))
            if E.implied(z3.Implies(inr(n, P0), r.lab(P0) == l0 + P0)): r.lab = lambda p: z3.simplify(l0 + p)
            return r
        raise Unsupported('sort_index')
    def interpolate(self, *a, **kw):
        if a or kw: raise Unsupported('interpolate options')
        return Frame.make(self.n, self.lab, {c: fill(self.n, f, m) for c, (f, m) in self.cols.items()})
    def fillna(self, v): return Frame.make(self.n, self.lab, {c: (lambda s: (s.fn, s.nan))(self._col(c).fillna(v)) for c in self.cols})
    def add(self, o, axis=1):
        if axis in (0, 'index') and isinstance(o, Seq): return Frame.make(self.n, self.lab, {c: (lambda s: (s.fn, s.nan))(self._col(c)._bin(o, '+')) for c in self.cols})
        return self._each(o, '+')
    def _each(self, o, op):
        if isinstance(o, Row):
            if builtins.list(o.d) != builtins.list(self.cols):
                if builtins.set(o.d) != builtins.set(self.cols): raise Unsupported('rows of different columns')
            if op == '/':
                for c in self.cols:
                    if not nonzero(o.d[c]): raise DivZero('division by zero')
                by = {c: num(numterm(o.d[c])) for c in self.cols}
                return Frame.make(self.n, self.lab, {c: ((lambda p, f=f, d=by[c]: num(f(p)) * inv(d)), m) for c, (f, m) in self.cols.items()})
            return Frame.make(self.n, self.lab, {c: (lambda s: (s.fn, s.nan))(self._col(c)._bin(o.d[c], op)) for c in self.cols})
        if isinstance(o, (int, float, SN)): return Frame.make(self.n, self.lab, {c: (lambda s: (s.fn, s.nan))(self._col(c)._bin(o, op)) for c in self.cols})
        if isinstance(o, Frame): return Frame.make(self.n, self.lab, {c: (lambda s: (s.fn, s.nan))(self._col(c)._bin(o._col(c), op)) for c in self.cols})
        return NotImplemented
    def div(self, o, axis=1):
        if axis in (0, 'index') and isinstance(o, Seq): return Frame.make(self.n, self.lab, {c: (lambda s: (s.fn, s.nan))(self._col(c)._bin(o, '/')) for c in self.cols})
        return self._each(o, '/')
    divide = truediv = div
    def mul(self, o, axis=1):
        if axis in (0, 'index') and isinstance(o, Seq): return Frame.make(self.n, self.lab, {c: (lambda s: (s.fn, s.nan))(self._col(c)._bin(o, '*')) for c in self.cols})
        return self._each(o, '*')
    def sub(self, o, axis=1):
        if axis in (0, 'index') and isinstance(o, Seq): return Frame.make(self.n, self.lab, {c: (lambda s: (s.fn, s.nan))(self._col(c)._bin(o, '-')) for c in self.cols})
        return self._each(o, '-')
    def __truediv__(self, o): return self._each(o, '/')
    def __mul__(self, o): return self._each(o, '*')
    __rmul__ = __mul__
    def __sub__(self, o): return self._each(o, '-')
    def __add__(self, o): return self._each(o, '+')
    def __abs__(self): return Frame.make(self.n, self.lab, {c: (lambda s: (s.fn, s.nan))(abs(self._col(c))) for c in self.cols})
    def abs(self): return abs(self)
    def _allrows(self, axis): return axis in (None, 0, 'index')
    def sum(self, axis=None):
        if self._allrows(axis): return Row({c: self._col(c).sum() for c in self.cols})
        return self._across(False)
    def mean(self, axis=None):
        if self._allrows(axis): return Row({c: self._col(c).mean() for c in self.cols})
        return self._across(True)
    def _across(self, avg):
        cs = [self._col(c) for c in self.cols]; 
        for c in cs: c._total()
        k = builtins.len(cs)
        f = lambda p: z3.Sum([num(c.fn(p)) for c in cs]) * (z3.Q(1, k) if avg else z3.RealVal(1))
        return Ser(self.n, f, NONAN, self.lab)
    @property
    def loc(self): return Loc(self)
    @property
    def iloc(self): return ILoc(self)
    @property
    def values(self): raise Unsupported('values of a frame')
    def __eq__(self, o): raise Unsupported('comparison of frames')
    __hash__ = object.__hash__

class RawIdx(Idx):
    @property
    def values(self):
        if self.lab is None: raise Unsupported('labels of the data')
        return Vec(self.n, self.lab)

def concat(objs, axis=0, join='outer', ignore_index=False):
    l = [v for _, v in seq_of(objs)]
    if axis not in (1, 'columns') or ignore_index or not l: raise Unsupported('concat of rows')
    n, lab, cols = l[0].n, l[0].lab, {}
    for o in l:
        if not isinstance(o, (Ser, Frame)) or not E.implied(o.n == n) or not same_labels(n, lab, o.lab) and not (lab is None and o.lab is None): raise Unsupported('concat of different rows')
        new = {o.name: (o.fn, o.nan)} if isinstance(o, Ser) else o.cols
        if builtins.set(new) & builtins.set(cols) or None in new: raise Unsupported('concat of equal names')
        cols.update(new)
    return Frame.make(n, lab, cols)
def rangeindex(*a):
    a = [term(x) for x in a]; lo, hi = (z3.IntVal(0), a[0]) if builtins.len(a) == 1 else (a[0], a[1])
    if builtins.len(a) > 2: raise Unsupported('RangeIndex with a step')
    n = z3.simplify(hi - lo)
    if not E.implied(n >= 0): raise Unsupported('RangeIndex')
    return Idx(n, lambda p: z3.simplify(lo + p))
def facade(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items(): setattr(m, k, v)
    def __getattr__(a):
        if a.startswith('__'): raise AttributeError(a)
        from .xform import _stub
        return _stub(name + '.' + a)
    m.__getattr__ = __getattr__
    return m
def pandas_facade():
    return facade('pandas', DataFrame=Frame, Series=Series, concat=concat, RangeIndex=rangeindex, isnull=lambda x: x._new(x.nan, NONAN))

def rand(*s):
    if builtins.len(s) != 1: raise Unsupported('rand')
    n = term(s[0]); f = z3.Function('rand!%d' % next(E.ctr), I, R); k = bound('k', I)
    E.assume_global(z3.ForAll([k], z3.And(f(k) >= 0, f(k) < 1), patterns=[f(k)]))
    return Vec(n, lambda p: f(p))
def zeros(s, dtype=None, v=0.0):
    if isinstance(s, (tuple, list, PyList)):
        s = builtins.list(s)
        if builtins.len(s) != 1: raise Unsupported('zeros')
        s = s[0]
    if isinstance(s, int): return PyList([v] * s)
    t = num(v); return Vec(term(s), lambda p: t)
def arange(*a): return rangeindex(*a)._a()
def where(c, *ab):
    if builtins.len(ab) != 2 or not isinstance(c, Seq): raise Unsupported('np.where')
    g = c.fn; fs = []
    for x in ab:
        if isinstance(x, Seq): fs.append((x.fn, x.nan))
        else: t = num(numterm(x)); fs.append(((lambda p, t=t: t), NONAN))
    (f, a), (h, b) = fs
    return Vec(c.n, lambda p: z3.If(g(p), num(f(p)), num(h(p))), lambda p: z3.If(g(p), a(p), b(p)))
def numpy_facade():
    r = facade('numpy.random', rand=rand, seed=lambda *a: None)
    return facade('numpy', zeros=zeros, ones=lambda s, dtype=None: zeros(s, dtype, 1.0), abs=lambda x: abs(x), absolute=lambda x: abs(x), fabs=lambda x: abs(x), cumsum=lambda x, axis=None: (x.values if isinstance(x, Ser) else x).cumsum(), arange=arange, where=where,
               sum=lambda x, axis=None: x.sum(axis), mean=lambda x, axis=None: x.mean(axis), random=r, ndarray=Vec, logical_not=lambda x: ~x, float64=float)

# set(column.unique()) == {a, b}
_init0, _eq0 = PySet.__init__, PySet.__eq__
def _pinit(self, it=()):
    if isinstance(it, Uniq): _init0(self); self.uniq = it
    else:
        _init0(self, it)
        if isinstance(it, PySet) and 'uniq' in it.__dict__: self.uniq = it.uniq
def _peq(self, o):
    u, w = self.__dict__.get('uniq'), getattr(o, '__dict__', {}).get('uniq')
    if u is None and w is None: return _eq0(self, o)
    if u is None: u, o = w, self
    elif w is not None: raise Unsupported('comparison of distinct values')
    s = u.s; f, n = s.fn, s.n
    if not isinstance(o, PySet) or not o.conc(): raise Unsupported('comparison of distinct values')
    ts = [num(numterm(v)) for v in o.items]
    p = bound('p', I)
    cs = [z3.ForAll([p], z3.Implies(inr(n, p), z3.Or([num(f(p)) == t for t in ts] or [F_])))] + [z3.Exists([p], z3.And(inr(n, p), num(f(p)) == t)) for t in ts]
    return mkb(z3.And([c for c in cs if not E.implied(c)] or [z3.BoolVal(True)]))
def _pne(self, o): return vnot(_peq(self, o))
def install():
    PySet.__init__, PySet.__eq__ = _pinit, _peq
    if '__ne__' in PySet.__dict__: PySet.__ne__ = _pne
