"""Symbolic execution core: paths, fresh symbols, journal, obligations, solver."""
import itertools, os, time, hashlib
import z3

_HQ = {}
def has_quant(t):
    k = t.get_id()
    if k in _HQ: return _HQ[k][0]
    seen, st, r = set(), [t], False
    while st:
        x = st.pop()
        if z3.is_quantifier(x): r = True; break
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x): st.extend(x.children())
    _HQ[k] = (r, t); return r

class EngineStop(BaseException):
    """Base of the engine's own control flow; never caught by code under verification."""
class Enough(EngineStop):
    """the harness has failed often enough"""
class Unsupported(EngineStop):
    """The code left the fragment the verifier models."""
class Infeasible(EngineStop):
    pass
class PathLimit(Unsupported):
    pass

Node = z3.DeclareSort('Node')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

# integer dot / products etc. are mathematical; reals stand for floats
QT = int(os.environ.get('VP_QUERY_MS', '8000'))
FT = int(os.environ.get('VP_FORK_MS', '1500'))
MAXPATHS = int(os.environ.get('VP_MAX_PATHS', '600'))

class Frame:
    def __init__(self, prefix, base):
        self.prefix, self.pos, self.pending, self.base = list(prefix), 0, [], base

class Obligation:
    __slots__ = ('name', 'status', 'backend', 'secs', 'detail', 'path')
    def __init__(self, name, status, backend, secs, detail='', path=None):
        self.name, self.status, self.backend, self.secs, self.detail, self.path = name, status, backend, secs, detail, path

class Engine:
    on_fail, max_failed, nfailed = None, 0, 0
    def __init__(self):
        self.reset_all()
    def reset_all(self):
        self.pc = []            # path condition (z3 bools)
        self.frames = []
        self.journal = []       # undo closures
        self.jon = 0
        self.ctr = itertools.count()
        self.births = itertools.count(1)
        self.looppc = []
        self.loopvars = []      # active symbolic loop variables (z3 consts)
        self.loopconds = []
        self.loopfacts = []     # facts assumed inside a loop body
        self.obls = []
        self.solver_secs = 0.0
        self.queries = 0
        self.backends = {}
        self.axioms = []        # always available background facts (z3)
        self.axiom_ids = set()
        self.hints = []         # callables adding lemma instances before a proof
        self.covers = []
        self.events = []        # ghost trace (model fits and the like)
        self.contracts_used = set()
        self.inlined = set()
        self.assumed = set()
        self.cache = {}
        self.reset_path_hooks = []
        self.gfacts = []
        self.while_contract = None   # loop contract of while loops (set by a harness)
        self.fast = False       # open branches are not examined with model finding
        self.late = []          # facts used by proof obligations only, when they are not provable without
    # ---- symbols
    def fresh(self, name, sort):
        nm = '%s!%d' % (name, next(self.ctr))
        if not self.loopvars:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *[v.sort() for v in self.loopvars], sort)
        return f(*self.loopvars)
    def fresh_node(self, name): return SE(self.fresh(name, Node))
    def fresh_fn(self, name, *sorts):
        nm = '%s!%d' % (name, next(self.ctr))
        lv = list(self.loopvars)
        f = z3.Function(nm, *[v.sort() for v in lv], *sorts)
        return lambda *a: f(*lv, *a)
    # ---- assumptions
    def assume(self, c):
        c = tob(c)
        if z3.is_true(c): return
        if self.loopvars:
            self.loopfacts.append((list(self.loopvars), list(self.loopconds), list(self.pc_since_loop()), c))
        self.pc.append(c)
    def assume_global(self, c):
        """a defining fact about a fresh symbol: holds for the rest of the path, also outside the current nested exploration"""
        from .pyfac import _occurs
        if self.loopvars and _occurs(c, {v.decl().name() for v in self.loopvars}): return self.assume(c)
        self.gfacts.append(c)
    def assume_late(self, c): self.late.append(c)
    def pc_since_loop(self):
        return self.pc[self.looppc[-1]:] if getattr(self, 'looppc', None) else []
    def axiom(self, c):
        k = c.get_id()
        if k not in self.axiom_ids:
            self.axiom_ids.add(k); self.axioms.append(c)
    # ---- solver
    def _check(self, forms, ms):
        key = (tuple(sorted(f.get_id() for f in forms)), len(self.axioms), tuple(f.get_id() for f in self.gfacts), ms)
        if key in self.cache: return self.cache[key][0]
        t = time.time(); r = z3.unknown; done = False
        facts = self.axioms + self.gfacts
        quantified = any(z3.is_quantifier(f) for f in facts) or any(has_quant(f) for f in forms)
        if quantified:
            # instantiation by matching first: it decides most queries at once and gives up quickly on the others
            s = z3.SimpleSolver(); s.set('timeout', min(ms, 1000)); s.set('smt.mbqi', False)
            for a in facts: s.add(a)
            for f in forms: s.add(f)
            r = s.check()
            if r == z3.unknown:
                s = z3.SimpleSolver(); s.set('timeout', 300)
                for a in facts + list(forms):
                    if not has_quant(a): s.add(a)
                if s.check() == z3.unsat: r = z3.unsat
                elif self.fast and ms <= max(FT, 2000): done = True     # matching saturated: taken as open
        if r == z3.unknown and not done:
            s = z3.Solver()
            s.set('timeout', min(ms, 700) if quantified and ms <= FT else ms)
            for a in facts: s.add(a)
            for f in forms: s.add(f)
            r = s.check()
        dt = time.time() - t
        self.solver_secs += dt; self.queries += 1
        self.last_solver = s
        self.cache[key] = (r, forms, list(self.gfacts))
        return r
    def sat(self, *extra):
        return self._check(self.pc + [tob(e) for e in extra], FT) != z3.unsat
    def implied(self, c, ms=None):
        c = tob(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return self._check(list(self.pc), ms or FT) == z3.unsat
        return self._check(self.pc + [z3.Not(c)], ms or FT) == z3.unsat
    # ---- forking
    def fork(self, c, label=''):
        c = z3.simplify(tob(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        fr = self.frames[-1] if self.frames else None
        if fr is None:
            raise Unsupported('symbolic branch outside exploration: %s' % str(c)[:200])
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]; fr.pos += 1
        else:
            n = z3.simplify(z3.Not(c)); known = {p.get_id() for p in self.pc}
            if c.get_id() in known: t, f = True, False
            elif n.get_id() in known: t, f = False, True
            else: t = self.sat(c); f = self.sat(n)
            if not t and not f: raise Infeasible()
            if t and f:
                fr.pending.append(fr.prefix + [False]); d = True
            else:
                d = t
            fr.prefix.append(d); fr.pos += 1
        self.pc.append(c if d else z3.simplify(z3.Not(c)))
        return d
    def choose(self, n):
        """non-deterministic choice among n alternatives (all explored)"""
        for i in range(n - 1):
            b = z3.Const('choice!%d' % next(self.ctr), B)
            if self.fork(b): return i
        return n - 1
    def explore(self, thunk, restore=None, limit=None):
        """run thunk over every feasible path; yields (extra_pc, kind, value)"""
        out = []
        base = len(self.pc)
        work = [[]]
        n = 0
        while work:
            pre = work.pop()
            n += 1
            if n > (limit or MAXPATHS): raise PathLimit('more than %d paths' % (limit or MAXPATHS))
            fr = Frame(pre, base); fr.birth = next(self.births); self.frames.append(fr)
            mark = len(self.journal); self.jon += 1
            try:
                try:
                    v = thunk(); kind = 'ok'
                except Infeasible:
                    kind = None; v = None
                except EngineStop:
                    raise
                except Exception as e:
                    kind, v = 'raise', e
                if kind is not None:
                    out.append((self.pc[base:], kind, v) if restore is None else (self.pc[base:], kind, restore(kind, v)))
            finally:
                self.frames.pop(); self.jon -= 1
                self.undo(mark)
                work.extend(fr.pending)
                del self.pc[base:]
        return out
    def log(self, undo):
        if self.jon: self.journal.append(undo)
    def undo(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()()
    # ---- proving
    def prove(self, name, goal, extra=()):
        from . import prover
        return prover.prove(self, name, goal, extra)
    def cover(self, name):
        """reachability: the current path condition must be satisfiable"""
        r = self._check(list(self.pc), QT)
        self.covers.append((name, str(r)))
        return r

E = Engine()

# ---------------------------------------------------------------- scalars
def tob(c):
    if isinstance(c, SB): return c.t
    if isinstance(c, bool): return z3.BoolVal(c)
    if z3.is_bool(c): return c
    if isinstance(c, SN): return c.t != 0
    try:
        import numpy as _np
        if isinstance(c, _np.bool_): return z3.BoolVal(bool(c))
    except ImportError: pass
    raise Unsupported('not a boolean: %r' % (c,))

class SB:
    """symbolic boolean"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __bool__(self): return E.fork(self.t)
    def __and__(self, o): return mkb(z3.And(self.t, tob(o)))
    __rand__ = __and__
    def __or__(self, o): return mkb(z3.Or(self.t, tob(o)))
    __ror__ = __or__
    def __xor__(self, o): return mkb(z3.Xor(self.t, tob(o)))
    __rxor__ = __xor__
    def __invert__(self): return mkb(z3.Not(self.t))
    def __eq__(self, o):
        if isinstance(o, (bool, SB)): return mkb(self.t == tob(o))
        if isinstance(o, (int, float, SN)): return num(self) == o
        return False
    def __ne__(self, o): return vnot(self.__eq__(o))
    __hash__ = None
    def _n(self): return SN(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __repr__(self): return 'SB(%s)' % self.t
    def astype(self, *_): return self._n()

def mkb(t):
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SB(t)

def vnot(x):
    if isinstance(x, SB): return mkb(z3.Not(x.t))
    if x is NotImplemented: return x
    return not x

_INV = z3.Function('inv', R, R)
def inv(t):
    """reciprocal, as a total uninterpreted function (x*inv(x)=1 for x!=0 is instantiated by the prover)"""
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        if t.numerator_as_long() != 0:
            return z3.simplify(1 / t)
    return _INV(t)

def real(t):
    if isinstance(t, bool): return z3.RealVal(int(t))
    if isinstance(t, int): return z3.RealVal(t)
    if isinstance(t, float): return fl(t)
    if isinstance(t, (SN, SB)): t = term(t)
    if z3.is_int(t): return z3.ToReal(t)
    if z3.is_bool(t): return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return t

NANC = z3.Const('NaN', R)
INF = z3.Const('Inf', R)
def fl(x):
    if x != x: return NANC
    if x in (float('inf'),): return INF
    if x in (float('-inf'),): return -INF
    from fractions import Fraction
    f = Fraction(x)
    g = f.limit_denominator(10**6)
    f = g if float(g) == x else f
    return z3.Q(f.numerator, f.denominator)

def term(x):
    """python/symbolic scalar -> z3 term"""
    if isinstance(x, (SN, SB, SE)): return x.t
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float): return fl(x)
    if isinstance(x, str): return node_const(x)
    if z3.is_expr(x): return x
    if hasattr(x, 'ndim') and getattr(x, 'ndim', None) == 0 and hasattr(x, 'at'): return x.at(())
    if hasattr(x, 'item') and not hasattr(x, 'at'):
        return term(x.item())
    raise Unsupported('no term for %r' % (type(x),))

def numterm(x):
    t = term(x)
    if z3.is_bool(t): return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t

def val(t):
    """z3 term -> python-level value (concrete when it is a numeral)"""
    if not z3.is_expr(t): return t
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    if z3.is_bool(t): return SB(t)
    if z3.is_rational_value(t):
        n, d = t.numerator_as_long(), t.denominator_as_long()
        if d == 1: return float(n)
        if float(n) / d == n / d and abs(n) < 2**53 and d < 2**53:
            from fractions import Fraction
            if Fraction(n / d).limit_denominator(10**6) == Fraction(n, d): return n / d
        return SN(t)
    if t.sort() == Node: return SE(t)
    return SN(t)

def num(x):
    if isinstance(x, SB): return x._n()
    return x

class SN:
    """symbolic number (Int or Real term)"""
    __slots__ = ('t',)
    __array_priority__ = 1000
    def __init__(self, t): self.t = t
    def _bin(self, o, f, fi=None):
        if not isinstance(o, (int, float, SN, SB, bool)):
            if hasattr(o, 'item') and not hasattr(o, 'at'): o = o.item()
            else: return NotImplemented
        a, b = self.t, numterm(o)
        if a.sort() != b.sort(): a, b = real(a), real(b)
        return val(f(a, b))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)): return NotImplemented
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: real(a) * inv(real(b)))
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: real(b) * inv(real(a)))
    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: a / b if z3.is_int(a) else z3.ToReal(z3.ToInt(a * inv(b))))
    def __rfloordiv__(self, o): return val(numterm(o)).__floordiv__(self) if isinstance(val(numterm(o)), SN) else SN(z3.IntVal(o)).__floordiv__(self)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __rmod__(self, o): return SN(numterm(o)).__mod__(self)
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o): r = r * self
            return r
        if o == 0.5: return val(sqrt_t(real(self.t)))
        if o == -1: return 1 / self
        raise Unsupported('symbolic power')
    def __neg__(self): return val(-self.t)
    def __pos__(self): return self
    def __abs__(self): return val(z3.If(self.t >= 0, self.t, -self.t))
    def _cmp(self, o, f):
        if isinstance(o, (int, float, SN, SB, bool)) :
            a, b = self.t, numterm(o)
            if a.sort() != b.sort(): a, b = real(a), real(b)
            return mkb(f(a, b))
        if hasattr(o, 'item') and not hasattr(o, 'at'): return self._cmp(o.item(), f)
        return NotImplemented
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b); return r
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    __hash__ = None
    def __bool__(self): return E.fork(self.t != 0)
    def concrete(self):
        """the unique value under the path condition, if there is one"""
        s = z3.Solver(); s.set('timeout', FT)
        for p in E.axioms + E.gfacts + E.pc:
            if not E.fast or not has_quant(p): s.add(p)         # a candidate only: checked below
        if s.check() == z3.sat:
            v = s.model().eval(self.t, model_completion=True)
            if E.implied(self.t == v): return val(v)
        return None
    def __index__(self):
        c = self.concrete()
        if isinstance(c, int): return c
        raise Unsupported('symbolic integer used as a concrete index: %s' % str(self.t)[:100])
    __int__ = __index__
    def __float__(self): raise Unsupported('float() of a symbolic number')
    def item(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    def astype(self, *_): return self
    def __repr__(self): return 'SN(%s)' % self.t
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

_SQRT = z3.Function('sqrt', R, R)
def sqrt_t(t): return _SQRT(t)

_nodes = {}
def node_const(s):
    """distinct concrete strings are distinct constants of the element sort"""
    if s not in _nodes:
        c = z3.Const('str:' + s, Node)
        for o in _nodes.values(): E.axiom(o != c)
        _nodes[s] = c
    return _nodes[s]

class SE:
    """symbolic element (a node / a name) of the uninterpreted element sort"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __eq__(self, o):
        if isinstance(o, SE): return mkb(self.t == o.t)
        if isinstance(o, str): return mkb(self.t == node_const(o))
        return False
    def __ne__(self, o): return vnot(self.__eq__(o))
    __hash__ = None
    def __repr__(self): return 'SE(%s)' % self.t
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __format__(self, spec): return '<%s>' % self.t
    def __bool__(self):
        E.assumed.add('names are non-empty strings')
        return True
    def __len__(self): raise Unsupported('len of a symbolic name')
    def __iter__(self): raise Unsupported('iterating over the characters of a symbolic name')
    def lower(self): return SE(z3.Function('lower', Node, Node)(self.t))

def eq(a, b):
    """Python equality as a z3 boolean"""
    if a is b and not isinstance(a, float): return z3.BoolVal(True)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        sa, sb = getattr(a, 'segs', None), getattr(b, 'segs', None)
        if sa is not None or sb is not None: return tob(a == b)
        if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b): return z3.BoolVal(False)
        return z3.And([eq(x, y) for x, y in zip(a, b)] or [z3.BoolVal(True)])
    r = (a == b)
    if isinstance(r, (bool, SB)): return tob(r)
    if z3.is_bool(r): return r
    return z3.BoolVal(bool(r))
