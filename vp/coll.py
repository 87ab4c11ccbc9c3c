"""Collections that may be concrete or symbolic: sequences, lists, sets, dicts; generic comprehension."""
import itertools, copy as _copy
import z3
from .core import *
from .core import E, eq, tob, term, val, mkb

SetS = z3.ArraySort(Node, B)

def bound(name, sort):
    return z3.Const('%s?%d' % (name, next(E.ctr)), sort)

# -------------------------------------------------------- substitution on values
def subst(v, pairs):
    if not pairs: return v
    if isinstance(v, (SN, SB, SE)): return val(z3.substitute(v.t, *pairs))
    if z3.is_expr(v): return z3.substitute(v, *pairs)
    if isinstance(v, tuple): return tuple(subst(x, pairs) for x in v)
    if hasattr(v, '_subst'): return v._subst(pairs)
    if isinstance(v, list) and getattr(v, 'segs', None) is None:
        return PyList([subst(x, pairs) for x in v])
    return v

class SSeq:
    """a symbolic family  < elt(vars) | vars : cond >; ordered+dense families have a length n and var k in [0,n)"""
    def __init__(self, vars, cond, elt, n=None, dense=False, src=None, order=None):
        self.vars, self.cond, self.elt, self.n, self.dense = tuple(vars), cond, elt, n, dense
        self.order = order      # optional: (x, y) -> z3 Bool "x may precede y", over vars tuples
    def inst(self, new=None):
        if new is None: new = [bound(str(v).split('?')[0], v.sort()) for v in self.vars]
        ps = list(zip(self.vars, new))
        return new, z3.substitute(self.cond, *ps) if ps else self.cond, subst(self.elt, ps)
    def _subst(self, pairs):
        new, c, e = self.inst()
        return SSeq(new, z3.substitute(c, *pairs), subst(e, pairs), None if self.n is None else subst(self.n, pairs), self.dense)
    def exists(self, p):
        vs, c, e = self.inst()
        body = z3.And(c, tob(p(e)))
        return quant(z3.Exists, vs, body)
    def forall(self, p):
        vs, c, e = self.inst()
        return quant(z3.ForAll, vs, z3.Implies(c, tob(p(e))))
    def contains(self, x):
        # one-point rule when the element is (a tuple of) the variables
        vs, c, e = self.inst()
        es = e if isinstance(e, tuple) else (e,)
        xs = x if isinstance(x, tuple) else (x,)
        if isinstance(e, tuple) != isinstance(x, tuple) or len(es) != len(xs):
            return z3.BoolVal(False)
        ps, rest, left = [], [], list(vs)
        for a, b in zip(es, xs):
            if isinstance(a, PySet) and isinstance(b, PySet):
                av = a.arr_term()
                hit = [v for v in left if av is not None and z3.eq(v, av)]
                if hit:
                    ps.append((hit[0], b.as_array())); left = [w for w in left if w is not hit[0]]; continue
                rest.append(lambda a=a, b=b: a.equals(b)); continue
            if not isinstance(b, (SE, SN, str, int)) or not isinstance(a, (SE, SN, str, int)):
                rest.append(lambda a=a, b=b: eq(a, b)); continue
            try: at = term(a)
            except Unsupported: at = None
            hit = [v for v in left if at is not None and z3.eq(v, at)]
            bt = term(b)
            if hit and bt.sort() == hit[0].sort():
                ps.append((hit[0], bt)); left = [w for w in left if w is not hit[0]]
            else:
                rest.append(lambda a=a, b=b: eq(a, b))
        body = z3.And([c] + [r() for r in rest])
        if ps: body = z3.substitute(body, *ps)
        return quant(z3.Exists, left, body)
    def map(self, f):
        return merged_map(self, f)
    def nonempty(self):
        if self.dense and self.n is not None: return self.n > 0
        return self.exists(lambda e: True)

def quant(q, vs, body):
    body = z3.simplify(body)
    if not vs: return body
    if z3.is_true(body) or z3.is_false(body): 
        # element sorts are non-empty
        return body
    return bind(q, vs, body)

def bind(q, vs, body):
    """quantify with canonical bound names, so that alpha-equivalent formulas are the same term"""
    cs = [z3.Const('q%d' % i, v.sort()) for i, v in enumerate(vs)]
    return q(cs, z3.substitute(body, *zip(vs, cs)))

# -------------------------------------------------------- merging path results
class _Un: pass
def merge_vals(items, where=''):
    """items: [(z3 cond, value)] with exhaustive conds -> one value"""
    if not items: raise Unsupported('nothing to merge ' + where)
    if len(items) == 1: return items[0][1]
    vs = [v for _, v in items]
    v0 = vs[0]
    if all(v is v0 for v in vs): return v0
    if all(v is None or isinstance(v, str) for v in vs):
        if all(type(v) is type(v0) and v == v0 for v in vs): return v0
    if all(isinstance(v, tuple) for v in vs) and len({len(v) for v in vs}) == 1:
        return tuple(merge_vals([(c, v[i]) for c, v in items], where) for i in range(len(v0)))
    if all(type(v) is PyList and v.segs is None for v in vs) and len({len(v) for v in vs}) == 1:
        return PyList([merge_vals([(c, v[i]) for c, v in items], where) for i in range(len(v0))])
    if all(hasattr(v, '_merge') for v in vs) and len({type(v) for v in vs}) == 1:
        return v0._merge(items)
    if all(isinstance(v, (bool, int, float, SN, SB, SE, str)) for v in vs):
        ts = [term(v) for v in vs]
        sorts = {str(t.sort()) for t in ts}
        if len(sorts) > 1:
            if sorts <= {'Int', 'Real'}: ts = [real(t) for t in ts]
            elif sorts <= {'Int', 'Real', 'Bool'}: ts = [real(t) for t in ts]
            else: raise Unsupported('cannot merge values of different kinds ' + where)
        r = ts[-1]
        for (c, _), t in reversed(list(zip(items[:-1], ts[:-1]))): r = z3.If(c, t, r)
        return val(r)
    raise Unsupported('cannot merge %s %s' % ([type(v).__name__ for v in vs], where))

def branches(p, fs):
    """the path condition without the quantified facts assumed on the way (they are asserted for every instance)"""
    ids = {}
    for _, _, ctx, c in fs:
        if has_quant(c): ids.setdefault(c.get_id(), []).append([x.get_id() for x in ctx])
    pi = [x.get_id() for x in p]
    return [x for i, x in enumerate(p) if not any(ctx == pi[:i] for ctx in ids.get(pi[i], ()))]

def under(vars, cond, thunk):
    """explore thunk with loop variables in scope; -> [(cond, kind, value)], conditions relative to (vars, cond)"""
    E.loopvars = E.loopvars + list(vars)
    E.loopconds = E.loopconds + [cond]
    base = len(E.pc)
    E.pc.append(cond)
    facts0 = len(E.loopfacts)
    if not hasattr(E, 'looppc'): E.looppc = []
    E.looppc.append(base + 1)
    try:
        outs = E.explore(thunk)
    finally:
        E.looppc.pop()
        E.loopvars = E.loopvars[:len(E.loopvars) - len(vars)]
        E.loopconds = E.loopconds[:-1]
        del E.pc[base:]
    fs = E.loopfacts[facts0:]
    if not E.loopvars: outs = [(branches(p, fs), k, v) for p, k, v in outs]
    res = [(z3.And(p) if p else z3.BoolVal(True), k, v) for p, k, v in outs]
    # facts assumed inside hold for every instance
    if not E.loopvars:
        del E.loopfacts[facts0:]
        for lv, lc, ctx, c in fs:
            E.pc.append(quant(z3.ForAll, lv, z3.Implies(z3.And(lc + ctx), c)))
    return res

def merged_map(seq, f, conds=(), where='comprehension'):
    """[f(e) for e in seq if all conds(e)] as an SSeq"""
    vs, c, e = seq.inst()
    guard = z3.BoolVal(True)
    if conds:
        gs = []
        def g():
            for h in conds:
                if not h(e): return False
            return True
        outs = under(vs, c, g)
        bad = [(p, v) for p, k, v in outs if k == 'raise']
        for p, v in bad: may_raise(vs, z3.And(c, p), v)
        guard = z3.simplify(z3.Or([p for p, k, v in outs if k == 'ok' and v] or [z3.BoolVal(False)]))
    cc = z3.simplify(z3.And(c, guard))
    outs = under(vs, cc, lambda: f(e))
    for p, k, v in outs:
        if k == 'raise': may_raise(vs, z3.And(cc, p), v)
    oks = [(p, v) for p, k, v in outs if k == 'ok']
    if not oks:
        if E.implied(quant(z3.ForAll, vs, z3.Not(cc))): return SSeq(vs, z3.BoolVal(False), e)
        raise Infeasible()
    elt = merge_vals(oks, where)
    return SSeq(vs, cc, elt, seq.n, seq.dense and z3.is_true(guard), order=seq.order)

def may_raise(vs, cond, exc):
    """an element of a comprehension raises under cond: fork on whether some element does"""
    if E.fork(quant(z3.Exists, vs, cond)): raise exc

# -------------------------------------------------------- iteration protocol
def seq_of(x):
    """-> list of ('c', value) / ('s', SSeq) segments"""
    if isinstance(x, PyList):
        return x.segs if x.segs is not None else [('c', v) for v in list.__iter__(x)]
    if hasattr(x, '_segs'): return x._segs()
    if isinstance(x, SSeq): return [('s', x)]
    if isinstance(x, SE):
        raise Unsupported('iterating over the characters of a symbolic name')
    return [('c', v) for v in x]

def is_sym_iter(x):
    if isinstance(x, PyList): return x.segs is not None
    if isinstance(x, SSeq): return True
    if hasattr(x, '_issym'): return x._issym()
    return False

class PyList(list):
    """list; `segs` is not None when it has symbolic parts"""
    __slots__ = ('segs', '_born')
    def __init__(self, it=()):
        self.segs = None; self._born = next(E.births)
        if is_sym_iter(it):
            list.__init__(self); self.segs = list(seq_of(it))
        else:
            list.__init__(self, [v for k, v in seq_of(it)])
    def _log(self):
        if E.jon:
            s, c = (None if self.segs is None else list(self.segs)), list(list.__iter__(self))
            def undo(self=self, s=s, c=c):
                self.segs = s; list.__setitem__(self, slice(None), c)
            E.log(undo)
    def _set(self, segs):
        self._log()
        if all(k == 'c' for k, _ in segs):
            self.segs = None; list.__setitem__(self, slice(None), [v for _, v in segs])
        else:
            self.segs = list(segs); list.clear(self)
    def _segs(self): return seq_of(self)
    @staticmethod
    def of(segs):
        r = PyList()          # a new object: nothing to undo
        if all(k == 'c' for k, _ in segs): list.extend(r, [v for _, v in segs])
        else: r.segs = list(segs)
        return r
    def append(self, v):
        note(self, ('append', v)); self._log()
        if self.segs is None: list.append(self, v)
        else: self.segs.append(('c', v))
    def extend(self, it):
        sg = list(seq_of(it)); note(self, ('extend', sg)); self._set(list(seq_of(self)) + sg)
    def __iadd__(self, it): self.extend(it); return self
    def __add__(self, o):
        if not isinstance(o, list): return NotImplemented
        return PyList.of(list(seq_of(self)) + list(seq_of(PyList(o) if not isinstance(o, PyList) else o)))
    def __radd__(self, o): return PyList(o) + self
    def __mul__(self, n):
        if isinstance(n, SN): 
            if self.segs is None and len(self) == 1:
                k = bound('k', I); return PyList.of([('s', SSeq([k], z3.And(k >= 0, k < n.t), self[0], n.t, True))])
            raise Unsupported('list * symbolic')
        return PyList.of(list(seq_of(self)) * n)
    __rmul__ = __mul__
    def _need(self):
        if self.segs is not None: raise Unsupported('native access to a symbolic list')
    def __iter__(self):
        self._need(); return list.__iter__(self)
    def __len__(self):
        self._need(); return list.__len__(self)
    def vlen(self):
        if self.segs is None: return list.__len__(self)
        return val(sum([z3.IntVal(1) if k == 'c' else seqlen(s) for k, s in self.segs], z3.IntVal(0)))
    def __bool__(self):
        if self.segs is None: return list.__len__(self) > 0
        if any(k == 'c' for k, _ in self.segs): return True
        return E.fork(z3.Or([s.nonempty() for _, s in self.segs]))
    def contains(self, x):
        return z3.Or([eq(v, x) if k == 'c' else v.contains(x) for k, v in seq_of(self)] or [z3.BoolVal(False)])
    def __contains__(self, x): return E.fork(self.contains(x))
    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.segs is None: 
                return PyList(list.__getitem__(self, slice(*[x if x is None else as_int(x) for x in (i.start, i.stop, i.step)])))
            if i.step in (None, 1) and len(self.segs) == 1 and self.segs[0][1].dense:
                s = self.segs[0][1]; k = bound('k', I)
                lo = z3.IntVal(0) if i.start is None else term(i.start); hi = s.n if i.stop is None else term(i.stop)
                if isinstance(i.stop, int) and i.stop < 0: hi = s.n + i.stop
                ok = E.implied(z3.And(lo >= 0, lo <= hi, hi <= s.n))
                if not ok: raise Unsupported('symbolic slice of list')
                _, _, e = s.inst([k + lo]) 
                n = z3.simplify(hi - lo)
                return PyList.of([('s', SSeq([k], z3.And(k >= 0, k < n), e, n, True))])
            if i.step in (None, 1) and i.stop is None and isinstance(i.start, int) and i.start >= 0 \
               and all(k == 'c' for k, _ in self.segs[:i.start]):
                return PyList.of(self.segs[i.start:])
            raise Unsupported('slice of a symbolic list')
        if self.segs is None:
            if isinstance(i, SN):
                c = i.concrete()
                if c is None:
                    n = list.__len__(self)
                    for j in range(n):
                        if E.fork(z3.Or(i.t == j, i.t == j - n)): return list.__getitem__(self, j)
                    raise IndexError('list index out of range')
                i = c
            return list.__getitem__(self, as_int(i))
        return self._sget(i)
    def _sget(self, i):
        segs = self.segs
        if isinstance(i, int) and i >= 0 and i < len(segs) and all(k == 'c' for k, _ in segs[:i + 1]): return segs[i][1]
        if isinstance(i, int) and i < 0 and -i <= len(segs) and all(k == 'c' for k, _ in segs[i:]): return segs[i][1]
        if len(segs) == 1:
            s = segs[0][1]
            if getattr(s, 'pid', None) is not None and isinstance(i, SN):
                t = s.pid.node(i)
                if not E.implied(SSeq.contains(s, SE(t))): raise Unsupported('position of a node')
                return SE(t)
            if s.dense:
                it = term(i)
                it = z3.simplify(it + s.n) if isinstance(i, int) and i < 0 else it
                if not E.fork(z3.And(it >= 0, it < s.n)): raise IndexError('list index out of range')
                return s.inst([it])[2]
            if isinstance(i, int) and i == 0:
                if not E.fork(s.nonempty()): raise IndexError('list index out of range')
                return first_of(s)
        if isinstance(i, int) and i == 0:
            k, s = segs[0]
            if k == 's':
                if E.fork(s.nonempty()): return first_of(s) if not s.dense else s.inst([z3.IntVal(0)])[2]
                return PyList.of(segs[1:])[0]
        raise Unsupported('index into a symbolic list')
    def __setitem__(self, i, v):
        note(self, ('set', i, v)); self._need(); self._log()
        list.__setitem__(self, i if isinstance(i, slice) else as_int(i), v)
    def __delitem__(self, i):
        note(self, ('del', i)); self._need(); self._log(); list.__delitem__(self, i if isinstance(i, slice) else as_int(i))
    def pop(self, i=-1):
        note(self, ('pop', i)); self._log()
        if self.segs is None: return list.pop(self, i)
        if i == -1 and self.segs[-1][0] == 'c':
            v = self.segs[-1][1]; self._set(self.segs[:-1]); return v
        if i == 0 and self.segs[0][0] == 'c':
            v = self.segs[0][1]; self._set(self.segs[1:]); return v
        if i == -1 and len(self.segs) == 1 and not self.segs[0][1].dense:
            s = self.segs[0][1]
            if not E.fork(s.nonempty()): raise IndexError('pop from empty list')
            vs, c, e = s.inst([E.fresh('popped', v.sort()) for v in s.vars]); E.assume(c)
            ws, c2, e2 = s.inst()
            self._set([('s', SSeq(ws, z3.And(c2, z3.Or([w != v for w, v in zip(ws, vs)])), e2))])
            return e
        raise Unsupported('pop from a symbolic list')
    def insert(self, i, v):
        note(self, ('insert', i, v)); self._log()
        if self.segs is None: list.insert(self, as_int(i), v)
        elif i == 0: self._set([('c', v)] + self.segs)
        else: raise Unsupported('insert into symbolic list')
    def remove(self, v):
        note(self, ('remove', v)); self._need()
        for j, w in enumerate(list.__iter__(self)):
            if E.fork(eq(w, v)):
                self._log(); list.__delitem__(self, j); return
        raise ValueError('list.remove(x): x not in list')
    def index(self, v):
        if self.segs is None:
            for j, w in enumerate(list.__iter__(self)):
                if E.fork(eq(w, v)): return j
            raise ValueError('not in list')
        if len(self.segs) == 1 and self.segs[0][1].dense:
            s = self.segs[0][1]
            if not E.fork(s.contains(v)): raise ValueError('not in list')
            k = E.fresh('idx', I)
            E.assume(z3.And(k >= 0, k < s.n, eq(s.inst([k])[2], v)))
            j = bound('j', I)
            E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(eq(s.inst([j])[2], v)))))
            return val(k)
        raise Unsupported('index() on a symbolic list')
    def count(self, v):
        self._need(); r = 0
        for w in list.__iter__(self): r = r + val(z3.If(eq(w, v), 1, 0))
        return r
    def clear(self): note(self, ('clear',)); self._set([])
    def copy(self): return PyList.of(list(seq_of(self)))
    def reverse(self): self._need(); self._log(); list.reverse(self)
    def sort(self, key=None, reverse=False):
        self._need(); r = vsorted(self, key=key, reverse=reverse); self._log(); list.__setitem__(self, slice(None), list(r))
    def __eq__(self, o):
        if not isinstance(o, list): return False
        if self.segs is None and getattr(o, 'segs', None) is None:
            if list.__len__(self) != list.__len__(o): return False
            return mkb(z3.And([eq(a, b) for a, b in zip(list.__iter__(self), list.__iter__(o))] or [z3.BoolVal(True)]))
        a, b = list(seq_of(self)), list(seq_of(o))
        if not b: return mkb(z3.And([z3.BoolVal(False) if k == 'c' else z3.Not(s.nonempty()) for k, s in a]))
        if not a: return mkb(z3.And([z3.BoolVal(False) if k == 'c' else z3.Not(s.nonempty()) for k, s in b]))
        if len(a) == len(b) == 1 and a[0][0] == b[0][0] == 's' and a[0][1].dense and b[0][1].dense:
            s, t = a[0][1], b[0][1]
            if all(z3.is_app(n) and n.decl().name() == 'path_len' for n in (s.n, t.n)): return mkb(s.n.arg(0) == t.n.arg(0))     # a path is its sequence of nodes
            i = bound('i', I)
            return mkb(z3.And(s.n == t.n, bind(z3.ForAll, [i], z3.Implies(z3.And(i >= 0, i < s.n), eq(s.inst([i])[2], t.inst([i])[2])))))
        raise Unsupported('equality of symbolic lists')
    def __ne__(self, o): return vnot(self.__eq__(o))
    __hash__ = None
    def __deepcopy__(self, memo):
        from .pyfac import vdeepcopy
        return PyList.of([(k, vdeepcopy(v, memo) if k == 'c' else v) for k, v in seq_of(self)])
    def __copy__(self): return self.copy()
    def __reduce_ex__(self, p): raise Unsupported('pickle')
    def __repr__(self): return list.__repr__(self) if self.segs is None else 'PyList(%r)' % (self.segs,)
    def _subst(self, pairs):
        return PyList.of([(k, subst(v, pairs)) for k, v in seq_of(self)])
    def __lt__(self, o):
        return tuple(self) < tuple(o)

def first_of(s):
    """first element of a filtered family"""
    vs, c, e = s.inst([E.fresh('first', v.sort()) for v in s.vars]); E.assume(c)
    ws, c2, _ = s.inst()
    if s.order is not None:
        E.assume(quant(z3.ForAll, ws, z3.Implies(c2, s.order(vs, ws))))
    elif s.n is not None:
        E.assume(quant(z3.ForAll, ws, z3.Implies(c2, vs[0] <= ws[0])))
    return e

_lens = {}
def seqlen(s):
    if s.n is not None and s.dense: return s.n
    if len(s.vars) == 1 and isinstance(s.elt, SE) and z3.eq(s.elt.t, s.vars[0]):
        return card(PySet.of_pred(lambda x: z3.substitute(s.cond, (s.vars[0], x))))
    # number of elements: opaque, zero iff empty
    n = E.fresh('len', I)
    E.assume(n >= 0); E.assume((n > 0) == s.nonempty())
    v1, c1, _ = s.inst(); v2, c2, _ = s.inst()
    if all(v.sort() == Node for v in v1): E.assume((n <= 1) == quant(z3.ForAll, list(v1) + list(v2), z3.Implies(z3.And(c1, c2), z3.And([p == q for p, q in zip(v1, v2)]))))
    return n

def as_int(i):
    if isinstance(i, int): return int(i)
    if isinstance(i, SN): return i.__index__()
    if hasattr(i, '__index__'): return i.__index__()
    if hasattr(i, 'at') and getattr(i, 'ndim', 1) == 0:
        v = val(i.at(())); return as_int(v)
    raise TypeError('list indices must be integers or slices, not %s' % type(i).__name__)

# -------------------------------------------------------- mutation notes for loop acceleration
def note(obj, op):
    if NOTES: NOTES[-1].setdefault(id(obj), (obj, []))[1].append(op)
NOTES = []

# -------------------------------------------------------- sets
class PySet:
    """set: concrete items (known to be distinct), or a predicate over the element sort, or segments"""
    def __init__(self, it=()):
        self._born = next(E.births)
        self.items, self.pred, self.segs, self.arr = [], None, None, None
        if isinstance(it, PySet): self.items, self.pred, self.segs, self.arr = (None if it.items is None else list(it.items)), it.pred, it.segs and list(it.segs), it.arr
        elif isinstance(it, SE):
            ch = z3.Function('charof', Node, Node, B); self.pred = lambda x, it=it: ch(it.t, x)
        else: self._addall(seq_of(it))
    # -- constructors
    @staticmethod
    def of_pred(p):
        r = PySet(); r.pred = p; r.items = None; return r
    @staticmethod
    def of_arr(a):
        r = PySet.of_pred(lambda x: z3.Select(a, x)); r.arr = a; return r
    def _log(self):
        if E.jon:
            st = (None if self.items is None else list(self.items), self.pred, None if self.segs is None else list(self.segs), self.arr)
            def undo(self=self, st=st): self.items, self.pred, self.segs, self.arr = st
            E.log(undo)
    def _state(self): return (self.items, self.pred, self.segs, self.arr)
    def _put(self, o):
        self._log(); self.items, self.pred, self.segs, self.arr = (None if o.items is None else list(o.items)), o.pred, (None if o.segs is None else list(o.segs)), o.arr
    def _addall(self, sg):
        for k, v in sg:
            if k == 'c': self._add(v)
            else:
                if isinstance(v.elt, (SE, str)):
                    p = self.as_pred(); self.items, self.segs, self.arr = None, None, None
                    self.pred = lambda x, p=p, v=v: z3.Or(p(x), v.contains(SE(x)))
                else:
                    s = self._as_segs(); self.items, self.pred = None, None; self.segs = s + [('s', v)]
    def _as_segs(self):
        if self.segs is not None: return list(self.segs)
        if self.pred is not None:
            y = bound('y', Node); return [('s', SSeq([y], self.pred(y), SE(y)))]
        return [('c', v) for v in self.items]
    def _add(self, v):
        if isinstance(v, (PySet, PyList)) : raise TypeError("unhashable type: '%s'" % type(v).__name__)
        if getattr(self, '_hav', None) is not None and not isinstance(v, (SE, str, SN, int, float, tuple)):
            from .pyfac import MoreState
            m = MoreState(set(), [], [], True); m.objset = self._hav; raise m
        if self.pred is not None:
            p, t = self.pred, term(v); self.arr = None
            self.pred = lambda x: z3.Or(p(x), x == t); return
        if self.segs is not None: self.segs.append(('c', v)); return
        # concrete items: keep explicit while (dis)equality with every item is decided
        if isinstance(v, (SE, SN)) or any(isinstance(w, (SE, SN)) for w in self.items):
            for w in self.items:
                e = eq(w, v)
                if E.implied(e): return
                if not E.implied(z3.Not(e)):
                    if isinstance(v, (SE, str)) and all(isinstance(x, (SE, str)) for x in self.items):
                        p, t = self.as_pred(), term(v); self.items = None; self.arr = None
                        self.pred = lambda x: z3.Or(p(x), x == t); return
                    if E.fork(e): return
            self.items.append(v); return
        for w in self.items:
            try:
                if type(w) is type(v) or not isinstance(w, (str, int, float)):
                    r = eq(w, v)
                    if z3.is_true(z3.simplify(r)): return
                    if not z3.is_false(z3.simplify(r)) and E.fork(r): return
                elif w == v: return
            except Unsupported: raise
        self.items.append(v)
    def as_pred(self):
        if self.pred is not None: return self.pred
        if self.segs is not None:
            sg = list(self.segs)
            return lambda x: z3.Or([eq(v, SE(x)) if k == 'c' else v.contains(SE(x)) for k, v in sg] or [z3.BoolVal(False)])
        its = [term(v) for v in self.items]
        if any(t.sort() != Node for t in its): raise Unsupported('set of non-names used symbolically')
        return lambda x: z3.Or([x == t for t in its] or [z3.BoolVal(False)])
    def arr_term(self): return self.arr
    def as_array(self):
        if self.arr is not None: return self.arr
        if self.items is not None and self.pred is None and self.segs is None:
            a = z3.K(Node, z3.BoolVal(False))
            for v in self.items: a = z3.Store(a, term(v), z3.BoolVal(True))
            return a
        x = z3.Const('x', Node)
        return z3.Lambda([x], z3.simplify(self.as_pred()(x)))
    # -- queries
    def conc(self): return self.items is not None and self.pred is None and self.segs is None
    def _issym(self): return not self.conc()
    def _segs(self): return self._as_segs()
    def contains(self, x):
        if self.pred is not None:
            if isinstance(x, (PySet, tuple, int)): return z3.BoolVal(False)
            return self.pred(term(x))
        return z3.Or([eq(v, x) if k == 'c' else v.contains(x) for k, v in self._as_segs()] or [z3.BoolVal(False)])
    def __contains__(self, x): return E.fork(self.contains(x))
    def nonempty(self):
        if self.conc(): return z3.BoolVal(bool(self.items))
        if self.pred is not None:
            y = bound('y', Node); return quant(z3.Exists, [y], self.pred(y))
        return z3.Or([z3.BoolVal(True) if k == 'c' else v.nonempty() for k, v in self.segs])
    def __bool__(self): return E.fork(self.nonempty())
    def vlen(self):
        if self.conc(): return len(self.items)
        return val(card(self))
    def __len__(self):
        if self.conc(): return len(self.items)
        raise Unsupported('native len of symbolic set')
    def __iter__(self):
        if self.conc(): return iter(list(self.items))
        raise Unsupported('native iteration over a symbolic set')
    def equals(self, o):
        if self.conc() and o.conc():
            a, b = self.items, o.items
            return z3.And([o.contains(v) for v in a] + [self.contains(v) for v in b] + [z3.BoolVal(True)])
        if not o.items and o.conc(): return z3.Not(self.nonempty())
        if not self.items and self.conc(): return z3.Not(o.nonempty())
        y = bound('y', Node)
        return quant(z3.ForAll, [y], self.as_pred()(y) == o.as_pred()(y))
    def __eq__(self, o):
        if not isinstance(o, PySet): return False
        return mkb(self.equals(o))
    def __ne__(self, o): return vnot(self.__eq__(o))
    def subset(self, o):
        if self.conc(): return z3.And([vcontains(o, v) for v in self.items] + [z3.BoolVal(True)])
        y = bound('y', Node)
        return quant(z3.ForAll, [y], z3.Implies(self.as_pred()(y), as_set(o).as_pred()(y)))
    def issubset(self, o): return mkb(self.subset(as_set(o)))
    def issuperset(self, o): return mkb(as_set(o).subset(self))
    def isdisjoint(self, o): return mkb(z3.Not(self.intersection(o).nonempty()))
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return mkb(z3.And(self.subset(o), z3.Not(o.subset(self))))
    def __gt__(self, o): return mkb(z3.And(o.subset(self), z3.Not(self.subset(o))))
    __hash__ = None
    # -- algebra
    def copy(self):
        r = PySet(); r.items, r.pred, r.segs, r.arr = None if self.items is None else list(self.items), self.pred, None if self.segs is None else list(self.segs), self.arr
        return r
    __copy__ = copy
    def __deepcopy__(self, memo): 
        from .pyfac import vdeepcopy
        r = self.copy()
        if r.items: r.items = [vdeepcopy(v, memo) for v in r.items]
        return r
    def union(self, *os):
        r = self.copy()
        for o in os:
            o = as_set(o)
            if o.conc() or o.segs is not None: r._addall(o._as_segs())
            elif o.pred is not None and r.segs is None:
                p, q = r.as_pred(), o.pred; r = PySet.of_pred(lambda x, p=p, q=q: z3.Or(p(x), q(x)))
            else: r._addall(o._as_segs())
        return r
    def difference(self, *os):
        r = self.copy()
        for o in os:
            o = as_set(o)
            if r.conc():
                keep = []
                und = False
                for v in r.items:
                    c = o.contains(v)
                    if E.implied(c): continue
                    if E.implied(z3.Not(c)): keep.append(v)
                    else: und = True; keep.append(v)
                if not und: r.items = keep; continue
            p, q = r.as_pred(), o.as_pred()
            r = PySet.of_pred(lambda x, p=p, q=q: z3.And(p(x), z3.Not(q(x))))
        return r
    def intersection(self, *os):
        r = self.copy()
        for o in os:
            o = as_set(o)
            if r.conc():
                keep, und = [], False
                for v in r.items:
                    c = o.contains(v)
                    if E.implied(c): keep.append(v)
                    elif not E.implied(z3.Not(c)): und = True
                if not und: r.items = keep; continue
            p, q = r.as_pred(), o.as_pred()
            r = PySet.of_pred(lambda x, p=p, q=q: z3.And(p(x), q(x)))
        return r
    def symmetric_difference(self, o): return self.difference(o).union(as_set(o).difference(self))
    def _chk(self, o): return isinstance(o, PySet)
    def __or__(self, o): return self.union(o) if self._chk(o) else NotImplemented
    def __sub__(self, o): return self.difference(o) if self._chk(o) else NotImplemented
    def __and__(self, o): return self.intersection(o) if self._chk(o) else NotImplemented
    def __xor__(self, o): return self.symmetric_difference(o) if self._chk(o) else NotImplemented
    def __ior__(self, o): self.update(o); return self
    def __isub__(self, o): self.difference_update(o); return self
    def __iand__(self, o): self.intersection_update(o); return self
    # -- mutation
    def add(self, v): note(self, ('mut',)); self._log(); self._add(v)
    def update(self, *os):
        note(self, ('mut',)); self._put(self.union(*os))
    def difference_update(self, *os): note(self, ('mut',)); self._put(self.difference(*os))
    def intersection_update(self, *os): note(self, ('mut',)); self._put(self.intersection(*os))
    def discard(self, v):
        note(self, ('mut',)); self._put(self.difference(PySet([v])))
    def remove(self, v):
        if v not in self: raise KeyError(v)
        self.discard(v)
    def clear(self): note(self, ('mut',)); self._put(PySet())
    def pop(self):
        note(self, ('mut',))
        if self.conc():
            if not self.items: raise KeyError('pop from an empty set')
            self._log(); return self.items.pop()
        if not E.fork(self.nonempty()): raise KeyError('pop from an empty set')
        if self.pred is None: raise Unsupported('pop of symbolic family')
        y = E.fresh('popped', Node); p = self.pred
        E.assume(p(y)); self._put(PySet.of_pred(lambda x: z3.And(p(x), x != y)))
        return SE(y)
    def _subst(self, pairs):
        r = PySet()
        if self.conc():
            r.items = [subst(v, pairs) for v in self.items]; return r
        if self.pred is not None:
            p = self.pred; r.items = None
            def q(x, p=p):
                y = bound('s', Node)
                return z3.substitute(z3.substitute(p(y), *pairs), (y, x))
            r.pred = q
            if self.arr is not None: r.arr = z3.substitute(self.arr, *pairs)
            return r
        r.items = None; r.segs = [(k, subst(v, pairs)) for k, v in self.segs]
        return r
    def _merge(self, items):
        ps = [(c, v.as_pred()) for c, v in items]
        def p(x):
            r = ps[-1][1](x)
            for c, q in reversed(ps[:-1]): r = z3.If(c, q(x), r)
            return r
        return PySet.of_pred(p)
    def __repr__(self): return 'PySet(%s)' % (self.items if self.conc() else ('pred' if self.pred else self.segs))

def _ps_preds(self): return {'m': ((Node,), self.as_pred())}
def _ps_set(self, d): self.items, self.segs, self.arr, self.pred = None, None, None, d['m']
def _ps_restore(self, st): self.items, self.pred, self.segs, self.arr = st
PySet._acc_preds, PySet._acc_setpreds, PySet._acc_state, PySet._acc_restore = _ps_preds, _ps_set, PySet._state, _ps_restore

CARD = z3.Function('card', SetS, I)
def card(s):
    n = CARD(s.as_array())
    ne = s.nonempty()
    E.assume(n >= 0); E.assume((n > 0) == ne)
    if s.pred is not None:
        a, b = bound('a', Node), bound('b', Node)
        E.assume((n <= 1) == z3.ForAll([a, b], z3.Implies(z3.And(s.pred(a), s.pred(b)), a == b)))
    return n

class PyFrozenSet(PySet):
    pass

def as_set(x):
    if isinstance(x, PySet): return x
    return PySet(x)

def vcontains(c, x):
    """x in c as a z3 boolean"""
    if hasattr(c, 'contains'): return c.contains(x)
    if isinstance(c, dict): return z3.Or([eq(k, x) for k in c] or [z3.BoolVal(False)])
    if isinstance(c, (list, tuple)): return z3.Or([eq(k, x) for k in c] or [z3.BoolVal(False)])
    if isinstance(c, str) and isinstance(x, str): return z3.BoolVal(x in c)
    r = c.__contains__(x)
    return tob(r)

# -------------------------------------------------------- dicts with concrete structure (keys may be symbolic scalars)
def _symkey(k):
    if isinstance(k, (SN, SE, SB)): return True
    if isinstance(k, tuple): return any(_symkey(x) for x in k)
    return False

class PyDict:
    """dict: insertion-ordered association list; symbolic keys are decided by forking"""
    default_factory = None
    def __init__(self, *a, **kw):
        self.ks, self.vs = [], []
        self._h = {}; self._born = next(E.births)
        if a: self.update(*a)
        if kw: self.update(kw)
    def _log(self):
        if E.jon and not (E.frames and self._born > getattr(E.frames[-1], 'birth', 0)):
            st = (list(self.ks), list(self.vs), dict(self._h))
            def undo(self=self, st=st): self.ks, self.vs, self._h = st
            E.log(undo)
    def _find(self, k):
        if not _symkey(k):
            try:
                if k in self._h: return self._h[k]
            except TypeError:
                raise TypeError('unhashable type: %r' % type(k).__name__)
            if not any(_symkey(x) for x in self.ks): return -1
        for i, x in enumerate(self.ks):
            if E.fork(eq(x, k)): return i
        return -1
    def __getitem__(self, k):
        i = self._find(k)
        if i < 0: return self.__missing__(k)
        return self.vs[i]
    def __missing__(self, k):
        raise KeyError(k)
    def __setitem__(self, k, v):
        note(self, ('setitem', k, v))
        i = self._find(k); self._log()
        if i < 0:
            self.ks.append(k); self.vs.append(v)
            if not _symkey(k): self._h[k] = len(self.ks) - 1
        else: self.vs[i] = v
    def __delitem__(self, k):
        note(self, ('del', k))
        i = self._find(k)
        if i < 0: raise KeyError(k)
        self._log(); self.ks.pop(i); self.vs.pop(i)
        self._h = {x: j for j, x in enumerate(self.ks) if not _symkey(x)}
    def contains(self, k):
        if not _symkey(k) and k in self._h: return z3.BoolVal(True)
        return z3.Or([eq(x, k) for x in self.ks if _symkey(x) or _symkey(k)] or [z3.BoolVal(False)])
    def __contains__(self, k): return E.fork(self.contains(k))
    def get(self, k, d=None):
        i = self._find(k); return d if i < 0 else self.vs[i]
    def setdefault(self, k, d=None):
        i = self._find(k)
        if i < 0: self[k] = d; return d
        return self.vs[i]
    def pop(self, k, *d):
        i = self._find(k)
        if i < 0:
            if d: return d[0]
            raise KeyError(k)
        v = self.vs[i]; del self[k]; return v
    def keys(self): return PyList(list(self.ks))
    def values(self): return PyList(list(self.vs))
    def items(self): return PyList(list(zip(self.ks, self.vs)))
    def __iter__(self): return iter(list(self.ks))
    def _segs(self): return [('c', k) for k in self.ks]
    def __len__(self): return len(self.ks)
    def __bool__(self): return bool(self.ks)
    def update(self, *a, **kw):
        for o in a:
            if hasattr(o, 'items'):
                for k, v in o.items(): self[k] = v
            else:
                for k, v in o: self[k] = v
        for k, v in kw.items(): self[k] = v
    def copy(self):
        r = type(self)() if self.default_factory is None else DefaultDict(self.default_factory)
        r.ks, r.vs, r._h = list(self.ks), list(self.vs), dict(self._h); return r
    __copy__ = copy
    def __deepcopy__(self, memo):
        from .pyfac import vdeepcopy
        r = self.copy(); r.vs = [vdeepcopy(v, memo) for v in r.vs]; return r
    def clear(self): self._log(); self.ks, self.vs, self._h = [], [], {}
    def __eq__(self, o):
        if not isinstance(o, (PyDict, dict)): return False
        if len(self) != len(o): return False
        for k in self.ks:
            if k not in o: return False
        return mkb(z3.And([eq(self[k], o[k]) for k in self.ks] + [z3.BoolVal(True)]))
    def __ne__(self, o): return vnot(self.__eq__(o))
    __hash__ = None
    def __or__(self, o): r = self.copy(); r.update(o); return r
    def __repr__(self): return 'PyDict(%r)' % (list(zip(self.ks, self.vs)),)
    @classmethod
    def fromkeys(cls, ks, v=None):
        r = PyDict()
        for k in ks: r[k] = v
        return r

# entries made by a symbolic loop: `fam` is a list of families of (key, value) with distinct keys; `hav` marks the
# unknown contents at an arbitrary iteration, to which entries may only be added
PyDict.fam = None; PyDict.hav = False
def _fam_entries(self): return PyList.of([('s', s) for s in self.fam] + [('c', kv) for kv in zip(self.ks, self.vs)])
def _fam_guard(name, f):
    def g(self, *a, **k):
        if self.hav or self.fam is not None:
            if name == '__setitem__' and self.hav:
                note(self, ('setitem', a[0], a[1])); self._log(); self.ks.append(a[0]); self.vs.append(a[1]); return None
            if not self.hav and name in ('items', 'keys', 'values', '_segs', '_issym'):
                if name == '_issym': return True
                l = _fam_entries(self)
                from .pyfac import listcomp
                if name == 'items': return l
                l = listcomp(l, lambda e: e[1] if name == 'values' else e[0])
                return seq_of(l) if name == '_segs' else l
            raise Unsupported('dictionary filled in a symbolic loop')
        return f(self, *a, **k)
    return g
PyDict._issym = lambda self: False
for _n in ('__getitem__', '__setitem__', '__delitem__', 'contains', 'get', 'setdefault', 'pop', 'keys', 'values', 'items', '__iter__', '_segs', '_issym', '__len__', '__bool__', 'update', 'copy', '__copy__', '__eq__', 'clear', '__deepcopy__'):
    setattr(PyDict, _n, _fam_guard(_n, getattr(PyDict, _n)))
PyDict.__hash__ = None

class OrderedDict(PyDict):
    def move_to_end(self, k): v = self.pop(k); self[k] = v

class DefaultDict(PyDict):
    def __new__(cls, factory=None, *a, **kw):
        if a and hasattr(a[0], '_as_defaultdict'): return a[0]._as_defaultdict(factory)
        return object.__new__(cls)
    def __init__(self, factory=None, *a, **kw):
        if a and hasattr(a[0], '_as_defaultdict'): return
        PyDict.__init__(self, *a, **kw); self.default_factory = factory
    def __missing__(self, k):
        if self.default_factory is None: raise KeyError(k)
        v = self.default_factory(); self[k] = v; return v
    # keys that a symbolic loop may have created: present or absent, with the default value; only d[k] may look at them
    _maybe = ()
    def _seed(self, k):
        v = self.default_factory(); v._born = self._born
        if not isinstance(v, PyList) or _symkey(k): raise Unsupported('dictionary key created in a symbolic loop')
        if k not in self._h: self[k] = v; self._maybe = tuple(self._maybe) + (k,)
    def _sure(self):
        if self._maybe: raise Unsupported('dictionary whose keys depend on a symbolic loop')
for _n in ('__delitem__', 'contains', 'get', 'setdefault', 'pop', 'keys', 'values', 'items', '__iter__', '_segs', '__len__', '__bool__', 'update', 'copy', '__eq__', '__ne__', '__or__', 'clear'):
    def _w(f):
        def g(self, *a, **k): self._sure(); return f(self, *a, **k)
        return g
    setattr(DefaultDict, _n, _w(getattr(PyDict, _n)))
DefaultDict.__hash__ = None

class Counter(DefaultDict):
    pass
