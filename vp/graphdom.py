"""Symbolic graphs: adjacency dictionaries over an unbounded node sort and a networkx facade."""
import types
import z3
from .core import *
from .core import E, eq, tob, term, val, mkb
from . import coll, pyfac
from .coll import PyList, PySet, PyDict, SSeq, bound, quant, seq_of, is_sym_iter, note, merge_vals, as_set, vcontains, subst

def name_t(x):
    if isinstance(x, (SE, str)): return term(x)
    raise TypeError('not a node: %r' % (x,))

# ------------------------------------------------------------------ dict  name -> list of names (no duplicates)
class RelDict:
    """symbolic {node: [nodes]}; K(k): key present, P(k,p): p in the list of k (lists are duplicate-free)"""
    _isdict = True
    def __init__(self, K, P, default=False):
        self.K, self.P, self.default = K, P, default
        self._born = next(E.births)
    def _log(self):
        if E.jon:
            st = (self.K, self.P)
            def undo(self=self, st=st): self.K, self.P = st
            E.log(undo)
    def _acc_preds(self): return {'K': ((Node,), self.K), 'P': ((Node, Node), self.P)}
    def _acc_setpreds(self, d): self.K, self.P = d['K'], d['P']
    def _acc_state(self): return (self.K, self.P)
    def _acc_restore(self, st): self.K, self.P = st
    def _acc_inv(self, f, pn, ix):
        """representation invariant: the list of an absent key is empty"""
        return z3.Implies(f['P'](*ix), f['K'](ix[0])) if pn == 'P' else z3.BoolVal(True)
    _acc = True
    def _set(self, K=None, P=None):
        note(self, ('mut',)); self._log()
        if K is not None: self.K = K
        if P is not None: self.P = P
    def contains(self, k):
        if not isinstance(k, (SE, str)): return z3.BoolVal(False)
        return self.K(term(k))
    def __contains__(self, k): return E.fork(self.contains(k))
    def __getitem__(self, k):
        t = name_t(k)
        if not E.fork(self.K(t)):
            if not self.default: raise KeyError(k)
            K, P = self.K, self.P
            self._set(lambda x: z3.Or(K(x), x == t))      # representation invariant: P(a,b) implies K(a)
        return RelList(self, t)
    def get(self, k, d=None):
        t = name_t(k)
        if not E.fork(self.K(t)): return d
        return RelList(self, t)
    def __setitem__(self, k, v):
        t = name_t(k); K, P = self.K, self.P
        if isinstance(v, RelList) and v.d is self and v.k is t: return
        q = elems_pred(v)
        self._set(lambda x: z3.Or(K(x), x == t), lambda a, b: z3.If(a == t, q(b), P(a, b)))
    def __delitem__(self, k):
        t = name_t(k)
        if not E.fork(self.K(t)): raise KeyError(k)
        K, P = self.K, self.P
        self._set(lambda x: z3.And(K(x), x != t), lambda a, b: z3.And(P(a, b), a != t))
    def pop(self, k, *d):
        t = name_t(k)
        if not E.fork(self.K(t)):
            if d: return d[0]
            raise KeyError(k)
        P = self.P
        r = PyList.of([('s', famset(lambda y: P(t, y)))])
        del self[k]; return r
    def setdefault(self, k, v):
        if not E.fork(self.K(name_t(k))): self[k] = v
        return RelList(self, name_t(k))
    def keys(self): return KeysView(self)
    def _segs(self):
        return [('s', famset(self.K))]
    def _issym(self): return True
    def values(self):
        k = bound('k', Node); return PyList.of([('s', SSeq([k], self.K(k), RelList(self, k)))])
    def items(self):
        k = bound('k', Node); return PyList.of([('s', SSeq([k], self.K(k), (SE(k), RelList(self, k))))])
    def vlen(self): return PySet.of_pred(self.K).vlen()
    def __bool__(self): return PySet.of_pred(self.K).__bool__()
    def __iter__(self): raise Unsupported('native iteration of a symbolic dict')
    def __len__(self): raise Unsupported('native len of a symbolic dict')
    def update(self, o):
        if isinstance(o, RelDict):
            K, P, K2, P2 = self.K, self.P, o.K, o.P
            self._set(lambda x: z3.Or(K(x), K2(x)), lambda a, b: z3.If(K2(a), P2(a, b), P(a, b)))
        else:
            for k, v in o.items(): self[k] = v
    def _copy(self): return RelDict(self.K, self.P, self.default)
    copy = _copy
    def __copy__(self): return self._copy()
    def __deepcopy__(self, memo): return self._copy()
    # dict(d) / defaultdict(list, d) share the list objects of d: modelled by an alias group
    def _as_dict(self): return AliasDict(self, False)
    def _as_defaultdict(self, factory):
        return AliasDict(self, True)
    def __eq__(self, o):
        if not isinstance(o, RelDict): return False
        a, b = bound('a', Node), bound('b', Node)
        return mkb(z3.And(z3.ForAll([a], self.K(a) == o.K(a)), z3.ForAll([a, b], z3.Implies(self.K(a), self.P(a, b) == o.P(a, b)))))
    __hash__ = None
    def _subst(self, pairs): return self
    def _terms(self): return []

class AliasDict(RelDict):
    """defaultdict(list, d): own keys; the lists of keys inherited from d are the SAME objects as d's, until reassigned"""
    def __init__(self, d, default):
        # inherited: G(k) — the list of k is still shared with the parent
        self.parent = d
        K0 = d.K
        self.G = lambda x: K0(x)
        self.P0 = lambda a, b: z3.BoolVal(False)
        RelDict.__init__(self, K0, None, default)
    @property
    def P(self):
        G, P0, d = self.G, self.P0, self.parent
        return lambda a, b: z3.If(G(a), d.P(a, b), P0(a, b))
    @P.setter
    def P(self, v):
        if v is None: return
        raise Unsupported('internal: alias dict write')
    def _log(self):
        if E.jon:
            st = (self.K, self.G, self.P0)
            def undo(self=self, st=st): self.K, self.G, self.P0 = st
            E.log(undo)
    def _acc_preds(self): return {'K': ((Node,), self.K), 'P': ((Node, Node), self.P), 'G': ((Node,), self.G)}
    def _acc_setpreds(self, d):
        self.K = d['K']; self.G = d['G']; P = d['P']; self.P0 = P
        G = self.G
        # writes to shared lists go to the parent
        if True:
            pd = self.parent; PP = pd.P
            np_ = lambda a, b: z3.If(G(a), P(a, b), PP(a, b))
            pd._set(P=np_)
    def _acc_state(self): return (self.K, self.G, self.P0, self.parent._acc_state())
    def _acc_restore(self, st): self.K, self.G, self.P0 = st[:3]; self.parent._acc_restore(st[3])
    def _set(self, K=None, P=None):
        note(self, ('mut',)); self._log()
        if K is not None:
            G = self.G; self.K = K; self.G = lambda x: z3.And(G(x), K(x))
        if P is not None:
            G = self.G; PP = self.parent.P
            self.P0 = P
    def __setitem__(self, k, v):
        t = name_t(k); q = elems_pred(v); K, G, P0 = self.K, self.G, self.P0
        note(self, ('mut',)); self._log()
        self.K = lambda x: z3.Or(K(x), x == t); self.G = lambda x: z3.And(G(x), x != t)
        self.P0 = lambda a, b: z3.If(a == t, q(b), P0(a, b))
    def list_write(self, t, f):
        """in-place change of the list object of key t"""
        g = self.G(t)
        if E.fork(g): self.parent.list_write(t, f)
        else:
            P0 = self.P0; note(self, ('mut',)); self._log()
            self.P0 = lambda a, b: z3.If(a == t, f(b), P0(a, b))
    def _copy(self): return RelDict(self.K, self.P, self.default)

def _rd_list_write(self, t, f):
    P = self.P
    self._set(P=lambda a, b: z3.If(a == t, f(b), P(a, b)))
RelDict.list_write = _rd_list_write

class KeysView:
    """live view of the keys"""
    def __init__(self, d): self.d = d
    def contains(self, x): return self.d.contains(x)
    def __contains__(self, x): return E.fork(self.contains(x))
    def _segs(self): return self.d._segs()
    def _issym(self): return True
    def vlen(self): return self.d.vlen()
    def _set(self): return PySet.of_pred(self.d.K)
    def __sub__(self, o): return self._set().difference(o)
    def __and__(self, o): return self._set().intersection(o)
    def __or__(self, o): return self._set().union(o)
    def __bool__(self): return bool(self._set())
    def __deepcopy__(self, memo): return self
    def __eq__(self, o): return self._set() == as_set(o) if not isinstance(o, KeysView) else self._set() == o._set()
    def isdisjoint(self, o): return self._set().isdisjoint(o)
    __hash__ = None

def elems_pred(v):
    """the elements of a list/set of names as a predicate"""
    if isinstance(v, RelList): 
        P, k = v.d.P, v.k; return lambda b: P(k, b)
    s = PySet(v)
    return s.as_pred()

def famset(pred):
    y = bound('y', Node); return SSeq([y], pred(y), SE(y))

class RelList:
    """the list stored under a key of a RelDict (a live object)"""
    def __init__(self, d, k): self.d, self.k = d, k
    def pred(self, y): return self.d.P(self.k, y)
    def contains(self, x):
        return self.pred(term(x)) if isinstance(x, (SE, str)) else z3.BoolVal(False)
    def __contains__(self, x): return E.fork(self.contains(x))
    def _segs(self):
        P, k = self.d.P, self.k; return [('s', famset(lambda y: P(k, y)))]
    def _issym(self): return True
    def vlen(self):
        return PySet.of_pred(self.pred).vlen()
    def nonempty(self): y = bound('y', Node); return quant(z3.Exists, [y], self.pred(y))
    def __bool__(self): return E.fork(self.nonempty())
    def append(self, x):
        t = name_t(x); P, k = self.d.P, self.k
        if not E.implied(z3.Not(P(k, t))): raise Unsupported('append of a name that may already be in the list')
        self.d.list_write(k, lambda b: z3.Or(P(k, b), b == t))
    def extend(self, xs):
        q = elems_pred(xs); P, k = self.d.P, self.k
        self.d.list_write(k, lambda b: z3.Or(P(k, b), q(b)))
    def __iadd__(self, xs): self.extend(xs); return self
    def remove(self, x):
        t = term(x) if isinstance(x, (SE, str)) else None
        if t is None or not E.fork(self.pred(t)): raise ValueError('list.remove(x): x not in list')
        P, k = self.d.P, self.k
        self.d.list_write(k, lambda b: z3.And(P(k, b), b != t))
    def _plain(self): return PyList(self)
    def copy(self): return self._plain()
    def __copy__(self): return self._plain()
    def __deepcopy__(self, m): return self._plain()
    def __add__(self, o): return self._plain() + (o if isinstance(o, list) else PyList(o))
    def __radd__(self, o): return PyList(o) + self._plain()
    def __eq__(self, o):
        if isinstance(o, RelList):
            y = bound('y', Node); return mkb(coll.bind(z3.ForAll, [y], self.pred(y) == o.pred(y)))
        if isinstance(o, list):
            return self._plain() == o
        return False
    def __ne__(self, o): return vnot(self.__eq__(o))
    __hash__ = None
    def __iter__(self): raise Unsupported('native iteration of a symbolic list')
    def __getitem__(self, i): return self._plain()[i]
    def _subst(self, pairs): return RelList(self.d, z3.substitute(self.k, *pairs))
    def _terms(self): return [self.k]
    def sort(self): pass
class _ListMeta: pass
DUPS = []

def symdict(it, kf, vf, conds):
    """{k: [..] for ..} over a symbolic family of names -> RelDict"""
    l = pyfac.listcomp(it, lambda x: (kf(x), vf(x)), conds)
    K_parts = list(seq_of(l))
    d = RelDict(lambda x: z3.BoolVal(False), lambda a, b: z3.BoolVal(False))
    for k, v in K_parts:
        if k == 'c': d[v[0]] = v[1]; continue
        if not (isinstance(v.elt, tuple) and isinstance(v.elt[0], SE) and len(v.vars) == 1 and z3.eq(v.vars[0], v.elt[0].t)):
            raise Unsupported('dict comprehension over symbolic keys')
        var, c, q = v.vars[0], v.cond, elems_pred(v.elt[1])
        def K(x, var=var, c=c): return z3.substitute(c, (var, x))
        def P(a, b, var=var, q=q):
            return z3.substitute(q(b), (var, a))
        d.update(RelDict(K, P))
    return d

# ------------------------------------------------------------------ networkx
class NXError(Exception): pass
class NetworkXError(NXError): pass
class NodeNotFound(NXError): pass
class NetworkXNoPath(NXError): pass

KEYS = (0, 'n', 1)
class SGraph:
    """a networkx graph: node predicate, one edge relation per key"""
    multi, directed = True, True
    simple = False      # known to have no parallel edges (kept by removals, dropped by additions)
    def __init__(self, data=None, **kw):
        self._born = next(E.births)
        self.Nd = lambda x: z3.BoolVal(False)
        self.Ed = {k: (lambda u, v: z3.BoolVal(False)) for k in self.keyset()}
        if data is not None:
            if isinstance(data, SGraph):
                self.Nd = data.Nd
                if data.multi == self.multi: self.Ed = dict(data.Ed)
                else: 
                    ed = data.any_edge(); self.Ed = {k: (ed if k == 0 else (lambda u, v: z3.BoolVal(False))) for k in self.keyset()}
                if data.directed and not self.directed: self._sym()
            elif isinstance(data, RelDict):
                K, P = data.K, data.P
                self.Nd = lambda x: z3.Or(K(x), ex_in(K, P, x)); self.Ed[0] = lambda u, v: z3.And(K(u), P(u, v))
            elif hasattr(data, 'items'):
                for k, vs in data.items():
                    self.add_node(k)
                    for v in vs: self.add_edge(k, v)
            else: self.add_edges_from(data)
    def keyset(self): return KEYS if self.multi else (0,)
    def _sym(self):
        for k in list(self.Ed):
            e = self.Ed[k]; self.Ed[k] = lambda u, v, e=e: z3.Or(e(u, v), e(v, u))
    # loop protocol
    _acc = True
    def _acc_preds(self):
        d = {'N': ((Node,), self.Nd)}
        for k in self.Ed: d['E%s' % k] = ((Node, Node), self.Ed[k])
        return d
    def _acc_setpreds(self, d):
        self.Nd = d['N']; self.Ed = {k: d['E%s' % k] for k in self.Ed}
    def _acc_inv(self, f, pn, ix):
        r = z3.Implies(f[pn](*ix), z3.And(f['N'](ix[0]), f['N'](ix[1]))) if pn != 'N' else z3.BoolVal(True)
        if self.simple and pn != 'N': r = z3.And(r, z3.Not(z3.Or([z3.And(f[pn](*ix), f[q](*ix)) for q in f if q not in ('N', pn)] or [z3.BoolVal(False)])))
        return r
    def _acc_state(self): return (self.Nd, dict(self.Ed))
    def _acc_restore(self, st): self.Nd, self.Ed = st[0], dict(st[1])
    def _mut(self):
        note(self, ('mut',))
        if E.jon:
            st = self._acc_state(); E.log(lambda: self._acc_restore(st))
    def any_edge(self):
        Ed = dict(self.Ed)
        return lambda u, v: z3.Or([Ed[k](u, v) for k in Ed])
    # -- construction
    def add_node(self, x, **kw):
        self._mut(); t = self._name(x); N = self.Nd; self.Nd = lambda y: z3.Or(N(y), y == t)
    def _name(self, x):
        if isinstance(x, (SE, str)): return term(x)
        raise Unsupported('graph node %r' % (x,))
    def add_nodes_from(self, xs, **kw):
        self._mut()
        s = as_names(xs); N = self.Nd; self.Nd = lambda y: z3.Or(N(y), s(y))
    def _add(self, u, v, key, guard=None):
        self._notsimple()
        E_, N = self.Ed[key], self.Nd
        if self.directed: self.Ed[key] = lambda a, b: z3.Or(E_(a, b), z3.And(a == u, b == v))
        else: self.Ed[key] = lambda a, b: z3.Or(E_(a, b), z3.And(a == u, b == v), z3.And(a == v, b == u))
        self.Nd = lambda x: z3.Or(N(x), x == u, x == v)
    def _autokey(self, u, v):
        """networkx's new_edge_key: number of parallel edges, then upwards"""
        has0, hasn, has1 = (self.Ed[k](u, v) for k in KEYS)
        if not E.fork(z3.Or(has0, hasn, has1)): return 0
        if E.fork(z3.And(z3.Xor(has0, z3.Xor(hasn, has1)), z3.Not(z3.And(has0, hasn, has1)), z3.Not(has1))): return 1
        raise Unsupported('automatic key for more than two parallel edges')
    def add_edge(self, u, v, key=None, **attr):
        self._mut(); u, v = self._name(u), self._name(v)
        if not self.multi: key = 0
        if key is None: key = self._autokey(u, v)
        if key not in self.Ed: raise Unsupported('edge key %r' % (key,))
        self._add(u, v, key)
        return key
    def _notsimple(self):
        if self.simple:
            self.simple = False          # forgetting is sound; a loop being summarised starts over without the fact
            if coll.NOTES: raise pyfac.MoreState(set(), [], [], again=True)
    def _parallel(self, u, v):
        ks = list(self.Ed); return z3.Or([z3.And(self.Ed[p](u, v), self.Ed[q](u, v)) for i, p in enumerate(ks) for q in ks[:i]] or [z3.BoolVal(False)])
    def know_simple(self):
        if not self.simple and self.multi:
            u, v = z3.Const('u?p', Node), z3.Const('v?p', Node)
            self.simple = E.implied(z3.Not(self._parallel(u, v)), ms=3000)
        return self.simple
    def add_edges_from(self, es, **kw):
        self._notsimple()
        self._mut()
        for k, e in seq_of(es):
            if k == 'c':
                if not isinstance(e, (tuple, list)): raise Unsupported('edge %r' % (e,))
                key = e[2] if len(e) >= 3 and not isinstance(e[2], (PyDict, dict)) else None
                if not self.multi: key = 0
                u, v = self._name(e[0]), self._name(e[1])
                if key is None: key = self._autokey(u, v)
                if key not in self.Ed: raise Unsupported('edge key %r' % (key,))
                self._add(u, v, key)
            else:
                vs, c, el = e.inst()
                key = (el[2] if len(el) >= 3 and not isinstance(el[2], (PyDict, dict)) else None) if self.multi else 0
                u, v = term(el[0]), term(el[1])
                def rel(a, b, vs=vs, c=c, u=u, v=v): return pyfac.ex1(vs, z3.And(c, a == u, b == v))
                if key is None:
                    # all-new pairs get key 0; pairs already connected take the next key
                    clash = quant(z3.Exists, vs, z3.And(c, z3.Or([self.Ed[k2](u, v) for k2 in self.Ed])))
                    if E.fork(clash):
                        Ed = dict(self.Ed)
                        anyE = lambda a, b: z3.Or([Ed[k2](a, b) for k2 in Ed])
                        two = quant(z3.Exists, vs, z3.And(c, z3.Or(Ed[1](u, v), z3.And(Ed[0](u, v), Ed['n'](u, v)))))
                        if E.fork(two): raise Unsupported('automatic key for more than two parallel edges')
                        self.Ed[0] = lambda a, b: z3.Or(Ed[0](a, b), z3.And(rel(a, b), z3.Not(anyE(a, b))))
                        self.Ed[1] = lambda a, b: z3.Or(Ed[1](a, b), z3.And(rel(a, b), anyE(a, b)))
                        N = self.Nd
                        self.Nd = lambda x: z3.Or(N(x), pyfac.ex1(vs, z3.And(c, z3.Or(x == u, x == v))))
                        continue
                    key = 0
                if key not in self.Ed: raise Unsupported('edge key %r' % (key,))
                E0, N = self.Ed[key], self.Nd
                if self.directed: self.Ed[key] = lambda a, b, E0=E0, rel=rel: z3.Or(E0(a, b), rel(a, b))
                else: self.Ed[key] = lambda a, b, E0=E0, rel=rel: z3.Or(E0(a, b), rel(a, b), rel(b, a))
                self.Nd = lambda x, N=N, vs=vs, c=c, u=u, v=v: z3.Or(N(x), pyfac.ex1(vs, z3.And(c, z3.Or(x == u, x == v))))
    def remove_node(self, x):
        t = self._name(x)
        if not E.fork(self.Nd(t)): raise NetworkXError('node not in graph')
        self._mut(); self._drop(lambda y: y == t)
    def _drop(self, s):
        N = self.Nd; self.Nd = lambda y: z3.And(N(y), z3.Not(s(y)))
        for k in list(self.Ed):
            e = self.Ed[k]; self.Ed[k] = lambda u, v, e=e: z3.And(e(u, v), z3.Not(s(u)), z3.Not(s(v)))
    def remove_nodes_from(self, xs):
        self._mut(); self._drop(as_names(xs))
    def remove_edge(self, u, v, key=None):
        u, v = self._name(u), self._name(v)
        if key is None:
            ks = [k for k in self.Ed]
            # networkx removes the most recently added of parallel edges
            present = [k for k in ks if E.fork(self.Ed[k](u, v))]
            if not present: raise NetworkXError('no edge')
            if len(present) > 1: raise Unsupported('remove_edge among parallel edges')
            key = present[0]
        if key not in self.Ed: raise NetworkXError('no edge with key')
        if not E.fork(self.Ed[key](u, v)): raise NetworkXError('The edge is not in the graph')
        self._mut(); self._del(u, v, key)
    def _del(self, u, v, key):
        e = self.Ed[key]
        if self.directed: self.Ed[key] = lambda a, b: z3.And(e(a, b), z3.Not(z3.And(a == u, b == v)))
        else: self.Ed[key] = lambda a, b: z3.And(e(a, b), z3.Not(z3.And(a == u, b == v)), z3.Not(z3.And(a == v, b == u)))
    def remove_edges_from(self, es):
        self._mut()
        for k, e in seq_of(es):
            if k == 'c':
                u, v = self._name(e[0]), self._name(e[1])
                if len(e) >= 3 and self.multi: 
                    if e[2] in self.Ed: self._del(u, v, e[2])
                else:
                    if not self.multi: self._del(u, v, 0)
                    elif self.simple:
                        for kk in list(self.Ed): self._del(u, v, kk)
                    else:
                        # one of the parallel edges (the last added): here at most one key must be present
                        for kk in self.Ed:
                            if E.implied(z3.Not(self.Ed[kk](u, v))): continue
                            others = z3.Or([self.Ed[o](u, v) for o in self.Ed if o != kk])
                            if E.fork(z3.And(self.Ed[kk](u, v), others)): raise Unsupported('removal among parallel edges')
                        for kk in list(self.Ed): self._del(u, v, kk)
            else:
                vs, c, el = e.inst(); u, v = term(el[0]), term(el[1])
                keys = [el[2]] if len(el) >= 3 and self.multi else list(self.Ed)
                if len(el) < 3 and self.multi and not self.simple:
                    par = z3.And(c, z3.Or([z3.And(self.Ed[a](u, v), self.Ed[b](u, v)) for a in self.Ed for b in self.Ed if str(a) < str(b)]))
                    if E.fork(quant(z3.Exists, vs, par)): raise Unsupported('removal among parallel edges')
                for key in keys:
                    if key not in self.Ed: continue
                    e0 = self.Ed[key]
                    rel = lambda a, b, vs=vs, c=c, u=u, v=v: pyfac.ex1(vs, z3.And(c, a == u, b == v))
                    if self.directed: self.Ed[key] = lambda a, b, e0=e0, rel=rel: z3.And(e0(a, b), z3.Not(rel(a, b)))
                    else: self.Ed[key] = lambda a, b, e0=e0, rel=rel: z3.And(e0(a, b), z3.Not(rel(a, b)), z3.Not(rel(b, a)))
    # -- queries
    @property
    def nodes(self): return NodeView(self)
    @property
    def edges(self): return EdgeView(self, 'all')
    def in_edges(self, nb=None, keys=False, data=False):
        return EdgeView(self, 'in')(nb, keys=keys)
    def out_edges(self, nb=None, keys=False, data=False):
        return EdgeView(self, 'out')(nb, keys=keys)
    def has_node(self, x): return mkb(self.Nd(term(x)))
    def has_edge(self, u, v, key=None):
        if key is None: return mkb(self.any_edge()(term(u), term(v)))
        return mkb(self.Ed[key](term(u), term(v))) if key in self.Ed else False
    def contains(self, x): return self.Nd(term(x)) if isinstance(x, (SE, str)) else z3.BoolVal(False)
    def __contains__(self, x): return E.fork(self.contains(x))
    def predecessors(self, x):
        t = self._need(x); ed = self.any_edge(); return PyList.of([('s', famset(lambda y: ed(y, t)))])
    def successors(self, x):
        t = self._need(x); ed = self.any_edge(); return PyList.of([('s', famset(lambda y: ed(t, y)))])
    neighbors = successors
    def _need(self, x):
        t = self._name(x)
        if not E.fork(self.Nd(t)): raise NetworkXError('The node is not in the graph')
        return t
    def _segs(self):
        f = famset(self.Nd); f.pid = posid(self); return [('s', f)]
    def _issym(self): return True
    def number_of_nodes(self): return PySet.of_pred(self.Nd).vlen()
    vlen = number_of_nodes
    def _clone(self, cls=None):
        g = (cls or type(self))(); g.Nd, g.Ed = self.Nd, dict(self.Ed); posid(self); g._pos = self._pos; g.simple = self.know_simple() and not coll.NOTES; return g
    def copy(self): return self._clone()
    def __copy__(self): return self._clone()
    def __deepcopy__(self, memo): return self._clone()
    def reverse(self, copy=True):
        g = self._clone(); 
        for k in list(g.Ed): e = g.Ed[k]; g.Ed[k] = lambda u, v, e=e: e(v, u)
        return g
    def to_undirected(self):
        g = self._clone(MultiGraph if self.multi else Graph); g._sym(); return g
    def subgraph(self, xs):
        s = as_names(xs); g = self._clone(); N = g.Nd
        g.Nd = lambda y: z3.And(N(y), s(y))
        for k in list(g.Ed): e = g.Ed[k]; g.Ed[k] = lambda u, v, e=e: z3.And(e(u, v), s(u), s(v))
        return g
    def is_directed(self): return self.directed
    def is_multigraph(self): return self.multi
    def _subst(self, p): return self

def ex_in(K, P, x):
    k = bound('k', Node); return coll.bind(z3.Exists, [k], z3.And(K(k), P(k, x)))

class MultiDiGraph(SGraph): pass
class DiGraph(SGraph): multi = False
class MultiGraph(SGraph): directed = False
class Graph(SGraph): multi, directed = False, False

def as_names(xs):
    """iterable of names -> predicate"""
    if isinstance(xs, str): 
        return PySet(list(xs)).as_pred()
    if isinstance(xs, SE): return PySet(xs).as_pred()
    if isinstance(xs, (PySet,)): return xs.as_pred()
    if isinstance(xs, SGraph): return xs.Nd
    if isinstance(xs, NodeView): return xs.g.Nd
    return PySet(xs).as_pred()

class NodeView:
    def __init__(self, g): self.g = g
    def contains(self, x): return self.g.contains(x)
    def __contains__(self, x): return E.fork(self.contains(x))
    def _segs(self): return self.g._segs()
    def _issym(self): return True
    def vlen(self): return PySet.of_pred(self.g.Nd).vlen()
    def __call__(self, *a, **k): return self
    def keys(self): return self
    def _s(self): return PySet.of_pred(self.g.Nd)
    def __sub__(self, o): return self._s().difference(o)
    def __and__(self, o): return self._s().intersection(o)
    def __or__(self, o): return self._s().union(o)
    def __eq__(self, o): return self._s() == as_set(o)
    __hash__ = None

class EdgeView:
    """live view; iterating yields one family per key"""
    def __init__(self, g, kind, nb=None, keys=False): self.g, self.kind, self.nb, self.keys = g, kind, nb, keys
    def __call__(self, nbunch=None, keys=False, data=False, default=None):
        if data: raise Unsupported('edge data')
        return EdgeView(self.g, self.kind, nbunch, keys)
    def _segs(self):
        g = self.g; out = []
        ks = [k for k in g.Ed if not self._never(k)]
        if self.nb is None: sel = lambda x: z3.BoolVal(True)
        elif isinstance(self.nb, (SE, str)):
            # a node of the graph, or an iterable of nodes
            t = term(self.nb)
            if not E.fork(g.Nd(t)):
                if isinstance(self.nb, str): sel = PySet(list(self.nb)).as_pred()
                else: sel = PySet(self.nb).as_pred()
            else: sel = lambda x: x == t
        else: sel = as_names(self.nb)
        for k in ks:
            u, v = bound('u', Node), bound('v', Node)
            c = g.Ed[k](u, v)
            if self.nb is not None: c = z3.And(c, sel(v if self.kind == 'in' else u))
            if not g.directed: raise Unsupported('edges of an undirected graph')
            c = z3.simplify(c)
            if z3.is_false(c): continue
            out.append(('s', SSeq([u, v], c, (SE(u), SE(v)) + ((k,) if self.keys and g.multi else ()))))
        return out
    def _never(self, k):
        u, v = z3.Consts('u?n v?n', Node)
        return z3.is_false(z3.simplify(self.g.Ed[k](u, v)))
    def _issym(self): return True
    def contains(self, e):
        ks = [e[2]] if len(e) == 3 and self.g.multi else list(self.g.Ed)
        return z3.Or([self.g.Ed[k](term(e[0]), term(e[1])) for k in ks if k in self.g.Ed] or [z3.BoolVal(False)])
    def __contains__(self, e): return E.fork(self.contains(e))
    def vlen(self): raise Unsupported('number of edges')

# ---- opaque graph functions (assumed contracts on networkx)
class Registry:
    """uninterpreted functions of a graph: graphs with provably equal edge relations share them"""
    def __init__(self): self.tab = []
    def get(self, kind, g, undirected_sig=False):
        """-> index of an equivalence class of graphs"""
        ks = None
        e1 = g.any_edge()
        for (kd, e2, n2, obj) in self.tab:
            if kd != kind: continue
            u, v = z3.Const('u?r', Node), z3.Const('v?r', Node)
            f = z3.And(e1(u, v) == e2(u, v), g.Nd(u) == n2(u))
            if E.implied(f, ms=3000): return obj
        o = types.SimpleNamespace(id=next(E.ctr), g=g, edge=e1, node=g.Nd)
        self.tab.append((kind, e1, g.Nd, o))
        return o

REG = [Registry()]
def reset(): REG[0] = Registry(); DUPS.clear()
E.reset_path_hooks.append(reset)

def reach_of(g):
    """Reach(u,v): there is a directed path of length >= 1 from u to v"""
    o = REG[0].get('reach', g)
    if not hasattr(o, 'reach'):
        f = z3.Function('reach!%d' % o.id, Node, Node, B); o.reach = f
        a, b, c = z3.Consts('a b c', Node)
        e = o.edge
        E.assume_global(z3.ForAll([a, b], z3.Implies(e(a, b), f(a, b))))
        E.assume_global(z3.ForAll([a, b, c], z3.Implies(z3.And(f(a, b), f(b, c)), f(a, c))))
        E.assume_global(z3.ForAll([a, b], z3.Implies(f(a, b), z3.And(z3.Exists([c], e(a, c)), z3.Exists([c], e(c, b))))))
        E.assumed.add('networkx.ancestors/descendants return the proper ancestors/descendants (reachability by >=1 edges, excluding the node itself)')
    return o.reach

def ancestors(g, x):
    t = g._need(x); f = reach_of(g)
    return PySet.of_pred(lambda y: z3.And(f(y, t), y != t))
def descendants(g, x):
    t = g._need(x); f = reach_of(g)
    return PySet.of_pred(lambda y: z3.And(f(t, y), y != t))

def is_directed_acyclic_graph(g):
    f = reach_of(g); a = z3.Const('a', Node)
    E.assumed.add('networkx.is_directed_acyclic_graph: true iff no node reaches itself')
    return mkb(z3.ForAll([a], z3.Not(f(a, a))))

def dsep_of(g):
    o = REG[0].get('dsep', g)
    if not hasattr(o, 'ds'):
        o.ds = z3.Function('dsep!%d' % o.id, coll.SetS, coll.SetS, coll.SetS, B)
        E.assumed.add('networkx.d_separated(G,x,y,z) decides d-separation in the DAG G (uninterpreted relation of the graph and three sets)')
    return o.ds
def d_separated(g, x, y, z):
    x, y, z = as_nodeset(x), as_nodeset(y), as_nodeset(z)
    f = dsep_of(g)
    return mkb(f(x.as_array(), y.as_array(), z.as_array()))
is_d_separator = d_separated
def as_nodeset(x):
    if isinstance(x, (str, SE)): return PySet([x])
    return x if isinstance(x, PySet) else PySet(x)

def connected_components(g):
    """components of an undirected graph: a set of node sets"""
    if g.directed: raise NXError('not implemented for directed type')
    f = conn_of(g)
    N = g.Nd
    r = bound('r', Node)
    # one component per class; a canonical representative picks each class once
    rep = z3.Function('rep!%d' % REG[0].get('conn', g).id, Node, Node)
    a, b = z3.Consts('a b', Node)
    E.assume_global(z3.ForAll([a], z3.Implies(N(a), z3.And(f(a, rep(a)), N(rep(a))))))
    E.assume_global(z3.ForAll([a, b], z3.Implies(z3.And(N(a), N(b), f(a, b)), rep(a) == rep(b))))
    return PyList.of([('s', SSeq([r], z3.And(N(r), rep(r) == r), PySet.of_pred(lambda y: z3.And(N(y), f(r, y)))))])
def conn_of(g):
    o = REG[0].get('conn', g)
    if not hasattr(o, 'conn'):
        f = z3.Function('conn!%d' % o.id, Node, Node, B); o.conn = f
        a, b, c = z3.Consts('a b c', Node); e, N = o.edge, o.node
        E.assume_global(z3.ForAll([a], f(a, a)))
        E.assume_global(z3.ForAll([a, b], f(a, b) == f(b, a)))
        E.assume_global(z3.ForAll([a, b, c], z3.Implies(z3.And(f(a, b), f(b, c)), f(a, c))))
        E.assume_global(z3.ForAll([a, b], z3.Implies(z3.Or(e(a, b), e(b, a)), f(a, b))))
        E.assume_global(z3.ForAll([a, b], z3.Implies(z3.And(f(a, b), a != b), z3.And(z3.Exists([c], z3.Or(e(a, c), e(c, a))), z3.Exists([c], z3.Or(e(b, c), e(c, b)))))))
        E.assumed.add('networkx.connected_components partitions the nodes into the classes of the connectivity relation')
    return o.conn

def topological_sort(g):
    E.assumed.add('networkx.topological_sort yields every node once, each after all its predecessors')
    n = E.fresh('ntopo', I); el = E.fresh_fn('topo', I, Node); pos = E.fresh_fn('pos', Node, I)
    N, ed = g.Nd, g.any_edge(); a, b = z3.Consts('a b', Node); i = z3.Const('i', I)
    E.assume_global(n >= 0)
    E.assume_global(z3.ForAll([a], z3.Implies(N(a), z3.And(pos(a) >= 0, pos(a) < n, el(pos(a)) == a))))
    E.assume_global(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(N(el(i)), pos(el(i)) == i))))
    E.assume_global(z3.ForAll([a, b], z3.Implies(ed(a, b), pos(a) < pos(b))))
    k = bound('k', I)
    l = PyList.of([('s', SSeq([k], z3.And(k >= 0, k < n), SE(el(k)), n, True))])
    return l

def to_numpy_array(g, nodelist=None, dtype=None, weight='weight', **kw):
    """adjacency as an array over node *positions*; multi-edges add up"""
    return NodeMatrix(g)

class NodeMatrix:
    """numpy adjacency matrix indexed by the position of nodes in list(g.nodes); entries counted over keys"""
    def __init__(self, g, ent=None, pid=None):
        self.g = g; self.pid = pid or posid(g)
        self.ent = ent or (lambda u, v: z3.Sum([z3.If(e(u, v), z3.IntVal(1), z3.IntVal(0)) for e in g.Ed.values()]))
    @property
    def T(self): e = self.ent; return type(self)(self.g, lambda u, v: e(v, u), self.pid)
    @property
    def A(self): raise AttributeError("'numpy.ndarray' object has no attribute 'A'")
    def _cmp(self, o, f):
        e = self.ent; c = term(o)
        return NodeMask(self.g, lambda u, v: f(e(u, v), c) if c.sort() == I else f(z3.ToReal(e(u, v)), c), self.pid)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    __hash__ = None
    def copy(self): return self
    def __getitem__(self, i):
        if isinstance(i, tuple):
            return val(self.ent(self.pid.node(i[0]), self.pid.node(i[1])))
        return _Row(self, i)
class _Row:
    def __init__(self, m, i): self.m, self.i = m, i
    def __getitem__(self, j): return val(self.m.ent(self.m.pid.node(self.i), self.m.pid.node(j)))
class NodeMask(NodeMatrix):
    def __and__(self, o): a, b = self.ent, o.ent; return NodeMask(self.g, lambda u, v: z3.And(a(u, v), b(u, v)), self.pid)
    def __or__(self, o): a, b = self.ent, o.ent; return NodeMask(self.g, lambda u, v: z3.Or(a(u, v), b(u, v)), self.pid)
class PosId:
    """the iteration order of the nodes of a graph in one state"""
    def __init__(self):
        k = next(E.ctr); self.pos = z3.Function('nodepos!%d' % k, Node, I); self.at = z3.Function('nodeat!%d' % k, I, Node)
        self.known = False
    def facts(self):
        if not self.known:
            self.known = True; a = z3.Const('a', Node); E.assume_global(z3.ForAll([a], self.at(self.pos(a)) == a))
    def node(self, i):
        t = term(i)
        if z3.is_app(t) and t.decl().eq(self.pos): return t.arg(0)
        self.facts(); return self.at(t)
def posid(g):
    if getattr(g, '_pos', None) is None or g._pos[1] is not g.Nd: g._pos = (PosId(), g.Nd)
    return g._pos[0]
def node_where(m):
    """np.where on a node mask: rows and columns of the true entries, in row-major order"""
    u, v = bound('u', Node), bound('v', Node); c = m.ent(u, v); N = m.g.Nd; pid = m.pid; pid.facts()
    c = z3.And(N(u), N(v), c); POS = pid.pos
    order = lambda x, y: z3.Or(POS(x[0]) < POS(y[0]), z3.And(x[0] == y[0], POS(x[1]) <= POS(y[1])))
    mk = lambda t: PyList.of([('s', SSeq([u, v], c, val(POS(t)), order=order))])
    return (mk(u), mk(v))
class NodeList(PyList): pass
def nodes_list_get(seq, i): pass

PathS = z3.DeclareSort('Path')
PLEN = z3.Function('path_len', PathS, I); PEL = z3.Function('path_at', PathS, I, Node)
def path_list(p):
    k = bound('k', I); return PyList.of([('s', SSeq([k], z3.And(k >= 0, k < PLEN(p)), SE(PEL(p, k)), PLEN(p), True))])
_SP = []
E.reset_path_hooks.append(lambda: _SP.clear())
def simple_path_rel(g):
    """the relation 'p is a simple path from s to t' of a graph, a function of its edges"""
    u, v = z3.Const('q0', Node), z3.Const('q1', Node); ed = g.any_edge()
    key = z3.simplify(ed(u, v))
    if pyfac._occurs(key, {w.decl().name() for w in E.loopvars}): raise Unsupported('paths of a graph that varies in a loop')
    for k0, f in _SP:
        if z3.eq(k0, key) or E.implied(k0 == key, ms=3000): return f
    f = z3.Function('simple_path!%d' % len(_SP), PathS, Node, Node, B); _SP.append((key, f))
    p, i, j = z3.Const('p', PathS), z3.Const('i', I), z3.Const('j', I)
    E.assumed.add('networkx.all_simple_paths yields exactly the sequences of distinct nodes from s to t whose consecutive nodes are joined by an edge')
    E.assume_global(z3.ForAll([p, u, v], z3.Implies(f(p, u, v), z3.And(PLEN(p) >= 1, PEL(p, 0) == u, PEL(p, PLEN(p) - 1) == v))))
    E.assume_global(z3.ForAll([p, u, v, i], z3.Implies(z3.And(f(p, u, v), i >= 0, i < PLEN(p) - 1), ed(PEL(p, i), PEL(p, i + 1)))))
    E.assume_global(z3.ForAll([p, u, v, i, j], z3.Implies(z3.And(f(p, u, v), i >= 0, i < j, j < PLEN(p)), PEL(p, i) != PEL(p, j))))
    return f
def all_simple_paths(g, source, target, cutoff=None):
    """family of opaque simple paths"""
    if isinstance(target, PySet): raise Unsupported('all_simple_paths')
    s, t = term(source), term(target)
    if not E.fork(g.Nd(s)): raise NodeNotFound('source')
    if not E.fork(g.Nd(t)): raise NodeNotFound('target')
    f = simple_path_rel(g); p = z3.Const('p?%d' % next(E.ctr), PathS)
    c = f(p, s, t) if cutoff is None else z3.And(f(p, s, t), PLEN(p) <= numterm(cutoff) + 1)
    return PyList.of([('s', SSeq([p], c, path_list(p)))])
def all_pairs(*a, **k): raise Unsupported('networkx')
def is_path(g, p):
    """every two consecutive nodes are joined by an edge"""
    s = pyfac.single_seq(p) if is_sym_iter(p) else None
    ed = g.any_edge()
    if s is None:
        l = [v for k, v in seq_of(p)]
        return mkb(z3.And([ed(term(x), term(y)) for x, y in zip(l, l[1:])] or [z3.BoolVal(True)]))
    if not s.dense: raise Unsupported('is_path')
    i = bound('i', I)
    return mkb(coll.bind(z3.ForAll, [i], z3.Implies(z3.And(i >= 0, i < s.n - 1), ed(term(s.inst([i])[2]), term(s.inst([i + 1])[2])))))

def make_nx():
    import sys
    m = types.ModuleType('networkx')
    for n in ('MultiDiGraph', 'DiGraph', 'MultiGraph', 'Graph', 'ancestors', 'descendants', 'is_directed_acyclic_graph', 'd_separated',
              'is_d_separator', 'connected_components', 'topological_sort', 'to_numpy_array', 'all_simple_paths', 'is_path', 'NetworkXError', 'NodeNotFound', 'NetworkXNoPath'):
        setattr(m, n, globals()[n])
    def __getattr__(a):
        if a.startswith('__'): raise AttributeError(a)
        if a in ('to_numpy_matrix',): raise AttributeError("module 'networkx' has no attribute 'to_numpy_matrix'")
        return _Unk('networkx.' + a)
    m.__getattr__ = __getattr__
    m.exception = types.SimpleNamespace(NetworkXError=NetworkXError)
    return m
class _Unk:
    def __init__(self, n): self.n = n
    def __call__(self, *a, **k): raise Unsupported('unmodelled %s' % self.n)
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return _Unk(self.n + '.' + a)

def make_minimal_numpy():
    m = types.ModuleType('numpy')
    def where(c, *a):
        if isinstance(c, NodeMask) and not a: return node_where(c)
        raise Unsupported('numpy.where')
    m.where = where; m.nonzero = where
    m.ndarray = _NoArr
    for n in ('float64', 'int64', 'float32', 'int32', 'bool_'): setattr(m, n, n)
    m.random = types.SimpleNamespace(seed=lambda *a: None)
    def __getattr__(a):
        if a.startswith('__'): raise AttributeError(a)
        return _Unk('numpy.' + a)
    m.__getattr__ = __getattr__
    return m
class _NoArr: pass
