"""Facades of standard-library and third-party modules (assumed contracts live here)."""
import types, itertools as _it, functools as _ft, collections as _co, operator as _op
import z3
from .core import *
from .core import E, eq, tob, term, val, mkb
from . import coll, pyfac, graphdom
from .coll import PyList, PySet, PyDict, SSeq, bound, quant, seq_of, is_sym_iter, as_set, OrderedDict, DefaultDict, Counter
from .pyfac import vdeepcopy, vcopy

def mod(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items(): setattr(m, k, v)
    def __getattr__(a, name=name):
        if a.startswith('__'): raise AttributeError(a)
        return graphdom._Unk(name + '.' + a)
    m.__getattr__ = __getattr__
    return m

class SubsetTuple:
    """a combination: a subset of names of a given size, as a tuple in arbitrary order"""
    def __init__(self, z): self.z = z
    def _segs(self): y = bound('y', Node); return [('s', SSeq([y], z3.Select(self.z, y), SE(y)))]
    def _issym(self): return True
    def contains(self, x): return z3.Select(self.z, term(x))
    def __contains__(self, x): return E.fork(self.contains(x))
    def vlen(self): return val(coll.CARD(self.z))
    def _subst(self, p): return SubsetTuple(z3.substitute(self.z, *p))
    def _terms(self): return [self.z]
    def _asset(self): return PySet.of_arr(self.z)

_oldaddall = PySet._addall
_oldinit = PySet.__init__
def _init(self, it=()):
    if isinstance(it, SubsetTuple):
        _oldinit(self); a = it.z; self.items = None; self.pred = lambda x: z3.Select(a, x); self.arr = a
    else: _oldinit(self, it)
PySet.__init__ = _init

def combinations(xs, r):
    if not is_sym_iter(xs) and isinstance(r, int):
        return PyList([tuple(c) for c in _it.combinations([v for _, v in seq_of(xs)], r)])
    if not is_sym_iter(xs):
        c = r.concrete() if isinstance(r, SN) else None
        if c is not None: return combinations(xs, c)
    if isinstance(r, int) and r == 2 and is_sym_iter(xs):
        s = pyfac.single_seq(xs)
        if s is not None and s.dense:
            a, b = bound('a', I), bound('b', I)
            return PyList.of([('s', SSeq([a, b], z3.And(a >= 0, a < b, b < s.n), (s.inst([a])[2], s.inst([b])[2])))])
        if s is not None:
            # unordered family: each unordered pair once, in an arbitrary fixed order of the members
            va, ca, ea = s.inst(); vb, cb, eb = s.inst()
            lt = E.fresh_fn('before', *[v.sort() for v in va + vb], B)
            x, y = list(va), list(vb)
            E.assume(z3.ForAll(x + y, z3.Implies(z3.Or([p != q for p, q in zip(x, y)]), z3.Xor(lt(*x, *y), lt(*y, *x)))))
            E.assume(z3.ForAll(x, z3.Not(lt(*x, *x))))
            return PyList.of([('s', SSeq(x + y, z3.And(ca, cb, lt(*x, *y)), (ea, eb)))])
    p = PySet(xs)
    if p.segs is not None: raise Unsupported('combinations')
    q = p.as_pred(); z = bound('z', coll.SetS); y = bound('y', Node)
    zz = z3.Const('zz', coll.SetS); yy = z3.Const('yy', Node)
    whole = p.as_array()
    E.assume_global(z3.ForAll([zz], z3.Implies(z3.ForAll([yy], z3.Implies(z3.Select(zz, yy), q(yy))), z3.And(coll.CARD(zz) >= 0, coll.CARD(zz) <= coll.CARD(whole)))))
    c = z3.And(coll.bind(z3.ForAll, [y], z3.Implies(z3.Select(z, y), q(y))), coll.CARD(z) == term(r))
    E.assumed.add('itertools.combinations(s, r) yields every r-element subset of s exactly once (s without duplicates)')
    return PyList.of([('s', SSeq([z], c, SubsetTuple(z)))])

def chain(*its):
    out = []
    for x in its: out.extend(seq_of(x))
    return PyList.of(out)
def _from_iterable(its):
    if is_sym_iter(its): return pyfac.flat(PyList(its))
    return chain(*[v for _, v in seq_of(its)])
chain.from_iterable = _from_iterable

def product(*its, repeat=1):
    its = list(its) * repeat
    if any(is_sym_iter(x) for x in its):
        if len(its) == 2:
            return pyfac.flat(pyfac.listcomp(its[0], lambda a: pyfac.listcomp(its[1], lambda b: (a, b))))
        raise Unsupported('product')
    return PyList([tuple(t) for t in _it.product(*[[v for _, v in seq_of(x)] for x in its])])
def permutations(xs, r=None):
    if is_sym_iter(xs): raise Unsupported('permutations')
    return PyList([tuple(t) for t in _it.permutations([v for _, v in seq_of(xs)], r)])

itertools = mod('itertools', combinations=combinations, chain=chain, product=product, permutations=permutations, count=_it.count,
                repeat=_it.repeat, islice=_it.islice, accumulate=_it.accumulate, starmap=_it.starmap, groupby=_it.groupby, zip_longest=_it.zip_longest)
collections = mod('collections', defaultdict=DefaultDict, OrderedDict=OrderedDict, Counter=Counter, namedtuple=_co.namedtuple, deque=_co.deque)
import collections.abc as _abc
collections.abc = _abc
copy = mod('copy', deepcopy=vdeepcopy, copy=vcopy)

def vreduce(f, it, *init):
    if is_sym_iter(it): raise Unsupported('reduce')
    return _ft.reduce(f, [v for _, v in seq_of(it)], *init)
functools = mod('functools', partial=_ft.partial, wraps=_ft.wraps, reduce=vreduce, lru_cache=_ft.lru_cache, cached_property=_ft.cached_property, update_wrapper=_ft.update_wrapper, total_ordering=_ft.total_ordering, singledispatch=_ft.singledispatch, cmp_to_key=_ft.cmp_to_key)

def base_facades():
    nx = graphdom.make_nx()
    return {'itertools': itertools, 'collections': collections, 'collections.abc': _abc, 'copy': copy, 'functools': functools,
            'networkx': nx, 'numpy': graphdom.make_minimal_numpy()}
