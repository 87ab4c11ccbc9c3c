"""C15: the structure a discovery method returns."""
import types
import z3
from vp.core import *
from vp.core import E
from vp.coll import *
from vp.coll import SSeq, bound
from vp import mat, pyfac, coll, xform
from vp.mat import Mat, Frame, Data

NUMERIC = False
LEVEL = 'proof'
F = 'ylearn/causal_discovery/'
FUNCTIONS = [F + '_base.py:BaseDiscovery.trim_cycle', F + '_base.py:BaseDiscovery.matrix2dict', F + '_base.py:BaseDiscovery.matrix2array', F + '_base.py:BaseDiscovery.matrix2df',
             F + '_discovery.py:CausalDiscovery.__call__', F + '_discovery.py:CausalDiscovery._to_dag', F + '_discovery.py:GolemDiscovery.__call__', F + '_discovery.py:GolemDiscovery._to_dag',
             F + '_discovery.py:DagmaDiscovery.__call__', F + '_discovery.py:DagmaDiscovery._to_dag', F + '_dydiscovery.py:DyCausalDiscovery.__call__', F + '_dydiscovery.py:DyCausalDiscovery._to_dag',
             F + '_dydiscovery.py:DygolemCausalDiscovery.__call__', F + '_dydiscovery.py:DygolemCausalDiscovery._to_dag']
ASSUMPTIONS = ['training (torch networks, optimisers, scalers) is abstracted: any real weight matrix may be learned; weights are finite',
               'floats are treated as mathematical reals',
               'networkx: from_numpy_array makes an arc for every non-zero entry; has_path, is_directed_acyclic_graph, dfs_edges and all_shortest_paths mean what their documentation says',
               'reachability is used through closure under arcs, reflexivity and transitivity; a path lies within the reachability relations that contain its arcs (induction along the path, part of the path contract)',
               'names of columns are distinct']
BOUND = 'random signed and unsigned matrices of up to 7 variables, real training on tiny data'

class Ctx: pass
class Null:
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return Null()
    def __call__(self, *a, **k): return Null()

def setup(L):
    L.facades.update({'numpy': mat.numpy_facade(), 'pandas': mat.pandas_facade(), 'networkx': mat.networkx_facade()})
    x = Ctx(); x.L = L
    x.b = L.load('ylearn.causal_discovery._base'); x.Base = x.b.BaseDiscovery
    x.d = L.load('ylearn.causal_discovery._discovery'); x.y = L.load('ylearn.causal_discovery._dydiscovery')
    for m in (x.d, x.y): m.logger = Null(); m.tqdm = Null(); m.torch = Null(); m.set_random_state = lambda *a, **k: None
    return x

a, b, c = z3.Ints('a b c')
def size():
    n = z3.Int('n'); E.assume(n >= 0); return n
def matrix(n, name='M', boolean=False):
    f = z3.Function(name, I, I, R); return Mat(n, lambda i, j: f(i, j))
def inr(n, *xs): return z3.And([z3.And(x >= 0, x < n) for x in xs])
def ab(t): return z3.If(t >= 0, t, -t)
def all2(n, f): return z3.ForAll([a, b], z3.Implies(inr(n, a, b), f(a, b)))
def labels(n):
    nm = z3.Function('label', I, Node); k = bound('k', I)
    E.assume(z3.ForAll([a, b], z3.Implies(z3.And(inr(n, a, b), nm(a) == nm(b)), a == b)))
    l = PyList.of([('s', SSeq([k], z3.And(k >= 0, k < n), SE(nm(k)), n, True))])
    return nm, l

def arcs(n, f): return lambda i, j: z3.And(inr(n, i, j), f(i, j) != 0)
def weight(f): return lambda i, j: ab(f(i, j))

def is_mat(r): return isinstance(r, Mat) and not r.boolean
def acyclic(n, f):
    H = arcs(n, f); r = mat.reach_of(n, H)
    return z3.ForAll([a, b], z3.Implies(H(a, b), z3.Not(r(b, a))))

# ---------------------------------------------------------------- trim_cycle
def trim_post(n, m, r, pre=''):
    E.prove(pre + 'entries are zero or the weights given', all2(n, lambda i, j: z3.Or(r(i, j) == 0, r(i, j) == m(i, j))))
    E.prove(pre + 'the result has no directed cycle', acyclic(n, r))
    bn = mat.bottleneck_of(n, arcs(n, m), weight(m))
    E.prove(pre + 'an arc that vanishes is a lightest arc of a cycle', all2(n, lambda i, j: z3.Implies(z3.And(m(i, j) != 0, r(i, j) == 0), bn(ab(m(i, j)), j, i))))

def trim(x):
    n = size(); M = matrix(n); m0 = M.fn
    mat.reach_of(n, arcs(n, m0)); mat.bottleneck_of(n, arcs(n, m0), weight(m0))
    E.while_contract = mat.Trim()
    try: r = x.Base.trim_cycle(M)
    finally: E.while_contract = None
    E.prove('a matrix of the same size', z3.BoolVal(is_mat(r) and z3.eq(r.n, n)))
    trim_post(n, m0, r.fn)
    E.prove('the argument is left alone', all2(n, lambda i, j: M.fn(i, j) == m0(i, j)))

class Trimmed:
    """contract of trim_cycle for its callers"""
    def __init__(self): self.calls = []
    def __call__(self, m):
        if not is_mat(m): raise Unsupported('trim_cycle of %s' % type(m).__name__)
        n, f = m.n, m.fn; g = E.fresh_fn('dag', I, I, R); r = Mat(n, lambda i, j: g(i, j))
        self.calls.append((f, r)); return r

# ---------------------------------------------------------------- matrix2dict, matrix2array, matrix2df
def frame(n, M): 
    nm, l = labels(n); return nm, l, Frame(M, index=l, columns=l)

def todict(x, kind, depth):
    n = size(); M = matrix(n); H = arcs(n, M.fn); r = mat.reach_of(n, H)
    kw = {}
    if kind == 'array': arg, key = M, lambda i: i
    elif kind == 'frame': nm, l, arg = frame(n, M); key = nm
    else: nm, l = labels(n); arg, key = M, nm; kw['names'] = l
    if depth is not None: kw['depth'] = depth
    f0 = M.fn
    d = x.Base.matrix2dict(arg, **kw)
    l = d.items()
    if l.segs is None: E.prove('the empty matrix', n == 0) if not list(l) else E.prove('one entry per variable', False); return
    j, k = z3.Ints('j k')
    E.prove('one entry per variable', z3.ForAll([j], z3.Implies(inr(n, j), d.keys().contains(val(key(j))))))
    for _, s in l.segs:
        vs, cond, (kk, vv) = s.inst()
        E.prove('keys are the variables', z3.ForAll(vs, z3.Implies(cond, z3.Exists([j], z3.And(inr(n, j), key(j) == term(kk))))))
        want = (lambda i, q: H(q, i)) if depth == 1 else (lambda i, q: r(q, i))
        E.prove('the value lists ' + ('the direct causes' if depth == 1 else 'the ancestors'),
                z3.ForAll(list(vs) + [j, k], z3.Implies(z3.And(cond, inr(n, j, k), key(j) == term(kk)), vv.contains(val(key(k))) == z3.And(j != k, want(j, k)))))
        E.prove('and nothing else', vv_within(n, vs, cond, vv, key))
    E.prove('the argument is left alone', all2(n, lambda i, q: M.fn(i, q) == f0(i, q)))

def vv_within(n, vs, cond, vv, key):
    q = z3.Int('q'); gs = []
    for k, e in seq_of(vv):
        if k == 'c': gs.append(z3.ForAll(list(vs), z3.Implies(cond, z3.Exists([q], z3.And(inr(n, q), key(q) == term(e)))))); continue
        ws, c2, ee = e.inst(); gs.append(z3.ForAll(list(vs) + list(ws), z3.Implies(z3.And(cond, c2), z3.Exists([q], z3.And(inr(n, q), key(q) == term(ee))))))
    return z3.And(gs) if gs else z3.BoolVal(True)

def toarray(x, kind, df=False):
    n = size(); M = matrix(n); f0 = M.fn; kw = {}
    if kind == 'array': arg, key = M, lambda i: i
    elif kind == 'frame': nm, l, arg = frame(n, M); key = nm
    else: nm, l = labels(n); arg, key = M, nm; kw['names'] = l
    r = (x.Base.matrix2df if df else x.Base.matrix2array)(arg, **kw)
    if df:
        E.prove('a table from, to, prob', z3.BoolVal(isinstance(r, Frame) and r.rows is not None and list(r.columns.l) == ['from', 'to', 'prob'])); r = r.rows
    S = [(k, e) for k, e in seq_of(r) if k == 'c' or not E.implied(none(e))]
    i, j = z3.Ints('i j')
    def has(p, q, v):
        out = []
        for k, e in S:
            if k == 'c': vs, cond, el = [], z3.BoolVal(True), e
            else: vs, cond, el = e.inst()
            body = z3.And(cond, term(el[0]) == key(p), term(el[1]) == key(q), real(numterm(el[2])) == v)
            out.extend(z3.substitute(body, *zip(vs, w)) for w in witnesses(vs, el, p, q)) if len(vs) == 2 else out.append(ex(vs, body))
        return z3.Or(out or [z3.BoolVal(False)])
    E.prove('every pair is listed', z3.ForAll([i, j], z3.Implies(z3.And(inr(n, i, j), i < j), z3.Or(has(i, j, f0(i, j)), has(j, i, f0(j, i))))))
    for k, e in S:
        vs, cond, el = e.inst() if k == 's' else ([], z3.BoolVal(True), e)
        E.prove('a listed direction is the stronger one of a pair, with its weight',
            fa(list(vs) + [i, j], z3.Implies(z3.And(cond, inr(n, i, j), term(el[0]) == key(i), term(el[1]) == key(j)), z3.And(i != j, real(numterm(el[2])) == f0(i, j), ab(f0(i, j)) >= ab(f0(j, i))))))
        p, q = z3.Ints('p q')
        E.prove('listed names are variables', fa(list(vs), z3.Implies(cond, z3.Exists([p, q], z3.And(inr(n, p, q), term(el[0]) == key(p), term(el[1]) == key(q))))))
        ws, c2, e2 = e.inst() if k == 's' else ([], z3.BoolVal(True), e)
        same = z3.Or(z3.And(term(el[0]) == term(e2[0]), term(el[1]) == term(e2[1])), z3.And(term(el[0]) == term(e2[1]), term(el[1]) == term(e2[0])))
        E.prove('a pair is listed once', fa(list(vs) + list(ws), z3.Implies(z3.And(cond, c2, same), z3.And([u == w for u, w in zip(vs, ws)]))))
    if len(S) > 1: raise Unsupported('list in several parts')
    E.prove('the argument is left alone', all2(n, lambda i, q: M.fn(i, q) == f0(i, q)))
def none(e):
    vs, cond, _ = e.inst(); return fa(list(vs), z3.Not(cond))
def leaves(t):
    t = term(t)
    if z3.is_app_of(t, z3.Z3_OP_ITE): return leaves(t.arg(1)) + leaves(t.arg(2))
    if z3.is_app(t) and t.decl().name() == 'label': return leaves(t.arg(0))
    return [t]
def witnesses(vs, el, p, q):
    """iterations that may list the pair (p, q)"""
    ls = []
    for t in leaves(el[0]) + leaves(el[1]):
        if not any(z3.eq(t, u) for u in ls): ls.append(t)
    out = []
    for s in ls:
        for t in ls:
            for x, y in ((0, 1), (1, 0)):
                for (f, fv), (g, gv) in (((s, p), (t, q)), ((t, q), (s, p))):
                    u = mat.solve(f, fv, vs[x]); w = u is not None and not pyfac._occurs(u, {vs[y].decl().name()}) and mat.solve(z3.substitute(g, (vs[x], u)), gv, vs[y])
                    if w is not None and w is not False: out.append([u, w] if x == 0 else [w, u])
    return out
def ex(vs, t): return z3.Exists(vs, t) if vs else t
def fa(vs, t): return z3.ForAll(vs, t) if vs else t

# ---------------------------------------------------------------- the methods
class Learned:
    """a trained network: any weights"""
    def __init__(self, m): self.m = m; self.w_est = self
    def get_W(self): return self.m
    def detach(self): return self
    def cpu(self): return self
    def numpy(self): return self.m
    def parameters(self): return Null()
    def is_weight_nan(self): return False
class Lags:
    def __init__(self): self.n_ = 0
    def detach(self): return self
    def cpu(self): return self
    def numpy(self): return self
    def __getitem__(self, m): return self
    def __setitem__(self, m, v): pass
    def __abs__(self): return self
    def __lt__(self, t): return self

METHODS = {'CausalDiscovery': ('d', 'DagNet', False), 'GolemDiscovery': ('d', 'Golem', True), 'DagmaDiscovery': ('d', 'Dagma', True),
           'DyCausalDiscovery': ('y', 'Dynotears', False), 'DygolemCausalDiscovery': ('y', 'Dynotears', False)}

def call(x, cls, out, threshold):
    """__call__: thresholding, the weaker direction of each pair, trim_cycle (by contract), labels"""
    modn, net, binary = METHODS[cls]; mod = getattr(x, modn); C = getattr(mod, cls); dy = modn == 'y'
    n = size(); E.assume(n >= 1); W = matrix(n, 'W'); w0 = W.fn
    rows = z3.Int('rows'); E.assume(rows >= 1)
    data = Data(rows, n)
    frm = out != 'array'
    if frm: nm, l = labels(n); data = Frame(data, columns=l)
    o = object.__new__(C)
    for k, v in dict(hidden_layer_dim=None, lambdaa=0.01, lambdab=0.01, lambdac=0.5, h_tol=1e-6, rho_max=1e6, scale=None, device='cpu', dtype=None, random_state=None, equal_variances=True, T=5, lr=.1, mu_init=1., mu_factor=.1, s=PyList([1.0]), warm_iter=1, max_iter=1).items(): o.__dict__[k] = v
    L = Learned(W); L.p_est = Lags()
    keep = {k: getattr(mod, k) for k in ('DagNet', 'Golem', 'Dagma', 'Dynotears', 'DyGolem') if hasattr(mod, k)}
    T = Trimmed(); old = x.Base.__dict__['trim_cycle']; x.Base.trim_cycle = staticmethod(T)
    f3 = lambda s='h': SN(E.fresh(s, R))
    o.__dict__['_rho_h_update'] = lambda *a, **k: (f3('rho'), f3('alpha'), f3('h'))
    o.__dict__['_update'] = lambda *a, **k: (f3(), f3(), f3())
    o.__dict__['train'] = lambda *a, **k: L if cls == 'DagmaDiscovery' else f3()
    kw = dict(return_dict=out == 'dict', verbose=False)
    if cls == 'DagmaDiscovery': pass
    else: kw['epoch'] = 1
    if threshold == 'given': t = z3.Real('threshold'); E.assume(t >= 0); kw['threshold'] = SN(t)
    elif threshold == 'none': kw['threshold'] = None; t = None
    got = {}
    od = x.Base.__dict__['matrix2dict']
    def m2d(m, names=None, depth=None): got['dict'] = (m, names, depth); return PyDict()
    if out == 'dict': x.Base.matrix2dict = staticmethod(m2d)
    try:
        for k in keep: setattr(mod, k, lambda *a, **k: L)
        r = o(data, **kw)
    finally:
        for k, v in keep.items(): setattr(mod, k, v)
        x.Base.trim_cycle = old; x.Base.matrix2dict = od
    if dy:
        E.prove('the weights and the lagged weights', z3.BoolVal(isinstance(r, tuple) and len(r) == 2 and r[1] is L.p_est)); r = r[0]
    if len(T.calls) != 1: raise Unsupported('trim_cycle called %d times' % len(T.calls))
    P, D = T.calls[0]
    # the matrix handed to trim_cycle
    def th(i, j):
        v = w0(i, j)
        if t is None: return v
        u = z3.If(ab(v) < t, z3.RealVal(0), v)
        return z3.If(ab(v) > t, z3.RealVal(1), u) if binary else u
    E.prove('no self loop', z3.ForAll([a], z3.Implies(inr(n, a), P(a, a) == 0)))
    E.prove('entries are zero or the learned weights' + (', one above the threshold' if binary and t is not None else ''), all2(n, lambda i, j: z3.Or(P(i, j) == 0, P(i, j) == th(i, j))))
    if t is not None: E.prove('weights below the threshold vanish', all2(n, lambda i, j: z3.Implies(ab(w0(i, j)) < t, P(i, j) == 0)))
    E.prove('the weaker direction of a pair vanishes, the stronger one stays', all2(n, lambda i, j: z3.Implies(z3.And(i != j, ab(th(i, j)) > ab(th(j, i))), z3.And(P(i, j) == th(i, j), P(j, i) == 0))))
    E.prove('one direction of two equally strong ones stays', all2(n, lambda i, j: z3.Implies(z3.And(i != j, ab(th(i, j)) == ab(th(j, i))), z3.Or(z3.And(P(i, j) == th(i, j), P(j, i) == 0), z3.And(P(i, j) == 0, P(j, i) == th(j, i))))))
    # the value returned
    if out == 'dict' and not dy:
        if 'dict' not in got: raise Unsupported('matrix2dict not used')
        m, names, depth = got['dict']
        E.prove('the dictionary of ancestors', z3.BoolVal(names is None and depth is None)); r = m
    if frm and not dy:
        E.prove('a frame', z3.BoolVal(isinstance(r, Frame)))
        k = z3.Int('k')
        for ax, lab in (('columns', r.columns), ('index', r.index)):
            sg = seq_of(lab)
            if len(sg) != 1 or sg[0][0] != 's' or not sg[0][1].dense: raise Unsupported('labels')
            s = sg[0][1]
            E.prove(ax + ' are the columns of the data', z3.And(s.n == n, z3.ForAll([k], z3.Implies(inr(n, k), term(s.inst([k])[2]) == nm(k)))))
        r = r.mat
    E.prove('the matrix without cycles is returned', z3.And(z3.BoolVal(is_mat(r)), all2(n, lambda i, j: r.fn(i, j) == D.fn(i, j)) if is_mat(r) else z3.BoolVal(False)))

HARNESS = {'trim_cycle': trim}
for _k in ('array', 'frame', 'names'):
    for _d in (None, 1): HARNESS['matrix2dict %s depth=%s' % (_k, _d)] = lambda x, _k=_k, _d=_d: todict(x, _k, _d)
    HARNESS['matrix2array %s' % _k] = lambda x, _k=_k: toarray(x, _k)
    HARNESS['matrix2df %s' % _k] = lambda x, _k=_k: toarray(x, _k, True)
for _c in METHODS:
    for _o in ('array', 'frame', 'dict'):
        for _t in ('given', 'none'):
            HARNESS['%s %s threshold %s' % (_c, _o, _t)] = lambda x, _c=_c, _o=_o, _t=_t: call(x, _c, _o, _t)
