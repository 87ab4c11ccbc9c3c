"""Mechanical transformation of the repository's source so that it runs on symbolic values, and its loader.

Nothing of the code is dropped: every statement of the file is kept; displays, comprehensions, for loops inside
functions, f-strings, attribute stores and super() are routed through the engine."""
import ast, builtins, os, sys, types, importlib
from .core import *
from .core import E
from . import pyfac, coll

def assigned_names(stmts):
    out = set()
    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n): out.add(n.name); [self.visit(d) for d in n.decorator_list]
        visit_AsyncFunctionDef = visit_FunctionDef
        def visit_ClassDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr): out.add(w.target.id)
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        def visit_ExceptHandler(self, n):
            if n.name: out.add(n.name)
            self.generic_visit(n)
        def visit_Import(self, n):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
    v = V()
    for s in stmts: v.visit(s)
    return out

def has_yield(stmts):
    for s in stmts:
        st = [s]
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)): return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef, ast.GeneratorExp)): continue
            st.extend(ast.iter_child_nodes(n))
    return False

def N(id, ctx=None): return ast.Name(id, ctx or ast.Load())
def call(f, *a): return ast.Call(ast.Attribute(N('_vp_'), f, ast.Load()), list(a), [])
def lam(args, body): return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)

class Live:
    """structured backward liveness over a function body; records the names live after every for loop"""
    def __init__(self, fn):
        self.after = {}
        self.always = set()     # read by nested functions: treated as always live
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                self.always |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        self.blk(fn.body, set(), set(), set())
    @staticmethod
    def uses(n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}
    @staticmethod
    def defs(t):
        if isinstance(t, ast.Name): return {t.id}
        if isinstance(t, (ast.Tuple, ast.List)): return set().union(*[Live.defs(e) for e in t.elts]) if t.elts else set()
        if isinstance(t, ast.Starred): return Live.defs(t.value)
        return set()
    def blk(self, ss, out, brk, cont):
        for s in reversed(ss): out = self.st(s, out, brk, cont)
        return out
    def st(self, s, out, brk, cont):
        if isinstance(s, ast.Assign):
            d = set().union(*[self.defs(t) for t in s.targets])
            return (out - d) | self.uses(s)
        if isinstance(s, ast.AugAssign):
            return out | self.uses(s) | self.defs(s.target)
        if isinstance(s, (ast.Return, ast.Raise)): return self.uses(s)
        if isinstance(s, ast.Break): return set(brk)
        if isinstance(s, ast.Continue): return set(cont)
        if isinstance(s, ast.If): return self.uses(s.test) | self.blk(s.body, out, brk, cont) | self.blk(s.orelse, out, brk, cont)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            aft = self.blk(s.orelse, out, brk, cont) | out
            self.after[s] = aft | self.always
            head = set(aft)
            for _ in range(3):
                head = aft | head | (self.blk(s.body, head, out, head) - self.defs(s.target))
            return head | self.uses(s.iter) | self.uses(s.target)
        if isinstance(s, ast.While):
            head = set(out) | self.uses(s.test) | self.blk(s.orelse, out, brk, cont)
            for _ in range(3): head = head | self.blk(s.body, head, out, head)
            self.after[s] = head | self.always
            return head
        if isinstance(s, ast.Try):
            f = self.blk(s.finalbody, out, brk, cont) | (out if not s.finalbody else set())
            hs = set()
            for h in s.handlers: hs |= self.blk(h.body, f, brk, cont)
            e = self.blk(s.orelse, f, brk, cont)
            return self.blk(s.body, e | hs, brk | hs, cont | hs) | hs | f
        if isinstance(s, (ast.With, ast.AsyncWith)):
            r = self.blk(s.body, out, brk, cont)
            for i in s.items: r = r | self.uses(i.context_expr)
            return r
        return out | self.uses(s)

class LoopBody(ast.NodeTransformer):
    """return/break/continue of a lifted loop body"""
    def __init__(self): self.depth = 0
    def visit_FunctionDef(self, n): return n
    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef
    def visit_Return(self, n):
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant('return'), n.value or ast.Constant(None)], ast.Load())), n)
    def visit_While(self, n): 
        self.depth += 1; r = self.generic_visit(n); self.depth -= 1; return r
    visit_For = visit_While
    def visit_Break(self, n):
        if self.depth: return n
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant('break')], ast.Load())), n)
    def visit_Continue(self, n):
        if self.depth: return n
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

class X(ast.NodeTransformer):
    def __init__(self):
        self.fn = []       # stack of (node, names used, self name, globals)
        self.cls = []
        self.k = 0
    def visit_ClassDef(self, n):
        self.cls.append(n.name); f, self.fn = self.fn, []
        n = self.generic_visit(n)
        self.fn = f; self.cls.pop(); return n
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [d and self.visit(d) for d in n.args.kw_defaults]
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs: a.annotation = None
        if n.args.vararg: n.args.vararg.annotation = None
        if n.args.kwarg: n.args.kwarg.annotation = None
        gl, nl = set(), set()
        st = list(n.body)
        while st:
            s = st.pop()
            if isinstance(s, ast.Global): gl |= set(s.names)
            if isinstance(s, ast.Nonlocal): nl |= set(s.names)
            if not isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): st.extend(ast.iter_child_nodes(s))
        params = [a.arg for a in n.args.posonlyargs + n.args.args]
        live = Live(n)
        self.fn.append(dict(live=live, node=n, gl=gl, nl=nl, yield_=has_yield(n.body), self_=params[0] if params else None, hoist=set()))
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        info = self.fn.pop()
        if info['hoist']:
            # bind names so that nested loop bodies can declare them nonlocal (never executed)
            body.insert(0, ast.If(ast.Constant(False), [ast.Assign([N(h, ast.Store())], ast.Constant(None)) for h in sorted(info['hoist'])], []))
        if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)): pass
        n.body = body
        return n
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_Lambda(self, n):
        return self.generic_visit(n)
    # ---- for loops
    def visit_For(self, n):
        if not self.fn or self.fn[-1]['yield_'] or has_yield(n.body + n.orelse):
            return self.generic_visit(n)
        info = self.fn[-1]
        self.k += 1; k = self.k
        names = assigned_names(n.body + [ast.Assign([n.target], ast.Constant(None))]) 
        outer = sorted(names & (info['live'].after.get(n, names) | info['gl'] | info['nl']))
        gl = sorted(names & info['gl']); loc = sorted(names - info['gl'])
        self.fn[-1]['hoist'] |= set(x for x in loc if x not in info['nl'])
        it = self.visit(n.iter)
        body = []
        for s in n.body:
            r = self.visit(s); body.extend(r if isinstance(r, list) else [r])
        lb = LoopBody()
        body = [lb.visit(s) for s in body]
        iv, bn, gn, sn, rn = ('_vp%s%d_' % (p, k) for p in ('x', 'b', 'g', 's', 'r'))
        decl = ([ast.Nonlocal(loc)] if loc else []) + ([ast.Global(gl)] if gl else [])
        tgt = self.visit(n.target)
        fdef = ast.FunctionDef(bn, _args([iv]), decl + [ast.Assign([tgt], N(iv))] + body, [], None, None)
        dn = '_vpd_'
        gbody = [ast.Assign([N(dn, ast.Store())], ast.Dict([], []))]
        for x in loc:
            gbody.append(ast.Try([ast.Assign([ast.Subscript(N(dn), ast.Constant(x), ast.Store())], N(x))],
                                 [ast.ExceptHandler(N('NameError'), None, [ast.Pass()])], [], []))
        gbody.append(ast.Return(N(dn)))
        gdef = ast.FunctionDef(gn, _args([]), gbody, [], None, None)
        sbody = ([ast.Nonlocal(loc)] if loc else []) + [ast.If(ast.Compare(ast.Constant(x), [ast.In()], [N(dn)]),
                 [ast.Assign([N(x, ast.Store())], ast.Subscript(N(dn), ast.Constant(x), ast.Load()))], []) for x in loc] + [ast.Pass()]
        sdef = ast.FunctionDef(sn, _args([dn]), sbody, [], None, None)
        run = ast.Assign([N(rn, ast.Store())], call('for_', it, N(bn), N(gn), N(sn), ast.Tuple([ast.Constant(x) for x in outer], ast.Load())))
        ret = ast.If(ast.BoolOp(ast.And(), [ast.Compare(N(rn), [ast.IsNot()], [ast.Constant(None)]),
                     ast.Compare(ast.Subscript(N(rn), ast.Constant(0), ast.Load()), [ast.Eq()], [ast.Constant('return')])]),
                     [ast.Return(ast.Subscript(N(rn), ast.Constant(1), ast.Load()))], [])
        out = [fdef, gdef, sdef, run, ret]
        if n.orelse:
            oe = []
            for s in n.orelse:
                r = self.visit(s); oe.extend(r if isinstance(r, list) else [r])
            out.append(ast.If(ast.Compare(N(rn), [ast.Is()], [ast.Constant(None)]), oe, []))
        return [ast.copy_location(o, n) for o in out]
    def visit_While(self, n):
        carried = assigned_names(n.body + [ast.Expr(n.test)])
        if self.fn: carried &= self.fn[-1]['live'].after.get(n, carried) | self.fn[-1]['gl'] | self.fn[-1]['nl']
        n = self.generic_visit(n)
        self.k += 1; g = '_vpw%d_' % self.k
        n.test = ast.BoolOp(ast.And(), [ast.Call(N(g), [], []), n.test])
        return [ast.copy_location(ast.Assign([N(g, ast.Store())], call('WhileGuard', ast.Tuple([ast.Constant(x) for x in sorted(carried)], ast.Load()))), n), n]
    # ---- displays
    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Store): return n
        if any(isinstance(e, ast.Starred) for e in n.elts):
            parts = [ast.Tuple([ast.Constant('*'), e.value], ast.Load()) if isinstance(e, ast.Starred) else ast.Tuple([ast.Constant('.'), e], ast.Load()) for e in n.elts]
            return call('starlist', *parts)
        return call('PyList', ast.Tuple(n.elts, ast.Load()))
    def visit_Tuple(self, n):
        n = self.generic_visit(n)
        return n
    def visit_Set(self, n):
        n = self.generic_visit(n)
        if any(isinstance(e, ast.Starred) for e in n.elts):
            parts = [ast.Tuple([ast.Constant('*'), e.value], ast.Load()) if isinstance(e, ast.Starred) else ast.Tuple([ast.Constant('.'), e], ast.Load()) for e in n.elts]
            return call('PySet', call('starlist', *parts))
        return call('PySet', ast.Tuple(n.elts, ast.Load()))
    def visit_Dict(self, n):
        n = self.generic_visit(n)
        parts = [ast.Tuple([ast.Constant(True), k, v], ast.Load()) if k is not None else ast.Tuple([ast.Constant(False), ast.Constant(None), v], ast.Load()) for k, v in zip(n.keys, n.values)]
        return call('mkdict', *parts)
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return call('fstr', *parts)
    # ---- comprehensions
    def _comp(self, kind, n, elts):
        gens = n.generators
        if any(g.is_async for g in gens): return self.generic_visit(n)
        def unpack(target, body):
            # lambda _vpe_: [body for target in (__e,)][0]
            return lam(['_vpe_'], ast.Subscript(ast.ListComp(body, [ast.comprehension(target, ast.Tuple([N('_vpe_')], ast.Load()), [], 0)]), ast.Constant(0), ast.Load()))
        def build(i, first):
            g = gens[i]
            it = self.visit(g.iter)
            conds = [unpack(g.target, self.visit(c)) for c in g.ifs]
            ct = ast.Tuple(conds, ast.Load())
            if i == len(gens) - 1:
                if kind == 'dict':
                    return call('dictcomp', it, unpack(g.target, elts[0]), unpack(g.target, elts[1]), ct)
                return call({'list': 'listcomp', 'gen': 'gencomp', 'set': 'setcomp'}[kind if len(gens) == 1 else 'list'], it, unpack(g.target, elts[0]), ct)
            return call('flat', call('listcomp', it, unpack(g.target, build(i + 1, False)), ct))
        if kind == 'dict' and len(gens) > 1:
            elts = [ast.Tuple(elts, ast.Load())]
            r = call('VDict', build(0, True)) if False else None
            k2 = kind; kind = 'list'
            return call('PyDict', build(0, True))
        r = build(0, True)
        if len(gens) > 1 and kind == 'set': r = call('PySet', r)
        return r
    def visit_ListComp(self, n): return self._comp('list', n, [self.visit(n.elt)])
    def visit_SetComp(self, n): return self._comp('set', n, [self.visit(n.elt)])
    def visit_GeneratorExp(self, n): return self._comp('gen', n, [self.visit(n.elt)])
    def visit_DictComp(self, n): return self._comp('dict', n, [self.visit(n.key), self.visit(n.value)])
    # ---- misc
    def visit_ExceptHandler(self, n):
        n = self.generic_visit(n)
        if n.type is None: n.type = N('Exception')
        return n
    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and self.fn:
            base = next(f for f in self.fn if f['self_'])
            n.args = [N('__class__'), N(base['self_'])]
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return ast.copy_location(call('join', n.func.value, n.args[0]), n)
        return n
    def visit_AnnAssign(self, n):
        n = self.generic_visit(n)
        n.annotation = ast.Constant(None)
        return n
    def visit_Assign(self, n):
        n = self.generic_visit(n)
        if self.fn and any(isinstance(t, ast.Attribute) for t in n.targets):
            out, rest = [], []
            if len(n.targets) == 1:
                t = n.targets[0]
                return ast.copy_location(ast.Expr(call('vsetattr', t.value, ast.Constant(_mangle(t.attr, self.cls)), n.value)), n)
            self.k += 1; tmp = '_vpt%d_' % self.k
            out = [ast.Assign([N(tmp, ast.Store())], n.value)]
            for t in n.targets:
                if isinstance(t, ast.Attribute): out.append(ast.Expr(call('vsetattr', t.value, ast.Constant(_mangle(t.attr, self.cls)), N(tmp))))
                else: out.append(ast.Assign([t], N(tmp)))
            return [ast.copy_location(o, n) for o in out]
        return n
    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        if self.fn and isinstance(n.target, ast.Attribute):
            self.k += 1; tmp = '_vpt%d_' % self.k
            a = ast.Assign([N(tmp, ast.Store())], n.target.value)
            b = ast.Assign([N(tmp + 'v', ast.Store())], ast.Attribute(N(tmp), n.target.attr, ast.Load()))
            c = ast.AugAssign(N(tmp + 'v', ast.Store()), n.op, n.value)
            d = ast.Expr(call('vsetattr', N(tmp), ast.Constant(_mangle(n.target.attr, self.cls)), N(tmp + 'v')))
            return [ast.copy_location(o, n) for o in (a, b, c, d)]
        return n

def _mangle(a, cls):
    if cls and a.startswith('__') and not a.endswith('__'): return '_%s%s' % (cls[-1].lstrip('_'), a)
    return a
def _args(ns): return ast.arguments([], [ast.arg(a) for a in ns], None, [], [], None, [])

def starlist(*parts):
    sg = []
    for k, v in parts:
        if k == '*': sg.extend(coll.seq_of(v))
        else: sg.append(('c', v))
    return coll.PyList.of(sg)
def mkdict(*parts):
    d = coll.PyDict()
    for k, a, b in parts:
        if k: d[a] = b
        else: d.update(b)
    return d

class _VP: pass
VP = _VP()
for _n in ('for_', 'listcomp', 'gencomp', 'setcomp', 'dictcomp', 'flat', 'fstr', 'join', 'vsetattr', 'WhileGuard'):
    setattr(VP, _n, getattr(pyfac, _n))
VP.PyList, VP.PySet, VP.PyDict, VP.starlist, VP.mkdict = coll.PyList, coll.PySet, coll.PyDict, starlist, mkdict

REPO = os.environ.get('VP_REPO', '/repo')

def transform(src, fname):
    t = ast.parse(src, fname)
    t = X().visit(t)
    ast.fix_missing_locations(t)
    return compile(t, fname, 'exec')

# ------------------------------------------------------------------ stub modules for everything not modelled
class StubMeta(type):
    def __getattr__(cls, a):
        if a.startswith('__'): raise AttributeError(a)
        return _stub(cls.__name__ + '.' + a)
    def __call__(cls, *a, **k):
        if cls.__dict__.get('_vp_stub'):
            # used as a decorator at import time
            if len(a) == 1 and not k and isinstance(a[0], (types.FunctionType, type)): return a[0]
            if E.frames: raise Unsupported('call of unmodelled %s' % cls.__name__)
            return _stub(cls.__name__ + '()')
        return type.__call__(cls, *a, **k)
    def __getitem__(cls, i): return cls
    def __or__(cls, o): return cls
    def __ror__(cls, o): return cls
_stubs = {}
def _stub(name):
    if name not in _stubs:
        _stubs[name] = StubMeta(name, (), {'_vp_stub': True, '__module__': 'stub', '__doc__': ''})
    return _stubs[name]
class StubModule(types.ModuleType):
    def __getattr__(self, a):
        if a.startswith('__') and a not in ('__version__',): raise AttributeError(a)
        if a == '__version__': return '0'
        v = _stub(self.__name__ + '.' + a); setattr(self, a, v); return v

NATIVE = {'os', 'sys', 're', 'math', 'time', 'inspect', 'types', 'typing', 'abc', 'enum', 'functools', 'operator', 'warnings', 'numbers',
          'logging', 'io', 'json', 'string', 'datetime', 'contextlib', 'traceback', 'threading', 'random', 'glob', 'pathlib', 'heapq',
          'tempfile', 'struct', 'textwrap', 'importlib', '__future__', 'hashlib', 'uuid', 'dataclasses', 'builtins', 'weakref', 'gc', 'platform', 'subprocess', 'shutil', 'pickle', 'bisect'}

class Loader:
    def __init__(self):
        self.mods = {}
        self.facades = {}
        self.failed = {}
        self.files = {}
        self.b = dict(vars(builtins)); self.b.update(pyfac.BUILTINS); self.b['__import__'] = self.imp
    def find(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return (f if os.path.exists(f) else None), True
        if os.path.exists(p + '.py'): return p + '.py', False
        return None, False
    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.facades: return self.facades[name]
        root = name.split('.')[0]
        if root != 'ylearn':
            if root in NATIVE: return importlib.import_module(name)
            m = StubModule(name); self.mods[name] = m
            if '.' in name:
                par, _, last = name.rpartition('.'); pm = self.load(par)
                if isinstance(pm, StubModule): setattr(pm, last, m)
            return m
        f, pkg = self.find(name)
        if '.' in name:
            par = self.load(name.rpartition('.')[0])
            if name in self.mods: return self.mods[name]      # the package has imported it
        if f is None:
            m = StubModule(name); self.mods[name] = m
            return m
        m = types.ModuleType(name); m.__file__ = f
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg: m.__path__ = [os.path.dirname(f)]
        m.__dict__['__builtins__'] = self.b; m.__dict__['_vp_'] = VP
        self.mods[name] = m
        src = open(f).read(); self.files[f] = src
        code = transform(src, f)
        try:
            exec(code, m.__dict__)
        except EngineStop as e:
            self.failed[name] = repr(e)
            raise ImportError('symbolic import of %s: %r' % (name, e))
        if '.' in name:
            par, _, last = name.rpartition('.')
            setattr(self.load(par), last, m)
        return m
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = '.'.join(pkg[:len(pkg) - level + 1])
            name = base + ('.' + name if name else '')
        m = self.load(name)
        if fromlist:
            for a in fromlist:
                if a == '*': continue
                if not hasattr(m, a) or isinstance(m, StubModule):
                    sub = name + '.' + a
                    if name.startswith('ylearn') and self.find(sub)[0]:
                        setattr(m, a, self.load(sub))
            return m
        root = name.split('.')[0]
        return self.load(root)
