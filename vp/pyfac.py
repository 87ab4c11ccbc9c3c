"""Facades for Python builtins used by the transformed code: loops, comprehensions, len, range, sorted, ..."""
import builtins, itertools, functools, copy as _copy, types
import z3
from .core import *
from .core import E, eq, tob, term, val, mkb, SB, SN, SE
from . import coll
from .coll import *
from .coll import PyList, PySet, PyDict, SSeq, bound, quant, seq_of, is_sym_iter, under, merge_vals, merged_map, NOTES, note, subst, vcontains

class Poison:
    """value of a loop temporary after a symbolic loop; any use leaves the fragment"""
    def __init__(self, name='?'): object.__setattr__(self, '_n', name)
    def __getattr__(self, a): raise Unsupported('use of loop-carried temporary %s' % self._n)
    def _bad(self, *a, **k): raise Unsupported('use of loop-carried temporary %s' % self._n)
    __call__ = __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __contains__ = _bad
    __hash__ = None

class HavSeq:
    """opaque contents of a list at an arbitrary loop iteration"""
    n = None; dense = False
    def _bad(self, *a, **k): raise Unsupported('reading a list accumulated in a symbolic loop')
    inst = exists = forall = nonempty = _bad
    def __init__(self): self.mem = {}
    def contains(self, x):
        """membership in the contents at the start of the iteration: an opaque predicate of the element"""
        xs = x if isinstance(x, tuple) else (x,)
        if not all(isinstance(v, (SE, SN, str, int)) for v in xs): self._bad()
        ts = [term(v) for v in xs]
        key = (isinstance(x, tuple),) + tuple(str(t.sort()) for t in ts)
        if key not in self.mem: self.mem[key] = z3.Function('hm?%d' % next(E.ctr), *[t.sort() for t in ts], B)
        return self.mem[key](*ts)
    def _subst(self, p): return self


def truth(v): return builtins.bool(v)

# ------------------------------------------------------------------ symbolic for loops

def for_(it, body, get, set_, outer):
    if is_sym_iter(it) or (hasattr(it, '_segs') and not isinstance(it, (list, tuple))):
        segs = list(seq_of(it)) if not isinstance(it, PyList) or it.segs is not None else None
    else: segs = None
    if segs is None:
        if isinstance(it, SE): raise Unsupported('iterating a symbolic name')
        for x in it:
            r = body(x)
            if r is not None:
                if r[0] == 'break': return ('done',)
                if r[0] == 'return': return r
        return None
    for k, v in segs:
        if k == 'c':
            r = body(v)
            if r is not None:
                if r[0] == 'break': return ('done',)
                if r[0] == 'return': return r
        else:
            r = sym_loop(v, body, get, set_, outer)
            if r is not None: return r
    return None

def _occurs(t, syms, deep=True):
    """does term t mention any function/constant named in syms"""
    seen = builtins.set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().name() in syms: return True
            st.extend(x.children())
    return False

def val_terms(v):
    if isinstance(v, (SN, SB, SE)): return [v.t]
    if isinstance(v, tuple): return [t for x in v for t in val_terms(x)]
    if isinstance(v, PyList): return [t for k, x in seq_of(v) for t in (val_terms(x) if k == 'c' else ([x.cond] + val_terms(x.elt) if isinstance(x, SSeq) else []))]
    if isinstance(v, PySet):
        if v.conc(): return [t for x in v.items for t in val_terms(x)]
        if v.pred is not None: return [v.pred(z3.Const('probe', Node))]
        return []
    if hasattr(v, '_terms'): return v._terms()
    return []


def sym_atoms(t, syms):
    """applications of havocked state symbols in t; bound=True when one occurs under a quantifier with bound arguments"""
    out, seen, st = {}, builtins.set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if _occurs(x, syms): raise Unsupported('accumulated state read under a quantifier: %s' % x)
            continue
        if z3.is_app(x):
            if x.decl().name() in syms: out[x.get_id()] = x
            st.extend(x.children())
    return builtins.list(out.values())

def proj(f, bs):
    """exists bs. f  for boolean bs"""
    for b in bs:
        if _occurs(f, {b.decl().name()}):
            f = z3.simplify(z3.Or(z3.substitute(f, (b, z3.BoolVal(True))), z3.substitute(f, (b, z3.BoolVal(False)))))
    return f

def accel_pred(new_of, f, old_of, vs, cond, prem, syms, idx):
    """closed form of a predicate location; idx: z3 consts of the location's index.  prem: premise (no exit) that may read state.
    -> vis -> (ix -> bool)"""
    t = z3.simplify(new_of(*idx))
    atoms = sym_atoms(t, syms) + sym_atoms(prem, syms)
    leaf = f(*idx); fn = leaf.decl().name()
    hs, prs = [], []
    for L in (True, False):
        pairs, bs = [], []
        for x in {y.get_id(): y for y in atoms}.values():
            if z3.eq(x, leaf): pairs.append((x, z3.BoolVal(L))); continue
            if any(_occurs(c, syms) for c in x.children()): raise Unsupported('nested read of accumulated state')
            if not z3.is_bool(x): raise Unsupported('accumulated number read')
            bb = z3.Const('rd?%d' % next(E.ctr), B); bs.append(bb)
            pairs.append((x, z3.If(z3.And([p == q for p, q in zip(x.children(), idx)]), z3.BoolVal(L), bb) if x.decl().name() == fn else bb))
        tL, pL = z3.simplify(z3.substitute(t, *pairs)) if pairs else t, z3.simplify(z3.substitute(prem, *pairs)) if pairs else prem
        ctx = z3.And(cond, pL)
        for bb in bs:
            if not _occurs(tL, {bb.decl().name()}): continue
            done = False
            for c in (True, False):
                cand = z3.simplify(z3.substitute(tL, (bb, z3.BoolVal(c))))
                if E_valid(z3.Implies(ctx, tL == cand)): tL = cand; done = True; break
            if not done: raise Unsupported('loop body reads accumulated state')
        hs.append(tL); prs.append((pL, bs))
    h1, h0 = hs
    p1, p0 = [proj(z3.simplify(pL), bs) for pL, bs in prs]
    # a point whose previous value is impossible (premise) takes the other case
    h1, h0 = z3.simplify(z3.If(p1, h1, z3.If(p0, h0, z3.BoolVal(True)))), z3.simplify(z3.If(p0, h0, z3.If(p1, h1, z3.BoolVal(False))))
    c1 = c0 = cond
    def some(body, ix):
        nv = [bound('i', v.sort()) for v in vs]
        body = z3.substitute(body, *builtins.list(zip(vs, nv)))       # no capture: ix may mention the loop variables
        return ex1(nv, z3.substitute(body, *builtins.list(zip(idx, ix))))
    if E_valid(z3.Implies(c1, h1)):
        return lambda vis: (lambda *ix: z3.Or(old_of(*ix), some(z3.And(cond, vis, h0), ix)))
    if E_valid(z3.Implies(c0, z3.Not(h0))):
        return lambda vis: (lambda *ix: z3.And(old_of(*ix), z3.Not(some(z3.And(cond, vis, z3.Not(h1)), ix))))
    # every iteration either leaves a point alone or sets it; points never both added and removed (by any two iterations)
    setc = z3.simplify(h1 == h0)
    if E_valid(z3.Implies(z3.And(c1, c0, z3.Not(setc)), z3.And(h1, z3.Not(h0)))):
        ws = [bound('w', v.sort()) for v in vs]
        add = z3.And(cond, h1, h0); rem = z3.And(cond, z3.Not(h1), z3.Not(h0))
        rem2 = z3.substitute(rem, *builtins.list(zip(vs, ws)))
        if E_valid(z3.Not(z3.And(add, rem2))):
            def cl(vis):
                def g(*ix):
                    a = some(z3.And(cond, vis, h1, h0), ix); r = some(z3.And(cond, vis, z3.Not(h1), z3.Not(h0)), ix)
                    return z3.Or(a, z3.And(old_of(*ix), z3.Not(r)))
                return g
            return cl
    raise Unsupported('no closed form for a set updated in a loop')

def ex1(vs, body):
    """Exists with one-point elimination of variables equated to terms"""
    vs = builtins.list(vs)
    body = z3.simplify(body)
    changed = True
    while changed and vs:
        changed = False
        conj = body.children() if z3.is_and(body) else [body]
        for c in conj:
            if z3.is_eq(c):
                a, b = c.children()
                for v, o in ((a, b), (b, a)):
                    if any(z3.eq(v, w) for w in vs) and not _occurs(o, {v.decl().name()}):
                        body = z3.simplify(z3.substitute(body, (v, o)))
                        vs = [w for w in vs if not z3.eq(w, v)]
                        changed = True; break
            if changed: break
    # every disjunct pins the variable to one of the terms it is compared with
    for v in builtins.list(vs):
        if not any(v is w or z3.eq(v, w) for w in vs): continue
        cands = eq_candidates(body, v)
        if cands and builtins.len(cands) <= 4:
            off = z3.simplify(z3.substitute(body, *[(a, z3.BoolVal(False)) for a, _ in cands]))
            if z3.is_false(off):
                ts = []
                for _, t in cands:
                    if not any(z3.eq(t, u) for u in ts): ts.append(t)
                rest = [w for w in vs if not z3.eq(w, v)]
                return z3.simplify(z3.Or([ex1(rest, z3.substitute(body, (v, t))) for t in ts]))
    # drop variables not occurring
    vs = [v for v in vs if _occurs(body, {v.decl().name()})] if not z3.is_false(body) else []
    if not vs: return body
    # fresh bound names so the same closed form can be nested
    return coll.bind(z3.Exists, vs, body)

def eq_candidates(t, v):
    out, seen, st = {}, builtins.set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_eq(x):
            a, b = x.children()
            for p, q in ((a, b), (b, a)):
                if z3.eq(p, v) and not _occurs(q, {v.decl().name()}): out[x.get_id()] = (x, q)
        if z3.is_app(x): st.extend(x.children())
    return builtins.list(out.values())

def E_valid(f):
    return E.implied(f, ms=4000)


class MoreState(EngineStop):
    def __init__(self, names, objs, attrs, again=False): self.names, self.objs, self.attrs, self.again = names, objs, attrs, again

MISSING = object()

def preds_of(o): return o._acc_preds()

class Tok: pass

def _havoc_value(n, v):
    t = Tok(); t.kind = 'poison'; t.old = v
    if isinstance(v, Poison): t.val = Poison(n)
    elif isinstance(v, (bool, SB)):
        c = z3.Const('hb?%d' % next(E.ctr), B); t.kind, t.sym, t.val = 'bool', c, SB(c)
    elif isinstance(v, (int, float, SN)):
        tv = term(v); c = z3.Const('hv?%d' % next(E.ctr), tv.sort()); t.kind, t.sym, t.val = 'num', c, SN(c)
    elif isinstance(v, PySet) and v.segs is None and (not v.conc() or all(isinstance(x, (str, SE)) for x in v.items)):
        nm = 'hp?%d' % next(E.ctr); f = z3.Function(nm, Node, B)
        t.kind, t.fns, t.val = 'preds', {'m': ((Node,), f)}, PySet.of_pred(lambda x: f(x))
        t.oldp = {'m': v.as_pred()}
    elif isinstance(v, PyList):
        l = PyList(); l.segs = [('s', HavSeq())]; t.kind, t.val, t.mark = 'list', l, l.segs[0][1]
    elif hasattr(v, '_acc_arr'):
        t.kind = 'arr'; nm = 'ha?%d' % next(E.ctr); t.name = nm
        t.val, t.fn = v._acc_arr(nm)
    else:
        t.val = Poison(n)
    return t

def _tok_syms(t):
    if t.kind in ('num', 'bool'): return [t.sym.decl().name()]
    if t.kind == 'preds': return [f.name() for _, f in t.fns.values()]
    if t.kind == 'arr': return [t.name]
    return []

def sym_loop(seq, body, get, set_, outer):
    vs, cond, item = seq.inst()
    if z3.is_false(z3.simplify(cond)): return None
    start = next(E.births)
    names, objs, attrs, objsets = builtins.set(), [], [], []
    L00 = get()
    for _round in builtins.range(6):
        try:
            set_({n: L00.get(n, Poison(n)) for n in names})
            return _sym_loop(seq, vs, cond, item, body, get, set_, outer, builtins.sorted(names), objs, attrs, start, objsets)
        except MoreState as m:
            if getattr(m, 'objset', None) is not None:
                if not any(m.objset is o for o in objs) or any(m.objset is o for o in objsets): raise
                objsets.append(m.objset); continue
            for o, k in getattr(m, 'seeds', ()): o._seed(k)
            n2 = names | m.names
            o2 = objs + [o for o in m.objs if not any(o is p for p in objs)]
            a2 = attrs + [a for a in m.attrs if not any(a[0] is b[0] and a[1] == b[1] for b in attrs)]
            if not m.again and n2 == names and len(o2) == len(objs) and len(a2) == len(attrs):
                raise Unsupported('loop state does not stabilise')
            names, objs, attrs = n2, o2, a2
    raise Unsupported('loop state does not stabilise')

def _sym_loop(seq, vs, cond, item, body, get, set_, outer, names, objs, attrs, start, objsets=()):
    L0 = get()
    toks, otoks, atoks = {}, [], []
    # ---- havoc
    saved = []
    for n in names:
        toks[n] = _havoc_value(n, L0[n]) if n in L0 else None
        if toks[n] is None:
            t = Tok(); t.kind = 'unbound'; t.val = Poison(n); t.old = MISSING; toks[n] = t
    for o in objs:
        t = Tok(); t.obj = o
        if any(o is p for p in objsets):
            # a set that collects objects: like a list, objects are distinct by identity
            t.kind = 'objset'; t.old = PyList.of(o._as_segs()); t.mark = HavSeq(); t.restore = o._state()
        elif hasattr(o, '_acc_preds'):
            t.kind = 'preds'; t.oldp = {}; t.fns = {}
            for pn, (sorts, cl) in o._acc_preds().items():
                f = z3.Function('hq?%d' % next(E.ctr), *sorts, B); t.oldp[pn] = cl; t.fns[pn] = (sorts, f)
            t.restore = o._acc_state()
        elif isinstance(o, PyList):
            t.kind = 'list'; t.old = PyList.of(list(seq_of(o))); t.mark = HavSeq(); t.restore = (o.segs, builtins.list(list.__iter__(o)))
        elif hasattr(o, '_acc_storage'):
            t.kind = 'storage'; t.name = 'hs?%d' % next(E.ctr); t.restore = o.fn; t.fn = o._acc_storage(t.name)
        elif isinstance(o, PyDict) and not isinstance(o, coll.DefaultDict) and not o.ks and o.fam is None:
            t.kind = 'dict'; t.restore = (o.ks, o.vs, o._h)
        else:
            raise Unsupported('%s mutated in a symbolic loop' % type(o).__name__)
        otoks.append(t)
    for (o, a) in attrs:
        v = o.__dict__.get(a, MISSING)
        t = _havoc_value(a, v) if v is not MISSING else Tok()
        if v is MISSING: t.kind = 'unbound'; t.val = Poison(a); t.old = MISSING
        atoks.append(t)
    syms = builtins.set(s for t in builtins.list(toks.values()) + otoks + atoks for s in ([t.name] if t.kind == 'storage' else _tok_syms(t)))
    def put_havoc():
        set_({n: t.val for n, t in toks.items()})
        for t in otoks:
            if t.kind == 'preds':
                t.obj._acc_setpreds({pn: (lambda *ix, f=f: f(*ix)) for pn, (s, f) in t.fns.items()})
                if isinstance(t.obj, PySet): t.obj._hav = t.obj
            elif t.kind == 'objset': t.obj.items, t.obj.pred, t.obj.segs, t.obj.arr = None, None, [('s', t.mark)], None
            elif t.kind == 'list': t.obj.segs = [('s', t.mark)]; list.clear(t.obj)
            elif t.kind == 'storage': t.obj.fn = t.fn
            elif t.kind == 'dict': t.obj.ks, t.obj.vs, t.obj._h, t.obj.hav = [], [], {}, True
        for (o, a), t in zip(attrs, atoks): o.__dict__[a] = t.val
    def put_old():
        set_({n: (L0[n] if n in L0 else Poison(n)) for n in builtins.set(names)})
        for t in otoks:
            if t.kind == 'preds':
                t.obj._acc_restore(t.restore)
                if isinstance(t.obj, PySet): t.obj._hav = None
            elif t.kind == 'objset': t.obj._acc_restore(t.restore)
            elif t.kind == 'list':
                t.obj.segs = t.restore[0]; list.__setitem__(t.obj, slice(None), t.restore[1])
            elif t.kind == 'storage': t.obj.fn = t.restore
            elif t.kind == 'dict': (t.obj.ks, t.obj.vs, t.obj._h), t.obj.hav = t.restore, False
        for (o, a), t in zip(attrs, atoks):
            if t.old is MISSING: o.__dict__.pop(a, None)
            else: o.__dict__[a] = t.old
    def run():
        put_havoc()
        NOTES.append({})
        try:
            kind = 'ok'
            try: r = body(item)
            except EngineStop: raise
            except Exception as e: r = ('raise', e)
            L1 = get()
        finally:
            nt = NOTES.pop()
        if r is not None and r[0] in ('break', 'return', 'raise'):
            # an exiting iteration is executed again, for real, after the completed ones: it contributes no loop state
            return r, {n: L1.get(n, MISSING) for n in names}, [None] * builtins.len(otoks), [None] * builtins.len(attrs)
        nn = builtins.set(n for n, v in L1.items() if n not in names and (n not in L0 or L0[n] is not v))
        no, na = [], []
        for k, (o, ops) in nt.items():
            if getattr(o, '_born', 0) > start: continue
            for op in ops:
                if op[0] == 'attr':
                    if not any(o is p and op[1] == q for p, q in attrs + na): na.append((o, op[1]))
                elif not any(o is p for p in objs + no): no.append(o)
            if NOTES and not getattr(o, '_born', 0) > start:
                NOTES[-1].setdefault(k, (o, []))[1].extend(ops)
        seeds = [(o, op[1]) for k, (o, ops) in nt.items() if isinstance(o, coll.DefaultDict) and any(o is q for q in no) for op in ops if op[0] == 'setitem']
        if seeds and builtins.len({builtins.id(o) for o, _ in seeds}) == builtins.len([o for o in no if isinstance(o, coll.DefaultDict)]) and all(op[0] in ('setitem',) for k, (o, ops) in nt.items() if isinstance(o, coll.DefaultDict) for op in ops):
            no = [o for o in no if not isinstance(o, coll.DefaultDict)]; m = MoreState(nn, no, na, True); m.seeds = seeds; raise m
        if nn or no or na: raise MoreState(nn, no, na)
        snap = {n: L1.get(n, MISSING) for n in names}
        os = []
        for t in otoks:
            if t.kind == 'preds': os.append({pn: cl for pn, (s, cl) in t.obj._acc_preds().items()})
            elif t.kind in ('list', 'objset'): os.append(PyList.of(list(t.obj.segs) if t.kind == 'objset' and t.obj.segs is not None else list(seq_of(t.obj))))
            elif t.kind == 'storage': os.append(t.obj.fn)
            elif t.kind == 'dict': os.append(builtins.list(builtins.zip(t.obj.ks, t.obj.vs)))
        as_ = [o.__dict__.get(a, MISSING) for (o, a) in attrs]
        return r, snap, os, as_
    try:
        outs = under(vs, cond, run)
    finally:
        put_old()
        set_({n: L0[n] for n in names if n in L0})
    normal, exits = [], []
    for p, k, v in outs:
        if k == 'raise': raise v
        (exits if v[0] is not None and v[0][0] in ('break', 'return', 'raise') else normal).append((p, v))
    for p, _ in outs_conds(outs):
        pass
    gx = z3.simplify(z3.Or([p for p, _ in exits] or [z3.BoolVal(False)]))
    prem = z3.Not(gx)
    tentative = _occurs(gx, syms)     # exits that read accumulated state must be excluded by the inductive closed form
    if tentative:
        visg = E.fresh_fn('vis', *[v.sort() for v in vs], B)
        pairs = []
        for j, t in enumerate(otoks):
            if t.kind != 'preds': continue
            cls = pred_closed(t, [(p, v[2][j]) for p, v in normal], vs, cond, prem, syms)
            pairs.append((t, {pn: c(visg(*vs)) for pn, c in cls.items()}))
        for n in names:
            t = toks[n]
            if t.kind == 'preds' and all(isinstance(v[1][n], PySet) for p, v in normal):
                cls = pred_closed(t, [(p, {'m': v[1][n].as_pred()}) for p, v in normal], vs, cond, prem, syms)
                pairs.append((t, {'m': cls['m'](visg(*vs))}))
        g2 = replace_state(gx, pairs)
        if _occurs(g2, syms): raise Unsupported('loop exit depends on accumulated state %s' % g2)
        if not E.implied(z3.Implies(z3.And(cond, z3.Not(visg(*vs))), z3.Not(g2)), ms=6000):
            raise Unsupported('loop exit depends on accumulated state: %s' % str(g2)[:1800])
        exits = []; gx = z3.BoolVal(False)
    ordered = seq.n is not None or seq.order is not None or (len(vs) == 1 and vs[0].sort() == I)
    def apply(vis):
        """install the closed form of the state after the visited iterations"""
        c = z3.And(cond, vis, z3.Not(gx))
        for n in names:
            if n not in outer:
                set_({n: Poison(n)}); continue
            t = toks[n]
            res = [(p, v[1][n]) for p, v in normal]
            nv = closed_value(n, t, res, vs, cond, c, vis, syms, ordered, seq, needed=(n in outer), prem=prem)
            if nv is not MISSING: set_({n: nv})
        for j, t in enumerate(otoks):
            if t.kind == 'preds':
                cls = pred_closed(t, [(p, v[2][j]) for p, v in normal], vs, z3.And(cond, z3.Not(gx)), prem, syms)
                new = {pn: cl(vis) for pn, cl in cls.items()}
                (t.obj._mut if hasattr(t.obj, '_mut') else t.obj._log)(); note(t.obj, ('mut',)); t.obj._acc_setpreds(new)
            elif t.kind == 'list':
                lst = closed_list(t, [(p, v[2][j]) for p, v in normal], vs, c, seq, syms)
                t.obj._log(); note(t.obj, ('mut',)); t.obj._set(list(seq_of(t.old)) + lst)
            elif t.kind == 'objset':
                new = PySet(); new.items = None; new.segs = list(seq_of(t.old)) + closed_list(t, [(p, v[2][j]) for p, v in normal], vs, c, seq, syms)
                note(t.obj, ('mut',)); t.obj._put(new)
            elif t.kind == 'dict':
                fams = closed_dict(t, [(p, v[2][j]) for p, v in normal], vs, c, syms)
                note(t.obj, ('mut',)); o = t.obj; E.log(lambda o=o: builtins.setattr(o, 'fam', None))
                if fams: o.fam = fams
            elif t.kind == 'storage':
                t.obj._log(); note(t.obj, ('mut',))
                t.obj.fn = t.obj._acc_closed(t, [(p, v[2][j]) for p, v in normal], vs, c, syms, ordered)
        for j, ((o, a), t) in enumerate(zip(attrs, atoks)):
            nv = closed_value(a, t, [(p, v[3][j]) for p, v in normal], vs, cond, c, vis, syms, ordered, seq, needed=True, prem=prem)
            if nv is not MISSING:
                vsetattr(o, a, nv)
    if not exits:
        if not normal: return None        # the body is unreachable: the family is empty
        apply(z3.BoolVal(True)); return None
    if not E.fork(quant(z3.Exists, vs, z3.And(cond, gx))):
        if normal: apply(z3.BoolVal(True))
        return None
    ks = [E.fresh('exit', v.sort()) for v in vs]
    ps = builtins.list(zip(vs, ks))
    E.assume(z3.substitute(z3.And(cond, gx), *ps))
    ws = [bound('w', v.sort()) for v in vs]; wp = builtins.list(zip(vs, ws))
    if seq.order is not None:
        vis = z3.And(seq.order(vs, ks), z3.Or([a != b for a, b in zip(vs, ks)]))
        # any earlier element does not exit
        E.assume(quant(z3.ForAll, ws, z3.Implies(z3.And(z3.substitute(cond, *wp), z3.Not(seq.order(ks, ws))), z3.Not(z3.substitute(gx, *wp)))))
        visf = E.fresh_fn('vis', *[v.sort() for v in vs], B)
        vis = visf(*vs)
        E.assume(z3.Not(visf(*ks)))
        E.assume(quant(z3.ForAll, ws, z3.Implies(visf(*ws), z3.And(seq.order(ws, ks), z3.substitute(z3.And(cond, z3.Not(gx)), *wp)))))
    elif ordered:
        vis = vs[0] < ks[0]
        E.assume(quant(z3.ForAll, ws, z3.Implies(z3.substitute(z3.And(cond, vis), *wp), z3.Not(z3.substitute(gx, *wp)))))
    else:
        visf = E.fresh_fn('vis', *[v.sort() for v in vs], B)
        vis = visf(*vs)
        E.assume(z3.Not(visf(*ks)))
        E.assume(quant(z3.ForAll, ws, z3.Implies(visf(*ws), z3.substitute(z3.And(cond, z3.Not(gx)), *wp))))
    if normal: apply(vis)
    r = body(subst(item, ps))
    if r is None: raise Infeasible()
    if r[0] == 'break': return ('done',)
    return r

def pred_closed(t, res, vs, cond, prem, syms):
    out = {}
    for pn, (sorts, f) in t.fns.items():
        idx = [z3.Const('ix?%d' % next(E.ctr), s) for s in sorts]
        def newof(*ix, pn=pn, f=f):
            ps = [(p, d[pn](*ix)) for p, d in res]
            if not ps: return f(*ix)
            r = ps[-1][1]
            for p, q in reversed(ps[:-1]): r = z3.If(p, q, r)
            return r
        pr = prem
        if getattr(t, 'obj', None) is not None and hasattr(t.obj, '_acc_inv'):
            pr = z3.And(prem, t.obj._acc_inv({q: g for q, (_, g) in t.fns.items()}, pn, idx))
        out[pn] = accel_pred(newof, f, t.oldp[pn], vs, cond, pr, syms, idx)
    return out

def replace_state(g, pairs):
    """replace reads of the havocked predicates by closed forms"""
    sub = []
    for t, cl in pairs:
        for pn, (sorts, f) in t.fns.items():
            for x in sym_atoms(g, {f.name()}):
                sub.append((x, cl[pn](*x.children())))
    return z3.simplify(z3.substitute(g, *sub)) if sub else g

def outs_conds(outs): return []

def closed_list(t, res, vs, c, seq, syms):
    """segments appended to a list by the loop"""
    tails = []
    if t.mark.mem: return recursive_list(t, res, vs, c, seq, syms)
    for p, l in res:
        sg = builtins.list(seq_of(l))
        if not (sg and sg[0][0] == 's' and sg[0][1] is t.mark): raise Unsupported('list rebuilt in a symbolic loop')
        tails.append((p, sg[1:]))
    app = [(p, s) for p, s in tails if s]
    if not app: return []
    lens = {len(s) for _, s in app}
    if any(k == 's' for _, s in app for k, _v in s):
        if len(app) == 1 and len(app[0][1]) == 1:
            inner = app[0][1][0][1]
            ivs, ic, ie = inner.inst()
            if any(_occurs(x, syms) for x in [ic] + val_terms(ie)): raise Unsupported('accumulated state read in loop')
            k0 = len(vs); oo = seq.order or ((lambda p, q: p[0] <= q[0]) if len(vs) == 1 and vs[0].sort() == I else None)
            od = None
            if oo is not None:
                io = inner.order or ((lambda p, q: p[0] <= q[0]) if inner.dense else None)
                def od(p, q, k0=k0, oo=oo, io=io):
                    same = z3.And([a == b for a, b in zip(p[:k0], q[:k0])])
                    return z3.Or(z3.And(oo(p[:k0], q[:k0]), z3.Not(same)), z3.And(same, io(p[k0:], q[k0:]) if io else z3.BoolVal(True)))
            return [('s', SSeq(builtins.list(vs) + builtins.list(ivs), z3.And(c, app[0][0], ic), ie, order=od))]
        out = []
        for p, s in app:
            for k, v in s:
                if k == 'c': out.append(('s', SSeq(vs, z3.And(c, p), v)))
                else:
                    ivs, ic, ie = v.inst(); out.append(('s', SSeq(builtins.list(vs) + builtins.list(ivs), z3.And(c, p, ic), ie)))
        return [(k, unorder(s)) for k, s in out]
    g = z3.simplify(z3.Or([p for p, _ in app]))
    if len(lens) == 1 and lens == {1}:
        elt = merge_vals([(p, s[0][1]) for p, s in app], 'appended values')
        if any(_occurs(x, syms) for x in [g] + val_terms(elt)): raise Unsupported('accumulated state read in loop')
        dense = seq.dense and E_valid(z3.Implies(c, g)) and len(vs) == 1
        vis_free = E_valid(z3.Implies(seq_cond(seq, vs), z3.And(c, g))) if dense else False
        return [('s', SSeq(vs, z3.And(c, g), elt, seq.n if vis_free else None, bool(vis_free), order=seq.order).rename())]
    # several appends per iteration: keep as an unordered family (order between the parts is lost)
    out = []
    for p, s in app:
        for k, v in s:
            if any(_occurs(x, syms) for x in [p] + val_terms(v)): raise Unsupported('accumulated state read in loop')
            out.append(('s', unorder(SSeq(vs, z3.And(c, p), v).rename())))
    return out

def closed_dict(t, res, vs, c, syms):
    """one entry per iteration, under distinct keys"""
    if builtins.any(builtins.len(l) > 1 for _, l in res): raise Unsupported('several dictionary entries per iteration')
    app = [(p, l[0]) for p, l in res if l]
    if not app: return []
    g = z3.simplify(z3.Or([p for p, _ in app])); k, v = merge_vals([(p, x) for p, x in app], 'dictionary entries')
    if builtins.any(_occurs(x, syms) for x in [g] + val_terms(k) + val_terms(v)): raise Unsupported('accumulated state read in loop')
    cg = z3.simplify(z3.And(c, g))
    ws = [bound('w', x.sort()) for x in vs]; wp = builtins.list(zip(vs, ws))
    same = z3.And([x == z3.substitute(x, *wp) for x in val_terms(k)])
    if not E_valid(z3.Implies(z3.And(cg, z3.substitute(cg, *wp), same), z3.And([a == b for a, b in zip(vs, ws)]))): raise Unsupported('dictionary keys may repeat')
    return [SSeq(vs, cg, (k, v)).rename()]

def recursive_list(t, res, vs, c, seq, syms):
    """at most one append per iteration, guarded by membership in the list itself: the appending iterations are the
    predicate App with App(k) == c(k) & guard(k, membership := some earlier appending iteration, or the old contents)"""
    tails = []
    for p, l in res:
        sg = builtins.list(seq_of(l))
        if not (sg and sg[0][0] == 's' and sg[0][1] is t.mark): raise Unsupported('list rebuilt in a symbolic loop')
        tails.append((p, sg[1:]))
    app = [(p, s) for p, s in tails if s]
    if not app: return []
    if any(len(s) != 1 or s[0][0] != 'c' for _, s in app): raise Unsupported('several appends guarded by membership')
    g = z3.simplify(z3.Or([p for p, _ in app])); elt = merge_vals([(p, s[0][1]) for p, s in app], 'appended values')
    names = {f.name() for f in t.mark.mem.values()}
    if any(_occurs(x, syms) for x in [g] + val_terms(elt)) or any(_occurs(x, names) for x in val_terms(elt)): raise Unsupported('accumulated state read in loop')
    f = E.fresh_fn('app', *[v.sort() for v in vs], B)
    if seq.order is not None: before = lambda x, y: z3.And(seq.order(x, y), z3.Or([p != q for p, q in zip(x, y)]))
    elif len(vs) == 1 and vs[0].sort() == I: before = lambda x, y: x[0] < y[0]
    else:
        bf = E.fresh_fn('before', *[v.sort() for v in vs], *[v.sort() for v in vs], B)
        before = lambda x, y: bf(*x, *y)
        x, y, z = ([bound('o', v.sort()) for v in vs] for _ in range(3))
        ne = z3.Or([p != q for p, q in zip(x, y)])
        E.assume_global(z3.ForAll(x + y, z3.Implies(ne, z3.Xor(bf(*x, *y), bf(*y, *x)))))
        E.assume_global(z3.ForAll(x, z3.Not(bf(*x, *x))))
        E.assume_global(z3.ForAll(x + y + z, z3.Implies(z3.And(bf(*x, *y), bf(*y, *z)), bf(*x, *z))))
    sub = []
    for a in sym_atoms(g, names):
        xs = builtins.tuple(val(k) for k in a.children())
        tup = [k for k, fn in t.mark.mem.items() if fn.name() == a.decl().name()][0][0]
        x = xs if tup else xs[0]
        ws = [bound('w', v.sort()) for v in vs]
        ee = subst(elt, builtins.list(zip(vs, ws)))
        sub.append((a, z3.Or(t.old.contains(x), ex1(ws, z3.And(f(*ws), before(ws, vs), tob(eq(ee, x)))))))
    body = z3.substitute(z3.And(c, g), *sub)
    body = z3.simplify(body)
    # lift negated memberships through: App is the unique solution of this well-founded definition
    E.assume_global(z3.ForAll(vs, f(*vs) == body))
    return [('s', SSeq(vs, f(*vs), elt, order=seq.order).rename())]

def seq_cond(seq, vs):
    return z3.substitute(seq.cond, *builtins.list(zip(seq.vars, vs)))

def unorder(s): return SSeq(s.vars, s.cond, s.elt)
def _rename(self):
    vs, c, e = self.inst(); return SSeq(vs, c, e, self.n, self.dense, order=self.order)
SSeq.rename = _rename

def closed_value(n, t, res, vs, cond, c, vis, syms, ordered, seq, needed, prem=z3.BoolVal(True)):
    changed = [(p, v) for p, v in res if v is not t.val]
    if not changed: return t.old if t.old is not MISSING else MISSING
    try:
        if t.kind == 'num':
            vals = [(p, t.val if v is t.val else v) for p, v in res]
            if all(isinstance(v, (SN, int, float, SB, bool)) for _, v in vals):
                return closed_num(t, vals, changed, vs, c, vis, syms, ordered, seq)
        if t.kind == 'preds' and all(isinstance(v, PySet) for _, v in res):
            try:
                return PySet.of_pred(pred_closed(t, [(p, {'m': v.as_pred()}) for p, v in res], vs, cond, prem, syms)['m'](vis))
            except Unsupported: pass
        if t.kind == 'list' and all(isinstance(v, PyList) for _, v in res):
            try: return PyList.of(builtins.list(seq_of(t.old)) + closed_list(t, res, vs, c, seq, syms))
            except Unsupported:
                pass
        if t.kind == 'arr' and all(hasattr(v, '_acc_arr') for _, v in res):
            r = t.old._acc_arr_closed(t, res, vs, c, syms)
            if r is not None: return r
        return last_assign(t, changed, vs, c, vis, syms, ordered, seq)
    except Unsupported:
        if needed: 
            return Poison(n)
        return Poison(n)

def closed_num(t, vals, changed, vs, c, vis, syms, ordered, seq):
    from .snp import mk_sum
    V = t.sym
    ts = [(p, numterm(v)) for p, v in vals]
    if any(x.sort() != V.sort() for _, x in ts):
        ts = [(p, real(x)) for p, x in ts]
        V2 = z3.Const('hr?%d' % next(E.ctr), R)
        ts = [(p, z3.substitute(x, (z3.ToReal(V), V2)) if V.sort() == I else x) for p, x in ts]
        if any(_occurs(x, {V.decl().name()}) for _, x in ts) and V.sort() == I: raise Unsupported('int/real loop accumulator')
        V = V2; old = real(term(t.old))
    else: old = term(t.old)
    r = ts[-1][1]
    for p, q in reversed(ts[:-1]): r = z3.If(p, q, r)
    if not any(_occurs(x, {V.decl().name()}) for (p, x), (_, v) in zip(ts, vals) if v is not t.val):
        return last_assign(t, changed, vs, c, vis, syms, ordered, seq)
    h = z3.simplify(z3.substitute(r, (V, z3.RealVal(0) if V.sort() == R else z3.IntVal(0))))
    if _occurs(h, syms | {V.decl().name()}): raise Unsupported('accumulator reads other state')
    if not E_valid(z3.Implies(c, r == V + h)): raise Unsupported('loop accumulator is not a sum')
    return val(old + mk_sum(vs, c, h))

def last_assign(t, changed, vs, c, vis, syms, ordered, seq):
    g = z3.simplify(z3.Or([p for p, _ in changed]))
    elt = merge_vals(changed, 'last assigned value')
    if any(_occurs(x, syms) for x in [g] + val_terms(elt)): raise Unsupported('assigned value reads accumulated state')
    if not ordered and vs:
        pass
    cg = z3.simplify(z3.And(c, g))
    if not E.fork(quant(z3.Exists, vs, cg)):
        return t.old
    if ordered and seq.dense and E_valid(z3.Implies(seq_cond(seq, vs), cg)):
        ks = [seq.n - 1]
    else:
        ks = [E.fresh('last', v.sort()) for v in vs]
        E.assume(z3.substitute(cg, *builtins.list(zip(vs, ks))))
        if ordered and len(vs) == 1 and vs[0].sort() == I:
            w = bound('w', I)
            E.assume(z3.ForAll([w], z3.Implies(z3.And(z3.substitute(cg, (vs[0], w))), w <= ks[0])))
    return subst(elt, builtins.list(zip(vs, ks)))

# ------------------------------------------------------------------ attribute stores
def vsetattr(o, a, v):
    if isinstance(o, types.SimpleNamespace) or hasattr(o, '__dict__'):
        if NOTES: note(o, ('attr', a))
        d = getattr(o, '__dict__', None)
        # an object made on this path vanishes with it: nothing to undo
        if E.jon and d is not None and not d.get('_born', 0) > getattr(E.frames[-1], 'birth', 0):
            old = d.get(a, MISSING)
            def undo(o=o, a=a, old=old):
                if old is MISSING: o.__dict__.pop(a, None)
                else: o.__dict__[a] = old
            E.log(undo)
    builtins.setattr(o, a, v)

# ------------------------------------------------------------------ comprehensions
def listcomp(it, f, conds=()):
    if isinstance(it, (PyDict,)): it = it.keys()
    if is_sym_iter(it):
        out = []
        for k, v in seq_of(it):
            if k == 'c':
                if all(truth(h(v)) for h in conds): out.append(('c', f(v)))
            else: out.append(('s', merged_map(v, f, conds)))
        return PyList.of(out)
    if isinstance(it, SE): raise Unsupported('iterating a symbolic name')
    r = []
    for x in it:
        if all(truth(h(x)) for h in conds): r.append(f(x))
    return PyList(r)

class Gen:
    """generator over concrete data (lazy) or a symbolic family"""
    def __init__(self, it, f, conds):
        self.sym = None
        if isinstance(it, PyDict): it = it.keys()
        if is_sym_iter(it): self.sym = listcomp(it, f, conds)
        else: self.g = (f(x) for x in it if all(truth(h(x)) for h in conds))
    def _issym(self): return self.sym is not None and self.sym.segs is not None
    def _segs(self): return seq_of(self.sym) if self.sym is not None else [('c', v) for v in self.g]
    def __iter__(self): return iter(self.sym) if self.sym is not None else self.g
    def __next__(self):
        if self.sym is not None: 
            return self.sym.pop(0) 
        return next(self.g)

def gencomp(it, f, conds=()): return Gen(it, f, conds)
def setcomp(it, f, conds=()): return PySet(listcomp(it, f, conds))
def flat(l):
    out = []
    for k, v in seq_of(l):
        if k == 'c': out.extend(seq_of(v))
        else:
            inner = seq_of(v.elt) if isinstance(v.elt, (PyList, PySet, tuple, SSeq)) else None
            if inner is None: raise Unsupported('nested comprehension')
            for k2, w in inner:
                if k2 == 'c': out.append(('s', SSeq(v.vars, v.cond, w).rename()))
                else:
                    ivs, ic, ie = w.inst(); out.append(('s', SSeq(builtins.list(v.vars) + builtins.list(ivs), z3.And(v.cond, ic), ie).rename()))
    return PyList.of(out)
def dictcomp(it, kf, vf, conds=()):
    if isinstance(it, PyDict): it = it.keys()
    if is_sym_iter(it):
        from .graphdom import symdict
        return symdict(it, kf, vf, conds)
    d = PyDict()
    for x in it:
        if all(truth(h(x)) for h in conds): d[kf(x)] = vf(x)
    return d

# ------------------------------------------------------------------ builtins
class _M(type):
    pass
def facade(name, native, test, ctor):
    class Meta(type):
        def __instancecheck__(cls, x): return test(x)
        def __call__(cls, *a, **k): return ctor(*a, **k)
        def __eq__(cls, o): return o is cls or o is native
        def __hash__(cls): return hash(native)
        def __getattr__(cls, a): return builtins.getattr(native, a)
        def __repr__(cls): return repr(native)
        def __or__(cls, o): return cls
    return Meta(name, (), {})

def _int(x=0, *a):
    if isinstance(x, SN):
        if z3.is_int(x.t): return x
        return val(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    if isinstance(x, SB): return x._n()
    if isinstance(x, SE): raise Unsupported('int(symbolic name)')
    if hasattr(x, 'at'):
        return _int(x.item())
    return int(x, *a)
def _float(x=0.0):
    if isinstance(x, SN): return val(real(x.t))
    if isinstance(x, SB): return val(real(x.t))
    if hasattr(x, 'at'): return _float(x.item())
    return float(x)
def _bool(x=False):
    if isinstance(x, SB): return x
    if isinstance(x, SN): return mkb(x.t != 0)
    return bool(x)
def _str(x='', *a):
    if isinstance(x, SE): return x
    if isinstance(x, SN): return fstr((x, -1, ''))
    return str(x, *a)

def vis_int(x):
    return (isinstance(x, int)) or (isinstance(x, SN) and z3.is_int(x.t))
def vis_float(x): return isinstance(x, float) or (isinstance(x, SN) and z3.is_real(x.t))
VInt = facade('int', int, vis_int, _int)
VFloat = facade('float', float, vis_float, _float)
VBool = facade('bool', bool, lambda x: isinstance(x, (bool, SB)), _bool)
VStr = facade('str', str, lambda x: isinstance(x, (str, SE)), _str)

def vtype(*a):
    if len(a) != 1: return type(*a)
    x = a[0]
    if isinstance(x, (str, SE)): return VStr
    if isinstance(x, (bool, SB)): return VBool
    if vis_int(x): return VInt
    if vis_float(x): return VFloat
    if isinstance(x, PyFrozenSet): return PyFrozenSet
    if isinstance(x, PySet): return PySet
    if isinstance(x, list): return PyList
    return type(x)

class _Type:
    pass

def _tuple(it=()):
    if is_sym_iter(it):
        sg = list(seq_of(it))
        if all(k == 'c' for k, _ in sg): return tuple(v for _, v in sg)
        return PyList.of(sg) if True else None
    if hasattr(it, '_segs') and not isinstance(it, (list, tuple)): return tuple(v for _, v in it._segs())
    return tuple(it)
VTuple = facade('tuple', tuple, lambda x: isinstance(x, tuple), _tuple)

class _LM(type(PyList)):
    pass
def _mkinst(native, cls):
    class Meta(type):
        def __instancecheck__(c, x): return builtins.isinstance(x, native) or builtins.isinstance(x, cls)
    return Meta

VList = facade('list', list, lambda x: isinstance(x, list), lambda *a: PyList(*a))
VDict = facade('dict', dict, lambda x: isinstance(x, (dict, PyDict)) or getattr(x, '_isdict', False), lambda *a, **k: (a[0]._as_dict() if a and hasattr(a[0], '_as_dict') else PyDict(*a, **k)))
VSet = facade('set', set, lambda x: isinstance(x, PySet) and not isinstance(x, PyFrozenSet), lambda *a: PySet(*a))
VFrozen = facade('frozenset', frozenset, lambda x: isinstance(x, PyFrozenSet), lambda *a: PyFrozenSet(*a))
_TMAP = {}
def vtype2(*a):
    if len(a) != 1: return type(*a)
    r = vtype(*a)
    return {PyList: VList, PySet: VSet, PyFrozenSet: VFrozen, PyDict: VDict, tuple: VTuple}.get(r, r)

def vlen(x):
    if isinstance(x, PyList) or isinstance(x, PySet): return x.vlen()
    if hasattr(x, 'vlen'): return x.vlen()
    if isinstance(x, SE): raise Unsupported('len of a symbolic name')
    if isinstance(x, SSeq): return val(coll.seqlen(x))
    return len(x)

def vrange(*a):
    if all(isinstance(x, int) for x in a): return range(*a)
    a = [x if isinstance(x, (int, SN)) else as_int(x) for x in a]
    a = [(x.concrete() if isinstance(x, SN) and x.concrete() is not None else x) for x in a]
    if all(isinstance(x, int) for x in a): return range(*a)
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    st = a[2] if len(a) == 3 else 1
    if st != 1:
        if st == -1:
            n = z3.simplify(term(lo) - term(hi)); k = bound('k', I); n = z3.If(n > 0, n, 0)
            return SSeq([k], z3.And(k >= 0, k < n), val(term(lo) - k), n, True)
        raise Unsupported('range step')
    k = bound('k', I); lo_t = term(lo); n = z3.simplify(term(hi) - lo_t)
    n = n if E.implied(n >= 0) else z3.If(n > 0, n, 0)
    return SSeq([k], z3.And(k >= 0, k < n), val(lo_t + k), n, True)

SSeq.vlen = lambda self: val(coll.seqlen(self))
SSeq.__iter__ = lambda self: (_ for _ in ()).throw(Unsupported('native iteration of a symbolic family'))
def _sseq_getitem(self, i):
    return PyList.of([('s', self)])[i]
SSeq.__getitem__ = _sseq_getitem
SSeq._issym = lambda self: True
SSeq._segs = lambda self: [('s', self)]
SSeq.__contains__ = lambda self, x: E.fork(self.contains(x))

def single_seq(x):
    sg = list(seq_of(x))
    if len(sg) == 1 and sg[0][0] == 's': return sg[0][1]
    return None

def venumerate(it, start=0):
    if is_sym_iter(it):
        sg = list(seq_of(it)); out = []; off = term(start)
        for k, v in sg:
            if k == 'c': out.append(('c', (val(off), v))); off = z3.simplify(off + 1)
            elif v.dense:
                vs, c, e = v.inst()
                out.append(('s', SSeq(vs, c, (val(vs[0] + off), e), v.n, True))); off = z3.simplify(off + v.n)
            elif v.vars and len(sg) == 1:
                # arbitrary but injective numbering of the members, onto an initial segment
                vs, c, e = v.inst()
                f = E.fresh_fn('rank', *[x.sort() for x in vs], I)
                ws = [bound('w', x.sort()) for x in vs]
                c2 = z3.substitute(c, *zip(vs, ws))
                E.assume(quant(z3.ForAll, list(vs) + ws, z3.Implies(z3.And(c, c2, f(*vs) == f(*ws)), z3.And([a == b for a, b in zip(vs, ws)]))))
                E.assume(quant(z3.ForAll, list(vs), z3.Implies(c, f(*vs) >= 0)))
                out.append(('s', SSeq(vs, c, (val(f(*vs) + off), e), order=v.order)))
            else: raise Unsupported('enumerate of a symbolic family')
        return PyList.of(out)
    if hasattr(it, '_segs') and not isinstance(it, (list, tuple)): it = [v for _, v in it._segs()]
    return enumerate(it, start)

def vzip(*its):
    if any(is_sym_iter(x) for x in its):
        ls = [list(seq_of(x)) for x in its]
        ss = [single_seq(x) for x in its]
        if all(s is not None and s.dense for s in ss):
            n = ss[0].n
            for s in ss[1:]:
                if not E.implied(s.n == n):
                    if E.fork(s.n < n): n = s.n
            k = bound('k', I)
            return PyList.of([('s', SSeq([k], z3.And(k >= 0, k < n), tuple(s.inst([k])[2] for s in ss), n, True))])
        fams = [getattr(s, 'fam', None) for s in ss if s is not None]
        if all(s is not None for s in ss) and len({id(s.vars) if False else tuple(str(v) for v in s.vars) for s in ss}) == 1:
            return PyList.of([('s', SSeq(ss[0].vars, ss[0].cond, tuple(s.elt for s in ss), order=ss[0].order))])
        # concrete prefix zipped with symbolic
        if all(len(l) == len(ls[0]) and [k for k, _ in l] == [k for k, _ in ls[0]] for l in ls) and all(k == 'c' for k, _ in ls[0]):
            return zip(*[[v for _, v in l] for l in ls])
        if any(all(k == 'c' for k, _ in l) for l in ls):
            m = min(len(l) for l in ls if all(k == 'c' for k, _ in l))
            r = []
            for i in range(m):
                try: r.append(tuple(x[i] for x in its))
                except IndexError: break
            return PyList(r)
        raise Unsupported('zip of symbolic sequences')
    return zip(*[[v for _, v in x._segs()] if hasattr(x, '_segs') and not isinstance(x, list) else x for x in its])

def vsorted(it, key=None, reverse=False):
    if is_sym_iter(it): return sorted_sym(it, key, reverse)
    xs = [v for k, v in seq_of(it)]
    ks = [key(x) if key else x for x in xs]
    if not any(coll._symkey(k) for k in ks):
        return PyList([x for _, x in sorted(zip(ks, xs), key=lambda p: p[0], reverse=truth(reverse))])
    out = []   # insertion sort with forking comparisons
    for k, x in zip(ks, xs):
        j = len(out)
        while j > 0 and truth((k > out[j - 1][0]) if reverse else (k < out[j - 1][0])): j -= 1
        out.insert(j, (k, x))
    return PyList([x for _, x in out])

def sorted_sym(it, key, reverse):
    """the members in an order given by rank functions: a bijection onto [0, m), monotone in the key"""
    s = single_seq(it)
    if s is None or not isinstance(reverse, bool): raise Unsupported('sorting a symbolic sequence')
    vs, c, e = s.inst()
    kt = real(term(merged_map(SSeq(vs, c, e), key if key is not None else (lambda x: x)).map_key(vs)))
    m = E.fresh('len', I); els = [E.fresh_fn('el', I, v.sort()) for v in vs]; rk = E.fresh_fn('rank', *[v.sort() for v in vs], I)
    r, q = bound('r', I), bound('q', I)
    at = lambda x: [f(x) for f in els]
    sub = lambda t, x: z3.substitute(t, *builtins.list(zip(vs, at(x))))
    E.assume(m >= 0)
    E.assume(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < m), z3.And(sub(c, r), rk(*at(r)) == r)), patterns=[z3.MultiPattern(*at(r))] if at(r) else []))
    E.assume(quant(z3.ForAll, vs, z3.Implies(c, z3.And([rk(*vs) >= 0, rk(*vs) < m] + [f(rk(*vs)) == v for f, v in zip(els, vs)]))))
    a, b = (sub(kt, r), sub(kt, q)) if not reverse else (sub(kt, q), sub(kt, r))
    E.assume(z3.ForAll([r, q], z3.Implies(z3.And(r >= 0, r <= q, q < m), a <= b), patterns=[z3.MultiPattern(*(at(r) + at(q)))]))
    a, b = (sub(kt, z3.IntVal(0)), kt) if not reverse else (kt, sub(kt, z3.IntVal(0)))
    E.assume(quant(z3.ForAll, vs, z3.Implies(c, a <= b)))
    E.assume(quant(z3.ForAll, vs, z3.Implies(c, m > 0)))
    k = bound('k', I)
    return PyList.of([('s', SSeq([k], z3.And(k >= 0, k < m), subst(e, builtins.list(zip(vs, at(k)))), m, True))])
def _map_key(self, vs):
    """the element as a value over the given variables"""
    return self.inst(builtins.list(vs))[2]
SSeq.map_key = _map_key

def vsum(it, start=0):
    if is_sym_iter(it):
        from .snp import mk_sum
        r = start
        for k, v in seq_of(it):
            if k == 'c': r = r + v
            else:
                vs, c, e = v.inst()
                if isinstance(e, (SN, int, float, SB, bool)):
                    r = r + val(mk_sum(vs, c, numterm(e)))
                else: raise Unsupported('sum of symbolic non-numbers')
        return r
    r = start
    for k, x in seq_of(it): r = r + x
    return r

def vany(it):
    if is_sym_iter(it):
        return mkb(z3.Or([tt(v) if k == 'c' else v.exists(tt) for k, v in seq_of(it)] or [z3.BoolVal(False)]))
    if isinstance(it, Gen): return any(truth(x) for x in it)
    xs = [x for _, x in seq_of(it)]
    if any(isinstance(x, SB) for x in xs): return mkb(z3.Or([tt(x) for x in xs]))
    return any(truth(x) for x in xs)
def vall(it):
    if is_sym_iter(it):
        return mkb(z3.And([tt(v) if k == 'c' else v.forall(tt) for k, v in seq_of(it)] or [z3.BoolVal(True)]))
    if isinstance(it, Gen): return all(truth(x) for x in it)
    xs = [x for _, x in seq_of(it)]
    if any(isinstance(x, SB) for x in xs): return mkb(z3.And([tt(x) for x in xs]))
    return all(truth(x) for x in xs)
def tt(v):
    if isinstance(v, (SB, bool, SN)): return tob(v)
    if isinstance(v, PySet): return v.nonempty()
    if z3.is_bool(v): return v
    return z3.BoolVal(truth(v))

def _mm(name, pick):
    def f(*a, key=None, default=MISSING):
        if len(a) == 1:
            it = a[0]
            if hasattr(it, 'at') and hasattr(it, 'minmax1'): return it.minmax1(name)
            if is_sym_iter(it):
                l = PyList(it)
                if not l:
                    if default is not MISSING: return default
                    raise ValueError('%s() arg is an empty sequence' % name)
                return sorted_sym(it, key, name == 'max')[0]
            xs = [v for _, v in seq_of(it)]
        else: xs = list(a)
        if not xs:
            if default is not MISSING: return default
            raise ValueError('%s() arg is an empty sequence' % name)
        ks = [key(x) if key else x for x in xs]
        if key is None and all(hasattr(x, '_extremum') for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = r._extremum(x, name)
                if r is None: break
            if r is not None: return r
        if not any(isinstance(k, (SN, SB)) for k in ks):
            r = 0
            for i in range(1, len(xs)):
                if truth(ks[i] < ks[r] if name == 'min' else ks[i] > ks[r]): r = i
            return xs[r]
        if key is None and all(isinstance(x, (SN, int, float)) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                a_, b_ = numterm(x), numterm(r)
                if a_.sort() != b_.sort(): a_, b_ = real(a_), real(b_)
                r = val(z3.If(a_ < b_ if name == 'min' else a_ > b_, a_, b_))
            return r
        r = 0
        for i in range(1, len(xs)):
            if truth(ks[i] < ks[r] if name == 'min' else ks[i] > ks[r]): r = i
        return xs[r]
    return f
vmin, vmax = _mm('min', None), _mm('max', None)

def vabs(x): return abs(x)
def vround(x, *a):
    if isinstance(x, SN): raise Unsupported('round')
    return round(x, *a)
def vmap(f, *its):
    if any(is_sym_iter(x) for x in its):
        if len(its) == 1: return listcomp(its[0], f if f is not None else (lambda x: x))
        return listcomp(vzip(*its), lambda t: f(*t))
    return map(f, *its)
def vfilter(f, it):
    if is_sym_iter(it): return listcomp(it, lambda x: x, [f if f is not None else (lambda x: x)])
    return filter(lambda x: truth(f(x) if f is not None else x), [v for _, v in seq_of(it)])
def vreversed(it):
    if is_sym_iter(it):
        s = single_seq(it)
        if s is not None and s.dense:
            k = bound('k', I)
            return PyList.of([('s', SSeq([k], z3.And(k >= 0, k < s.n), s.inst([s.n - 1 - k])[2], s.n, True))])
        raise Unsupported('reversed symbolic')
    return reversed(it)
def viter(it): 
    if is_sym_iter(it): raise Unsupported('iter() of a symbolic sequence')
    return iter(it)
def vnext(it, *d):
    if isinstance(it, Gen) and it.sym is not None:
        l = it.sym
        if not l:
            if d: return d[0]
            raise StopIteration
        return l[0]
    return next(it, *d)
def vdivmod(a, b): return (a // b, a % b)
def visinstance(x, t):
    if isinstance(t, tuple): return any(visinstance(x, y) for y in t)
    if t is list: t = VList
    return isinstance(x, t)
def vhasattr(o, a):
    if not isinstance(a, str): raise Unsupported('hasattr')
    return hasattr(o, a)
def vcallable(x): return callable(x)
def vprint(*a, **k): return None
def _symbolic(v): return isinstance(v, (SE, SN, SB)) or (isinstance(v, (tuple, list)) and getattr(v, 'segs', None) is None and builtins.any(_symbolic(e) for e in v))
def fstr(*parts):
    if builtins.any(not isinstance(p, str) and isinstance(p[0], (tuple, list)) and _symbolic(p[0]) for p in parts):
        # a display of symbolic elements
        out = []
        for p in parts:
            if isinstance(p, str) or not (isinstance(p[0], (tuple, list)) and _symbolic(p[0])): out.append(p); continue
            l = isinstance(p[0], list); out.append('[' if l else '(')
            for i, e in builtins.enumerate(p[0]): out.extend(([', '] if i else []) + [(e, -1, '')])
            out.append(']' if l else ')')
        return fstr(*out)
    if all(not isinstance(p[0], (SE, SN, SB)) for p in parts if not isinstance(p, str)):
        out = []
        for p in parts:
            if isinstance(p, str): out.append(p)
            else:
                try: out.append(format(p[0] if p[1] < 0 else {114: repr, 115: str, 97: ascii}[p[1]](p[0]), p[2]))
                except EngineStop: out.append('<symbolic>')
        return ''.join(out)
    if len(parts) == 1 and isinstance(parts[0][0], SE): return parts[0][0]
    tpl = ''.join(p if isinstance(p, str) else '{}' for p in parts)
    args = [term(p[0]) if isinstance(p[0], (SE, SN, SB, str, int)) else node_const(str(p[0])) for p in parts if not isinstance(p, str)]
    f = z3.Function('fmt:' + tpl, *[a.sort() for a in args], Node)
    FMT.setdefault(tpl, f)
    if len(args) == 1:
        a, b = z3.Const('a', args[0].sort()), z3.Const('b', args[0].sort())
        E.axiom(z3.ForAll([a, b], z3.Implies(f(a) == f(b), a == b)))
    return SE(f(*args))
FMT = {}
def join(sep, it):
    if not isinstance(sep, str): return sep.join(it)
    it = list(it)
    if not builtins.any(isinstance(v, (SE, SN, SB)) for v in it): return sep.join(it)
    out = []
    for i, v in builtins.enumerate(it):
        if i and sep: out.append(sep)
        if not isinstance(v, (str, SE)): raise TypeError('sequence item %d: expected str instance' % i)
        out.append(v if isinstance(v, str) else (v, -1, ''))
    return fstr(*out)

def vdeepcopy(x, memo=None):
    if memo is None: memo = {}
    if isinstance(x, (SN, SB, SE, str, int, float, bool, type(None), types.FunctionType, type, Poison, SSeq)): return x
    if id(x) in memo: return memo[id(x)][0]
    if hasattr(x, '__deepcopy__'): r = x.__deepcopy__(memo)
    elif isinstance(x, tuple): r = tuple(vdeepcopy(v, memo) for v in x)
    elif isinstance(x, list): r = PyList([vdeepcopy(v, memo) for v in x])
    elif isinstance(x, dict): r = {k: vdeepcopy(v, memo) for k, v in x.items()}
    elif hasattr(x, '__dict__') and not isinstance(x, types.ModuleType):
        r = object.__new__(type(x)); memo[id(x)] = (r, x)
        for k, v in x.__dict__.items(): r.__dict__[k] = vdeepcopy(v, memo)
    else: r = x
    memo[id(x)] = (r, x)
    return r
def vcopy(x):
    if isinstance(x, (SN, SB, SE, str, int, float, bool, type(None), tuple)): return x
    if hasattr(x, '__copy__'): return x.__copy__()
    if hasattr(x, 'copy') and not hasattr(x, '__dict__'): return x.copy()
    if isinstance(x, list): return PyList(x)
    if hasattr(x, '__dict__'):
        r = object.__new__(type(x)); r.__dict__.update(x.__dict__); return r
    return x

def tick(box=[0]):
    box[0] += 1
    if box[0] % 200000 == 0: raise Unsupported('while loop does not terminate symbolically')

class WhileGuard:
    def __init__(self, carried=(), lim=300): self.n = 0; self.lim = lim; self.carried = carried
    def __call__(self):
        self.n += 1
        c = E.while_contract
        if c is not None and (self.n > 1 or c.applies()):
            # loop contract: established on entry, arbitrary state satisfying it at the head, re-established by the body
            if self.n == 1:
                if self.carried or E.loopvars: raise Unsupported('while loop carries %s' % (self.carried,))
                self.tok = c.enter(); return True
            c.again(self.tok); raise Infeasible()
        if self.n > self.lim: raise Unsupported('while loop exceeds %d iterations symbolically' % self.lim)
        return True

BUILTINS = dict(list=VList, dict=VDict, set=VSet, frozenset=VFrozen, tuple=VTuple, int=VInt, float=VFloat, bool=VBool, str=VStr,
    len=vlen, range=vrange, enumerate=venumerate, zip=vzip, sorted=vsorted, sum=vsum, any=vany, all=vall, min=vmin, max=vmax,
    abs=vabs, round=vround, map=vmap, filter=vfilter, reversed=vreversed, iter=viter, next=vnext, divmod=vdivmod,
    isinstance=visinstance, hasattr=vhasattr, print=vprint, setattr=vsetattr, type=vtype2)
