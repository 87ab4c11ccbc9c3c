"""Discharging obligations: z3 first, cvc5 as second back end; lemma instances for sums, reciprocals, opaque maps."""
import time, subprocess, tempfile, os, shutil
import z3
from .core import *
from .core import E, Obligation, Enough

def subterms(ts):
    seen, st, out = set(), list(ts), []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            out.append(x); st.extend(x.children())
    return out

def has_var(t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_var(x): return True
        if z3.is_quantifier(x): 
            return True
        st.extend(x.children())
    return False

CONGR = {}   # function name -> handler(app1, app2) -> list of (hyps, z3 equality to prove) meaning args equal

def lemma_instances(forms, depth=0):
    """sound instances added as hypotheses"""
    out = []
    apps = subterms(forms)
    for a in apps:
        if a.decl().name() == 'inv' and not has_var(a):
            x = a.arg(0)
            out.append(z3.Implies(x != 0, x * a == 1))
            out.append(z3.Implies(x > 0, a > 0)); out.append(z3.Implies(x < 0, a < 0))
        elif a.decl().name() == 'sqrt' and not has_var(a):
            out.append(z3.Implies(a.arg(0) >= 0, z3.And(a >= 0, a * a == a.arg(0))))
    return out

def congruence(forms, ms):
    """equalities between applications of opaque functions to extensionally equal lambdas, proved pointwise"""
    out = []
    groups = {}
    for a in subterms(forms):
        if a.num_args() and any(is_fun_arg(x) for x in a.children()) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not has_var_free(a):
            groups.setdefault(a.decl().name() + str(a.decl().domain(0)), []).append(a)
    for g in groups.values():
        reps = []
        for a in g:
            done = False
            for b in reps:
                if a.decl().arity() != b.decl().arity() or not a.decl().eq(b.decl()): continue
                if z3.eq(a, b): done = True; break
                goals = []
                for i in range(a.num_args()):
                    x, y = a.arg(i), b.arg(i)
                    if is_fun_arg(x):
                        goals.append(pointwise(x, y))
                    else: goals.append(x == y)
                gl = z3.And(goals)
                hyp = prefix_hyp(a)
                if quick_valid(list(E.pc) + hyp, gl, ms):
                    out.append(a == b); done = True; break
            if not done: reps.append(a)
    return out

def prefix_hyp(a): return []

def is_fun_arg(x):
    return z3.is_array(x)

def has_var_free(t):
    """mentions a de Bruijn variable not bound inside t"""
    def go(x, d):
        if z3.is_var(x): return z3.get_var_index(x) >= d
        if z3.is_quantifier(x): return go(x.body(), d + x.num_vars())
        return any(go(c, d) for c in x.children())
    return go(t, 0)

_k = [0]
def pointwise(x, y):
    _k[0] += 1
    ds = []
    s = x.sort()
    c = z3.Const('pt?%d' % _k[0], s.domain())
    return ev(x, c) == ev(y, c)
def ev(f, c):
    if z3.is_quantifier(f) and f.is_lambda(): return z3.simplify(z3.substitute_vars(f.body(), c)) if f.num_vars() == 1 else z3.Select(f, c)
    return z3.simplify(z3.Select(f, c))

def quick_valid(hyps, goal, ms):
    goal = z3.simplify(goal, som=True)
    if z3.is_true(goal): return True
    s = z3.Solver(); s.set('timeout', ms)
    for a in E.axioms + E.gfacts: s.add(a)
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    for l in lemma_instances([goal]): s.add(l)
    t = time.time(); r = s.check(); E.solver_secs += time.time() - t; E.queries += 1
    return r == z3.unsat

def split_goal(g):
    if z3.is_and(g): return [h for c in g.children() for h in split_goal(c)]
    if z3.is_eq(g) and z3.is_bool(g.arg(0)):
        for x, y in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
            if z3.is_and(y): return [z3.Implies(x, c) for c in y.children() if not z3.eq(c, x)] + [z3.Implies(y, x)]
    return [g]

def norm(g):
    return z3.simplify(g, som=True, push_ite_arith=False) if False else z3.simplify(g)

def skolem(g, fresh):
    """strip outer universal quantifiers / implications of a goal -> (hyps, goal)"""
    hyps = []
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            cs = [z3.Const('sk?%d' % next(E.ctr), g.var_sort(i)) for i in range(g.num_vars())]
            g = z3.substitute_vars(g.body(), *reversed(cs)); continue
        if z3.is_implies(g):
            hyps.append(g.arg(0)); g = g.arg(1); continue
        if z3.is_not(g) and z3.is_quantifier(g.arg(0)) and g.arg(0).is_exists():
            q = g.arg(0)
            cs = [z3.Const('sk?%d' % next(E.ctr), q.var_sort(i)) for i in range(q.num_vars())]
            hyps.append(z3.substitute_vars(q.body(), *reversed(cs))); g = z3.BoolVal(False); continue
        return hyps, g

def open_exists(hyps):
    out = []
    for h in hyps:
        if z3.is_quantifier(h) and h.is_exists():
            cs = [z3.Const('sk?%d' % next(E.ctr), h.var_sort(i)) for i in range(h.num_vars())]
            out.append(z3.substitute_vars(h.body(), *reversed(cs)))
        else: out.append(h)
    return out

def linear_var(t):
    """t = var0 + rest with the bound variable once, coefficient 1 -> rest, else None"""
    if z3.is_var(t): return z3.IntVal(0)
    if z3.is_add(t):
        vs = [c for c in t.children() if has_var(c)]
        if len(vs) == 1:
            r = linear_var(vs[0])
            if r is not None: return z3.simplify(r + z3.Sum([c for c in t.children() if not has_var(c)]))
    return None

def int_instances(hyps, g, limit=120):
    """instances of hypotheses quantified over one integer: v + c aligned with the integer arguments of the same function elsewhere"""
    ground = {}
    for a in subterms([g] + [h for h in hyps if not z3.is_quantifier(h)]):
        if a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not has_var(a):
            for i in range(a.num_args()):
                if a.arg(i).sort() == I: ground.setdefault((a.decl().name(), i), {})[z3.simplify(a.arg(i)).get_id()] = z3.simplify(a.arg(i))
    out, seen = [], set()
    for h in hyps:
        q, neg = h, False
        if z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_exists(): q, neg = h.arg(0), True
        if not (z3.is_quantifier(q) and (neg or q.is_forall()) and q.num_vars() == 1 and q.var_sort(0) == I): continue
        if any(z3.is_quantifier(x) for x in q.body().children()): continue
        for a in subterms([q.body()]):
            if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED): continue
            for i in range(a.num_args()):
                if a.arg(i).sort() != I or (a.decl().name(), i) not in ground: continue
                r = linear_var(a.arg(i))
                if r is None: continue
                for t in ground[(a.decl().name(), i)].values():
                    inst = z3.simplify(t - r)
                    k = (q.get_id(), inst.get_id())
                    if k in seen: continue
                    seen.add(k); b = z3.substitute_vars(q.body(), inst); out.append(z3.simplify(z3.Not(b) if neg else b))
                    if len(out) >= limit: return out
    return out

def poly_equal(g):
    if z3.is_eq(g) and g.arg(0).sort() in (R, I):
        d = z3.simplify(g.arg(0) - g.arg(1), som=True)
        return z3.is_rational_value(d) and d.numerator_as_long() == 0 or z3.is_int_value(d) and d.as_long() == 0
    return False

def conditions(t, acc=None):
    """ite conditions in a term"""
    out = []
    for a in subterms([t]):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and not has_var(a.arg(0)): out.append(a.arg(0))
    return out

def prove(eng, name, goal, extra=()):
    t0 = time.time()
    goal = tob(goal)
    hyps0, g0 = skolem(goal, None)
    status, backend, detail = 'discharged', '', ''
    for g in split_goal(g0):
        h2, g = skolem(g, None)
        for gg in split_goal(g):
            ok, b, d = prove1(list(eng.pc) + list(extra) + hyps0 + h2, gg)
            backend = b if not backend or backend == b else backend + '+' + b
            if not ok:
                status, detail = ("unknown" if d.startswith("z3: unknown") or getattr(eng, 'slow', False) else "failed"), d; break
        if status != "discharged": break
    o = Obligation(name, status, backend or 'z3', time.time() - t0, detail)
    eng.obls.append(o)
    if status == 'failed':
        if eng.on_fail: eng.on_fail(o)
        eng.nfailed += 1
        if eng.max_failed and eng.nfailed >= eng.max_failed: raise Enough('%d failed obligations' % eng.nfailed)
    eng.backends[o.backend] = eng.backends.get(o.backend, 0) + 1
    return status == 'discharged'

def set_instances(hyps, g):
    """instances of hypotheses quantified over sets (or other array sorts) at the set constants of the goal"""
    cands = {}
    for a in subterms([g] + list(hyps)):
        if z3.is_array(a) and a.num_args() == 0 and not has_var(a): cands.setdefault(str(a.sort()), {})[a.get_id()] = a
    out, st = [], list(hyps)
    while st and len(out) < 200:
        h = st.pop()
        if z3.is_and(h): st.extend(h.children()); continue
        if z3.is_not(h) and z3.is_or(h.arg(0)): st.extend(z3.Not(c) for c in h.arg(0).children()); continue
        if z3.is_not(h) and z3.is_quantifier(h.arg(0)) and h.arg(0).is_exists():
            q = h.arg(0); neg = True
        elif z3.is_quantifier(h) and h.is_forall(): q, neg = h, False
        else: continue
        if not any(str(q.var_sort(i)) in cands for i in range(q.num_vars())): continue
        if q.num_vars() > 2: continue
        opts = [list(cands[str(q.var_sort(i))].values()) if str(q.var_sort(i)) in cands else None for i in range(q.num_vars())]
        if any(o is None for o in opts): continue
        import itertools
        for ts in itertools.product(*opts):
            b = z3.substitute_vars(q.body(), *reversed(ts))
            out.append(z3.Not(b) if neg else b)
    return out

def relevant(hyps, goal): return hyps

def prove1(hyps, g):
    gs = z3.simplify(g)
    h2, gs = skolem(gs, None)
    if h2: hyps = hyps + h2; gs = z3.simplify(gs)
    if z3.is_true(gs): return True, 'z3', ''
    if poly_equal(gs): return True, 'z3', ''
    key = None
    s0 = hyps
    if len(E.gfacts) + len(E.axioms) > 6:
        # most equalities follow from the terms alone
        r, m = z3try([h for h in hyps if not has_quant(h)], gs, [], 400, facts=[])
        if r == z3.unsat: return True, 'z3', ''
    r, m = z3try(hyps, gs, [], int(QT * 0.25))
    if r == z3.unsat: return True, 'z3', ''
    if E.late and r == z3.sat:
        hyps = hyps + list(E.late); r, m = z3try(hyps, gs, [], int(QT * 0.5))
        if r == z3.unsat: return True, 'z3', ''
    elif E.late: hyps = hyps + list(E.late)
    si = set_instances(hyps + E.gfacts, gs)
    if si:
        hyps = hyps + [z3.simplify(x) for x in si]
        r, m = z3try(hyps, gs, congruence([gs] + hyps[-len(si):], 1000), int(QT * 0.5))
        if r == z3.unsat: return True, 'z3', ''
    hyps = open_exists(hyps)
    ii = int_instances(hyps, gs)
    if ii:
        hyps = hyps + ii
        r, m = z3try([h for h in hyps if not has_quant(h)], gs, [], int(QT * 0.25))      # the instances alone
        if r == z3.unsat: return True, 'z3', ''
    base = [gs] + [h for h in hyps]
    lem = lemma_instances(base)
    cong = congruence([gs], 3000)
    cong += congruence([gs] + [h for h in hyps if not z3.is_quantifier(h)], 1000) if not cong else []
    r, m = z3try(hyps, gs, lem + cong, QT)
    if r == z3.unsat: return True, 'z3', ''
    # case split on ite conditions with polynomial normalisation
    if z3.is_eq(gs) or z3.is_le(gs) or z3.is_ge(gs) or z3.is_lt(gs) or z3.is_gt(gs):
        ok = case_prove(hyps + cong, gs, 0, time.time() + QT / 1000.0 * 2)
        if ok: return True, 'z3', ''
    first = r
    if r == z3.unknown:
        ok = cvc5_try(hyps + lem + cong, gs)
        if ok == 'unsat': return True, 'cvc5', ''
        detail = 'z3: unknown; cvc5: %s; goal: %s' % (ok, short(gs))
    else:
        detail = 'z3: %s; goal: %s; countermodel: %s' % (r, short(gs), m)
    return False, 'z3', detail

def short(x, n=600):
    s = str(x).replace('\n', ' ')
    import re
    s = re.sub(r' +', ' ', s)
    return s if len(s) < n else s[:n] + '...'

def z3try(hyps, g, lem, ms, facts=None):
    s = z3.Solver(); s.set('timeout', ms)
    for a in E.axioms + E.gfacts if facts is None else facts: s.add(a)
    for h in hyps: s.add(h)
    for l in lem: s.add(l)
    s.add(z3.Not(g))
    t = time.time(); r = s.check(); E.solver_secs += time.time() - t; E.queries += 1
    m = ''
    if r == z3.sat:
        try: m = short(s.model(), 800)
        except z3.Z3Exception: pass
    return r, m

def case_prove(hyps, g, depth, deadline):
    if time.time() > deadline or depth > 12: return False
    g = z3.simplify(g)
    if z3.is_true(g) or poly_equal(g): return True
    cs = conditions(g)
    # innermost condition first
    cs = [c for c in cs if not any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE for x in subterms([c]))]
    if not cs:
        cong = congruence([g], 1000)
        r, _ = z3try(hyps, g, lemma_instances([g] + hyps) + cong, 3000)
        if r != z3.unsat and cong and z3.is_eq(g):
            g2 = z3.simplify(z3.substitute(g, *[(c.arg(0), c.arg(1)) for c in cong]))
            if poly_equal(g2): return True
        return r == z3.unsat
    c = cs[0]
    for v in (True, False):
        lit = c if v else z3.Not(c)
        r, _ = z3try(hyps, z3.Not(lit), [], 1000)
        if r == z3.unsat: continue     # branch impossible
        g2 = z3.substitute(g, (c, z3.BoolVal(v)))
        if not case_prove(hyps + [lit], g2, depth + 1, deadline): return False
    return True

def cvc5_try(hyps, g, secs=10):
    exe = shutil.which('cvc5')
    if not exe: return 'absent'
    s = z3.Solver()
    for a in E.axioms + E.gfacts: s.add(a)
    for h in hyps: s.add(h)
    s.add(z3.Not(g))
    txt = s.to_smt2()
    if 'lambda' in txt: txt = '(set-logic HO_ALL)\n' + txt
    else: txt = '(set-logic ALL)\n' + txt
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    t = time.time()
    try:
        p = subprocess.run([exe, '--tlimit=%d' % (secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'error'
    except subprocess.TimeoutExpired: out = 'timeout'
    finally:
        os.unlink(f.name)
    E.solver_secs += time.time() - t; E.queries += 1
    return out if out in ('sat', 'unsat', 'unknown', 'timeout') else 'error'
