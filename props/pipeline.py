from .mcommon import *
NUMERIC = False
LEVEL = 'proof'
CM = 'ylearn.causal_model.model.CausalModel.'
FUNCTIONS = [CM + n for n in ('identify', 'estimate', 'identify_estimate')] + ['ylearn.causal_model.utils.check_nodes', 'ylearn.utils._common.check_cols']
ASSUMPTIONS = ['id, get_backdoor_set, is_valid_backdoor_set and get_frontdoor_set are used through their contracts (discharged under C04, C06, C07); an identification method either answers or raises IdentificationError',
               'an estimator is known through fit(data, outcome, treatment, ...) and estimate(data, quantity) only',
               'the simple backdoor set is taken as documented (parents of the treatments), not as a valid set']
BOUND = 'graphs of 2-6 nodes, data frames of 20-60 rows'
T, O = z3.Function('T', Node, B), z3.Function('O', Node, B)
A1, A2 = z3.Function('A1', Node, B), z3.Function('A2', Node, B)
ADJ, COV = z3.Function('ADJ', Node, B), z3.Function('COV', Node, B)

class Data:
    """a data frame, known by its columns"""
    def __init__(self, name): self.f = z3.Function('col_' + name, Node, B)
    @property
    def columns(self): return PySet.of_pred(lambda n: self.f(n))
    def __bool__(self): raise ValueError('The truth value of a DataFrame is ambiguous')
class Effect:
    def __init__(self, *k): self.k = k
    def _subst(self, ps): return Effect(*[subst(v, ps) if hasattr(v, '_subst') else v for v in self.k])
    def _terms(self): return [t for v in self.k for t in pyfac.val_terms(v)]
class Est:
    """an estimator: remembers what it was fitted with"""
    def __init__(self, fitted): self._is_fitted = fitted; self.kw = None; self.orig = None
    def __deepcopy__(self, memo):
        c = Est(self._is_fitted); c.kw = self.kw; c.orig = self if self.orig is None else self.orig; return c
    def fit(self, data, outcome, treatment, adjustment=None, covariate=None, **kw):
        for nm, v in (('outcome', outcome), ('treatment', treatment), ('adjustment', adjustment), ('covariate', covariate)):
            E.prove('names given to the estimator select columns: ' + nm, not isinstance(v, PySet))
        self.kw = dict(data=data, outcome=outcome, treatment=treatment, adjustment=adjustment, covariate=covariate, rest=kw); self._is_fitted = True
        return self
    def estimate(self, data=None, quantity=None, **kw): return Effect(self, data, quantity, self.kw)
    def _subst(self, ps):
        c = Est(self._is_fitted); c.orig = self.orig; c.kw = self.kw and {k: subst(v, ps) if hasattr(v, '_subst') else v for k, v in self.kw.items()}; return c
    def _terms(self): return [t for v in (self.kw or {}).values() for t in pyfac.val_terms(v)]

def names(kind, p, nm):
    """a treatment or outcome argument: one name, a list or a set; and what it denotes"""
    if kind == 'name': n = E.fresh_node(nm); return n, (lambda q: q == n.t)
    if kind == 'list':
        return list_of(p), p
    return PySet.of_pred(lambda n: p(n)), p
def list_of(p): return PyList.of(seq_of(PySet.of_pred(lambda n: p(n))))
def nonempty(p): E.assume(z3.Exists([a], p(a)))
def inside(p, q): return all1(lambda n: z3.Implies(p(n), q(n)))
def member(v, n):
    if isinstance(v, (PySet, PyList)) or hasattr(v, 'as_pred'): return vcontains(v, SE(n))
    if isinstance(v, list): return z3.Or([member(e, n) for e in v]) if v else z3.BoolVal(False)
    return v.t == n
def denotes(name, v, p):
    if v is None: E.prove(name, False); return
    E.prove(name, all1(lambda n: member(v, n) == p(n)))
def agrees(v, p): return E.implied(all1(lambda n: member(v, n) == p(n)))

def setup_model(x, kind, data=None):
    g = graph(x); t, tp = names(kind, T, 't'); o, op = names(kind, O, 'o')
    if kind != 'name': nonempty(T); nonempty(O)
    m = x.CausalModel(causal_graph=g, data=data)
    return g, m, t, tp, o, op
def known(*ps): return z3.And([inside(p, lambda n: K(n)) for p in ps])

class Methods:
    """contracts of the identification methods: an answer that depends on the query only, or a failure"""
    def __init__(self, x, tp, op, may_fail=True):
        self.x, self.tp, self.op, self.calls = x, tp, op, []
        C = x.CausalModel; I_ = x.u.IdentificationError
        def ask(nm, style, tr, ou):
            denotes('%s is asked for the outcome' % nm, ou, op); denotes('%s is asked for the treatment' % nm, tr, tp)
            if may_fail and E.fork(z3.Bool('%s %s fails' % (nm, style))): self.calls.append((nm, style, None)); raise I_('fails')
            r = ('answer of', nm, style); self.calls.append((nm, style, r)); return r
        def id_(s, y, x_, prob=None, graph=None): return ask('ID', '', x_, y)
        def bd(s, treatment, outcome, adjust='simple', print_info=False): return ask('backdoor', adjust, treatment, outcome)
        def fd(s, treatment, outcome, adjust='simple'): return ask('frontdoor', adjust, treatment, outcome)
        self.s = [Stub(C, 'id', id_), Stub(C, 'get_backdoor_set', bd), Stub(C, 'get_frontdoor_set', fd)]
    def __enter__(self):
        for s in self.s: s.__enter__()
        return self
    def __exit__(self, *a):
        for s in self.s: s.__exit__(*a)

def identify(x, method, kind, style=None):
    g, m, t, tp, o, op = setup_model(x, kind)
    with Methods(x, tp, op) as M:
        try: r = m.identify(t, o, identify_method=method if style is None else (method, style)) if method else m.identify(t, o)
        except AssertionError as e:
            if getattr(e, '_modelled', False): raise
            E.prove('refused only for unknown names', z3.Not(known(tp, op))); return
        except x.u.IdentificationError:
            if method not in ('auto', None, 'general', 'backdoor', 'frontdoor'): return
            E.prove('failure only if every method asked for fails', bool(M.calls) and all(c[2] is None for c in M.calls))
            if method in ('auto', None): E.prove('every method was tried', sorted(c[0] for c in M.calls) == ['ID', 'backdoor', 'frontdoor'])
            return
        E.prove('unknown names are refused', known(tp, op))
        if method in ('auto', None):
            w = {c[0]: c[2] for c in M.calls if c[2] is not None}
            E.prove('every method was tried', sorted(c[0] for c in M.calls) == ['ID', 'backdoor', 'frontdoor'])
            E.prove('simple sets', all(c[1] in ('', 'simple') for c in M.calls))
        elif method == 'general': w = {'ID': ('answer of', 'ID', '')}
        elif method in ('backdoor', 'frontdoor'): w = {method: ('answer of', method, style)}
        else: E.prove('unknown methods are refused', False); return
        E.prove('the answers of the methods under their names', dict(r) == w)
        denotes('the treatment is remembered', m.treatment, tp); denotes('the outcome is remembered', m.outcome, op)
        unchanged(g)
def h_identify_default(x): identify(x, None, 'set')
def h_identify_auto_names(x): identify(x, 'auto', 'name')
def h_identify_general(x): identify(x, 'general', 'set')
def h_identify_general_list(x): identify(x, 'general', 'list')
for _s in ('simple', 'minimal', 'all'):
    for _k in ('set', 'name'):
        globals()['h_identify_backdoor_%s_%s' % (_s, _k)] = lambda x, s=_s, k=_k: identify(x, 'backdoor', k, s)
        globals()['h_identify_frontdoor_%s_%s' % (_s, _k)] = lambda x, s=_s, k=_k: identify(x, 'frontdoor', k, s)
def h_identify_other(x): identify(x, 'sidedoor', 'set', 'simple')

def estimate(x, kind='set', adj=None, cov=None, fitted=False, own=False, given=True, before=None, history=None):
    """own: the model's own data; given: treatment and outcome are arguments (else those identified before); before: sets found earlier"""
    mdata, data = Data('own'), Data('given')
    g, m, t, tp, o, op = setup_model(x, kind, mdata)
    E.assume(known(tp, op))
    d = mdata if own else data
    if history == 'identified' or not given:      # identify() was called before, for other names when they are given now
        t0, t0p = (t, tp) if not given else names(kind, z3.Function('T1', Node, B), 't1')
        o0, o0p = (o, op) if not given else names(kind, z3.Function('O1', Node, B), 'o1')
        m.treatment, m.outcome = t0, o0
    T0, O0 = z3.Function('T0', Node, B), z3.Function('O0', Node, B)
    if before is not None:      # sets found earlier, for any treatment and outcome
        m._adjustment_set = [PySet.of_pred(lambda n: A1(n)), PySet.of_pred(lambda n: A2(n))][:before]; E.assume(inside(A1, lambda n: K(n)))
        m._adjustment_query = (PySet.of_pred(lambda n: T0(n)), PySet.of_pred(lambda n: O0(n)))
    adjp = covp = None; a_ = c_ = None
    if adj: a_, adjp = names(adj, ADJ, 'adj')
    if cov: c_, covp = names(cov, COV, 'cov')
    for p in (adjp, covp):
        if p is not None: E.assume(all1(lambda n: z3.Implies(p(n), z3.Not(op(n)))))       # the outcome is not adjusted for
    est = Est(fitted); q = object(); checked = []; simple = []
    valid = {}
    def is_valid(s, set_, treatment, outcome):
        """contract of is_valid_backdoor_set: a function of the three sets"""
        E.prove('precondition of is_valid_backdoor_set', all1(lambda n: z3.Implies(member(set_, n), z3.And(K(n), z3.Not(op(n))))))
        denotes('validity for the treatment in question', treatment, tp); denotes('validity for the outcome in question', outcome, op)
        p = set_; checked.append(p)
        for p0, b in valid.items():
            if p0 is not None and agrees(p, p0): return E.fork(b)
        return E.fork(z3.Bool('set %d is valid' % len(checked)))
    both = (lambda n: z3.Or(ADJ(n), COV(n))) if adj and cov else ADJ if adj else COV if cov else A1
    VALID = z3.Bool('the set is valid'); valid[both] = VALID
    def simple_set(s, treatment, outcome, adjust='simple', print_info=False):
        denotes('the simple set is that of the treatment in question', treatment, tp); denotes('the simple set is that of the outcome in question', outcome, op)
        E.prove('style of the default set', adjust == 'simple')
        return (list_of(lambda n: z3.Function('SIMPLE', Node, B)(n)), object())
    with Stub(x.CausalModel, 'is_valid_backdoor_set', is_valid), Stub(x.CausalModel, 'get_backdoor_set', simple_set):
        kw = {}
        if given: kw.update(treatment=t, outcome=o)
        if adj: kw['adjustment'] = a_
        if cov: kw['covariate'] = c_
        if not own: kw['data'] = data
        cols = [p for p in ((tp, op) if given else ()) + (() if adjp is None else (adjp,)) + (() if covp is None else (covp,))]
        ok = z3.And([inside(p, lambda n: d.f(n)) for p in cols] + [inside(p, lambda n: K(n)) for p in (adjp, covp) if p is not None])
        try: r = m.estimate(est, quantity=q, **kw)
        except AssertionError as e:
            if getattr(e, '_modelled', False): raise
            E.prove('refused only for unknown names or an invalid set', z3.Not(z3.And(ok, VALID if adj or cov else z3.BoolVal(True))))
            E.prove('nothing fitted then', est.kw is None); return
        E.prove('unknown names are refused', ok)
        if adj or cov: E.prove('an invalid adjustment set is refused', VALID)
        E.prove('the estimate of the model on the data', isinstance(r, Effect) and r.k[0] is est and r.k[1] is d and r.k[2] is q)
        if fitted: E.prove('a fitted model is not fitted again', est.kw is None); return
        k = est.kw; E.prove('the model is fitted', k is not None)
        E.prove('fitted on the data', k['data'] is d)
        denotes('fitted for the treatment', k['treatment'], tp); denotes('fitted for the outcome', k['outcome'], op)
        if adj or cov:
            for nm, p in (('adjustment', adjp), ('covariate', covp)):
                if p is None: E.prove('no ' + nm, k[nm] is None)
                else: denotes('the given ' + nm, k[nm], p)
        else:
            E.prove('no covariate', k['covariate'] is None)
            SIMPLE = z3.Function('SIMPLE', Node, B)
            if before is None or agrees(k['adjustment'], SIMPLE): denotes('adjusted for the simple set', k['adjustment'], SIMPLE)
            else:
                denotes('adjusted for the set found before', k['adjustment'], A1)
                E.prove('it was found for this treatment', all1(lambda n: T0(n) == tp(n))); E.prove('it was found for this outcome', all1(lambda n: O0(n) == op(n)))
        unchanged(g)
def h_estimate_default(x): estimate(x)
def h_estimate_default_names(x): estimate(x, 'name', own=True)
def h_estimate_identified(x): estimate(x, given=False)
def h_estimate_identified_names(x): estimate(x, 'name', given=False, own=True)
def h_estimate_found(x): estimate(x, before=2)
def h_estimate_found_names(x): estimate(x, 'name', before=1)
def h_estimate_found_identified(x): estimate(x, given=False, before=1)
def h_estimate_adjustment(x): estimate(x, adj='set')
def h_estimate_adjustment_list(x): estimate(x, 'name', adj='list')
def h_estimate_adjustment_other(x): estimate(x, adj='set', history='identified')
def h_estimate_covariate(x): estimate(x, cov='set', given=False)
def h_estimate_covariate_list(x): estimate(x, 'list', cov='list')
def h_estimate_both(x): estimate(x, 'name', adj='list', cov='set')
def h_estimate_both_found(x): estimate(x, adj='set', cov='list', before=1, history='identified')
def h_estimate_fitted(x): estimate(x, adj='list', fitted=True)
def h_estimate_fitted_default(x): estimate(x, 'name', fitted=True, given=False)

def identify_estimate(x, method, kind):
    d = Data('given'); g, m, t, tp, o, op = setup_model(x, kind)
    est = Est(False); q = object(); style = method[1] if isinstance(method, tuple) else method
    k = E.fresh('nsets', I); E.assume(k >= 0); SET = z3.Function('SETS', I, Node, B); SIMPLE = z3.Function('SIMPLE', Node, B); i0 = z3.Const('i0', I)
    def bd(s, treatment, outcome, adjust='simple', print_info=False):
        denotes('sets for the treatment', treatment, tp); denotes('sets for the outcome', outcome, op)
        E.prove('style of the sets', adjust == ('all' if style in (None, 'auto') else style))
        if adjust == 'simple': return (list_of(SIMPLE), object())
        j = bound('j', I)
        return (PyList.of([('s', SSeq([j], z3.And(j >= 0, j < k), PySet.of_pred(lambda n: SET(j, n)), k, True))]), object())
    with Stub(x.CausalModel, 'get_backdoor_set', bd):
        kw = {} if method is None else dict(identify_method=method)
        ok = z3.And(known(tp, op), inside(tp, lambda n: d.f(n)), inside(op, lambda n: d.f(n)))
        try: r = m.identify_estimate(d, o, t, est, quantity=q, **kw)
        except AssertionError as e:
            if getattr(e, '_modelled', False): raise
            E.prove('refused only for unknown names', z3.Not(ok)); return
        E.prove('unknown names are refused', ok)
        E.prove("the caller's estimator is left alone", est.kw is None and not est._is_fitted)
        ms, es = seq_of(r['est_models']), seq_of(r['effects'])
        E.prove('one model and one effect per set', len(ms) == len(es) == 1 and ms[0][0] == es[0][0])
        if style == 'simple': pairs = [(None, ms[0][1], es[0][1], SIMPLE)]
        else:
            vs, c, e = ms[0][1].inst(); ws, c2, f = es[0][1].inst()
            E.prove('a model per set, in order', len(vs) == 1 and vs[0].sort() == I)
            E.prove('an effect per set, in order', len(ws) == 1 and ws[0].sort() == I)
            v, w = vs[0], ws[0]; E.prove('same positions', z3.ForAll([i0], z3.And(z3.substitute(c, (v, i0)) == z3.And(i0 >= 0, i0 < k), z3.substitute(c2, (w, i0)) == z3.And(i0 >= 0, i0 < k))))
            at = E.fresh('at', I); E.assume(z3.And(at >= 0, at < k))
            pairs = [(at, subst(e, [(v, at)]), subst(f, [(w, at)]), lambda n: SET(at, n))]
        for at, mod, eff, p in pairs:
            E.prove('a copy of the estimator', isinstance(mod, Est) and mod.orig is est and mod.kw is not None)
            K_ = mod.kw; E.prove('fitted on the data', K_['data'] is d)
            denotes('fitted for the treatment', K_['treatment'], tp); denotes('fitted for the outcome', K_['outcome'], op)
            E.prove('adjusting by covariates only', K_['adjustment'] is None); denotes('adjusting for this set', K_['covariate'], p)
            E.prove('the effect of this model', isinstance(eff, Effect) and isinstance(eff.k[0], Est) and eff.k[1] is d and eff.k[2] is q)
            E.prove('effect of a fitted copy', eff.k[0].orig is est and eff.k[3] is not None)
            denotes('effect of the model of this set', eff.k[0].kw['covariate'] if at is None else subst(eff.k[0].kw['covariate'], [(w, at)]), p)
        unchanged(g)
def h_identify_estimate_default(x): identify_estimate(x, None, 'name')
def h_identify_estimate_all(x): identify_estimate(x, 'all', 'set')
def h_identify_estimate_minimal(x): identify_estimate(x, ('backdoor', 'minimal'), 'list')
def h_identify_estimate_simple(x): identify_estimate(x, 'simple', 'name')
def h_identify_estimate_simple_sets(x): identify_estimate(x, ('backdoor', 'simple'), 'set')
HARNESS = {n[2:]: f for n, f in list(globals().items()) if n.startswith('h_')}
def setup(L):
    from . import mcommon
    x = mcommon.setup(L); E.fast = True; return x
