from gutil import *
import itertools
import numpy as np, pandas as pd
from ylearn.causal_model.model import CausalModel
from ylearn.causal_model.utils import IdentificationError
STATS = {}
class Rec:
    """an estimator that remembers its fit"""
    def __init__(self, fitted=False): self._is_fitted = fitted; self.fits = []; self.ests = []
    def fit(self, data, outcome, treatment, adjustment=None, covariate=None, **kw):
        for nm in (outcome, treatment, adjustment, covariate):
            if nm is not None: data[nm]                 # must select columns
        if isinstance(data, pd.DataFrame): self.fits.append((id(data), cols(outcome), cols(treatment), cols(adjustment), cols(covariate), kw))
        self._is_fitted = True; return self
    def estimate(self, data=None, quantity=None, **kw):
        self.ests.append((id(data), quantity)); return ('effect', tuple(map(str, self.fits)), quantity)
def cols(v): return None if v is None else frozenset([v] if isinstance(v, str) else v)
def form(rng, ns): return rng.choice(['str', 'list', 'set']) if len(ns) == 1 else rng.choice(['list', 'set'])
def mk(f, ns): return ns[0] if f == 'str' else list(ns) if f == 'list' else set(ns)
def cases(rng, n):
    for i in range(n):
        d = rand_graph(rng, nmin=3, nmax=6); steps = []
        for _ in range(rng.randint(1, 4)):
            ns = list(d['nodes']); rng.shuffle(ns)
            k = rng.choice([1, 1, 1, 2]) if len(ns) > 3 else 1
            st = dict(T=ns[:k], O=ns[k:k + 1], tf=form(rng, ns[:k]), of=form(rng, ns[k:k + 1]), op=rng.choice(['identify', 'identify', 'estimate', 'estimate', 'identify_estimate', 'sets']),
                      method=rng.choice(['auto', 'general', 'b-simple', 'b-minimal', 'b-all', 'f-simple', 'f-all']))
            rest = ns[k + 1:]
            if rng.random() < .5: m = rng.randint(0, len(rest)); st['adj'] = rest[:m]; st['adjf'] = rng.choice(['list', 'set'])
            if rng.random() < .3: m = rng.randint(0, len(rest)); st['cov'] = rest[len(rest) - m:]; st['covf'] = rng.choice(['list', 'set'])
            st['given'] = rng.random() < .6; st['own'] = rng.random() < .4; st['fitted'] = rng.random() < .15; st['unknown'] = rng.random() < .06
            steps.append(st)
        yield dict(graph=d, steps=steps)
def ok_set(m, T, O, z): return not (set(z) & (m.desc(T))) and m.cut_out(T).dsep(T, O, set(z))
def check(case):
    d = case['graph']; m = M.of(d); g = build(d)
    def frame(): return pd.DataFrame(np.arange(3 * len(d['nodes'])).reshape(3, -1), columns=list(d['nodes']))
    own, other = frame(), frame()
    cm = CausalModel(causal_graph=g, data=own); idd = None
    for st in case['steps']:
        T, O = set(st['T']), set(st['O']); t, o = mk(st['tf'], st['T']), mk(st['of'], st['O'])
        subs = [set(c) for r in range(len(m.n) + 1) for c in itertools.combinations(sorted(m.n - T - O), r)]
        valid = [z for z in subs if ok_set(m, T, O, z)]; STATS[st['op']] = STATS.get(st['op'], 0) + 1
        if st['unknown']:
            bad = {'nowhere'} | T
            for f in (lambda: cm.identify(bad, o, ('backdoor', 'simple')), lambda: cm.estimate(Rec(), other, treatment=bad, outcome=o), lambda: cm.identify_estimate(other, o, bad, Rec(), identify_method='simple')):
                try: f()
                except AssertionError: continue
                return 'unknown treatment accepted'
            continue
        if st['op'] == 'identify':
            me = st['method']; am = me if me in ('auto', 'general') else ({'b': 'backdoor', 'f': 'frontdoor'}[me[0]], me[2:])
            if me[0] == 'f' and (len(T) > 1 or st['tf'] == 'list' or st['of'] == 'list' or st['tf'] != st['of']): continue
            if me == 'auto' and (len(T) > 1 or st['tf'] == 'list' or st['of'] == 'list' or (st['tf'] == 'set') != (st['of'] == 'set')): continue
            one = CausalModel(causal_graph=build(d))
            def direct(nm, sty):
                try: return {'ID': lambda: one.id(o, t), 'backdoor': lambda: one.get_backdoor_set(t, o, sty), 'frontdoor': lambda: one.get_frontdoor_set(t, o, sty)}[nm]()
                except IdentificationError: return 'fails'
            want = {nm: direct(nm, sty) for nm, sty in ([('ID', ''), ('backdoor', 'simple'), ('frontdoor', 'simple')] if me == 'auto' else [('ID', '')] if me == 'general' else [(am[0], am[1])])}
            try: r = cm.identify(t, o, identify_method=am) if me != 'auto' else cm.identify(t, o)
            except IdentificationError: r = None
            exp = {k: v for k, v in want.items() if not (isinstance(v, str) and v == 'fails')}
            if not exp:
                if r is not None: return 'identify %s: %r although no method succeeds' % (me, r)
            elif r is None: return 'identify %s fails although %s succeed' % (me, sorted(exp))
            elif sorted(r) != sorted(exp): return 'identify %s: results of %s, expected %s' % (me, sorted(r), sorted(exp))
            else:
                for k in exp:
                    if k == 'ID' or exp[k] is None or r[k] is None:
                        if (exp[k] is None) != (r[k] is None): return 'identify %s: %s is %r' % (me, k, r[k])
                        continue
                    nn = lambda v: sorted(map(sorted, v)) if v and isinstance(next(iter(v)), (set, list)) else sorted(v)
                    if nn(r[k][0]) != nn(exp[k][0]): return 'identify %s: %s gives %r, the method itself %r' % (me, k, r[k][0], exp[k][0])
            if cols(cm.treatment) != T or cols(cm.outcome) != O: return 'identify does not remember treatment and outcome'
            idd = (T, O)
        elif st['op'] == 'sets':
            try: cm.get_backdoor_set(t, o, st['method'][2:] if st['method'][0] == 'b' else 'all')
            except IdentificationError: pass
        elif st['op'] == 'estimate':
            e = Rec(st['fitted']); kw = {}; given = st['given'] or idd is None
            eT, eO = (T, O) if given else idd
            if given: kw.update(treatment=t, outcome=o)
            adj = st.get('adj'); cov = st.get('cov')
            if not given:
                adj = [a for a in adj if a not in eT | eO] if adj is not None else None; cov = [a for a in cov if a not in eT | eO] if cov is not None else None
            if adj is not None: kw['adjustment'] = mk(st['adjf'], adj)
            if cov is not None: kw['covariate'] = mk(st['covf'], cov)
            df = own if st['own'] else other
            if not st['own']: kw['data'] = other
            q = object()
            z = None if adj is None and cov is None else set(adj or []) | set(cov or [])
            pa = set().union(*[m.pa(x) for x in eT])
            if z is None and not pa and not m.cut_out(eT).dsep(eT, eO, set()): continue      # no simple set: not specified
            try: r = cm.estimate(e, quantity=q, **kw)
            except AssertionError as ex:
                if z is not None and not ok_set(m, eT, eO, z): continue
                return 'estimate refuses %r for %r -> %r: %s' % (z, eT, eO, ex)
            if z is not None and not ok_set(m, eT, eO, z): return 'estimate accepts the invalid set %r for %r -> %r' % (z, eT, eO)
            if r[2] is not q or e.ests != [(id(df), q)]: return 'estimate does not return the estimate of the model on the data'
            if st['fitted']:
                if e.fits: return 'a fitted model is fitted again'
                continue
            if len(e.fits) != 1: return '%d fits' % len(e.fits)
            f = e.fits[0]
            if f[0] != id(df) or f[1] != frozenset(eO) or f[2] != frozenset(eT): return 'fitted for %r -> %r, expected %r -> %r' % (set(f[2]), set(f[1]), eT, eO)
            if z is not None:
                if f[3] != cols(adj) or f[4] != cols(cov): return 'fitted with adjustment %r covariate %r, given %r %r' % (f[3], f[4], adj, cov)
            else:
                if f[4] is not None: return 'default covariate %r' % (f[4],)
                if set(f[3]) != pa and not ok_set(m, eT, eO, f[3]): return 'default adjustment %r is neither the simple nor a valid set of %r -> %r' % (set(f[3]), eT, eO)
        else:
            me = st['method'][2:] if st['method'][0] == 'b' else st['method'] if st['method'] == 'auto' else 'all'
            arg = ('backdoor', me) if st['fitted'] else me
            pa = set().union(*[m.pa(x) for x in T]); e = Rec()
            if me == 'simple' and not pa and not m.cut_out(T).dsep(T, O, set()): continue
            try: r = cm.identify_estimate(other, o, t, e, quantity='q', identify_method=arg)
            except IdentificationError:
                if valid: return 'identify_estimate(%s) fails although %r is valid' % (me, valid[0])
                continue
            if e.fits: return "the caller's estimator is fitted"
            if me != 'simple' and not valid: return 'identify_estimate(%s) without any valid set' % me
            ms, es = r['est_models'], r['effects']
            if len(ms) != len(es): return '%d models, %d effects' % (len(ms), len(es))
            got = []
            for mo, ef in zip(ms, es):
                if len(mo.fits) != 1 or mo.fits[0][:3] != (id(other), frozenset(O), frozenset(T)) or mo.fits[0][3] is not None: return 'model fitted with %r' % (mo.fits,)
                if ef != ('effect', tuple(map(str, mo.fits)), 'q'): return 'an effect is not that of its model'
                got.append(set(mo.fits[0][4]))
            if me == 'simple': w = got == [pa]
            elif me == 'minimal': w = len(got) == 1 and got[0] in valid and len(got[0]) == min(map(len, valid))
            else: w = sorted(map(sorted, got)) == sorted(map(sorted, valid))
            if not w: return 'identify_estimate(%s): sets %r; valid: %r, parents: %r' % (me, got, valid, pa)
    return differs(g, m, 'graph afterwards: ')
def shrink(case):
    s = case['steps']
    for i in range(len(s)): yield dict(case, steps=s[:i] + s[i + 1:])
    d = case['graph']
    for k in ('edges', 'arcs'):
        for i in range(len(d[k])):
            e = dict(d); e[k] = d[k][:i] + d[k][i + 1:]; yield dict(case, graph=e)
