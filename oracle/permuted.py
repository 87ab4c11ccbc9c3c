from eutil import *
from ylearn.estimator_model import PermutedSLearner, PermutedTLearner, PermutedXLearner, PermutedDoublyRobust, SLearner, TLearner, XLearner, DoublyRobust
from meta_learners import combos
STATS = {}
def cases(rng, n):
    for i in range(n):
        ls = [levels(rng)] if rng.random() < .75 else rng.choice([[[1, 4], [0, 2, 5]], [['a', 'b'], ['no', 'yes']], [[10, 20], [3, 7]]])
        mode = rng.choice(['values', 'values', 'proba']); cls = rng.choice(['S', 'T', 'X', 'DR'] if mode == 'values' else ['S', 'T', 'X'])
        yield dict(seed=rng.randrange(10 ** 6), levels=ls, mode=mode, cls=cls, ny=1 if mode == 'proba' else rng.choice([1, 1, 2]), nw=rng.choice([1, 2]), nv=rng.choice([1, 2]), n=rng.choice([120, 160]), ylevels=rng.choice([[0, 1], [1, 2, 3], ['bad', 'good']]),
                   jobs=rng.choice([None, 0, 1, 1]), refit=rng.random() < .25, listed=rng.random() < .5, ci=rng.randrange(50), ti=rng.randrange(50), null=rng.random() < .2)
def make(case, permuted):
    kw = dict(is_discrete_outcome=True, proba_output=True) if case['mode'] == 'proba' else {}
    if case['cls'] == 'DR': return (PermutedDoublyRobust if permuted else DoublyRobust)(classifier('nb'), regressor('tree'), regressor('lin'))
    m = classifier('tree') if case['mode'] == 'proba' else regressor('tree')
    if permuted: kw['is_discrete_treatment'] = True
    if case['cls'] == 'X' and case['mode'] == 'proba': kw['final_proba_model'] = LinearRegression()
    if permuted: return {'S': PermutedSLearner, 'T': PermutedTLearner, 'X': PermutedXLearner}[case['cls']](m, **kw)
    return {'S': SLearner, 'T': TLearner, 'X': XLearner}[case['cls']](m, **kw)
@guard
def check(case):
    ls = case['levels']; K = combos(ls); k = len(K); proba = case['mode'] == 'proba'; yl = sorted(case['ylevels']) if proba else None
    def mk(seed, n, ls=ls): return frame(seed, n, ls, case['ny'], case['nw'], case['nv'], yl, least=max(12, 4 * k))
    d, d2 = mk(case['seed'], case['n']), mk(case['seed'] + 1, 60 + 12 * k)
    if case['null'] and not proba:
        for i in range(case['ny']): d['y%d' % i] = 1.0
    X = ['x%d' % i for i in range(len(ls))]; Y = ['y%d' % i for i in range(case['ny'])]
    W = ['w%d' % i for i in range(case['nw'])]; V = ['v%d' % i for i in range(case['nv'])]
    grp = [np.logical_and.reduce([d[x].values == a for x, a in zip(X, q)]) for q in K]
    if min(g.sum() for g in grp) < 6: return None
    if proba and any(len(set(d.loc[g, 'y0'])) < len(yl) for g in grp): return None
    one = len(X) == 1; lab = lambda q: (K[q][0] if one and not case['listed'] else list(K[q]))
    y_, x_ = (Y[0] if len(Y) == 1 and case['listed'] else Y), (X[0] if one and case['listed'] else X)
    o = make(case, True)
    if case['refit']: o.fit(mk(case['seed'] + 5, case['n'], [[('q%s' % a) if isinstance(a, str) else a + 100 for a in l] for l in ls]), y_, x_, adjustment=W, covariate=V, n_jobs=1)
    d0, d20 = d.copy(), d2.copy()
    if o.fit(d, y_, x_, adjustment=W, covariate=V, n_jobs=case['jobs']) is not o: return 'fit does not return the learner'
    unchanged('fit', d, d0)
    memo = {}
    def pair(t, c):
        if (t, c) not in memo: memo[t, c] = make(case, False).fit(d, y_, x_, adjustment=W, covariate=V, treat=K[t][0] if one else list(K[t]), control=K[c][0] if one else list(K[c]))
        return memo[t, c]
    def effect(fr, t, c, cl=None):
        if t == c: return None
        if t < c: return -effect(fr, c, t, cl)
        kw = {} if not proba else dict(target_outcome=yl[-1] if cl is None else cl)
        return np.asarray(pair(t, c).estimate(fr, **kw))
    tc = [(t, c) for t in range(k) for c in range(k) if t != c]
    want('default effect', o.estimate(), effect(d, k - 1, 0))
    for t, c in [tc[case['ti'] % len(tc)], tc[case['ci'] % len(tc)]]:
        want('effect of %s against %s' % (K[t], K[c]), o.estimate(d2, treat=lab(t), control=lab(c)), effect(d2, t, c))
        if proba: want('effect on a class', o.estimate(d2, treat=lab(t), control=lab(c), target_outcome=yl[0]), effect(d2, t, c, yl[0]))
        else: want('average effect', o.estimate(d2, treat=lab(t), control=lab(c), quantity='ATE'), np.mean(effect(d2, t, c), axis=0))
    old = [('q%s' % a) if isinstance(a, str) else a + 100 for a in ls[0]] if case['refit'] else ['nothing', 'none']
    if one and not set(old) & set(ls[0]):
        for t, c in [(old[1], old[0]), (old[-1], ls[0][0]), (ls[0][0], old[0]), (ls[0][0], ls[0][0])]:
            try: o.estimate(d2, treat=t, control=c)
            except ValueError: pass
            else: return 'the pair %r, %r was not fitted and is answered' % (t, c)
    ny = len(Y)
    def table(fr, c, cl=None):
        return np.concatenate([np.zeros((len(fr), ny, 1)) if t == c else effect(fr, t, c, cl).reshape(len(fr), ny, 1) for t in range(k)], axis=2)
    c = case['ci'] % k
    want('effects against the first value', o.effect_nji(d2, n_jobs=case['jobs']), table(d2, 0))
    want('effects on the training data', o.effect_nji(n_jobs=1), table(d, 0))
    want('effects against %s' % (K[c],), o.effect_nji(d2, control=lab(c), n_jobs=1), table(d2, c))
    if proba: want('effects on a class', o.effect_nji(d2, control=lab(c), target_outcome=yl[0], n_jobs=1), table(d2, c, yl[0]))
    unchanged('estimate', d2, d20); STATS[case['cls']] = STATS.get(case['cls'], 0) + 1
def shrink(case):
    yield from smaller(case, ('ny', 1), ('nw', 1), ('nv', 1))
    if case['refit']: yield dict(case, refit=False)
    if len(case['levels']) > 1: yield dict(case, levels=case['levels'][:1])
