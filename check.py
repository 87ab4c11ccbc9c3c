#!/usr/bin/env python3-vt
"""Decide one property: discharge every contract obligation generated from /repo's current source, then cross-check.

usage: check.py PROPERTY      (VERIF_TIER=quick|thorough, VERIF_SEED=n)
exit 0: every obligation discharged (or, where the changed source left the verified fragment, the labelled bounded
        stand-in passed);  exit 1: VIOLATION line."""
import sys, os, json, time, subprocess, traceback, importlib, hashlib, multiprocessing as mp
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REPO = os.environ.get('VP_REPO', '/repo')
VENV = '/opt/venv/bin/python'
T0 = time.time()

def run_harness(modname, name, q):
    import threading
    threading.stack_size(1 << 30)        # deep terms: the solver recurses
    t = threading.Thread(target=run_harness1, args=(modname, name, q)); t.start(); t.join()

def run_harness1(modname, name, q):
    """in a forked child"""
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        import warnings; warnings.simplefilter('ignore')
        from vp import run
        from vp.core import E
        mod = importlib.import_module('props.' + modname)
        H = dict(mod.HARNESS); H.update(getattr(mod, 'THOROUGH', {}))
        E.max_failed = 3; E.on_fail = lambda o: q.put(dict(part=(o.name, o.status, o.backend, o.secs, o.detail)))
        L = run.new_loader(getattr(mod, 'NUMERIC', True))
        ctx = mod.setup(L)
        r = run.verify(name, lambda: H[name](ctx))
        q.put(dict(name=name, error=r.error, trace=getattr(r, 'trace', ''), paths=r.paths, secs=r.secs,
                   obls=[(o.name, o.status, o.backend, o.secs, o.detail) for o in r.obls], covers=[(a, b) for a, b in r.covers],
                   solver=E.solver_secs, queries=E.queries, assumed=sorted(E.assumed), inlined=sorted(E.inlined)))
    except BaseException as e:
        q.put(dict(name=name, error='verifier: %r' % (e,), trace=traceback.format_exc(), paths=0, secs=0, obls=[], covers=[], solver=0, queries=0, assumed=[], inlined=[]))

def deductive(modname, limit):
    mod = importlib.import_module('props.' + modname)
    names = list(mod.HARNESS)
    if TIER == 'thorough': names += [n for n in getattr(mod, 'THOROUGH', {})]
    only = os.environ.get('VP_ONLY')
    if only: names = [n for n in names if only in n]
    ctx = mp.get_context('fork')
    todo, running, done = list(names), {}, {}
    width = int(os.environ.get('VP_JOBS', '7'))
    end = time.time() + (430 if TIER == 'quick' else 10 ** 6); failures = {}
    def blank(error, secs=0, n=None): return dict(name=n, error=error, trace='', paths=0, secs=secs, obls=failures.get(n, []), covers=[], solver=secs, queries=0, assumed=[], inlined=[])
    def drain(n, q):
        """messages of a running harness: failed obligations as they occur, then the result"""
        while not q.empty():
            m = q.get()
            if 'part' in m: failures.setdefault(n, []).append(m['part'])
            else: done[n] = m; return True
        return False
    while todo or running:
        enough = TIER == 'quick' and sum(map(len, failures.values())) >= 9 or time.time() > end
        if enough:
            for n in todo: done[n] = blank('not run: %s' % ('enough failures' if failures else 'time limit'), n=n)
            todo = []
        while todo and len(running) < width:
            n = todo.pop(0); q = ctx.SimpleQueue()
            p = ctx.Process(target=run_harness, args=(modname, n, q)); p.start(); running[n] = (p, q, time.time())
        time.sleep(0.05)
        for n, (p, q, t) in list(running.items()):
            alive = p.is_alive()
            if drain(n, q):
                p.join(5); del running[n]
            elif not alive:
                done[n] = blank('verifier process died (exit %s)' % p.exitcode, n=n); del running[n]
            elif time.time() - t > limit or enough:
                p.kill(); p.join()
                done[n] = blank('stopped: enough failures' if enough and failures else 'time limit of %d s' % limit, time.time() - t, n); del running[n]
    return mod, [done[n] for n in names]

def oracle(prop, budget, cases, focus=None):
    """concrete contract evaluation on the real code; -> dict"""
    cmd = [VENV, os.path.join(ROOT, 'oracle', 'run.py'), prop, '--seed', str(SEED), '--budget', str(budget), '--cases', str(cases)]
    env = dict(os.environ); env['PYTHONPATH'] = REPO; env['PYTHONDONTWRITEBYTECODE'] = '1'; env['OMP_NUM_THREADS'] = '2'; env['CUDA_VISIBLE_DEVICES'] = ''
    env['PYTHONHASHSEED'] = str(SEED % 1000)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=ROOT, timeout=budget + 180)
    except subprocess.TimeoutExpired:
        return dict(status='undecided', why='oracle timed out', cases=0)
    for line in reversed(p.stdout.strip().split('\n')):
        if line.startswith('{'):
            try: return json.loads(line)
            except ValueError: pass
    return dict(status='undecided', why='oracle: exit %s: %s' % (p.returncode, (p.stderr or p.stdout)[-1500:]), cases=0)

def main():
    ids = json.load(open(os.path.join(ROOT, 'ids.json')))
    modname = ids.get(sys.argv[1], sys.argv[1])
    prop = next((i for i, m in ids.items() if m == modname), modname)
    limit = {'discovery': 330}.get(modname, 200) if TIER == 'quick' else 1500
    mod, res = deductive(modname, limit)
    obls = [(h['name'],) + tuple(o) for h in res for o in h['obls']]
    failed = [o for o in obls if o[2] == 'failed']
    unknown = [o for o in obls if o[2] not in ('failed', 'discharged')]
    undec = [h for h in res if h['error']]
    vac = [h for h in res if not h['error'] and (not h['obls'] or h['covers'] and all(r == 'unsat' for _, r in h['covers']))]
    known = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    b = (25, 400) if TIER == 'quick' else (400, 20000)
    if (failed or unknown or undec) and TIER == 'quick': b = (120, 6000)
    has_oracle = os.path.exists(os.path.join(ROOT, 'oracle', modname + '.py'))
    orc = oracle(modname, *b) if has_oracle else dict(status='ok', cases=0)
    viol = []
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    for k in known.get('findings', []):
        if k['property'] == prop: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for v in orc.get('known', []): pass
    if orc['status'] == 'violation':
        viol.append('VIOLATION property=%s replay=%s' % (prop, orc['replay']))
        detail = dict(kind='concrete', message=orc.get('message'), replay=orc['replay'])
    if failed or vac:
        rp = os.path.join(ROOT, 'replays', '%s-obligations.json' % prop)
        json.dump(dict(property=prop, failed=[dict(harness=o[0], obligation=o[1], verifier_output=o[5]) for o in failed],
                       vacuous=[h['name'] for h in vac], concrete=orc.get('message')), open(rp, 'w'), indent=1)
        if not viol:
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    for h in res:
        bad = [o for o in h['obls'] if o[1] != 'discharged']
        print('%-44s %s paths=%d obligations=%d failed=%d %.1fs%s' % (h['name'], 'UNDECIDED' if h['error'] else ('FAILED' if bad else 'proved'), h['paths'], len(h['obls']), len(bad), h['secs'], ('  [' + h['error'][:300] + ']') if h['error'] else ''))
        if os.environ.get('VP_TRACE') and h['trace']: print(h['trace'])
        for o in bad[:4]: print('    %s %s: %s' % (o[1], o[0], o[4][:int(os.environ.get('VP_DETAIL', '400'))]))
    print('bounded cross-check on the real code: %s, %s cases%s' % (orc['status'], orc.get('cases'), ('; ' + str(orc.get('why') or orc.get('message'))[:1500]) if orc['status'] != 'ok' else ''))
    back = {}
    for o in obls:
        if o[2] == 'discharged': back[o[3]] = back.get(o[3], 0) + 1
    disch = sum(back.values())
    assumed = sorted({a for h in res for a in h['assumed']})
    files = sorted(set(getattr(mod, 'FUNCTIONS', [])))
    ev = dict(property=prop, tier=TIER, seed=SEED, level=getattr(mod, 'LEVEL', 'proof'),
        coverage=dict(obligations=len(obls), discharged=disch, failed=len(failed), undecided=len(unknown),
            checker_cmd='python3-vt check.py %s' % prop,
            trusted_base=['vp/ (symbolic executor: source transformation, closed forms of loops, collection and array semantics)', 'z3 %s' % z3v(), 'cvc5 (fallback)'] + assumed,
            functions_under_contract=files, backends=back, solver_seconds=round(sum(h['solver'] for h in res), 2), solver_queries=sum(h['queries'] for h in res),
            harnesses=[dict(name=h['name'], status='undecided' if h['error'] else ('failed' if any(o[1] != 'discharged' for o in h['obls']) else 'proved'), paths=h['paths'], obligations=len(h['obls']), secs=round(h['secs'], 2), error=h['error'], reachable_paths=sum(1 for _, c in h['covers'] if c == 'sat'), paths_not_refuted=sum(1 for _, c in h['covers'] if c == 'unknown')) for h in res],
            bounded=dict(what='concrete evaluation of the contracts on the real code (never counted as proved)', cases=orc.get('cases', 0), status=orc['status'], bound=getattr(mod, 'BOUND', 'random inputs, seeded'), stats=orc.get('stats', {}))),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + assumed,
        wall_s=round(time.time() - T0, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d undecided harnesses, %.1fs' % (prop, disch, len(obls), len(undec), time.time() - T0))
    if not obls and not undec: viol = viol or ['VIOLATION property=%s replay=%s no-failing-input-found' % (prop, 'zero-obligations')]
    for v in viol: print(v)
    return 1 if viol else 0

def z3v():
    import z3; return z3.get_version_string()

if __name__ == '__main__':
    sys.exit(main())
