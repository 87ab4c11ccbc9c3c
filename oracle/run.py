"""Concrete evaluation of a property's contracts on the real code (bounded).  Runs under the repository's interpreter.

run.py PROPERTY --seed N --budget SECONDS --cases N      search for a failing input
run.py PROPERTY --replay FILE                            replay one failing input"""
import sys, os, json, time, random, traceback, importlib, argparse, hashlib, warnings, logging
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

def evaluate(mod, case):
    """None when the contract holds for this case, else a message"""
    import numpy as np
    np.random.seed(case.get('seed', 0) % (2 ** 31) if isinstance(case, dict) else 0)
    random.seed(case.get('seed', 0) if isinstance(case, dict) else 0)
    try:
        return mod.check(case)
    except mod_skip:
        return None
    except Exception as e:
        return 'exception %r\n%s' % (e, traceback.format_exc()[-1500:])

class Skip(Exception): pass
mod_skip = Skip

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--cases', type=int, default=500); ap.add_argument('--replay')
    a = ap.parse_args()
    devnull = open(os.devnull, 'w'); out = sys.stdout
    sys.stdout = devnull
    try:
        sys.modules['run'] = sys.modules['__main__']
        logging.disable(logging.CRITICAL)
        try:
            mod = importlib.import_module(a.prop)
        except Exception:
            sys.stdout = out
            rp = save(a.prop, dict(import_failure=True), traceback.format_exc())
            print(json.dumps(dict(status='violation', message='the code cannot be imported: ' + traceback.format_exc()[-800:], replay=rp, cases=0)))
            return 1
        if a.replay:
            case = json.load(open(a.replay))['case']
            m = evaluate(mod, case); sys.stdout = out
            print('case: %s' % json.dumps(case)[:2000]); print('holds' if m is None else 'VIOLATED: %s' % m)
            return 0 if m is None else 1
        rng = random.Random(a.seed); t0 = time.time(); n = 0
        for case in mod.cases(rng, a.cases):
            n += 1
            m = evaluate(mod, case)
            if m is not None:
                if hasattr(mod, 'shrink'):
                    case, m = shrink(mod, case, m)
                sys.stdout = out
                rp = save(a.prop, case, m)
                print(json.dumps(dict(status='violation', message=m, replay=rp, cases=n))); return 1
            if n >= a.cases or time.time() - t0 > a.budget: break
        sys.stdout = out
        print(json.dumps(dict(status='ok', cases=n, stats=getattr(mod, 'STATS', {}), secs=round(time.time() - t0, 1))))
        return 0
    finally:
        sys.stdout = out

def shrink(mod, case, m):
    t = time.time(); again = True
    while again and time.time() - t < 10:
        again = False
        for c in mod.shrink(case):
            m2 = evaluate(mod, c)
            if m2 is not None: case, m, again = c, m2, True; break
    return case, m

def save(prop, case, m):
    d = os.path.join(os.path.dirname(HERE), 'replays'); os.makedirs(d, exist_ok=True)
    txt = json.dumps(case, sort_keys=True, default=str)
    p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(txt.encode()).hexdigest()[:10]))
    json.dump(dict(property=prop, case=case, message=m, how='/opt/venv/bin/python /verif/oracle/run.py %s --replay %s   (PYTHONPATH=/repo)' % (prop, p)), open(p, 'w'), indent=1, default=str)
    return p

if __name__ == '__main__': sys.exit(main())
