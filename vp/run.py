"""Verification driver: load the repository's modules symbolically, run contract harnesses, collect obligations."""
import sys, time, traceback
import z3
from .core import *
from .core import E, Obligation, Enough
from . import xform, libs, graphdom

def new_loader(numeric=True):
    L = xform.Loader()
    L.facades.update(libs.base_facades())
    if numeric:
        try:
            from . import snp
            L.facades.update(snp.facades())
        except (ImportError, AttributeError) as e:
            if 'facades' not in str(e): raise
    return L

class Result:
    def __init__(self, name): self.name, self.obls, self.error, self.paths, self.secs, self.covers = name, [], None, 0, 0, []

def engine_side(e):
    """an attribute or call the facades do not provide says nothing about the code"""
    if getattr(e, '_modelled', False): return False
    if isinstance(e, (AttributeError, TypeError, NotImplementedError, RecursionError, AssertionError)):
        tb = e.__traceback__; last = None
        while tb is not None: last = tb; tb = tb.tb_next
        f = last.tb_frame.f_code.co_filename if last is not None else ''
        if isinstance(e, AssertionError): return '/vp/' in f or '/props/' in f
        return True
    tb = e.__traceback__; last = None
    while tb is not None: last = tb; tb = tb.tb_next
    f = last.tb_frame.f_code.co_filename if last is not None else ''
    return '/props/' in f or f.endswith('/check.py')

def verify(name, thunk, reset=()):
    """explore one contract harness over every path"""
    r = Result(name); t = time.time()
    E.pc = []; E.frames = []; E.journal = []; E.obls = []; E.loopvars = []; E.loopconds = []; E.loopfacts = []; E.looppc = []; E.covers = []
    E.cache = {}
    def one():
        import itertools
        E.ctr = itertools.count(); E.births = itertools.count(1); E.gfacts = []; E.late = []
        for f in E.reset_path_hooks: f()
        try: thunk()
        except Exception as e: e._gfacts = list(E.gfacts) + list(E.late); raise
        E.covers.append(('end of path', str(E._check(list(E.pc), 500))))      # vacuity: some path must be possible
        E.paths_done = getattr(E, 'paths_done', 0) + 1
    E.paths_done = 0; E.nfailed = 0
    try:
        outs = E.explore(one)
        for pc, k, v in outs:
            if k == 'raise':
                if engine_side(v): raise EngineStop('%s: %s' % (type(v).__name__, v)) from v
                # an exception counts against the code only on a path known to be feasible
                E.pc = list(pc); E.gfacts = getattr(v, '_gfacts', []); q = E._check(list(pc), QT); E.pc = []
                if q == z3.unsat: continue
                tb = ''.join(traceback.format_exception(type(v), v, v.__traceback__)[-6:])
                E.obls.append(Obligation(name + ':no-exception', 'failed' if q == z3.sat else 'unknown', 'engine', 0, '%r under %s\n%s' % (v, ' & '.join(str(p)[:200] for p in pc[-6:]), tb)))
        r.paths = len(outs)
        if not outs: r.error = 'no feasible path'
    except Enough: r.paths = E.paths_done + 1
    except EngineStop as e:
        r.error = 'outside the verified fragment: %s' % e
        r.trace = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
    except z3.Z3Exception as e:
        r.error = 'solver: %r' % e; r.trace = traceback.format_exc()
    except RecursionError as e:
        r.error = 'recursion'; r.trace = ''
    r.obls, r.covers = list(E.obls), list(E.covers)
    r.secs = time.time() - t
    return r

def show(r):
    bad = [o for o in r.obls if o.status != 'discharged']
    print('%-40s paths=%d obligations=%d failed=%d %.1fs %s' % (r.name, r.paths, len(r.obls), len(bad), r.secs, r.error or ''))
    if r.error and hasattr(r, 'trace'): print(r.trace)
    for o in bad[:6]: print('   FAILED', o.name, o.detail[:6000])
