"""Parallel exploration of all subjects (public constructors x modes of use)."""
import os, sys, time, signal, traceback
sys.setrecursionlimit(20000)
from multiprocessing import get_context
from db import DB
import behav
from behav import *

_DB = _IDX = _SUBJ = None

# decided by their own analysis
SKIP = {'futures_util::stream::futures_unordered::FuturesUnordered'}

class Timeout(Exception):
    pass

def _alarm(*a):
    raise Timeout()

def load(path):
    global _DB, _IDX, _SUBJ
    _DB = DB(path)
    _IDX = Index(_DB)
    _SUBJ = list(subjects(_DB, _IDX))
    return _DB, _IDX, _SUBJ

class Job:
    """result of one exploration"""
    __slots__ = ('name', 'adt', 'mode', 'dfa', 'viol', 'stats', 'opaque', 'fresh', 'wall', 'err', 'entered', 'sp')

def jobs_all():
    out = []
    for i, s in enumerate(_SUBJ):
        if s.adt in SKIP: continue
        for m in modes_b(_IDX, s.adt):
            out.append((i, m))
    return out

def one(job):
    i, (mode, ops), tmo = job
    s = _SUBJ[i]
    r = Job()
    r.name, r.adt, r.mode = s.name, s.adt, mode
    r.sp = _DB.fns[s.k]['sp']
    r.dfa = {}; r.viol = []; r.stats = {}; r.opaque = set(); r.fresh = set(); r.err = None; r.entered = set()
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(tmo)
    try:
        R = explore_lts(_DB, _IDX, s, mode, ops)
        r.stats = R.stats
        seen = {}
        for v in R.violations:
            k = (v['rule'], v['op'], v['detail'])
            if k not in seen or len(v['trace']) < len(seen[k]['trace']):
                seen[k] = v
        r.viol = list(seen.values())
        r.opaque, r.fresh, r.entered = R.opaque, R.fresh_opaque, R.entered
        r.dfa = minimise(determinise(R.graph))
    except Timeout:
        r.err = 'timeout'
    except Exception:
        r.err = traceback.format_exc()[-600:]
    finally:
        signal.alarm(0)
    r.wall = time.time() - t
    return r

def explore_jobs(jobs, tmo=120, procs=None):
    ctx = get_context('fork')
    js = [(i, m, tmo) for i, m in jobs]
    # expensive subjects first
    heavy = ('unordered', 'copy', 'LineWriter', 'BufWriter', 'concurrent', 'buffer')
    js.sort(key=lambda j: 0 if any(h in _SUBJ[j[0]].name for h in heavy) else 1)
    with ctx.Pool(procs or os.cpu_count() or 4) as p:
        return p.map(one, js, chunksize=1)
