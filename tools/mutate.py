"""Mutation study of the checks (a development tool; no check uses it).

mutate.py gen OUT.json [N] [FILEREGEX]     list single-line mutants of the library sources
mutate.py run LIST.json OUT.jsonl          build and analyse each in a scratch copy, record which properties alarm
mutate.py spec SPEC.json OUT.jsonl         the same for hand-written edits [{id, edits: [[file, old, new], ...]}]
"""
import sys, os, re, json, random, shutil, subprocess, time, pickle, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'fx'))
sys.setrecursionlimit(20000)
ROOT = '/tmp/mut'
CRATES = ['futures-core', 'futures-channel', 'futures-executor', 'futures-io', 'futures-sink', 'futures-task', 'futures-test', 'futures-util']

def lines_of(path):
    out, skip = [], False
    for n, l in enumerate(open(path)):
        if l.startswith('#[cfg(test)]'): skip = True
        s = l.strip()
        if skip or s.startswith(('//', '#[', '#!', 'use ', 'pub use', '///')): continue
        out.append((n, l))
    return out

SUBS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ 1\b', ' + 2'), (r' - 1\b', ' - 2'), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\(0\)', '(1)'), (r'\b0;', '1;'), (r'\b1;', '2;'),
        (r'\b(SeqCst|Acquire|Release|AcqRel)\b', 'Relaxed'), (r'pop_front', 'pop_back'), (r'push_back', 'push_front'), (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'),
        (r'is_ok\(\)', 'is_err()'), (r'is_err\(\)', 'is_ok()'), (r'is_ready\(\)', 'is_pending()'), (r'is_pending\(\)', 'is_ready()'), (r'is_empty\(\)', 'len() == 1'), (r'\.min\(', '.max('), (r'\bbreak\b', 'continue'), (r'saturating_add', 'wrapping_add'), (r'checked_add\(([^()]*)\)', r'checked_sub(\1)'),
        (r'\bif !', 'if '), (r'swap_remove', 'remove'), (r'\bfetch_or\b', 'fetch_and'), (r'\bfetch_and\b', 'fetch_or'), (r' \| ', ' & '), (r' & ', ' | '), (r'Poll::Ready\(None\)', 'Poll::Pending'), (r'Poll::Ready\(Ok\(\(\)\)\)', 'Poll::Pending')]

def gen(out, n, rx):
    muts = []
    for c in CRATES:
        for r, _, fs in os.walk('/repo/%s/src' % c):
            for f in sorted(fs):
                p = os.path.join(r, f)
                rel = os.path.relpath(p, '/repo')
                if not f.endswith('.rs') or not re.search(rx, rel): continue
                for i, l in lines_of(p):
                    s = l.strip()
                    for a, b in SUBS:
                        for m in re.finditer(a, l):
                            nl = l[:m.start()] + re.sub(a, b, m.group(0)) + l[m.end():]
                            if 'fn ' in l or 'where' in l or 'impl' in l: continue
                            muts.append((rel, i, l, nl, a))
                    m = re.match(r'(\s*(?:\} else )?if )(?!let)(.*) \{$', l.rstrip())
                    if m and not m.group(2).startswith('!'): muts.append((rel, i, l, '%s!(%s) {\n' % (m.group(1), m.group(2)), 'negate'))
                    if re.match(r'^[\w\*].*;$', s) and not s.startswith(('let ', 'return', 'use ', 'pub ', 'type ', 'break', 'continue', 'fn ', 'const', 'static', 'struct', 'mod ', 'extern', 'unsafe impl', 'impl', 'macro', '}', 'where', 'assert')) and '::' != s[:2]:
                        muts.append((rel, i, l, re.match(r'\s*', l).group(0) + ';\n', 'delete'))
                    m = re.match(r'^(\s*)return (.*);$', l.rstrip())
    random.Random(7).shuffle(muts)
    if n: muts = muts[:n]
    json.dump([dict(id='m%04d' % k, kind=a, edits=[[f, i, o, w]]) for k, (f, i, o, w, a) in enumerate(muts)], open(out, 'w'), indent=0)
    print(len(muts))

# -------------------------------------------------------------------------------- worker
def prepare(w):
    d = '%s/w%d' % (ROOT, w)
    os.makedirs(d, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', d + '/repo/'], check=True) if shutil.which('rsync') else (shutil.rmtree(d + '/repo', ignore_errors=True), shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('target', '.git')))
    shutil.rmtree(d + '/probe', ignore_errors=True)
    shutil.copytree(VERIF + '/probe', d + '/probe', ignore=shutil.ignore_patterns('target'))
    t = open(d + '/probe/Cargo.toml').read().replace('"/repo/', '"%s/repo/' % d)
    open(d + '/probe/Cargo.toml', 'w').write(t)
    return d

def build(d, drv, sysroot):
    db = d + '/db.jsonl'
    if os.path.exists(db): os.unlink(db)
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), CARGO_TARGET_DIR=d + '/target', RUSTC_WORKSPACE_WRAPPER=drv, FX_OUT=db, FX_CRATE='fxprobe', CARGO_NET_OFFLINE='true',
               RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off --cap-lints=allow', CARGO_INCREMENTAL='0')
    os.utime(d + '/probe/src/lib.rs')
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--quiet', '-j', '2'], cwd=d + '/probe', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (db if r.returncode == 0 and os.path.exists(db) else None), r.stdout

def apply(d, edits):
    saved = {}
    for e in edits:
        p = '%s/repo/%s' % (d, e[0])
        t = open(p).read()
        saved.setdefault(p, t)
        if len(e) == 4:
            ls = t.splitlines(True)
            assert ls[e[1]] == e[2]
            ls[e[1]] = e[3]
            t = ''.join(ls)
        else:
            if t.count(e[1]) < 1: raise ValueError('text not found: ' + e[1])
            t = t.replace(e[1], e[2], 1)
        open(p, 'w').write(t)
    return saved

def baseline():
    """source files entered by each subject and unit of the unchanged tree"""
    import extract, run, units, contract
    dbp, _, _ = extract.extract()
    cache = ROOT + '/base.pickle'
    key = os.path.basename(dbp) + hashlib.sha256(b''.join(open(os.path.join(VERIF, 'fx', f), 'rb').read() for f in ('behav.py', 'units.py', 'engine.py'))).hexdigest()
    try:
        k, v = pickle.load(open(cache, 'rb'))
        if k == key: return v
    except Exception: pass
    D, _, _ = run.load(dbp)
    def files(r): return {D.fns[k]['sp'].split(':')[0] for k in r.entered if k in D.fns}
    obj = {r.name + ' / ' + r.mode: files(r) | {r.sp.split(':')[0]} for r in run.explore_jobs(run.jobs_all(), tmo=300)}
    us = {r.key: files(r) | {r.sp.split(':')[0]} for r in units.explore_units(D, units.all_units(D), tmo=120)}
    os.makedirs(ROOT, exist_ok=True)
    pickle.dump((key, (obj, us)), open(cache, 'wb'))
    return obj, us

def analyse(db, files, base):
    import run, units, contract, props, check, behav, gc
    from exempt import EXEMPT
    obj, us = base
    D, idx, subj = run.load(db)
    CO, CU, CP = CONTRACTS
    hits = {}
    def hit(p, s): hits.setdefault(p, s[:260])
    behav.Behav.known_opaque = set(CO['opaque'])
    behav_err = []
    allsub = {}
    for j in run.jobs_all():
        k = subj[j[0]].name + ' / ' + j[1][0]
        allsub[k] = j
    for k, v in CO['subjects'].items():
        if k not in allsub:
            if files & obj.get(k, set()): hit('missing', k)
            continue
        if not (files & obj.get(k, files)): continue
        r = run.one((allsub[k][0], allsub[k][1], 120))
        if r.err: behav_err.append(k + ' ' + r.err[-60:]); continue
        devs = contract.include(contract.to_rows(r.dfa), v['rows'])[0]
        if not devs and not r.stats.get('incomplete'): devs = contract.lost(contract.include, contract.to_rows(r.dfa), v['rows'])
        for P in props.PROPS:
            if P.scope is None or not P.scope((k.split(' / ')[0], v['adt'], k.split(' / ')[1])): continue
            for x in r.viol:
                if x['rule'] in P.rules and (x['rule'], r.adt) not in EXEMPT and not (x['rule'] == 'not-terminated' and 'cycle' in r.adt): hit(P.id, '%s %s %s' % (x['rule'], r.adt, x['detail']))
            if P.conf is not None:
                for d in devs:
                    if P.conf(d): hit(P.id, '%s: `%s` not in %s' % (k, d.label, d.allowed[:4])); break
    for CX, panic in ((CU, False), (CP, True)):
        behav.Behav.known_opaque = set(CX['opaque'])
        allu = units.all_units(D)
        units._DB = D
        for k, v in CX['subjects'].items():
            if not (files & us.get(k, files)): continue
            if k not in allu:
                hit('missing', k); continue
            r = units.one((k, allu[k], 60, panic))
            if r.err: behav_err.append(k + ' ' + r.err[-60:]); continue
            devs = contract.include_units(contract.to_rows(r.dfa), v['rows'])[0]
            if r.inc: devs = [d for d in devs if d.label != 'does not return']
            if not devs and not r.inc: devs = contract.lost(contract.include_units, contract.to_rows(r.dfa), v['rows'])
            if not devs: continue
            any_ = False
            for P in props.PROPS:
                sel = P.panics if panic else P.units
                if sel is None or not sel(k, v['sp']): continue
                for d in devs:
                    if P.uconf is None or P.uconf(d): hit(P.id, '%s: `%s` not in %s' % (k, d.label, d.allowed[:4])); any_ = True; break
            if not any_: hit('(unit)', '%s: `%s` not in %s' % (k, devs[0].label, devs[0].allowed[:4]))
    return hits, behav_err

CONTRACTS = None
def worker(w, jobs, out, drv, sysroot, base):
    import contract, run
    d = prepare(w)
    build(d, drv, sysroot)
    for m in jobs:
        t = time.time()
        rec = dict(id=m['id'])
        try:
            saved = apply(d, m['edits'])
        except Exception as ex:
            rec['status'] = 'noapply ' + str(ex); saved = {}
        if 'status' not in rec:
            db, o = build(d, drv, sysroot)
            if db is None:
                rec['status'] = 'nocompile'; rec['out'] = o[-600:]
            else:
                # one process per mutant keeps memory bounded
                rfd, wfd = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try: r = analyse(db, {e[0] for e in m['edits']}, base)
                    except BaseException as ex:
                        import traceback; r = ({'crash': traceback.format_exc()[-400:]}, [])
                    with os.fdopen(wfd, 'wb') as f: pickle.dump(r, f)
                    os._exit(0)
                os.close(wfd)
                with os.fdopen(rfd, 'rb') as f: data = f.read()
                os.waitpid(pid, 0)
                hits, errs = pickle.loads(data)
                rec['status'] = 'caught' if any(p.startswith('C') or p == 'missing' for p in hits) else 'survived'
                rec['hits'] = hits; rec['errs'] = errs
        for p, tx in saved.items(): open(p, 'w').write(tx)
        rec['wall'] = round(time.time() - t, 1)
        rec['edits'] = m['edits']; rec['kind'] = m.get('kind')
        with open(out, 'a') as f: f.write(json.dumps(rec) + '\n')

def run_(lst, out, nw=8):
    global CONTRACTS
    import extract, contract
    base = baseline()
    CONTRACTS = (contract.load('objects'), contract.unpack(contract.load('units')), contract.unpack(contract.load('panics')))
    jobs = json.load(open(lst))
    done = set()
    if os.path.exists(out): done = {json.loads(l)['id'] for l in open(out)}
    jobs = [j for j in jobs if j['id'] not in done]
    nw = min(nw, max(1, len(jobs)))
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
    drv = [os.path.join(extract.BUILD, f) for f in os.listdir(extract.BUILD) if f.startswith('fxdriver-')][0]
    shutil.copy(drv, ROOT + '/drv'); drv = ROOT + '/drv'
    ps = []
    for w in range(nw):
        pid = os.fork()
        if pid == 0:
            try: worker(w, jobs[w::nw], out, drv, sysroot, base)
            finally: os._exit(0)
        ps.append(pid)
    for p in ps: os.waitpid(p, 0)

if __name__ == '__main__':
    if sys.argv[1] == 'gen': gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 0, sys.argv[4] if len(sys.argv) > 4 else '')
    else: run_(sys.argv[2], sys.argv[3])
