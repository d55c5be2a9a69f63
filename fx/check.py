#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current tree."""
import sys, os, json, time, hashlib, pickle, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import extract, contract, run, props, units
import behav
from exempt import EXEMPT

class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []          # (key, summary, detail lines)
        self.known = []
        self.cov = {}
        self.notes = []

    def violation(self, key, summary, detail):
        self.viol.append((key, summary, detail))

def code_hash():
    return extract.digest([os.path.join(HERE, f) for f in sorted(os.listdir(HERE)) if f.endswith('.py')])

def explore(dbpath, jobs, known, tmo):
    """explorations, cached by database and analyser"""
    h = hashlib.sha256((os.path.basename(dbpath) + code_hash() + str(tmo) + repr(sorted(known))).encode()).hexdigest()[:20]
    cdir = os.path.join(extract.BUILD, 'cache-' + h)
    for f in os.listdir(extract.BUILD):
        if f.startswith('cache-') and f != 'cache-' + h and len(f) == len(cdir) - len(extract.BUILD) - 1:
            import shutil
            shutil.rmtree(os.path.join(extract.BUILD, f), ignore_errors=True)
    os.makedirs(cdir, exist_ok=True)
    out, todo = [], []
    def fn(j):
        return os.path.join(cdir, hashlib.sha256((run._SUBJ[j[0]].name + '/' + j[1][0]).encode()).hexdigest()[:24])
    for j in jobs:
        try:
            with open(fn(j), 'rb') as f:
                d = pickle.load(f)
            r = run.Job()
            for k, v in d.items(): setattr(r, k, v)
            out.append(r)
        except Exception:
            todo.append(j)
    behav.Behav.known_opaque = known
    if todo:
        names = {(run._SUBJ[j[0]].name, j[1][0]): j for j in todo}
        for r in run.explore_jobs(todo, tmo=tmo):
            out.append(r)
            p = fn(names[(r.name, r.mode)])
            with open(p + '.%d' % os.getpid(), 'wb') as f:
                pickle.dump({k: getattr(r, k) for k in run.Job.__slots__}, f)
            os.rename(p + '.%d' % os.getpid(), p)
    return out

def tail(name, n=2):
    return '::'.join(name.split('::')[-n:])

def objects(rep, P, dbpath, tier):
    """universal rules and contract conformance over the objects in scope"""
    C = contract.load('objects')
    db, idx, subj = run.load(dbpath)
    jobs = [j for j in run.jobs_all() if P.scope((subj[j[0]].name, subj[j[0]].adt, j[1][0]))]
    tmo = 200 if tier == 'quick' else 700
    rs = explore(dbpath, jobs, set(C['opaque']), tmo)
    want = {k: v for k, v in C['subjects'].items() if P.scope((k.split(' / ')[0], v['adt'], k.split(' / ')[1]))}
    have = {r.name + ' / ' + r.mode: r for r in rs}
    # anchors: every subject of the contract must still exist (possibly in another module)
    bytail = {}
    for k, r in have.items(): bytail.setdefault((tail(r.name), r.mode), []).append(k)
    pair = {}
    for k in want:
        if k in have: pair[k] = have[k]
        else:
            n, m = k.split(' / ')
            c = [x for x in bytail.get((tail(n), m), []) if x not in want]
            if len(c) == 1: pair[k] = have[c[0]]
            else: rep.violation('missing ' + k, 'public constructor or operation no longer found: ' + k, ['the analysis has lost its anchor; rule: fail closed'])
    agg = dict(subjects=len(rs), states=0, operations=0, child_polls=0, returns=0, pending_returns=0, steps=0, termination_queries=0)
    inc, tainted = [], set()
    rules_hit = {}
    for r in rs:
        for a, b in (('states', 'states'), ('operations', 'runs'), ('child_polls', 'polls'), ('returns', 'finals'), ('pending_returns', 'pend'), ('steps', 'steps'), ('termination_queries', 'term')):
            agg[a] += r.stats.get(b, 0)
        if r.err or r.stats.get('incomplete'): inc.append('%s / %s: %s' % (r.name, r.mode, (r.err or 'state limit')[:80]))
        tainted |= r.fresh
        for v in r.viol:
            if v['rule'] not in P.rules: continue
            key = (v['rule'], r.adt)
            if key in EXEMPT:
                rules_hit[v['rule'] + ' (exempt by design)'] = rules_hit.get(v['rule'] + ' (exempt by design)', 0) + 1
                continue
            rep.violation('%s %s %s' % (v['rule'], r.adt, v['op']), '%s: %s: %s' % (v['rule'], tail(r.name), v['detail']),
                          ['subject: %s (%s), operation %s' % (r.name, r.adt, v['op']), 'at: ' + v['where'], 'rule: ' + v['rule'], 'history:'] + ['  ' + x for x in v['trace']])
    nlab = npair = nconf = 0
    if P.conf is not None:
        for k, r in sorted(pair.items()):
            if r.err: continue
            devs, a, b = contract.include(contract.to_rows(r.dfa), want[k]['rows'])
            npair += a; nlab += b; nconf += 1
            lost = [] if devs or r.stats.get('incomplete') else contract.lost(contract.include, contract.to_rows(r.dfa), want[k]['rows'])
            for d in [d for d in lost if P.conf(d)][:3]:
                rep.violation('lost %s: %s' % (k, d.label), '%s: `%s` no longer occurs here, only %s' % (k, d.label, ' or '.join('`%s`' % x for x in d.allowed[:6]) or 'nothing'),
                              ['subject: %s, constructed at %s' % (k, r.sp), 'rule: every history of the contract automaton is still a history of the object', 'history:'] + ['  ' + x for x in d.trace] + ['  ' + d.label + '      <-- no longer reached', 'instead: ' + '; '.join(d.allowed)])
            devs = [d for d in devs if P.conf(d)]
            if r.stats.get('incomplete'):
                devs = [d for d in devs if d.label != 'does not return']
            for d in devs[:3]:
                rep.violation('deviation %s: %s' % (k, d.label), '%s: `%s` where the contract allows only %s' % (k, d.label, ' or '.join('`%s`' % x for x in d.allowed[:6]) or 'nothing'),
                              ['subject: %s, constructed at %s' % (k, r.sp), 'rule: every observable history of the object is a history of its contract automaton', 'history:'] + ['  ' + x for x in d.trace] + ['  ' + d.label + '      <-- not allowed here', 'allowed: ' + '; '.join(d.allowed)])
    rep.cov.update(agg)
    rep.cov['contract_automata_compared'] = nconf
    rep.cov['product_states'] = npair
    rep.cov['labels_compared'] = nlab
    rep.cov['rules'] = sorted(P.rules) + (['conformance to contract automaton'] if P.conf else [])
    rep.cov['exempt'] = rules_hit
    rep.cov['incomplete'] = inc
    rep.cov['unmodelled_callees'] = sorted(tainted)

def cached_units(D, dbpath, us, known, panic=False):
    h = hashlib.sha256((os.path.basename(dbpath) + code_hash() + repr(sorted(known))).encode()).hexdigest()[:20]
    pre = 'pcache-' if panic else 'ucache-'
    cdir = os.path.join(extract.BUILD, pre + h)
    for f in os.listdir(extract.BUILD):
        if f.startswith(pre) and f != pre + h:
            import shutil
            shutil.rmtree(os.path.join(extract.BUILD, f), ignore_errors=True)
    os.makedirs(cdir, exist_ok=True)
    out, todo = [], {}
    def fn(key): return os.path.join(cdir, hashlib.sha256(key.encode()).hexdigest()[:24])
    for key, k in us.items():
        try:
            with open(fn(key), 'rb') as f: out.append(pickle.load(f))
        except Exception:
            todo[key] = k
    if todo:
        for r in units.explore_units(D, todo, tmo=120, panic=panic):
            out.append(r)
            p = fn(r.key)
            with open(p + '.%d' % os.getpid(), 'wb') as f: pickle.dump(r, f)
            os.rename(p + '.%d' % os.getpid(), p)
    return {r.key: r for r in out}

def functions(rep, P, dbpath, tier, panic=False):
    """effect automata of single functions; panic: while a panic of user code passes through them"""
    C = contract.unpack(contract.load('panics' if panic else 'units'))
    want = {k: v for k, v in C['subjects'].items() if (P.panics if panic else P.units)(k, v['sp'])}
    D = run._DB or run.load(dbpath)[0]
    if os.path.basename(dbpath) != getattr(D, 'fxname', os.path.basename(dbpath)): D = run.load(dbpath)[0]
    behav.Behav.known_opaque = set(C['opaque'])
    allu = units.all_units(D)
    files = {v['sp'] for v in want.values()}
    # functions of the contract, and candidates for moved or renamed ones
    sel = {k: allu[k] for k in want if k in allu}
    miss = [k for k in want if k not in allu]
    cand = {}
    if miss:
        for k, f in allu.items():
            if k in C['subjects']: continue
            cand[k] = f
    rs = cached_units(D, dbpath, dict(sel, **cand), C['opaque'], panic)
    nst = nlab = steps = n = 0
    tainted, inc = set(), []
    def compare(k, r):
        return contract.include_units(contract.to_rows(r.dfa), want[k]['rows'])
    pairs = {k: rs[k] for k in sel}
    for k in miss:
        last = k.split(' #')[0].rsplit('::', 1)[-1]
        if k.startswith('<'):
            g = [c for c in cand if c.startswith('<') and unit_tail(c) == unit_tail(k)]
        else:
            g = [c for c in cand if c.split(' #')[0].rsplit('::', 1)[-1] == last and not c.startswith('<')]
        if len(g) > 1:
            g2 = [c for c in g if unit_tail(c) == unit_tail(k)]
            g = g2 or g
        if not g and not want[k]['pub']:
            # a private entry point may be renamed: any new function of the crate with the same behaviour
            for c in cand:
                if rs[c].err or rs[c].pub: continue
                rows = contract.to_rows(rs[c].dfa)
                old = [[[l if not l.startswith('op ') else 'op ' + c.split(' #')[0].rsplit('::', 1)[-1], d] for l, d in row] for row in want[k]['rows']]
                if not contract.include_units(rows, old)[0]: g = [c]; break
            if g:
                n += 1
                continue
        if len(g) >= 1: pairs[k] = rs[g[0]]
        else: rep.violation('missing ' + k, 'function no longer found: ' + k, ['the analysis has lost its anchor; rule: fail closed'])
    for k, r in sorted(pairs.items()):
        n += 1
        if r.err:
            inc.append('%s: %s' % (k, r.err[-80:])); continue
        if r.inc: inc.append(k + ': state limit')
        steps += r.steps; tainted |= r.fresh
        devs, a, b = compare(k, r)
        nst += a; nlab += b
        if not devs and not r.inc:
            lost = contract.lost(contract.include_units, contract.to_rows(r.dfa), want[k]['rows'])
            if P.uconf is not None: lost = [d for d in lost if P.uconf(d)]
            for d in lost[:3]:
                rep.violation('lost effect %s: %s' % (k, d.label), '%s (%s): `%s` no longer occurs here, only %s' % (k, r.sp, d.label, ' or '.join('`%s`' % x for x in d.allowed[:6]) or 'nothing'),
                              ['function: %s at %s' % (r.p, r.sp), 'rule: every sequence of effects of the contract is still one of the function', 'effects:'] + ['  ' + x for x in d.trace] + ['  ' + d.label + '      <-- no longer reached', 'instead: ' + '; '.join(d.allowed)])
        if r.inc: devs = [d for d in devs if d.label != 'does not return']
        if P.uconf is not None: devs = [d for d in devs if P.uconf(d)]
        for d in devs[:3]:
            rep.violation('effect %s: %s' % (k, d.label), '%s (%s): `%s` where the contract allows only %s' % (k, r.sp, d.label, ' or '.join('`%s`' % x for x in d.allowed[:6]) or 'nothing'),
                          ['function: %s at %s' % (r.p, r.sp), 'rule: every sequence of effects of the function is allowed by its effect contract', 'effects:'] + ['  ' + x for x in d.trace] + ['  ' + d.label + '      <-- not allowed here', 'allowed: ' + '; '.join(d.allowed)])
    for a, b in (('functions_compared', n), ('function_product_states', nst), ('effect_labels_compared', nlab), ('function_steps', steps)): rep.cov[a] = rep.cov.get(a, 0) + b
    rep.cov.setdefault('incomplete', [])
    rep.cov['incomplete'] = list(rep.cov['incomplete']) + inc
    rep.cov['unmodelled_callees'] = sorted(set(rep.cov.get('unmodelled_callees', [])) | tainted)
    rep.cov['rules'] = list(rep.cov.get('rules', [])) + ['conformance of function effects to effect contract']

def unit_tail(k):
    """type and method without module paths"""
    import re
    return re.sub(r'(\w+::)+(?=\w)', '', k.split(' #')[0]) if k.startswith('<') else '::'.join(k.split(' #')[0].split('::')[-2:])

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    P = props.BY_ID[a.prop]
    dbpath, nsrc, cached = extract.extract()
    rep = Report(a.prop)
    rep.cov['source_files'] = nsrc
    if P.scope is not None:
        objects(rep, P, dbpath, a.tier)
    if P.units is not None:
        functions(rep, P, dbpath, a.tier)
    if P.panics is not None:
        functions(rep, P, dbpath, a.tier, panic=True)
    for ex in P.extra:
        ex(rep, dbpath, a.tier)
    # known findings
    kf = {}
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        for e in json.load(f)['known']:
            if e['property'] == a.prop: kf[e['key']] = e
    fresh, seen = [], set()
    for key, s, d in rep.viol:
        if key in kf:
            if key not in seen:
                seen.add(key)
                print('KNOWN-FINDING: property=%s %s' % (a.prop, kf[key]['what']))
        else:
            fresh.append((key, s, d))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    code = 0
    if fresh:
        code = 1
        rp = os.path.join(VERIF, 'evidence', '%s.violation.txt' % a.prop)
        with open(rp, 'w') as f:
            for key, s, d in fresh:
                f.write('VIOLATION %s\nkey: %s\n%s\n%s\n\n' % (a.prop, key, s, '\n'.join(d)))
        for key, s, d in fresh[:5]:
            print('  ' + s[:400])
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
    cov = rep.cov
    ex = []
    if P.scope: ex.append('abstract interpretation of the type-checked MIR of every operation of the subjects in scope, over all operation histories of a legal caller and all outcomes of children and callbacks; universal typestate rules and language inclusion in contract automata')
    if P.units: ex.append('effect automaton of every function in scope, interpreted abstractly from arbitrary arguments and shared state; guard-aware language inclusion in the effect contract of that function')
    if P.panics: ex.append('the same for the panicking paths: every call of user code may panic, the unwind edges are followed, and the effects up to the end of unwinding are compared with the panic contract')
    if P.extra: ex.append('trait-solver queries for every public type under every assumption on its parameters, compared with the reviewed table')
    cov['explanation'] = '; '.join(ex)
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(fresh), known_findings=len(seen), result='violated' if fresh else 'held')
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %s; %s' % (a.prop, 'VIOLATED' if fresh else 'held', ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))
    sys.exit(code)

if __name__ == '__main__':
    main()
