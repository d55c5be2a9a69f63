"""Thread-safety and pinning guarantees of types: for every public type, whether it is Send, Sync and Unpin, and which of the
assumptions `P: Send`, `P: Sync`, `P: Unpin` on its type parameters (and associated types) the compiler's trait solver needs."""
import json, contract

def load(dbpath):
    out = {}
    with open(dbpath) as f:
        for l in f:
            if l.startswith('{"Z":'):
                d = json.loads(l)
                if not d['pub'] or d['Z'].startswith('<'): continue

                out.setdefault(d['Z'], {})[d['tr']] = dict(full=d['full'], need=sorted(d['need']), sp=d['sp'])
    return out

def gen(dbpath):
    cur = load(dbpath)
    contract.save('autos', dict(types={k: {t: [v['full'], v['need']] for t, v in d.items()} for k, d in sorted(cur.items())}))
    print(len(cur), 'types')

def check(traits):
    def run(rep, dbpath, tier):
        cur = load(dbpath)
        want = contract.load('autos')['types']
        tails = {}
        for k in cur: tails.setdefault(k.rsplit('::', 1)[-1], []).append(k)
        n = q = 0
        for k, w in sorted(want.items()):
            c = cur.get(k)
            if c is None:
                g = [x for x in tails.get(k.rsplit('::', 1)[-1], []) if x not in want]
                if len(g) != 1:
                    rep.violation('missing type ' + k, 'public type no longer found: ' + k, ['the analysis has lost its anchor; rule: fail closed'])
                    continue
                c = cur[g[0]]
            n += 1
            for t in traits:
                full, need = w[t]
                x = c[t]
                q += 1 + len(need)
                where = ['type: %s at %s' % (k, x['sp']), 'rule: the type has %s exactly under the assumptions on its parameters recorded in contracts/autos.json (trait solver)' % t]
                if x['full'] and not full:
                    rep.violation('gained %s %s' % (t, k), '%s (%s): is %s, although what it contains must never be' % (k, x['sp'], t), where)
                elif full and not x['full']:
                    rep.violation('lost %s %s' % (t, k), '%s (%s): is not %s even when all its parameters are' % (k, x['sp'], t), where)
                elif full:
                    for a in need:
                        if a not in x['need']:
                            rep.violation('unrequired %s %s %s' % (t, k, a), '%s (%s): is %s without requiring `%s`' % (k, x['sp'], t, a), where)
                    for a in x['need']:
                        if a not in need:
                            rep.violation('required %s %s %s' % (t, k, a), '%s (%s): is %s only when `%s`, which its contents do not need' % (k, x['sp'], t, a), where)
        rep.cov.update(types_analysed=n, trait_obligations=q)
        rep.cov['rules'] = list(rep.cov.get('rules', [])) + ['Send/Sync/Unpin of public types by the trait solver: ' + ', '.join(traits)]
    return run
