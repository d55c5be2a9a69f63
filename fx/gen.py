"""Regenerates the contract automata from the current tree (a reviewed, manual step: never run by a check)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, contract, extract, units
def main(what):
    db, _, _ = extract.extract()
    D, _, _ = run.load(db)
    if 'objects' in what:
        J = run.jobs_all()
        rs = run.explore_jobs(J, tmo=300)
        subj = {}
        opq = set()
        for r in rs:
            if r.err:
                print('skipped', r.name, r.mode, r.err[-200:]); continue
            subj[r.name + ' / ' + r.mode] = dict(adt=r.adt, incomplete=r.stats.get('incomplete', 0), rows=contract.to_rows(r.dfa))
            opq |= r.opaque
        contract.save('objects', dict(subjects=subj, opaque=sorted(opq)))
        print(len(subj), 'subjects', sum(len(s['rows']) for s in subj.values()), 'states')
    if 'autos' in what:
        import autos
        autos.gen(db)
    for kind in ('units', 'panics'):
        if kind not in what: continue
        us = units.all_units(D)
        rs = units.explore_units(D, us, tmo=120, panic=kind == 'panics')
        ent = set()
        for r in rs: ent |= r.entered
        subj = {}
        opq = set()
        skip = []
        for r in rs:
            if r.err or r.inc:
                skip.append((r.key, r.err or 'budget')); continue
            if kind == 'panics' and (not r.dfa or not units.panic_scope(r.sp)): continue
            if not r.pub and us[r.key] in ent and not units.labelled(r.p): continue
            subj[r.key] = dict(sp=r.sp.split(':')[0], pub=r.pub, rows=contract.to_rows(r.dfa))
            opq |= r.opaque
        for s in skip: print('skipped', s[0], s[1][-100:])
        n = sum(len(s['rows']) for s in subj.values())
        tab = contract.pack(subj)
        contract.save(kind, dict(subjects=subj, labels=tab, opaque=sorted(opq)))
        print(kind, len(subj), 'functions', n, 'states', len(tab), 'labels')
main(sys.argv[1:] or ['objects', 'units', 'panics', 'autos'])
