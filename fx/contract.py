"""Contract automata: language inclusion of an extracted behaviour in the contract committed for it."""
import json, os, re, gzip

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def lab(l):
    return ' '.join(str(x) for x in l)

def to_rows(dfa):
    return [[[lab(l), d] for l, d in sorted(dfa[s].items(), key=lambda x: lab(x[0]))] for s in range(len(dfa))]

_rx = {}
def rx(l):
    r = _rx.get(l)
    if r is None:
        r = _rx[l] = re.compile('.*'.join(re.escape(x) for x in l.split('?')) + r'\Z')
    return r

_AT = re.compile(r'^(atomic .* |fence )@?([A-Za-z,]+)( .*|)$')
RANK = {'Relaxed': set(), 'Acquire': {'a'}, 'Release': {'r'}, 'AcqRel': {'a', 'r'}, 'SeqCst': {'a', 'r', 's'}}
def stronger(new, old):
    """the same atomic operation with at least the ordering the contract asks for"""
    a, b = _AT.match(new), _AT.match(old)
    if not a or not b: return False
    if not (a.group(1) == b.group(1) and a.group(3) == b.group(3)): return False
    x, y = a.group(2).split(','), b.group(2).split(',')
    return len(x) == len(y) and all(RANK.get(p, set()) >= RANK.get(q, set()) for p, q in zip(x, y))

_REV = False
def matches(new, old):
    if new == old: return True
    if _REV: new, old = old, new
    if new.startswith(('atomic', 'fence')) and stronger(new, old): return True
    if '?' in old and rx(old).match(new): return True
    if '?' in new and rx(new).match(old): return True
    return False

class Deviation:
    def __init__(self, trace, label, allowed):
        self.trace, self.label, self.allowed = trace, label, allowed

def include(new, old, maxdev=200):
    """deviations of automaton `new` from `old` (rows); shortest traces first"""
    devs = []
    n_lab = 0
    start = (0, frozenset([0]))
    seen = {start}
    parent = {start: None}
    q = [start]
    for node in q:
        n, cs = node
        row = new[n]
        has_out = any(old[c] for c in cs)
        if not row and has_out and all(old[c] for c in cs):
            devs.append(Deviation(path(parent, node), 'does not return', sorted({l for c in cs for l, _ in old[c]})))
        for l, d in row:
            n_lab += 1
            if l == '*': continue
            tgt = set(); star = False
            for c in cs:
                for l2, d2 in old[c]:
                    if l2 == '*': star = True
                    elif l2 == l: tgt.add(d2)
            if star: continue
            if not tgt or '?' in l:
                for c in cs:
                    for l2, d2 in old[c]:
                        if l2 != l and matches(l, l2): tgt.add(d2)
            if not tgt:
                if len(devs) < maxdev:
                    devs.append(Deviation(path(parent, node), l, sorted({l2 for c in cs for l2, _ in old[c]})))
                continue
            nx = (d, frozenset(tgt))
            if nx not in seen:
                seen.add(nx)
                parent[nx] = (node, l)
                q.append(nx)
    return devs, len(seen), n_lab

def atom(l):
    """('term', value, excluded?) of a guard label"""
    t, n = l[3:].rsplit(' ', 1)
    if n.startswith('!'): return t, None, frozenset(n[1:].split(','))
    return t, n, frozenset()

def consistent(val, t, n, ex):
    """extended valuation, or None"""
    old = val.get(t)
    if old is None:
        x = ordered(val, t, n, ex)
        if x is not None: return val if x else None
        v2 = dict(val); v2[t] = (n, ex)
        return v2
    on, oex = old
    if n is not None:
        if on is not None: return val if on == n else None
        if n in oex: return None
        v2 = dict(val); v2[t] = (n, frozenset())
        return v2
    if on is not None: return None if on in ex else val
    if ex <= oex: return val
    v2 = dict(val); v2[t] = (None, ex | oex)
    return v2

_CMP = {}
def compared(t):
    r = _CMP.get(t)
    if r is None:
        r = (None, None, None)
        if t[:3] in ('Lt(', 'Eq(') and t.endswith(')'):
            a, b = split2(t[3:-1])
            if b is not None and split2(b)[1] is None: r = (t[:2], a, b)
        _CMP[t] = r
    return r

def ordered(val, t, n, ex):
    """whether the comparisons known to have come out as they did decide this one: True, False or None"""
    if n is None: n = '1' if ex == {'0'} else '0' if ex == {'1'} else None
    op, a, b = compared(t)
    if op is None or n is None: return None
    if a == b: return (n == '1') == (op == 'Eq')
    def is_(x): return val.get(x, (None,))[0]
    lt, gt = is_('Lt(%s,%s)' % (a, b)), is_('Lt(%s,%s)' % (b, a))
    eq = is_('Eq(%s,%s)' % (a, b)) or is_('Eq(%s,%s)' % (b, a))
    r = None
    if op == 'Lt':
        if '1' in (gt, eq): r = '0'
        elif gt == '0' and eq == '0': r = '1'
        elif b.isdigit():
            x = val.get(a)
            if x and x[0] is not None and x[0].isdigit(): r = '1' if int(x[0]) < int(b) else '0'
    else:
        if '1' in (lt, gt): r = '0'
        elif lt == '0' and gt == '0': r = '1'
    return None if r is None else r == n

OPS = re.compile(r'\b(Lt|Eq|BitAnd|BitOr|BitXor)\(')
def stable(t):
    """tests of plain fields keep their outcome across effects; results of operations may be computed anew"""
    return '(' not in OPS.sub('', t)

_READ = re.compile(r'\b(guarded|value)\(([\w.*]+)\)')
_reads = {}
def reads(t):
    """the places behind locks and the atomics a term was read from; None when it is named by anything else that is computed"""
    r = _reads.get(t)
    if r is None:
        r = _reads[t] = (frozenset(_READ.findall(t)), stable(_READ.sub('', t)))
    return r

class Live:
    """which tests can still matter: those of values that labels yet to come speak of"""
    def __init__(self, rows):
        self.labels, ids = [], {}
        own = []
        for r in rows:
            m = 0
            for l, _ in r:
                if l not in ids: ids[l] = len(self.labels); self.labels.append(l)
                m |= 1 << ids[l]
            own.append(m)
        self.reach = own[:]
        pred = [[] for _ in rows]
        for i, r in enumerate(rows):
            for _, d in r: pred[d].append(i)
        todo = list(range(len(rows)))
        while todo:
            i = todo.pop()
            for p in pred[i]:
                m = self.reach[p] | self.reach[i]
                if m != self.reach[p]: self.reach[p] = m; todo.append(p)
        self.masks = {}

    def mask(self, t):
        m = self.masks.get(t)
        if m is None:
            m = 0
            for a in atoms(t):
                for i, l in enumerate(self.labels):
                    if a in l: m |= 1 << i
            self.masks[t] = m
        return m

_atoms = {}
def atoms(t):
    r = _atoms.get(t)
    if r is None:
        if t.startswith('variant of '): r = [t[11:]]
        elif compared(t)[0]: r = [x for x in compared(t)[1:] if not x.isdigit()] or [t]
        else: r = [t]
        r = _atoms[t] = [x.lstrip('*') for x in r]        # `final` labels name the place, not what is in it
    return r

def relevant(val, ln, n, lo, cs):
    m = 0
    for c in cs: m |= lo.reach[c]
    return frozenset((t, x) for t, x in val if t.startswith('written ') or ln.reach[n] & ln.mask(t) or m & lo.mask(t))

def keep(val, l):
    """the tests whose outcome still stands after effect l: what a lock guarded was read when the lock was held, and is read anew only
    when it is taken again, and the value of an atomic only when that is accessed again"""
    out = []
    for t, x in val:
        if stable(t): out.append((t, x)); continue
        if l.startswith('mut copy_from_slice '): out.append((t, x)); continue       # changes what is in a slice, and nothing that was computed before it
        r, ok = reads(t)
        if not ok: continue
        w = l.split(' ')
        if w[0] in ('op', 'child'): continue
        if 'lock' in w[0] and any(k == 'guarded' and overlap(w[1], p) for k, p in r): continue
        if w[0] == 'atomic' and any(k == 'value' and overlap(w[2].split('(')[0], p) for k, p in r): continue
        out.append((t, x))
    if l.startswith('write ') and any(t in ('*' + wloc(l), '*' + wloc(l) + '.0') for t, _ in val): out.append(('written ' + wloc(l), ('1', frozenset())))
    return frozenset(out)

def idle(l, val):
    """memory the caller lent is left with, or memory not written before is given, the value it is known to have had"""
    if not l.startswith(('final ', 'write ')): return False
    k, loc, v = l.split(' ', 2)
    if k == 'write': return ('written ' + loc) not in val and v in (val.get('*' + loc, (None,))[0], val.get('*' + loc + '.0', (None,))[0])
    n = loc if loc.startswith('*') else '*' + loc
    x = val.get(n)
    if x is not None: return x[0] == v
    m = re.match(r'V(\d+)(?:\((.*)\))?$', v)
    x = m and val.get('variant of ' + n)
    if not x or x[0] != m.group(1): return False
    return not m.group(2) or all(f == '%s.%s_%d' % (n, x[0], i) for i, f in enumerate(m.group(2).split(',')))

def closure(old, cs, val):
    """contract states reachable by tests decided by val; tests it leaves open: {term: {(value, excluded)}}"""
    out, todo, open_ = set(cs), list(cs), {}
    while todo:
        c = todo.pop()
        for l, d in old[c]:
            if l.startswith('if '):
                t, n, ex = atom(l)
                v2 = consistent(val, t, n, ex)
                if v2 is None: continue
                if v2 is val or _REV:
                    if d not in out: out.add(d); todo.append(d)
                else: open_.setdefault(t, set()).add((n, ex))
            elif idle(l, val):
                if d not in out: out.add(d); todo.append(d)
    return out, open_

def front(old, c, val, out, depth=0):
    for l2, d2 in old[c]:
        if l2.startswith('if ') and depth < 40:
            v2 = consistent(val, *atom(l2))
            if v2 is not None: front(old, d2, v2, out, depth + 1)
        else: out.add(l2)
    if not old[c]: out.add('')

def equalities(val, result=False):
    """what the tests made so far say two names of a value have in common: [(pattern, replacement)]"""
    out = []
    for t, (n, ex) in sorted(val.items()):
        if n is None: continue
        if t.startswith('variant of '):
            x = t[11:]
            out.append((r'\bV%s\(%s(,%s)*\)' % (n, re.escape('%s.%s_0' % (x, n)), re.escape('%s.%s_' % (x, n)) + r'\d+'), x))
            out.append((r'\bV%s\b(?!\()' % n, x))
            if x[0] != '*':
                y = ('Ok(%s.0)' if n == '0' else 'Err(%s.1_0)') % x if result else 'None' if n == '0' else 'Some(%s.1_0)' % x
                out.append((r'(?<![\w*&.])%s(?![\w.\[(])' % re.escape(x), y))
        elif n == '0' and t.startswith('Lt('):
            a, b = split2(t[3:-1])
            if b is None: continue
            if val.get('Lt(%s,%s)' % (b, a), (None,))[0] == '0' and len(b) <= len(a): out += same(a, b)
        elif n == '1' and t.startswith('Eq('):
            a, b = split2(t[3:-1])
            if b is not None: out += same(b, a) if len(a) <= len(b) else same(a, b)
        elif n.isdigit() and not t.startswith(('Lt(', 'Eq(')):
            out.append((r'(?<![\w*&.])%s(?![\w.\[(])' % re.escape(t), n))
    return out

def same(a, b):
    whole = [(re.escape('%s[..%s]' % (x[4:-1], y)), x[5:-1]) for x, y in ((a, b), (b, a)) if x.startswith('len(*') and x.endswith(')')]       # all of a slice
    return whole + [(r'(?<![\w*&.])%s(?![\w.\[(])' % re.escape(a), b)] + [(re.escape(x), '0') for x in ('[-%s+%s]' % (b, b), '[+%s-%s]' % (b, b))]

def split2(t):
    d = 0
    for i, c in enumerate(t):
        if c in '([': d += 1
        elif c in ')]': d -= 1
        elif c == ',' and d == 0: return t[:i], t[i+1:]
    return t, None

def equated(l, eq):
    for a, b in eq: l = re.sub(a, lambda m: b, l)
    return l

_WEAK = re.compile(r'^atomic cas (\S+?)\((.*)\) @\S+ failed (.*)$')
def spurious(l):
    """a compare-exchange that failed although it found what it expected changes nothing: what follows must be what was to come before it"""
    m = _WEAK.match(l)
    return bool(m) and split2(m.group(2))[0] == m.group(3)

def infeasible(l, old, C, val):
    """the contract makes the same call here and, by the tests known to have come out as they did, excludes this answer: what a callee
    answers is not the caller's choice, so the answer does not occur"""
    if not l.startswith('child ') or not any('(' in t for t in val): return False
    p = l.rsplit(' ', 1)[0] + ' '
    return any(l2.startswith(p) for c in C for l2, _ in old[c])

def include_guarded(new, old, maxdev=200, limit=30000):
    """as include, but tests of values (`if` labels) may be made in any order, or not at all where they do not matter: a
    path of `new` must agree with every path of `old` whose tests it does not contradict"""
    devs, n_lab = [], 0
    ln, lo = Live(new), Live(old)
    start = (0, frozenset([0]), frozenset(), False)
    seen = {start}; parent = {start: None}; q = [start]
    def go(node, l, nx):
        if nx not in seen:
            if len(seen) > limit: raise OverflowError
            seen.add(nx); parent[nx] = (node, l); q.append(nx)
    for node in q:
        n, cs, val, hard = node
        v = dict(val)
        row = new[n]
        C, open_ = closure(old, cs, v)
        if not row:
            fr = set()
            for c in C: front(old, c, v, fr)
            if fr and '' not in fr and '*' not in fr: devs.append(Deviation(path(parent, node), 'does not return', sorted(fr)))
        labels = row
        if not hard:
            for l, d in row:
                if l.startswith('if '):
                    n_lab += 1
                    v2 = consistent(v, *atom(l))
                    if v2 is not None: go(node, l, (d, cs, frozenset(v2.items()), False))
        rest = [(l, d) for l, d in row if not l.startswith('if ')]
        if not rest: continue
        if open_:
            t = min(open_)
            for n1, ex in open_[t]:
                v2 = consistent(v, t, n1, ex)
                if v2 is not None: go(node, None, (n, cs, frozenset(v2.items()), True))
            continue
        for l, d in rest:
            n_lab += 1
            if l == '*': continue
            if idle(l, v):
                go(node, l, (d, frozenset(C), val, False))
                continue
            tgt = set(); star = False
            for c in C:
                for l2, d2 in old[c]:
                    if l2 == '*': star = True
                    elif l2 == l: tgt.add(d2)
            if star: continue
            if not tgt or '?' in l:
                for c in C:
                    for l2, d2 in old[c]:
                        if l2 != l and not l2.startswith('if ') and matches(l, l2): tgt.add(d2)
            if not tgt:
                for eq in (equalities(v), equalities(v, True)):
                    le = eq and equated(l, eq)
                    if not eq or tgt: continue
                    for c in C:
                        for l2, d2 in old[c]:
                            if not l2.startswith('if ') and equated(l2, eq) == le: tgt.add(d2)
            if not tgt and infeasible(l, old, C, v): continue
            if not tgt and spurious(l): tgt = set(C)
            if not tgt and l.startswith('atomic load ') and {l2 for c in C for l2, d2 in old[c] if not l2.startswith('if ')} == {'panic'}: tgt = set(C)    # reads on the way to a panic
            if not tgt:
                if len(devs) < maxdev:
                    fr = set()
                    for c in C: front(old, c, v, fr)
                    devs.append(Deviation(path(parent, node), l, sorted(fr)))
                continue
            go(node, l, (d, frozenset(tgt), relevant(keep(val, l), ln, d, lo, tgt), False))
    return devs, len(seen), n_lab

def path(parent, node):
    out = []
    while parent[node] is not None:
        node, l = parent[node]
        if l is not None: out.append(l)
    out.reverse()
    return out

def load(name):
    p = os.path.join(HERE, 'contracts', name + '.json')
    with open(p) as f:
        return json.load(f)

def save(name, obj):
    p = os.path.join(HERE, 'contracts', name + '.json')
    with open(p, 'w') as f:
        json.dump(obj, f, indent=0, sort_keys=True)
        f.write('\n')

def pack(subj):
    """label table + rows, for compact storage"""
    tab, ids = [], {}
    for k in sorted(subj):
        for r in subj[k]['rows']:
            for e in r:
                if e[0] not in ids:
                    ids[e[0]] = len(tab); tab.append(e[0])
                e[0] = ids[e[0]]
    return tab

def unpack(obj):
    tab = obj['labels']
    for v in obj['subjects'].values():
        v['rows'] = [[[tab[a], b] for a, b in r] for r in v['rows']]
    return obj

def after(rows):
    """[(effect, effects that may come next)], tests left out"""
    memo = {}
    def nxt(c):
        if c not in memo:
            out, todo, seen = set(), [c], {c}
            while todo:
                for l, d in rows[todo.pop()]:
                    if not l.startswith('if '): out.add(l)
                    elif d not in seen: seen.add(d); todo.append(d)
            memo[c] = out
        return memo[c]
    out = {}
    for r in rows:
        for l, d in r:
            if not l.startswith('if '): out.setdefault(l, set()).update(nxt(d))
    return out

def lost(inc, new, old):
    """what the contract does and `new` no longer can: paths of the contract that no path of `new` follows, whatever comes of the tests
    only `new` makes. The contract may hold paths that do not occur (what the analysis could not rule out), and `new` may be written so
    that they are ruled out: only an effect that never again comes after the one before it, or a result never returned, is lost"""
    global _REV
    _REV = True
    try:
        devs = [d for d in inc(old, new)[0] if d.label != 'does not return']
        if not devs: return devs
        nx = after(new)
        out = []
        for d in devs:
            if d.label.startswith(('ret ', 'panic', 'final ', 'handles ')):
                if any(matches(d.label, l) for l in nx): continue
            else:
                prev = [t for t in d.trace if not t.startswith('if ')][-1:]
                if any(matches(d.label, l2) for l, ls in nx.items() if not prev or matches(prev[0], l) for l2 in ls): continue
            out.append(d)
        return out
    finally: _REV = False

# ---------------------------------------------------------------- independent effects in another order
FLOAT = ('drop ', 'write ', 'final ')
MAXDEBT = 3

def wloc(l):
    return l.split(' ')[1]

def overlap(a, b):
    a, b = a.lstrip('*'), b.lstrip('*')
    return a == b or a.startswith(b + '.') or b.startswith(a + '.') or a.startswith(b + '[') or b.startswith(a + '[')

def commute(x, l):
    """the floating effect x (a drop of an owned value or a plain write) may be made before or after l"""
    k = l.split(' ')[0]
    if k == 'panic': return True
    if x.startswith('drop ') and not x[5:].startswith(('*', 'self', 'guarded', 'elem', '&')):
        if k in ('atomic', 'will_wake', 'drop', 'fence', 'upgrade'): return True
        if k in ('write', 'mut', 'final'): return not overlap(wloc(l), x[5:])
        return False
    if k == 'atomic' and x.startswith('write '):
        a = _AT.match(l)
        return bool(a) and a.group(2) == 'Relaxed' and not overlap(l.split(' ')[2].split('(')[0], wloc(x))
    if k in ('write', 'final'): return not overlap(wloc(l), wloc(x))
    if k == 'drop': return not overlap(l[5:], wloc(x))
    if k == 'mut':
        return not any(overlap(t.strip('&'), wloc(x)) for t in re.split('[ ,]', l[4:]))
    return False

def agree(a, b, eq):
    return a == b or matches(a, b) or bool(eq) and equated(a, eq) == equated(b, eq)

def dclosure(old, es, val):
    out, todo, open_ = set(es), list(es), {}
    eq = equalities(val)
    def add(e):
        if e not in out: out.add(e); todo.append(e)
    while todo:
        e = todo.pop()
        c, ia, oa = e
        for l, d in old[c]:
            if l.startswith('if '):
                t, n, ex = atom(l)
                v2 = consistent(val, t, n, ex)
                if v2 is None: continue
                if v2 is val or _REV: add((d, ia, oa))
                else: open_.setdefault(t, set()).add((n, ex))
                continue
            if idle(l, val): add((d, ia, oa))
            if l.startswith(FLOAT):
                for i, x in enumerate(ia):
                    if agree(x, l, eq): add((d, ia[:i] + ia[i+1:], oa)); break
                if len(oa) < MAXDEBT and all(commute(l, x) for x in ia): add((d, ia, tuple(sorted(oa + (l,)))))
    return out, open_

def include_floating(new, old, limit=30000):
    """as include_guarded, with drops and plain writes moved over the effects they are independent of; True when every path agrees"""
    ln, lo = Live(new), Live(old)
    start = (0, frozenset([(0, (), ())]), frozenset(), False)
    seen = {start}; q = [start]
    def go(nx):
        if nx not in seen:
            if len(seen) > limit: raise OverflowError
            seen.add(nx); q.append(nx)
    for n, es, val, hard in q:
        v = dict(val)
        row = new[n]
        C, open_ = dclosure(old, es, v)
        if not row:
            fr = set()
            for c, ia, oa in C:
                if not ia and not oa: front(old, c, v, fr)
            if '' not in fr and '*' not in fr: return False
        if not hard:
            for l, d in row:
                if l.startswith('if '):
                    v2 = consistent(v, *atom(l))
                    if v2 is not None: go((d, es, frozenset(v2.items()), False))
        rest = [(l, d) for l, d in row if not l.startswith('if ')]
        if not rest: continue
        if open_:
            t = min(open_)
            for n1, ex in open_[t]:
                v2 = consistent(v, t, n1, ex)
                if v2 is not None: go((n, es, frozenset(v2.items()), True))
            continue
        eq = equalities(v)
        for l, d in rest:
            if l == '*': continue
            if idle(l, v):
                go((d, es, val, False))
                continue
            tgt = set(); star = False
            for c, ia, oa in C:
                free = all(commute(x, l) for x in ia) and all(commute(x, l) for x in oa)
                for l2, d2 in old[c]:
                    if l2 == '*': star = True
                    elif free and not l2.startswith('if ') and agree(l, l2, eq):
                        tgt.add((d2, (), ()) if l == 'panic' else (d2, ia, oa))
                if l.startswith(FLOAT):
                    for i, x in enumerate(oa):
                        if agree(l, x, eq): tgt.add((c, ia, oa[:i] + oa[i+1:])); break
                    if len(ia) < MAXDEBT and all(commute(l, x) for x in oa): tgt.add((c, tuple(sorted(ia + (l,))), oa))
            if star or not tgt and infeasible(l, old, [c for c, _, _ in C], v): continue
            if not tgt and spurious(l): tgt = set(C)
            if not tgt: return False
            go((d, frozenset(tgt), relevant(keep(val, l), ln, d, lo, [c for c, _, _ in tgt]), False))
    return True

def distinct(rows):
    """tests of two values that go by the same name (the answers of two calls) contradict each other where nothing happens between
    them: the later is told apart"""
    know = [None] * len(rows)
    know[0] = {}
    todo = [0]
    while todo:
        c = todo.pop()
        for l, d in rows[c]:
            k = {}
            if l.startswith('if '):
                k = consistent(know[c], *atom(l))
                if k is None: k = know[c]
            if know[d] is None: know[d] = dict(k); todo.append(d)
            else:
                m = {t: x for t, x in know[d].items() if k.get(t) == x}
                if len(m) != len(know[d]): know[d] = m; todo.append(d)
    out = []
    for c, r in enumerate(rows):
        if know[c]:
            r = [[tell(l, know[c]), d] for l, d in r]
        out.append(r)
    return out

def tell(l, know):
    if not l.startswith('if '): return l
    t, n, ex = atom(l)
    if '(' not in t or t not in know or consistent(know, t, n, ex) is not None: return l
    return 'if %s~ %s' % (t, l.rsplit(' ', 1)[1])

def include_units(new, old):
    new, old = distinct(new), distinct(old)
    try: r = include_guarded(new, old)
    except OverflowError: r = include(new, old)
    if r[0]:
        try:
            if include_floating(new, old): return [], r[1], r[2]
        except OverflowError: pass
    return r
