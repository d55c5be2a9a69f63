"""Behavioural abstraction: the observable behaviour of an object, as a labelled transition system.

Objects are created through a public constructor and driven through every operation history a legal caller can issue.
Labels are what a user can observe: operations on the object, interactions with the children and callbacks the user
supplied (and what they answered), wake-ups of the task, panics, and the values returned, where values are named by
their provenance (which child, callback or operand they came from) and never by program variables."""
from protocol import *
import protocol, models
import itertools, re

class Graph:
    def __init__(self):
        self.ids = {}
        self.edges = {}

    def node(self, key):
        n = self.ids.get(key)
        if n is None:
            n = self.ids[key] = len(self.ids)
        return n

    def add(self, src, labels, dst):
        self.edges.setdefault(src, set()).add((labels, dst))

    def reach(self, st, key):
        n = self.node(key)
        if st.path is not None:
            self.add(st.path[0], st.path[1], n)
        st.path = (n, ())

FNS = ('core::ops::function::Fn', 'core::ops::function::FnMut', 'core::ops::function::FnOnce')
MAXNAME = 90
# arithmetic that is no other arithmetic written differently: its results are judged as they are
NUMERIC = re.compile(r'core::num::<impl .*>::(div_ceil|unsigned_abs|abs|abs_diff|pow|signum|next_power_of_two|leading_zeros|trailing_zeros|count_ones|count_zeros|rotate_left|rotate_right|swap_bytes|reverse_bits|rem_euclid|isqrt|ilog2|next_multiple_of)'
                     r'|core::iter::traits::iterator::Iterator::(take|skip|step_by|nth|sum|collect)')

class Behav(Protocol):
    """Protocol monitors plus label emission"""
    drop_labels = False
    split_future = True
    split_io = True
    maxname = MAXNAME
    known_opaque = None          # names of opaque external callees accepted; None = accept all and collect
    def __init__(self, db, root_self=None):
        super().__init__(db, root_self)
        self.cur_name = None
        self.opaque_seen = set()
        self.fresh_opaque = set()
        self.emit_on = True

    # ------------------------------------------------------------ labels
    def emit(self, st, *label):
        if st.path is not None and self.emit_on:
            st.path = (st.path[0], st.path[1] + (label,))

    # ------------------------------------------------------------ names
    def setname(self, st, v, nm):
        if v[0] == 's' and isinstance(v[1], int):
            st.tags[(v[1], '#nm')] = nm

    def same_name(self, st, old, v):
        x = self.obj_id(old)
        if x is not None:
            for t in ('#nm', '#has'):
                n = st.tags.get((x, t))
                if n is not None:
                    st.tags[(v[1], t)] = n

    def idname(self, st, i):
        if isinstance(i, str):
            if i.startswith('K:fn '): return i[5:]
            if i.startswith('K:') or i.startswith('prom:'):
                return 'K'
            return i
        if isinstance(i, int):
            return st.tags.get((i, '#nm')) or '?'
        h = i[0]
        if h == 'd':
            return '?'
        if h == 'op':
            return '?'
        if h == 'call':
            return '?'
        b = self.idname(st, h)
        if b == '?': return '?'
        e = i[1]
        if e == '*':
            return '*' + b
        if isinstance(e, tuple) and e[0] == 'e':
            return b + '[]'
        return '%s.%s' % (b, ('%s' % (e[1],)) if e[0] == 0 else '%s_%s' % e)

    def term(self, st, *a):
        # Engine.term (terminator) takes 3 more arguments; value rendering takes (value, depth)
        if len(a) == 3:
            return Engine.term(self, st, *a)
        return self.vterm(st, *a)

    def vterm(self, st, v, d=0):
        v = self.known(st, v)
        k = v[0]
        if k == 'c':
            return str(v[1]) if 0 <= v[1] <= self.int_limit else '?'
        if k == 's':
            n = self.idname(st, v[1])
            f = st.facts.get(v[1])
            if n == '?' and f is not None and f[0] == 'v':
                return 'V%d(?)' % f[1]
            return n if len(n) < self.maxname else '?'
        if k == 'a':
            if v[4] is not None and not (isinstance(v[4], int) and (v[4], '#nm') not in st.tags):
                return self.idname(st, v[4]) + "'"
            if d > 5: return '?'
            fl = [(e, w) for e, w in v[3] if e[0] == 'e' or e[0] == v[2]]
            parts = [self.vterm(st, w, d + 1) for e, w in fl]
            return 'V%d(%s)' % (v[2], ','.join(parts)) if parts or v[2] else 'V0'
        if k == 'r':
            if v[1] == ('D', 'cx'): return 'cx'
            if d > 5: return '?'
            return '&' + self.vterm(st, self.read(st, (v[1], v[2])), d + 1)
        if k == 'fn':
            return 'fn'
        return '?'

    def tterm(self, st, v, ty, d=0):
        """type-directed rendering: units and ignorable wrappers are normalised"""
        t = self.db.tys[ty] if ty is not None else None
        if t is not None:
            if t['k'] == 'tuple':
                if not t['args']: return '()'
                return '(%s)' % ','.join(self.tterm(st, self.known(st, self.step_value(st, v, (0, i))), a, d + 1) for i, a in enumerate(t['args']))
            if t['k'] == 'bool':
                v = self.known(st, v)
                return {0: 'false', 1: 'true'}.get(v[1], '?') if v[0] == 'c' else self.vterm(st, v, d)
            if t['k'] == 'adt' and d < 6:
                df = t['def']
                vs = {'core::task::poll::Poll': ('Ready', 'Pending'), 'core::option::Option': ('None', 'Some'), 'core::result::Result': ('Ok', 'Err'),
                      'core::ops::control_flow::ControlFlow': ('Continue', 'Break')}.get(df)
                if vs is not None:
                    k = var(st, v)
                    if k is None:
                        return self.vterm(st, v, d)
                    nm = vs[k]
                    if nm in ('Pending', 'None'): return nm
                    at = t['args'][0]
                    if df == 'core::result::Result': at = t['args'][k]
                    if df == 'core::ops::control_flow::ControlFlow': at = t['args'][1 - k]
                    return '%s(%s)' % (nm, self.tterm(st, self.known(st, self.step_value(st, v, (k, 0))), at, d + 1))
                if df in ('core::pin::Pin',):
                    return self.tterm(st, self.known(st, self.step_value(st, v, (0, 0))), t['args'][0], d)
                if t.get('ak') == 'enum' and df.startswith('futures'):
                    k = var(st, v)
                    if k is not None and t.get('v') and k < len(t['v']):
                        nm, _, fl = t['v'][k]
                        return '%s(%s)' % (nm, ','.join(self.tterm(st, self.known(st, self.step_value(st, v, (k, i))), ft, d + 1) for i, (_, ft) in enumerate(fl)))
                if t.get('ak') == 'struct' and df.startswith('futures') and t.get('v') and v[0] == 'a':
                    return df.rsplit('::', 1)[-1]
        return self.vterm(st, v, d)

    # ------------------------------------------------------------ eager outcomes
    def split(self, st, ty, dt, opt, res):
        nm = self.cur_name
        t = self.db.tys[ty] if ty is not None else None
        if t and t['k'] == 'bool':
            s2 = st.clone()
            return [(st, C(1), 'true'), (s2, C(0), 'false')]
        if t and t['k'] == 'adt':
            d = t['def']
            if d == 'core::result::Result' and res:
                s2 = st.clone()
                e2 = s2.fresh(('err',))
                if nm: self.setname(s2, e2, 'err(%s)' % nm)
                out = [(s2, err(e2), 'Err')]
                for s3, v, o in self.split(st, t['args'][0], dt, opt, False):
                    out.append((s3, ok(v), 'Ok' + ('(%s)' % o if o else '')))
                return out
            if d == 'core::ops::control_flow::ControlFlow':
                pass
        if t and t['k'] == 'tuple' and not t['args']:
            return [(st, UNIT, '')]
        if (t and t['k'] == 'adt' and t['def'] in ('core::task::poll::Poll', 'core::option::Option', 'core::result::Result')):
            r = super().split(st, ty, dt, opt, res)
            if not (t['def'] == 'core::option::Option' and not opt) and not (t['def'] == 'core::result::Result' and not res):
                return r
            s3, v, o = r[0]
            if nm: self.setname(s3, v, nm)
            return r
        v = st.fresh(('out',))
        if nm: self.setname(st, v, nm)
        return [(st, v, '')]

    def child_name(self, st, l, v):
        x = self.obj_id(v)
        if x is None:
            return self.vterm(st, v)
        return self.idname(st, x)

    def poll_child(self, st, cls, desc, args, argtys, dty, lk):
        l = self.deref(st, args[0])
        v = self.read(st, l)
        n = self.child_name(st, l, v)
        if lk is not None and n == '?':
            n = lk[0].rsplit('::', 1)[-1]
        save = self.cur_name
        m = desc['m']
        self.cur_name = 'out(%s)' % n if m in ('poll', 'try_poll', 'poll_next', 'try_poll_next') else '%s(%s)' % (m, n)
        if len(self.cur_name) > MAXNAME: self.cur_name = '?'
        self.poll_label = (n, [self.vterm(st, a) for a in args[1:]])
        try:
            return super().poll_child(st, cls, desc, args, argtys, dty, lk)
        finally:
            self.cur_name = save

    def post_poll(self, st, cls, m, desc, l, x, task, o, val, lk):
        r = super().post_poll(st, cls, m, desc, l, x, task, o, val, lk)
        if r is False:
            return False
        n, a = self.poll_label
        a = [z for z in a if z != 'cx']
        mm = {'try_poll': 'poll', 'try_poll_next': 'poll_next'}.get(m, m)
        fc = self.cx_foreign(cls, task)
        self.emit(st, 'child', '%s %s(%s)%s' % (mm, n, ','.join(a), fc), o)
        return r

    def cx_foreign(self, cls, task):
        return '' if task or cls == 'sinksend' else ' other-waker'

    def user_call(self, st, what, name, args, argtys, dty, terms):
        nm = 'ret(%s)' % name
        if len(nm) > MAXNAME: nm = '?'
        save = self.cur_name
        self.cur_name = nm
        out = []
        try:
            for a, ty in zip(args, argtys):
                if ty is not None and self.is_mut_ref(ty):
                    self.user_havoc(st, self.deref(st, a))
            for s2, v, o in self.split(st, dty, None, True, True):
                self.emit(s2, 'call', '%s(%s)' % (what, ','.join(terms)), o)
                self.note(s2, '%s: user %s(%s) -> %s' % (self.where(s2), what, ','.join(terms), o))
                if o == 'Pending' and 'cx' in terms:
                    s2.mon['armed'] = 1
                out.append((s2, v))
        finally:
            self.cur_name = save
        return out

    def user_havoc(self, st, l):
        """a callback may have mutated what it was lent"""
        if l[0][0] == 'L' and l[0] not in st.mem: return
        v = self.read(st, l)
        if v[0] == 's' and not (isinstance(v[1], tuple) and v[1][0] in ('op', 'call', 'd')):
            return          # opaque value: keeps its identity
        if v[0] in ('c',):
            self.write(st, l, st.fresh(('mut', 'user')))

    def on_call(self, st, name, desc, args, argtys, dty):
        tr = desc.get('tr')
        if tr in FNS and 'k' not in desc and desc.get('m') in ('call', 'call_mut', 'call_once'):
            t = self.db.tys[desc['a'][0]]
            f = args[0]
            while t['k'] == 'ref':
                t = self.db.tys[t['of']]
            fl = self.read(st, self.deref(st, f)) if f[0] == 'r' else f
            n = self.child_name(st, None, fl)
            if n == '?' and fl[0] == 'fn': n = 'fn'
            tup = args[1]
            ttys = self.db.tys[argtys[1]]['args'] if len(argtys) > 1 and argtys[1] is not None and self.db.tys[argtys[1]]['k'] == 'tuple' else []
            al = [self.known(st, self.step_value(st, tup, (0, i))) for i in range(len(ttys))]
            terms = [self.tterm(st, a, ty) for a, ty in zip(al, ttys)]
            return self.user_call(st, 'call %s' % n, n, al, ttys, dty, terms)
        r = super().on_call(st, name, desc, args, argtys, dty)
        if r is not None and desc.get('m') == 'is_terminated' and len(r) == 2:
            n = self.child_name(st, None, self.read(st, self.deref(st, args[0])))
            for s2, v in r:
                self.emit(s2, 'child', 'is_terminated %s' % n, str(bool(v[1])))
        if r is not None or 'k' in desc:
            return r
        return self.gen_call(st, name, desc, args, argtys, dty)

    def gen_call(self, st, name, desc, args, argtys, dty):
        """trait method of a user-supplied type"""
        tr = desc.get('tr')
        if tr is None or not (desc.get('gen') or desc.get('virt')) or 'k' in desc or desc.get('ctor'):
            return None
        m = desc['m']
        short = tr.rsplit('::', 1)[-1]
        if tr in ('core::future::into_future::IntoFuture', 'core::iter::traits::collect::IntoIterator') or (tr == 'core::future::into_future::IntoFuture'):
            return None
        if tr == 'futures_util::fns::FnOnce1' or tr.startswith('futures_util::fns::'):
            f = args[0]
            fl = self.read(st, self.deref(st, f)) if f[0] == 'r' else f
            n = self.child_name(st, None, fl)
            terms = [self.tterm(st, a, ty) for a, ty in zip(args[1:], argtys[1:])]
            return self.user_call(st, 'call %s' % n, n, args[1:], argtys[1:], dty, terms)
        if tr == 'core::convert::Into' and m == 'into' and dty is not None and self.db.tys[dty]['s'].startswith('core::option::Option<usize'):
            out = [(st.clone(), n) for n in (1, 2, 3)]
            self.emit(st, 'limit', 'None')
            for s, n in out:
                self.emit(s, 'limit', 'Some(%d)' % n)
            return [(st, none())] + [(s, some(C(n))) for s, n in out]
        if self.model(name) is not None and not (m == 'collect' and not models.collects(self, dty)):
            return None
        if dty is None:
            return None
        n = self.vterm(st, args[0]) if args else ''
        terms = [self.tterm(st, a, ty) for a, ty in zip(args, argtys)]
        return self.user_call(st, '%s::%s' % (short, m), '%s %s' % (m, n), args, argtys, dty, terms)

    # ------------------------------------------------------------ events
    def on_event(self, st, kind, *data):
        super().on_event(st, kind, *data)
        if kind == 'wake':
            if self.is_task_waker_val(st, data[0]):
                self.emit(st, 'wake', 'task')
        elif kind == 'push':
            m, l, old, v = data
            x = self.obj_id(old)
            nm = st.tags.get((x, '#nm')) if x is not None else None
            if nm in ('FuturesUnordered', 'FuturesOrdered'):
                self.emit(st, 'child', '%s %s(%s)' % (m, nm, self.vterm(st, v)), '')
            elif x is not None:
                h = st.tags.get((x, '#has'), frozenset())
                st.tags[(x, '#has')] = h | {self.vterm(st, v)}
        elif kind == 'pop':
            m, l, old, el = data[:4]
            self.elem_name(st, old, el)
        elif kind == 'iter_next':
            l, old, el = data
            self.elem_name(st, old, el)
        elif kind == 'get':
            self.elem_name(st, data[2], data[3])
        elif kind == 'iter':
            self.same_name(st, self.rd(st, data[1]), data[2])
        elif kind == 'into_iter':
            v = data[0]
            self.same_name(st, self.rd(st, self.deref(st, v)) if v[0] == 'r' else v, data[1])
        elif kind == 'clone':
            pass

    def elem_name(self, st, old, el):
        if el is None: return
        x = self.obj_id(old)
        if x is None: return
        h = st.tags.get((x, '#has'))
        if h:
            self.setname(st, el, '|'.join(sorted(h)) if len(h) < 4 else '?')
            return
        n = self.idname(st, x)
        if n != '?':
            self.setname(st, el, 'elem(%s)' % n)

    def leaf_call(self, st, lk, desc, args, argtys, dty):
        r = super().leaf_call(st, lk, desc, args, argtys, dty)
        if r is not None and lk[1] == 'set' and desc['m'] in ('new', 'default'):
            for s, v in r:
                self.setname(s, v, lk[0].rsplit('::', 1)[-1])
        return r

    def on_result(self, st, name, desc, args, v):
        self.opaque_seen.add(name)
        if self.known_opaque is not None and name not in self.known_opaque and desc.get('k') is None and not NUMERIC.fullmatch(name):
            self.fresh_opaque.add(name)
            st.mon['taint'] = 1
        super().on_result(st, name, desc, args, v)

    def on_diverge(self, st, name):
        self.emit(st, 'panic')
        self.panics.append(st)

    panics = ()

# ------------------------------------------------------------------------------------------------ subjects
def has_int(db, t):
    return db.tys[t]['k'] == 'int'

class Subject:
    def __init__(self, name, adt, k, pth):
        self.name, self.adt, self.k, self.pth = name, adt, k, pth

def subjects(db, idx):
    """public constructors of the objects of the repository"""
    out = []
    for adt in sorted(idx.ops):
        if not adt.startswith('futures'):
            continue
        for k, pth in idx.ctors.get(adt, []):
            f = db.fns[k]
            if not f.get('pub') or f.get('unsafe'): continue
            bad = False
            for i in range(1, f['argc'] + 1):
                if mentions(db, f['locals'][i], adt): bad = True
            if f['m'] in ('default', 'into_inner', 'from_iter', 'clone'): bad = True
            if bad: continue
            nm = f['p']
            if pth: nm += '.%d' % pth[0][1]
            out.append(Subject(nm, adt, k, pth))
    return out

def mentions(db, t, adt, d=0):
    t = db.tys[t]
    if t['k'] == 'adt':
        if t['def'] == adt: return True
        return any(mentions(db, a, adt, d + 1) for a in t.get('args', [])) if d < 3 else False
    if t['k'] in ('ref', 'ptr'): return mentions(db, t['of'], adt, d + 1)
    return False

def construct1(db, subj, ecls, ints, graph):
    """states of freshly constructed objects; integer operands take the given values"""
    f = db.fns[subj.k]
    ipos = [i for i in range(1, f['argc'] + 1) if db.tys[f['locals'][i]]['k'] == 'int'] if ints else []
    out = []
    stats = set()
    for combo in itertools.product(ints or (None,), repeat=len(ipos)) if ipos else [()]:
        e = ecls(db, subj.adt)
        e.panics = []
        e.op = 'new'
        res = []
        e.on_return = lambda st, v: res.append((st, v))
        e.constructing = True
        st = e.start(subj.k)
        for i, n in zip(ipos, combo):
            st.mem[('L', 0, i)] = C(n)
        lab = ('new', ','.join(str(c) for c in combo))
        e.graph = graph
        e.run_id = ('new', combo)
        st.path = (graph.node('start'), (lab,))
        st.mon = {'armed': 0}
        try:
            e.run(st)
        except Budget:
            stats.add('incomplete')
        for p in e.panics:
            graph.add(p.path[0], p.path[1], graph.node('end'))
        for st, v in res:
            st = st.clone()
            for el in subj.pth:
                v = e.step_value(st, v, el)
            st.mem[('D', 'self')] = v
            path = st.path
            st.mon = {}
            st.trace = (None, 'constructed by %s(%s)' % (f['p'], lab[1]))
            st = shrink(e, st)
            st.path = path
            out.append(st)
    return out, stats

def modes_b(idx, adt):
    allops = idx.ops.get(adt, {})
    modes = []
    for nm, grp in (('future', (FUT,)), ('stream', (STREAM,)), ('sink', (SINK,)), ('read', (IO + 'AsyncRead', IO + 'AsyncBufRead')),
                    ('write', (IO + 'AsyncWrite',)), ('seek', (IO + 'AsyncSeek',))):
        o = {k: v for k, v in allops.items() if k[0] in grp}
        if o: modes.append((nm, o))
    for k in idx.inherent.get(adt, []):
        m = idx.db.fns[k]['m']
        if m in ('poll_ready',): continue
        modes.append(('inherent:' + m, {('inherent', m): [k]}))
    return modes

# types whose stream or future may be polled again after it has finished
REPOLL = {'futures_util::stream::stream::fuse::Fuse', 'futures_util::future::future::fuse::Fuse', 'futures_util::stream::select_all::SelectAll',
          'futures_util::stream::futures_unordered::FuturesUnordered', 'futures_util::stream::futures_ordered::FuturesOrdered',
          'futures_util::stream::select::Select', 'futures_util::stream::select_with_strategy::SelectWithStrategy'}

class Result:
    pass

def explore_lts(db, idx, subj, mode, ops, ecls=Behav, ints=(0, 1, 2, 3), limit=800, steps=2000000):
    g = Graph()
    R = Result()
    R.graph = g
    R.violations = []
    R.stats = stats = dict(states=0, runs=0, steps=0, pend=0, ctors=0, incomplete=0, polls=0, finals=0, term=0)
    R.opaque = set(); R.fresh_opaque = set(); R.entered = set()
    init, bad = construct1(db, subj, ecls, ints, g)
    if bad: stats['incomplete'] = 1
    stats['ctors'] = len(init)
    seen = set()
    work = []
    def objnode(s, fl):
        e0 = ecls(db, subj.adt)
        p = s.path; s.path = None
        key = ('obj', e0.key(s), fl)
        n = g.node(key)
        if p is not None:
            g.add(p[0], p[1], n)
        if key not in seen:
            seen.add(key)
            work.append((s, fl, n))
        return n
    for s in init:
        objnode(s, frozenset())
    rid = 0
    ft = FUSEDF if mode == 'future' else FUSEDS if mode == 'stream' else None
    fk = idx.fused.get(subj.adt, {}).get(ft) if ft else None
    repoll = subj.adt in REPOLL
    while work:
        s, fl, node = work.pop()
        stats['states'] += 1
        if stats['states'] > limit or stats['steps'] > steps:
            stats['incomplete'] = 1
            break
        todo = []
        for (tr, m), ks in sorted(ops.items()):
            if not enabled(tr, m, fl - {'none', 'done'} if repoll else fl): continue
            for k in ks: todo.append((tr, m, k))
        if fk is not None and 'err' not in fl:
            todo.append((ft, 'is_terminated', fk))
        for tr, m, k in todo:
            op = '%s::%s' % (tr.rsplit('::', 1)[-1], m)
            rid += 1
            e = ecls(db, subj.adt)
            e.panics = []
            e.op = op
            e.graph = g
            e.run_id = rid
            st = e.start(k, base=s)
            st.mon = {'armed': 0}
            e.note(st, '-- %s' % op)
            st.path = (node, (('op', m),))
            f = db.fns[k]
            for i in range(2, f['argc'] + 1):
                v = st.mem.get(('L', 0, i))
                if v is not None and v[0] == 's' and isinstance(v[1], int):
                    st.tags[(v[1], '#nm')] = 'operand%d' % (i - 1)
                    if m == 'start_send':
                        st.tags[(v[1], '#item')] = 1
            try:
                e.run(st)
            except Budget:
                stats['incomplete'] = 1
            stats['runs'] += 1
            stats['steps'] += e.steps
            stats['polls'] += e.nchild
            R.opaque |= e.opaque_seen
            R.fresh_opaque |= e.fresh_opaque
            R.entered |= e.entered
            for p in e.panics:
                g.add(p.path[0], p.path[1], g.node('end'))
            rty = f['locals'][0]
            for fs, v in e.finals:
                o = outcome(e, fs, v, rty)
                term = e.tterm(fs, v, rty)
                fs.trace = (fs.trace, '   returns %s' % o)
                stats['finals'] += 1
                path = (fs.path[0], fs.path[1] + (('ret', m, term),))
                if m == 'is_terminated':
                    stats['term'] += 1
                    g.add(path[0], path[1], node)
                    if ('none' in fl or 'done' in fl) and o != 'True':
                        e.viol(fs, 'not-terminated', 'finished but is_terminated() is %s' % o)
                    continue
                if o in ('Pending', 'Poll?'): stats['pend'] += 1
                at_return(e, idx, subj.adt, tr, m, fs, v, o, stats)
                nf = next_flags(tr, m, fl, o)
                if tr == FUT and o.startswith('Ready'):
                    nf = frozenset(fl | {'done'})
                sh = shrink(e, fs)
                if 'taint' in fs.mon:
                    g.add(path[0], path[1][:-1] + (('*',),), g.node('end'))
                    continue
                sh.path = path
                sh.mon = {}
                objnode(sh, nf)
            R.violations += e.violations
    return R

# ------------------------------------------------------------------------------------------------ automata
def determinise(g, limit=20000):
    """ε-closed subset construction; returns dict state -> {label: state}; state 0 initial"""
    succ = {}
    eps = {}
    extra = itertools.count(len(g.ids))
    for s, es in g.edges.items():
        for labels, d in es:
            if not labels:
                eps.setdefault(s, set()).add(d)
                continue
            c = s
            for i, l in enumerate(labels):
                n = d if i == len(labels) - 1 else ('m', s, labels[:i + 1])
                succ.setdefault(c, {}).setdefault(l, set()).add(n)
                c = n
    def close(S):
        S = set(S); st = list(S)
        while st:
            x = st.pop()
            for y in eps.get(x, ()):
                if y not in S:
                    S.add(y); st.append(y)
        return frozenset(S)
    init = close([g.node('start')])
    try:
        return subsets(init, succ, close, min(limit, 2500))
    except Budget:
        pass
    # large: merge bisimilar states first
    outs = {}
    work = [g.node('start')]
    root = work[0]
    while work:
        x = work.pop()
        if x in outs: continue
        o = set()
        for y in close([x]):
            for l, ds in succ.get(y, {}).items():
                for d in ds: o.add((l, d))
        outs[x] = o
        work.extend(d for _, d in o if d not in outs)
    cls = dict.fromkeys(outs, 0)
    n = 1
    while True:
        sigs = {}
        new = {x: sigs.setdefault(frozenset((l, cls[d]) for l, d in o), len(sigs)) for x, o in outs.items()}
        cls = new
        if len(sigs) == n: break
        n = len(sigs)
    qs = {}
    for x, o in outs.items():
        if cls[x] in qs: continue
        q = qs[cls[x]] = {}
        for l, d in o: q.setdefault(l, set()).add(cls[d])
    return subsets(frozenset([cls[root]]), qs, frozenset, limit)

def subsets(init, succ, close, limit):
    ids = {init: 0}
    work = [init]
    trans = {}
    while work:
        S = work.pop()
        by = {}
        for x in S:
            for l, ds in succ.get(x, {}).items():
                by.setdefault(l, set()).update(ds)
        t = {}
        for l, ds in by.items():
            D = close(ds)
            if D not in ids:
                ids[D] = len(ids)
                work.append(D)
                if len(ids) > limit: raise Budget('determinisation')
            t[l] = ids[D]
        trans[ids[S]] = t
    return trans

def minimise(trans):
    """partition refinement (all states accepting: prefix-closed languages)"""
    part = {s: 0 for s in trans}
    n = 1
    while True:
        sig = {}
        new = {}
        for s, t in trans.items():
            k = (part[s], frozenset((l, part[d]) for l, d in t.items()))
            new[s] = sig.setdefault(k, len(sig))
        if len(sig) == n:
            break
        n = len(sig)
        part = new
    # canonical numbering, breadth first
    rep = {}
    for s in trans:
        rep.setdefault(part[s], s)
    order = {part[0]: 0}
    q = [part[0]]
    out = {}
    for p in q:
        t = trans[rep[p]]
        row = {}
        for l in sorted(t):
            d = part[t[l]]
            if d not in order:
                order[d] = len(order)
                q.append(d)
            row[l] = order[d]
        out[order[p]] = row
    return out
