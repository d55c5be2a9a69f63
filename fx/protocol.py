"""Protocol monitors over the operation histories of every future, stream, sink and I/O object of the repository.

Each object is constructed through its constructors and driven through every sequence of operations a legal caller can
issue; its children (generic parameters, leaf types) answer with every outcome their own contract allows.  The monitors
are typestate automata attached to the children (ready / done / flushed / closed), to the values they hand over (items,
errors) and to the task's waker."""
from histories import *

FUSEDF = 'futures_core::future::FusedFuture'
FUSEDS = 'futures_core::stream::FusedStream'

# Types whose waker table is emptied for good only after the final state has been published (rule checked separately),
# so that finding it gone excludes the outcomes that return Pending.
WAKERS_GONE = {'futures_util::future::future::shared::Shared'}

class Protocol(ObjEngine):
    def __init__(self, db, root_self=None):
        super().__init__(db, root_self)
        self.op = None
        self.finals = []
        self.constructing = False
        self.nchild = 0
        self.drops_seen = 0

    def viol(self, st, rule, detail):
        tr = []
        x = st.trace
        while x:
            tr.append(x[1]); x = x[0]
        self.violations.append(dict(rule=rule, op=self.op, detail=detail, where=self.where(st), trace=list(reversed(tr))))

    # ---------------------------------------------------------------- children
    def pre_poll(self, st, cls, m, desc, l, v, x, task, args):
        self.nchild += 1
        if x is not None and cls in ('future', 'stream'):
            if st.tags.get((x, '#done')):
                self.viol(st, 'poll-after-done', '%s %s polled again after completion' % (cls, self.loc_desc(st, l)))
        if x is not None and l is not None and desc.get('a'):
            t = self.db.tys[desc['a'][0]] if isinstance(desc['a'][0], int) else {}
            if t.get('k') in ('param', 'alias') and not t.get('up'):
                at = (l[0][0], l[1])
                was = st.tags.get((x, '#at'))
                if was is None:
                    st.tags[(x, '#at')] = at
                    self.npin = getattr(self, 'npin', 0) + 1
                elif was != at:
                    self.viol(st, 'moved-while-pinned', '%s %s is polled after being moved since an earlier poll' % (cls, self.loc_desc(st, l)))
        if cls == 'io' and m in ('poll_write', 'poll_write_vectored') and st.mon.get('w0'):
            self.viol(st, 'no-progress', '%s: written to again in the same operation after it accepted no bytes' % self.loc_desc(st, l))
        if x is not None and cls == 'sinksend':
            if not st.tags.get((x, '#rdy')):
                self.viol(st, 'send-without-ready', '%s: start_send without poll_ready' % self.loc_desc(st, l))
            if st.tags.get((x, '#closed')):
                self.viol(st, 'send-after-close', '%s: start_send after poll_close completed' % self.loc_desc(st, l))
            st.tags.pop((x, '#rdy'), None)
            st.tags.pop((x, '#fl'), None)
        return st

    def payload(self, val, path):
        for e in path:
            nxt = None
            if val[0] != 'a':
                return None
            for e2, w in val[3]:
                if e2 == e:
                    nxt = w
            if nxt is None:
                return None
            val = nxt
        return val

    def post_poll(self, st, cls, m, desc, l, x, task, o, val, lk):
        if x is not None and st.tags.get((x, '#term')) and cls in ('future', 'stream') and o not in ('Pending', 'Ready(None)') and (lk is None or lk[1] != 'set'):
            return False
        super().post_poll(st, cls, m, desc, l, x, task, o, val, lk)
        if cls == 'io' and m in ('poll_write', 'poll_write_vectored'):
            if o == 'Ready(Ok(0))': st.mon['w0'] = 1
            else: st.mon.pop('w0', None)
        if o == 'Pending':
            if task:
                st.mon['armed'] = 1
                if x is not None:
                    st.tags[(x, '#pend')] = 1
        elif x is not None:
            st.tags.pop((x, '#pend'), None)
            if cls == 'future' or (cls == 'stream' and o == 'Ready(None)'):
                if lk is None or lk[1] != 'set':
                    st.tags[(x, '#done')] = 1
            if m == 'poll_ready' and o.startswith('Ready(Ok'):
                st.tags[(x, '#rdy')] = 1
            if cls == 'sink' and o.startswith('Ready(Ok'):
                if m == 'poll_flush':
                    st.tags[(x, '#fl')] = 1
                if m == 'poll_close':
                    st.tags[(x, '#fl')] = 1
                    st.tags[(x, '#closed')] = 1
        if m == 'poll_ready' and not o.startswith('Ready(Ok') and x is not None:
            st.tags.pop((x, '#rdy'), None)
        if x is not None and cls in ('sink', 'sinksend'):
            st.tags[(x, '#sink')] = 1
            if o == 'Ready(Err)' or o == 'Err':
                st.tags[(x, '#err')] = 1
        # values handed over
        if o.startswith('Ready'):
            v = self.payload(val, ((0, 0),))
            if v is not None and o.startswith('Ready(Some'):
                v = self.payload(v, ((1, 0),))
            if v is not None and cls in ('stream', 'future', 'sink', 'leafpoll', 'io'):
                if o.endswith('Err)') or o.endswith('Err))'):
                    v = self.payload(v, ((1, 0),))
                    if v is not None and v[0] == 's':
                        st.tags[(v[1], '#e')] = 1
                elif cls in ('stream', 'future'):
                    if 'Ok' in o:
                        v = self.payload(v, ((0, 0),))
                    if v is not None and v[0] == 's':
                        st.tags[(v[1], '#item')] = 1
        if cls == 'sinksend' and val[0] == 'a' and val[2] == 1:
            v = self.payload(val, ((1, 0),))
            if v is not None and v[0] == 's':
                st.tags[(v[1], '#e')] = 1
        return None

    def on_call(self, st, name, desc, args, argtys, dty):
        if desc.get('m') == 'is_terminated' and 'k' not in desc and args:
            l = self.deref(st, args[0])
            v = self.read(st, l)
            x = self.obj_id(v)
            if x is not None and st.tags.get((x, '#done')):
                return [(st, C(1))]
            if x is not None and st.tags.get((x, '#term')):
                return [(st, C(1))]
            s2 = st.clone()
            if x is not None:
                s2.tags[(x, '#term')] = 1
            return [(st, C(0)), (s2, C(1))]
        return super().on_call(st, name, desc, args, argtys, dty)

    # ---------------------------------------------------------------- values
    def on_drop(self, st, tid, val, loc):
        self.drops_seen += 1
        for x in tagged(self, st, val, '#item'):
            self.on_lost(st, 'item', x, tid)
        for x in tagged(self, st, val, '#e'):
            self.on_lost(st, 'error', x, tid)

    def on_lost(self, st, kind, x, tid):
        self.note(st, '%s: drops %s of type %s' % (self.where(st), kind, self.db.tys[tid]['s']))
        st.mon['lost_' + kind] = 1

    def on_event(self, st, kind, *data):
        super().on_event(st, kind, *data)
        if kind == 'register' and data[1]:
            st.mon['armed'] = 1
        elif kind == 'wake':
            if self.is_task_waker_val(st, data[0]):
                self.note(st, '%s: wake(task)' % self.where(st))
                st.mon['armed'] = 1
        elif kind == 'forget':
            for t in ('#item', '#e'):
                for x in tagged(self, st, data[0], t):
                    self.on_lost(st, 'item' if t == '#item' else 'error', x, data[1])

    def on_refine(self, st, sid, variant):
        if variant == 0 and st.org.get(sid) == ('guarded',):
            st.mon['gnone'] = 1

    def on_return(self, st, val):
        self.finals.append((st, val))

def tagged(e, st, v, tag, d=0):
    """symbols of the value that carry the tag"""
    k = v[0]
    if k == 's':
        if st.tags.get((v[1], tag)):
            return [v[1]]
        return []
    if k == 'a':
        out = []
        for _, w in v[3]:
            out += tagged(e, st, w, tag, d + 1)
        if v[4] is not None and st.tags.get((v[4], tag)):
            out.append(v[4])
        return out
    return []

def var(st, v):
    if v[0] == 'a': return v[2]
    if v[0] == 's':
        f = st.facts.get(v[1])
        if f and f[0] == 'v': return f[1]
    if v[0]=='c': return v[1]
    return None

def outcome(e, st, val, ty):
    """textual outcome of a returned value, by type"""
    t = e.db.tys[ty]
    if t['k'] == 'adt':
        d = t['def']
        if d == 'core::task::poll::Poll':
            k = var(st, val)
            if k is None: return 'Poll?'
            if k == 1: return 'Pending'
            return 'Ready(%s)' % outcome(e, st, e.known(st, e.step_value(st, val, (0, 0))), t['args'][0])
        if d == 'core::option::Option':
            k = var(st, val)
            if k is None: return 'Option?'
            if k == 0: return 'None'
            return 'Some(%s)' % outcome(e, st, e.known(st, e.step_value(st, val, (1, 0))), t['args'][0])
        if d == 'core::result::Result':
            k = var(st, val)
            if k is None: return 'Result?'
            if k == 1: return 'Err'
            return 'Ok(%s)' % outcome(e, st, e.known(st, e.step_value(st, val, (0, 0))), t['args'][0])
    if t['k'] == 'bool':
        v = e.known(st, val)
        return str(bool(v[1])) if v[0] == 'c' else 'bool?'
    return ''

# ------------------------------------------------------------------------------------------------ exploration
IOT = tuple(IO + x for x in ('AsyncRead', 'AsyncBufRead', 'AsyncWrite', 'AsyncSeek'))

def modes_of(idx, adt):
    allops = idx.ops.get(adt, {})
    modes = []
    for grp in ((FUT,), (STREAM, SINK), IOT):
        o = {k: v for k, v in allops.items() if k[0] in grp}
        if o:
            modes.append(o)
    for k in idx.inherent.get(adt, []):
        if idx.db.fns[k]['m'] in ('poll_ready',):
            continue
        o = {('inherent', idx.db.fns[k]['m']): [k]}
        if modes and (STREAM, 'poll_next') in modes[0]:
            modes[0].update(o)
        else:
            modes.append(o)
    return modes

def explore(db, idx, adt, ecls=Protocol, limit=1500):
    """all reachable object states; returns (violations, stats)"""
    viol = []
    stats = dict(states=0, runs=0, steps=0, pend=0, ctors=0, incomplete=0, polls=0, finals=0, term=0)
    init = construct(db, adt, idx, ecls)
    stats['ctors'] = len(init)
    for ops in modes_of(idx, adt):
        explore_mode(db, idx, adt, ecls, limit, init, ops, viol, stats)
    return viol, stats

def run_op(db, adt, ecls, k, s, op, stats):
    e = ecls(db, adt)
    e.op = op
    st = e.start(k, base=s)
    st.mon = {'armed': 0}
    e.note(st, '-- %s' % op)
    if op.endswith('start_send'):
        f = db.fns[k]
        v = st.mem.get(('L', 0, 2))
        if v is not None and v[0] == 's':
            st.tags[(v[1], '#item')] = 1
    try:
        e.run(st)
    except Budget:
        stats['incomplete'] = 1
    stats['runs'] += 1
    stats['steps'] += e.steps
    stats['polls'] += e.nchild
    return e

def explore_mode(db, idx, adt, ecls, limit, init, ops, viol, stats):
    n0 = stats['states']
    work = [(s, frozenset()) for s in init]
    seen = set()
    while work:
        s, fl = work.pop()
        e0 = ecls(db, adt)
        key = (e0.key(s), fl)
        if key in seen: continue
        seen.add(key)
        stats['states'] += 1
        if stats['states'] - n0 > limit:
            stats['incomplete'] = 1
            break
        for (tr, m), ks in ops.items():
            if not enabled(tr, m, fl): continue
            for k in ks:
                op = '%s::%s' % (tr.rsplit('::', 1)[-1], m)
                e = run_op(db, adt, ecls, k, s, op, stats)
                rty = db.fns[k]['locals'][0]
                for fs, v in e.finals:
                    o = outcome(e, fs, v, rty)
                    fs.trace = (fs.trace, '   returns %s' % o)
                    stats['finals'] += 1
                    if o == 'Pending' or o == 'Poll?':
                        stats['pend'] += 1
                    at_return(e, idx, adt, tr, m, fs, v, o, stats)
                    nf = next_flags(tr, m, fl, o)
                    sh = shrink(e, fs)
                    check_terminated(db, idx, adt, ecls, tr, m, o, nf, sh, viol, stats)
                    if nf is None or (tr == FUT and o.startswith('Ready')): continue
                    work.append((sh, nf))
                viol += e.violations

def at_return(e, idx, adt, tr, m, fs, v, o, stats):
    if o == 'Pending' or o == 'Poll?':
        if fs.mon.get('gnone') and adt in WAKERS_GONE:
            stats['pruned'] = stats.get('pruned', 0) + 1
        elif not fs.mon['armed'] and not stored_waker(e, fs):
            e.viol(fs, 'pending-unarmed', '%s returns Pending without arranging a wakeup' % e.op)
    if fs.mon.get('lost_item') and not is_err(o):
        e.viol(fs, 'item-dropped', '%s returns %s after dropping an item' % (e.op, o))
    if fs.mon.get('lost_error') and not is_err(o):
        e.viol(fs, 'error-dropped', '%s returns %s after dropping an error' % (e.op, o))
    selfv = fs.mem.get(('D', 'self'))
    if selfv is not None:
        held = tagged(e, fs, selfv, '#item')
        if held and (o == 'Ready(None)' or (m in ('poll_flush', 'poll_close') and o.startswith('Ready(Ok')) or (tr == FUT and o.startswith('Ready') and not o.endswith('Err)'))):
            e.viol(fs, 'item-stranded', '%s returns %s while an item is still held' % (e.op, o))
        if tr == SINK and m in ('poll_flush', 'poll_close') and o.startswith('Ready(Ok'):
            tag = '#fl' if m == 'poll_flush' else '#closed'
            for loc, x in child_sinks(e, fs, adt):
                if not fs.tags.get((x, tag)):
                    e.viol(fs, 'flush-incomplete', '%s reports success although %s was not %s' % (e.op, loc, 'flushed' if tag == '#fl' else 'closed'))

def is_err(o):
    return 'Err' in o

def child_sinks(e, fs, adt):
    """inner sinks the object has used so far"""
    out = []
    seen = set()
    selfv = fs.mem.get(('D', 'self'))
    if selfv is None:
        return out
    for x in tagged(e, fs, selfv, '#sink'):
        if x not in seen:
            seen.add(x)
            out.append(('an inner sink', x))
    return out

def check_terminated(db, idx, adt, ecls, tr, m, o, nf, sh, viol, stats):
    ft = FUSEDF if tr == FUT else FUSEDS if tr == STREAM else None
    k = idx.fused.get(adt, {}).get(ft) if ft else None
    if k is None:
        return
    final = (tr == FUT and o.startswith('Ready')) or (m == 'poll_next' and o == 'Ready(None)')
    e = ecls(db, adt)
    e.op = 'is_terminated'
    st = e.start(k, base=sh)
    st.mon = {'armed': 0}
    e.note(st, '-- is_terminated')
    try:
        e.run(st)
    except Budget:
        stats['incomplete'] = 1
    stats['term'] += 1
    for fs, v in e.finals:
        b = outcome(e, fs, v, db.fns[k]['locals'][0])
        fs.trace = (fs.trace, '   returns %s' % b)
        if final and b != 'True':
            e.op = '%s::%s' % (tr.rsplit('::', 1)[-1], m)
            e.viol(fs, 'not-terminated', '%s returned %s but is_terminated() is %s afterwards' % (e.op, o, b))
    viol += e.violations

def enabled(tr, m, fl):
    if 'done' in fl or 'err' in fl: return False
    if m in ('poll_next',): return 'none' not in fl
    if m == 'start_send': return 'rdy' in fl and 'closing' not in fl
    if m in ('poll_ready', 'poll_write', 'poll_write_vectored'): return 'closing' not in fl and 'closed' not in fl
    if m in ('poll_flush',): return 'closed' not in fl and 'closing' not in fl
    if m == 'poll_close': return 'closed' not in fl
    return True

def next_flags(tr, m, fl, o):
    fl = set(fl)
    if tr == FUT and o.startswith('Ready'):
        return None
    if m == 'poll_next' and o == 'Ready(None)':
        fl.add('none')
    if tr == SINK:
        if o.endswith('Err)') or o == 'Err': fl.add('err')
        if m == 'poll_ready':
            if o.startswith('Ready(Ok'): fl.add('rdy')
            else: fl.discard('rdy')
        if m in ('start_send', 'poll_flush', 'poll_close'): fl.discard('rdy')
    if m == 'poll_close':
        fl.add('closing')
        if o.startswith('Ready(Ok'): fl.add('closed')
    return frozenset(fl)

def stored_waker(e, st):
    """the task's waker (a clone) is held by an object that outlives the call"""
    for r, v in st.mem.items():
        if r == ('D', 'cx'): continue
        if e.holds_tw(st, v): return True
    return False
