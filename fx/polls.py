"""Poll-protocol layer: children (generic futures, streams, sinks, I/O objects) carry typestate tags; objects are
explored over all operation histories a legal caller can produce."""
import models
from engine import Engine, State, new_state, U, UNIT, C, Budget, atoms, Ren
from models import none, some, ok, err, ready, PENDING, struct

FUT = 'core::future::future::Future'
STREAM = 'futures_core::stream::Stream'
SINK = 'futures_sink::Sink'
POLLS = {
    (FUT, 'poll'): 'future', ('futures_core::future::TryFuture', 'try_poll'): 'future',
    (STREAM, 'poll_next'): 'stream', ('futures_core::stream::TryStream', 'try_poll_next'): 'stream',
    (SINK, 'poll_ready'): 'sink', (SINK, 'poll_flush'): 'sink', (SINK, 'poll_close'): 'sink', (SINK, 'start_send'): 'sinksend',
}
for _t, _ms in {'AsyncRead': ['poll_read', 'poll_read_vectored'], 'AsyncWrite': ['poll_write', 'poll_write_vectored', 'poll_flush', 'poll_close'],
                'AsyncBufRead': ['poll_fill_buf'], 'AsyncSeek': ['poll_seek']}.items():
    for _m in _ms:
        POLLS[('futures_io::if_std::' + _t, _m)] = 'io'

# Types whose operations are leaves for every other component (their own protocol is checked on its own).
LEAF = {
    'futures_util::stream::futures_unordered::FuturesUnordered': 'set',
    'futures_util::stream::futures_ordered::FuturesOrdered': 'set',
    'futures_core::task::__internal::atomic_waker::AtomicWaker': 'atomicwaker',
    'futures_channel::oneshot::Receiver': 'recv', 'futures_channel::oneshot::Sender': 'send',
    'futures_channel::mpsc::Receiver': 'stream', 'futures_channel::mpsc::UnboundedReceiver': 'stream',
    'futures_channel::mpsc::Sender': 'sink', 'futures_channel::mpsc::UnboundedSender': 'sink',
    'futures_util::lock::bilock::BiLock': 'lock', 'futures_util::lock::mutex::Mutex': 'lock',
    'futures_channel::mpsc::queue::Queue': 'queue',
}

def modpath(p):
    return p.rsplit('::', 1)[0]

class PollEngine(Engine):
    def __init__(self, db, root_self=None):
        super().__init__(db)
        self.root_self = root_self
        self.violations = []
        self.leaf = dict(LEAF)
        if root_self:
            m = modpath(root_self)
            for t in list(self.leaf):
                if modpath(t) == m or t == root_self:
                    del self.leaf[t]
        self.split_result = True
        self.fork_limit = None
        self.polls = 0

    def model(self, name):
        return models.lookup(name)

    # ---------------------------------------------------------------- identity helpers
    TW = (('cx', '*'), (0, 'w'))

    def obj_id(self, v):
        if v[0] == 's':
            return v[1]
        if v[0] == 'a' and v[4] is not None:
            return v[4]
        return None

    def is_task_waker_ptr(self, st, p):
        l = self.deref(st, p)
        return self.is_task_waker_loc(st, l)

    def is_task_waker_loc(self, st, l):
        if l[0] == ('D', self.TW):
            return True
        v = self.read(st, l)
        return self.is_task_waker_val(st, v)

    def is_task_waker_val(self, st, v):
        if v[0] == 's':
            if v[1] == (self.TW, '*'):
                return True
            return st.tags.get((v[1], '#tw')) is not None
        return False

    def is_task_cx(self, st, p):
        l = self.deref(st, p)
        if l[0] == ('D', 'cx'):
            return True
        w = self.rd(st, (l[0], l[1] + ((0, 'w'),)))
        return self.is_task_waker_ptr(st, w)

    # ---------------------------------------------------------------- calls
    def adt_def(self, tid):
        t = self.db.tys[tid]
        while t['k'] in ('ref', 'ptr'):
            t = self.db.tys[t['of']]
        if t['k'] == 'adt':
            if t['def'] == 'core::pin::Pin':
                return self.adt_def(t['args'][0])
            return t['def']
        return None

    def leaf_kind(self, desc):
        """kind if the callee is a method of a leaf type"""
        a = desc.get('a')
        rs = desc.get('rself')
        p = desc.get('rp') or desc['p']
        # inherent or trait method: the path carries the type
        for t, k in self.leaf.items():
            if p.startswith(t + '::') or p.startswith('<' + t + '<') or p.startswith('<' + t + ' as') or p.startswith('<&' + t) \
               or p.startswith('<&mut ' + t):
                # filling a set from an iterator is pushing what it yields, one by one
                if k == 'set' and desc.get('m') in ('extend', 'from_iter') and 'k' in desc: return None
                return t, k
        return None

    def cx_arg(self, args, argtys):
        for i, ty in enumerate(argtys):
            if ty is None:
                continue
            t = self.db.tys[ty]
            if t['k'] == 'ref' and self.db.tys[t['of']]['s'].startswith('core::task::wake::Context'):
                return args[i]
        return None

    def on_call(self, st, name, desc, args, argtys, dty):
        tr = desc.get('tr')
        lk = self.leaf_kind(desc)
        opaque = ('k' not in desc and not desc.get('ctor')) or lk is not None
        if tr is not None and opaque:
            cls = POLLS.get((tr, desc['m']))
            if cls is not None:
                return self.poll_child(st, cls, desc, args, argtys, dty, lk)
        if name == 'futures_channel::lock::Lock::<T>::try_lock':
            return self.chan_try_lock(st, args, dty)
        if tr is not None and opaque and lk is None and dty is not None and (desc.get('gen') or desc.get('virt')) \
                and self.db.tys[dty]['s'].startswith('core::task::poll::Poll') and any(self.has_cx(st, a) for a in args):
            out = []
            for s2, val, o in self.split(st, dty, None, True, True):
                self.note(s2, '%s: user %s(cx) -> %s' % (self.where(s2), desc['m'], o))
                if o == 'Pending':
                    s2.mon['armed'] = 1
                out.append((s2, val))
            return out
        if lk is not None:
            return self.leaf_call(st, lk, desc, args, argtys, dty)
        return None

    def chan_try_lock(self, st, args, dty):
        """the channel's try-lock: None, or a guard over contents another thread may have changed"""
        l = self.deref(st, args[0])
        s2 = st.clone()
        self.on_event(st, 'trylock', l, 1)
        self.on_event(s2, 'trylock', l, 0)
        i = self.field_index('futures_channel::lock::Lock', 'data')
        self.shared_havoc(st, (l[0], l[1] + ((0, i), (0, 0))))
        return [(st, some(struct(('r', l[0], l[1])))), (s2, none())]

    def field_index(self, adt, field):
        if adt in self.db.adts:
            for n, (f, _) in enumerate(self.db.tys[self.db.adts[adt]]['v'][0][2]):
                if f == field:
                    return n
        return 0

    def leaf_call(self, st, lk, desc, args, argtys, dty):
        t, kind = lk
        m = desc['m']
        if kind == 'atomicwaker' and m == 'register':
            tw = self.is_task_waker_ptr(st, args[1])
            self.note(st, '%s: AtomicWaker::register(%s)' % (self.where(st), 'task waker' if tw else 'other waker'))
            self.on_event(st, 'register', self.deref(st, args[0]), tw)
            return [(st, UNIT)]
        cx = self.cx_arg(args, argtys)
        if cx is not None and dty is not None and self.db.tys[dty]['s'].startswith('core::task::poll::Poll'):
            return self.poll_child(st, 'leafpoll', desc, args, argtys, dty, lk)
        if kind == 'set':
            l = self.deref(st, args[0]) if args else None
            if m in ('len', 'is_empty'):
                v = self.rd(st, l)
                return [(st, self.known(st, ('s', ('call', m, v))))]
            if m in ('push', 'push_back', 'push_front'):
                old = self.rd(st, l)
                self.note(st, '%s: %s::%s' % (self.where(st), t.rsplit('::', 1)[-1], m))
                self.on_event(st, 'push', m, l, old, args[1])
                v = self.grown(st, old, m)
                self.on_write(st, l, v)
                self.write(st, l, v)
                return [(st, UNIT)]
            if m in ('new', 'default'):
                v = st.fresh(('newcont',))
                st.facts[('call', 'is_empty', v)] = ('=', 1)
                st.facts[('call', 'len', v)] = ('=', 0)
                return [(st, v)]
        if m == 'is_terminated' and args:
            v = self.rd(st, self.deref(st, args[0]))
            return [(st, self.known(st, ('s', ('call', 'is_terminated', v))))]
        return None

    def expand(self, st, desc, name):
        return self.leaf_kind(desc) is None

    def split(self, st, ty, dt, opt, res):
        """list of (state, value, outcome) for an unknown value of type ty"""
        t = self.db.tys[ty] if ty is not None else None
        if t and t['k'] == 'adt':
            d = t['def']
            if d == 'core::task::poll::Poll':
                s2 = st.clone()
                out = [(s2, PENDING, 'Pending')]
                inner = t['args'][0]
                for s3, v, o in self.split(st, inner, dt, opt, res):
                    out.append((s3, ready(v), 'Ready' + ('(%s)' % o if o else '')))
                return out
            if d == 'core::option::Option' and opt:
                s2 = st.clone()
                out = [(s2, none(), 'None')]
                for s3, v, o in self.split(st, t['args'][0], dt, False, res):
                    out.append((s3, some(v), 'Some' + ('(%s)' % o if o else '')))
                return out
            if d == 'core::result::Result' and res:
                s2 = st.clone()
                e2 = s2.fresh(('err',))
                out = [(s2, err(e2), 'Err')]
                for s3, v, o in self.split(st, t['args'][0], dt, opt, False):
                    out.append((s3, ok(v), 'Ok' + ('(%s)' % o if o else '')))
                return out
        if t and t['k'] == 'tuple' and not t['args']:
            return [(st, UNIT, '')]
        return [(st, st.fresh(('out',)), '')]

    def child_desc(self, st, l):
        return self.loc_desc(st, l)

    def loc_desc(self, st, l):
        """human-readable description of a location"""
        r = l[0]
        if r[0] == 'D':
            s = self.id_desc(r[1])
        elif r[0] == 'L':
            s = 'local'
        else:
            s = 'heap'
        for e in l[1]:
            s += '.' + (str(e[1]) if e[0] == 0 else '%s_%s' % (e[0], e[1]))
        return s

    def id_desc(self, i):
        if isinstance(i, str):
            return i
        if isinstance(i, int):
            return '#'
        if i[0] == 'd':
            return 'discr(%s)' % self.id_desc(i[1])
        if i[0] in ('op', 'call'):
            return '%s(..)' % i[1]
        e = i[1]
        if e == '*':
            return '*' + self.id_desc(i[0])
        return self.id_desc(i[0]) + '.' + (str(e[1]) if e[0] == 0 else '%s_%s' % (e[0], e[1]))

    def poll_child(self, st, cls, desc, args, argtys, dty, lk):
        self.polls += 1
        l = self.deref(st, args[0])
        v = self.read(st, l)
        x = self.obj_id(v)
        cx = self.cx_arg(args, argtys)
        task = cx is not None and self.is_task_cx(st, cx)
        m = desc['m']
        st = self.pre_poll(st, cls, m, desc, l, v, x, task, args) or st
        out = []
        setv = None
        empt = None
        if lk is not None and lk[1] == 'set':
            empt = self.known(st, ('s', ('call', 'is_empty', v)))
        outs = self.split(st, dty, None, cls in ('stream', 'leafpoll') or True, self.split_result and (cls != 'future' or self.split_future))
        if cls == 'io' and self.split_io: outs = [y for z in outs for y in self.io_split(m, *z)]
        for s2, val, o in outs:
            if lk is not None and lk[1] == 'set' and m == 'poll_next':
                # FuturesUnordered / FuturesOrdered: None exactly when empty
                if o == 'Ready(None)':
                    if empt == C(0) or not self.set_len0(s2, v): continue
                    s2.facts[('call', 'is_terminated', v)] = ('=', 1)
                else:
                    if empt == C(1): continue
                    if o == 'Pending':
                        if self.len_of(s2, v) is None:
                            self.set_len(s2, v, None)
                    else:
                        self.write(s2, l, self.shrunk(s2, v, 'poll_next'))
            self.note(s2, '%s: %s(%s) -> %s' % (self.where(s2), m, self.loc_desc(s2, l), o))
            r = self.post_poll(s2, cls, m, desc, l, x, task, o, val, lk)
            if r is False:
                continue
            out.append((s2, val))
        return out

    split_io = False

    def io_split(self, m, st, val, o):
        """nothing transferred (end of input, or a writer that accepts nothing) is an outcome of its own"""
        if o != 'Ready(Ok)': return [(st, val, o)]
        v = val[3][0][1][3][0][1]
        if m in ('poll_read', 'poll_read_vectored', 'poll_write', 'poll_write_vectored'):
            s0 = st.clone()
            if v[0] != 's' or not self.assume_ne(st, v, 0): return [(st, val, o)]
            return [(s0, ready(ok(C(0))), 'Ready(Ok(0))'), (st, val, o)]
        if m == 'poll_fill_buf' and v[0] == 's':
            s0 = st.clone()
            for s2, e in ((s0, 1), (st, 0)):
                k = ('call', 'is_empty', self.read(s2, self.deref(s2, v)))
                s2.facts[k] = ('=', e)
                self.link(s2, k, e, True)
            return [(s0, val, 'Ready(Ok(empty))'), (st, val, o)]
        return [(st, val, o)]

    def pre_poll(self, st, cls, m, desc, l, v, x, task, args):
        return st

    def post_poll(self, st, cls, m, desc, l, x, task, o, val, lk):
        self.on_event(st, 'poll', cls, m, l, x, task, o, val)
        return None

    def on_event(self, st, kind, *data):
        if kind == 'waker_clone':
            l, v, n = data
            if self.is_task_waker_loc(st, l):
                st.tags[(n[1], '#tw')] = 1
        elif kind == 'push':
            if self.holds_tw(st, data[3]):
                st.mon['armed'] = 1
        elif kind == 'atomic':
            for v in data[2]:
                if v[0] == 'r' and self.holds_tw(st, self.read(st, (v[1], v[2]))):
                    if data[4] != 0:
                        st.mon['armed'] = 1
        elif kind == 'notify01':
            if self.reaches_tw(st, data[1]): st.mon['armed'] = 1
        elif kind == 'call':
            name, desc, args, argtys = data
            if any(self.holds_tw(st, a) or self.reaches_tw(st, a) for a in args):
                st.mon['armed'] = 1
        elif kind == 'will_wake':
            x, y, r, lx, ly = data
            if r:
                for v, l in ((x, ly), (y, lx)):
                    if self.is_task_waker_val(st, v) and self.shared_root(st, l[0]):
                        st.mon['armed'] = 1
            if r and x[0] == 's' and self.is_task_waker_val(st, y):
                st.tags[(x[1], '#tw')] = 1
            elif r and y[0] == 's' and self.is_task_waker_val(st, x):
                st.tags[(y[1], '#tw')] = 1

    def shared_root(self, st, r):
        """memory that outlives the call (not a local, not the caller's context)"""
        return r[0] == 'D' and r[1] != 'cx' and r[1] != self.TW and not (isinstance(r[1], tuple) and r[1][0] == self.TW)

    def shared_havoc(self, st, l):
        if self.holds_tw(st, self.read(st, l)):
            st.mon['armed'] = 1
        super().shared_havoc(st, l)

    def on_write(self, st, l, v):
        if self.shared_root(st, l[0]) and v[0] in ('s', 'a') and self.holds_tw(st, v):
            st.mon['armed'] = 1

    def reaches_tw(self, st, v, d=0):
        """a notification handle built in this call around the task's waker, handed to code outside the repository"""
        if v[0] == 'r' and v[1][0] in ('L', 'H') and d < 3:
            return self.reaches_tw(st, self.read(st, (v[1], v[2])), d + 1)
        if v[0] == 'r':
            return d > 0 and self.is_task_waker_loc(st, (v[1], v[2]))
        if v[0] == 's' and v[1] == self.TW:
            return d > 0
        if v[0] == 'a':
            return any(self.reaches_tw(st, w, d + 1) for _, w in v[3])
        return False

    def holds_tw(self, st, v):
        k = v[0]
        if k == 's':
            return self.is_task_waker_val(st, v)
        if k == 'a':
            return any(self.holds_tw(st, w) for _, w in v[3])
        return False

    def on_result(self, st, name, desc, args, v):
        # user code given the task's context answers for itself
        pass

    def has_cx(self, st, v, d=0):
        if v[0] == 'r':
            return v[1] == ('D', 'cx')
        if v[0] == 'a' and d < 3:
            return any(self.has_cx(st, w, d + 1) for _, w in v[3])
        return False

    def w_catch(self, st, val, data):
        if self.unwind:
            return ok(val)
        s2 = st.clone()
        return [(st, ok(val)), (s2, err(s2.fresh(('panic payload',))))]

    # ---------------------------------------------------------------- running one operation
    def start(self, k, selfval=None, base=None, named=True):
        """initial state for root function k; base: a state providing memory/facts for 'self'"""
        f = self.db.fns[k]
        st = base.clone() if base is not None else new_state()
        st.frames = []
        args = []
        for i in range(1, f['argc'] + 1):
            ty = f['locals'][i]
            args.append(self.arg_value(st, f, i, ty, base is not None))
        self.push_fn(st, k, args, None, None, -1, None)
        return st

    def arg_value(self, st, f, i, ty, anon=False):
        t = self.db.tys[ty]
        if t['k'] == 'ref' and self.db.tys[t['of']]['s'].startswith('core::task::wake::Context'):
            return ('r', ('D', 'cx'), ())
        if i == 1 and f.get('self') is not None:
            if t['k'] == 'ref':
                return ('r', ('D', 'self'), ())
            if t['k'] == 'adt' and t['def'] == 'core::pin::Pin':
                return struct(('r', ('D', 'self'), ()))
            if ty == f['self']:
                return self.read(st, (('D', 'self'), ()))
        if t['k'] == 'adt' and t['def'] == 'core::pin::Pin':
            return struct(st.fresh(('arg', i)) if anon else ('s', 'arg%d' % i))
        return st.fresh(('arg', i)) if anon else ('s', 'arg%d' % i)
