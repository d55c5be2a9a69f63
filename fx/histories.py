"""Exploration of every operation history of an object under a legal caller."""
from polls import *
from engine import vatoms, ratoms

IO = 'futures_io::if_std::'
OPS = {
    (FUT, 'poll'), (STREAM, 'poll_next'), (SINK, 'poll_ready'), (SINK, 'start_send'), (SINK, 'poll_flush'), (SINK, 'poll_close'),
    (IO + 'AsyncRead', 'poll_read'), (IO + 'AsyncRead', 'poll_read_vectored'), (IO + 'AsyncWrite', 'poll_write'),
    (IO + 'AsyncWrite', 'poll_write_vectored'), (IO + 'AsyncWrite', 'poll_flush'), (IO + 'AsyncWrite', 'poll_close'),
    (IO + 'AsyncBufRead', 'poll_fill_buf'), (IO + 'AsyncBufRead', 'consume'), (IO + 'AsyncSeek', 'poll_seek'),
}

class Index:
    """per-ADT operations and constructors"""
    def __init__(self, db):
        self.db = db
        self.ops = {}
        self.inherent = {}
        self.fused = {}
        self.ctors = {}
        self.drops = {}
        self.poll_fns = []
        over = {}
        for k in db.roots:
            f = db.fns[k]
            if f['p'].startswith('fxprobe::ops::fx_op_'):
                c = [b[1] for b in f['bb'] if b[1][0] == 'call' and b[1][1].get('f', {}).get('k') is not None]
                c = [db.fns[t[1]['f']['k']] for t in c if 'tr' in db.fns[t[1]['f']['k']]]
                if len(c) == 1 and db.tys[c[0]['self']]['k'] == 'adt':
                    over[(db.tys[c[0]['self']]['def'], c[0]['tr'], c[0]['m'])] = c[0]['F']
                continue
            if f['cr'] == 'fxprobe': continue
            rt = db.tys[f['locals'][0]]
            sd = None
            if 'self' in f:
                t = db.tys[f['self']]
                if t['k'] == 'adt':
                    sd = t['def']
            tr = f.get('tr')
            has_cx = any(self.is_cx(f['locals'][i]) for i in range(1, f['argc'] + 1))
            if has_cx and rt['k'] == 'adt' and rt['def'] == 'core::task::poll::Poll':
                self.poll_fns.append(k)
            if sd:
                if tr is None:
                    if has_cx and f['pub']:
                        self.inherent.setdefault(sd, []).append(k)
                elif (tr, f['m']) in OPS:
                    self.ops.setdefault(sd, {}).setdefault((tr, f['m']), []).append(k)
                elif f['m'] == 'is_terminated':
                    self.fused.setdefault(sd, {})[tr] = k
                elif tr == 'core::ops::drop::Drop':
                    self.drops[sd] = k
            if rt['k'] == 'adt' and not has_cx and not f['p'].endswith('::clone'):
                self.ctors.setdefault(rt['def'], []).append((k, ()))
            if rt['k'] == 'tuple' and not has_cx and not f['p'].endswith('::clone'):
                for i, a in enumerate(rt['args']):
                    at = db.tys[a]
                    if at['k'] == 'adt':
                        self.ctors.setdefault(at['def'], []).append((k, ((0, i),)))
        for (sd, tr, m), k in over.items():
            if (tr, m) in OPS: self.ops[sd][(tr, m)] = [k]
            elif m == 'is_terminated': self.fused[sd][tr] = k

    def is_cx(self, ty):
        t = self.db.tys[ty]
        return t['k'] == 'ref' and self.db.tys[t['of']]['s'].startswith('core::task::wake::Context')

    def constructors(self, adt):
        c = []
        m = modpath(adt)
        for k, pth in self.ctors.get(adt, []):
            f = self.db.fns[k]
            # exclude conversions from the object itself
            bad = False
            for i in range(1, f['argc'] + 1):
                t = self.db.tys[f['locals'][i]]
                if t['k'] == 'adt' and t['def'] == adt:
                    bad = True
            if not bad:
                c.append((k, pth))
        near = [(k, p) for k, p in c if self.db.fns[k]['p'].lstrip('<').startswith(m + '::')]
        return near or c

def shrink(engine, st):
    """reduce a final state to what the object 'self' retains"""
    st = st.clone()
    st.frames = []
    for r in list(st.mem):
        if r[0] == 'L' or r in (('D', 'cx'),):
            del st.mem[r]
    for t in list(st.tags):
        if t[1] in ('#tw', '#pend', '#op'):
            del st.tags[t]
    # widening between operations: arithmetic results and order facts are forgotten
    for sid in list(st.facts):
        if isinstance(sid, tuple) and sid[0] == 'op':
            del st.facts[sid]
    for r in list(st.mem):
        st.mem[r] = _wid(st, st.mem[r])
    st.org = {}
    engine.canon_self(st)
    # what is not reachable from the object is forgotten (operands of the call, promoted constants)
    reach, names = {('D', 'self')}, {'self'}
    grown = True
    while grown:
        grown = False
        for r in list(reach):
            v = st.mem.get(r)
            if v is None: continue
            rr = set()
            vroots(v, rr)
            o = []
            vatoms(v, o)
            nn = {a for a in o if isinstance(a, str)}
            if not rr <= reach or not nn <= names:
                reach |= rr; names |= nn; grown = True
        for r in st.mem:
            if r not in reach and r[0] == 'D':
                o = []
                atoms(r[1], o)
                if o and all(not isinstance(a, str) or a in names for a in o):
                    reach.add(r); grown = True
    for r in list(st.mem):
        if r not in reach:
            del st.mem[r]
    for m in (st.facts, st.tags):
        for sid in list(m):
            o = []
            atoms(sid[0] if m is st.tags else sid, o)
            if any(isinstance(a, str) and a not in names for a in o):
                del m[sid]
    engine.canon_self(st)
    return st

def vroots(v, out):
    if v[0] == 'r':
        out.add(v[1])
    elif v[0] == 'a':
        for _, w in v[3]:
            vroots(w, out)

def _wid(st, v):
    k = v[0]
    if k == 's' and isinstance(v[1], tuple) and v[1][0] in ('op', 'call', 'd'):
        return st.fresh(('arith',))
    if k == 'c' and not (-1 <= v[1] <= 4) and v[1] < (1 << 60):
        return st.fresh(('arith',))
    if k == 'a' and v[3]:
        return ('a', v[1], v[2], tuple((e, _wid(st, w)) for e, w in v[3]), v[4])
    return v

class ObjEngine(PollEngine):
    def canon_self(self, st):
        # a pseudo frame that keeps self reachable
        st.frames = [('WRAP', 'none', ('r', ('D', 'self'), ()))]
        self.canon(st)
        st.frames = []

def construct(db, adt, idx, ecls):
    """abstract states of freshly constructed objects"""
    out = []
    seen = set()
    for k, pth in idx.constructors(adt):
        e = ecls(db, adt)
        res = []
        e.on_return = lambda st, v: res.append((st, v))
        e.constructing = True
        try:
            e.run(e.start(k))
        except Budget:
            pass
        f = db.fns[k]
        for st, v in res:
            st = st.clone()
            for el in pth:
                v = e.step_value(st, v, el)
            st.mem[('D', 'self')] = v
            st.mon = {}
            st.trace = (None, 'constructed by %s' % f['p'])
            st = shrink(e, st)
            key = e.key(st)
            if key not in seen:
                seen.add(key)
                out.append(st)
    if not out:
        # no constructor in sight: start from an arbitrary object
        out.append(new_state())
    return out
