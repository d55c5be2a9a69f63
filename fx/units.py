"""Effect automata of single functions.

Every function that is an entry point of the repository (public, trait method, drop glue or otherwise only reachable
through a pointer) is interpreted abstractly from arbitrary arguments and arbitrary shared memory.  Its labels are its
effects: atomic operations (with operands, ordering and observed value), acquisitions and releases of locks, writes to
memory that outlives the call, wake-ups, calls into user code and into leaf components, tests of values that are not
determined by previous labels, drops of values that are not its own, and the value returned.  Values are named by
provenance (parameter, field path, result of an operation)."""
from behav import *
import behav, contract
import re, time, signal, traceback, os
from multiprocessing import get_context

MAXNAME = 160

M64 = (1 << 64) - 1
REPS = {
    'bool': (0, 1),
    'u8': (0, 1, 2, 3, 4, 5, 8, 9, 12, 16, 18, 20, 24, 28, 31),
    'usize': (0, 1, 2, 3, 1 << 63, (1 << 63) + 1, M64),
}
ORD_RANK = {'Relaxed': 0, 'Acquire': 1, 'Release': 1, 'AcqRel': 2, 'SeqCst': 3}
COMM = ('saturating_add', 'checked_add', 'wrapping_add', 'min', 'max', 'saturating_mul', 'checked_mul')
# external functions with an effect a user can observe
EFFECT = re.compile(r'std::thread::.*|std::panicking::.*|std::panic::.*|core::panic::.*|std::sync::(mpsc|condvar|barrier|poison::condvar).*|std::sys::.*|alloc::rcs::arc::Arc.*::(increment_strong_count|decrement_strong_count)')
# pure methods of user types: named results, no label
PUREM = ('size_hint', 'clone', 'eq', 'ne', 'cmp', 'partial_cmp', 'len', 'is_empty', 'as_ref', 'borrow', 'deref', 'deref_mut', 'as_mut', 'hash', 'type_id', 'into', 'from')

# &mut arguments that are not changed by the call itself
PUREMUT = ('index_mut', 'split_at_mut', 'reserve', 'reserve_exact', 'as_mut', 'deref_mut', 'get_mut', 'by_ref', 'as_mut_ptr', 'iter_mut', 'next', 'as_mut_slice', 'into_iter',
           'size_hint', 'fmt', 'borrow_mut', 'pop_mut', 'finish')

FU = 'futures_util::stream::futures_unordered::'
# components with effect automata of their own: calls to them are labels
ULEAF = (FU + 'ready_to_run_queue::ReadyToRunQueue',)
FLEAF = {FU + 'FuturesUnordered::' + m for m in ('link', 'unlink', 'release_task')} | {
    'futures_util::stream::stream::flatten_unordered::SharedPollState::' + m for m in ('start_polling', 'start_waking', 'stop_polling', 'stop_waking')} | {
    'futures_util::async_await::random::gen_index'}
# operations of a leaf that are compositions of its other operations
THROUGH = {'futures_core::task::__internal::atomic_waker::AtomicWaker::wake'}

_sg = {}
def strip_generics(p):
    r = _sg.get(p)
    if r is None:
        out = []
        d = 0
        i = 0
        while i < len(p):
            c = p[i]
            if c == '<' and not d and p.startswith('<impl ', i):
                out.append(c)
            elif c == '<' and (d or (out and (out[-1].isalnum() or out[-1] == '_' or out[-1] == ':'))):
                if not d and len(out) >= 2 and out[-1] == ':' :
                    out.pop(); out.pop()
                # impl<..>-style trait qualification keeps its contents
                d += 1
            elif c == '>' and d and p[i - 1] != '-':
                d -= 1
            elif not d:
                out.append(c)
            i += 1
        r = _sg[p] = ''.join(out)
    return r

def labelled(p):
    """functions whose calls are labels: they need an automaton of their own"""
    q = strip_generics(p)
    return q in FLEAF or (q.rsplit('::', 1)[0] in ULEAF and q.rsplit('::', 1)[1] in ('enqueue', 'dequeue'))

ATOMFN = re.compile(r'core::sync::atomic::atomic_(load|store|swap|compare_exchange|compare_exchange_weak|add|sub|and|or|xor)$')

class Unit(Behav):
    max_steps = 60000
    slices = True
    maxname = 120
    split_io = False
    heap_limit = 4
    def __init__(self, db, root_self=None):
        super().__init__(db, root_self)
        self.root_fn = None
        self.excl = ()
        self.byval = ()
        self.mutids = set()
        self.bvals = None
        self.lin = {}
        for t in ULEAF:
            if not root_self or modpath(t) != modpath(root_self): self.leaf[t] = 'comp'

    def leaf_kind(self, desc):
        p = desc.get('rp') or desc['p']
        q = strip_generics(p)
        if q in FLEAF and q != self.root_fn:
            return q.rsplit('::', 1)[0], 'comp'
        if q in THROUGH: return None
        return super().leaf_kind(desc)

    # ------------------------------------------------------------ values
    def vterm(self, st, v, d=0):
        v = self.known(st, v)
        if v[0] == 'c':
            n = v[1]
            if n < 0: n &= M64
            if n >= 1 << 62: return hex(n)
            return str(n) if n < 100000 else '?'
        if v[0] == 'r' and v[1][0] == 'D' and not v[2] and v[1] not in st.mem:
            # a reborrow is the pointer itself
            t = self.idname(st, v[1][1])
            return t if len(t) < MAXNAME else '?'
        if v[0] == 'a' and isinstance(v[1], tuple) and v[1][0] == 'chain':
            t = self.vterm(st, self.step_value(st, v, (0, 'src')), d + 1)
            return '%s(%s)' % (v[1][1], t) if '?' not in t else '?'
        if v[0] == 'r' and v[1][0] == 'L':
            if d > 5: return '?'
            return '&' + self.vterm(st, self.read(st, (v[1], v[2])), d + 1)
        return super().vterm(st, v, d)

    def idname(self, st, i):
        if isinstance(i, tuple):
            if i[0] == 'd':
                t = self.idname(st, i[1])
                return 'variant of ' + t if t != '?' else '?'
            if i[0] == 'op':
                if i[1] == 'Not' and len(i) == 3:
                    return '!' + self.vterm(st, i[2])
                if i[1] in ('Add', 'Sub'):
                    t = self.linear(st, ('s', i))
                    return t if t is not None else '?'
                if i[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                    bv = self.bvals
                    r = self.cterm(st, ('s', i))
                    self.bvals = bv
                    if r is None or '?' in r[0]: return '?'
                    return ('!' if r[1] else '') + r[0] + ('==' + r[2] if r[2] is not None else '')
                a, b = self.vterm(st, i[2], 2), self.vterm(st, i[3], 2)
                if a == '?' or b == '?': return '?'
                if i[1] in ('BitAnd', 'BitOr', 'BitXor', 'Mul', 'Eq') and b < a and not b[0].isdigit(): a, b = b, a
                return '%s(%s,%s)' % (i[1], a, b)
            if i[0] == 'call' and i[1] == 'slice':
                base, lo, hi = i[2:]
                lo, hi = self.known(st, lo), self.known(st, hi)
                b = self.vterm(st, base, 2)
                a = '' if lo == C(0) else self.vterm(st, lo, 2)
                z = '' if hi == ('s', ('call', 'len', base)) or hi == self.known(st, ('s', ('call', 'len', base))) else self.vterm(st, hi, 2)
                if '?' in (b, a, z): return '?'
                if a or z: return '%s[%s..%s]' % (b, a, z)
                bi = base[1] if base[0] == 's' else None
                # all of it: the pointer itself
                return self.idname(st, bi[0]) if isinstance(bi, tuple) and len(bi) == 2 and bi[1] == '*' else '&' + b
            if i[0] == 'call':
                al = [self.vterm(st, x, 2) for x in i[2:]]
                if '?' in al: return '?'
                return '%s(%s)' % (i[1], ','.join(al))
            if len(i) == 2 and i[1] == '*':
                b = self.idname(st, i[0])
                if b[0] == '&': return b[1:]
        return super().idname(st, i)

    def same_name(self, st, old, v):
        super().same_name(st, old, v)
        if (v[1], '#nm') not in st.tags:
            t = self.vterm(st, old)
            if t != '?' and len(t) < MAXNAME: st.tags[(v[1], '#nm')] = t.rstrip("'") + "'"

    def sum_of(self, st, a, b):
        r = super().sum_of(st, a, b)
        if r is None: return None
        t = self.vterm(st, b)
        if r is a: return r if '?' not in t and st.tags.get((r[1], '#nm')) == 'sum(%s)' % t else None
        if '?' in t or len(t) > MAXNAME - 10: return None
        self.setname(st, r, 'sum(%s)' % t)
        return r

    def binop(self, st, op, a, b, site):
        r = super().binop(st, op, a, b, site)
        if r[0] == 's' and isinstance(r[1], int) and (r[1], '#nm') not in st.tags:
            t = self.idname(st, ('op', op, a, b))
            if '?' not in t and len(t) < MAXNAME: st.tags[(r[1], '#nm')] = t
        return r

    def lin_of(self, st, v):
        """({term: factor}, constant) of a sum, or None"""
        acc = {}
        c = [0]
        def go(v, sg):
            v = self.known(st, v)
            if v[0] == 'c':
                n = v[1] if v[1] < (1 << 63) else v[1] - (1 << 64)
                c[0] += sg * n; return True
            if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'op' and v[1][1] in ('Add', 'Sub'):
                return go(v[1][2], sg) and go(v[1][3], sg if v[1][1] == 'Add' else -sg)
            t = self.vterm(st, v, 2)
            if t == '?': return False
            sub = self.lin.get(t)
            if sub is not None:
                for k, n in sub[0].items(): acc[k] = acc.get(k, 0) + sg * n
                c[0] += sg * sub[1]
                return True
            acc[t] = acc.get(t, 0) + sg
            return True
        if not go(v, 1): return None
        acc = {k: n for k, n in acc.items() if n}
        if len(acc) > 5 or any(abs(n) > 2 for n in acc.values()) or 2 < abs(c[0]) < 64: return None
        return acc, c[0]

    def lin_name(self, acc, c):
        parts = []
        for t in sorted(acc):
            n = acc[t]
            if n: parts.append(('+' if n > 0 else '-') + ('%d*' % abs(n) if abs(n) != 1 else '') + t)
        if not parts: return str(c)
        if len(parts) == 1 and not c and parts[0][0] == '+' and parts[0][1:] in acc: return parts[0][1:]
        if c: parts.append('%+d' % c)
        r = '[' + ''.join(parts) + ']'
        self.lin[r] = (acc, c)
        return r

    def linear(self, st, v):
        r = self.lin_of(st, v)
        if r is None: return None
        if not r[0] and r[1]: return '[%+d]' % r[1]
        return self.lin_name(*r)

    def lin_cmp(self, st, op, x, y):
        """sides of a comparison of sums with everything cancelled and nothing subtracted"""
        if not any(w[0] == 's' and isinstance(w[1], tuple) and w[1][0] == 'op' and w[1][1] in ('Add', 'Sub') for w in (x, y)) \
                and not any(self.vterm(st, w, 2) in self.lin for w in (x, y)): return None
        l, r = self.lin_of(st, x), self.lin_of(st, y)
        if l is None or r is None: return None
        d = dict(l[0])
        for k, n in r[0].items(): d[k] = d.get(k, 0) - n
        d = {k: n for k, n in d.items() if n}
        c = l[1] - r[1]
        if not d: return None
        if op == 'Eq' and d[min(d)] < 0: d, c = {k: -n for k, n in d.items()}, -c
        a = self.lin_name({k: n for k, n in d.items() if n > 0}, max(c, 0))
        b = self.lin_name({k: -n for k, n in d.items() if n < 0}, max(-c, 0))
        return a, b

    def locname(self, st, l):
        r, p = l
        if r[0] == 'D':
            b = self.idname(st, r[1])
            if b == '?': return '?'
            b = '*' + b if not isinstance(r[1], str) else b
        elif r[0] == 'H':
            b = 'new'
        else:
            return self.vterm(st, self.read(st, l))
        for e in p:
            if e[0] == 'e': b += '[]'
            elif e[0] == 0: b += '.%s' % (e[1],)
            else: b += '.%s_%s' % (e[0], e[1])
        b = re.sub(r'(\.0)+$', '', b)
        return b if len(b) < MAXNAME else '?'

    def tterm(self, st, v, ty, d=0):
        t = self.db.tys[ty] if ty is not None else None
        if t is not None and t['k'] == 'adt' and t.get('ak') == 'struct' and t['def'].startswith('futures') and t.get('v') and v[0] == 'a' and d < 5:
            fl = [self.tterm(st, self.known(st, self.step_value(st, v, (0, i))), ft, d + 1) for i, (_, ft) in enumerate(t['v'][0][2])]
            return '%s(%s)' % (t['def'].rsplit('::', 1)[-1], ','.join(fl))
        return super().tterm(st, v, ty, d)

    # ------------------------------------------------------------ labels
    def emit_soft(self, st, *label):
        """effects that commute with their neighbours: kept in a canonical order"""
        if st.path is None or not self.emit_on: return
        labs = list(st.path[1])
        i = len(labs)
        while i > 0 and labs[i - 1][0] in ('write', 'drop') and labs[i - 1][1] != label[1] and labs[i - 1] > label:
            i -= 1
        if label[0] == 'write':
            # a later write to the same place supersedes an earlier one
            for j in range(len(labs) - 1, -1, -1):
                if labs[j][0] != 'write' and labs[j][0] != 'drop': break
                if labs[j][0] == 'write' and labs[j][1] == label[1]:
                    del labs[j]
                    i = min(i, len(labs))
                    while i > 0 and labs[i - 1][0] in ('write', 'drop') and labs[i - 1] > label: i -= 1
                    break
        labs.insert(i, label)
        st.path = (st.path[0], tuple(labs))

    def on_write(self, st, l, v):
        super().on_write(st, l, v)
        r = l[0]
        if r[0] != 'D' or r == ('D', 'cx') or r[1] == self.TW: return
        if isinstance(r[1], str) and r[1].startswith(('prom:', 'K:')): return
        n = self.locname(st, l)
        if n == '?' : return
        if r[1] in self.excl or self.xid(r[1]):
            # exclusively borrowed memory: what counts is its content when the function returns
            if st.path is not None and self.emit_on:
                st.mon['xw'] = st.mon.get('xw', frozenset()) | {l}
            return
        self.emit_soft(st, 'write', n, self.wterm(st, v))

    def loc(self, st, place):
        if len(place) > 1 and place[1] == '*':
            t = self.db.tys[self.db.fns[st.frames[-1][1]]['locals'][place[0]]] if st.frames[-1][0] == 'F' else {'k': ''}
            if t['k'] == 'ref' and t.get('m'):
                v = self.read(st, (('L', len(st.frames) - 1, place[0]), ()))
                if v[0] == 's': self.mutids.add(v[1])
        return super().loc(st, place)

    def xid(self, i):
        """the symbolic pointer is a mutable reference found in memory the function has for itself"""
        if i not in self.mutids: return False
        while isinstance(i, tuple) and len(i) == 2:
            if i[1] == '*': return i[0] in self.excl or i[0] in self.byval or self.xid(i[0])
            if not isinstance(i[1], tuple): return False
            i = i[0]
        return i in self.byval

    def final_writes(self, st):
        xw = st.mon.get('xw', ())
        out = []
        for l in xw:
            if any(m != l and m[0] == l[0] and l[1][:len(m[1])] == m[1] for m in xw): continue
            for l2, v in self.parts(l, self.read(st, l)):
                n, t = self.locname(st, l2), self.wterm(st, v)
                if t not in (n, '*' + n): out.append(('final', n, t))
        return tuple(sorted(set(out)))

    def parts(self, l, v):
        """a record put in a place whole is its fields put there one by one"""
        if v[0] == 'a' and v[2] == 0 and v[4] is None and len(v[3]) > 1 and all(k[0] == 0 for k, _ in v[3]):
            for k, w in v[3]: yield from self.parts((l[0], l[1] + (k,)), w)
        else: yield l, v

    def wterm(self, st, v):
        """the value put in a place (which is named without its wrappers)"""
        t = self.vterm(st, v)
        while t.startswith('V0(') and t.endswith(')') and len(t) > 4 and contract.split2(t[3:-1])[1] is None: t = t[3:-1]
        return t

    def switch(self, st, t):
        v = self.operand(st.clone(), t[1])
        self.bterm = self.cterm(st, v) if v[0] == 's' else None
        self.btargets = [n for n, _ in t[2]]
        return super().switch(st, t)

    def loop_cond(self, st, val):
        return self.cterm(st, val) if val[0] == 's' else None

    def loop_branch(self, st, val, x, cond):
        self.bterm, self.btargets = cond, [0]
        self.on_branch(st, val, x)

    def shared_havoc(self, st, l):
        super().shared_havoc(st, l)
        v = self.read(st, l)
        n = self.locname(st, l)
        if n != '?': self.setname(st, v, 'guarded(%s)' % n)

    def on_branch(self, st, v, n):
        if self.bterm is None: return
        t, flip, isint = self.bterm
        if t is None or '?' in t: return
        if n is None: n = '!' + ','.join(sorted(str(x) for x in self.btargets))
        elif flip: n = 1 - n
        if isint is not None:
            # equality test with a constant: the value is what is tested
            if n == 1: n = isint
            else:
                rest = [x for x in self.bvals or () if x != isint]
                n = rest[0] if len(rest) == 1 else '!%s' % isint
        self.emit(st, 'if', t, str(n))

    def cterm(self, st, v):
        """(term, negated, constant the term is compared with) of a branch condition"""
        self.bvals = None
        flip = False
        while v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'op' and v[1][1] == 'Not' and len(v[1]) == 3:
            v = v[1][2]; flip = not flip
        if v[0] != 's': return None
        i = v[1]
        if isinstance(i, tuple) and i[0] == 'd':
            t = self.idname(st, i[1])
            return ('variant of ' + t, flip, None) if t != '?' else None
        if isinstance(i, tuple) and i[0] == 'op':
            op, x, y = i[1], i[2], i[3]
            if op == 'Ne': op = 'Eq'; flip = not flip
            elif op == 'Gt': op = 'Lt'; x, y = y, x
            elif op == 'Le': op = 'Lt'; x, y = y, x; flip = not flip
            elif op == 'Ge': op = 'Lt'; flip = not flip
            x, y = self.known(st, x), self.known(st, y)
            if op == 'Lt' and y == C(1): op = 'Eq'; y = C(0)
            elif op == 'Lt' and x == C(0): op = 'Eq'; x, y = y, x; flip = not flip
            elif op == 'Lt' and x[0] == 'c': x, y = y, C(x[1] + 1); flip = not flip
            lc = self.lin_cmp(st, op, x, y) if op in ('Eq', 'Lt') else None
            if lc is not None:
                a, b = lc
                if op == 'Eq':
                    if a.isdigit(): a, b = b, a
                    if b.isdigit(): return (a, flip, b)
                    if b < a: a, b = b, a
                return ('%s(%s,%s)' % (op, a, b), flip, None)
            a, b = self.vterm(st, x, 2), self.vterm(st, y, 2)
            if '?' in (a, b): return None
            if op == 'Eq':
                if x[0] == 'c': x, y, a, b = y, x, b, a
                if y == C(0) and x[0] == 's' and isinstance(x[1], tuple) and x[1][:2] == ('call', 'len'):
                    return (self.idname(st, ('call', 'is_empty') + x[1][2:]), flip, None)
                if y[0] == 'c':
                    if x[0] == 's' and isinstance(x[1], tuple) and x[1][0] == 'd':
                        vs = self.variants(x[1][2])
                        if vs: self.bvals = [str(dd) for _, dd in vs]
                    return (a, flip, b)
                if b < a: a, b = b, a
            return ('%s(%s,%s)' % (op, a, b), flip, None)
        t = self.idname(st, i)
        if t.startswith('!'): t = t[1:]; flip = not flip
        m = re.fullmatch(r'(.*)==(-?\w+)', t)
        return (m.group(1), flip, m.group(2)) if m else (t, flip, None)

    # ------------------------------------------------------------ effects
    def on_event(self, st, kind, *data):
        Behav.on_event(self, st, kind, *data)
        if kind == 'fence':
            self.emit(st, 'fence', data[0])
        elif kind == 'notify01':
            self.emit(st, 'mut', 'poll_fn_notify %s,%s,%s' % (self.locname(st, data[0]), self.vterm(st, data[1]), self.vterm(st, data[2])))
        elif kind == 'lock':
            self.emit(st, 'lock', self.locname(st, data[0]))
        elif kind == 'trylock':
            self.emit(st, 'trylock', self.locname(st, data[0]), str(data[1]))
        elif kind == 'wake':
            if not self.is_task_waker_val(st, data[0]):
                self.emit(st, 'wake', self.vterm(st, data[0]))
        elif kind == 'register':
            self.emit(st, 'register', self.locname(st, data[0]), 'task' if data[1] else 'other')
        elif kind == 'waker_clone':
            l, v, n = data
            if not self.is_task_waker_loc(st, l):
                self.setname(st, n, 'clone(%s)' % self.vterm(st, v))
            else:
                self.setname(st, n, 'task-waker')
        elif kind == 'will_wake':
            x, y, r, lx, ly = data
            self.emit(st, 'will_wake', ','.join(sorted([self.vterm(st, x), self.vterm(st, y)])), str(r))
        elif kind == 'rc_inc':
            # net change of the number of handles to a shared object
            n = data[1] + (self.dterm(st, data[0], None) or '?')
            if '?' not in n and st.path is not None and self.emit_on:
                rc = dict(st.mon.get('rc', ()))
                rc[n] = min(rc.get(n, 0) + 1, 3)
                st.mon['rc'] = tuple(sorted(rc.items()))
        elif kind == 'push':
            m, l, old, val = data
            self.emit(st, 'mut', m, '%s,%s' % (self.contname(st, l, old), self.vterm(st, val)))
        elif kind == 'pop':
            m, l, old, el = data[:4]
            n = self.contname(st, l, old)
            ix = ',' + self.vterm(st, data[4]) if len(data) > 4 and data[4] is not None else ''
            if ix or '?' in n: self.emit(st, 'mut', m, n + ix, 'None' if el is None else 'Some')
            else:
                # removing from an empty container is the same as finding it empty
                if not self.pop_known:
                    t = self.idname(st, ('call', 'is_empty', old))
                    if '?' not in t: self.emit(st, 'if', t, '1' if el is None else '0')
                if el is not None: self.emit(st, 'mut', m, n)
            if el is not None and n != '?': self.setname(st, el, 'popped(%s)' % n)
        elif kind == 'get':
            m, l, old, el, ix = data
            m = m.replace('_mut', '')
            n = self.locname(st, l)
            if m == 'get':
                # whether there is such an element
                t = self.vterm(st, ix) if ix is not None else '?'
                if '?' not in n + t: self.emit(st, 'if', 'get(%s,%s)' % (n, t), '0' if el is None else '1')
                w = ',' + t
            else:
                if not self.pop_known:
                    t = self.idname(st, ('call', 'is_empty', old))
                    if '?' not in t: self.emit(st, 'if', t, '1' if el is None else '0')
                w = ''
            if el is not None and '?' not in n + w: self.setname(st, el, '&%s(%s%s)' % ({'front': 'first', 'back': 'last'}.get(m, m), n, w))
        elif kind == 'newcont':
            self.setname(st, data[0], 'empty')
        elif kind == 'iter':
            n = self.vterm(st, self.read(st, data[1]))
            if n != '?' and len(n) < MAXNAME - 10: self.setname(st, data[2], 'iter(%s)' % n.lstrip('&*'))
        elif kind == 'into_iter':
            v, n = data
            t = self.vterm(st, self.read(st, self.deref(st, v))) if v[0] == 'r' else self.vterm(st, v)
            if t != '?' and len(t) < MAXNAME - 10: self.setname(st, n, t if t.startswith(('iter(', 'rev(', 'enumerate(', 'drain(')) else 'iter(%s)' % t.lstrip('&*'))
        elif kind == 'iter_adapt':
            m, v, n = data
            t = self.vterm(st, v)
            if t != '?' and len(t) < MAXNAME - 10: self.setname(st, n, '%s(%s)' % (m, t))
        elif kind == 'iter_next':
            l, old, el = data
            t = self.vterm(st, old)
            if el is not None and t != '?' and len(t) < MAXNAME - 10: self.setname(st, el, 'next(%s)' % t.rstrip("'"))
            if el is None and old[0] == 's':
                # exhausted: dropping it has no effect (and `for` is the same as `for_each`)
                st.facts[('call', 'exhausted', old)] = ('=', 1)
        elif kind == 'iter_first':
            t = self.idname(st, ('call', 'is_empty', data[0]))
            if '?' not in t: self.emit(st, 'if', t, str(data[1]))
        elif kind == 'loop_item':
            t, el = data
            if t != '?' and len(t) < MAXNAME - 10: self.setname(st, el, 'next(%s)' % t.rstrip("'"))
        elif kind == 'drain':
            l, old, it = data
            n = self.contname(st, l, old)
            self.emit(st, 'mut', 'drain', n)
            t = self.vterm(st, old)
            if t != '?' and len(t) < MAXNAME - 10: self.setname(st, it, 'drain(%s)' % t)
        elif kind == 'clear':
            self.emit(st, 'mut', 'clear', self.contname(st, data[1], data[2] if len(data) > 2 else None))
        elif kind == 'upgrade' or kind == 'arc_getmut' or kind == 'arc_unwrap':
            self.emit(st, kind, self.vterm(st, data[0]), str(data[1]))
        elif kind == 'call':
            name, desc, args, argtys = data
            if desc.get('m') not in PUREMUT and not EFFECT.fullmatch(name) and any(ty is not None and self.is_mut_ref(ty) for ty in argtys) \
                    and not name.startswith('<indirect'):
                self.emit(st, 'mut', desc.get('m') or name, ','.join(self.aterm(st, a) for a in args))
            if name in ('core::ptr::copy_nonoverlapping', 'core::ptr::copy', 'core::intrinsics::copy_nonoverlapping', 'core::intrinsics::copy'):
                self.emit(st, 'mut', 'copy', ','.join(self.vterm(st, a) for a in args))
            if EFFECT.fullmatch(name):
                self.emit(st, 'ext', re.sub(r'<[^>]*>', '', name).rsplit('::', 2)[-1], ','.join(self.vterm(st, a) for a in args))

    def contname(self, st, l, old):
        """a container is named by what it held at first, wherever it was moved since"""
        t = self.vterm(st, old).rstrip("'") if old is not None else '?'
        return t if '?' not in t else self.locname(st, l)

    def aterm(self, st, a):
        if a[0] == 'r': return '&' + self.locname(st, (a[1], a[2]))
        return self.vterm(st, a)

    def havoc(self, st, l, name):
        old = self.read(st, l) if l[0][0] != 'L' or l[0] in st.mem else None
        super().havoc(st, l, name)
        if old is not None:
            v = self.read(st, l)
            if v[0] == 's' and isinstance(v[1], int): self.same_name(st, old, v)

    def on_drop(self, st, tid, val, loc):
        super().on_drop(st, tid, val, loc)
        t = self.db.tys[tid]
        s = t['s']
        if 'MutexGuard' in s and t.get('def', '').startswith('std::sync'):
            l = self.deref(st, val)
            self.emit(st, 'unlock', self.locname(st, (l[0], l[1][:-1]) if l[1] and l[1][-1] == (0, 0) else l))
            return
        if val[0] == 's' and st.facts.get(('call', 'exhausted', val)) == ('=', 1): return
        n = self.dterm(st, val, tid)
        if n and '?' not in n:
            if t.get('def', '').startswith('alloc::rcs::'):
                w = ('weak ' if t['def'].endswith('::Weak') else '') + n
                rc = dict(st.mon.get('rc', ()))
                if rc.get(w):
                    # an additional handle goes away again
                    rc[w] -= 1
                    if not rc[w]: del rc[w]
                    if rc: st.mon['rc'] = tuple(sorted(rc.items()))
                    else: del st.mon['rc']
                    return
            self.emit_soft(st, 'drop', n)

    def dterm(self, st, v, tid):
        if v[0] == 'r':
            # an Arc, Rc or Box handle: named by the object it refers to
            return 'handle ' + self.locname(st, (v[1], v[2]))
        return self.vterm(st, v)

    def on_result(self, st, name, desc, args, v):
        super().on_result(st, name, desc, args, v)
        if v[0] != 's': return
        al = [self.vterm(st, a) for a in args]
        m = desc.get('m') or 'f'
        if m in COMM: al.sort()
        t = '%s(%s)' % (m, ','.join(al))
        if '?' not in t and len(t) < MAXNAME:
            st.tags[(v[1], '#nm')] = t

    def leaf_call(self, st, lk, desc, args, argtys, dty):
        r = super().leaf_call(st, lk, desc, args, argtys, dty)
        if r is None:
            n = '%s::%s' % (lk[0].rsplit('::', 1)[-1], desc['m'])
            al = [self.tterm(st, a, ty) for a, ty in zip(args, argtys)]
            if desc['m'] in ('len', 'is_empty', 'is_terminated', 'size_hint'):
                return None
            save = self.cur_name
            self.cur_name = '%s(%s)' % (n, ','.join(al))
            if len(self.cur_name) > MAXNAME: self.cur_name = '?'
            out = []
            try:
                if dty is None:
                    self.emit(st, 'leaf', n, ','.join(al), '')
                    return None
                for s2, v, o in self.split(st, dty, None, True, True):
                    self.emit(s2, 'leaf', n, ','.join(al), o)
                    out.append((s2, v))
            finally:
                self.cur_name = save
            return out
        return r

    def user_call(self, st, what, name, args, argtys, dty, terms):
        m = what.rsplit('::', 1)[-1]
        if '::' in what and m in PUREM:
            v = st.fresh(('out',))
            nm = '%s(%s)' % (m, ','.join(terms))
            if '?' not in nm and len(nm) < MAXNAME: self.setname(st, v, nm)
            return [(st, v)]
        return super().user_call(st, what, name, args, argtys, dty, terms)

    def on_call(self, st, name, desc, args, argtys, dty):
        if name.startswith('core::sync::atomic::Atomic::<') or name.startswith('core::sync::atomic::Atomic<'):
            r = self.atomic(st, name, desc, args)
            if r is not None: return r
        m = ATOMFN.match(name)
        if m and args and args[0][0] == 'r':
            # the free functions to which std's own `try_update` resolves
            op = {'and': 'fetch_and', 'or': 'fetch_or', 'xor': 'fetch_xor', 'add': 'fetch_add', 'sub': 'fetch_sub'}.get(m.group(1), m.group(1))
            p = args[0][2]
            for _ in range(2):
                if p and p[-1] == (0, 0): p = p[:-1]
            ty = self.db.tys[desc['a'][0]]['s'] if desc.get('a') and isinstance(desc['a'][0], int) else '?'
            r = self.atomic(st, 'core::sync::atomic::Atomic::<%s>::%s' % (ty, op), dict(desc, m=op), [('r', args[0][1], p)] + list(args[1:]))
            if r is not None: return r
        return super().on_call(st, name, desc, args, argtys, dty)

    def atomic(self, st, name, desc, a):
        op = desc['m']
        if op not in ('load', 'store', 'swap', 'compare_exchange', 'compare_exchange_weak', 'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_xor'):
            return None
        m = re.search(r'Atomic::?<(.*)>::\w+$', name)
        ty = m.group(1) if m else '?'
        l = self.deref(st, a[0])
        l2 = (l[0], l[1] + ((0, 0),))
        nord = 2 if op.startswith('compare') else 1
        vals = a[1:len(a) - nord]
        ords = ','.join(models.ORD(v) for v in a[len(a) - nord:])
        n = self.locname(st, l)
        reps = REPS.get(ty)
        opn = 'cas' if op.startswith('compare') else op
        al = ','.join(self.vterm(st, v) for v in vals)
        own = l[0][0] in ('H', 'L')
        def lab(s, o):
            self.emit(s, 'atomic', '%s %s(%s)' % (opn, n, al), '@' + ords, o)
        self.on_event(st, 'atomic_pre', op, l, vals)
        if op == 'store':
            Behav.on_event(self, st, 'atomic', op, l, vals, (), None)
            lab(st, '')
            self.write(st, l2, vals[0])
            return [(st, UNIT)]
        out = []
        def olds(s):
            if own:
                v = self.rd(s, l2)
                if v[0] == 'c': return [(s, v)]
            if reps is not None:
                return [(s.clone(), C(x)) for x in reps]
            v = s.fresh(('atomic', op))
            self.setname(s, v, 'value(%s)' % (n if n.count('value(') < 3 and '..' not in n else '..'))
            return [(s, v)]
        if op.startswith('compare'):
            s1 = st.clone()
            Behav.on_event(self, s1, 'atomic', op, l, vals, (), 1)
            lab(s1, 'ok')
            self.write(s1, l2, vals[1])
            out.append((s1, ok(vals[0])))
            for s2, v in olds(st):
                if v == vals[0] and op == 'compare_exchange': continue
                Behav.on_event(self, s2, 'atomic', op, l, vals, (), 0)
                if v[0] == 's': self.assume_ne_cas(s2, v, vals[0], op)
                lab(s2, 'failed ' + self.vterm(s2, v))
                self.write(s2, l2, v)
                out.append((s2, err(v)))
            return out
        for s2, v in olds(st):
            Behav.on_event(self, s2, 'atomic', op, l, vals, (), v)
            lab(s2, self.vterm(s2, v))
            if op == 'load': self.write(s2, l2, v)
            elif op == 'swap': self.write(s2, l2, vals[0])
            else:
                b = vals[0]
                nv = None
                if v[0] == 'c' and b[0] == 'c':
                    nv = {'fetch_add': v[1] + b[1], 'fetch_sub': v[1] - b[1], 'fetch_or': v[1] | b[1], 'fetch_and': v[1] & b[1], 'fetch_xor': v[1] ^ b[1]}[op] & M64
                self.write(s2, l2, C(nv) if nv is not None else s2.fresh(('atomic', op)))
            out.append((s2, v))
        return out

class PanicUnit(Unit):
    """the same functions when user code they call (a child they poll, a callback) panics: what is done while the panic
    passes through them"""
    unwind = True
    pstates = ()

    def poll_child(self, st, cls, desc, args, argtys, dty, lk):
        if lk is None or lk[1] == 'set':
            l = self.deref(st, args[0])
            n = self.child_name(st, l, self.read(st, l))
            if lk is not None and n == '?': n = lk[0].rsplit('::', 1)[-1]
            self.pstates.append((st.clone(), 'poll ' + n))
        return super().poll_child(st, cls, desc, args, argtys, dty, lk)

    def user_call(self, st, what, name, args, argtys, dty, terms):
        m = what.rsplit('::', 1)[-1]
        if not ('::' in what and m in PUREM): self.pstates.append((st.clone(), what))
        return super().user_call(st, what, name, args, argtys, dty, terms)

    def invoke(self, st, desc, args, argtys, dty, retloc, target, unw):
        save, self.pstates = self.pstates, []
        try:
            r = super().invoke(st, desc, args, argtys, dty, retloc, target, unw)
            for s, what in self.pstates:
                self.emit(s, 'panics', what)
                if s.frames and s.frames[-1][0] == 'WRAP': u = -1
                elif unw is None: u = -1
                else: u = unw
                r = list(r) + self.unwind_state(s, u)
        finally:
            self.pstates = save
        return r

    def may_panic(self, name, desc): return False
    def maybe_unwind(self, st, unw, name, desc): return []
    def on_diverge(self, st, name): pass
    def on_unwound(self, st): self.unwound.append(st)

# ------------------------------------------------------------------------------------------------ units
DERIVED = ('core::fmt::Debug', 'core::fmt::Display', 'core::marker::StructuralPartialEq', 'core::error::Error', 'core::hash::Hash')

def is_unit(db, k):
    f = db.fns[k]
    if not f.get('root'): return False
    if not f.get('cr', '').startswith('futures') and not f['p'].startswith('fxprobe::macros::fx_'): return False
    if f['p'].startswith('<fxprobe'): return False
    if 'bb' not in f: return False
    if f.get('tr') in DERIVED: return False
    if f.get('kind') == 'closure': return False
    return True

def exclusive(db, f):
    """memory reached through mutable references among the parameters"""
    out = []
    for i in range(1, f['argc'] + 1):
        t = db.tys[f['locals'][i]]
        if t['k'] == 'adt' and t['def'] == 'core::pin::Pin' and t.get('v'):
            t = db.tys[t['v'][0][2][0][1]]
        if t['k'] == 'ref' and t.get('m'):
            out.append('self' if i == 1 and f.get('self') is not None else 'arg%d' % i)
    return tuple(out)

def explore_unit(db, k, ecls=Unit):
    f = db.fns[k]
    g = Graph()
    s = f.get('self')
    adt = None
    if s is not None:
        t = db.tys[s]
        while t['k'] in ('ref', 'ptr'): t = db.tys[t['of']]
        if t['k'] == 'adt': adt = t['def']
    if adt is None or not adt.startswith('futures'):
        adt = re.sub(r'^<', '', f['p']).rsplit('::', 1)[0]
        if '::' in adt and not re.search(r'::[A-Z]', adt): adt += '::x'
    e = ecls(db, adt)
    e.panics = []
    e.unwound = []
    e.op = f['m']
    e.root_fn = strip_generics(f['p'])
    e.graph = g
    e.run_id = 1
    e.excl = exclusive(db, f)
    e.byval = tuple('self' if i == 1 and f.get('self') is not None else 'arg%d' % i for i in range(1, f['argc'] + 1) if db.tys[f['locals'][i]]['k'] not in ('ref', 'ptr'))
    st = e.start(k)
    st.mon = {'armed': 0}
    st.path = (g.node('start'), (('op', f['m']),))
    inc = 0
    sts = [st]
    if labelled(f['p']):
        # bit sets handed to a synchronisation primitive: representative values instead of a symbol
        for i in range(1, f['argc'] + 1):
            if db.tys[f['locals'][i]]['s'] == 'u8':
                n = []
                for s0 in sts:
                    for x in (1, 2, 3):
                        s2 = s0.clone()
                        s2.mem[('L', 0, i)] = C(x)
                        s2.path = (s2.path[0], s2.path[1] + (('arg', '%d = %d' % (i, x)),))
                        n.append(s2)
                sts = n
    try:
        for s0 in sts: e.run(s0)
    except Budget:
        inc = 1
    for p in e.panics:
        g.add(p.path[0], p.path[1], g.node('end'))
    rty = f['locals'][0]
    for fs in e.unwound:
        if 'taint' in fs.mon: g.add(fs.path[0], fs.path[1] + (('*',),), g.node('end'))
        else:
            # fields of an exclusively borrowed object are not shared: a caller that catches the panic must not rely on them
            fw = tuple(l for l in e.final_writes(fs) if not re.fullmatch(r'(self|arg\d+)[.\d_]*', str(l[1])))
            g.add(fs.path[0], fs.path[1] + fw + tuple(('handles', n, '+%d' % k) for n, k in fs.mon.get('rc', ())) + (('unwinds',),), g.node('end'))
    for fs, v in e.finals:
        if e.unwind: continue
        if 'taint' in fs.mon:
            g.add(fs.path[0], fs.path[1] + (('*',),), g.node('end'))
            continue
        term = e.tterm(fs, v, rty)
        g.add(fs.path[0], fs.path[1] + e.final_writes(fs) + tuple(('handles', n, '+%d' % k) for n, k in fs.mon.get('rc', ())) + (('ret', term),), g.node('end'))
    assume_positive(g, db, adt, f)
    return e, g, inc

# types whose only constructor panics unless the given capacity is positive (that it does is itself judged)
POSITIVE = re.compile(r'futures_util::stream::(try_)?stream::(try_)?(ready_)?chunks::(Try)?(Ready)?Chunks')

def assume_positive(g, db, adt, f):
    """drops the paths on which such a capacity is zero"""
    t = db.tys[f['self']] if f.get('self') is not None else None
    while t is not None and t['k'] in ('ref', 'ptr'): t = db.tys[t['of']]
    if t is None or t['k'] != 'adt' or not t.get('v') or not POSITIVE.fullmatch(adt): return
    names = {'*self.%d' % i for i, (_, ft) in enumerate(t['v'][0][2]) if db.tys[ft]['s'] == 'usize'}
    for n, es in g.edges.items():
        g.edges[n] = {(tuple(l for l in ls if not (l[0] == 'if' and l[1] in names and l[2] == '!0')), d) for ls, d in es
                      if not any(l[0] == 'if' and l[1] in names and l[2] == '0' for l in ls)}

class UnitResult:
    __slots__ = ('key', 'p', 'sp', 'dfa', 'inc', 'err', 'entered', 'opaque', 'fresh', 'steps', 'pub')

_DB = None
def all_units(db):
    """key -> function"""
    out = {}
    for k in db.roots:
        if not is_unit(db, k): continue
        q = strip_generics(db.fns[k]['p'])
        n = 1
        key = q
        while key in out:
            n += 1
            key = '%s #%d' % (q, n)
        out[key] = k
    return out

# where state outlives a panic in user code: it is shared with other tasks or handles, or a guard protects it
PANIC_FILES = ('futures-util/src/future/future/shared.rs', 'futures-util/src/future/future/remote_handle.rs', 'futures-util/src/future/future/catch_unwind.rs',
               'futures-util/src/stream/stream/catch_unwind.rs', 'futures-util/src/stream/futures_unordered/', 'futures-util/src/stream/stream/flatten_unordered.rs',
               'futures-util/src/lock/', 'futures-util/src/io/split.rs', 'futures-util/src/stream/stream/split.rs', 'futures-util/src/abortable.rs',
               'futures-util/src/io/read_line.rs', 'futures-util/src/io/read_to_string.rs', 'futures-util/src/io/read_to_end.rs', 'futures-util/src/io/lines.rs',
               'futures-util/src/io/read_until.rs',
               'futures-executor/src/', 'futures-channel/src/', 'futures-core/src/task/', 'futures-task/src/')

def panic_scope(sp): return sp.split(':')[0].startswith(PANIC_FILES)

def panicking(dfa):
    """only the paths on which a panic passes through"""
    pre = {}
    good = set()
    for n, row in dfa.items():
        for l, d in row.items():
            pre.setdefault(d, []).append(n)
            if l == ('unwinds',) or l == ('*',): good.add(n)
    todo = list(good)
    while todo:
        for p in pre.get(todo.pop(), ()):
            if p not in good: good.add(p); todo.append(p)
    if 0 not in good: return {}
    return {n: {l: d for l, d in row.items() if d in good or l in (('unwinds',), ('*',))} for n, row in dfa.items()}

def one(job):
    key, k, tmo, panic = job
    f = _DB.fns[k]
    r = UnitResult()
    r.key, r.p, r.sp, r.pub = key, f['p'], f['sp'], bool(f.get('pub') or f.get('tr'))
    r.dfa = {}; r.err = None; r.inc = 0; r.entered = set(); r.opaque = set(); r.fresh = set(); r.steps = 0
    def al(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM, al)
    signal.alarm(tmo)
    try:
        e, g, r.inc = explore_unit(_DB, k, PanicUnit if panic else Unit)
        r.dfa = minimise(determinise(g)) if not panic or e.unwound else {}
        if panic and r.dfa: r.dfa = minimise(p) if (p := panicking(r.dfa)) else {}
        r.entered, r.opaque, r.fresh, r.steps = e.entered - {k}, e.opaque_seen, e.fresh_opaque, e.steps
    except TimeoutError:
        r.err = 'timeout'
    except Exception:
        r.err = traceback.format_exc()[-600:]
    finally:
        signal.alarm(0)
    return r

def explore_units(db, units, tmo=60, panic=False):
    global _DB
    _DB = db
    js = [(key, k, tmo, panic) for key, k in units.items()]
    js.sort(key=lambda j: 0 if 'nordered' in j[0] else 1)
    with get_context('fork').Pool(os.cpu_count() or 4) as p:
        return p.map(one, js, chunksize=4)
