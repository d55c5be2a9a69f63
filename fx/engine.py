"""Path-sensitive abstract interpreter (typestate dataflow) over extracted MIR.

The interpreter computes, by a worklist fixpoint over hashed abstract states, every abstract state a
function can be in.  Values are constants, aggregates with a known variant, references to abstract
locations, or opaque symbols.  Facts (variant of a symbol, truth of a comparison, emptiness of a
container) are recorded when control flow tests them.  Loops converge because states are canonicalised
(dead locals dropped, unreachable symbols collected, the rest renumbered) at every join block.
No path is handed to a solver and nothing is executed.
"""
import sys, re

U = ('u',)
UNIT = ('a', None, 0, (), None)

def C(n): return ('c', n)

class Budget(Exception):
    pass

class State:
    __slots__ = ('mem', 'facts', 'tags', 'org', 'frames', 'mon', 'trace', 'next', 'path')

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.tags = dict(self.tags)
        s.org = dict(self.org)
        s.frames = list(self.frames)
        s.mon = dict(self.mon)
        s.trace = self.trace
        s.next = self.next
        s.path = self.path
        return s

    def fresh(self, org=None):
        n = self.next
        self.next += 1
        if org is not None:
            self.org[n] = org
        return ('s', n)

def new_state():
    s = State()
    s.mem = {}; s.facts = {}; s.tags = {}; s.org = {}; s.frames = []; s.mon = {}
    s.trace = None; s.next = 1; s.path = None
    return s

def atoms(x, out):
    """int / str atoms of a symbol id"""
    if isinstance(x, int) or isinstance(x, str):
        out.append(x)
    elif isinstance(x, tuple):
        # structural ids: ('d', id, tid) discriminant; ('op', op, va, vb); ('call', name, val...); (base, elem)
        h = x[0]
        if h == 'd':
            atoms(x[1], out)
        elif h == 'op' or h == 'call':
            for v in x[2:]:
                vatoms(v, out)
        else:
            atoms(h, out)

def vatoms(v, out):
    k = v[0]
    if k == 's':
        atoms(v[1], out)
    elif k == 'a':
        for _, w in v[3]:
            vatoms(w, out)
        if v[4] is not None:
            atoms(v[4], out)
    elif k == 'r':
        ratoms(v[1], out)

def ratoms(root, out):
    if root[0] == 'D':
        atoms(root[1], out)
    elif root[0] == 'H':
        out.append(root)

class Ren:
    def __init__(self, m):
        self.m = m
        self.cache = {}
    def id(self, x):
        if isinstance(x, int):
            return self.m[x]
        if isinstance(x, str):
            return x
        r = self.cache.get(x)
        if r is None:
            h = x[0]
            if h == 'd':
                r = ('d', self.id(x[1]), x[2])
            elif h == 'op' or h == 'call':
                r = (h, x[1]) + tuple(self.val(v) for v in x[2:])
            else:
                r = (self.id(h), x[1])
            self.cache[x] = r
        return r
    def root(self, r):
        if r[0] == 'D':
            return ('D', self.id(r[1]))
        if r[0] == 'H':
            return self.m[r]
        return r
    def val(self, v):
        k = v[0]
        if k == 's':
            return ('s', self.id(v[1]))
        if k == 'a':
            if not v[3] and v[4] is None:
                return v
            return ('a', v[1], v[2], tuple((e, self.val(w)) for e, w in v[3]), None if v[4] is None else self.id(v[4]))
        if k == 'r':
            return ('r', self.root(v[1]), v[2])
        return v
    def org(self, o):
        # origins: tuples possibly containing ('val', v)
        return tuple(self.val(x[1]) and ('val', self.val(x[1])) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'val' else x for x in o)

INT_OPS = {
    'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
    'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
    'Shl': lambda a, b: (a << b) & ((1 << 64) - 1), 'Shr': lambda a, b: a >> b,
    'Div': lambda a, b: a // b if b else 0, 'Rem': lambda a, b: a % b if b else 0,
    'Eq': lambda a, b: int(a == b), 'Ne': lambda a, b: int(a != b), 'Lt': lambda a, b: int(a < b),
    'Le': lambda a, b: int(a <= b), 'Gt': lambda a, b: int(a > b), 'Ge': lambda a, b: int(a >= b),
    'AddUnchecked': lambda a, b: a + b, 'SubUnchecked': lambda a, b: a - b,
    'ShlUnchecked': lambda a, b: (a << b) & ((1 << 64) - 1), 'ShrUnchecked': lambda a, b: a >> b,
}
CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}
NEG = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le'}
SWAP = {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}

def opargs(v):
    """(operation, operands) of a computed number"""
    return v[1][1:] if v[0] == 's' and isinstance(v[1], tuple) and v[1][:1] == ('op',) and len(v[1]) == 4 else None

def depth(v, d=0):
    if d > 6: return d
    k = v[0]
    if k == 's':
        x = v[1]
        if isinstance(x, tuple) and x[0] in ('op', 'call'):
            return max([depth(w, d + 1) for w in x[2:]] + [d + 1])
        return d
    if k == 'a':
        return max([depth(w, d) for _, w in v[3]] + [d])
    return d

def _intbase(x):
    o = []
    atoms(x, o)
    m = 0
    for a in o:
        if isinstance(a, int) and a > m:
            m = a
    return m

def idepth(x):
    n = 0
    while isinstance(x, tuple) and x[0] not in ('d', 'op', 'call'):
        x = x[0]
        n += 1
    return n

# a function pointer inside an evaluated constant
FNPTR = re.compile(r'\{(?:[\w]+::)*(\w+)(?:::<.*>)? as (?:for<.*> )?(?:unsafe )?fn\(')

class Engine:
    max_steps = 400000
    heap_limit = 8
    int_limit = 3
    unwind = False
    slices = False

    def __init__(self, db):
        self.db = db
        self.models = {}
        self.visited = set()
        self.work = []
        self.outcomes = []
        self.steps = 0
        self.addsites = {}
        self.cur_line = None
        self.entered = set()
        self.max_depth = 60
        self.callsites = 0
        self.incomplete = False
        self.graph = None
        self.run_id = 0

    # ------------------------------------------------------------------ hooks (override)
    def expand(self, st, desc, name):
        return True
    def on_call(self, st, name, desc, args, argtys, dty):
        """return None for default handling or a list of (state, value)"""
        return None
    def on_event(self, st, kind, *data):
        pass
    def on_drop(self, st, tid, val, loc):
        pass
    def on_drop_enter(self, st, tid, val, loc):
        """before running a workspace Drop impl; return True to treat as a leaf"""
        return False
    def on_return(self, st, val):
        self.outcomes.append((st, val))
    def on_unwound(self, st):
        pass
    def on_diverge(self, st, name):
        pass
    def on_write(self, st, loc, val):
        pass
    def mon_ren(self, mon, ren):
        """rename symbol ids in monitor state"""
        return mon
    def mon_atoms(self, mon, out):
        pass

    # ------------------------------------------------------------------ memory
    def default(self, root):
        if root[0] == 'D':
            return ('s', (root[1], '*'))
        return U

    def step_value(self, st, v, e):
        k = v[0]
        if k == 'a':
            for e2, w in v[3]:
                if e2 == e:
                    return w
            if v[4] is not None:
                return ('s', (v[4], e))
            return U
        if k == 's':
            if idepth(v[1]) > 20:
                return st.fresh(('deep',))
            return ('s', (v[1], e))
        if k == 'u':
            return U
        return v  # newtype-ish projection of a scalar / pointer

    def read(self, st, loc):
        root, path = loc
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
        for e in path:
            v = self.step_value(st, v, e)
        return v

    def rd(self, st, loc):
        """read and replace symbols that are known constants"""
        return self.known(st, self.read(st, loc))

    def known(self, st, v):
        if v[0] == 's':
            f = st.facts.get(v[1])
            if f is not None and f[0] == '=':
                return ('c', f[1])
        return v

    def _set(self, st, v, path, i, val):
        if i == len(path):
            return val
        e = path[i]
        k = v[0]
        if k == 'a':
            old = self.step_value(st, v, e)
            nv = self._set(st, old, path, i + 1, val)
            var = v[2]
            if e[0] != 'e' and isinstance(e[0], int) and e[0] != v[2] and v[4] is None and not v[3]:
                var = e[0]
            fl = [(e2, w) for e2, w in v[3] if e2 != e]
            fl.append((e, nv))
            fl.sort(key=repr)
            return ('a', v[1], var, tuple(fl), v[4])
        if k == 's':
            nv = self._set(st, ('s', (v[1], e)), path, i + 1, val)
            f = st.facts.get(v[1])
            var = f[1] if f is not None and f[0] == 'v' else (e[0] if isinstance(e[0], int) else 0)
            return ('a', None, var, ((e, nv),), v[1])
        nv = self._set(st, U, path, i + 1, val)
        return ('a', None, e[0] if isinstance(e[0], int) else 0, ((e, nv),), None)

    def write(self, st, loc, val):
        root, path = loc
        if path:
            for e in path:
                if e[0] == 'e':
                    return   # element of an opaque sequence: not tracked
            v = st.mem.get(root)
            if v is None:
                v = self.default(root)
            val = self._set(st, v, path, 0, val)
        st.mem[root] = val

    def deref(self, st, v):
        """location a pointer value refers to"""
        k = v[0]
        if k == 'r':
            return (v[1], v[2])
        if k == 's':
            return (('D', v[1]), ())
        if k == 'a':
            # pointer wrapped in newtypes (Pin, Box, NonNull ...)
            if v[3]:
                return self.deref(st, v[3][0][1])
            if v[4] is not None:
                return (('D', v[4]), ())
        if k == 'c':
            return (('D', 'null%d' % v[1]), ())
        return (('D', 'undef'), ())

    def is_ptr_wrap(self, tid):
        t = self.db.tys[tid]
        return t['k'] == 'adt' and t['def'] in ('core::ptr::unique::Unique', 'core::ptr::non_null::NonNull')

    def loc(self, st, place):
        d = len(st.frames) - 1
        root = ('L', d, place[0])
        path = ()
        var = None
        n = len(place)
        i = 1
        while i < n:
            e = place[i]
            i += 1
            if e == '*':
                v = self.read(st, (root, path))
                root, path = self.deref(st, v)
                var = None
            elif e == 'oc':
                pass
            elif e[0] == 'v':
                var = e[1]
            elif e[0] == 'i':
                iv = self.rd(st, (('L', d, e[1]), ()))
                path = path + (('e', iv if iv[0] == 'c' else ('s', '?')),)
            elif e[0] == 'ci':
                path = path + (('e', ('c', (-1 if e[2] else 0) * e[1] if e[2] else e[1])),)
            elif e[0] == 'sub':
                path = path + (('e', ('s', 'sub')),)
            else:
                if self.is_ptr_wrap(e[1]) and var is None:
                    # Box -> Unique -> NonNull: the box value is its pointer
                    continue
                path = path + ((var if var is not None else 0, e[0]),)
                var = None
        return (root, path)

    # ------------------------------------------------------------------ operands / rvalues
    def konst(self, st, o):
        if 'n' in o:
            return ('c', int(o['n']))
        if 'f' in o:
            return ('fn', o['t'])
        if 'cf' in o:
            fl = tuple(((o['cv'], i), self.konst(st, x)) for i, x in enumerate(o['cf']))
            return ('a', None, o['cv'], fl, None)
        if 'prom' in o:
            return ('s', 'prom:%s:%d' % (o['pk'], o['prom'])) if not self.prom_value(st, o) else self.prom_value(st, o)
        k = o.get('k', '')
        if isinstance(k, str) and k.startswith('{transmute(0x0000000000000000): std::option::Option<'):
            return ('a', None, 0, (), None)
        if o.get('rt'):
            return ('c', 0)
        m = FNPTR.match(k) if isinstance(k, str) else None
        if m: return ('s', 'K:fn ' + m.group(1))
        return ('s', 'K:' + str(k))

    def prom_value(self, st, o):
        """promoted constants: evaluate simple ones (aggregates of constants)"""
        key = (o['pk'], o['prom'])
        cache = self.__dict__.setdefault('_prom', {})
        if key in cache:
            r = cache[key]
        else:
            r = None
            f = self.db.fns.get(o['pk'])
            pb = f.get('prom') if f else None
            b = pb[o['prom']] if pb and o['prom'] < len(pb) else None
            if b is not None:
                env = {}
                ok = True
                def pop(x):
                    if 'c' in x or 'm' in x:
                        pl = x.get('c') or x.get('m')
                        return env.get(pl[0]) if len(pl) == 1 else None
                    return self.konst(st, x)
                def fnptr(x, v):
                    n = x['f']['p'].rsplit('::', 1)[-1] if isinstance(x.get('f'), dict) else None
                    return ('s', 'K:fn ' + n) if n else v
                n, steps = 0, 0
                while ok:
                    bb = b['bb'][n]
                    steps += 1
                    for s in bb[0]:
                        if s[0] == 'x':
                            continue
                        if s[0] != '=' or len(s[1]) != 1:
                            ok = False; break
                        rv = s[2]
                        if rv[0] == 'use':
                            env[s[1][0]] = pop(rv[1])
                        elif rv[0] == 'cast' and rv[1] == 'PointerCoercion' and pop(rv[2]) is not None:
                            env[s[1][0]] = fnptr(rv[2], pop(rv[2]))
                        elif rv[0] == 'agg' and rv[1] in ('adt', 'tuple', 'array'):
                            fl = []
                            for i, x in enumerate(rv[4]):
                                w = pop(x)
                                if w is None: ok = False; break
                                fl.append(((rv[2], i) if rv[1] != 'array' else ('e', ('c', i)), w))
                            env[s[1][0]] = ('a', rv[3] if rv[3] >= 0 else None, rv[2], tuple(fl), None)
                        elif rv[0] == 'ref' and len(rv[2]) == 1 and env.get(rv[2][0]) is not None:
                            env[s[1][0]] = ('promref', env[rv[2][0]])
                        elif rv[0] == 'ref' and len(rv[2]) == 2 and rv[2][1] == '*' and env.get(rv[2][0]) is not None and env[rv[2][0]][0] == 'promref':
                            env[s[1][0]] = env[rv[2][0]]
                        else:
                            ok = False; break
                    t = bb[1]
                    if not ok or t[0] == 'ret': break
                    # a call of a constant function outside the repository: its result is a structure of its arguments
                    if t[0] == 'call' and steps < 20 and len(t[3]) == 1 and t[4] is not None and t[4] >= 0 and isinstance(t[1].get('f'), dict) and 'k' not in t[1]['f']:
                        al = [pop(x) for x in t[2]]
                        if None in al or any(x[0] == 'promref' for x in al): ok = False; break
                        env[t[3][0]] = ('s', ('call', t[1]['f']['p'].rsplit('::', 2)[-2].replace('RawWakerVTable', 'vt')) + tuple(al))
                        n = t[4]
                    else: ok = False
                if ok and env.get(0) is not None:
                    r = env[0]
            cache[key] = r
        if r is None:
            return None
        n = [0]
        def place(v):
            if v[0] == 'promref':
                root = ('D', 'prom:%s:%d' % key + (':%d' % n[0] if n[0] else ''))
                n[0] += 1
                w = place(v[1])
                if root not in st.mem: st.mem[root] = w
                return ('r', root, ())
            if v[0] == 'a': return v[:3] + (tuple((k, place(w)) for k, w in v[3]),) + v[4:]
            return v
        r = place(r)
        return r

    def operand(self, st, o):
        if 'c' in o:
            return self.rd(st, self.loc(st, o['c']))
        if 'm' in o:
            l = self.loc(st, o['m'])
            v = self.rd(st, l)
            if l[0][0] == 'L':
                if not l[1]:
                    st.mem[l[0]] = U
                elif all(e[0] != 'e' for e in l[1]):
                    self.write(st, l, U)
            elif v[0] in ('s', 'a'):
                self.write(st, l, U)
            return v
        return self.konst(st, o)

    def binop(self, st, op, a, b, site):
        if op.endswith('WithOverflow'):
            r = self.binop(st, op[:-12], a, b, site)
            return ('a', None, 0, (((0, 0), r), ((0, 1), C(0))), None)
        if op == 'Offset':
            return st.fresh(('offset',))
        if op == 'Cmp':
            return ('s', ('op', 'Cmp', a, b))
        if a[0] == 'c' and b[0] == 'c':
            f = INT_OPS.get(op)
            if f:
                r = f(a[1], b[1])
                if op == 'Add' and r > self.int_limit and a[1] <= self.int_limit and b[1] <= self.int_limit:
                    return self.counter(st)          # counters are widened above a fixed bound
                if op in ('Add', 'Sub', 'Mul'):
                    ss = self.addsites.setdefault(site, set())
                    ss.add(r)
                    if len(ss) > 12:
                        return st.fresh(('arith',))
                return ('c', r)
        if op in CMP:
            return self.cmp(st, op, a, b)
        if op == 'Add' and a[0] == 's' and b[0] == 'c' and 0 < b[1] <= self.int_limit and st.facts.get(('call', 'cnt', a)) == ('=', 1):
            return self.counter(st)
        if op in ('BitAnd', 'BitOr', 'BitXor') and a[0] == 'c' and b[0] != 'c':
            a, b = b, a
        if op == 'BitAnd' and b == ('c', 0):
            return ('c', 0)
        if op in ('BitOr', 'BitXor', 'Sub') and b == ('c', 0) or op == 'Add' and b == ('c', 0) and not self.item_derived(st, a):
            return a
        if op == 'Add':
            r = self.sum_of(st, a, b) or self.sum_of(st, b, a)
            if r is not None: return r
        if op == 'Add' and a == ('c', 0):
            return b
        if op in ('Add', 'Sub'):
            x, y = opargs(a), opargs(b)
            if op == 'Add' and y and y[0] == 'Sub' and y[2] == a: return y[1]
            if op == 'Add' and x and x[0] == 'Sub' and x[2] == b: return x[1]
            if op == 'Sub' and x and x[0] == 'Add' and b in x[1:]: return x[1] if x[2] == b else x[2]
        if depth(a) + depth(b) > 3:
            return st.fresh(('arith', op))
        v = ('s', ('op', op, a, b))
        return self.known(st, v)

    def counter(self, st):
        """a counter of steps past the bound: some number that is not zero (2^64 steps do not happen)"""
        v = st.fresh(('arith',))
        st.facts[v[1]] = ('!=', frozenset([0]))
        st.facts[('call', 'cnt', v)] = ('=', 1)
        return v

    def cmp(self, st, op, a, b):
        if a == b and a[0] in ('s', 'c'):
            return C(1 if op in ('Eq', 'Le', 'Ge') else 0)
        if a[0] == 'r' and b[0] == 'r':
            if a == b:
                return C(1 if op == 'Eq' else 0)
        if a[0] == 'a' and b[0] == 'a' and op in ('Eq', 'Ne') and not a[3] and not b[3] and a[4] is None and b[4] is None:
            return C(int((a[2] == b[2]) == (op == 'Eq')))
        if a[0] == 'c' and b[0] != 'c':
            a, b, op = b, a, SWAP[op]
        # facts on a
        if a[0] == 's' and b[0] == 'c' and op in ('Eq', 'Ne'):
            f = st.facts.get(a[1])
            if f is not None and f[0] == '!=' and b[1] in f[1]:
                return C(0 if op == 'Eq' else 1)
        # no container holds that many elements
        if b == ('c', (1 << 64) - 1) and op in ('Lt', 'Ge', 'Eq', 'Ne') and a[0] == 's' and isinstance(a[1], tuple) and a[1][:2] == ('call', 'len'):
            return C(1 if op in ('Lt', 'Ne') else 0)
        # unsigned comparisons against 0
        if b == ('c', 0) and op in ('Lt', 'Ge') and a[0] == 's' and self.unsigned_hint(a):
            return C(0 if op == 'Lt' else 1)
        if b == ('c', 0) and op in ('Gt', 'Le') and a[0] == 's' and self.unsigned_hint(a):
            op = 'Ne' if op == 'Gt' else 'Eq'
        if depth(a) + depth(b) > 4:
            return st.fresh(('cmp', op))
        # canonical orientation: store with Eq / Lt / Le only
        neg = False
        if op in ('Ne', 'Gt', 'Ge'):
            op = NEG[op]; neg = True
        if op == 'Eq' and repr(a) > repr(b) and b[0] != 'c':
            a, b = b, a
        sid = ('op', op, a, b)
        f = st.facts.get(sid)
        if f is not None and f[0] == '=':
            return C(f[1] ^ (1 if neg else 0))
        r = self.implied(st, op, a, b)
        if r is not None:
            return C(r ^ (1 if neg else 0))
        v = ('s', sid)
        return ('s', ('op', 'Not', v)) if neg else v

    def implied(self, st, op, a, b):
        """simple order reasoning from recorded comparison facts"""
        if op == 'Lt':
            # b<a, b<=a false..., a<b
            f = st.facts.get(('op', 'Le', b, a))
            if f is not None and f[0] == '=':
                return 1 - f[1]
            f = st.facts.get(('op', 'Lt', b, a))
            if f is not None and f == ('=', 1):
                return 0
            f = st.facts.get(('op', 'Le', a, b))
            if f is not None and f == ('=', 0):
                return 0
        elif op == 'Le':
            f = st.facts.get(('op', 'Lt', b, a))
            if f is not None and f[0] == '=':
                return 1 - f[1]
            f = st.facts.get(('op', 'Lt', a, b))
            if f is not None and f == ('=', 1):
                return 1
        elif op == 'Eq':
            for x, y in ((a, b), (b, a)):
                f = st.facts.get(('op', 'Lt', x, y))
                if f is not None and f == ('=', 1):
                    return 0
                f = st.facts.get(('op', 'Le', x, y))
                if f is not None and f == ('=', 0):
                    return 0
        return None

    def set_len0(self, st, v):
        """the container v turns out to be empty; False if that contradicts a recorded comparison with its length"""
        if not self.assume(st, ('s', ('call', 'is_empty', v)), 1):
            return False
        ln = ('s', ('call', 'len', v))
        for sid, f in list(st.facts.items()):
            if isinstance(sid, tuple) and sid[0] == 'op' and sid[1] in ('Lt', 'Le', 'Eq') and f[0] == '=' and ln in sid[2:]:
                a, b = [C(0) if x == ln else self.known(st, x) for x in sid[2:4]]
                if a[0] == 'c' and b[0] == 'c':
                    if INT_OPS[sid[1]](a[1], b[1]) != f[1]: return False
                elif a == C(0):
                    if sid[1] == 'Lt' and f[1] == 0 and not self.assume(st, b, 0): return False
                    if sid[1] == 'Lt' and f[1] == 1 and not self.assume_ne(st, b, 0): return False
                    if sid[1] == 'Le' and f[1] == 0: return False
                elif b == C(0):
                    if sid[1] == 'Le' and f[1] == 1 and not self.assume(st, a, 0): return False
                    if sid[1] == 'Le' and f[1] == 0 and not self.assume_ne(st, a, 0): return False
                    if sid[1] == 'Lt' and f[1] == 1: return False
        return True

    LEN_LIMIT = 3

    def len_of(self, st, v):
        """known length of a container, or None"""
        x = self.known(st, ('s', ('call', 'len', v)))
        return x[1] if x[0] == 'c' else None

    def set_len(self, st, v, n):
        """n: a small length, or None for 'not empty'"""
        if n is not None and n <= self.LEN_LIMIT:
            st.facts[('call', 'len', v)] = ('=', n)
            st.facts[('call', 'is_empty', v)] = ('=', 1 if n == 0 else 0)
        else:
            st.facts[('call', 'is_empty', v)] = ('=', 0)
            st.facts[('call', 'len', v)] = ('!=', frozenset([0]))

    def grown(self, st, old, m):
        n = self.len_of(st, old)
        v = st.fresh(('mut', m))
        self.set_len(st, v, None if n is None else n + 1)
        self.same_name(st, old, v)
        return v

    def shrunk(self, st, old, m):
        n = self.len_of(st, old)
        v = st.fresh(('mut', m))
        if n is not None and n >= 1:
            self.set_len(st, v, n - 1)
        self.same_name(st, old, v)
        return v

    def same_name(self, st, old, v):
        pass

    def nonnull(self, st, v):
        return False

    def assume_ne_cas(self, st, r, expected, op):
        if op == 'compare_exchange' and expected[0] == 'c':
            self.assume_ne(st, r, expected[1])

    signed = False
    def unsigned_hint(self, a):
        return not self.signed

    def signed_ty(self, tid):
        t = self.db.tys[tid]
        return t['k'] == 'int' and t['s'].startswith('i')

    def is_signed(self, fn, o):
        p = o.get('m') or o.get('c')
        if not isinstance(p, list) or len(p) != 1: return False
        return self.signed_ty(self.db.fns[fn]['locals'][p[0]])

    def width(self, ty):
        t = self.db.tys[ty]
        if t['k'] != 'int': return None
        n = t['s'].lstrip('iu')
        return 64 if n == 'size' else int(n) if n.isdigit() else None

    def unop(self, st, op, a):
        if op == 'Not':
            if a[0] == 'c':
                if a[1] in (0, 1):
                    return C(1 - a[1])
                return C(~a[1] & ((1 << 64) - 1))
            if a[0] == 's' and isinstance(a[1], tuple) and a[1][0] == 'op' and a[1][1] == 'Not':
                return self.known(st, a[1][2])
            if depth(a) > 4:
                return st.fresh(('not',))
            return self.known(st, ('s', ('op', 'Not', a)))
        if op == 'PtrMetadata':
            if a[0] not in ('s', 'r'): return st.fresh(('un', op))
            v = self.rd(st, self.deref(st, a))
            if v[0] == 'a' and v[4] is None and v[3] and all(x[0][0] == 'e' for x in v[3]): return C(len(v[3]))
            return self.known(st, ('s', ('call', 'len', v)))
        if op == 'Neg' and a[0] == 'c':
            return C(-a[1])
        if op == 'Neg' and a[0] == 's':
            return self.binop(st, 'Sub', C(0), a, ('neg', self.cur_line))
        return st.fresh(('un', op))

    def discr(self, st, loc, tid):
        v = self.read(st, loc)
        return self.discr_val(st, v, tid)

    def variants(self, tid):
        t = self.db.tys[tid]
        if t['k'] == 'adt':
            if t['ak'] != 'enum':
                return None
            vs = t.get('v') or t.get('ev')
            if vs:
                return [(i, int(x[1])) for i, x in enumerate(vs)]
        return None

    def discr_val(self, st, v, tid):
        vs = self.variants(tid)
        if v[0] == 'a':
            if v[4] is not None and v[1] is None:
                f = st.facts.get(v[4])
            if vs:
                for i, d in vs:
                    if i == v[2]:
                        return C(d)
            return C(v[2])
        if v[0] == 's':
            f = st.facts.get(v[1])
            if f is not None and f[0] == 'v':
                if vs:
                    for i, d in vs:
                        if i == f[1]:
                            return C(d)
                return C(f[1])
            return ('s', ('d', v[1], tid))
        if v[0] == 'c':
            return v
        return st.fresh(('discr',))

    def rvalue(self, st, rv, place=None, site=None):
        k = rv[0]
        if k == 'use':
            return self.operand(st, rv[1])
        if k == 'ref':
            l = self.loc(st, rv[2])
            return ('r', l[0], l[1])
        if k == 'agg':
            kind, var, tid, ops = rv[1], rv[2], rv[3], rv[4]
            if kind == 'array':
                for o in ops: 
                    pass
                vals = [self.operand(st, o) for o in ops]
                return ('a', None, 0, tuple((('e', ('c', i)), v) for i, v in enumerate(vals)), None)
            if kind == 'rawptr':
                return self.operand(st, ops[0])
            vals = [self.operand(st, o) for o in ops]
            fl = tuple(((var, i), v) for i, v in enumerate(vals))
            return ('a', ('clo', tid) if kind == 'closure' and ops else None, var, fl, None)
        if k == 'cast':
            v = self.operand(st, rv[2])
            if rv[1] == 'IntToInt' and v[0] in 'cs':
                w = self.width(rv[3])
                p = rv[2].get('m') or rv[2].get('c')
                if w and isinstance(p, list) and len(p) == 1 and (self.width(self.db.fns[site[0]]['locals'][p[0]]) or 0) > w:
                    return self.binop(st, 'BitAnd', v, C((1 << w) - 1), site)
            return v
        if k == 'bin':
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            if rv[1] not in CMP: return self.binop(st, rv[1], a, b, site)
            self.signed = any(self.is_signed(site[0], o) for o in rv[2:4])
            try: return self.binop(st, rv[1], a, b, site)
            finally: self.signed = False
        if k == 'un':
            return self.unop(st, rv[1], self.operand(st, rv[2]))
        if k == 'discr':
            return self.discr(st, self.loc(st, rv[1]), rv[2])
        if k == 'rep':
            self.operand(st, rv[1])
            return st.fresh(('array',))
        if k == 'tls':
            return ('s', 'TLS:' + rv[1])
        return st.fresh(('rv', k))

    # ------------------------------------------------------------------ facts
    def assume(self, st, v, n):
        """v == n for a switched value; returns False if contradictory"""
        if v[0] == 'c':
            return v[1] == n
        if v[0] != 's':
            return True
        sid = v[1]
        f = st.facts.get(sid)
        if f is not None:
            if f[0] == '=':
                return f[1] == n
            if f[0] == '!=' and n in f[1]:
                return False
        if isinstance(sid, tuple):
            if sid[0] == 'd':
                vs = self.variants(sid[2])
                if vs:
                    for i, d in vs:
                        if d == n:
                            st.facts[sid[1]] = ('v', i)
                            self.on_refine(st, sid[1], i)
                            return True
                    return False
                st.facts[sid[1]] = ('v', n)
                return True
            if sid[0] == 'op':
                if sid[1] == 'Not':
                    return self.assume(st, sid[2], 1 - n)
                st.facts[sid] = ('=', n)
                if sid[1] == 'Eq':
                    a, b = sid[2], sid[3]
                    if b[0] == 'c':
                        if n == 1:
                            if not self.assume(st, a, b[1]):
                                return False
                        else:
                            if not self.assume_ne(st, a, b[1]):
                                return False
                if sid[1] == 'Lt' and n == 1 and sid[3] == ('c', 1):
                    if not self.assume(st, sid[2], 0):
                        return False
                if sid[1] == 'Lt' and n == 0 and sid[3] == ('c', 1):
                    if not self.assume_ne(st, sid[2], 0):
                        return False
                return True
        st.facts[sid] = ('=', n)
        self.link(st, sid, n, True)
        return True

    def assume_ne(self, st, v, n):
        if v[0] == 'c':
            return v[1] != n
        if v[0] != 's':
            return True
        sid = v[1]
        f = st.facts.get(sid)
        if f is not None:
            if f[0] == '=':
                return f[1] != n
            if f[0] == '!=':
                st.facts[sid] = ('!=', f[1] | {n})
                self.link(st, sid, n, False)
                return True
            return True
        if isinstance(sid, tuple) and sid[0] == 'op' and sid[1] == 'Not' and n in (0, 1):
            return self.assume(st, sid[2], n)
        st.facts[sid] = ('!=', frozenset([n]))
        self.link(st, sid, n, False)
        return True

    def link(self, st, sid, n, eq):
        """relate len()==0 and is_empty()"""
        if isinstance(sid, tuple) and sid[0] == 'call':
            if sid[1] == 'len' and n == 0:
                st.facts[('call', 'is_empty') + sid[2:]] = ('=', 1 if eq else 0)
            elif sid[1] == 'is_empty':
                if eq and n == 1 or (not eq and n == 0):
                    st.facts[('call', 'len') + sid[2:]] = ('=', 0)
                else:
                    o = ('call', 'len') + sid[2:]
                    if st.facts.get(o) is None:
                        st.facts[o] = ('!=', frozenset([0]))

    def shared_havoc(self, st, l):
        """contents of a lock after acquiring it: another thread may have changed them"""
        self.write(st, l, st.fresh(('guarded',)))

    def on_refine(self, st, sid, variant):
        pass

    # ------------------------------------------------------------------ canonicalisation
    def canon(self, st):
        db = self.db
        frames = st.frames
        nf = len(frames)
        order = []          # roots to visit
        keep = {}
        seen_roots = set()
        num = {}
        queue = []
        def visit_atom(a):
            if isinstance(a, int):
                if a not in num:
                    num[a] = len(num) + 1
            elif isinstance(a, tuple):   # ('H', n)
                if a not in seen_roots:
                    seen_roots.add(a)
                    queue.append(a)
        def visit_val(v):
            k = v[0]
            if k == 's':
                o = []
                atoms(v[1], o)
                for a in o: visit_atom(a)
            elif k == 'a':
                for _, w in v[3]:
                    visit_val(w)
                if v[4] is not None:
                    o = []
                    atoms(v[4], o)
                    for a in o: visit_atom(a)
            elif k == 'r':
                r = v[1]
                if r not in seen_roots:
                    seen_roots.add(r)
                    queue.append(r)
                    if r[0] == 'D':
                        o = []
                        atoms(r[1], o)
                        for a in o: visit_atom(a)
        mem = st.mem
        intd = [r for r in mem if r[0] == 'D' and not isinstance(r[1], str) and _intbase(r[1])]
        if len(intd) > self.heap_limit:
            # widening of unbounded heaps (pointer chasing): forget what is known about the oldest cells
            intd.sort(key=lambda r: _intbase(r[1]))
            for r in intd[:len(intd) - self.heap_limit]:
                del mem[r]
        # roots by liveness
        byframe = {}
        for r in mem:
            if r[0] == 'L':
                byframe.setdefault(r[1], []).append(r[2])
        for d in range(nf):
            fr = frames[d]
            if fr[0] == 'F':
                info = db.info(fr[1])
                if d == nf - 1:
                    live = info.live[fr[2]]
                else:
                    live = fr[7] if fr[7] is not None else ()
                for l in sorted(byframe.get(d, ())):
                    if l in live or (d == 0 and l == 0 and False):
                        r = ('L', d, l)
                        if r not in seen_roots:
                            seen_roots.add(r)
                            queue.append(r)
            else:
                for l in sorted(byframe.get(d, ())):
                    r = ('L', d, l)
                    if r not in seen_roots:
                        seen_roots.add(r); queue.append(r)
                if fr[0] == 'DROP':
                    for (l, t) in fr[1]:
                        if l[0] not in seen_roots:
                            seen_roots.add(l[0]); queue.append(l[0])
                            if l[0][0] == 'D':
                                o = []; atoms(l[0][1], o)
                                for a in o: visit_atom(a)
                elif fr[0] == 'WRAP':
                    for x in fr[1:]:
                        if isinstance(x, tuple) and x and x[0] in ('s', 'a', 'r'):
                            visit_val(x)
            # pending return destinations keep their roots
            if fr[0] == 'F' and fr[3] is not None:
                r = fr[3][0]
                if r[0] != 'L' and r not in seen_roots:
                    seen_roots.add(r); queue.append(r)
                    if r[0] == 'D':
                        o = []; atoms(r[1], o)
                        for a in o: visit_atom(a)
        mo = []
        self.mon_atoms(st.mon, mo)
        for a in mo: visit_atom(a)
        droots = [r for r in mem if r[0] == 'D']
        datoms = {}
        for r in droots:
            o = []
            atoms(r[1], o)
            datoms[r] = o
        iters = [k for k in st.facts if isinstance(k, tuple) and k[:2] == ('call', 'iterof')]
        qi = 0
        done = set()
        while True:
            while qi < len(queue):
                r = queue[qi]; qi += 1
                if r in done: continue
                done.add(r)
                v = mem.get(r)
                if v is not None:
                    visit_val(v)
            added = False
            cand = [r for r in droots if r not in done and all((not isinstance(a, int) or a in num) and (not isinstance(a, tuple) or a in seen_roots) for a in datoms[r])]
            if cand:
                if len(cand) > 1:
                    cand.sort(key=lambda r: tuple((0, num[a]) if isinstance(a, int) else (1, str(a)) for a in datoms[r]) + ((2, repr(r)) if not any(isinstance(a, int) for a in datoms[r]) else (2, _shape(r[1])),))
                for r in cand:
                    if r not in seen_roots:
                        seen_roots.add(r)
                    queue.append(r)
                added = True
            if iters:
                # an iterator not begun keeps what it iterates over
                ready = [k for k in iters if k[2][1] in num]
                if ready:
                    ready.sort(key=lambda k: num[k[2][1]])
                    iters = [k for k in iters if k not in ready]
                    for k in ready: visit_val(k[3])
                    added = True
            if not added:
                break
        # rename
        m = dict(num)
        hn = 0
        for r in queue:
            if r[0] == 'H' and r not in m:
                hn += 1
                m[r] = ('H', hn)
        for r in seen_roots:
            if r[0] == 'H' and r not in m:
                hn += 1
                m[r] = ('H', hn)
        ren = Ren(m)
        nm = {}
        for r in done:
            v = mem.get(r)
            if v is not None:
                nm[ren.root(r)] = ren.val(v)
        def okid(sid):
            o = []
            atoms(sid, o)
            for a in o:
                if isinstance(a, int):
                    if a not in m: return False
                elif isinstance(a, tuple):
                    if a not in m: return False
            return True
        nfacts = {}
        for sid, f in st.facts.items():
            if okid(sid):
                nfacts[ren.id(sid)] = f
        ntags = {}
        for sid, f in st.tags.items():
            if okid(sid):
                ntags[ren.id(sid)] = f
        norg = {}
        for sid, f in st.org.items():
            if okid(sid):
                norg[ren.id(sid)] = tuple(x for x in f if not (isinstance(x, tuple) and x and x[0] in ('s', 'a', 'r', 'val')))
        st.mem = nm
        st.facts = nfacts
        st.tags = ntags
        st.org = norg
        st.next = len(num) + 1
        fl = []
        for fr in frames:
            if fr[0] == 'F' and fr[3] is not None:
                fr = fr[:3] + ((ren.root(fr[3][0]), fr[3][1]),) + fr[4:]
            elif fr[0] == 'DROP':
                fr = ('DROP', tuple(((ren.root(l[0]), l[1]), t) for l, t in fr[1])) + fr[2:]
            elif fr[0] == 'WRAP':
                fr = tuple(ren.val(x) if isinstance(x, tuple) and x and x[0] in ('s', 'a', 'r') else x for x in fr)
            fl.append(fr)
        st.frames = fl
        st.mon = self.mon_ren(st.mon, ren)
        self.last_ren = ren

    def key(self, st):
        return (tuple(st.frames), frozenset(st.mem.items()), frozenset(st.facts.items()), frozenset(st.tags.items()),
                frozenset(st.org.items()), self.mon_key(st.mon))

    def mon_key(self, mon):
        return frozenset(mon.items())

    # ------------------------------------------------------------------ frames
    # 'F' frame: ('F', fnkey, bb, retloc, rettarget(bb in caller), unwind(bb in caller), callline, live-after-call-in-this-frame)
    def push_fn(self, st, k, args, retloc, target, unw, line):
        f = self.db.fns[k]
        self.entered.add(k)
        # record live set of the caller
        d = len(st.frames)
        if d:
            cf = st.frames[-1]
            if cf[0] == 'F':
                live = self.call_live(cf[1], target, unw)
                st.frames[-1] = cf[:7] + (live,)
        st.frames.append(('F', k, 0, retloc, target, unw, line, None))
        for i, a in enumerate(args):
            st.mem[('L', d, i + 1)] = a

    def call_live(self, k, target, unw):
        info = self.db.info(k)
        s = frozenset()
        if target is not None and target >= 0:
            s = frozenset(info.live[target])
        if unw is not None and unw >= 0 and self.unwind:
            s = s | frozenset(info.live[unw])
        return s

    def pop_locals(self, st, d):
        for r in [r for r in st.mem if r[0] == 'L' and r[1] == d]:
            del st.mem[r]

    def finish_call(self, st, val):
        """the top frame returned val"""
        fr = st.frames.pop()
        d = len(st.frames)
        self.pop_locals(st, d)
        return self.deliver(st, fr[3], fr[4], val)

    def deliver(self, st, retloc, target, val):
        """give val to the frame now on top"""
        while st.frames and st.frames[-1][0] == 'WRAP':
            w = st.frames.pop()
            self.pop_locals(st, len(st.frames))
            # ('WRAP', fnname, data, retloc, target)
            if w[1] == 'w_loop':
                return self.deliver_loop(st, w, val)
            if w[1] in ('w_chain', 'w_loopn', 'w_loopc'):
                return getattr(self, 'deliver_' + w[1][2:])(st, w, val)
            r = getattr(self, w[1])(st, val, w[2])
            if isinstance(r, list):
                out = []
                for s2, v2 in r:
                    out += self.deliver(s2, w[3], w[4], v2)
                return out
            val = r
            retloc, target = w[3], w[4]
        if not st.frames:
            self.on_return(st, val)
            return []
        top = st.frames[-1]
        if top[0] == 'DROP':
            return [st]
        if retloc is not None:
            self.write(st, retloc, val)
        if target is None or target < 0:
            return []
        st.frames[-1] = top[:2] + (target,) + top[3:7] + (None,)
        return [st]

    def w_not(self, st, val, data):
        return self.unop(st, 'Not', val)

    def unwind_state(self, st, unw):
        """continue st along the unwind edge of the top frame"""
        while True:
            if not st.frames:
                self.on_unwound(st)
                return []
            top = st.frames[-1]
            if top[0] == 'F':
                if unw is not None and unw >= 0:
                    st.frames[-1] = top[:2] + (unw,) + top[3:7] + (None,)
                    return [st]
                if unw in (-2, -3):
                    return []
                d = len(st.frames) - 1
                unw = top[5]
                st.frames.pop()
                self.pop_locals(st, d)
                continue
            if top[0] == 'WRAP' and top[1] == 'w_catch':
                st.frames.pop()
                self.pop_locals(st, len(st.frames))
                e = st.fresh(('panic payload',))
                val = ('a', None, 1, (((1, 0), e),), None)
                return self.deliver(st, top[3], top[4], val)
            if top[0] == 'DROP':
                # finish the remaining drops of this group, then continue unwinding
                unw = top[3]
                st.frames.pop()
                continue
            st.frames.pop()
            self.pop_locals(st, len(st.frames))
            unw = self.unwind_of(st.frames[-1]) if st.frames and st.frames[-1][0] == 'F' else -1

    # ------------------------------------------------------------------ main loop
    def run(self, st):
        self.work.append(st)
        while self.work:
            s = self.work.pop()
            self.advance(s)

    def advance(self, st):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                self.incomplete = True
                raise Budget('step budget exceeded')
            if not st.frames:
                return
            top = st.frames[-1]
            if top[0] == 'F':
                k = top[1]
                info = self.db.info(k)
                if info.join[top[2]]:
                    self.canon(st)
                    self.pre_key(st)
                    key = self.key(st)
                    if self.graph is not None:
                        self.graph.reach(st, (self.run_id, key))
                    if key in self.visited:
                        return
                    self.visited.add(key)
                nxt = self.block(st)
            elif top[0] == 'DROP':
                nxt = self.drop_step(st)
            else:
                raise RuntimeError('bad frame ' + repr(top))
            if not nxt:
                return
            for s in nxt[1:]:
                self.work.append(s)
            st = nxt[0]

    def pre_key(self, st):
        pass

    def block(self, st, start=0):
        top = st.frames[-1]
        f = self.db.fns[top[1]]
        bb = f['bb'][top[2]]
        d = len(st.frames) - 1
        for i in range(start, len(bb[0])):
            s = bb[0][i]
            k = s[0]
            if k == '=':
                self.cur_line = s[3]
                b = self.bool_cast(st, f, s[2])
                if b is not None:
                    # a truth value taken as a number: a test, with 0 or 1 for its outcomes
                    cond, out = self.loop_cond(st, b), []
                    for n in (0, 1):
                        s2 = st.clone()
                        if not self.assume(s2, b, n): continue
                        self.loop_branch(s2, b, n, cond)
                        l = self.loc(s2, s[1])
                        self.on_write(s2, l, C(n))
                        self.write(s2, l, C(n))
                        out += self.block(s2, i + 1)
                    return out
                v = self.rvalue(st, s[2], s[1], (top[1], top[2], s[3]))
                l = self.loc(st, s[1])
                self.on_write(st, l, v)
                self.write(st, l, v)
            elif k == 'x':
                st.mem.pop(('L', d, s[1]), None)
            elif k == 'sd':
                l = self.loc(st, s[1])
                v = self.read(st, l)
                if v[0] == 'a':
                    self.write(st, l, ('a', v[1], s[2], v[3], v[4]))
                else:
                    self.write(st, l, ('a', None, s[2], (), None))
            elif k == 'assume':
                v = self.operand(st, s[1])
                if not self.assume(st, v, 1):
                    return []
        return self.term(st, f, top, bb[1])

    def bool_cast(self, st, f, rv):
        """the unknown truth value this statement turns into a number, if it is one that does"""
        if rv[0] != 'cast' or rv[1] != 'IntToInt' or not self.slices: return None
        p = rv[2].get('m') or rv[2].get('c')
        if not p or len(p) != 1 or self.db.tys[f['locals'][p[0]]]['k'] != 'bool': return None
        v = self.operand(st, rv[2])
        return v if v[0] == 's' else None

    def goto(self, st, bb):
        top = st.frames[-1]
        st.frames[-1] = top[:2] + (bb,) + top[3:7] + (None,)
        return st

    def note(self, st, text):
        st.trace = (st.trace, text)

    def where(self, st, line=None):
        for fr in reversed(st.frames):
            if fr[0] == 'F':
                f = self.db.fns[fr[1]]
                return '%s:%s' % (f['sp'].rsplit(':', 1)[0], line if line is not None else self.cur_line)
        return '?'

    def term(self, st, f, top, t):
        k = t[0]
        if k == 'goto':
            return [self.goto(st, t[1])]
        if k == 'sw':
            self.cur_line = t[5]
            return self.switch(st, t)
        if k == 'ret':
            self.cur_line = t[1]
            d = len(st.frames) - 1
            v = self.rd(st, (('L', d, 0), ()))
            return self.finish_call(st, v)
        if k == 'call':
            self.cur_line = t[6]
            return self.call(st, t)
        if k == 'drop':
            self.cur_line = t[5]
            l = self.loc(st, t[1])
            ty = self.db.tys[t[2]]
            if not ty['nd']:
                return [self.goto(st, t[3])]
            live = self.call_live(top[1], t[3], t[4])
            st.frames[-1] = top[:2] + (t[3],) + top[3:7] + (live,)
            st.frames.append(('DROP', ((l, t[2]),), None, t[4]))
            return [st]
        if k == 'assert':
            v = self.operand(st, t[1])
            if not self.assume(st, v, 1 if t[2] else 0):
                return []
            return [self.goto(st, t[3])]
        if k == 'resume':
            return self.unwind_state(st, -1)
        return []

    def switch(self, st, t):
        v = self.operand(st, t[1])
        targets = [(int(n), b) for n, b in t[2]]
        if v[0] == 'c':
            n = v[1]
            for m, b in targets:
                if m == n or (n < 0 and (m & ((1 << 128) - 1)) == (n & ((1 << 128) - 1))):
                    return [self.goto(st, b)]
            return [self.goto(st, t[3])]
        out = []
        vals = None
        isbool = self.db.tys[t[4]]['k'] == 'bool'
        if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'd':
            vs = self.variants(v[1][2])
            if vs:
                vals = [dd for _, dd in vs]
        elif isbool:
            vals = [0, 1]
        if vals is not None:
            tm = dict(targets)
            for n in vals:
                b = tm.get(n, t[3])
                fb = self.db.fns[st.frames[-1][1]]['bb'][b]
                if not fb[0] and fb[1][0] == 'unreach':
                    continue
                s2 = st.clone()
                if self.assume(s2, v, n):
                    self.on_branch(s2, v, n)
                    out += [self.goto(s3, b) for s3 in self.at_most_one(s2, v, n)]
            return out
        for n, b in targets:
            s2 = st.clone()
            if self.assume(s2, v, n):
                self.on_branch(s2, v, n)
                out.append(self.goto(s2, b))
        fb = self.db.fns[st.frames[-1][1]]['bb'][t[3]]
        if not (not fb[0] and fb[1][0] == 'unreach'):
            ok = True
            for n, _ in targets:
                if not self.assume_ne(st, v, n):
                    ok = False
                    break
            if ok:
                self.on_branch(st, v, None)
                out.append(self.goto(st, t[3]))
        return out

    split_io = False

    def at_most_one(self, st, v, n):
        """a number found to be at most one is zero or one"""
        if not self.split_io: return [st]
        while v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'op' and v[1][1] == 'Not': v, n = v[1][2], 1 - n
        if v[0] != 's' or not isinstance(v[1], tuple) or v[1][0] != 'op': return [st]
        op, x, y = v[1][1:4]
        if not (n == 0 and (op, x) == ('Lt', C(1)) or n == 0 and (op, y) == ('Gt', C(1)) or n == 1 and (op, y) == ('Le', C(1)) or n == 1 and (op, x) == ('Ge', C(1))): return [st]
        z = y if x == C(1) else x
        if z[0] != 's': return [st]
        out = []
        for k in (0, 1):
            s2 = st.clone()
            if self.assume(s2, z, k): out.append(s2)
        return out

    def on_branch(self, st, v, n):
        pass

    # ------------------------------------------------------------------ drops
    def drop_step(self, st):
        fr = st.frames[-1]
        tasks = fr[1]
        if not tasks:
            st.frames.pop()
            # continue in frame below (its bb is already set)
            below = st.frames[-1] if st.frames else None
            if below is None:
                self.on_return(st, UNIT)
                return []
            if below[0] == 'F':
                st.frames[-1] = below[:7] + (None,)
            elif below[0] == 'WRAP':
                return self.deliver(st, None, None, UNIT)
            return [st]
        (loc, tid) = tasks[0]
        st.frames[-1] = ('DROP', tasks[1:]) + fr[2:]
        return self.drop_value(st, loc, tid)

    def add_tasks(self, st, tl):
        fr = st.frames[-1]
        st.frames[-1] = ('DROP', tuple(tl) + fr[1]) + fr[2:]

    def drop_value(self, st, loc, tid):
        t = self.db.tys[tid]
        if not t['nd']:
            return [st]
        v = self.read(st, loc)
        if v[0] == 'u':
            return [st]
        k = t['k']
        if v[0] == 'a' and v[1] and v[1][0] == 'arrinto' and k == 'adt':
            et = t['args'][0]
            if self.db.tys[et]['nd']:
                self.add_tasks(st, [((loc[0], loc[1] + (x[0],)), et) for x in v[3]])
            return [st]
        if k == 'adt':
            if t['def'] == 'alloc::boxed::Box':
                self.on_drop(st, tid, v, loc)
                inner = t['args'][0]
                self.write(st, loc, U)
                if v[0] in ('r', 's') or v[0] == 'a':
                    self.add_tasks(st, [(self.deref(st, v), inner)])
                return [st]
            if 'drop' in t:
                if t['drop'] >= 0:
                    leaf = self.on_drop_enter(st, tid, v, loc)
                    if leaf:
                        self.write(st, loc, U)
                        return [st]
                    # fields after Drop::drop
                    self.add_tasks(st, [(loc, ('fields', tid))] if False else [])
                    ft = self.field_tasks(st, loc, tid, v)
                    if ft is None:
                        ft = []
                    self.add_tasks(st, ft)
                    if len(st.frames) > self.max_depth or any(x[0] == 'F' and x[1] == t['drop'] for x in st.frames):
                        return [st]
                    self.push_fn(st, t['drop'], [('r', loc[0], loc[1])], None, None, fr_unw(st), self.cur_line)
                    return [st]
                self.on_drop(st, tid, v, loc)
                self.write(st, loc, U)
                return [st]
            if t['ak'] == 'enum':
                vs = t.get('v')
                if vs is None:
                    self.on_drop(st, tid, v, loc)
                    self.write(st, loc, U)
                    return [st]
                if v[0] == 's':
                    f = st.facts.get(v[1])
                    if f is None or f[0] != 'v':
                        leaf = self.on_drop_enter(st, tid, v, loc)
                        if leaf:
                            self.write(st, loc, U)
                            return [st]
                        out = []
                        for i, x in enumerate(vs):
                            s2 = st.clone()
                            s2.facts[v[1]] = ('v', i)
                            self.on_refine(s2, v[1], i)
                            ft = self.field_tasks(s2, loc, tid, v, i)
                            self.add_tasks(s2, ft)
                            out.append(s2)
                        return out
            if t.get('v') is None:
                self.on_drop(st, tid, v, loc)
                self.write(st, loc, U)
                return [st]
            if self.on_drop_enter(st, tid, v, loc):
                self.write(st, loc, U)
                return [st]
            ft = self.field_tasks(st, loc, tid, v)
            self.add_tasks(st, ft)
            return [st]
        if k == 'tuple':
            self.add_tasks(st, [((loc[0], loc[1] + ((0, i),)), a) for i, a in enumerate(t['args']) if self.db.tys[a]['nd']])
            return [st]
        if k == 'closure':
            self.add_tasks(st, [((loc[0], loc[1] + ((0, i),)), a) for i, a in enumerate(t['up']) if self.db.tys[a]['nd']])
            return [st]
        if k == 'coroutine' and v[0] == 'a':
            s = self.known(st, self.step_value(st, v, (0, len(t['up']))))
            if s in (C(0), U):
                self.add_tasks(st, [((loc[0], loc[1] + ((0, i),)), a) for i, a in enumerate(t['up']) if self.db.tys[a]['nd']])
                return [st]
            if s == C(1):
                return [st]
        self.on_drop(st, tid, v, loc)
        self.write(st, loc, U)
        return [st]

    def field_tasks(self, st, loc, tid, v, var=None):
        t = self.db.tys[tid]
        vs = t.get('v')
        if not vs:
            return []
        if var is None:
            if t['ak'] == 'enum':
                if v[0] == 'a':
                    var = v[2]
                else:
                    f = st.facts.get(v[1]) if v[0] == 's' else None
                    var = f[1] if f else 0
            else:
                var = 0
        if var >= len(vs):
            return []
        if t['def'] == 'core::mem::manually_drop::ManuallyDrop':
            return []
        return [((loc[0], loc[1] + ((var, i),)), ft) for i, (n, ft) in enumerate(vs[var][2]) if self.db.tys[ft]['nd']]

    # ------------------------------------------------------------------ calls
    def op_ty(self, st, o):
        if 't' in o:
            return o['t']
        pl = o.get('c') or o.get('m')
        if pl is None:
            return None
        f = self.db.fns[st.frames[-1][1]]
        if len(pl) == 1:
            return f['locals'][pl[0]]
        last = pl[-1]
        if isinstance(last, list) and isinstance(last[0], int):
            return last[1]
        if last == '*':
            # type of deref
            t = f['locals'][pl[0]] if len(pl) == 2 else None
            if len(pl) > 2 and isinstance(pl[-2], list) and isinstance(pl[-2][0], int):
                t = pl[-2][1]
            if t is not None:
                return self.db.tys[t].get('of')
        return None

    def place_ty(self, st, pl):
        return self.op_ty(st, {'c': pl})

    def call(self, st, t):
        self.callsites += 1
        fo = t[1]
        dest, target, unw = t[3], t[4], t[5]
        argtys = [self.op_ty(st, o) for o in t[2]]
        dty = self.place_ty(st, dest)
        if 'f' in fo:
            desc = fo['f']
            fv = None
        else:
            fv = self.operand(st, fo)
            if fv[0] == 'fn':
                desc = self.db.tys[fv[1]].get('fn', {'p': '?fn', 'm': '?', 'a': []})
            else:
                desc = {'p': '<indirect>', 'm': '<indirect>', 'a': [], 'val': fv}
        args = [self.operand(st, o) for o in t[2]]
        retloc = self.loc(st, dest) if target >= 0 else None
        return self.invoke(st, desc, args, argtys, dty, retloc, target, unw)

    def invoke(self, st, desc, args, argtys, dty, retloc, target, unw):
        name = desc.get('rp') or desc['p']
        # function-trait calls
        tr = desc.get('tr', '')
        if tr.startswith('core::ops::function::Fn') or tr in ('core::ops::function::FnOnce',):
            r = self.fn_trait(st, desc, args, argtys, dty, retloc, target, unw)
            if r is not None:
                return r
        r = self.on_call(st, name, desc, args, argtys, dty)
        if r is not None:
            return self.results(r, retloc, target, unw)
        m = self.model(name)
        if m is not None:
            r = m(self, st, desc, args, argtys, dty)
            if r is not None:
                if r and isinstance(r, tuple) and r[0] == 'TAIL':
                    # ('TAIL', wrapname, data, desc, args, argtys, dty)
                    if r[1] is not None:
                        st.frames.append(('WRAP', r[1], r[2], retloc, target))
                        return self.invoke(st, r[3], r[4], r[5], r[6], None, None, -1)
                    return self.invoke(st, r[3], r[4], r[5], r[6], retloc, target, unw)
                if r and isinstance(r, tuple) and r[0] == 'LOOP':
                    return self.loop_call(st, (r[1], r[3], r[6]), r[2], r[4], r[5], retloc, target, r[7])
                if r and isinstance(r, tuple) and r[0] == 'CHAIN':
                    self.hold_live(st, target)
                    return self.chain_next(st, r[1], retloc, target)
                if r and isinstance(r, tuple) and r[0] == 'LOOPN':
                    self.hold_live(st, target)
                    st.frames.append(('WRAP', 'w_loopn', r[1], retloc, target, r[2], r[3], r[4]))
                    return self.chain_next(st, (r[2][1], r[2][2]), None, None)
                if r and isinstance(r, tuple) and r[0] == 'DROP':
                    return self.start_drop(st, r[1], r[2], retloc, target, unw)
                return self.results(r, retloc, target, unw)
        if desc.get('ctor'):
            fl = tuple(((desc['cv'], i), a) for i, a in enumerate(args))
            return self.results([(st, ('a', None, desc['cv'], fl, None))], retloc, target, unw)
        k = desc.get('k')
        if k is not None and self.can_push(st, k) and self.expand(st, desc, name):
            if (target is None or target < 0) and (not st.frames or st.frames[-1][0] != 'WRAP'):
                self.on_diverge(st, name)
                return self.maybe_unwind(st, unw, name, desc)
            self.push_fn(st, k, args, retloc, target, unw, self.cur_line)
            return [st]
        return self.opaque(st, name, desc, args, argtys, dty, retloc, target, unw)

    def model(self, name):
        return self.models.get(name)

    # internal iteration (Iterator::find_map & co. with a closure of the repository): a pseudo frame
    # ('WRAP', 'w_loop', (kind, closure type), retloc, target, closure pointer)
    def loop_call(self, st, data, fptr, nonempty, acc, retloc, target, src=None):
        out = []
        if not nonempty:
            s2 = st.clone()
            if src is not None:
                import models
                models.iter_first(self, s2, src, 1)
                models.iter_first(self, st, src, 0)
            out += self.deliver(s2, retloc, target, self.loop_end(s2, data[0], acc))
        out += self.loop_iter(st, data, fptr, acc, retloc, target)
        return out

    def loop_end(self, st, kind, acc):
        if kind == 'fold':
            return acc
        if kind in ('find_map', 'find', 'position'):
            return ('a', None, 0, (), None)
        if kind == 'any': return C(0)
        if kind == 'all': return C(1)
        return UNIT

    def loop_iter(self, st, data, fptr, acc, retloc, target):
        kind, fty, name = data
        live = None
        top = st.frames[-1]
        if top[0] == 'F':
            live = self.call_live(top[1], target, -1)
            st.frames[-1] = top[:7] + (live,)
        if not self.can_push(st, self.db.tys[fty]['body']):
            return []
        item = st.fresh(('item',))
        if name: self.on_event(st, 'loop_item', name, item)
        st.frames.append(('WRAP', 'w_loop', data, retloc, target, fptr, acc))
        desc = {'p': 'core::ops::function::FnMut::call_mut', 'tr': 'core::ops::function::FnMut', 'm': 'call_mut', 'a': [fty]}
        if kind == 'fold':
            tup = ('a', None, 0, (((0, 0), acc), ((0, 1), item)), None)
        else:
            tup = ('a', None, 0, (((0, 0), item),), None)
        return self.invoke(st, desc, [fptr, tup], [None, None], None, None, None, -1)

    def deliver_loop(self, st, w, val):
        kind, fty, _ = w[2]
        out = []
        # short-circuit results
        key = ('loop', tuple(st.frames), frozenset(st.mem.items()), frozenset(st.facts.items()), frozenset(st.tags.items()), self.mon_key(st.mon), val, w)
        def again(s):
            self.canon(s)
            k2 = ('loop', tuple(s.frames), frozenset(s.mem.items()), frozenset(s.facts.items()), frozenset(s.tags.items()), self.mon_key(s.mon))
            if self.graph is not None:
                self.graph.reach(s, (self.run_id, k2))
            if k2 in self.visited:
                return []
            self.visited.add(k2)
            w2 = s.frames.pop()
            r = self.deliver(s.clone(), w2[3], w2[4], self.loop_end(s, kind, w2[6]))
            return r + self.loop_iter(s, w2[2], w2[5], w2[6], w2[3], w2[4])
        if kind == 'find_map':
            vs = [val[2]] if val[0] == 'a' else None
            if vs is None and val[0] == 's':
                f = st.facts.get(val[1])
                vs = [f[1]] if f and f[0] == 'v' else [0, 1]
            for x in (vs or [0, 1]):
                s2 = st.clone()
                if val[0] == 's': s2.facts[val[1]] = ('v', x)
                if x == 1:
                    out += self.deliver(s2, w[3], w[4], val)
                else:
                    s2.frames.append(w)
                    out += again(s2)
            return out
        if kind == 'for_each':
            st.frames.append(w)
            return again(st)
        if kind == 'fold':
            st.frames.append(w[:6] + (val,))
            return again(st)
        cond = self.loop_cond(st, val)
        for x in (0, 1):
            s2 = st.clone()
            if not self.assume(s2, val, x): continue
            self.loop_branch(s2, val, x, cond)
            stop = (x == 1) if kind in ('any', 'find', 'position') else (x == 0)
            if stop:
                r = C(x) if kind in ('any', 'all') else ('a', None, 1, (((1, 0), s2.fresh(('item',))),), None)
                out += self.deliver(s2, w[3], w[4], r)
            else:
                s2.frames.append(w)
                out += again(s2)
        return out

    # lazy iterator chains (`it.filter(f).map(g)`): a value ('a', ('chain', method, closure type), 0, src, f);
    # the next element is the next one of the innermost source, passed through the closures
    def hold_live(self, st, target):
        top = st.frames[-1]
        if top[0] == 'F':
            st.frames[-1] = top[:7] + (self.call_live(top[1], target, self.unwind_of(top) if self.unwind else -1),)

    def unwind_of(self, top):
        """unwind edge of the call an 'F' frame is executing"""
        t = self.db.body(top[1])['bb'][top[2]][1]
        return t[5] if t[0] == 'call' else t[4] if t[0] == 'drop' else -1

    def chain_next(self, st, l, retloc, target):
        import models
        v = self.rd(st, l)
        stages, path = [], ()
        while models.is_chain(v):
            stages.append((v[1][1], v[1][2], path + ((0, 'f'),)))
            path += ((0, 'src'),)
            v = self.step_value(st, v, (0, 'src'))
        stages = tuple(reversed(stages))
        out = []
        for s2, o in models.next_at(self, st, (l[0], l[1] + path)):
            if o[2] == 0: out += self.deliver(s2, retloc, target, o)
            else: out += self.chain_step(s2, stages, 0, ('r', l[0], l[1]), self.step_value(s2, o, (1, 0)), retloc, target)
        return out

    def chain_step(self, st, stages, i, ptr, item, retloc, target):
        import models
        if i == len(stages): return self.deliver(st, retloc, target, models.some(item))
        m, fty, path = stages[i]
        if not self.closure_ok(st, fty): return []
        arg = models.alloc(st, item) if m in ('filter', 'take_while', 'inspect') else item
        st.frames.append(('WRAP', 'w_chain', (stages, i), retloc, target, ptr, item))
        return self.call_closure(st, fty, ('r', ptr[1], ptr[2] + path), (arg,))

    def closure_ok(self, st, fty):
        t = self.db.tys[fty]
        return t['k'] != 'closure' or self.can_push(st, t['body'])

    def call_closure(self, st, fty, fptr, args):
        t = self.db.tys[fty]
        if t['k'] == 'fndef': return self.invoke(st, t['fn'], list(args), [None] * len(args), None, None, None, -1)
        desc = {'p': 'core::ops::function::FnMut::call_mut', 'tr': 'core::ops::function::FnMut', 'm': 'call_mut', 'a': [fty]}
        return self.invoke(st, desc, [fptr, ('a', None, 0, tuple(((0, i), a) for i, a in enumerate(args)), None)], [None, None], None, None, None, -1)

    def seen_again(self, st, tag):
        self.canon(st)
        k = (tag, tuple(st.frames), frozenset(st.mem.items()), frozenset(st.facts.items()), frozenset(st.tags.items()), self.mon_key(st.mon))
        if self.graph is not None: self.graph.reach(st, (self.run_id, k))
        if k in self.visited: return True
        self.visited.add(k)
        return False

    def options(self, st, val):
        """(state, variant) of an Option"""
        if val[0] == 'a': return [(st, val[2])]
        f = st.facts.get(val[1]) if val[0] == 's' else None
        if f and f[0] == 'v': return [(st, f[1])]
        out = []
        for x in (0, 1):
            s2 = st.clone()
            if val[0] == 's': s2.facts[val[1]] = ('v', x)
            out.append((s2, x))
        return out

    def tests(self, st, val):
        """(state, outcome) of a truth value, as a branch in the source has them"""
        if val[0] == 'c': return [(st, val[1])]
        cond = self.loop_cond(st, val)
        out = []
        for x in (0, 1):
            s2 = st.clone()
            if self.assume(s2, val, x):
                self.loop_branch(s2, val, x, cond)
                out.append((s2, x))
        return out

    def deliver_chain(self, st, w, val):
        import models
        (stages, i), retloc, target, ptr, item = w[2:]
        m = stages[i][0]
        if m == 'map': return self.chain_step(st, stages, i + 1, ptr, val, retloc, target)
        if m == 'inspect': return self.chain_step(st, stages, i + 1, ptr, item, retloc, target)
        out = []
        for s2, x in self.options(st, val) if m in ('filter_map', 'map_while') else self.tests(st, val):
            if x:
                if m in ('filter_map', 'map_while'): item = self.step_value(s2, val, (1, 0))
                out += self.chain_step(s2, stages, i + 1, ptr, item, retloc, target)
            elif m in ('take_while', 'map_while'):
                out += self.deliver(s2, retloc, target, models.none())
            else:
                s2.frames.append(w)
                if not self.seen_again(s2, 'chain'):
                    w2 = s2.frames.pop()
                    out += self.chain_next(s2, (w2[5][1], w2[5][2]), w2[3], w2[4])
        return out

    # consumers of iterators: ('WRAP', 'w_loopn', (kind, closure type), retloc, target, iterator, closure, accumulator)
    def loopn_again(self, st, w):
        st.frames.append(w)
        if self.seen_again(st, 'loopn'): return []
        p = st.frames[-1][5]
        return self.chain_next(st, (p[1], p[2]), None, None)

    def deliver_loopn(self, st, w, val):
        import models
        (kind, fty), retloc, target, it, f, acc = w[2:]
        out = []
        for s2, x in self.options(st, val):
            if not x:
                r = acc if kind == 'sum' else self.rd(s2, self.deref(s2, acc)) if kind == 'collect' else UNIT if kind == 'extend' else self.loop_end(s2, kind, acc)
                out += self.deliver(s2, retloc, target, r)
                continue
            item = self.known(s2, self.step_value(s2, val, (1, 0)))
            if kind == 'sum':
                if item[0] == 'r': item = self.rd(s2, self.deref(s2, item))
                out += self.loopn_again(s2, w[:7] + (self.binop(s2, 'Add', acc, item, ('sum', self.cur_line)),))
            elif kind in ('collect', 'extend'):
                for s3, _ in models.m_push(self, s2, {'m': 'push'}, [acc, item], [None, None], None):
                    out += self.loopn_again(s3, w)
            else:
                if not self.closure_ok(s2, fty): continue
                arg = models.alloc(s2, item) if kind == 'find' else item
                s2.frames.append(('WRAP', 'w_loopc') + w[2:] + (item,))
                out += self.call_closure(s2, fty, f, (acc, arg) if kind == 'fold' else (arg,))
        return out

    def deliver_loopc(self, st, w, val):
        kind = w[2][0]
        item, w = w[8], ('WRAP', 'w_loopn') + w[2:8]
        if kind == 'for_each': return self.loopn_again(st, w)
        if kind == 'fold': return self.loopn_again(st, w[:7] + (val,))
        out = []
        for s2, x in self.options(st, val) if kind == 'find_map' else self.tests(st, val):
            if x == (0 if kind == 'all' else 1):
                r = val if kind == 'find_map' else C(x) if kind in ('any', 'all') else ('a', None, 1, (((1, 0), item if kind == 'find' else s2.fresh(('item',))),), None)
                out += self.deliver(s2, w[3], w[4], r)
            else:
                out += self.loopn_again(s2, w)
        return out

    def item_derived(self, st, v):
        if v[0] != 's': return False
        o = []
        atoms(v[1], o)
        return any(isinstance(a, int) and st.org.get(a, ('',))[0] == 'item' for a in o)

    def sum_of(self, st, a, b):
        """the sum of something over the elements of an iteration: begun (0 + x) or continued"""
        if a[0] == 'c' and a[1] == 0 and self.item_derived(st, b):
            return st.fresh(('sum',))
        if a[0] == 's' and isinstance(a[1], int) and st.org.get(a[1], ('',))[0] == 'sum' and self.item_derived(st, b):
            return a
        return None

    def loop_cond(self, st, val): pass

    def loop_branch(self, st, val, x, cond): pass

    def start_drop(self, st, loc, tid, retloc, target, unw):
        """run drop glue for the value at loc, then continue after the call"""
        if st.frames and st.frames[-1][0] == 'F' and target is not None and target >= 0:
            if retloc is not None:
                self.write(st, retloc, UNIT)
            top = st.frames[-1]
            live = self.call_live(top[1], target, unw)
            st.frames[-1] = top[:2] + (target,) + top[3:7] + (live,)
        st.frames.append(('DROP', ((loc, tid),), None, unw))
        return [st]

    def can_push(self, st, k):
        if len(st.frames) >= self.max_depth:
            return False
        n = 0
        for fr in st.frames:
            if fr[0] == 'F' and fr[1] == k:
                n += 1
        return n == 0

    def results(self, r, retloc, target, unw):
        out = []
        for s, v in r:
            out += self.deliver(s, retloc, target, v)
        return out

    def maybe_unwind(self, st, unw, name, desc):
        if self.unwind:
            return self.unwind_state(st, unw)
        return []

    def may_panic(self, name, desc):
        return True

    def opaque(self, st, name, desc, args, argtys, dty, retloc, target, unw):
        self.on_event(st, 'call', name, desc, args, argtys)
        out = []
        if target is None or target < 0:
            if not (st.frames and st.frames[-1][0] == 'WRAP'):
                self.on_diverge(st, name)
                return self.maybe_unwind(st, unw, name, desc)
        if self.unwind and self.may_panic(name, desc):
            s2 = st.clone()
            out += self.unwind_state(s2, unw)
        # havoc through &mut arguments
        for a, ty in zip(args, argtys):
            if ty is not None and self.is_mut_ref(ty):
                l = self.deref(st, a)
                self.havoc(st, l, name)
        v = st.fresh(('ret', desc.get('m') or name))
        self.on_result(st, name, desc, args, v)
        out += self.deliver(st, retloc, target, v)
        return out

    def on_result(self, st, name, desc, args, v):
        pass

    def havoc(self, st, l, name):
        if l[0][0] == 'L' and l[0] not in st.mem:
            return
        self.write(st, l, st.fresh(('mut', name.rsplit('::', 1)[-1])))

    def is_mut_ref(self, ty):
        t = self.db.tys[ty]
        if t['k'] == 'ref':
            return t['m']
        if t['k'] == 'adt' and t['def'] == 'core::pin::Pin':
            return self.is_mut_ref(t['args'][0])
        return False

    def fn_trait(self, st, desc, args, argtys, dty, retloc, target, unw):
        """<F as Fn*>::call*(f, (args...))"""
        if desc['m'] not in ('call', 'call_mut', 'call_once'):
            return None
        selfty = desc['a'][0]
        f = args[0]
        # look through references
        t = self.db.tys[selfty]
        byref = desc['m'] != 'call_once'
        while t['k'] == 'ref':
            # F = &mut G: f is (a ref to) a ref
            selfty = t['of']
            t = self.db.tys[selfty]
            if byref:
                f = self.rd(st, self.deref(st, f))
            byref = True
        tup = args[1]
        if t['k'] == 'dyn' and byref:
            g = self.rd(st, self.deref(st, f))
            if g[0] == 'a' and g[1] and g[1][0] == 'clo':
                selfty = g[1][1]
                t = self.db.tys[selfty]
        if t['k'] == 'closure' and 'body' in t:
            body = self.db.fns[t['body']]
            if not self.can_push(st, t['body']):
                return None
            want_ref = self.db.tys[body['locals'][1]]['k'] == 'ref'
            if want_ref and not byref:
                root = ('H', ('clo', len(st.frames), st.next))
                st.next += 1
                st.mem[root] = f
                f = ('r', root, ())
            elif not want_ref and byref:
                f = self.rd(st, self.deref(st, f))
            n = body['argc'] - 1
            if body.get('spread'):
                al = [f, tup]
            else:
                al = [f] + [self.known(st, self.step_value(st, tup, (0, i))) for i in range(n)]
            self.push_fn(st, t['body'], al, retloc, target, unw, self.cur_line)
            return [st]
        if t['k'] == 'fndef':
            d2 = t['fn']
            # arity from the tuple type
            n = None
            ty = argtys[1] if len(argtys) > 1 else None
            if ty is not None and self.db.tys[ty]['k'] == 'tuple':
                tys = self.db.tys[ty]['args']
                al = [self.known(st, self.step_value(st, tup, (0, i))) for i in range(len(tys))]
                return self.invoke(st, d2, al, tys, dty, retloc, target, unw)
        if t['k'] == 'adt' and f[0] in ('fn',):
            pass
        return None

def fr_unw(st):
    fr = st.frames[-1]
    return fr[3] if fr[0] == 'DROP' else -1

def _shape(x):
    if isinstance(x, tuple):
        if x[0] == 'd':
            return 'd(%s)' % _shape(x[1])
        if x[0] in ('op', 'call'):
            return '%s:%s' % (x[0], x[1])
        return '(%s,%r)' % (_shape(x[0]), x[1])
    if isinstance(x, int):
        return '#'
    return str(x)
