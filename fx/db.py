"""Loading of the extracted, type-checked MIR database."""
import json

class DB:
    def __init__(self, path):
        self.fn_line = {}
        self.fns = {}
        self.tys = {}
        self.adts = {}      # path -> type id (identity instantiation)
        self.adt_sp = {}
        self.impls = []
        self.roots = []     # keys of identity-instantiated functions
        self.by_path = {}
        ended = False
        with open(path) as f:
            for l in f:
                if l.startswith('{"F":'):
                    d = json.loads(l)
                    k = d['F']
                    self.fns[k] = d
                    if d['root']:
                        self.roots.append(k)
                        self.by_path.setdefault(d['p'], []).append(k)
                elif l.startswith('{"T":'):
                    d = json.loads(l)
                    self.tys[d['T']] = d
                elif l.startswith('{"A":'):
                    d = json.loads(l)
                    self.adts[d['p']] = d['A']
                    self.adt_sp[d['p']] = d['sp']
                elif l.startswith('{"I":'):
                    self.impls.append(json.loads(l))
                elif l.startswith('{"END"'):
                    ended = True
        if not ended:
            raise RuntimeError('truncated database ' + path)
        self._live = {}
        # instances whose body could not be normalised are not expandable
        err = set(k for k, f in self.fns.items() if 'bb' not in f)
        self.err = err
        self.err_callers = set()
        if err:
            for k, f in self.fns.items():
                for b in f.get('bb', ()):
                    t = b[1]
                    if t[0] == 'call' and 'f' in t[1] and t[1]['f'].get('k') in err:
                        del t[1]['f']['k']
                        self.err_callers.add(k)

    def ts(self, t):
        return self.tys[t]['s'] if t is not None and t >= 0 else '?'

    # ---- liveness -------------------------------------------------------
    def info(self, k, prom=None):
        """per-body static info: live-in sets, join blocks"""
        key = (k, prom)
        r = self._live.get(key)
        if r is None:
            r = self._live[key] = BodyInfo(self.body(k, prom))
        return r

    def body(self, k, prom=None):
        f = self.fns[k]
        return f if prom is None else f['prom'][prom]


def place_uses(pl, out):
    out.add(pl[0])
    for e in pl[1:]:
        if isinstance(e, list) and e[0] == 'i':
            out.add(e[1])

def op_uses(o, out):
    if 'c' in o and isinstance(o['c'], list):
        place_uses(o['c'], out)
    elif 'm' in o and isinstance(o['m'], list):
        place_uses(o['m'], out)

def rv_uses(r, out, addr):
    k = r[0]
    if k in ('use', 'rep'):
        op_uses(r[1], out)
    elif k == 'ref':
        place_uses(r[2], out)
        if '*' not in r[2][1:]:
            addr.add(r[2][0])
    elif k == 'cast':
        op_uses(r[2], out)
    elif k == 'bin':
        op_uses(r[2], out); op_uses(r[3], out)
    elif k == 'un':
        op_uses(r[2], out)
    elif k == 'discr':
        place_uses(r[1], out)
    elif k == 'agg':
        for o in r[4]:
            op_uses(o, out)

def term_succ(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'sw': return [b for _, b in t[2]] + [t[3]]
    if k == 'drop': return [t[3]] + ([t[4]] if t[4] >= 0 else [])
    if k == 'call': return ([t[4]] if t[4] >= 0 else []) + ([t[5]] if t[5] >= 0 else [])
    if k == 'assert': return [t[3]] + ([t[4]] if t[4] >= 0 else [])
    return []

class BodyInfo:
    def __init__(self, b):
        bbs = b['bb']
        n = len(bbs)
        self.n = n
        addr = set()
        use = []; deff = []; dead = []
        preds = [0] * n
        succ = []
        for (stmts, term, _c) in bbs:
            u = set(); d = set()
            for s in stmts:
                k = s[0]
                if k == '=':
                    su = set(); rv_uses(s[2], su, addr)
                    pl = s[1]
                    if len(pl) > 1: place_uses(pl, su)
                    u |= (su - d)
                    if len(pl) == 1: d.add(pl[0])
                elif k == 'sd':
                    su = set(); place_uses(s[1], su); u |= (su - d)
                elif k == 'x':
                    d.add(s[1])
                elif k == 'assume':
                    su = set(); op_uses(s[1], su); u |= (su - d)
            su = set()
            k = term[0]
            dd = set()
            if k == 'sw': op_uses(term[1], su)
            elif k == 'drop': place_uses(term[1], su)
            elif k == 'call':
                op_uses(term[1], su)
                for o in term[2]: op_uses(o, su)
                if len(term[3]) > 1: place_uses(term[3], su)
                else: dd.add(term[3][0])
            elif k == 'tail':
                op_uses(term[1], su)
                for o in term[2]: op_uses(o, su)
            elif k == 'assert': op_uses(term[1], su)
            elif k == 'ret': su.add(0)
            u |= (su - d)
            d |= dd
            use.append(u); deff.append(d)
            ss = term_succ(term)
            succ.append(ss)
            for x in ss: preds[x] += 1
        # address-taken locals: live until StorageDead; forward "maybe storage-live" is approximated by
        # "assigned somewhere and StorageDead not yet executed" => compute forward may-live
        self.addr = addr
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in succ[i]: out |= live[s]
                li = use[i] | (out - deff[i])
                if li != live[i]:
                    live[i] = li; ch = True
        self.live = live
        self.preds = preds
        self.succ = succ
        # loop heads by DFS back edges (+ any join with >=2 preds)
        self.join = [p >= 2 for p in preds]
        for i in range(n):
            pass

def _impl_of(self, tr, m, adt):
    if adt is None:
        return None
    t = self.__dict__.get('_impls_idx')
    if t is None:
        t = {}
        for k in self.roots:
            f = self.fns[k]
            if f.get('tr') and 'self' in f:
                ty = self.tys[f['self']]
                if ty['k'] == 'adt':
                    t.setdefault((f['tr'], f['m'], ty['def']), []).append(k)
        self._impls_idx = t
    ks = t.get((tr, m, adt))
    return ks[0] if ks and len(ks) == 1 else None

DB.impl_of = _impl_of
