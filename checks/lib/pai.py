"""Partitioned abstract interpreter over the normalised IR dumped by cyir.

Domain: symbolic-value terms (terms.py) x unsigned/signed intervals x finite value sets for byte-sized atoms x linear
inequalities x a field-sensitive memory x a client typestate ("mon").  Loops are either evaluated iteration by
iteration (when every exit test is decided) or abstracted at their header: loop-carried values become fresh atoms
constrained by inductive candidates (Houdini), and memory cells the body changes are forgotten."""
import json, re, sys
from terms import *

sys.setrecursionlimit(10000)

class Incomplete(Exception): pass

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = d['funcs']; self.globals = d['globals']; self.locs = d['locs']; self.called = d['called']
        self._cfg = {}
    def loc(self, i):
        if i is None or i < 0: return '?'
        c = self.locs[i]
        # outermost repository frame first, innermost repository location
        for f, l, fn in c:
            if '/repo/' in f or f.startswith('/verif'): return '%s:%d' % (f.replace('/repo/', ''), l)
        return '%s:%d' % (c[0][0], c[0][1])
    def chain(self, i):
        if i is None or i < 0: return []
        return self.locs[i]
    def dem(self, n):
        x = self.called.get(n)
        return x[0] if x else n
    def q(self, n):
        x = self.called.get(n)
        return x[1] if x else n
    def cfg(self, name):
        c = self._cfg.get(name)
        if c is None: c = self._cfg[name] = CFG(self.funcs[name])
        return c
    def by_q(self, pattern):
        r = re.compile(pattern)
        return [n for n, f in self.funcs.items() if r.search(f['q'])]

_tyw = {}
def ty_w(ty):
    r = _tyw.get(ty, 0)
    if r == 0: r = _tyw[ty] = _ty_w(ty)
    return r
def _ty_w(ty):
    if ty is None: return None
    if ty == 'ptr': return 64
    m = re.match(r'i(\d+)$', ty)
    if m: return int(m.group(1))
    if ty == 'float': return 32
    if ty == 'double': return 64
    return None

class CFG:
    def __init__(self, f):
        self.f = f
        self.blocks = {b['id']: b for b in f['blocks']}
        self.entry = f['blocks'][0]['id']
        self.succ = {}
        for b in f['blocks']:
            t = b['i'][-1]; s = []
            if t['op'] == 'br': s = [t['t']] + ([t['f']] if 'f' in t else [])
            elif t['op'] == 'switch': s = [t['def']] + [x[1] for x in t['cases']]
            elif t['op'] == 'invoke': s = [t['normal'], t['unwind']]
            self.succ[b['id']] = list(dict.fromkeys(s))
        self.pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss: self.pred[s].append(b)
        # rpo
        seen = set(); order = []
        st = [(self.entry, iter(self.succ[self.entry]))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); st.pop()
        self.rpo = order[::-1]
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.idx = idx
        # dominators
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a = p
                    while a != n:
                        while idx[a] > idx[n]: a = idom[a]
                        while idx[n] > idx[a]: n = idom[n]
                if idom.get(b) != n: idom[b] = n; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        self.back = set(); self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if s in idx and idx[s] <= idx[b]:
                    if dom(s, b):
                        self.back.add((b, s))
                        body = self.loops.setdefault(s, {s})
                        w = [b]
                        while w:
                            x = w.pop()
                            if x not in body:
                                body.add(x); w.extend(p for p in self.pred[x] if p in idx)
                    else: self.irreducible = True
        # live-in sets
        self.live = self._live()
    def _live(self):
        use = {}; df = {}
        phiuse = {}
        for b, blk in self.blocks.items():
            u = set(); d = set()
            for i in blk['i']:
                if i['op'] == 'phi':
                    for pb, o in i['inc']:
                        if o[0] == 'v': phiuse.setdefault(pb, set()).add(o[1])
                else:
                    for v in uses(i):
                        if v not in d: u.add(v)
                if 'id' in i: d.add(i['id'])
            use[b] = u; df[b] = d
        live = {b: set(use[b]) for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set(phiuse.get(b, ()))
                for s in self.succ[b]: o |= live[s]
                n = use[b] | (o - df[b])
                if n != live[b]: live[b] = n; ch = True
        # phis of a block are defined on entry: they are part of the live-in signature through env
        return live

def uses(i):
    r = []
    def walk(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == 'v' and isinstance(o[1], int): r.append(o[1])
            else:
                for x in o: walk(x)
        elif isinstance(o, dict):
            for x in o.values(): walk(x)
    for k in ('ops', 'args', 'callee', 'cond', 'base', 'var', 'cnt'):
        if k in i: walk(i[k])
    return r

class State:
    __slots__ = ('env', 'mem', 'fill', 'ver', 'r', 'sr', 'vs', 'bl', 'ineq', 'mon', 'exc', 'loops', 'tr', 'cnt', 'eh', 'dead', 'memo')
    def __init__(self):
        self.env = {}; self.mem = {}; self.fill = {}; self.ver = {}; self.r = {}; self.sr = {}; self.vs = {}; self.bl = {}
        self.ineq = (); self.mon = None; self.exc = None; self.loops = {}; self.tr = None; self.cnt = {}; self.eh = (); self.memo = {}
    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.mem = {b: dict(c) for b, c in self.mem.items()}; s.fill = dict(self.fill); s.ver = dict(self.ver)
        s.r = dict(self.r); s.sr = dict(self.sr); s.vs = dict(self.vs); s.bl = dict(self.bl); s.ineq = self.ineq
        s.mon = self.mon; s.exc = self.exc; s.loops = dict(self.loops); s.tr = self.tr; s.cnt = dict(self.cnt); s.eh = self.eh; s.memo = {}
        return s
    # ---------------- intervals
    def rng(self, t):
        op = t.op
        if op == 'c': return t.a[0], t.a[0]
        k = self.memo.get(t)
        if k is not None: return k
        full = (1 << t.w) - 1
        lo, hi = 0, full
        if t.w == 1:
            v = self.bl.get(t)
            if v is not None: lo = hi = v
        if op == 'x':
            if t.a[0] == 'g' and t.w == 64: lo, hi = 4096, (1 << 63) - 1      # address of an object or function with a definition somewhere
            m = self.vs.get(t)
            if m is not None:
                if m == 0: return 0, 0
                hi = m.bit_length() - 1; lo = (m & -m).bit_length() - 1
        elif op == 'zext': lo, hi = self.rng(t.a[0])
        elif op == 'trunc':
            a, b = self.rng(t.a[0])
            if b <= full: lo, hi = a, b
            elif (a >> t.w) == (b >> t.w): lo, hi = a & full, b & full
        elif op == 'sext':
            a, b = self.srng(t.a[0])
            if a >= 0: lo, hi = a, b
            elif b < 0: lo, hi = a & full, b & full
        elif op == 'and':
            x = self.rng(t.a[0]); y = self.rng(t.a[1])
            hi = min(x[1], y[1], pm(t))
            if y[0] == y[1]:      # bits common to the whole interval survive the mask
                n = (1 << (x[0] ^ x[1]).bit_length()) - 1
                lo = x[0] & ~n & y[0]; hi = min(hi, (x[1] | n) & y[0])
        elif op in ('or', 'xor'):
            x = self.rng(t.a[0]); y = self.rng(t.a[1])
            hi = min(full, (1 << max(x[1], y[1]).bit_length()) - 1, pm(t))
            if op == 'or': lo = max(x[0], y[0])
        elif op == 'lshr':
            x = self.rng(t.a[0]); y = self.rng(t.a[1])
            lo, hi = (x[0] >> y[1] if y[1] < t.w else 0), x[1] >> min(y[0], t.w)
        elif op == 'shl':
            x = self.rng(t.a[0]); y = self.rng(t.a[1])
            if y[1] < t.w and (x[1] << y[1]) <= full: lo, hi = x[0] << y[0], x[1] << y[1]
        elif op == 'udiv':
            x = self.rng(t.a[0]); y = self.rng(t.a[1])
            if y[0] > 0: lo, hi = x[0] // y[1], x[1] // y[0]
        elif op == 'urem':
            x = self.rng(t.a[0]); y = self.rng(t.a[1])
            if y[0] > 0:
                hi = min(x[1], y[1] - 1)
                if x[1] < y[0]: lo, hi = x
        elif op == 'mul':
            x = self.rng(t.a[0]); y = self.rng(t.a[1])
            if x[1] * y[1] <= full: lo, hi = x[0] * y[0], x[1] * y[1]
        elif op == 'sel':
            c = self.truth(t.a[0])
            x = self.rng(t.a[1]) if c != 0 else None; y = self.rng(t.a[2]) if c != 1 else None
            if x and y: lo, hi = min(x[0], y[0]), max(x[1], y[1])
            else: lo, hi = x or y
        elif op == 'tbl':
            data, idx, es = t.a
            a, b = self.rng(idx)
            if b + es <= len(data) and (b - a) // es <= 1024:
                vals = [int.from_bytes(bytes(data[i:i + es]), 'little') for i in range(a, b + 1, es)]
                lo, hi = min(vals), max(vals)
        elif op == 'lin':
            k, ps = t.a
            l = h = k; sl = sh = k
            for x, c in ps:
                a, b = self.rng(x)
                if c > 0: l += c * a; h += c * b
                else: l += c * b; h += c * a
                a, b = self.srng(x)
                if c > 0: sl += c * a; sh += c * b
                else: sl += c * b; sh += c * a
            if (l >> t.w) == (h >> t.w): lo, hi = l & full, h & full
            elif (sl >> t.w) == (sh >> t.w): lo, hi = sl & full, sh & full
            hi = min(hi, pm(t)) if pm(t) != full else hi
        o = self.r.get(t)
        if o: lo = max(lo, o[0]); hi = min(hi, o[1])
        # signed info
        s = self.sr.get(t)
        if s and s[0] >= 0: lo = max(lo, s[0]); hi = min(hi, s[1])
        elif s and s[1] < 0: lo = max(lo, s[0] & full); hi = min(hi, s[1] & full)
        # single small atom: exact
        if op not in ('x', 'zext') and len(t.at) == 1 and hi > lo and hi - lo > 0:
            a = next(iter(t.at))
            if a.w <= 8 and a in self.vs:
                m = self.vs[a]; L = H = None
                try:
                    v = 0
                    while m:
                        if m & 1:
                            e = ev(t, {a: v})
                            if L is None or e < L: L = e
                            if H is None or e > H: H = e
                        m >>= 1; v += 1
                    if L is not None: lo = max(lo, L); hi = min(hi, H)
                except (KeyError, IndexError): pass
        self.memo[t] = (lo, hi)
        return lo, hi
    def srng(self, t):
        w = t.w
        H = 1 << (w - 1)
        if t.op == 'c':
            v = sgn(t.a[0], w); return v, v
        lo, hi = self.rng(t)
        if hi < H: a, b = lo, hi
        elif lo >= H: a, b = lo - 2 * H, hi - 2 * H
        else: a, b = -H, H - 1
        if t.op == 'sext':
            x, y = self.srng(t.a[0]); a = max(a, x); b = min(b, y)
        elif t.op == 'zext':
            x, y = self.rng(t.a[0]); a = max(a, x); b = min(b, y)
        elif t.op == 'lin':
            k, ps = t.a; l = h = k
            for x, c in ps:
                p, q = self.srng(x)
                if c > 0: l += c * p; h += c * q
                else: l += c * q; h += c * p
            if l >= -H and h < H: a = max(a, l); b = min(b, h)
        elif t.op == 'ashr' and is_c(t.a[1]):
            x, y = self.srng(t.a[0]); n = t.a[1].a[0]; a = max(a, x >> n); b = min(b, y >> n)
        elif t.op == 'sdiv' and is_c(t.a[1]) and 0 < sgn(t.a[1].a[0], w):
            x, y = self.srng(t.a[0]); d = t.a[1].a[0]
            a = max(a, -((-x) // d) if x < 0 else x // d); b = min(b, -((-y) // d) if y < 0 else y // d)
        elif t.op == 'srem' and is_c(t.a[1]) and 0 < sgn(t.a[1].a[0], w):
            x, y = self.srng(t.a[0]); d = t.a[1].a[0]
            a = max(a, -(d - 1) if x < 0 else 0); b = min(b, d - 1 if y > 0 else 0)
        s = self.sr.get(t)
        if s: a = max(a, s[0]); b = min(b, s[1])
        return a, b
    def const(self, t):
        if t.op == 'c': return t.a[0]
        lo, hi = self.rng(t)
        return lo if lo == hi else None
    def norm(self, t):
        v = self.const(t)
        return t if v is None else C(v, t.w)
    # ---------------- truth of a condition
    def truth(self, c):
        if c.op == 'c': return c.a[0]
        v = self.bl.get(c)
        if v is not None: return v
        if c.op == 'not':
            v = self.truth(c.a[0]); return None if v is None else 1 - v
        if c.op == 'and':
            a = self.truth(c.a[0]); b = self.truth(c.a[1])
            if a == 0 or b == 0: return 0
            return 1 if a == 1 and b == 1 else None
        if c.op == 'or':
            a = self.truth(c.a[0]); b = self.truth(c.a[1])
            if a == 1 or b == 1: return 1
            return 0 if a == 0 and b == 0 else None
        if c.op == 'xor':
            a = self.truth(c.a[0]); b = self.truth(c.a[1])
            return None if a is None or b is None else a ^ b
        if len(c.at) == 1:
            a = next(iter(c.at))
            if a.w <= 8:
                m = self.vs.get(a, (1 << (1 << a.w)) - 1)
                try:
                    s = sat_mask(c, a)
                    if m & s == 0: return 0
                    if m & ~s == 0: return 1
                    return None
                except (KeyError, IndexError): pass
        if c.op == 'cmp':
            p, a, b = c.a
            if a.op == 'sel' or b.op == 'sel':
                s = a if a.op == 'sel' else b
                ct = self.truth(s.a[0])
                if ct is not None:
                    pick = s.a[1] if ct else s.a[2]
                    return self.truth(cmp_(p, pick if s is a else a, pick if s is b else b))
            r = self._cmp_iv(p, a, b)
            if r is not None: return r
            o = self.bl.get(cmp_(NEG[p], a, b))
            if o is not None: return 1 - o
            if p in ('eq', 'ne') and a.w > 8 and not (is_c(a) or is_c(b)):
                for d in (sub(a, b), sub(b, a)):
                    lo, hi = self.rng(d)
                    if hi == 0: return 1 if p == 'eq' else 0
                    if lo > 0: return 0 if p == 'eq' else 1
            if self.ineq and a.w > 1:
                r = self._cmp_lin(p, a, b)
                if r is not None: return r
        if c.w == 1:
            lo, hi = self.rng(c)
            if lo == hi: return lo
        return None
    def _cmp_iv(self, p, a, b):
        if p in ('eq', 'ne'):
            x = self.rng(a); y = self.rng(b)
            dis = x[1] < y[0] or y[1] < x[0]
            if not dis:
                x2 = self.srng(a); y2 = self.srng(b); dis = x2[1] < y2[0] or y2[1] < x2[0]
            if dis: return int(p == 'ne')
            if x[0] == x[1] == y[0] == y[1]: return int(p == 'eq')
            return None
        if p[0] == 'u': x = self.rng(a); y = self.rng(b)
        else: x = self.srng(a); y = self.srng(b)
        q = p[1:]
        if q in ('gt', 'ge'): x, y = y, x; q = {'gt': 'lt', 'ge': 'le'}[q]
        if q == 'lt':
            if x[1] < y[0]: return 1
            if x[0] >= y[1]: return 0
        else:
            if x[1] <= y[0]: return 1
            if x[0] > y[1]: return 0
        return None
    # ---------------- linear inequalities over unsigned values
    def ulin(self, t, depth=0):
        """unsigned value of t as (k, {var:coef})"""
        if t.op == 'c': return t.a[0], {}
        if t.op == 'zext': return self.ulin(t.a[0], depth)
        if t.op == 'lin':
            k, ps = t.a; l = h = k
            for x, c in ps:
                a, b = self.rng(x)
                if c > 0: l += c * a; h += c * b
                else: l += c * b; h += c * a
            ok = l >= 0 and h < (1 << t.w)
            if not ok and depth < 2:
                kk = k; d = {}
                for x, c in ps:
                    k1, d1 = self.ulin(x, depth + 1); kk += c * k1
                    for v, cc in d1.items(): d[v] = d.get(v, 0) + c * cc
                ok = self._ent(kk, d, depth + 1) and self._ent((1 << t.w) - 1 - kk, {v: -c for v, c in d.items()}, depth + 1)
            if ok:
                kk = k; d = {}
                for x, c in ps:
                    k1, d1 = self.ulin(x, depth); kk += c * k1
                    for v, cc in d1.items():
                        d[v] = d.get(v, 0) + c * cc
                return kk, {v: c for v, c in d.items() if c}
        return 0, {t: 1}
    def _ent(self, k, d, depth=0):
        """do the facts entail  sum(d) + k >= 0 ?  (interval bound, then Fourier-Motzkin on the inequality domain)"""
        lo = k
        for v, c in d.items():
            a, b = self.rng(v)
            lo += c * a if c > 0 else c * b
        if lo >= 0: return True
        if not self.ineq or not d: return False
        # goal negated: -(sum) - k - 1 >= 0
        rows = [(-k - 1, {v: -c for v, c in d.items()})]
        vs = set(d); pool = list(self.ineq)
        # derived definitional rows
        ch = True; used = set()
        while ch:
            ch = False
            for i, (kk, dd) in enumerate(pool):
                if i in used: continue
                if any(v in vs for v, _ in dd):
                    used.add(i); rows.append((kk, dict(dd)))
                    for v, _ in dd:
                        if v not in vs: vs.add(v); ch = True
            for v in list(vs):
                if v.op in ('lshr', 'udiv') and is_c(v.a[1]) and ('def', v) not in used:
                    used.add(('def', v))
                    n = v.a[1].a[0]; q = n if v.op == 'udiv' else 1 << n
                    if q:
                        kk, dd = self.ulin(v.a[0], 2)
                        r1 = dict(dd); r1[v] = r1.get(v, 0) - q; rows.append((kk, r1))
                        r2 = {x: -c for x, c in dd.items()}; r2[v] = r2.get(v, 0) + q; rows.append((q - 1 - kk, r2))
                        for x in dd:
                            if x not in vs: vs.add(x)
                        ch = True
            if len(rows) > 60: break
        for v in vs:
            a, b = self.rng(v)
            if a > 0 or True: rows.append((-a, {v: 1}))
            rows.append((b, {v: -1}))
        return fm_unsat(rows, vs)
    def _cmp_lin(self, p, a, b):
        if p[0] == 's':
            H = 1 << (a.w - 1)
            if self.rng(a)[1] >= H or self.rng(b)[1] >= H: return None
            p = 'u' + p[1:]
        ka, da = self.ulin(a); kb, db = self.ulin(b)
        d = dict(db)
        for v, c in da.items(): d[v] = d.get(v, 0) - c
        d = {v: c for v, c in d.items() if c}   # b - a
        k = kb - ka
        nd = {v: -c for v, c in d.items()}
        if p == 'ult':
            if self._ent(k - 1, d): return 1
            if self._ent(-k, nd): return 0
        elif p == 'ule':
            if self._ent(k, d): return 1
            if self._ent(-k - 1, nd): return 0
        elif p == 'ugt':
            if self._ent(-k - 1, nd): return 1
            if self._ent(k, d): return 0
        elif p == 'uge':
            if self._ent(-k, nd): return 1
            if self._ent(k - 1, d): return 0
        elif p in ('eq', 'ne'):
            if self._ent(k - 1, d) or self._ent(-k - 1, nd): return int(p == 'ne')
            if self._ent(k, d) and self._ent(-k, nd): return int(p == 'eq')
        return None
    def prove(self, c):
        return self.truth(c) == 1
    # ---------------- refinement
    def assume(self, c, v=1):
        """refine with condition c == v; False when contradictory"""
        t = self.truth(c)
        if t is not None: return t == v
        self.memo = {}
        if c.op == 'not': return self.assume(c.a[0], 1 - v)
        self.bl[c] = v
        if c.op in ('and', 'or') and c.w == 1:
            if (c.op == 'and') == (v == 1):
                return self.assume(c.a[0], v) and self.assume(c.a[1], v)
            # one side decided?
            for i in (0, 1):
                if self.truth(c.a[i]) == (1 if c.op == 'and' else 0): return self.assume(c.a[1 - i], v)
            return True
        if c.op == 'sel' and c.w == 1:
            if self.truth(c.a[0]) is not None: return self.assume(c.a[1] if self.truth(c.a[0]) else c.a[2], v)
            if self.truth(c.a[1]) == 1 - v: return self.assume(c.a[0], 0) and self.assume(c.a[2], v)
            if self.truth(c.a[2]) == 1 - v: return self.assume(c.a[0], 1) and self.assume(c.a[1], v)
            return True
        if len(c.at) == 1:
            a = next(iter(c.at))
            if a.w <= 8:
                try:
                    s = sat_mask(c, a)
                    m = self.vs.get(a, (1 << (1 << a.w)) - 1)
                    m &= s if v else ~s
                    self.vs[a] = m
                    return m != 0
                except (KeyError, IndexError): pass
        if c.op == 'cmp':
            p, a, b = c.a
            if not v: p = NEG[p]
            self._refine(p, a, b); self.memo = {}
            if p not in ('ne',): self._refine(SWAP[p], b, a); self.memo = {}
            if not is_c(b) or a.op in ('lin', 'lshr', 'udiv', 'urem', 'and', 'mul') :
                self._add_ineq(p, a, b); self.memo = {}
            if p not in ('eq', 'ne'): self._trim(a); self._trim(b)
            # empty?
            for x in (a, b):
                lo, hi = self.rng(x)
                if lo > hi: return False
                lo, hi = self.srng(x)
                if lo > hi: return False
        return True
    def _trim(self, a):
        """a bound that an earlier disequality excludes moves inwards"""
        while True:
            if not is_c(a) and a.w > 1:
                for _ in range(2):
                    for sg in (0, 1):
                        lo, hi = self.srng(a) if sg else self.rng(a)
                        for v in (lo, hi):
                            k = C(v % (1 << a.w), a.w)
                            if lo < hi and (self.bl.get(cmp_('eq', a, k)) == 0 or self.bl.get(cmp_('ne', a, k)) == 1): self._refine('ne', a, k); self.memo = {}; break
            if a.op not in ('zext', 'sext'): return
            a = a.a[0]
    def _add_ineq(self, p, a, b):
        if a.w == 1: return
        if p[0] == 's':
            H = 1 << (a.w - 1)
            if self.rng(a)[1] >= H or self.rng(b)[1] >= H: return
            p = 'u' + p[1:]
        if p == 'ne': return
        ka, da = self.ulin(a); kb, db = self.ulin(b)
        d = dict(db)
        for v, c in da.items(): d[v] = d.get(v, 0) - c
        d = {v: c for v, c in d.items() if c}; k = kb - ka
        nd = {v: -c for v, c in d.items()}
        L = list(self.ineq)
        def put(k, d):
            if not d: return
            r = (k, tuple(sorted(d.items(), key=lambda x: x[0].id)))
            if r not in L: L.append(r)
        if p == 'ult': put(k - 1, d)
        elif p == 'ule': put(k, d)
        elif p == 'ugt': put(-k - 1, nd)
        elif p == 'uge': put(-k, nd)
        elif p == 'eq': put(k, d); put(-k, nd)
        self.ineq = tuple(L)
    def _refine(self, p, a, b):
        w = a.w; full = (1 << w) - 1
        if p == 'ne':
            v = self.const(b)
            if v is not None:
                lo, hi = self.rng(a)
                if lo == v: self._setr(a, lo + 1, hi)
                elif hi == v: self._setr(a, lo, hi - 1)
                lo, hi = self.srng(a); sv = sgn(v, w)
                if lo == sv: self._setsr(a, lo + 1, hi)
                elif hi == sv: self._setsr(a, lo, hi - 1)
            return
        lo, hi = self.rng(a); bl, bh = self.rng(b)
        if p == 'eq': self._setr(a, max(lo, bl), min(hi, bh)); sl, sh = self.srng(b); self._setsr(a, sl, sh)
        elif p == 'ult': self._setr(a, lo, min(hi, bh - 1))
        elif p == 'ule': self._setr(a, lo, min(hi, bh))
        elif p == 'ugt': self._setr(a, max(lo, bl + 1), hi)
        elif p == 'uge': self._setr(a, max(lo, bl), hi)
        else:
            lo, hi = self.srng(a); bl, bh = self.srng(b)
            if p == 'slt': self._setsr(a, lo, min(hi, bh - 1))
            elif p == 'sle': self._setsr(a, lo, min(hi, bh))
            elif p == 'sgt': self._setsr(a, max(lo, bl + 1), hi)
            elif p == 'sge': self._setsr(a, max(lo, bl), hi)
    def _setr(self, t, lo, hi):
        if t.op == 'c': return
        o = self.r.get(t, (0, (1 << t.w) - 1))
        self.r[t] = (max(lo, o[0]), min(hi, o[1])); self.memo = {}
        if t.op == 'zext': self._setr(t.a[0], lo, min(hi, (1 << t.a[0].w) - 1))
        elif t.op == 'x' and t.w <= 8:
            m = self.vs.get(t, (1 << (1 << t.w)) - 1)
            self.vs[t] = m & (((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)) if hi >= lo else 0
        elif t.op == 'lin' and len(t.a[1]) == 1:
            k, ((y, c),) = t.a; M = 1 << t.w
            if c == 1:
                l, h = (lo - k) % M, (hi - k) % M
                if l <= h: self._setr(y, l, h)
            elif c == -1:
                l, h = (k - hi) % M, (k - lo) % M
                if l <= h: self._setr(y, l, h)
            elif c > 1 and self.rng(y)[1] * c + k < M and self.rng(y)[0] * c + k >= 0:
                self._setr(y, max(0, -((k - lo) // c)), max(0, (hi - k) // c))
        elif t.op == 'sext':
            H = 1 << (t.w - 1)
            if hi < H: self._setsr(t.a[0], lo, hi)
        elif t.op == 'lshr' and is_c(t.a[1]):
            n = t.a[1].a[0]; self._setr(t.a[0], lo << n, ((hi + 1) << n) - 1)
        elif t.op == 'sel':
            for i in (1, 2):
                a, b = self.rng(t.a[i])
                if b < lo or a > hi:
                    self.assume(t.a[0], 0 if i == 1 else 1); break
    def _setsr(self, t, lo, hi):
        if t.op == 'c': return
        H = 1 << (t.w - 1)
        o = self.sr.get(t, (-H, H - 1))
        self.sr[t] = (max(lo, o[0]), min(hi, o[1])); self.memo = {}
        lo, hi = self.sr[t]
        if lo >= 0: self._setr(t, lo, hi)
        elif hi < 0: self._setr(t, lo + 2 * H, hi + 2 * H)
        if t.op == 'sext': self._setsr(t.a[0], max(lo, -(1 << (t.a[0].w - 1))), min(hi, (1 << (t.a[0].w - 1)) - 1))
        elif t.op == 'zext': self._setr(t.a[0], max(lo, 0), min(hi, (1 << t.a[0].w) - 1)) if hi >= 0 else None
        elif t.op == 'lin' and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
            k, ((y, c),) = t.a
            l, h = self.srng(y)
            if l + k >= -H and h + k < H: self._setsr(y, lo - k, hi - k)

_sat = {}
def sat_mask(c, a):
    r = _sat.get((c, a))
    if r is None:
        r = 0
        for v in range(1 << a.w):
            if ev(c, {a: v}): r |= 1 << v
        _sat[(c, a)] = r
    return r

def fm_unsat(rows, vs, cap=400):
    """Fourier-Motzkin elimination; True when the rows (k + sum >= 0) are inconsistent over the rationals"""
    rows = [(k, {v: c for v, c in d.items() if c}) for k, d in rows]
    vs = set(vs)
    while True:
        for k, d in rows:
            if not d and k < 0: return True
        rows = [(k, d) for k, d in rows if d]
        allv = {}
        for k, d in rows:
            for v, c in d.items():
                e = allv.setdefault(v, [0, 0]); e[0 if c > 0 else 1] += 1
        if not allv: return False
        v = min(allv, key=lambda x: allv[x][0] * allv[x][1] - allv[x][0] - allv[x][1])
        P = [r for r in rows if r[1].get(v, 0) > 0]; N = [r for r in rows if r[1].get(v, 0) < 0]
        Z = [r for r in rows if v not in r[1]]
        if len(P) * len(N) + len(Z) > cap: return False
        seen = set(); new = Z
        for kp, dp in P:
            for kn, dn in N:
                a = dp[v]; b = -dn[v]
                d = {}
                for x, c in dp.items(): d[x] = c * b
                for x, c in dn.items(): d[x] = d.get(x, 0) + c * a
                d = {x: c for x, c in d.items() if c}
                k = kp * b + kn * a
                from math import gcd
                g = 0
                for c in d.values(): g = gcd(g, abs(c))
                if g > 1:
                    d = {x: c // g for x, c in d.items()}; k = k // g  # integer tightening (floor)
                if not d:
                    if k < 0: return True
                    continue
                key = (k, frozenset(d.items()))
                if key not in seen: seen.add(key); new.append((k, d))
        # drop rows dominated (same lhs, larger k)
        best = {}
        for k, d in new:
            f = frozenset(d.items())
            if f not in best or k < best[f]: best[f] = k
        rows = [(k, dict(f)) for f, k in best.items()]

PTR = set()
def ptr_atom(name):
    t = X(name, 64); PTR.add(t); return t
NULL = C(0, 64)
ERRNO = ptr_atom(('errno',))

def split_addr(t):
    """address -> (base atom, offset term or int)"""
    if t.op == 'c': return ('null', t.a[0])
    if t in PTR: return t, 0
    if t.op == 'lin':
        k, ps = t.a
        for x, c in ps:
            if c == 1 and x in PTR and not (x.a[0] == 'phi'):
                rest = tuple(p for p in ps if p[0] is not x)
                return (x, k) if not rest else (x, from_lin(k, rest, 64))
        for x, c in ps:
            if c == 1 and x in PTR:
                rest = tuple(p for p in ps if p[0] is not x)
                return (x, k) if not rest else (x, from_lin(k, rest, 64))
    return t, 0

class Exit:
    __slots__ = ('kind', 'st', 'val', 'loc')
    def __init__(self, kind, st, val, loc): self.kind = kind; self.st = st; self.val = val; self.loc = loc

class Restart(Exception): pass

STD_BASES = {
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'], '_ZTISt12system_error': ['_ZTISt13runtime_error'],
}

class Hooks:
    """client interface"""
    track_ineq = True
    fork_select = True
    unroll = 2000
    undecided_unroll = 2
    max_states = 20000
    oom = True           # operator new / STL may throw bad_alloc
    def init(self, eng, st): pass
    def call(self, eng, st, inst, name, q, args): return None   # -> list of (state, value, kind, exc) or None
    def after_call(self, eng, st, inst, name, q, args, val): pass
    def load(self, eng, st, inst, base, off, size): pass
    def store(self, eng, st, inst, base, off, size, val): pass
    def may_throw(self, eng, st, inst, name, q): return None
    def atomic(self, eng, st, inst, base, off, size): return None     # value seen by an atomic access (None: memory as modelled)
    def atomic_done(self, eng, st, inst, base, off, size, old, new): pass
    def carry(self, eng, st, entry_mon, vals): return st.mon   # monitor at a back edge -> monitor to continue with (None: as at entry)
    def may_fail_alloc(self): return self.oom
    fork_logic = False   # split paths on the parts of compound conditions
    partitions = 12      # visits of a block with the same values kept apart before their path facts are joined
    peel = False         # analyse the first pass through a loop on its own before generalising
    ghosts = ()          # cells maintained by the client; they may change in any loop, and are tried to move in step with the loop's variables
    def header(self, eng, st, b, isback, phis, vals): pass      # a loop head is reached

class Engine:
    def __init__(self, mod, fname, hooks, max_time=None):
        self.m = mod; self.fn = fname; self.f = mod.funcs[fname]; self.cfg = mod.cfg(fname); self.h = hooks
        self.exits = []; self.steps = 0
        self.widen = {}          # header -> dict(hav=set, mode per phi, cands)
        self.nostates = 0
        self.assumptions = set()
        self.max_time = max_time
        self.loop_decided = set()
    # ------------------------------------------------------------ operands
    def typeinfo_matches(self, t, c):
        """does exception type t (mangled typeinfo) match catch type c? True/False/None"""
        if c is None: return True
        if t == '?': return None
        if t == c: return True
        if t == '?std': return True if c == '_ZTISt9exception' else None
        seen = set(); w = [t]
        unknown = False
        while w:
            x = w.pop()
            if x in seen: continue
            seen.add(x)
            if x == c: return True
            if x in STD_BASES: w += STD_BASES[x]; continue
            g = self.m.globals.get(x)
            if g and g.get('init'):
                for e in g['init'][16:]:
                    if isinstance(e, list) and e[0] == 'g' and e[1].startswith('_ZTI'): w.append(e[1])
            elif x.startswith('_ZTISt') and x != '_ZTISt9exception': unknown = True
        return None if unknown else False
    def opd(self, st, o, ty=None):
        k = o[0]
        if k == 'v':
            return st.env[o[1]]
        if k == 'i': return C(int(o[1]), o[2])
        if k == 'null': return NULL
        if k == 'g' or k == 'fn':
            return ptr_atom(('g', o[1]))
        if k == 'gep':
            return self.gep(st, o[1])
        if k == 'undef':
            w = ty_w(ty) if ty else 64
            return X(('undef', w), w or 64)
        if k == 'f': return X(('fp', o[1], ty), (ty_w(ty) if ty else 64) or 64)
        if k == 'ce':
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return self.opd(st, o[2][0])
            if o[1] in BIN: return BIN[o[1]](self.opd(st, o[2][0]), self.opd(st, o[2][1]))
            return X(('ce', json.dumps(o)), 64)
        if k in ('zero', 'cds', 'ca'):
            return X(('agg', json.dumps(o)), 64)
        if k == 'asm': return X(('asm', o[1]), 64)
        return X(('unk', json.dumps(o)), ty_w(ty) or 64 if ty else 64)
    def gep(self, st, g):
        b = self.opd(st, g['base'])
        if g.get('off') is None: return ptr_atom(('gepunk', b))
        r = add(b, C(int(g['off']), 64))
        for o, sc in g['var']:
            i = self.opd(st, o)
            if i.w < 64: i = sext(i, 64)
            elif i.w > 64: i = trunc(i, 64)
            r = add(r, mulc(i, int(sc)))
        return r
    # ------------------------------------------------------------ memory
    def fresh_ver(self, st, base):
        st.ver[base] = st.ver.get(base, 0) + 1
    def havoc(self, st, base, off=None, size=None):
        c = st.mem.get(base)
        if off is None:
            st.mem.pop(base, None); st.fill.pop(base, None)
        else:
            if c:
                for k in list(c):
                    if self.may_overlap(st, k[0], k[1], off, size): del c[k]
            f = st.fill.get(base)
            if f: st.fill[base] = tuple(x for x in f if not self.may_overlap(st, x[0], x[1], off, size))
        self.fresh_ver(st, base)
    def may_overlap(self, st, o1, s1, o2, s2):
        if isinstance(o1, int) and isinstance(o2, int):
            return o1 < o2 + s2 and o2 < o1 + s1
        if s1 == 0 or s2 == 0: return False
        a = C(o1, 64) if isinstance(o1, int) else o1
        b = C(o2, 64) if isinstance(o2, int) else o2
        d = sub(a, b)  # a-b
        if is_c(d):
            v = sgn(d.a[0], 64); return v < s2 and -v < s1
        lo, hi = st.srng(d)
        if lo >= s2 or hi <= -s1: return False
        return True
    def load(self, st, inst, addr, size, ty):
        base, off = split_addr(addr)
        self.h.load(self, st, inst, base, off, size)
        w = size * 8
        isptr = ty == 'ptr'
        tw = ty_w(ty)
        if tw is None:  # aggregates
            return X(('aggload', base if isinstance(base, T) else base, off, st.ver.get(base, 0)), 64)
        v = self.load_raw(st, base, off, size, isptr)
        if tw < w: v = trunc(v, tw)
        return v
    def load_raw(self, st, base, off, size, isptr=False):
        w = size * 8
        # constant globals
        if isinstance(base, T) and base.a[0] == 'g':
            g = self.m.globals.get(base.a[1])
            if g and g.get('const') and g.get('init') is not None:
                d = g['init']
                if isinstance(off, int):
                    if 0 <= off and off + size <= len(d):
                        e = d[off]
                        if isinstance(e, list): return self.opd(st, e)
                        if all(isinstance(x, int) for x in d[off:off + size]):
                            return C(int.from_bytes(bytes(d[off:off + size]), 'little'), w)
                elif all(isinstance(x, int) for x in d):
                    return mk('tbl', (tuple(d), off, size), w)
        cells = st.mem.setdefault(base, {})
        k = (off, size)
        if k in cells: return cells[k]
        if isinstance(off, int):
            # inside a larger cell, or composed of smaller ones
            parts = {}
            clash = False
            for (o, s), t in cells.items():
                if isinstance(o, int):
                    if o <= off and off + size <= o + s:
                        return trunc(lshr(t, C(8 * (off - o), t.w)), w)
                    if o < off + size and off < o + s:
                        for j in range(s):
                            if off <= o + j < off + size: parts[o + j] = (t, j)
            if parts:
                if len(parts) == size:
                    r = C(0, w)
                    for j in range(size):
                        t, bj = parts[off + j]
                        byte = trunc(lshr(t, C(8 * bj, t.w)), 8)
                        r = or_(r, shl(zext(byte, w), C(8 * j, w)))
                    return r
                # fill the missing bytes
                r = C(0, w)
                for j in range(size):
                    if off + j in parts:
                        t, bj = parts[off + j]; byte = trunc(lshr(t, C(8 * bj, t.w)), 8)
                    else: byte = self.load_raw(st, base, off + j, 1)
                    r = or_(r, shl(zext(byte, w), C(8 * j, w)))
                return r
            for (o, n, byte) in st.fill.get(base, ()):
                if isinstance(o, int) and o <= off and (n is None or off + size <= o + n):
                    v = 0
                    for j in range(size): v |= byte << (8 * j)
                    return C(v, w)
        else:
            # symbolic offset over zero-filled / fully known small object: give up precision
            pass
        # undefined local?
        nm = ('ld', base, off, size, st.ver.get(base, 0))
        t = X(nm, w)
        if isptr: PTR.add(t)
        cells[k] = t
        return t
    def store(self, st, inst, addr, size, val):
        base, off = split_addr(addr)
        self.h.store(self, st, inst, base, off, size, val)
        self.store_raw(st, base, off, size, val)
    def store_raw(self, st, base, off, size, val):
        cells = st.mem.setdefault(base, {})
        for k in list(cells):
            if k == (off, size): continue
            if self.may_overlap(st, k[0], k[1], off, size):
                # keep the untouched bytes of a constant-offset cell
                t = cells.pop(k)
                if isinstance(k[0], int) and isinstance(off, int):
                    for j in range(k[1]):
                        if not (off <= k[0] + j < off + size):
                            cells[(k[0] + j, 1)] = trunc(lshr(t, C(8 * j, t.w)), 8)
        f = st.fill.get(base)
        if f and not isinstance(off, int):
            st.fill[base] = tuple(x for x in f if not self.may_overlap(st, x[0], x[1] if x[1] is not None else 1 << 40, off, size))
        elif f:
            nf = []
            for (o, n, byte) in f:
                if n is None or not isinstance(o, int) or not (o < off + size and off < o + n): nf.append((o, n, byte)); continue
                if o < off: nf.append((o, off - o, byte))
                if off + size < o + n: nf.append((off + size, o + n - off - size, byte))
            st.fill[base] = tuple(nf)
        if not isinstance(off, int): self.fresh_ver(st, base)
        if val.w != size * 8: val = zext(val, size * 8) if val.w < size * 8 else trunc(val, size * 8)
        cells[(off, size)] = val
    def memset(self, st, addr, byte, n):
        base, off = split_addr(addr)
        if is_c(n) and isinstance(off, int):
            self.havoc(st, base, off, n.a[0])
            if is_c(byte): st.fill[base] = st.fill.get(base, ()) + ((off, n.a[0], byte.a[0]),)
        else:
            hi = st.rng(n)[1]
            self.havoc(st, base, off, hi if hi < 1 << 40 else 1 << 40)
    def memcpy(self, st, dst, src, n):
        db, do = split_addr(dst); sb, so = split_addr(src)
        if is_c(n) and isinstance(do, int) and isinstance(so, int) and n.a[0] <= 128:
            N = n.a[0]
            cells = st.mem.get(sb, {})
            moves = []; cov = set()
            for (o, s), t in cells.items():
                if isinstance(o, int) and so <= o and o + s <= so + N:
                    moves.append((o - so, s, t)); cov.update(range(o - so, o - so + s))
            j = 0
            while j < N:
                if j in cov: j += 1; continue
                step = 1
                for s in (8, 4, 2):
                    if j + s <= N and (so + j) % s == 0 and not any(j + i in cov for i in range(s)): step = s; break
                moves.append((j, step, self.load_raw(st, sb, so + j, step))); j += step
            for o, s, t in moves: self.store_raw(st, db, do + o, s, t)
        else:
            hi = st.rng(n)[1]
            self.havoc(st, db, do, hi if hi < 1 << 40 else 1 << 40)
    # ------------------------------------------------------------ running
    def run(self):
        import time
        self.t0 = time.time(); self.restarts = 0; self.wloop = None
        while True:
            self.exits = []; self.steps = 0; self.seen = {}
            try:
                self._run(); break
            except Restart:
                self.restarts += 1
                if self.h.ghosts and self.wloop is not None:      # later loops may have given up invariants because of a candidate this loop has now lost
                    for o in self.widen:
                        if self.cfg.idx[o] > self.cfg.idx[self.wloop]: self.widen[o] = dict(hav=set(self.h.ghosts), plain=set(), bad=set(), extra=[], fresh=set())
                if self.restarts > (3000 if self.h.ghosts else 300) or (self.max_time and time.time() - self.t0 > self.max_time): raise Incomplete('%s: fixpoint not reached' % self.f['dem'][:120])
                continue
        return self.exits
    def init_state(self):
        st = State()
        for i, a in enumerate(self.f['args']):
            w = ty_w(a['ty']) or 64
            if a['ty'] == 'ptr': t = ptr_atom(('arg', i, a['n']))
            else: t = X(('arg', i, a['n']), w)
            st.env[a['id']] = t
            if a['ty'] == 'ptr' and a['der']: st.r[t] = (4096, (1 << 63) - 1)
        return st
    def _run(self):
        st = self.init_state()
        self.h.init(self, st)
        work = [(self.cfg.entry, None, st)]
        import time
        while work:
            b, p, st = work.pop()
            self.steps += 1
            if self.steps > self.h.max_states: raise Incomplete('%s: more than %d block visits' % (self.f['dem'][:120], self.h.max_states))
            if self.max_time and self.steps % 16 == 0 and time.time() - self.t0 > self.max_time: raise Incomplete('%s: time' % self.f['dem'][:120])
            try: nxt = self.block(b, p, st)
            except KeyError as e:
                raise
            work.extend(reversed(nxt))
    def sig(self, b, st):
        lv = self.cfg.live[b]
        env = tuple(sorted((k, v.id) for k, v in st.env.items() if k in lv))
        mem = frozenset((bs if not isinstance(bs, T) else bs.id, k, v.id) for bs, c in st.mem.items() for k, v in c.items())
        return (b, env, mem, st.mon, st.exc, tuple(sorted((k, v[0]) for k, v in st.loops.items())), tuple(sorted((k.id if isinstance(k, T) else str(k), v) for k, v in st.fill.items())) if st.fill else ())
    def enter(self, b, pred, st):
        """phis and loop handling; returns state or None"""
        blk = self.cfg.blocks[b]
        phis = [i for i in blk['i'] if i['op'] == 'phi']
        vals = []
        for i in phis:
            for pb, o in i['inc']:
                if pb == pred: vals.append(self.opd(st, o, i['ty'])); break
            else: vals.append(X(('undefphi', i['id']), ty_w(i['ty']) or 64))
        # leaving loops
        for h in list(st.loops):
            if b not in self.cfg.loops[h]: del st.loops[h]
        if b in self.cfg.loops and pred is not None:
            isback = (pred, b) in self.cfg.back
            if self.h.header(self, st, b, isback, phis, vals) is False: return None      # the hook has shown the path infeasible
            if b not in self.widen:
                if not isback: st.loops[b] = (0, 0)
                else:
                    n, und = st.loops.get(b, (0, 0))
                    n += 1
                    if n > self.h.unroll or und >= self.h.undecided_unroll:
                        nw = dict(hav=set(self.h.ghosts), plain=set(), bad=set(), extra=[], fresh=set())
                        self.widen[b] = nw; self.wloop = b
                        raise Restart
                    st.loops[b] = (n, und)
                for i, v in zip(phis, vals): st.env[i['id']] = v
            else:
                W = self.widen[b]
                if self.h.peel and not isback:
                    st.loops[b] = (0, 0); st.cnt[('peel', b)] = 1
                    for i, v in zip(phis, vals): st.env[i['id']] = v
                    return st
                if not isback or st.cnt.get(('peel', b)):
                    st.cnt[('peel', b)] = 0
                    st.loops[b] = (0, 0)
                    self.widen_entry(b, W, st, phis, vals)
                    ctx = st.cnt[('ctx', b)]; ctx['head'] = st.copy(); ctx['mons'] = [st.mon]
                else:
                    self.widen_back(b, W, st, phis, vals)
                    # the property monitor may have moved during the iteration: follow the loop again from there
                    ctx = st.cnt[('ctx', b)]
                    mon = self.h.carry(self, st, ctx['head'].mon, vals)
                    if mon is None or mon in ctx['mons']: return None
                    sp = ctx.setdefault('spec', {})
                    if sp.get(mon, (0,))[0] < 40:     # first precisely, with the values of this path; later arrivals are joined with it
                        self.havoc(st, ERRNO); st.mem.pop(ERRNO, None)
                        for i, v in zip(phis, vals): st.env[i['id']] = v
                        if mon in sp:
                            n, pe, pm_ = sp[mon]; cw = st.cnt.get(('w', b), 0)
                            for i in phis:
                                if st.env[i['id']] is not pe[i['id']]:
                                    t = X(('jphi', b, i['id'], cw), ty_w(i['ty']) or 64)
                                    if i['ty'] == 'ptr': PTR.add(t)
                                    st.env[i['id']] = t
                            for bs, cells in list(st.mem.items()):
                                for key, t in list(cells.items()):
                                    o = pm_.get(bs, {}).get(key)
                                    if o is t: continue
                                    j = X(('jmem', b, bs if not isinstance(bs, T) else bs.id, key, cw), t.w)
                                    if t in PTR or (o is not None and o in PTR): PTR.add(j)
                                    cells[key] = j
                        sp[mon] = (sp.get(mon, (0,))[0] + 1, {i['id']: st.env[i['id']] for i in phis}, {bs: dict(c) for bs, c in st.mem.items()})
                        st.mon = mon; st.loops[b] = (0, 0); st.memo = {}
                        return st
                    ctx['mons'].append(mon)
                    if len(ctx['mons']) > 24: raise Incomplete('%s: monitor does not stabilise in a loop' % self.f['dem'][:120])
                    tr = st.tr
                    st = ctx['head'].copy(); st.mon = mon; st.tr = tr
                    return st
        else:
            for i, v in zip(phis, vals): st.env[i['id']] = v
        return st
    def widen_entry(self, b, W, st, phis, vals):
        self.wloop = b
        init = {}
        cnt = st.cnt.get(('w', b), 0); st.cnt[('w', b)] = cnt + 1
        deltas = {}; dvar = {}
        # variables known to move in step share one delta
        ids = {i['id']: ty_w(i['ty']) for i in phis if i['id'] not in W['plain'] and i['id'] not in W.get('same', ())}
        ids.update({k: k[2] * 8 for k in W['hav'] if k[2] != '*' and k not in W['plain']})
        alias = {}
        if self.h.ghosts:
            sd = W.setdefault('seeded', set()); L = W.setdefault('lin', [])
            new = []; cur = dict(zip((i['id'] for i in phis), vals))
            for k in ids:
                if k in sd or k in self.h.ghosts: continue
                sd.add(k)
                for g in self.h.ghosts:
                    if ids[k] != ids.get(g): continue
                    # most plausible guess first: the one with the simplest difference (or sum, when it counts down) on entry
                    v = cur.get(k); t = self.load_raw(st, *g); same = isinstance(v, T) and v.w == t.w
                    size = lambda z: (len(z.a[1]) if z.op == 'lin' else int(not is_c(z)), int(z.op == 'lin' and z.a[0] != 0 or is_c(z) and z.a[0] != 0))
                    new += [(size(sub(v, t)) if same else (1, 1), 0, (k, g, 1, 1)), (size(add(v, t)) if same else (1, 1), 1, (k, g, 1, -1))]
            L += [c for _, _, c in sorted(new, key=lambda z: z[:2])]
        for (k1, k2, c1, c2) in W.get('lin', ()):
            if ('lin', k1, k2, c1, c2) in W['bad'] or k1 not in ids or k2 not in ids or ids[k1] != ids[k2]: continue
            if c2 % c1 == 0: x, y, q = k1, k2, c2 // c1
            elif c1 % c2 == 0: x, y, q = k2, k1, c1 // c2
            else: continue
            free = lambda z: z not in alias and not any(a[0] == z for a in alias.values())
            if not free(y) and q in (1, -1): x, y = y, x
            if not free(y) or x in alias: continue
            alias[y] = (x, q, ('lin', k1, k2, c1, c2))
        # a variable that holds the client's ghost value on entry is followed as that value itself, not as a difference
        rebased = {}
        if self.h.ghosts:
            gv = {}
            for g in self.h.ghosts:
                if g in W['hav'] and g not in W['plain']:
                    t = self.load_raw(st, *g)
                    if not is_c(t) and t not in PTR and not (t.op == 'lin' and any(x in PTR for x, _ in t.a[1])): gv[g] = t
            for i, v in zip(phis, vals):
                if v in gv.values() and i['id'] in ids: rebased[i['id']] = v
            for g, t in gv.items():
                if t in rebased.values(): rebased[g] = t
        def delta(k, name, w):
            if k in alias:
                x, q, _ = alias[k]
                if x not in dvar: dvar[x] = X(('dphi', b, x, cnt) if not isinstance(x, tuple) else ('dmphi', b) + x + (cnt,), w)
                return mulc(dvar[x], q)
            if k not in dvar: dvar[k] = X(name, w)
            return dvar[k]
        for i, v in zip(phis, vals):
            w = ty_w(i['ty']) or 64
            pid = i['id']
            if pid in rebased: v = C(0, w)
            init[pid] = v
            if pid in W['plain']:
                nm = ('phi', b, pid, cnt)
                t = X(nm, w)
                if i['ty'] == 'ptr': PTR.add(t)
                st.env[pid] = t; deltas[pid] = None
            elif pid in W.get('same', ()):
                st.env[pid] = v
            else:
                d = delta(pid, ('dphi', b, pid, cnt), w)
                st.env[pid] = add(v, d); deltas[pid] = d
        # memory
        memd = {}
        for key in W['hav']:
            base, off, size = key
            if size == '*':
                self.havoc(st, base); continue
            old = st.mem.get(base, {}).get((off, size))
            if old is None: old = self.load_raw(st, base, off, size)
            if key in rebased: old = C(0, size * 8)
            if key in W['plain']:
                t = X(('mphi', b, base, off, size, cnt), size * 8)
                if old in PTR or (old.op == 'lin' and any(x in PTR for x, c in old.a[1])): PTR.add(t)
                self.store_raw(st, base, off, size, t); memd[key] = None
            else:
                d = delta(key, ('dmphi', b, base, off, size, cnt), size * 8)
                self.store_raw(st, base, off, size, add(old, d)); memd[key] = d
                init[key] = old
        snap = {bs: dict(c) for bs, c in st.mem.items()}
        # candidates
        st.loops[b] = (0, 0)
        ctx = dict(init=init, deltas=dict(deltas), memd=memd, snap=snap, ver=dict(st.ver))
        st.cnt[('ctx', b)] = ctx
        dl = {**{k: v for k, v in deltas.items() if v is not None}, **{k: v for k, v in memd.items() if v is not None}}
        ctx['dall'] = dl; ctx['alias'] = alias
        dl = {k: v for k, v in dl.items() if k not in alias}
        ctx['dl'] = dl
        st.memo = {}
        zero = {d: rebased.get(k, C(0, d.w)) for k, d in dl.items()}
        for k, (x, q, key) in alias.items():
            if (k in rebased) != (x in rebased) or (k in rebased and (q != 1 or rebased[k] is not rebased[x])): W['bad'].add(key); raise Restart
        live = [c for c in self.cands(b, W, ctx, st) if c[0] not in W['bad']]
        # a candidate must hold on entry (all deltas zero) before it may be used
        wrong = [c for c in live if (c[0][0] == 'bnd' or (c[0][0] in ('sge0', 'sle0') and c[0][1] in rebased) or (c[0][0] == 'lin' and (c[0][1] in rebased or c[0][2] in rebased))) and st.truth(subst(c[1], zero)) != 1]
        if wrong:
            for c in wrong: W['bad'].add(c[0])
            raise Restart
        for c in live: st.assume(c[1], 1)
    def cands(self, b, W, ctx, st):
        """candidate invariants as (key, condition term)"""
        dl = ctx['dl']
        out = []
        for k, d in dl.items():
            w = d.w
            out.append((('sge0', k), cmp_('sge', d, C(0, w))))
            out.append((('sle0', k), cmp_('sle', d, C(0, w))))
            v0 = ctx['init'].get(k)
            for n, (term, kind) in enumerate(W['extra']):
                pass
        ks = list(dl)
        for (k1, k2, c1, c2) in W.get('lin', ()):
            if k1 in dl and k2 in dl and dl[k1].w == dl[k2].w:
                # c2*d1 == c1*d2
                a = mulc(dl[k1], c2); bb = mulc(dl[k2], c1)
                out.append((('lin', k1, k2, c1, c2), cmp_('eq', a, bb)))
        for (k, p, bound) in W.get('bounds', ()):
            if k in dl:
                cur = add(ctx['init'][k], dl[k])
                try: bt = self.bound_term(bound, ctx, st)
                except KeyError: continue
                if bt is None or bt.w != cur.w: continue
                out.append((('bnd', k, p, bound), cmp_(p, cur, bt)))
        return out
    def bound_term(self, bound, ctx, st):
        return bound
    def widen_back(self, b, W, st, phis, vals):
        self.wloop = b
        ctx = st.cnt.get(('ctx', b))
        if ctx is None: raise Incomplete('%s: loop context lost' % self.f['dem'][:100])
        dl = ctx['dl']
        changed = False
        newd = {}
        for i, v in zip(phis, vals):
            pid = i['id']
            if pid in W['plain']: continue
            v0 = ctx['init'][pid]
            if pid in W.get('same', ()):
                if v is not v0: W['same'].discard(pid); changed = True
                continue
            nd = sub(v, v0)
            if i['ty'] == 'ptr':
                sb = split_addr(v)[0]; b0 = split_addr(v0)[0]
                if sb is not b0 and not (isinstance(sb, T) and isinstance(b0, T) and sb == b0):
                    W['plain'].add(pid); changed = True; continue
            if ty_w(i['ty']) is None: W['plain'].add(pid); changed = True; continue
            newd[pid] = nd
        for base, cells in st.mem.items():
            if isinstance(base, T) and base in ctx.get('newb', ()): continue
            sc = ctx['snap'].get(base)
            if (base, None, '*') in W['hav']: continue
            if sc is None:
                # object first touched inside the loop: only matters if it existed before; contents read inside are atoms of entry version
                if st.ver.get(base, 0) != ctx['ver'].get(base, 0):
                    if self.outlives(base, b): W['hav'].add((base, None, '*')); changed = True
                else:
                    for (off, size), t in cells.items():
                        if not (t.op == 'x' and t.a[0] == 'ld' and t.a[1] is base and t.a[2] == off):
                            if self.outlives(base, b):
                                key = (base, off, size) if isinstance(off, int) else (base, None, '*')
                                if key not in W['hav']: W['hav'].add(key); changed = True
                continue
            if not self.outlives(base, b): continue
            if st.ver.get(base, 0) != ctx['ver'].get(base, 0):
                # something was havocked: forget every cell that is not provably the same
                for (off, size), t in sc.items():
                    key = (base, off, size)
                    if cells.get((off, size)) is not t and key not in W['hav']:
                        if isinstance(off, int): W['hav'].add(key); W['plain'].add(key)
                        else: W['hav'].add((base, None, '*'))
                        changed = True
            for (off, size), t in cells.items():
                key = (base, off, size)
                if key in W['hav']:
                    if key in W['plain']: continue
                    old = ctx['init'].get(key)
                    if old is None: continue
                    if old in PTR or (old.op == 'lin' and split_addr(old)[0] in PTR):
                        if split_addr(t)[0] is not split_addr(old)[0]: W['plain'].add(key); changed = True; continue
                    newd[key] = sub(t, old)
                    continue
                if not isinstance(off, int):
                    o = sc.get((off, size))
                    if o is not t and not (t.op == 'x' and t.a[0] == 'ld' and t.a[1] is base):
                        W['hav'].add((base, None, '*')); changed = True
                    continue
                o = sc.get((off, size))
                if o is t: continue
                if o is None:
                    if t.op == 'x' and t.a[0] == 'ld' and t.a[1] is base and t.a[2] == off and t.a[4] == ctx['ver'].get(base, 0): continue
                W['hav'].add(key); changed = True
            for (off, size), t in sc.items():
                if (off, size) not in cells and (base, off, size) not in W['hav'] and (base, None, '*') not in W['hav']:
                    if isinstance(off, int): W['hav'].add((base, off, size)); W['plain'].add((base, off, size))
                    else: W['hav'].add((base, None, '*'))
                    changed = True
        for base, f in ctx.get('fill', {}).items():
            pass
        # keys whose cell vanished
        for key in list(W['hav']):
            if key[2] != '*' and key not in W['plain'] and key in ctx['memd'] and key not in newd:
                W['plain'].add(key); changed = True
        if changed: raise Restart
        # same detection is conservative: a delta that never changes keeps both >=0 and <=0 and so stays 0
        # linear relation candidates between deltas
        if len(W.get('lin', ())) + len(W.get('bounds', ())) < 120:
            nl = []
            da = ctx['dall']
            ks = [k for k in newd if k in da]
            inc = {k: sub(newd[k], da[k]) for k in ks}
            for x in range(len(ks)):
                for y in range(x + 1, len(ks)):
                    k1, k2 = ks[x], ks[y]
                    i1, i2 = inc[k1], inc[k2]
                    if i1.w != i2.w: continue
                    if is_c(i1) and is_c(i2):
                        c1, c2 = sgn(i1.a[0], i1.w), sgn(i2.a[0], i2.w)
                        if c1 and c2 and abs(c1) < 1 << 16 and abs(c2) < 1 << 16: nl.append((k1, k2, c1, c2))
                    elif i1 is i2: nl.append((k1, k2, 1, 1))
                    elif add(i1, i2) is C(0, i1.w): nl.append((k1, k2, 1, -1))
            # bounds: conditions assumed on this path mentioning the deltas
            bs = []
            for c, v in st.bl.items():
                if c.op != 'cmp': continue
                for k in ks:
                    if k not in dl: continue
                    cur = add(ctx['init'][k], dl[k])
                    for (u, o, p) in ((c.a[1], c.a[2], c.a[0]), (c.a[2], c.a[1], SWAP[c.a[0]])):
                        if dl[k] in o.at: continue
                        if any(d in o.at for d in dl.values()): continue
                        base_u = u
                        while base_u.op in ('zext', 'sext'): base_u = base_u.a[0]
                        if base_u is cur:
                            bo = o
                            if u is not base_u:
                                while bo.op in ('zext', 'sext') and bo.w > cur.w: bo = bo.a[0]
                                if is_c(bo): bo = C(bo.a[0], cur.w)
                            if bo.w == cur.w:
                                for pp in ('ule', 'sle', 'uge', 'sge'): bs.append((k, pp, bo))
                        # x + c < bound  forms
                        elif base_u.op == 'lin' and base_u.w == cur.w and is_c(sub(base_u, cur)) and o.w == cur.w:
                            bo = sub(o, sub(base_u, cur))
                            for pp in ('ule', 'sle', 'uge', 'sge'): bs.append((k, pp, bo)); 
                            for pp in ('ule', 'sle', 'uge', 'sge'): bs.append((k, pp, o))
            ol = W.setdefault('lin', []); ob = W.setdefault('bounds', [])
            nl = [x for x in nl if x not in ol]; nb = [x for x in dict.fromkeys(bs) if x not in ob]
            if nl or nb:
                ol += nl; ob += nb
                raise Restart
        # Houdini
        drop = False
        failed = [(y, key) for y, (x, q, key) in ctx['alias'].items() if not (x in newd and y in newd and st.truth(cmp_('eq', newd[y], mulc(newd[x], q))) == 1)]
        # a wrong guess about one ghost makes the client misjudge the others: drop the guesses one ghost at a time
        gh = [n for n, g in enumerate(self.h.ghosts) if any(g in (key[1], key[2]) for _, key in failed)]
        if gh:
            for y, key in failed:
                if self.h.ghosts[gh[0]] in (key[1], key[2]): W['bad'].add(key)
            raise Restart
        for y, key in failed: W['bad'].add(key); drop = True
        for key, c in self.cands(b, W, ctx, st):
            if key in W['bad']: continue
            nc = subst(c, {dl[k]: newd[k] for k in newd if k in dl})
            if st.truth(nc) != 1:
                W['bad'].add(key); drop = True
        if drop: raise Restart
        return None
    def outlives(self, base, header):
        """may the object have existed before the loop iteration?"""
        if isinstance(base, T) and base.op == 'x' and base.a[0] in ('ret', 'ld') : 
            return True
        return True
    def block(self, b, pred, st):
        st = self.enter(b, pred, st)
        if st is None: return []
        s = self.sig(b, st)
        facts = (dict(st.r), dict(st.sr), dict(st.vs), dict(st.bl), st.ineq)
        prev = self.seen.setdefault(s, [])
        for f in prev:
            if weaker(f, facts): return []
        prev.append(facts)
        if len(prev) > self.h.partitions:
            # join: keep only facts common to all visits
            st = self.join_facts(st, prev)
            prev.append((dict(st.r), dict(st.sr), dict(st.vs), dict(st.bl), st.ineq))
            if len(prev) > self.h.partitions + 28: raise Incomplete('%s: too many partitions' % self.f['dem'][:100])
        ins = [i for i in self.cfg.blocks[b]['i'] if i['op'] != 'phi']
        return self.insts(b, ins, 0, st)
    def join_facts(self, st, prev):
        n = st.copy()
        for f in prev:
            n.r = {k: (min(v[0], f[0][k][0]), max(v[1], f[0][k][1])) for k, v in n.r.items() if k in f[0]}
            n.sr = {k: (min(v[0], f[1][k][0]), max(v[1], f[1][k][1])) for k, v in n.sr.items() if k in f[1]}
            n.vs = {k: v | f[2][k] for k, v in n.vs.items() if k in f[2]}
            n.bl = {k: v for k, v in n.bl.items() if f[3].get(k) == v}
            n.ineq = tuple(x for x in n.ineq if x in f[4])
        n.memo = {}
        return n
    def mark_undecided(self, b, st, targets):
        """a branch was not decided; note it for enclosing loops one of its targets leaves"""
        for h, (n, u) in list(st.loops.items()):
            if h in self.widen: continue
            body = self.cfg.loops[h]
            if b in body: st.loops[h] = (n, u + (1 if any(t not in body for t in targets) else 1 / 32))
    def insts(self, b, ins, k, st):
        n = len(ins)
        while k < n:
            i = ins[k]; op = i['op']
            if op in BIN:
                st.env[i['id']] = self.vecbin(st, i, op)
            elif op == 'icmp':
                x = self.opd(st, i['ops'][0], i['cty']); y = self.opd(st, i['ops'][1], i['cty'])
                st.env[i['id']] = cmp_(i['pred'], x, y) if x.w == y.w and i['ty'] == 'i1' else X(('icmpunk', i['id'], x, y), 1)
            elif op in ('zext', 'sext', 'trunc'):
                w = ty_w(i['ty'])
                x = self.opd(st, i['ops'][0], i['from'])
                st.env[i['id']] = {'zext': zext, 'sext': sext, 'trunc': trunc}[op](x, w) if w and ty_w(i['from']) else X((op, i['id'], x), 64)
            elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
                x = self.opd(st, i['ops'][0], i.get('from'))
                w = ty_w(i['ty']) or 64
                st.env[i['id']] = x if x.w == w else (zext(x, w) if x.w < w else trunc(x, w))
            elif op == 'getelementptr': st.env[i['id']] = self.gep(st, i)
            elif op == 'alloca':
                t = ptr_atom(('alloca', i['id'], i['size'], i.get('n', '')))
                st.env[i['id']] = t; st.r[t] = (4096, (1 << 63) - 1); st.memo = {}
            elif op == 'load':
                a = self.opd(st, i['ops'][0], 'ptr')
                st.env[i['id']] = self.load(st, i, a, i['sz'], i['ty'])
            elif op == 'store':
                a = self.opd(st, i['ops'][1], 'ptr'); v = self.opd(st, i['ops'][0], i['vty'])
                if v.w % 8 and v.w < i['sz'] * 8: v = zext(v, i['sz'] * 8)
                if ty_w(i['vty']) is None:
                    if i['ops'][0][0] == 'zero': v = C(0, i['sz'] * 8)
                    else: v = X(('aggval', v), i['sz'] * 8)
                self.store(st, i, a, i['sz'], v)
            elif op == 'select':
                c = self.opd(st, i['ops'][0], 'i1'); x = self.opd(st, i['ops'][1], i['ty']); y = self.opd(st, i['ops'][2], i['ty'])
                t = st.truth(c) if c.w == 1 else None
                if t is not None: st.env[i['id']] = x if t else y
                elif x is y: st.env[i['id']] = x
                elif self.h.fork_select and not (x.w == 1):
                    s2 = st.copy(); out = []
                    if st.assume(c, 1): st.env[i['id']] = x; out += self.insts(b, ins, k + 1, st)
                    if s2.assume(c, 0): s2.env[i['id']] = y; out += self.insts(b, ins, k + 1, s2)
                    return out
                elif x.w == 1:
                    st.env[i['id']] = or_(and_(c, x), and_(not_(c), y)) if not (is_c(x) or is_c(y)) else (
                        or_(c, y) if is_c(x) and x.a[0] == 1 else and_(not_(c), y) if is_c(x) else and_(c, x) if y.a[0] == 0 else or_(not_(c), x))
                else: st.env[i['id']] = sel(c, x, y)
            elif op == 'br':
                if 'f' not in i: return [(i['t'], b, st)]
                c = self.opd(st, i['cond'], 'i1')
                return self.branch(b, st, c, i['t'], i['f'], i)
            elif op == 'switch':
                v = self.opd(st, i['cond']); out = []
                ts = [x[1] for x in i['cases']] + [i['def']]
                cv = st.const(v)
                if cv is None: self.mark_undecided(b, st, ts)
                rest = st
                for o, tgt in i['cases']:
                    cond = cmp_('eq', v, self.opd(st, o))
                    t = rest.truth(cond)
                    if t == 1: out.append((tgt, b, rest)); rest = None; break
                    if t == 0: continue
                    s2 = rest.copy()
                    if s2.assume(cond, 1): self.note(s2, i, cond, 1); out.append((tgt, b, s2))
                    if not rest.assume(cond, 0): rest = None; break
                if rest is not None: out.append((i['def'], b, rest))
                return out
            elif op == 'ret':
                v = self.opd(st, i['ops'][0], self.f['ret']) if i['ops'] else None
                self.exits.append(Exit('ret', st, v, i.get('l'))); return []
            elif op == 'unreachable': return []
            elif op == 'resume':
                self.exits.append(Exit('unwind', st, st.exc, i.get('l'))); return []
            elif op in ('call', 'invoke'):
                outs = self.call(st, i)
                res = []
                conts = []
                for (s, v, kind, exc) in outs:
                    if kind == 'ret':
                        if 'id' in i: s.env[i['id']] = v if v is not None else X(('void',), 64)
                        conts.append(s)
                    elif kind == 'throw':
                        s.exc = exc
                        if op == 'invoke': res.append((i['unwind'], b, s))
                        else: self.exits.append(Exit('unwind', s, exc, i.get('l')))
                    elif kind == 'stop':
                        self.exits.append(Exit(exc or 'stop', s, None, i.get('l')))
                if op == 'invoke':
                    return [(i['normal'], b, s) for s in conts] + res
                if len(conts) == 1 and not res:
                    st = conts[0]; k += 1; continue
                for s in conts: res += self.insts(b, ins, k + 1, s)
                return res
            elif op == 'landingpad':
                return self.landing(b, ins, k, st, i)
            elif op == 'extractvalue':
                x = st.env.get(i['ops'][0][1]) if i['ops'][0][0] == 'v' else None
                nm = st.eh
                if isinstance(x, T) and x.op == 'x' and x.a[0] == 'lp':
                    st.env[i['id']] = x.a[1] if i['idx'][0] == 0 else x.a[2]
                elif isinstance(x, T) and x.op == 'x' and x.a[0] == 'agg2':
                    st.env[i['id']] = x.a[1 + i['idx'][0]]
                else:
                    w = ty_w(i['ty']) or 64
                    t = X(('ev', x if x is not None else 0, tuple(i['idx'])), w)
                    if i['ty'] == 'ptr': PTR.add(t)
                    st.env[i['id']] = t
            elif op == 'insertvalue':
                base = st.env.get(i['ops'][0][1]) if i['ops'][0][0] == 'v' else None
                v = self.opd(st, i['ops'][1])
                parts = list(base.a[1:]) if isinstance(base, T) and base.op == 'x' and base.a[0] == 'agg2' else [X(('undef', 64), 64)] * 2
                while len(parts) <= i['idx'][0]: parts.append(X(('undef', 64), 64))
                parts[i['idx'][0]] = v
                st.env[i['id']] = X(('agg2',) + tuple(parts), 64)
            elif op == 'atomicrmw':
                a = self.opd(st, i['ops'][0], 'ptr'); v = self.opd(st, i['ops'][1])
                base, off = split_addr(a); sz = v.w // 8
                old = self.h.atomic(self, st, i, base, off, sz)
                if old is None: old = self.load_raw(st, base, off, sz)
                new = {'add': lambda: add(old, v), 'sub': lambda: sub(old, v), 'xchg': lambda: v}.get(i['rmw'], lambda: X(('rmw', i['id'], old, v), v.w))()
                self.store_raw(st, base, off, sz, new); st.env[i['id']] = old
                self.h.atomic_done(self, st, i, base, off, sz, old, new)
            elif op == 'cmpxchg':
                a = self.opd(st, i['ops'][0], 'ptr'); c = self.opd(st, i['ops'][1]); v = self.opd(st, i['ops'][2])
                base, off = split_addr(a); sz = v.w // 8
                old = self.h.atomic(self, st, i, base, off, sz)
                if old is None: old = self.load_raw(st, base, off, sz)
                eq = cmp_('eq', old, c); t = st.truth(eq)
                out = []
                for val in (1, 0):
                    if t is not None and t != val: continue
                    s2 = st.copy()
                    if not s2.assume(eq, val): continue
                    if val: self.store_raw(s2, base, off, sz, v)
                    s2.env[i['id']] = X(('agg2', old, C(val, 1)), 64)
                    self.h.atomic_done(self, s2, i, base, off, sz, old, v if val else None)
                    out += self.insts(b, ins, k + 1, s2)
                return out
            elif op == 'fence': pass
            else:
                # floating point and vectors: opaque
                if 'id' in i:
                    xs = tuple(self.opd(st, o, None) for o in i.get('ops', ()) if o[0] != 'b')
                    if i['op'] == 'fcmp': st.env[i['id']] = X(('fcmp', i['pred']) + xs, 1)
                    else: st.env[i['id']] = X((op, i.get('pred', ''), i['ty']) + xs, ty_w(i['ty']) or 64)
            k += 1
        return []
    def vecbin(self, st, i, op):
        w = ty_w(i['ty'])
        x = self.opd(st, i['ops'][0], i['ty']); y = self.opd(st, i['ops'][1], i['ty'])
        if not w: return X((op, i['ty'], x, y), 64)
        if x.w != w or y.w != w: return X((op, x, y), w)
        if op in ('or', 'xor') and w > 1:
            # what is known about the values may show that no bit is shared: then it is a sum
            for a, b in ((x, y), (y, x)):
                if a.op in ('lin', 'c') and not (is_c(a) and is_c(b)):
                    n = tzeros(a)
                    if n and st.rng(b)[1] >> n == 0: return add(a, b)
        return BIN[op](x, y)
    def note(self, st, i, c, v):
        st.tr = (i.get('l'), c, v, st.tr)
    def branch(self, b, st, c, t, f, i):
        v = st.truth(c)
        if v is not None: return [((t if v else f), b, st)]
        self.mark_undecided(b, st, (t, f))
        s2 = st.copy(); out = []
        # disjunctions: partition so that each disjunct can be refined
        if self.h.fork_logic and c.op in ('and', 'or') and c.w == 1:
            for v in (1, 0):
                for s in self.cases(st, c, v): self.note(s, i, c, v); out.append(((t if v else f), b, s))
            return out
        if st.assume(c, 1): self.note(st, i, c, 1); out.append((t, b, st))
        if s2.assume(c, 0): self.note(s2, i, c, 0); out.append((f, b, s2))
        return out
    def cases(self, st, c, v):
        """states covering st with c == v, disjunctions split"""
        if c.op in ('and', 'or') and c.w == 1:
            x, y = c.a
            if (c.op == 'and') == bool(v):
                return [s2 for s in self.cases(st, x, v) for s2 in self.cases(s, y, v)]
            return self.cases(st, x, v) + [s2 for s in self.cases(st, x, 1 - v) for s2 in self.cases(s, y, v)]
        s = st.copy()
        return [s] if s.assume(c, v) else []
    def landing(self, b, ins, k, st, i):
        outs = []
        def go(s, selv):
            e = ptr_atom(('exc', i['id']))
            s.env[i['id']] = X(('lp', e, selv), 64)
            return self.insts(b, ins, k + 1, s)
        rest = True
        for kind, o in i['clauses']:
            if kind != 'catch': continue
            ti = None if o[0] == 'null' else o[1]
            m = self.typeinfo_matches(st.exc or '?', ti)
            if m is False: continue
            s = st.copy()
            if m is None and ti: s.exc = ti
            outs += go(s, self.typeid(ti))
            if m is True: rest = False; break
        if rest:
            outs += go(st, C(0, 32))
        return outs
    def typeid(self, ti):
        return C(1, 32) if ti is None else C(1000 + (sum(ord(c) * (n + 7) for n, c in enumerate(ti)) % 1000003), 32)
    # ------------------------------------------------------------ calls
    def callee(self, st, i):
        o = i['callee']
        if o[0] == 'fn': return o[1]
        if o[0] == 'v':
            t = st.env.get(o[1])
            if t is not None and t.op == 'x' and t.a[0] == 'g' and t.a[1] in self.m.funcs: return t.a[1]
        if o[0] == 'asm': return 'asm'
        return None
    def fresh(self, st, i, tag='ret'):
        ty = i.get('ty')
        if ty is None: return None
        w = ty_w(ty) or 64
        key = ('site', i.get('id'))
        n = st.cnt.get(key, 0); st.cnt[key] = n + 1
        t = X((tag, i.get('id'), n, tuple(sorted((h, c[0]) for h, c in st.loops.items()))), w)
        if ty == 'ptr': PTR.add(t)
        return t
    def havoc_args(self, st, i, name, args):
        dem = self.m.dem(name) if name else ''
        const_this = dem.endswith(' const')
        # parameter constness from the demangled signature
        ps = param_types(dem)
        sret = i.get('sret')
        shift = 0
        if ps is not None:
            shift = len(args) - len(ps)
        for j, a in enumerate(args):
            if i['aty'][j] != 'ptr': continue
            ro = False
            if ps is not None:
                pj = j - shift
                if pj >= 0 and pj < len(ps):
                    if re.search(r'\bconst ?[&*]', ps[pj]) or ps[pj].endswith('const'): ro = True
                elif pj < 0 and const_this and not (sret and j == 0): ro = True
            elif name in RO_C and j in RO_C[name]: ro = True
            if ro: continue
            self.havoc_obj(st, a, i['der'][j])
    def havoc_obj(self, st, a, der):
        base, off = split_addr(a)
        if base == 'null': return
        if der and isinstance(off, int): self.havoc(st, base, off, der)
        elif isinstance(base, T):
            # unknown extent: forget everything reachable
            for (o, s), t in list(st.mem.get(base, {}).items()):
                if t in PTR and t is not base:
                    b2, o2 = split_addr(t)
                    if isinstance(b2, T) and b2.op == 'x' and b2.a[0] in ('alloca',): self.havoc(st, b2)
            self.havoc(st, base)
    def call(self, st, i):
        name = self.callee(st, i)
        args = [self.opd(st, o, ty) for o, ty in zip(i['args'], i['aty'])]
        q = self.m.q(name) if name else '<indirect>'
        r = self.h.call(self, st, i, name, q, args)
        if r is not None: return r
        if name:
            r = self.builtin(st, i, name, q, args)
            if r is not None: return r
        return self.opaque(st, i, name, q, args)
    def opaque(self, st, i, name, q, args):
        out = []
        thr = self.may_throw(st, i, name, q)
        if thr:
            s2 = st.copy()
            self.havoc_args(s2, i, name, args)
            out.append((s2, None, 'throw', thr))
        if i.get('noreturn'): return out or [(st, None, 'stop', 'noreturn')]
        self.havoc_args(st, i, name, args)
        if name is None or not name.startswith('_Z'): self.havoc(st, ERRNO)
        v = self.fresh(st, i)
        self.h.after_call(self, st, i, name, q, args, v)
        return [(st, v, 'ret', None)] + out
    def may_throw(self, st, i, name, q):
        t = self.h.may_throw(self, st, i, name, q)
        if t is not None: return t
        if i.get('nounwind'): return False
        if name is None: return '?'
        if name.startswith('llvm.') or name == 'asm': return False
        if not name.startswith('_Z'): return False
        return '?' if q and re.match(r'\w+::', q) and not re.match(r'(std|cybozu|__\w+|boost)::', q) else '?std'     # code of the caller may throw anything
    def builtin(self, st, i, name, q, args):
        one = lambda v=None: [(st, v, 'ret', None)]
        if name.startswith('llvm.'):
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                self.h.load(self, st, i, *split_addr(args[1]), args[2]); self.h.store(self, st, i, *split_addr(args[0]), args[2], None)
                self.memcpy(st, args[0], args[1], args[2]); return one()
            if name.startswith('llvm.memset'):
                self.h.store(self, st, i, *split_addr(args[0]), args[2], None)
                self.memset(st, args[0], args[1], args[2]); return one()
            if name.startswith('llvm.eh.typeid.for'):
                o = i['args'][0]; return one(self.typeid(o[1]) if o[0] == 'g' else C(1, 32))
            if name.startswith('llvm.expect'): return one(args[0])
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.stackrestore')): return one()
            if name.startswith('llvm.trap'): return [(st, None, 'stop', 'trap')]
            if name.startswith('llvm.bswap'):
                x = args[0]; r = C(0, x.w); n = x.w // 8
                for j in range(n):
                    byte = zext(trunc(lshr(x, C(8 * j, x.w)), 8), x.w)
                    r = or_(r, shl(byte, C(8 * (n - 1 - j), x.w)))
                return one(r)
            m = re.match(r'llvm\.(u|s)(min|max)\.', name)
            if m:
                p = m.group(1) + ('le' if m.group(2) == 'min' else 'ge')
                c = cmp_(p, args[0], args[1]); t = st.truth(c)
                if t is not None: return one(args[0] if t else args[1])
                s2 = st.copy(); out = []
                if st.assume(c, 1): out.append((st, args[0], 'ret', None))
                if s2.assume(c, 0): out.append((s2, args[1], 'ret', None))
                return out
            if 'id' in i and ty_w(i['ty']):
                t = X((name,) + tuple(args), ty_w(i['ty']))
                if name.startswith(('llvm.ctpop', 'llvm.cttz', 'llvm.ctlz')): st.r.setdefault(t, (0, args[0].w)); st.memo = {}
                return one(t)
            return None
        if name == '__cxa_allocate_exception':
            t = self.fresh(st, i, 'exobj'); st.r[t] = (4096, (1 << 63) - 1); st.memo = {}; return one(t)
        if name == '__cxa_throw':
            o = i['args'][1]
            return [(st, None, 'throw', o[1] if o[0] == 'g' else '?')]
        if name == '__cxa_rethrow': return [(st, None, 'throw', (st.eh[-1] if st.eh else '?'))]
        if name == '__cxa_begin_catch':
            st.eh = st.eh + (st.exc or '?',); st.exc = None
            return one(self.fresh(st, i, 'caught'))
        if name == '__cxa_end_catch': st.eh = st.eh[:-1]; return one()
        if name == '__cxa_free_exception': return one()
        if name in ('__clang_call_terminate', '_ZSt9terminatev'): return [(st, None, 'stop', 'terminate')]
        if name in ('abort', 'exit', '_exit', '__assert_fail'): return [(st, None, 'stop', name)]
        if name == '__cxa_guard_acquire':
            return one(self.fresh(st, i))
        if name in ('__errno_location',): 
            t = ptr_atom(('errno',)); st.r[t] = (4096, (1 << 63) - 1); st.memo = {}; return one(t)
        if name in ('_Znwm', '_Znam'):
            t = self.fresh(st, i, 'new'); st.r[t] = (4096, (1 << 63) - 1); st.memo = {}
            out = [(st, t, 'ret', None)]
            if self.h.may_fail_alloc():
                s2 = st.copy(); out.append((s2, None, 'throw', '_ZTISt9bad_alloc'))
            self.h.after_call(self, st, i, name, q, args, t)
            return out
        return None

RO_C = {'write': (1,), 'send': (1,), 'sendto': (1, 4), 'fwrite': (0,), 'fputs': (0,), 'fprintf': (1,), 'printf': (0,), 'perror': (0,), 'open': (0,), 'open64': (0,), 'fopen': (0, 1), 'fopen64': (0, 1),
        'memcmp': (0, 1), 'strlen': (0,), 'strcmp': (0, 1), 'setsockopt': (3,), 'bind': (1,), 'connect': (1,), 'unlink': (0,), 'rename': (0, 1), 'opendir': (0,), 'stat': (0,), 'stat64': (0,), 'readlink': (0,), 'memchr': (0,),
        'getaddrinfo': (0, 1, 2), 'free': (), 'strtol': (0,), 'strtoul': (0,), 'strstr': (0, 1), 'strchr': (0,), '__fprintf_chk': (2,), 'syslog': (1,), 'openlog': (0,), 'popen': (0, 1), 'execve': (0,), 'execvp': (0,)}

def weaker(f, g):
    """facts f (earlier visit) are implied by facts g"""
    for a, b in ((f[0], g[0]), (f[1], g[1])):
        for k, v in a.items():
            o = b.get(k)
            if o is None or o[0] < v[0] or o[1] > v[1]: return False
    for k, v in f[2].items():
        o = g[2].get(k)
        if o is None or o & ~v: return False
    for k, v in f[3].items():
        if g[3].get(k) != v: return False
    for x in f[4]:
        if x not in g[4]: return False
    return True

_subc = {}
def subst(t, m):
    if t in m: return m[t]
    if not any(k in t.at for k in m): return t
    op = t.op
    if op == 'x': 
        return t
    if op == 'lin':
        r = C(t.a[0], t.w)
        for x, c in t.a[1]: r = add(r, mulc(subst(x, m), c))
        return r
    if op == 'cmp': return cmp_(t.a[0], subst(t.a[1], m), subst(t.a[2], m))
    if op == 'not': return not_(subst(t.a[0], m))
    if op in ('zext', 'sext', 'trunc'): return {'zext': zext, 'sext': sext, 'trunc': trunc}[op](subst(t.a[0], m), t.w)
    if op == 'sel': return sel(*[subst(x, m) for x in t.a])
    if op in BIN: return BIN[op](subst(t.a[0], m), subst(t.a[1], m))
    return mk(op, tuple(subst(x, m) if isinstance(x, T) else x for x in t.a), t.w)

_pt = {}
def param_types(dem):
    """top-level parameter type list of a demangled signature, or None"""
    if dem in _pt: return _pt[dem]
    r = None
    s = dem[:-6] if dem.endswith(' const') else dem
    if s.endswith(')'):
        # match the last parenthesis group
        d = 0; k = len(s) - 1
        while k >= 0:
            if s[k] == ')': d += 1
            elif s[k] == '(':
                d -= 1
                if d == 0: break
            k -= 1
        inner = s[k + 1:-1]; r = []; cur = ''; d = 0
        for ch in inner:
            if ch in '<([{': d += 1
            elif ch in '>)]}': d -= 1
            if ch == ',' and d == 0: r.append(cur.strip()); cur = ''
            else: cur += ch
        if cur.strip(): r.append(cur.strip())
    _pt[dem] = r
    return r

def describe(eng, st, n=12):
    out = []
    t = st.tr
    while t and len(out) < n:
        l, c, v, t = t
        out.append('%s: %s%s' % (eng.m.loc(l), '' if v else 'not ', show(c)[:160]))
    return out[::-1]
