"""C10: text to integer conversion, by an inductive analysis with ghost position and value.

The text is an array of unknown bytes.  Two ghost cells hold how many characters have been accounted for and the number
they denote; at every loop head and exit the characters the path has examined are accounted for, using only what the
path has established about them.  Digits may only be passed when the number still fits, an accepting exit must have
reached the end with the returned value equal to the ghost number, a refusing exit must have a reason."""
import re
import common
from pai import *
from own import no_throw
GH = ptr_atom(('ghost',)); TEXT = ptr_atom(('text',)); LEN = X(('textlen',), 64)
def tri(s, c):
    """value of a condition from its parts (not from a record of the condition itself)"""
    if c.op in ('and', 'or') and c.w == 1:
        vs = [tri(s, x) for x in c.a]
        if c.op == 'and': return 0 if 0 in vs else 1 if all(v == 1 for v in vs) else None
        return 1 if 1 in vs else 0 if all(v == 0 for v in vs) else None
    return s.truth(c)
def consistent(s):
    """disjunctions, comparisons and ranges the path has recorded must not be contradicted by what has been assumed since"""
    for t in list(s.r) + list(s.sr):
        if t.op == 'x': continue
        lo, hi = s.rng(t); sl, sh = s.srng(t)
        if lo > hi or sl > sh: return False
    for c, v in list(s.bl.items()):
        if c.op in ('and', 'or') and c.w == 1:
            t = tri(s, c)
            if t is not None and t != v: return False
        elif c.op == 'cmp':
            p, a, b = c.a
            (al, ah), (bl, bh) = s.rng(norm(s, a)), s.rng(norm(s, b))
            if p[0] == 's' and max(ah, bh) >> (a.w - 1): continue
            t = RNG['u' + p[1:] if p[0] == 's' else p](al, ah, bl, bh)
            if t is not None and t != v: return False
    return True
RNG = dict(ult=lambda a, b, c, d: 1 if b < c else 0 if a >= d else None, ule=lambda a, b, c, d: 1 if b <= c else 0 if a > d else None,
           ugt=lambda a, b, c, d: 1 if a > d else 0 if b <= c else None, uge=lambda a, b, c, d: 1 if a >= d else 0 if b < c else None,
           eq=lambda a, b, c, d: 1 if a == b == c == d else 0 if b < c or d < a else None, ne=lambda a, b, c, d: 0 if a == b == c == d else 1 if b < c or d < a else None)
def norm(s, t):
    """an extended sum that provably does not wrap is the sum of the extended parts"""
    v = s.const(t)
    if v is not None: return C(v, t.w)
    if t.op == 'lin':
        k, ps = t.a; out = C(k % (1 << t.w), t.w)
        for x, c in ps: out = add(out, mulc(norm(s, x), c))
        return out
    if t.op in ('zext', 'sext') and t.a[0].op in ('lin', 'zext', 'sext'):
        a = norm(s, t.a[0])
        if a.op != 'lin': return zext(a, t.w) if t.op == 'zext' else sext(a, t.w)
        k, ps = a.a; lo = hi = k
        for x, c in ps:
            r = s.rng(x); lo += min(r[0] * c, r[1] * c); hi += max(r[0] * c, r[1] * c)
        top = (1 << a.w) - 1 if t.op == 'zext' else (1 << (a.w - 1)) - 1
        if lo >= 0 and hi <= top:
            out = C(k % (1 << t.w), t.w)
            for x, c in ps: out = add(out, mulc(norm(s, zext(x, t.w)), c))
            return out
        return t
    if t.op == 'trunc': return trunc(norm(s, t.a[0]), t.w)
    if t.op in ('or', 'and', 'xor') and (is_c(t.a[0]) or is_c(t.a[1])):
        # bits every value of the range has in common: setting or clearing them is adding or subtracting a constant
        x, m = (t.a[1], t.a[0].a[0]) if is_c(t.a[0]) else (t.a[0], t.a[1].a[0])
        lo, hi = s.rng(x); n = (lo ^ hi).bit_length()
        ch = m if t.op != 'and' else ((1 << t.w) - 1) ^ m      # bits touched
        if (ch & ((1 << n) - 1)) == 0:
            new = lo | m if t.op == 'or' else lo & m if t.op == 'and' else lo ^ m
            return add(norm(s, x), C((new - lo) % (1 << t.w), t.w))
    return t
class H(Hooks):
    unroll = 0; undecided_unroll = 0; max_states = 20000; peel = True; fork_logic = True; oom = False; partitions = 200
    def __init__(self, hexa, signed, w): self.hexa = hexa; self.signed = signed; self.w = w; self.bad = []; self.ghosts = ((GH, 0, 8), (GH, 8, w // 8))
    def init(self, eng, st):
        self.bad = []
        self.base = TEXT; self.size = LEN; self.flag = None
        for k, a in enumerate(eng.f['args']):
            t = st.env[a['id']]
            if a['n'] == 'p': self.base = t
            elif a['n'] == 'n': self.size = t
            elif a['n'] == 'b': self.flag = t; st.r[t] = (4096, (1 << 63) - 1)
        st.r[self.base] = (4096, (1 << 63) - 1)
        eng.store_raw(st, GH, 0, 8, C(0, 64)); eng.store_raw(st, GH, 8, self.w // 8, C(0, self.w))
        st.mon = (False, False)      # minus seen, digit seen
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def call(self, eng, st, i, name, q, args):
        last = (q or '').split('(')[0].rsplit('::', 1)[-1]
        if (q or '').startswith('std::') and 'basic_string' in q:
            if last in ('c_str', 'data', 'begin') and args and split_addr(args[0])[0] is not None and self.is_src(eng, st, args[0]): return [(st, TEXT, 'ret', None)]
            if last in ('size', 'length') and self.is_src(eng, st, args[0]): return [(st, LEN, 'ret', None)]
        return None
    def is_src(self, eng, st, a): return isinstance(a, T) and a.op == 'x' and a.a[0] == 'arg' and a.a[2] == 's'
    # --- ghost
    def pos(self, eng, st):
        t = eng.load_raw(st, GH, 0, 8); return t.a[0] if t.op == 'c' else t
    def val(self, eng, st): return eng.load_raw(st, GH, 8, self.w // 8)
    def cell(self, st, pos): return st.mem.get(self.base, {}).get((pos, 1))
    def limit(self, minus):
        m = (1 << (self.w - 1)) - 1 if self.signed else (1 << self.w) - 1
        return m + 1 if minus and self.signed else m
    def digit(self, c):
        """(lo, hi, value of the digit as a function of the byte) classes"""
        return [(48, 57, -48)] + ([(65, 70, -55), (97, 102, -87)] if self.hexa else [])
    def step(self, eng, st, pos, v, minus):
        """what the path knows about the character at pos: list of (state, kind, pos', v'); kind: end, stop, ok, over, more(unknown)"""
        P = C(pos, 64) if isinstance(pos, int) else pos
        e = st.truth(cmp_('eq', P, self.size))
        # the position never passes the end (it only moves past a character known not to be at the end), so at or past it is the end
        ge = st.truth(cmp_('uge', P, self.size))
        if e == 0 and ge == 1: return []
        if e == 1 or ge == 1: return [(st, 'end', pos, v)]
        out = []
        if e is None:
            s0 = st.copy()
            if s0.assume(cmp_('eq', P, self.size), 1) and consistent(s0): out.append((s0, 'end', pos, v))
            st = st.copy()
            if not (st.assume(cmp_('eq', P, self.size), 0) and consistent(st)): return out
        c = self.cell(st, pos)
        if c is None: return out + [(st, 'unseen', pos, v)]
        base = 16 if self.hexa else 10
        rest = st.copy(); s0 = rest.copy()
        if s0.assume(cmp_('eq', c, C(0, 8)), 1): out.append((s0, 'end', pos, v)) if consistent(s0) else None
        if not rest.assume(cmp_('eq', c, C(0, 8)), 0): return out
        for lo, hi, k in self.digit(c):
            s = rest.copy()
            if not (s.assume(cmp_('uge', c, C(lo, 8)), 1) and s.assume(cmp_('ule', c, C(hi, 8)), 1)): continue
            lim = self.limit(minus); K, D = divmod(lim, base)
            cc = s.const(c); vc = s.const(v)
            nd = C((cc + k) % (1 << self.w), self.w) if cc is not None else add(zext(c, self.w) if self.w > 8 else c, C(k % (1 << self.w), self.w))
            nv = add(mulc(v if vc is None else C(vc, self.w), base), nd)
            np = pos + 1 if isinstance(pos, int) else add(pos, C(1, 64))
            if isinstance(np, T) and np.op == 'c': np = np.a[0]
            for kind, cs in (('ok', [('ult', v, K)]), ('ok', [('eq', v, K), ('ule', c, D - k)]), ('over', [('eq', v, K), ('ugt', c, D - k)]), ('over', [('ugt', v, K)])):
                s2 = s.copy(); f = True
                for p, t, x in cs:
                    if x > (1 << t.w) - 1:
                        f = f and p in ('ule', 'ult')
                        continue
                    f = f and s2.assume(cmp_(p, t, C(x, t.w)), 1)
                if f and consistent(s2): out.append((s2, kind, np, nv))
        for lo, hi in self.gaps():
            s = rest.copy()
            if s.assume(cmp_('uge', c, C(lo, 8)), 1) and s.assume(cmp_('ule', c, C(hi, 8)), 1): out.append((s, 'stop', pos, v)) if consistent(s) else None
        return out
    def gaps(self):
        e = 1
        for lo, hi, k in sorted(self.digit(None)):
            if e < lo: yield e, lo - 1
            e = hi + 1
        yield e, 255
    def sign(self, eng, st, pos):
        """1: a minus sign at the start, 0: none, None: not known"""
        if not self.signed or self.hexa: return 0
        c = self.cell(st, 0)
        if c is None: return None
        return st.truth(cmp_('eq', c, C(45, 8)))
    def header(self, eng, st, b, isback, phis, vals):
        minus, some = st.mon; pos = self.pos(eng, st)
        for n, v in enumerate(vals):
            if v not in PTR: vals[n] = norm(st, v)
        if pos == 0 and not minus and self.sign(eng, st, pos) == 1:
            eng.store_raw(st, GH, 0, 8, C(1, 64)); st.mon = (True, False); st.memo = {}; pos = 1; minus = True
        if not isback: return
        if self.cell(st, pos) is None: return     # a loop that does not look at the text
        v = self.val(eng, st)
        if st.truth(cmp_('eq', C(pos, 64) if isinstance(pos, int) else pos, self.size)) == 1: return
        outs = self.step(eng, st, pos, v, minus)
        if not outs: return False
        if any(k != 'ok' for _, k, _, _ in outs):
            self.bad.append(('goes on to the next character although the number read so far %s' % ('may not fit the type' if any(k == 'over' for _, k, _, _ in outs) else 'may contain something other than digits'), None, st))
            outs = [x for x in outs if x[1] in ('ok', 'over')]      # keep in step all the same: the run may be repeated with weaker invariants
            if not outs: return
        nvs = {x[3].id for x in outs}; nv = outs[0][3]
        if len(nvs) != 1:
            # one of the loop's own values may be the number in every case
            for v2 in vals:
                if v2 not in PTR and v2.w == self.w and all(s2.truth(cmp_('eq', norm(s2, v2), norm(s2, n2))) == 1 for s2, _, _, n2 in outs): nv = v2; break
            else: self.bad.append(('does not distinguish digits before going on', None, st))
        eng.store_raw(st, GH, 0, 8, C(outs[0][2], 64) if isinstance(outs[0][2], int) else outs[0][2]); eng.store_raw(st, GH, 8, self.w // 8, nv); st.mon = (minus, True); st.memo = {}
    def carry(self, eng, st, entry, vals): return st.mon
    # --- exits
    def accept(self, eng, e, st):
        minus, some = st.mon; pos = self.pos(eng, st); v = self.val(eng, st)
        if pos == 0 and not minus:
            s = self.sign(eng, st, pos)
            if s == 1: minus = True; pos = 1
        work = [(st, pos, v, some)]
        while work:
            st, pos, v, some = work.pop()
            for s, kind, np, nv in self.step(eng, st, pos, v, minus):
                if kind == 'end':
                    if not some: yield 'accepts text without any digit'; continue
                    want = sub(C(0, self.w), v) if minus else v
                    if s.truth(cmp_('eq', norm(s, e.val), norm(s, want))) != 1 and s.truth(cmp_('eq', e.val, want)) != 1: yield 'returns something other than the number written'
                elif kind == 'stop': yield 'accepts text containing something other than digits'
                elif kind == 'over': yield 'accepts a number that does not fit the type'
                elif kind == 'unseen': yield 'accepts without having looked at the whole text'
                else: work.append((s, np, nv, True))
    def refuse(self, eng, e, st):
        minus, some = st.mon; pos = self.pos(eng, st); v = self.val(eng, st)
        if pos == 0 and not minus and self.sign(eng, st, pos) == 1: minus = True; pos = 1
        work = [(st, pos, v, some)]
        while work:
            st, pos, v, some = work.pop()
            for s, kind, np, nv in self.step(eng, st, pos, v, minus):
                if kind in ('stop', 'over'): continue
                if kind == 'end':
                    if some: yield 'refuses a valid number'
                elif kind == 'unseen': yield 'refuses text that may be a valid number'
                else: work.append((s, np, nv, True))
def check(R):
    M = Module(common.ir('atoi_drv.cpp'))
    for m, f in sorted(M.funcs.items()):
        g = re.match(r'cybozu::drv::(dec|hex)_([ftsg])_([iu])(\d+)', f['q'])
        if not g: continue
        w = int(g.group(4)); R.count('conversions')
        h = H(g.group(1) == 'hex', g.group(3) == 'i', w); eng = Engine(M, m, h, max_time=60)
        try: eng.run()
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        bad = list(h.bad)
        for e in eng.exits:
            R.count('paths'); ok = e.kind == 'ret'
            if e.kind not in ('ret', 'unwind'): continue
            if ok and h.flag is not None:
                t = e.st.const(eng.load_raw(e.st, h.flag, 0, 1))
                if t is None: bad.append(('leaves the success flag undetermined', e.loc, e.st)); continue
                ok = bool(t)
            for w_ in dict.fromkeys((h.accept if ok else h.refuse)(eng, e, e.st)): bad.append((w_, e.loc, e.st))
        R.ob(not bad, max(1, len(eng.exits))); R.sample('%s: %d paths' % (f['dem'], len(eng.exits)))
        for w_, l, st in bad: R.violation(M.loc(l) if l is not None else 'include/cybozu/atoi.hpp', '%s: %s' % (f['dem'], w_), key='%s %s' % (f['q'], w_), detail=describe(eng, st, 12))
    return R.finish('every conversion operator of atoi and hextoi, from pointer/length and from std::string, with and without flag: all paths, loops by induction on a ghost position and value', minimum={'conversions': 60})
