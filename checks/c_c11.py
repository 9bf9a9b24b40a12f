"""C11: UTF-8 and UTF-16 coding, decided on value sets of the code units and on bit-linear forms of the results.

Every path of a decoder or encoder is characterised by the set of values it admits for each code unit (or for the code
point) and by how the result is composed of their bits.  Accepting paths must lie inside the well-formed sequences and
compute the code point; refusing paths must not contain a well-formed sequence that is completely there."""
import re
import common
from pai import *
from own import no_throw
from c_c04 import strip_t
from c_c10 import consistent
import bitlin
W = X(('whole',), 8)
# well-formed UTF-8 (Unicode standard, table 3-7) and UTF-16
UTF8 = [((0x00, 0x7f),), ((0xc2, 0xdf), (0x80, 0xbf)), ((0xe0, 0xe0), (0xa0, 0xbf), (0x80, 0xbf)), ((0xe1, 0xec), (0x80, 0xbf), (0x80, 0xbf)), ((0xed, 0xed), (0x80, 0x9f), (0x80, 0xbf)),
        ((0xee, 0xef), (0x80, 0xbf), (0x80, 0xbf)), ((0xf0, 0xf0), (0x90, 0xbf), (0x80, 0xbf), (0x80, 0xbf)), ((0xf1, 0xf3), (0x80, 0xbf), (0x80, 0xbf), (0x80, 0xbf)), ((0xf4, 0xf4), (0x80, 0x8f), (0x80, 0xbf), (0x80, 0xbf))]
UTF16 = [((0x0000, 0xd7ff),), ((0xe000, 0xffff),), ((0xd800, 0xdbff), (0xdc00, 0xdfff))]
LEN8 = [(0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xd7ff, 3), (0xd800, 0xdfff, 0), (0xe000, 0xffff, 3), (0x10000, 0x10ffff, 4), (0x110000, (1 << 32) - 1, 0)]
LEN16 = [(0, 0xd7ff, 1), (0xd800, 0xdfff, 0), (0xe000, 0xffff, 1), (0x10000, 0x10ffff, 2), (0x110000, (1 << 32) - 1, 0)]
def conds(st, atom): return [(c, v) for c, v in st.bl.items() if c.at == frozenset([atom])]
def ivset(st, atom):
    """values the path admits for atom, as intervals"""
    lo, hi = st.rng(atom); cs = conds(st, atom); out = []; n = [0]
    vs = st.vs.get(atom) if atom.w <= 8 else None
    def rec(lo, hi, cs):
        n[0] += 1
        if n[0] > 20000: raise NotImplementedError
        s = State(); s.r[atom] = (lo, hi)
        if atom.w <= 8: s.vs[atom] = ((1 << (hi - lo + 1)) - 1) << lo
        rest = []
        for c, v in cs:
            t = s.truth(c)
            if t is None: rest.append((c, v))
            elif t != v: return
        if not rest or lo == hi:
            if out and out[-1][1] == lo - 1: out[-1] = (out[-1][0], hi)
            else: out.append((lo, hi))
            return
        b = (lo ^ hi).bit_length() - 1; m = (hi >> b) << b
        rec(lo, m - 1, rest); rec(m, hi, rest)
    if vs is not None:
        for v in range(256):
            if vs >> v & 1 and lo <= v <= hi: rec(v, v, cs)
        return out
    rec(lo, hi, cs)
    return out
def meet(a, b): return [(max(x[0], y[0]), min(x[1], y[1])) for x in a for y in b if max(x[0], y[0]) <= min(x[1], y[1])]
def fixed(ivs):
    """bits equal in all values of the set: (mask, value)"""
    v = ivs[0][0]; m = -1
    for lo, hi in ivs:
        m &= ~((1 << (lo ^ hi).bit_length()) - 1); m &= ~(lo ^ v)
    return m, v
def dom(st, sets):
    fx = {a: fixed(s) for a, s in sets.items()}
    def known(a, i):
        f = fx.get(a); return f[1] >> i & 1 if f and f[0] >> i & 1 else None
    return bitlin.Dom(known, st.rng, st.srng)
def narrow(st, atom, ivs):
    s = st.copy(); s.r[atom] = (ivs[0][0], ivs[-1][1]); s.memo = {}
    return s
def feasible(st, units, box):
    """may the path be taken with the units in these ranges?"""
    s = st.copy(); s.memo = {}
    for u, (lo, hi) in zip(units, box):
        if not (s.assume(cmp_('uge', u, C(lo, u.w)), 1) and s.assume(cmp_('ule', u, C(hi, u.w)), 1)): return False
    return consistent(s)
def pieces(f, lo, hi, depth=6):
    """f(lo, hi) on the whole interval, or on its halves where the composition of bits differs between them"""
    try: return f(lo, hi)
    except bitlin.NotLinear:
        if depth == 0 or lo == hi: raise
        b = (lo ^ hi).bit_length() - 1; m = (hi >> b) << b
        return pieces(f, lo, m - 1, depth - 1) or pieces(f, m, hi, depth - 1)
class Dec(Hooks):
    unroll = 16; undecided_unroll = 8; max_states = 20000; partitions = 1000; fork_logic = True
    def __init__(self, sz): self.sz = sz; self.bad = []
    def init(self, eng, st):
        self.bad = []
        a = [st.env[x['id']] for x in eng.f['args']]
        self.c, self.b, self.e = a; P = self.P = ptr_atom(('text',)); st.r[P] = (4096, 1 << 62)
        self.n = X(('remaining',), 64); st.r[self.n] = (self.sz, 1 << 40)
        self.u = [X(('unit', j), 8 * self.sz) for j in range(6)]
        eng.store_raw(st, self.b, 0, 8, P); eng.store_raw(st, self.e, 0, 8, add(P, self.n))
        for j, u in enumerate(self.u): eng.store_raw(st, P, j * self.sz, self.sz, u)
        st.memo = {}
    def load(self, eng, st, inst, base, off, size):
        if base is self.P:
            if not isinstance(off, int) or off < 0: self.bad.append(('reads at an unknown place', inst.get('l'), st)); return
            for j in range(1, off // self.sz + 1):
                if st.truth(cmp_('eq', self.n, C(j * self.sz, 64))) != 0: self.bad.append(('reads past the end of the text', inst.get('l'), st)); return
    def store(self, eng, st, inst, base, off, size, val):
        if base is self.P: self.bad.append(('changes the text', inst.get('l'), st))
class Enc(Hooks):
    unroll = 16; undecided_unroll = 8; max_states = 20000; partitions = 1000; fork_logic = True; oom = False
    def __init__(self, sz): self.sz = sz; self.bad = []
    def init(self, eng, st):
        self.bad = []; st.mon = ()
        for x in eng.f['args']:
            if x['n'] == 'c': self.c = st.env[x['id']]
            if x['n'] == 'out': self.out = st.env[x['id']]
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def call(self, eng, st, i, name, q, args):
        q0 = (q or '').split('(')[0]; last = q0.rsplit('::', 1)[-1]
        if q0.startswith('std::') and 'basic_string' in q and args and args[0] is getattr(self, 'out', None):
            if last == 'append' and len(args) == 3 and args[1] in PTR or last == 'append' and len(args) == 3 and split_addr(args[1])[0] in PTR:
                n = st.const(args[2]); b, o = split_addr(args[1]); o = st.const(o) if isinstance(o, T) else o
                if n is None or o is None: self.bad.append(('appends a number of units that is not determined', i.get('l'), st)); return None
                st.mon = st.mon + tuple(eng.load_raw(st, b, o + j * self.sz, self.sz) for j in range(n))
                return [(st, args[0], 'ret', None)]
            if last in ('push_back', 'operator+=') and len(args) == 2 and args[1].w == 8 * self.sz:
                st.mon = st.mon + (args[1],); return [(st, args[0] if last != 'push_back' else None, 'ret', None)]
            if last in ('size', 'length', 'capacity', 'empty', 'data', 'c_str', 'reserve'): return None
            self.bad.append(('uses %s on the output string' % last, i.get('l'), st))
        return None
def value8(u):
    z = lambda t: zext(t, 32)
    if len(u) == 1: return z(u[0])
    t = mulc(and_(z(u[0]), C((1 << (7 - len(u))) - 1, 32)), 1 << 6 * (len(u) - 1))
    for j, x in enumerate(u[1:], 1): t = add(t, mulc(and_(z(x), C(0x3f, 32)), 1 << 6 * (len(u) - 1 - j)))
    return t
def value16(u):
    z = lambda t: zext(t, 32)
    if len(u) == 1: return z(u[0])
    return add(add(mulc(and_(z(u[0]), C(0x3ff, 32)), 1 << 10), and_(z(u[1]), C(0x3ff, 32))), C(0x10000, 32))
def decoder(R, M, m, f, sz, table, value):
    h = Dec(sz); eng = Engine(M, m, h, max_time=120); eng.run(); bad = list(h.bad); n = 0
    for e in eng.exits:
        st = e.st; R.count('paths'); n += 1
        if e.kind != 'ret': bad.append(('throws', e.loc, st)); continue
        ok = st.const(e.val)
        if ok is None: bad.append(('result not determined on a path', e.loc, st)); continue
        sets = [ivset(st, u) for u in h.u[:4]]
        lens = [L for L in (1, 2, 3, 4) if st.truth(cmp_('eq', h.n, C(L * sz, 64))) != 0]
        if st.const(h.n) is None: lens.append(5)
        if ok:
            b, k = split_addr(eng.load_raw(st, h.b, 0, 8)); k = st.const(k) if isinstance(k, T) else k
            if b is not h.P or not isinstance(k, int) or k % sz or not 0 < k <= 4 * sz: bad.append(('accepts but does not leave the position after the character', e.loc, st)); continue
            k //= sz
            if k > min(lens): bad.append(('accepts a character cut off by the end of the text', e.loc, st)); continue
            # the path's sequences, split by the first unit, must be well formed with exactly k units
            wf = [t for t in table if len(t) == k]; val = eng.load_raw(st, h.c, 0, 4)
            for lo, hi in sets[0]:
                pts = sorted({lo} | {t[0][0] for t in table if lo < t[0][0] <= hi} | {t[0][1] + 1 for t in table if lo <= t[0][1] < hi})
                for i, a in enumerate(pts):
                    z = (pts[i + 1] - 1) if i + 1 < len(pts) else hi
                    cl = [t for t in wf if t[0][0] <= a and z <= t[0][1]]
                    if not cl: bad.append(('accepts %s as a character of %d units' % (('%0*x' % (2 * sz, a)), k), e.loc, st)); continue
                    t = cl[0]
                    if not feasible(st, h.u, ((a, z),)): continue
                    for j in range(1, k):
                        out = [(x, y) for x, y in meet(sets[j], [(0, t[j][0] - 1), (t[j][1] + 1, (1 << 8 * sz) - 1)]) if x <= y]
                        full = [(s_[0][0], s_[-1][1]) for s_ in sets[:k]]
                        if any(feasible(st, h.u, [(a, z)] + full[1:j] + [p]) for p in out):
                            bad.append(('accepts %0*x followed by an ill-formed unit %d' % (2 * sz, a, j + 1), e.loc, st)); break
                    else:
                        if all(sets[:k]):
                            try:
                                s2 = narrow(st, h.u[0], [(a, z)]); ss = {h.u[j]: meet(sets[j], [t[j]]) if j else [(a, z)] for j in range(k)}
                                D = dom(s2, ss)
                                if D.form(val) != D.form(value(h.u[:k])): bad.append(('yields another code point than the one encoded (first unit %0*x)' % (2 * sz, a), e.loc, st))
                            except bitlin.NotLinear as x: bad.append(('the code point is not a composition of the bits of the units (%s)' % x, e.loc, st))
        else:
            for t in table:
                if len(t) > max(lens): continue
                if all(meet(sets[j], [t[j]]) for j in range(len(t))) and feasible(st, h.u, t): bad.append(('refuses a well-formed character of %d units starting with %0*x' % (len(t), 2 * sz, meet(sets[0], [t[0]])[0][0]), e.loc, st)); break
    return eng, bad, n
def spec8(c, n):
    b = lambda s: and_(lshr(c, C(s, 32)), C(0x3f, 32))
    if n == 0: return []
    if n == 1: return [trunc(c, 8)]
    return [trunc(add(lshr(c, C(6 * (n - 1), 32)), C({2: 0xc0, 3: 0xe0, 4: 0xf0}[n], 32)), 8)] + [trunc(add(b(6 * (n - 1 - j)), C(0x80, 32)), 8) for j in range(1, n)]
def spec16(c, n):
    if n == 0: return []
    if n == 1: return [trunc(c, 16)]
    return [trunc(add(lshr(c, C(10, 32)), C(0xd7c0, 32)), 16), trunc(add(and_(c, C(0x3ff, 32)), C(0xdc00, 32)), 16)]
def encoder(R, M, m, f, sz, classes, spec, kind):
    h = Enc(sz); eng = Engine(M, m, h, max_time=120); eng.run(); bad = list(h.bad); n = 0
    for e in eng.exits:
        st = e.st; R.count('paths'); n += 1
        if e.kind != 'ret': bad.append(('throws', e.loc, st)); continue
        for lo, hi in ivset(st, h.c):
            for a, z, L in classes:
                for x, y in meet([(lo, hi)], [(a, z)]):
                    s = narrow(st, h.c, [(x, y)]); r = s.const(e.val); cp = 'U+%04X' % x
                    if kind == 'size': 
                        if r != L: bad.append(('gives %s as the size of %s' % (r, cp), e.loc, st))
                        continue
                    if kind == 'valid':
                        if r != int(L > 0): bad.append(('wrong answer for %s' % cp, e.loc, st))
                        continue
                    if kind == 'enc' and r != L or kind == 'app' and r != int(L > 0): bad.append(('returns %s for %s' % (r, cp), e.loc, st)); continue
                    if kind == 'enc': got = [eng.load_raw(s, h.out, j * sz, sz) for j in range(L)]
                    else: got = list(s.mon)
                    if len(got) != L: bad.append(('writes %d units for %s instead of %d' % (len(got), cp, L), e.loc, st)); continue
                    def units(p, q):
                        s2 = narrow(s, h.c, [(p, q)]); D = dom(s2, {h.c: [(p, q)]})
                        for j, (g, w) in enumerate(zip(got, spec(h.c, L))):
                            if D.form(g) != D.form(w): return j + 1, p
                    try:
                        r = pieces(units, x, y)
                        if r: bad.append(('unit %d written for U+%04X is not the standard one' % r, e.loc, st))
                    except bitlin.NotLinear as ex: bad.append(('the units are not a composition of the bits of the code point (%s)' % ex, e.loc, st))
    return eng, bad, n
# --- whole texts: the loops around the coders
GH = ptr_atom(('ghost',)); TEXT = ptr_atom(('text',)); LEN = X(('textlen',), 61)
OPQ = common.OPAQUE + r'|^cybozu::string::(GetCharFromUtf(8|16)|AppendUtf(8|16)|toUtf(8|16))(<|$)'
class Loop(Hooks):
    unroll = 0; undecided_unroll = 0; max_states = 20000; peel = True; fork_logic = True; oom = False
    ghosts = ((GH, 0, 8),)
    def __init__(self, name): self.name = name; self.bad = []
    def init(self, eng, st):
        self.bad = []; self.end = None; self.src = None; self.count = 0
        self.sz = 4 if self.name in ('to8', 'to16') else 2 if re.match(r'(cv|th|ap|as|ct)_[psn]16', self.name) else 1
        self.base = TEXT; self.n = zext(LEN, 64); st.r[LEN] = (0, 1 << 40)
        for x in eng.f['args']:
            t = st.env[x['id']]
            if x['n'] == 'p': self.base = t
            elif x['n'] == 'n': self.n = t; st.r[t] = (0, 1 << 40)
            elif x['n'] == 's': self.src = t
            elif x['n'] in ('out', 'ret'): self.out = t
        st.r[self.base] = (4096, 1 << 61)
        self.end = add(self.base, mulc(self.n, self.sz))
        eng.store_raw(st, GH, 0, 8, self.base); st.mon = 'ready'
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def fail(self, st, i, w): self.bad.append((w, i.get('l'), st))
    def emit(self, eng, st, i, v):
        if self.sz == 4:
            pos = eng.load_raw(st, GH, 0, 8); b, o = split_addr(pos); w = eng.load_raw(st, b, o, 4)
            if st.mon != 'ready': self.fail(st, i, 'goes on after a character that could not be converted')
            if st.truth(cmp_('eq', v, w)) != 1: self.fail(st, i, 'the characters are not converted one by one in order')
            eng.store_raw(st, GH, 0, 8, add(pos, C(4, 64))); st.memo = {}
            return
        if st.mon != 'got': self.fail(st, i, 'writes a character although none was read'); return
        if st.truth(cmp_('eq', v, eng.load_raw(st, GH, 16, 4))) != 1: self.fail(st, i, 'writes another character than the one read')
        st.mon = 'ready'
    def call(self, eng, st, i, name, q, args):
        q0 = strip_t((q or '').split('(')[0]); last = q0.rsplit('::', 1)[-1]
        if q0.startswith('cybozu::string::GetCharFromUtf'):
            c, b, e = args; self.count += 1
            if st.mon != 'ready': self.fail(st, i, 'drops a character that was read' if st.mon == 'got' else 'goes on after an ill-formed character')
            pos = eng.load_raw(st, GH, 0, 8); bb, bo = split_addr(b); eb, eo = split_addr(e); cb, co = split_addr(c)
            if last[-1] == '8' and self.sz != 1 or last[-2:] == '16' and self.sz != 2: self.fail(st, i, 'decodes with the wrong decoder')
            if st.truth(cmp_('eq', eng.load_raw(st, bb, bo, 8), pos)) != 1: self.fail(st, i, 'does not continue where the previous character ended')
            if st.truth(cmp_('eq', eng.load_raw(st, eb, eo, 8), self.end)) != 1: self.fail(st, i, 'passes another end than that of the text')
            if st.truth(cmp_('eq', pos, self.end)) != 0: self.fail(st, i, 'decodes at the end of the text')
            k = eng.fresh(st, i, 'k') if False else X(('adv', i['id'], st.cnt.get('adv', 0)), 64); v = X(('cp', i['id'], st.cnt.get('adv', 0)), 32); st.cnt['adv'] = st.cnt.get('adv', 0) + 1
            ok, no = st.copy(), st
            np = add(pos, mulc(k, self.sz))
            for s in (ok, no): s.r[k] = (1, 4); eng.store_raw(s, bb, bo, 8, np); eng.store_raw(s, GH, 0, 8, np); s.memo = {}
            eng.store_raw(ok, cb, co, 4, v); eng.store_raw(ok, GH, 16, 4, v); ok.mon = 'got'; no.mon = 'failed'
            return [(ok, C(1, 1), 'ret', None), (no, C(0, 1), 'ret', None)]
        if q0.startswith('cybozu::string::AppendUtf') or q0.startswith('cybozu::string::toUtf'):
            want = '16' if re.search(r'to16$', self.name) else '8'
            if not last.endswith('Utf' + want): self.fail(st, i, 'encodes with the wrong encoder')
            ok, no = st.copy(), st
            if q0.startswith('cybozu::string::AppendUtf'):
                if args[0] is not self.out and self.name[:2] != 'th': self.fail(st, i, 'appends to something other than the output')
                no.mon = 'failed'; self.emit(eng, ok, i, args[1]); return [(ok, C(1, 1), 'ret', None), (no, C(0, 1), 'ret', None)]
            L = X(('enclen', i['id']), 32); ok.r[L] = (1, 4); self.emit(eng, ok, i, args[1]); ok.mon = ('enc', L, args[0]); no.mon = 'failed'
            return [(ok, L, 'ret', None), (no, C(0, 32), 'ret', None)]
        if 'basic_string' in (q or '') and q0.startswith('std::'):
            if last in ('c_str', 'data', 'begin', 'cbegin') and args and args[0] is self.src: return [(st, self.base, 'ret', None)]
            if last in ('end', 'cend') and args and args[0] is self.src: return [(st, self.end, 'ret', None)]
            if last in ('operator[]', 'at') and args and args[0] is self.src: return [(st, add(self.base, mulc(args[1], self.sz)), 'ret', None)]
            if last in ('size', 'length') and args and args[0] is self.src: return [(st, self.n, 'ret', None)]
            if last == 'empty' and args and args[0] is self.src: return [(st, cmp_('eq', self.n, C(0, 64)), 'ret', None)]
            if last == 'append' and len(args) == 3 and isinstance(st.mon, tuple):
                if args[1] is st.mon[2] and st.truth(cmp_('eq', args[2], zext(st.mon[1], 64))) == 1: st.mon = 'ready'
                else: self.fail(st, i, 'does not append exactly the encoded units')
                return [(st, args[0], 'ret', None)]
            if last in ('push_back', 'operator+=') and len(args) == 2 and args[1].w == 32: self.emit(eng, st, i, args[1]); return [(st, args[0] if last != 'push_back' else None, 'ret', None)]
            if last == 'append' and len(args) == 3 and args[2].w == 32 and st.const(args[1]) == 1: self.emit(eng, st, i, args[2]); return [(st, args[0], 'ret', None)]
        return None
    def carry(self, eng, st, entry, vals): return st.mon
def loop(R, M, m, f):
    h = Loop(f['q'].rsplit('::', 1)[-1]); eng = Engine(M, m, h, max_time=120); eng.run(); bad = list(h.bad); n = 0
    for e in eng.exits:
        st = e.st; R.count('paths'); n += 1
        if e.kind not in ('ret', 'unwind'): continue
        ok = e.kind == 'ret'
        if ok and h.name[:2] == 'cv':
            t = st.const(e.val)
            if t is None: bad.append(('result not determined on a path', e.loc, st)); continue
            ok = bool(t)
        pos = eng.load_raw(st, GH, 0, 8)
        if ok:
            if st.mon == 'failed': bad.append(('succeeds although a character could not be converted', e.loc, st))
            elif st.mon != 'ready': bad.append(('drops a character that was read', e.loc, st))
            elif st.truth(cmp_('eq', pos, h.end)) != 1: bad.append(('succeeds before the end of the text', e.loc, st))
        elif st.mon != 'failed' and e.kind == 'ret': bad.append(('fails although every character could be converted', e.loc, st))
        elif st.mon != 'failed' and e.kind == 'unwind' and not std_exc(e): bad.append(('throws although every character could be converted', e.loc, st))
    return eng, bad, n
def std_exc(e): return False
def check(R):
    M = Module(common.ir('utf_drv.cpp'))
    jobs = {'dec8': lambda *a: decoder(*a, 1, UTF8, value8), 'dec16': lambda *a: decoder(*a, 2, UTF16, value16), 'enc8': lambda *a: encoder(*a, 1, LEN8, spec8, 'enc'), 'enc16': lambda *a: encoder(*a, 2, LEN16, spec16, 'enc'),
            'size8': lambda *a: encoder(*a, 1, LEN8, spec8, 'size'), 'valid': lambda *a: encoder(*a, 1, LEN8, spec8, 'valid'), 'app8': lambda *a: encoder(*a, 1, LEN8, spec8, 'app'), 'app16': lambda *a: encoder(*a, 2, LEN16, spec16, 'app')}
    for m, f in sorted(M.funcs.items()):
        g = re.match(r'cybozu::drv::(\w+)', f['q'])
        if not g or g.group(1) not in jobs: continue
        R.count('coders')
        try: eng, bad, n = jobs[g.group(1)](R, M, m, f)
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        R.ob(not bad, max(1, n)); R.sample('%s: %d paths' % (f['dem'], n))
        for w, l, st in bad: R.violation(M.loc(l), '%s: %s' % (f['q'], w), key='%s %s' % (f['q'], w), detail=describe(eng, st, 12))
    M = Module(common.ir('utf_drv.cpp', inline=r'^cybozu::|^__gnu_cxx::', opaque=OPQ))
    for m, f in sorted(M.funcs.items()):
        if not f['q'].startswith('cybozu::drv2::'): continue
        R.count('whole text conversions')
        try: eng, bad, n = loop(R, M, m, f)
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        R.ob(not bad, max(1, n)); R.sample('%s: %d paths' % (f['dem'], n))
        for w, l, st in bad: R.violation(M.loc(l), '%s: %s' % (f['q'], w), key='%s %s' % (f['q'], w), detail=describe(eng, st, 12))
    return R.finish('every path of the decoders and encoders of string.hpp, all code units and code points', minimum={'coders': 8})
