"""C25: the built-in hashes hand their compression function exactly the padded message, however it was divided."""
import re
import multiprocessing as mp
import common
from pai import *
from own import no_throw
GH = ptr_atom(('ghost25',)); PTR.add(GH)
#        block, length field, word, initial value (FIPS 180-4)
ALG = {'sha1': (64, 8, 4, (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0)),
       'sha256': (64, 8, 4, (0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19)),
       'sha512': (128, 16, 8, (0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179))}
DEFS = ('-DCYBOZU_DONT_USE_OPENSSL', '-DNDEBUG', '-Wno-invalid-offsetof')
OPU = r'^cybozu::Sha(1|256|512)::round$'
OPD = r'^cybozu::(Sha(1|256|512)::(round|update)|sha2_local::Common<.*>::inner_update)$'
leaf = lambda q: re.sub(r'<.*>', '', re.sub(r'\[abi.*?\]', '', q)).rsplit('::', 1)[-1]
class B(Hooks):
    unroll = 400; undecided_unroll = 2; max_states = 4000; oom = False; peel = True
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
class Cap(B):
    """what the constructor leaves behind"""
    def init(self, eng, st): self.seen = None
    def call(self, eng, st, i, name, q, args):
        if leaf(q).startswith('use_'):
            b, o = split_addr(args[0]); self.seen = lambda off, n: eng.load_raw(st, b, o + off, n)
            self.vals = self.grab(self.seen); return [(st, None, 'ret', None)]
class Dig(B):
    """mon = (was the data handed over, rounds done)"""
    def __init__(self, k, r, O, adds): self.k = k; self.r = r; self.O = O; self.adds = adds; self.bs, self.lf, self.w, _ = ALG[k]
    def state(self, eng, st, tag):
        O = self.O; h = self.this; E = eng.store_raw
        E(st, h, O['on'], 8, C(self.r, 64)); E(st, h, O['ot'], 8, sub(X(('total', tag), 64), C(self.r, 64)))
        for j in range(self.bs): E(st, h, O['ob'] + j, 1, X(('data' if j < self.r else 'old', tag, j), 8))
        for j in range(len(ALG[self.k][3])): E(st, h, O['oh'] + self.w * j, self.w, X(('h', tag, j), 8 * self.w))
        st.memo = {}
    def init(self, eng, st):
        self.bad = []; self.out = {}; self.skip = None; f = eng.f
        A = {a['n']: st.env[a['id']] for a in f['args']}
        self.this = A['h']; self.A = A; PTR.add(self.this); self.state(eng, st, 0); st.mon = (0, 0, None)
        if 'on' in A: st.assume(cmp_('ule', C(self.w * len(ALG[self.k][3]), 64), A['on']), 1)
    def fail(self, what, i): self.bad.append((what, i.get('l')))
    def call(self, eng, st, i, name, q, args):
        one = [(st, None, 'ret', None)]; lf = leaf(q)
        if lf in ('update', 'inner_update') and 'Sha' in q:
            if len(args) != 3: self.skip = 'update from something else'; return one
            u, n, _ = st.mon
            if u or n: self.fail('the data is handed over more than once, or after the end of the message', i)
            if split_addr(args[0])[0] is not self.this or args[1] is not self.A['b'] or st.truth(cmp_('eq', args[2], self.A['n'])) != 1: self.fail('the data hashed is not exactly the caller\'s', i)
            st.mon = (1, 0, None); self.state(eng, st, 1); return one
        if lf == 'round' and 'Sha' in q:
            u, n, _ = st.mon; b, o = split_addr(args[1]); r, bs = self.r, self.bs
            if not isinstance(o, int): self.skip = 'position of the block not decided'; return one
            U = shlc(X(('total', u), 64), 3); two = r >= bs - self.lf
            ld = lambda j: eng.load_raw(st, b, o + j, 1)
            cz = lambda v: st.const(v)
            want_data = n == 0; want_len = n == (1 if two else 0)
            if n > (1 if two else 0): self.fail('a message whose last block holds %d bytes is followed by more padding blocks than the standard says' % r, i)
            else:
                ok = True
                for j in range(bs):
                    v = ld(j)
                    if want_len and j >= bs - 8: g = tuple(bits(v)) == tuple((X(('total', u), 64), 8 * (bs - 1 - j) + k - 3) if 8 * (bs - 1 - j) + k >= 3 else 0 for k in range(8)); w = 'length of the message in bits'
                    elif want_data and j < r: g = v is X(('data', u, j), 8); w = 'data'
                    elif want_data and j == r: g = cz(v) == 0x80; w = 'end mark'
                    else: g = cz(v) == 0; w = 'zero padding'
                    if not g: self.fail('a message whose last block holds %d bytes: byte %d of padding block %d is not the %s' % (r, j, n + 1, w), i); break
            for j in range(len(ALG[self.k][3])): eng.store_raw(st, self.this, self.O['oh'] + self.w * j, self.w, X(('h', 'r', n, j), 8 * self.w))
            t = eng.load_raw(st, self.this, self.O['ot'], 8); eng.store_raw(st, self.this, self.O['ot'], 8, add(t, C(self.bs, 64))) if self.adds else None
            st.memo = {}; st.mon = (u, n + 1, None); return one
        if 'basic_string' in q and lf == 'basic_string' and len(args) >= 3 and split_addr(args[0])[0] is self.A.get('agg.result'):
            b, o = split_addr(args[1]); u, n, _ = st.mon
            st.mon = (u, n, (st.const(args[2]), tuple(eng.load_raw(st, b, o + j, 1) for j in range(20)) if isinstance(o, int) else None)); return None
        return None
def par(t):
    """each bit as the set of input bits (and the constant 1) whose parity it is"""
    if is_c(t): return tuple(frozenset([1]) if t.a[0] >> k & 1 else frozenset() for k in range(t.w))
    if t.op == 'xor': return tuple(x ^ y for x, y in zip(par(t.a[0]), par(t.a[1])))
    if t.op == 'trunc': return par(t.a[0])[:t.w]
    if t.op == 'zext': return par(t.a[0]) + (frozenset(),) * (t.w - t.a[0].w)
    if t.op == 'lin' and t.a[0] == (1 << t.w) - 1 and len(t.a[1]) == 1 and t.a[1][0][1] % (1 << t.w) == (1 << t.w) - 1: return tuple(x ^ {1} for x in par(t.a[1][0][0]))
    return tuple(frozenset() if b == 0 else frozenset([1]) if b == 1 else frozenset([b if b is not None else (t, k)]) for k, b in enumerate(bits(t)))
class Mac(B):
    """mon = pieces of the message begun, digests made so far"""
    def __init__(self, kn): self.kn = kn
    def init(self, eng, st):
        self.bad = []; self.skip = None; self.A = A = {a['n']: st.env[a['id']] for a in eng.f['args']}; st.mon = ((), 0, None)      # (object -> pieces), number of digests, digests
        for x in ('o', 'k', 'b'): PTR.add(A[x])
        if self.kn is None: st.assume(cmp_('ult', C(64, 64), A['kn']), 1)
        else:
            A['kn'] = C(self.kn, 64); st.env[next(a['id'] for a in eng.f['args'] if a['n'] == 'kn')] = A['kn']
            for j in range(self.kn): eng.store_raw(st, A['k'], j, 1, X(('key', j), 8))
        st.memo = {}
    def piece(self, eng, st, p, n):
        b, o = split_addr(p); c = st.const(n)
        if p is self.A['b'] and st.truth(cmp_('eq', n, self.A['n'])) == 1: return 'msg'
        if p is self.A['k'] and n is self.A['kn'] and self.kn is None: return 'key'
        if c is not None and isinstance(o, int) and c <= 128: return tuple(eng.load_raw(st, b, o + j, 1) for j in range(c))
        return '?'
    def call(self, eng, st, i, name, q, args):
        lf = leaf(q); one = lambda v=None: [(st, v, 'ret', None)]
        if 'Sha256' not in q: return None
        al, n, last = st.mon; me = args[0]; ps = dict(al).get(me, ()); put = lambda v: tuple(sorted([x for x in al if x[0] is not me] + [(me, v)], key=lambda x: x[0].id))
        if lf in ('Sha256', 'clear'): st.mon = (put(()), n, last); return one()
        if lf == '~Sha256': return one()
        if lf == 'update' and len(args) == 3: st.mon = (put(ps + (self.piece(eng, st, args[1], args[2]),)), n, last); return one()
        if lf == 'digest' and len(args) == 5:
            ps += (self.piece(eng, st, args[3], args[4]),); n += 1
            b, o = split_addr(args[1])
            if not isinstance(o, int) or st.const(args[2]) is None or st.const(args[2]) < 32: self.skip = 'digest into an unknown place'
            else:
                for j in range(32): eng.store_raw(st, b, o + j, 1, X(('dig', n, j), 8))
                st.memo = {}
            st.mon = (put(ps), n, (last or ()) + ((ps, n),)); return one(C(32, 64))
        self.skip = 'use of %s' % q[:60]; return one()
    def verdict(self, eng, st):
        ds = list(st.mon[2] or ()); flat = lambda ps: [y for x in ps for y in (x if isinstance(x, tuple) else (x,))]
        if self.kn is None:
            if not ds or flat(ds[0][0]) != ['key']: return 'a key longer than a block is not replaced by its digest'
            d0 = ds.pop(0)[1]; key = [X(('dig', d0, j), 8) for j in range(32)]
        else: key = [X(('key', j), 8) for j in range(self.kn)]
        pad = lambda c: [par(xor_(x, C(c, 8))) for x in key + [C(0, 8)] * (64 - len(key))]
        bt = lambda l: [par(x) if isinstance(x, T) else x for x in l]
        if len(ds) != 2: return 'there are not exactly an inner and an outer digest'
        if bt(flat(ds[0][0])) != pad(0x36) + ['msg']: return 'the inner digest is not that of the key with the inner pad followed by the message'
        if bt(flat(ds[1][0])) != pad(0x5c) + [par(X(('dig', ds[0][1], j), 8)) for j in range(32)]: return 'the outer digest is not that of the key with the outer pad followed by the inner digest'
        if [eng.load_raw(st, self.A['o'], j, 1) for j in range(32)] != [X(('dig', ds[1][1], j), 8) for j in range(32)]: return 'the result is not the outer digest'
def mac(kn):
    M = _J['H']; h = Mac(kn); nm = 'hmac256 with a key of %s bytes' % ('more than 64' if kn is None else kn)
    f = [m for m, f in M.funcs.items() if leaf(f['q']) == 'hm_sha256'][0]; eng = Engine(M, f, h, max_time=60)
    try: eng.run()
    except Incomplete as x: return nm, None, str(x), 0
    bad = []; n = 0
    for e in eng.exits:
        if e.kind != 'ret': continue
        n += 1; w = h.verdict(eng, e.st)
        if w: bad.append(w)
    return nm, bad, h.skip, n
shlc = lambda t, n: mulc(t, 1 << n)
class Upd(B):
    ghosts = ((GH, 0, 8),)      # bytes taken; mon = (bytes in the buffer,)
    def __init__(self, k, r, O, adds, n=None): self.k = k; self.r = r; self.O = O; self.adds = adds; self.bs = ALG[k][0]; self.cn = n
    def init(self, eng, st):
        self.bad = []; self.skip = self.soft = None; O = self.O
        A = {a['n']: st.env[a['id']] for a in eng.f['args']}; self.this = A['h']; self.buf = A['b']; self.n = A['n']; PTR.add(self.this); PTR.add(self.buf)
        eng.store_raw(st, self.this, O['on'], 8, C(self.r, 64)); eng.store_raw(st, self.this, O['ot'], 8, sub(X(('total', 0), 64), C(self.r, 64)))
        eng.store_raw(st, GH, 0, 8, C(0, 64)); st.mon = (C(self.r, 64),); st.memo = {}
        if self.cn is None: st.assume(cmp_('ule', self.n, C((1 << 60), 64)), 1)
        else: self.n = C(self.cn, 64); st.env[next(a['id'] for a in eng.f['args'] if a['n'] == 'n')] = self.n
    def g(self, eng, st): return eng.load_raw(st, GH, 0, 8), st.mon[0]
    def vague(self, *ts):
        """values of a loop the analysis has generalised, whose relation to each other it may have missed"""
        return any(x.op == 'x' and x.a and str(x.a[0]).startswith(('dphi', 'dmphi', 'phi', 'mphi', 'hav')) for t in ts if isinstance(t, T) for x in subterms(t))
    def fail(self, what, i, *ts):
        if self.vague(*ts): self.soft = what
        else: self.bad.append((what, i.get('l')))
    def inbuf(self, base, off): return base is self.this and (not isinstance(off, int) or self.O['ob'] <= off < self.O['ob'] + self.bs)
    def store(self, eng, st, inst, base, off, size, val):
        if val is None or not self.inbuf(base, off): return
        pos, fill = self.g(eng, st)
        if self.cn is not None and size == 1 and isinstance(off, int) and is_c(pos) and is_c(fill) and off == self.O['ob'] + fill.a[0] and val is eng.load_raw(st, self.buf, pos.a[0], 1):
            eng.store_raw(st, GH, 0, 8, add(pos, C(1, 64))); st.mon = (add(fill, C(1, 64)),); st.memo = {}
        else: self.skip = 'the buffer is filled in another way'
    def call(self, eng, st, i, name, q, args):
        one = [(st, None, 'ret', None)]; eq = lambda a, b: a is b or st.truth(cmp_('eq', a, b)) == 1
        le = lambda a, b: st.truth(cmp_('ule', a, b)) == 1
        pos, fill = self.g(eng, st)
        if name and (name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove')):
            b, o = split_addr(args[0])
            if b is not self.this: return None
            n = args[2]
            if not eq(args[0], add(add(self.this, C(self.O['ob'], 64)), fill)): self.fail('data is not put behind what the buffer holds', i, args[0], fill)
            elif not eq(args[1], add(self.buf, pos)): self.fail('data is not taken from where the last piece ended', i, args[1], pos)
            elif not le(add(fill, n), C(self.bs, 64)) or not le(n, C(self.bs, 64)): self.fail('more is put into the buffer than one block', i, fill, n)
            elif not le(n, sub(self.n, pos)): self.fail('more is taken than the caller gave', i, pos, n)
            eng.store_raw(st, GH, 0, 8, add(pos, n)); st.mon = (add(fill, n),); st.memo = {}; return one
        if leaf(q) == 'round' and 'Sha' in q:
            a = args[1]; b, o = split_addr(a); bs = C(self.bs, 64)
            if b is self.this and o == self.O['ob']:
                if not eq(fill, bs): self.fail('a block is processed that is not full', i, fill)
                st.mon = (C(0, 64),)
            else:
                if not eq(a, add(self.buf, pos)): self.fail('the block processed does not start where the last piece ended', i, a, pos)
                elif not eq(fill, C(0, 64)): self.fail('data in the buffer is overtaken', i, fill)
                elif not le(bs, sub(self.n, pos)): self.fail('a block is processed that reaches past the caller\'s data', i, pos)
                eng.store_raw(st, GH, 0, 8, add(pos, bs))
            t = eng.load_raw(st, self.this, self.O['ot'], 8)
            if self.adds: eng.store_raw(st, self.this, self.O['ot'], 8, add(t, bs))
            st.memo = {}; return one
        if any(isinstance(x, T) and x.w == 64 and self.inbuf(*split_addr(x)) and split_addr(x)[1] != 0 for x in args): self.skip = 'the buffer is filled by %s' % q[:60]
        return None
_J = {}
def one(j):
    kind, k, r, O, adds = j[:5]
    M = _J['U' if kind == 'up' else 'D']; F = _J['F' + ('U' if kind == 'up' else 'D')]
    h = (Upd if kind == 'up' else Dig)(k, r, O, adds, *j[5:]); eng = Engine(M, F['%s_%s' % (kind, k)], h, max_time=40)
    try: eng.run()
    except Incomplete as x: return j, [], 0, str(x), 0
    bad = [(w, M.loc(l)) for w, l in dict.fromkeys(h.bad)]; n = 0; rounds = 0
    for e in eng.exits:
        if e.kind != 'ret': continue
        n += 1; st = e.st; eq = lambda a, b: a is b or st.truth(cmp_('eq', a, b)) == 1
        if kind == 'up':
            pos, fill = h.g(eng, st); lo = M.loc(e.loc)
            nn = eng.load_raw(st, h.this, O['on'], 8); tt = eng.load_raw(st, h.this, O['ot'], 8); nb = len(bad)
            if not eq(pos, h.n): bad.append(('update returns although it has not taken all the data', lo))
            elif not eq(nn, fill): bad.append(('the number of bytes said to be in the buffer is not what is in it', lo))
            elif st.truth(cmp_('ult', fill, C(h.bs, 64))) != 1: bad.append(('a full block is left in the buffer', lo))
            elif adds and not eq(add(tt, fill), add(X(('total', 0), 64), h.n)): bad.append(('the length of the message is miscounted', lo))
            if len(bad) > nb and h.vague(pos, fill, nn, tt): h.soft = bad.pop()[0]
        else:
            u, m, cap = st.mon; lo = M.loc(e.loc); two = r >= h.bs - h.lf
            if not u and not eq(h.A['n'], C(0, 64)): bad.append(('the data given to digest is not hashed', lo))
            if m != 1 + two: bad.append(('a message whose last block holds %d bytes is padded to %d blocks' % (r, m), lo)); continue
            N = len(ALG[k][3]); W = ALG[k][2]
            if k == 'sha1':
                if cap is None or cap[1] is None: return j, bad, n, None if bad else 'result not seen', 0
                got = cap[1]
                if cap[0] != 20: bad.append(('the digest returned has not 20 bytes', lo)); continue
            else:
                if not eq(e.val, C(N * W, 64)): bad.append(('the size returned is not that of the digest', lo))
                got = [eng.load_raw(st, h.A['o'], x, 1) for x in range(N * W)]
            for x in range(N * W):
                a = X(('h', 'r', m - 1, x // W), 8 * W); p = W - 1 - x % W
                if tuple(bits(got[x])) != tuple((a, 8 * p + z) for z in range(8)): bad.append(('byte %d of the digest is not that of the state after the last block' % x, lo)); break
            if k == 'sha1' and not _same(eng, st, h.this, O, k): bad.append(('after digest the object is not ready for a new message', lo))
    if h.skip: return j, [], n, h.skip, 0
    if kind == 'up' and h.soft and not bad: return j, [], n, 'relation not found (%s)' % h.soft, 0
    return j, list(dict.fromkeys(bad)), n, None, 0
def _same(eng, st, h, O, k):
    c = lambda off, n: st.const(eng.load_raw(st, h, off, n))
    return c(O['on'], 8) == 0 and c(O['ot'], 8) == 0 and all(c(O['oh'] + ALG[k][2] * x, ALG[k][2]) == v for x, v in enumerate(ALG[k][3]))
def check(R):
    for t, op in (('U', OPU), ('D', OPD)):
        try: M = _J[t] = Module(common.ir('sha_drv.cpp', defs=DEFS, opaque=op))
        except common.ToolError as x: R.skip('sha1.hpp, sha2.hpp', 'the members the analysis relies on are not there: %s' % str(x)[:200]); M = None; break
        _J['F' + t] = {leaf(f['q']): m for m, f in M.funcs.items() if f['q'].startswith('cybozu::drv::')}
    if M:
        M = _J['U']; F = _J['FU']; jobs = []
        for k in ALG:
            O = {}; bs, lf, w, iv = ALG[k]; need = ['%s_%s' % (x, k) for x in ('oh', 'ob', 'on', 'ot', 'mk', 'up', 'dg') + (('clr',) if k != 'sha1' else ())]
            if not all(x in _J['FU'] and x in _J['FD'] for x in need): R.skip(k, 'members the analysis relies on are not there'); continue
            for o in ('oh', 'ob', 'on', 'ot'):
                e = Engine(M, F['%s_%s' % (o, k)], B()); e.run(); O[o] = e.exits[0].st.const(e.exits[0].val)
            # does processing a block count its bytes?
            rq = [m for m, f in M.funcs.items() if f['q'] == 'cybozu::Sha%s::round' % k[3:] and len(f['args']) == 2]
            if not rq: R.skip(k, 'no function that processes one block'); continue
            h = B(); e = Engine(M, rq[0], h, max_time=100)
            try: e.run()
            except Incomplete as x: R.skip(k, str(x)); continue
            T0 = None; adds = set()
            for x in e.exits:
                if x.kind != 'ret': continue
                this = ptr_atom(('arg', 0, e.f['args'][0]['n'])); st0 = State0(e, this, O['ot'])
                d = x.st.const(sub(e.load_raw(x.st, this, O['ot'], 8), st0)); adds.add(d)
            if adds == {bs}: ad = True
            elif adds == {0}: ad = False
            elif len(adds) == 1 and None not in adds: R.ob(False); R.violation(M.loc(e.exits[0].loc), '%s: processing a block of %d bytes counts %d' % (k, bs, adds.pop()), key='%s: bytes of a block' % k); continue
            else: R.skip(k, 'how the length is counted is not understood'); continue
            if not ad: R.skip(k, 'length counted elsewhere'); continue
            R.ob()
            # newly made and cleared objects
            h = Cap(); h.grab = lambda s: [s(O['on'], 8), s(O['ot'], 8)] + [s(O['oh'] + w * x, w) for x in range(len(iv))]
            e = Engine(M, F['mk_' + k], h); e.run()
            st = e.exits[0].st; v = [st.const(x) for x in h.vals]; ok = v == [0, 0] + list(iv); R.ob(ok)
            if not ok: R.violation(M.loc(e.exits[0].loc) if not M.loc(e.exits[0].loc).startswith('/verif') else 'include/cybozu/%s.hpp' % ('sha1' if k == 'sha1' else 'sha2'), '%s: a new object does not start with an empty message and the initial value of the standard' % k, key='%s: initial state' % k)
            if k != 'sha1':
                e = Engine(M, F['clr_' + k], B()); e.run()
                for x in e.exits:
                    ok = x.kind == 'ret' and _same(e, x.st, ptr_atom(('arg', 0, e.f['args'][0]['n'])), O, k); R.ob(ok)
                    if not ok: R.violation('include/cybozu/sha2.hpp', '%s: clear does not start a new message' % k, key='%s: clear' % k)
            jobs += [(kind, k, r, O, True) for r in range(bs) for kind in ('up', 'dg')]
            # and messages of up to six blocks on their own, where nothing has to be generalised
            jobs += [('up', k, r, O, True, n) for r in (0, 1, bs // 2, bs - 1) for n in range(6 * bs + 2) if n % bs in (0, 1, 2, bs - 1, bs - r, (bs - r - 1) % bs, (bs - r + 1) % bs)]
        left = {}
        with mp.Pool(8) as P:
            for j, bad, n, sk, _ in P.imap_unordered(one, jobs, chunksize=4):
                kind, k, r = j[:3]; nm = '%s::%s with %d bytes in the buffer' % (k, 'update' if kind == 'up' else 'digest', r)
                if sk: left.setdefault((k, kind), []).append((nm, sk)); R.count('states of the buffer not decided'); continue
                R.count('states of the buffer analysed'); R.count('paths', n); R.ob(not bad, max(1, n))
                if not n: R.ob(False); R.violation('include/cybozu/%s.hpp' % ('sha1' if k == 'sha1' else 'sha2'), nm + ' never returns', key='%s never returns' % nm)
                for w, l in bad: R.violation(l if not l.startswith('/verif') else 'include/cybozu/sha2.hpp', '%s: %s' % (nm, w), key='%s %s: %s' % (k, kind, re.sub(r'\d+', '#', w)))
        for (k, kind), l in sorted(left.items()): R.skip('%s and %d other states' % (l[0][0], len(l) - 1), l[0][1])
        _J['H'] = Module(common.ir('sha_drv.cpp', defs=DEFS, opaque=r'^cybozu::Sha256::'))
        with mp.Pool(8) as P:
            if 'hm_sha256' not in F: R.skip('hmac256', 'not there')
            else:
             for nm, bad, sk, n in P.imap_unordered(mac, [None] + list(range(65))):
                if sk: R.skip(nm, sk); continue
                R.count('key lengths'); R.count('paths', n); R.ob(not bad, max(1, n))
                if not n: R.ob(False); bad = ['never returns']
                for w in bad: R.violation('include/cybozu/sha2.hpp (hmac256)', '%s: %s' % (nm, w), key='hmac256: %s' % w)
        R.sample('%d buffer states' % len(jobs))
    R.assume += ['the caller\'s data does not overlap the hash object', 'the function that processes one block is not analysed beyond its counting of bytes']
    return R.finish('Each of Sha1, Sha256 and Sha512 (built-in) is analysed for every number of bytes its buffer can hold and any amount of new data: ghost counters of bytes taken and bytes buffered show that update hands over every byte once, in order, in full blocks; at digest the padding blocks are compared byte by byte (bit provenance for the length) with FIPS 180-4')
def State0(e, this, off):
    """the value the cell had on entry"""
    E = Engine(e.m, e.fn, B()); v = []
    class H(B):
        def init(self, eng, st): v.append(eng.load_raw(st, this, off, 8)); raise Incomplete('enough')
    try: Engine(e.m, e.fn, H()).run()
    except Incomplete: pass
    return v[0]
