"""C04: exact-size transfers."""
import re, multiprocessing as mp, time
import common
from pai import *
from own import no_throw
GH = ptr_atom(('ghost',))
SZ = {'void': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8}
# primitive -> (direction, buffer arg, size arg)
PRIM = {'read': ('r', 1, 2), 'recv': ('r', 1, 2), 'write': ('w', 1, 2), 'send': ('w', 1, 2), 'SSL_read': ('r', 1, 2), 'SSL_write': ('w', 1, 2), 'pread': ('r', 1, 2), 'pwrite': ('w', 1, 2)}
# streams kept in memory: judged on their own (memory_streams), elsewhere any stream
MEM = r'^cybozu::(Memory|String)InputStream::readSome$'
EINTR = 4; EAGAIN = 11; EINPROGRESS = 115
class THooks(Hooks):
    max_states = 20000; undecided_unroll = 1; unroll = 8
    def __init__(self, bufi, sizei, esz): self.bufi = bufi; self.sizei = sizei; self.esz = esz; self.bad = []; self.n = 0; self.sites = set()
    def init(self, eng, st):
        self.bad = []; self.sites = set(); self.n = 0
        self.buf = st.env[eng.f['args'][self.bufi]['id']]
        self.total = mul(st.env[eng.f['args'][self.sizei]['id']], C(self.esz, 64)) if self.esz != 1 else st.env[eng.f['args'][self.sizei]['id']]
        # the caller's block lies inside the address space
        eng.store_raw(st, GH, 0, 8, C(0, 64))
        st.mon = ('ok',)
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def ghost(self, eng, st): return eng.load_raw(st, GH, 0, 8)
    def fail(self, eng, st, i, what): self.bad.append((what, i.get('l'), st))
    def lift(self, st, n):
        """an extended truncation of a 64-bit sum that provably fits is that sum"""
        if n.op not in ('zext', 'sext'): return n
        a = n.a[0]; k, parts = lin_parts(a); out = C(k, 64)
        for t, c in parts:
            if t.op != 'trunc' or t.a[0].w != 64: return n
            out = add(out, mulc(t.a[0], c if c < 1 << (a.w - 1) else c - (1 << a.w)))
        if trunc(out, a.w) is not a: return n
        lim = (1 << a.w) - 1 if n.op == 'zext' else (1 << (a.w - 1)) - 1
        return out if st.truth(cmp_('ule', out, C(lim, 64))) == 1 else n
    def arg64(self, a): return sext(a, 64) if a.w < 64 else a
    def request(self, eng, st, i, buf, n, name):
        """a transfer of up to n bytes at buf starts: position and size must fit"""
        self.sites.add((name, i.get('l'))); self.n += 1
        g = self.ghost(eng, st)
        if st.truth(cmp_('eq', buf, add(self.buf, g))) != 1: self.fail(eng, st, i, '%s does not continue at the position where the previous transfer stopped' % name)
        rest = sub(self.total, g)
        if st.truth(cmp_('ule', n, rest)) != 1: self.fail(eng, st, i, '%s may be asked for more bytes than remain' % name)
    def advance(self, eng, st, r):
        g = self.ghost(eng, st); eng.store_raw(st, GH, 0, 8, add(g, r)); st.memo = {}
    def call(self, eng, st, i, name, q, args):
        if name is None: return None
        last = strip_t(q).rsplit('::', 1)[-1]
        if name in PRIM:
            d, bi, si = PRIM[name]; n0 = args[si]
            n = self.lift(st, self.arg64(n0))
            if st.mon[0] == 'eof': self.fail(eng, st, i, '%s is called again after the other side reported end of data: the loop never ends' % name)
            if st.mon[0] == 'err': self.fail(eng, st, i, '%s is retried after an error other than an interrupted call: the loop never ends' % name)
            self.request(eng, st, i, args[bi], n, name)
            r = eng.fresh(st, i); eng.havoc(st, ERRNO)
            if d == 'r': eng.havoc_obj(st, args[bi], 0)
            out = []
            r64 = self.arg64(r)
            pos = st.copy(); r0 = r
            if r.w == 64 and st.truth(cmp_('ule', n, C(0x7fffffff, 64))) == 1: r = r64 = zext(X(('small', r.id), 31), 64)
            if pos.assume(cmp_('sgt', r, C(0, r.w)), 1) and pos.assume(cmp_('sle', r, trunc(n, r.w) if r.w < 64 else n), 1) and pos.assume(cmp_('ule', r64, n), 1):
                pos.mon = ('ok',); self.advance(eng, pos, r64); out.append((pos, r, 'ret', None))
            r = r0
            if name.startswith('SSL_'):
                neg = st.copy()
                if neg.assume(cmp_('sle', r, C(0, r.w)), 1): neg.mon = ('ssl',); out.append((neg, r, 'ret', None))
                return out
            if d == 'r':
                z = st.copy()
                if z.assume(cmp_('eq', r, C(0, r.w)), 1): z.mon = ('eof',) if z.truth(cmp_('eq', n, C(0, 64))) != 1 else ('ok',); out.append((z, C(0, r.w), 'ret', None))
            neg = st.copy()
            if neg.assume(cmp_('eq', r, C((1 << r.w) - 1, r.w)), 1):
                e = eng.load_raw(neg, ERRNO, 0, 4)
                for code in (EINTR, None):
                    s2 = neg.copy()
                    if code is not None:
                        if s2.assume(cmp_('eq', e, C(code, 32)), 1): s2.mon = ('intr',); out.append((s2, C((1 << r.w) - 1, r.w), 'ret', None))
                    elif s2.assume(cmp_('eq', e, C(EINTR, 32)), 0): s2.mon = ('err',); out.append((s2, C((1 << r.w) - 1, r.w), 'ret', None))
            return out
        if name == 'SSL_get_error':
            r = eng.fresh(st, i); out = []
            if st.mon[0] != 'ssl': return [(st, r, 'ret', None)]     # asked again for the same call
            for c, m in ((2, 'intr'), (3, 'intr'), (6, 'eof')):
                s2 = st.copy()
                if s2.assume(cmp_('eq', r, C(c, 32)), 1): s2.mon = (m,); out.append((s2, r, 'ret', None))
            if st.assume(cmp_('eq', r, C(2, 32)), 0) and st.assume(cmp_('eq', r, C(3, 32)), 0) and st.assume(cmp_('eq', r, C(6, 32)), 0): st.mon = ('err',); out.append((st, r, 'ret', None))
            return out
        if name in ('fread', 'fwrite'):
            n = mul(args[1], args[2]) if not is_c(args[1]) else mulc(args[2], args[1].a[0])
            if st.mon[0] == 'eof': self.fail(eng, st, i, '%s is called again after it transferred nothing: the loop never ends' % name)
            self.request(eng, st, i, args[0], n, name)
            r = eng.fresh(st, i); out = []
            unit = args[1].a[0] if is_c(args[1]) else 1
            if name == 'fread': eng.havoc_obj(st, args[0], 0)
            z = st.copy()
            if st.assume(cmp_('ugt', r, C(0, 64)), 1) and st.assume(cmp_('ule', r, args[2]), 1):
                st.mon = ('ok',); self.advance(eng, st, mulc(r, unit)); out.append((st, r, 'ret', None))
            if z.assume(cmp_('eq', r, C(0, 64)), 1): z.mon = ('eof',); out.append((z, C(0, 64), 'ret', None))
            return out
        if last == 'readSome' and not name in eng.m.funcs or q.startswith('InS::readSome') or re.match(MEM, q):
            k = 1 if len(args) >= 3 else 0
            buf, n = args[k], args[k + 1]
            if st.mon[0] == 'eof': self.fail(eng, st, i, 'the stream is read again after it reported end of data: the loop never ends')
            self.request(eng, st, i, buf, n, 'readSome')
            r = eng.fresh(st, i); eng.havoc_obj(st, buf, 0); z = st.copy(); out = []
            if st.assume(cmp_('ugt', r, C(0, 64)), 1) and st.assume(cmp_('ule', r, n), 1):
                st.mon = ('ok',); self.advance(eng, st, r); out.append((st, r, 'ret', None))
            if z.assume(cmp_('eq', r, C(0, 64)), 1): z.mon = ('eof',); out.append((z, C(0, 64), 'ret', None))
            s3 = z.copy(); out.append((s3, None, 'throw', '?'))
            return out
        if q.startswith('std::') and last == 'read' and 'istream' in q:
            if st.mon[0] == 'eof': self.fail(eng, st, i, 'the stream is read again after it reported end of data: the loop never ends')
            self.request(eng, st, i, args[1], args[2], 'istream::read'); eng.havoc_obj(st, args[1], 0)
            st.mon = ('ok', 'pend', args[2].id); self.pend = args[2]
            return [(st, args[0], 'ret', None)]
        if q.startswith('std::') and last == 'gcount':
            r = eng.fresh(st, i)
            if len(st.mon) < 3: return [(st, r, 'ret', None)]
            n = self.pend; out = []; z = st.copy()
            if st.assume(cmp_('sgt', r, C(0, 64)), 1) and st.assume(cmp_('ule', r, n), 1): st.mon = ('ok',); self.advance(eng, st, r); out.append((st, r, 'ret', None))
            if z.assume(cmp_('eq', r, C(0, 64)), 1): z.mon = ('eof',); out.append((z, C(0, 64), 'ret', None))
            return out
        if (q.startswith('std::') and last == 'write' and 'ostream' in q) or q.startswith('OutS::write') or q.startswith('cybozu::MemoryOutputStream::write') or (q.startswith('std::') and last == 'append' and len(args) == 3):
            k = len(args) - 2
            self.request(eng, st, i, args[k], args[k + 1], last); self.advance(eng, st, args[k + 1])
            out = [(st, args[0] if i.get('ty') else None, 'ret', None)]
            if 'ostream' in q:
                s2 = st.copy(); s2.mon = ('werr',); out.append((s2, args[0], 'ret', None))
            if q.startswith(('OutS', 'cybozu::Mem')):
                if len(args) == 4: self.flagcall(eng, st, args[1])
                s2 = st.copy(); out.append((s2, None, 'throw', '?'))
            return out
        if q.startswith('std::basic_ios') and st.mon[0] in ('ok', 'werr') and len(st.mon) == 1:
            f = st.mon[0] == 'werr'; w = {'i1': 1, 'i8': 8, 'i32': 32, 'i64': 64}.get(i.get('ty'))
            v = {'operator!': f, 'fail': f, 'bad': f, 'good': not f, 'operator bool': not f, 'eof': False, 'rdstate': f, 'operator void*': not f}.get(last)
            if v is not None and w: return [(st, C(int(v), w), 'ret', None)]
            if f: st.mon = ('ok',)
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            db = split_addr(args[0])[0]; sb = split_addr(args[1])[0]; b0 = split_addr(self.buf)[0]
            if db is b0 or sb is b0:
                self.request(eng, st, i, args[0] if db is b0 else args[1], args[2], 'memcpy'); self.advance(eng, st, args[2])
        return None
    def flagcall(self, eng, st, p):
        b, o = split_addr(p)
        if isinstance(o, int): eng.store_raw(st, b, o, 1, X(('flag', p.id), 8)); st.memo = {}

def strip_t(q):
    while True:
        r = re.sub(r'<[^<>]*>', '', q)
        if r == q: return q
        q = r
_M = None; _F = None
def roots():
    out = []
    for m, f in _M.funcs.items():
        fa = _F.get(m)
        if not fa or fa['kind'] == 'ctor': continue
        nm = fa['name'].rsplit('::', 1)[-1]
        if nm not in ('read', 'write', 'writeSub'): continue
        if f['q'].startswith('cybozu::MemoryOutputStream::') or 'Zlib' in f['q'] or 'Pipe' in f['q'] or 'Csv' in f['q'] or 'Base64' in f['q']: continue
        if re.search(r'XorShift|Xoroshiro|Pcg|SFMT', f['q']): continue
        ps = fa['params']; sh = len(f['args']) - len(ps)
        b = s = None
        for k, p in enumerate(ps):
            mm = re.match(r'^(const )?([\w ]+?) \*$', p['c'])
            if mm and mm.group(2) in SZ and p['c'] not in ('_Bool *', 'bool *') and b is None and k + 1 < len(ps) and ps[k + 1]['c'] == 'unsigned long': b = k; s = k + 1; esz = SZ[mm.group(2)]
        if b is None: continue
        pb = next((k for k, p in enumerate(ps) if p['c'] in ('_Bool *', 'bool *')), None)
        out.append((m, b + sh, s + sh, esz, None if pb is None else pb + sh))
    return out
def one(job):
    m, b, s, esz, pb = job
    f = _M.funcs[m]
    h = THooks(b, s, esz); eng = Engine(_M, m, h, max_time=120)
    try: eng.run()
    except (Incomplete, RecursionError) as e: return m, [], 0, 0, str(e)[:200]
    bad = {}
    for what, l, st in h.bad: bad.setdefault((what, _M.loc(l)), describe(eng, st, 12))
    n = 0
    for ex in eng.exits:
        if ex.st.mon and ex.st.mon[0] == 'intr': bad.setdefault(('gives up after an interrupted or temporarily blocked call instead of retrying it', _M.loc(ex.loc)), describe(eng, ex.st, 12))
        if ex.kind != 'ret': continue
        st = ex.st.copy()
        if pb is not None:
            v = eng.load_raw(st, X(('arg', pb, f['args'][pb]['n']), 64), 0, 1)
            if v.op == 'x' and v.a[0] == 'flag': continue     # set by the stream itself
            if not st.assume(trunc(v, 1), 1): continue
        n += 1
        g = h.ghost(eng, st)
        if st.mon == ('werr',): bad.setdefault(('returns normally although the stream did not take the data', _M.loc(ex.loc)), describe(eng, st, 12))
        if st.truth(cmp_('eq', g, h.total)) != 1: bad.setdefault(('returns normally although not all bytes were transferred', _M.loc(ex.loc)), describe(eng, st, 12))
    return m, [(w, l, d) for (w, l), d in bad.items()], n, len(h.sites), None
def collect():
    global _M, _F
    F = common.facts(); _M = Module(common.ir(opaque=common.OPAQUE + r'|^cybozu::((Memory|String)InputStream::readSome|MemoryOutputStream::write)$'))
    _F = {mn: f for f in F['funcs'] for mn in f['mangled']}
    js = roots()
    with mp.Pool(8) as P: return P.map(one, js, chunksize=1)
# ------------------------------------------------------------------ streams kept in memory
class MS(Hooks):
    """mon = copies made: (destination, source, number of bytes)"""
    oom = False
    buf = None; other = False
    def init(self, eng, st): st.mon = (); self.other = False; self.this = st.env[eng.f['args'][0]['id']]; self.pre(eng, st)
    def store(self, eng, st, inst, base, off, size, val):      # copied in some other way than memcpy
        if self.buf is not None and val is not None and any(base is split_addr(x)[0] for x in (self.buf, self.data)): self.other = True
    def pre(self, eng, st): pass
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def call(self, eng, st, i, name, q, args):
        if name is None: return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
            if st.truth(cmp_('eq', args[2], C(0, 64))) != 1: st.mon = st.mon + ((args[0], args[1], args[2]),)
            return None
        if self.buf is not None and any(isinstance(a, T) and split_addr(a)[0] is split_addr(x)[0] for a in args for x in (self.buf, self.data)): self.other = True
        if 'basic_string' in (q or ''):
            last = strip_t(q).rsplit('::', 1)[-1].replace('[abi:cxx11]', ''); R = lambda v: [(st, v, 'ret', None)]
            L = X(('strlen', args[0].id), 64); D = ptr_atom(('strdata', args[0].id)); PTR.add(D)
            if last in ('size', 'length'): return R(L)
            if last in ('data', 'c_str', 'begin', 'cbegin'): return R(D)
            if last == 'empty': return R(cmp_('eq', L, C(0, 64)))
            if last in ('operator[]', 'at') and len(args) == 2: return R(add(D, args[1]))
            if last in ('copy',) and len(args) == 4: raise Incomplete(q)
        return None
def layout(M, cls):
    """where the constructor keeps data, size and position"""
    for m, f in M.funcs.items():
        leaf = cls.rsplit('::', 1)[-1]
        if f['q'] != '%s::%s' % (cls, leaf) or 'C2E' not in m or 'E' + 'RKS' in m: continue
        h = MS(); eng = Engine(M, m, h); eng.run()
        ex = [e for e in eng.exits if e.kind == 'ret']
        if len(ex) != 1: continue
        mem = ex[0].st.mem.get(h.this, {}); a = [ptr_atom(('arg', k, x['n'])) if k < 2 else X(('arg', k, x['n']), 64) for k, x in enumerate(f['args'])]
        at = lambda t: next((o for (o, s), v in mem.items() if s == 8 and v is t), None)
        z = [o for (o, s), v in mem.items() if s == 8 and is_c(v) and v.a[0] == 0]
        d = at(a[1]); n = at(a[2]) if len(a) > 2 else None
        if d is None or len(z) != 1 or (len(a) > 2 and n is None): return None
        return d, n, z[0]
    return None
def memory_streams(R):
    M = Module(common.ir())
    for cls, way in (('cybozu::MemoryInputStream', 'r'), ('cybozu::StringInputStream', 'r'), ('cybozu::MemoryOutputStream', 'w')):
        try: L = layout(M, cls)
        except Incomplete: L = None
        if L is None: R.skip(cls, 'members not understood'); continue
        for m, f in sorted(M.funcs.items()):
            fa = _F.get(m)
            if not fa or f['q'] != cls + ('::readSome' if way == 'r' else '::write') or fa.get('access') in ('private', 'protected'): continue
            ps = fa['params']; sh = len(f['args']) - len(ps)
            k = next((k for k, p in enumerate(ps) if 'void *' in p['c']), None)
            if k is None or k + 1 >= len(ps): continue
            pb = next((j for j, p in enumerate(ps) if p['c'] in ('_Bool *', 'bool *')), None)
            class H(MS):
                def pre(self, eng, st):
                    e = lambda j: st.env[f['args'][j]['id']]
                    self.buf, self.size = e(k + sh), e(k + 1 + sh); PTR.add(self.buf)
                    p = eng.load_raw(st, self.this, L[0], 8, True); PTR.add(p); self.pos = eng.load_raw(st, self.this, L[2], 8)
                    if L[1] is None: self.data = ptr_atom(('strdata', p.id)); PTR.add(self.data); self.n = X(('strlen', p.id), 64)
                    else: self.data = p; self.n = eng.load_raw(st, self.this, L[1], 8)
                    st.assume(cmp_('ule', self.pos, self.n), 1)
            h = H(); eng = Engine(M, m, h, max_time=60)
            try: eng.run()
            except Incomplete as x: R.skip(f['dem'], str(x)); continue
            bad = []; R.count('memory streams'); R.count('paths', len(eng.exits))
            for e in eng.exits:
                st = e.st
                if e.kind not in ('ret', 'unwind'): continue
                if any(not (split_addr(c[0])[0] is split_addr(h.buf)[0] or split_addr(c[1])[0] is split_addr(h.buf)[0]) for c in st.mon): R.skip(f['dem'], 'copies of other data'); continue
                eq = lambda a, b: a is b or st.truth(cmp_('eq', a, b)) == 1
                np = eng.load_raw(st, h.this, L[2], 8); room = sub(h.n, h.pos); ok = e.kind == 'ret'
                if pb is not None and ok:
                    v = trunc(eng.load_raw(st, X(('arg', pb + sh, f['args'][pb + sh]['n']), 64), 0, 1), 1); ok = st.truth(v)
                    if ok is None: R.skip(f['dem'], 'flag not decided'); continue
                R.ob()
                n = (e.val if way == 'r' else h.size) if ok else C(0, 64)
                if ok and st.truth(cmp_('ule', n, h.size)) != 1: bad.append(('may transfer more than was asked for', e))
                if ok and st.truth(cmp_('ule', n, room)) != 1: bad.append(('may go past the end of the data', e)); continue
                if ok and way == 'r' and not eq(n, h.size) and not eq(n, room): bad.append(('transfers less than is there', e)); continue
                if not eq(np, add(h.pos, n)): bad.append(('does not move the position by what was transferred', e))
                if h.other: R.skip(f['dem'], 'copied in another way'); continue
                if eq(n, C(0, 64)) and not st.mon: continue
                src, dst = (add(h.data, h.pos), h.buf) if way == 'r' else (h.buf, add(h.data, h.pos))
                if len(st.mon) != 1 or not eq(st.mon[0][0], dst) or not eq(st.mon[0][1], src) or not eq(st.mon[0][2], n): bad.append(('does not copy exactly the bytes between the position and the buffer', e))
            R.ob(not bad)
            for w, e in bad: R.violation(M.loc(e.loc), '%s %s' % (f['dem'], w), key='%s: %s' % (f['q'], w), detail=describe(eng, e.st, 12))
def check(R):
    for m, bad, n, ns, err in collect():
        dem = _M.funcs[m]['dem']
        if err: R.skip(dem, err); continue
        R.count('transfer functions'); R.count('transfer call sites', ns); R.count('successful exits', n); R.ob(not bad, max(1, n + 2 * ns))
        R.sample('%s: %d transfer sites, %d success exits' % (dem[:140], ns, n))
        if not ns and not n: R.count('without transfers')
        for w, l, d in bad: R.violation(l, '%s: %s' % (dem, w), key='%s: %s' % (_M.funcs[m]['q'], w), detail=d)
    memory_streams(R)
    R.assume += ['primitive models: read/write/recv/send/SSL_*/fread/istream/readSome transfer between 0 and the requested number of bytes', 'the buffer does not overlap the stream object']
    return R.finish('Every read/write(buffer, size) of files, sockets, SSL sockets, streams and the random generator is analysed with a ghost counter of transferred bytes: each primitive transfer must start at buffer+counter and ask for at most size-counter bytes (inductive loop invariants), normal successful exits need counter == size, and after end of data or a permanent error no further primitive call may follow.', minimum={'transfer functions': 15, 'transfer call sites': 12})
