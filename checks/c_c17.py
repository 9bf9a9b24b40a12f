"""C17: which algorithm each identifier runs, on every path, and the sizes reported for it."""
import re
import common
from pai import *
from own import no_throw
HASHES = {'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64}
CIPHERS = {'aes%d%s' % (n, m): (n, m) for n in (128, 192, 256) for m in ('cbc', 'ecb')}
def lit(eng, st, a):
    b, o = split_addr(a); s = ''
    while isinstance(o, int) and len(s) < 40:
        c = st.const(eng.load_raw(st, b, o, 1))
        if c is None: return None
        if not c: return s
        s += chr(c); o += 1
    return None
class CH(Hooks):
    unroll = 16; undecided_unroll = 3; max_states = 60000
    """mon: frozenset-like dict as tuple of (kind, key, value)"""
    def init(self, eng, st): st.mon = (); self.bad = []; self.fin = 0; self.ev = []
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def store(self, eng, st, inst, base, off, size, val):
        if eng.f['q'].startswith('cybozu::drv::sdig') and base is ptr_atom(('arg', 0, eng.f['args'][0]['n'])) and st.mon[-1:] != (('final', None, None),): st.mon = st.mon + (('final', None, None),)
    def alg(self, st, t):
        b, o = split_addr(t)
        if isinstance(b, T) and b.op == 'x' and b.a and b.a[0] == 'alg': return b.a[1]
        return None
    def call(self, eng, st, i, name, q, args):
        one = lambda v=None: [(st, v, 'ret', None)]
        def obj(*k): t = ptr_atom(k); st.r[t] = (4096, (1 << 63) - 1); st.memo = {}; return t
        def fork(v):
            s2 = st.copy(); s2.mon = s2.mon + (('fail',),); st.mon = st.mon + (('okcall', name),)
            return [(st, C(1, 32), 'ret', None), (s2, v, 'ret', None)]
        if name == 'EVP_get_digestbyname':
            n = lit(eng, st, args[0])
            n = n.lower().replace('-', '') if n else '?'
            s2 = st.copy(); return [(st, obj('alg', n), 'ret', None), (s2, C(0, 64), 'ret', None)]
        m = re.match(r'EVP_(sha\d+|md5)$', name or '')
        if m: return one(obj('alg', m.group(1)))
        m = re.match(r'EVP_aes_(\d+)_(\w+)$', name or '')
        if m: return one(obj('alg', 'aes%s%s' % (m.group(1), m.group(2))))
        if name in ('EVP_MD_CTX_new', 'EVP_CIPHER_CTX_new'): return one(obj('ctx', i['id']))
        if name in ('EVP_DigestInit_ex', 'EVP_DigestInit', 'EVP_DigestInit_ex2'):
            a = self.alg(st, args[1]); st.mon = st.mon + (('init', a, args[0]),); self.ev.append((a, i.get('l'))); return fork(C(0, 32))
        if name in ('EVP_DigestUpdate',): st.mon = st.mon + (('update', args[0], args[1], args[2]),); return fork(C(0, 32))
        if name in ('EVP_DigestFinal_ex', 'EVP_DigestFinal'): st.mon = st.mon + (('final', args[0], args[1]),); return fork(C(0, 32))
        if name == 'EVP_MD_CTX_reset': return one(C(1, 32))
        if name in ('EVP_MD_get_size', 'EVP_MD_size'):
            a = self.alg(st, args[0]); return one(C(HASHES[a], 32) if a in HASHES else self.unk(st, i))
        if name in ('EVP_CIPHER_get_key_length', 'EVP_CIPHER_key_length'):
            a = self.alg(st, args[0]); return one(C(CIPHERS[a][0] // 8, 32) if a in CIPHERS else self.unk(st, i))
        if name in ('EVP_CIPHER_get_iv_length', 'EVP_CIPHER_iv_length'):
            a = self.alg(st, args[0]); return one(C(0 if CIPHERS[a][1] == 'ecb' else 16, 32) if a in CIPHERS else self.unk(st, i))
        if name in ('EVP_CIPHER_get_block_size', 'EVP_CIPHER_block_size'): return one(C(16, 32))
        if name in ('EVP_CipherInit_ex', 'EVP_CipherInit_ex2', 'EVP_CipherInit'):
            st.mon = st.mon + (('cinit', self.alg(st, args[1]), args[0], args[3], args[4], args[5]),); self.cinit(eng, st, i, args); return fork(C(0, 32))
        if name == 'EVP_CIPHER_CTX_set_padding': st.mon = st.mon + (('pad', args[1]),); return fork(C(0, 32))
        if name == 'HMAC':
            st.mon = st.mon + (('hmac', self.alg(st, args[0])) + tuple(args[1:5]),); s2 = st.copy()
            return [(st, args[5], 'ret', None), (s2, C(0, 64), 'ret', None)]
        if re.match(r'std::.*basic_string<char.*::(c_str|data)$', q) and len(args) == 1: return one(obj('cstr', args[0]))
        if re.match(r'std::.*basic_string<char.*::(size|length)$', q) and len(args) == 1:
            t = X(('strsize', args[0]), 64); st.r[t] = (0, (1 << 62) - 1); st.memo = {}; return one(t)
        if re.match(r'std::.*basic_string<char.*::resize$', q) and len(args) >= 2: st.mon = st.mon + (('resize', st.const(args[1])),); return one()
        if re.match(r'std::.*basic_string<char.*::basic_string', q):
            d = M_dem(eng, name)
            if re.search(r'basic_string(<[^(]*>)?\(unsigned long, char', d): st.mon = st.mon + (('resize', st.const(args[1])),)
            elif re.search(r'basic_string(<[^(]*>)?\(char const\*, unsigned long', d): st.mon = st.mon + (('resize', st.const(args[2])),)
            return None
        eq = None
        if name in ('strcmp', 'strncmp', 'memcmp'): eq = (lit(eng, st, args[0]) or lit(eng, st, args[1]), 32, 'cmp')
        elif re.match(r'std::operator==', q): eq = (lit(eng, st, args[0]) or lit(eng, st, args[1]), 1, 'eq')
        elif re.match(r'std::operator!=', q): eq = (lit(eng, st, args[0]) or lit(eng, st, args[1]), 1, 'ne')
        elif re.match(r'std::.*basic_string<char.*::compare$', q) and len(args) == 2: eq = (lit(eng, st, args[1]), 32, 'cmp')
        if eq and eq[0] is not None:
            same = {'cmp': C(0, 32), 'eq': C(1, 1), 'ne': C(0, 1)}[eq[2]]; other = {'cmp': C(1, 32), 'eq': C(0, 1), 'ne': C(1, 1)}[eq[2]]
            s2 = st.copy(); st.mon = st.mon + (('is', eq[0]),); s2.mon = s2.mon + (('isnot', eq[0]),)
            return [(st, same, 'ret', None), (s2, other, 'ret', None)]
        return None
    def unk(self, st, i): return X(('unk', i['id']), 32)
    def cinit(self, eng, st, i, args):
        a = self.alg(st, args[1])
        for w, arg, need, exact in (('key', 0, CIPHERS.get(a, (0, ''))[0] // 8, 1), ('vector', 1, 16 if a in CIPHERS and CIPHERS[a][1] == 'cbc' else 0, 0)):
            s = ptr_atom(('arg', arg, eng.f['args'][arg]['n']))
            n = X(('strsize', s), 64)
            lo, hi = st.rng(n)
            if args[3 + arg] is not ptr_atom(('cstr', s)): self.bad.append(('the %s handed to the cipher is not the caller\'s %s' % (w, w), i.get('l')))
            if exact and st.truth(cmp_('eq', trunc(n, 32), C(need, 32))) != 1 and (lo, hi) != (need, need): self.bad.append(('the cipher is set up though the %s length is not known to be %d bytes' % (w, need), i.get('l')))
            if not exact and lo < need: self.bad.append(('the cipher is set up though the %s may be shorter than the %d bytes the cipher reads' % (w, need), i.get('l')))
def M_dem(eng, n): return eng.m.dem(n)
def check(R):
    for cfg, defs in (('OpenSSL', ()), ('built-in SHA-2', ('-DCYBOZU_DONT_USE_OPENSSL',))):
        M = Module(common.ir('crypto_drv.cpp', defs=defs, opaque=r'^cybozu::(Exception|ErrorNo|exception::|NetErrorNo%s)' % ('' if cfg == 'OpenSSL' else r'|sha2_local::Common<.*>::(inner_update|term)|Sha(256|512)::(round|clear)')))
        F = {re.sub(r'\[abi.*\]', '', f['q']).rsplit('::', 1)[-1]: m for m, f in M.funcs.items() if f['q'].startswith('cybozu::drv::')}
        ids = {}; chk = lambda cond, fn, what, loc=None: (R.ob(bool(cond)), None if cond else R.violation(M.loc(loc) if loc is not None and not M.loc(loc).startswith('/verif') else '%s (%s)' % (WH[0], fn), '%s [%s]' % (what, cfg), key='%s: %s' % (fn, what)))
        WH = ['include/cybozu/crypto.hpp']
        def run(fn):
            h = CH(); eng = Engine(M, F[fn], h, max_time=100)
            try: eng.run()
            except Incomplete as x: R.skip(fn, str(x)); return None
            R.count('entry points'); R.count('paths', len(eng.exits))
            return h, eng, [e for e in eng.exits if e.kind == 'ret']
        if cfg == 'OpenSSL':
            for k in list(HASHES) + list(CIPHERS):
                r = run(('hid_' if k in HASHES else 'cid_') + k)
                ids[k] = r[2][0].st.const(r[2][0].val)
            chk(len({ids[k] for k in HASHES}) == 5, 'ids', 'two hash identifiers have the same value')
            chk(len({ids[k] for k in CIPHERS}) == 6, 'ids', 'two cipher identifiers have the same value')
            for k, n in HASHES.items():
                r = run('hsize_' + k)
                if r: chk(r[2] and all(e.st.const(e.val) == n for e in r[2]) and len(r[2]) == len(r[1].exits), 'Hash::getSize', 'the digest size reported for %s is not %d' % (k, n), r[2][0].loc if r[2] else None)
                r = run('hname_' + k)
                if r: chk(r[2] and all(lit(r[1], e.st, e.val) == k for e in r[2]) and len(r[2]) == len(r[1].exits), 'Hash::getName', 'the name reported for %s is not "%s"' % (k, k), r[2][0].loc if r[2] else None)
                r = run('hdig_' + k)
                if r: digest_rule(chk, r, 'Hash::digest', k, n, (0, 1), (2, 3), size=True)
                r = run('hstat_' + k)
                if r:
                    digest_rule(chk, r, 'Hash::digest(static)', k, n, None, (1, 2), size=False)
                    chk(all(e.st.const(e.val) == n for e in r[2]), 'Hash::digest(static)', 'the size returned for %s is not %d' % (k, n))
                r = run('hmac_' + k)
                if r:
                    chk(r[2], 'Hmac', 'HMAC with %s never succeeds' % k)
                    for e in r[2]:
                        hm = [x for x in e.st.mon if x[0] == 'hmac']; A = lambda j: ptr_atom(('arg', j, r[1].f['args'][j]['n']))
                        sr = 1 if r[1].f['args'][0].get('sret') or len(r[1].f['args']) == 3 else 0
                        chk(len(hm) == 1 and hm[0][1] == k, 'Hmac', 'Hmac for %s runs %s' % (k, [x[1] for x in hm]), e.loc)
                        if len(hm) == 1:
                            chk(hm[0][2] is ptr_atom(('cstr', A(sr))) and hm[0][4] is ptr_atom(('cstr', A(sr + 1))), 'Hmac', 'Hmac does not use the caller\'s key and data', e.loc)
                            chk(hm[0][3] is trunc(X(('strsize', A(sr)), 64), 32) and hm[0][5] is X(('strsize', A(sr + 1)), 64), 'Hmac', 'Hmac does not use the lengths of the caller\'s key and data', e.loc)
            for fn, fam, what in (('hsizeany', HASHES, 'Hash::getSize'), ('hnameany', HASHES, 'Hash::getName'), ('hctor', HASHES, 'Hash'), ('mctor', HASHES, 'Hmac'), ('cctor', CIPHERS, 'Cipher'), ('csizeany', CIPHERS, 'Cipher::getSize')):
                r = run(fn)
                if not r: continue
                a = X(('arg', 0, r[1].f['args'][0]['n']), 32)
                for e in r[2]:
                    lo, hi = e.st.rng(a)
                    vs = [v for v in range(lo, min(hi, lo + 64) + 1) if e.st.copy().assume(cmp_('eq', a, C(v, 32)), 1)] if hi - lo < 64 else None
                    chk(vs is not None and all(v in [ids[k] for k in fam] for v in vs), what, '%s accepts identifiers that name no algorithm' % what, e.loc)
            r = run('hparse')
            if r:
                seen = set()
                for e in r[2]:
                    y = [x[1] for x in e.st.mon if x[0] == 'is']
                    v = e.st.const(e.val)
                    chk(len(set(y)) == 1 and y[0] in HASHES and v == ids[y[0]], 'Hash::getName(string)', 'the name %s is mapped to the identifier of %s' % (y or 'of no algorithm', [k for k in HASHES if ids[k] == v] or v), e.loc)
                    seen |= set(y)
                chk(seen >= set(HASHES), 'Hash::getName(string)', 'no name is mapped to %s' % ', '.join(sorted(set(HASHES) - seen)))
            for k, (bitsz, mode) in CIPHERS.items():
                r = run('csize_' + k)
                if r: chk(r[2] and all(e.st.const(e.val) == bitsz for e in r[2]) and len(r[2]) == len(r[1].exits), 'Cipher::getSize', 'the key size reported for %s is not %d bits' % (k, bitsz))
                for d, enc in (('cenc_', 1), ('cdec_', 0)):
                    r = run(d + k)
                    if not r: continue
                    chk(r[2], 'Cipher::setup', 'setup of %s never succeeds' % k)
                    for w, l in r[0].bad: chk(False, 'Cipher::setup', '%s: %s' % (k, w), l)
                    for e in r[2]:
                        ci = [x for x in e.st.mon if x[0] == 'cinit']; pd = [x for x in e.st.mon if x[0] == 'pad']
                        chk(ci and all(x[1] == k for x in ci), 'Cipher', 'Cipher for %s runs %s' % (k, [x[1] for x in ci]), e.loc)
                        chk(ci and all(e.st.const(x[5]) == enc for x in ci), 'Cipher::setup', 'setup for %s does not %s' % ('encoding' if enc else 'decoding', 'encrypt' if enc else 'decrypt'), e.loc)
                        p = X(('arg', 2, r[1].f['args'][2]['n']), 1)
                        chk(pd and e.st.truth(cmp_('eq', pd[-1][1], zext(p, 32))) == 1, 'Cipher::setup', 'padding is not set as the caller asked', e.loc)
        for k, n in (('sha256', 32), ('sha512', 64)):
            WH[0] = 'include/cybozu/sha2.hpp'
            r = run('sdig_' + k)
            if r:
                on = X(('arg', 1, r[1].f['args'][1]['n']), 64)
                for e in r[2]:
                    v = e.st.const(e.val)
                    chk(v in (0, n), 'Sha2::digest', 'the size returned for %s is not %d' % (k, n), e.loc)
                    small = e.st.rng(on)[1] < n; big = e.st.rng(on)[0] >= n
                    chk(small or big, 'Sha2::digest', '%s does not decide on the size of the output buffer' % k, e.loc)
                    if small: chk(v == 0 and not [x for x in e.st.mon if x[0] == 'final'], 'Sha2::digest', '%s writes to an output buffer that is too small' % k, e.loc)
                if cfg == 'OpenSSL': digest_rule(chk, (r[0], r[1], [e for e in r[2] if e.st.const(e.val)]), 'Sha2::digest', k, n, (2, 3), (4, 5), size=False, reinit=False)
            r = run('sstr_' + k)
            if r and cfg == 'OpenSSL':
                chk(r[2], 'Sha2::digest(string)', '%s never succeeds' % k)
                for e in r[2]:
                    z = [x[1] for x in e.st.mon if x[0] == 'resize']
                    chk(z and z[-1] == n, 'Sha2::digest(string)', 'the string returned for %s has not %d bytes' % (k, n), e.loc)
    return R.finish('for every hash and cipher identifier, on every path, the algorithm handed to OpenSSL, the sizes and names reported and the lengths required belong to that algorithm; other identifiers and names only leave by exception', minimum={'entry points': 40}, level='proof')
def digest_rule(chk, r, fn, k, n, upd, last, size, reinit=True):
    h, eng, rets = r
    chk(rets, fn, 'the digest with %s never succeeds' % k)
    f = eng.f; sh = 1 if f['args'] and f['args'][0].get('sret') or (size and len(f['args']) == 5) else 0
    def A(j):
        a = f['args'][j + sh]
        return ptr_atom(('arg', j + sh, a['n'])) if a['ty'] == 'ptr' else X(('arg', j + sh, a['n']), 64)
    for e in rets:
        if any(x[0] == 'fail' for x in e.st.mon): continue          # a failing call reported as success is property C03
        m = [x for x in e.st.mon if x[0] in ('init', 'update', 'final')]
        fi = [j for j, x in enumerate(m) if x[0] == 'final']
        chk(len(fi) == 1, fn, 'digest with %s: the digest is not finished exactly once' % k, e.loc)
        if len(fi) != 1: continue
        before = m[:fi[0]]; ini = [j for j, x in enumerate(before) if x[0] == 'init']
        chk(ini and before[ini[-1]][1] == k and before[ini[-1]][2] is m[fi[0]][1], fn, 'the digest for %s runs %s' % (k, before[ini[-1]][1] if ini else 'nothing'), e.loc)
        u = [x for x in before[(ini[-1] if ini else 0):] if x[0] == 'update']
        want = ([upd] if upd else []) + [last]
        chk(len(u) == len(want) and all(x[2] is A(a) and x[3] is A(b) for x, (a, b) in zip(u, want)), fn, 'digest with %s: the data handed to the algorithm is not exactly the caller\'s data in order' % k, e.loc)
        if reinit: chk(not [x for x in m[fi[0] + 1:] if x[0] == 'update'] and [x[1] for x in m[fi[0] + 1:] if x[0] == 'init'][-1:] in ([k], []), fn, 'digest with %s: the object is not restarted with the same algorithm' % k, e.loc)
        if size:
            z = [x[1] for x in e.st.mon if x[0] == 'resize']
            chk(z and z[-1] == n, fn, 'the string returned for %s has not %d bytes' % (k, n), e.loc)
