"""A failing external call must be visible in the outcome of the operation that made it."""
import os, re, time, json, multiprocessing as mp
import common
from pai import *
from own import no_throw
NEG = 'neg'; NZ = 'nz'; NULLP = 'null'; M1 = 'm1'; NE1 = 'ne1'; LE0 = 'le0'; SHORT = 'short'; Z0 = 'zero'
FAIL = {}
for n in 'open open64 openat creat read write pread pwrite recv send recvfrom sendto accept accept4 socket connect bind listen setsockopt getsockopt lseek lseek64 fstat fstat64 fsync fdatasync ftruncate ftruncate64 epoll_create epoll_create1 epoll_ctl epoll_wait pipe pipe2 fcntl fcntl64 ioctl dup dup2 rename unlink waitpid vasprintf shutdown sigaction poll select fork close msync munmap mkdir readv writev deflate inflate eventfd'.split(): FAIL[n] = NEG
for n in 'pthread_create pthread_join pthread_detach pthread_setspecific pthread_attr_init pthread_attr_setstacksize getaddrinfo getnameinfo posix_memalign fclose deflateInit_ deflateInit2_ inflateInit_ inflateInit2_ compress2 uncompress regcomp'.split(): FAIL[n] = NZ
for n in 'fopen fopen64 fdopen opendir EVP_MD_CTX_new EVP_CIPHER_CTX_new SSL_new SSL_CTX_new EVP_get_digestbyname HMAC SSL_set_fd malloc calloc realloc'.split(): FAIL[n] = NULLP
for n in ('mmap', 'mmap64'): FAIL[n] = M1
for n in 'EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal_ex EVP_DigestFinal EVP_CipherInit_ex EVP_CipherUpdate EVP_CipherFinal_ex EVP_CIPHER_CTX_set_padding SHA1_Init SHA1_Update SHA1_Final SHA256_Init SHA256_Update SHA256_Final SHA512_Init SHA512_Update SHA512_Final SHA224_Init SHA224_Update SHA384_Init SHA384_Update'.split(): FAIL[n] = NE1
for n in 'SSL_connect SSL_read SSL_write SSL_accept'.split(): FAIL[n] = LE0
for n in ('fread', 'fwrite'): FAIL[n] = SHORT
# process.hpp: the status pipe carries no data of the caller; reading nothing from it is the documented sign of success
# calls whose result says nothing an operation depends on
CLEANUP = {'close', 'munmap', 'fclose', 'shutdown'}

def fail_cond(name, r, args):
    k = FAIL[name]
    if k == NEG: return cmp_('slt', r, C(0, r.w)) if name in ('deflate', 'inflate', 'vasprintf') else cmp_('eq', r, C((1 << r.w) - 1, r.w))
    if k == NZ: return cmp_('ne', r, C(0, r.w))
    if k == NULLP: return cmp_('eq', r, C(0, r.w))
    if k == M1: return cmp_('eq', r, C((1 << r.w) - 1, r.w))
    if k == NE1: return cmp_('ne', r, C(1, r.w))
    if k == LE0: return cmp_('sle', r, C(0, r.w))
    if k == SHORT: return cmp_('ult', r, args[2])

class FHooks(Hooks):
    max_states = 20000; undecided_unroll = 1; unroll = 64
    def __init__(self, names, root): self.sites = set(); self.names = names; self.root = root
    def init(self, eng, st): st.mon = ()
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def carry(self, eng, st, entry_mon, vals): return tuple((k, (v[0], 0, 1)) for k, v in st.mon)
    def call(self, eng, st, i, name, q, args):
        if name not in self.names: return None
        fr = [x[2] for x in eng.m.chain(i.get('l'))]
        if any(x.startswith('~') for x in fr): return None            # inside a destructor: best effort
        if (name in ('read', 'close') and fr and eng.m.chain(i.get('l'))[0][0].endswith('/process.hpp')): return None
        if name in CLEANUP and not re.search('close', self.root, re.I): return None
        if st.mon and name not in dict(st.mon): return None           # one failure at a time
        self.sites.add((name, i.get('l')))
        d = {k: v for k, v in st.mon if k != name}   # called again: a retry
        r = eng.fresh(st, i)
        if r is None: return None
        eng.havoc_args(st, i, name, args); eng.havoc(st, ERRNO)
        if FAIL[name] == NEG and name in ('read', 'write', 'recv', 'send', 'pread', 'pwrite', 'readlink') and st.assume(cmp_('sge', r, C((1 << r.w) - 1, r.w)), 1):
            st.assume(cmp_('sle', r, args[2]), 1) if name != 'readlink' else 0
        if FAIL[name] == SHORT: st.assume(cmp_('ule', r, args[2]), 1)
        if name in ('fopen', 'fopen64', 'EVP_MD_CTX_new', 'SSL_new'): PTR.add(r)
        c = fail_cond(name, r, args)
        s2 = st.copy(); out = []
        if st.assume(c, 0) and (FAIL[name] != NEG or st.assume(cmp_('sge', r, C(0, r.w)), 1)):
            st.mon = tuple(sorted(d.items(), key=str)); out.append((st, r, 'ret', None))
        if s2.assume(c, 1):
            e = eng.load_raw(s2, ERRNO, 0, 4); s2.assume(cmp_('sge', e, C(1, 32)), 1); s2.assume(cmp_('sle', e, C(4095, 32)), 1)
            d[name] = (i.get('l'), r.id, 1 if d or s2.eh else 0)
            s2.mon = tuple(sorted(d.items(), key=str)); s2.tr = (i.get('l'), X(('FAILED:' + name,), 1), 1, s2.tr); out.append((s2, r, 'ret', None))
        return out

def outcome_fails(eng, ex, f, fact, r_id):
    """does this normal exit tell the caller about a failure"""
    st = ex.st; v = ex.val; why = None
    if v is not None:
        ret = (fact or {}).get('ret', '')
        if v.w == 1 or ret in ('bool', '_Bool'):
            if st.truth(trunc(v, 1) if v.w > 1 else v) == 0: return 'returns false'
            return None if not out_flag(eng, st, f, fact) else 'flag'
        if v.id == r_id or any(a.id == r_id for a in v.at): return 'returns the failing result'
        if st.srng(v)[1] <= 0 or st.const(v) == (1 << v.w) - 1: return 'returns a failure value'
        for t in v.at:
            if t.op == 'x' and t.a[0] == 'ld' and t.a[1] is ERRNO: return 'returns errno'
    return 'flag' if out_flag(eng, st, f, fact) else None
def out_flag(eng, st, f, fact):
    """a caller-supplied bool or int error cell is set accordingly"""
    args = f['args']; ps = (fact or {}).get('params', [])
    sh = len(args) - len(ps)
    for k, p in enumerate(ps):
        t = p['c']
        if t not in ('_Bool *', 'bool *', 'int *', '_Bool &', 'int &') or k + sh < 0: continue
        a = args[k + sh]; b = X(('arg', k + sh, a['n']), 64)
        v = st.mem.get(b, {}).get((0, 1 if 'ool' in t else 4))
        if v is None: continue
        if 'ool' in t:
            if st.truth(trunc(v, 1)) == 0: return True
        else:
            if any(x.op == 'x' and x.a[0] == 'ld' and x.a[1] is ERRNO for x in v.at) or (v.op == 'x' and v.a[0] == 'ld' and v.a[1] is ERRNO): return True
            c = st.const(v)
            if c is not None and c != 0: return True
    return False

def dont_throw(eng, st, f, fact):
    ps = (fact or {}).get('params', []); sh = len(f['args']) - len(ps)
    for k, p in enumerate(ps):
        if re.search('dont|no_?throw', p['n'], re.I) and p['c'] in ('bool', '_Bool'):
            a = st.env.get(f['args'][k + sh]['id'])
            if a is not None and st.truth(trunc(a, 1)) == 1: return True
    return False
def errnos(st):
    t = st.tr; out = []
    while t:
        _, c, v, t = t
        for x in subterms(c):
            if x.op == 'x' and x.a[0] == 'ld' and x.a[1] is ERRNO: out.append((x, st.const(x)))
    return out
_M = None; _F = None
def one(job):
    m, isd = job
    f = _M.funcs[m]; fact = _F.get(m)
    h = FHooks(FAIL, f['q'].rsplit('::', 1)[-1]); eng = Engine(_M, m, h, max_time=60)
    try: eng.run()
    except (Incomplete, RecursionError) as e: return m, [], 0, 0, str(e)[:200]
    bad = {}
    for ex in eng.exits:
        if ex.kind != 'ret': continue
        for name, (loc, rid, extra) in ex.st.mon:
            if outcome_fails(eng, ex, f, fact, rid): continue
            if dont_throw(eng, ex.st, f, fact): continue
            if name == 'connect' and any(x[1] == 115 for x in errnos(ex.st)): continue    # EINPROGRESS: completion is awaited
            bad.setdefault((name, loc), (name, _M.loc(loc), _M.loc(ex.loc), describe(eng, ex.st, 12), (_M.chain(loc) or [['?', 0, '?']])[0][2]))
    return m, list(bad.values()), len(eng.exits), len(h.sites), None
def collect():
    """-> [(function facts, qualified and demangled name, violations, exits, sites, error)] over all configurations"""
    global _M, _F
    out = []
    for F, p, only, cfg in common.configs():
        _M = Module(p); _F = {mn: f for f in F['funcs'] for mn in f['mangled']}
        jobs = []
        for m, f in _M.funcs.items():
            if m not in _F or _F[m]['kind'] == 'dtor' or (only and not only.match(f['q'])): continue
            if any(i.get('callee') and i['callee'][0] == 'fn' and i['callee'][1] in FAIL for b in f['blocks'] for i in b['i']): jobs.append((m, False))
        with mp.Pool(8) as P: res = P.map(one, jobs, chunksize=1)
        out += [(_F[m], _M.funcs[m]['q'], _M.funcs[m]['dem'] + cfg, bad, ex, ns, err) for m, bad, ex, ns, err in res]
    return out
