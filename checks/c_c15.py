"""C15: compile-only witnesses: every header alone, twice, together in both orders, under every
standard and optional switch; and no header defines a strong external symbol."""
import concurrent.futures as cf, os, re, shutil, subprocess, tempfile
from common import *
STDS = ['c++98', 'c++11', 'c++14', 'c++17', 'c++20', 'c++23']
SWITCHES = ['-DNDEBUG', '-DCYBOZU_DONT_USE_OPENSSL', '-DCYBOZU_SOCKET_USE_EPOLL', '-DCYBOZU_EXCEPTION_WITH_STACKTRACE',
            '-DCYBOZU_EXCEPTION_WITH_STACKTRACE -DCYBOZU_STACKTRACE_RESOLVE_SYMBOL', '-DCYBOZU_SERIALIZER_FIXED_SIZE_INTEGER', '-DCYBOZU_FMINDEX_USE_CSUCVECTOR',
            '-DCYBOZU_WAVELET_MATRIX_DIRECT_CONSTRUCT', '-DCYBOZU_RE_USE_BOOST_REGEX', '-DCYBOZU_TEST_DISABLE_AUTO_RUN', '-DCYBOZU_BENCH_USE_CPU_TIMER',
            '-DCYBOZU_BENCH_USE_GETTIMEOFDAY', '-DCYBOZU_NLP_SVD_USE_RANDOM', '-DCYBOZU_USE_OPENSSL_SHA']
F = ['-w', '-D_FILE_OFFSET_BITS=64', '-I' + INC, '-x', 'c++']
ALLOWED = {'main': 'cybozu/test.hpp is documented to supply main unless CYBOZU_TEST_DISABLE_AUTO_RUN is given'}

def errs(r): return [l for l in r.stderr.splitlines() if 'error' in l or 'undefined' in l][:5]
def syntax(a):
    cc, inc, std, sw = a
    r = sh([cc, '-std=' + std, '-fsyntax-only'] + F + sw.split() + ['-'], input=''.join('#include <%s>\n' % h for h in inc))
    return a, r.returncode, errs(r)
def symbols(a):
    h, std, sw, d, i = a
    o = '%s/%d.o' % (d, i)
    r = sh(['clang++', '-std=' + std, '-c', '-O0'] + F + sw.split() + ['-o', o, '-'], input='#include <%s>\n' % h)
    if r.returncode: return a, None, errs(r)
    n = sh(['nm', '-P', '--defined-only', '--extern-only', o]).stdout
    c = {}
    for l in n.splitlines():
        p = l.split()
        if len(p) > 1: c[p[0]] = p[1]
    os.unlink(o)
    bad = [s for s, t in c.items() if t in 'TDBRSGC']
    return a, bad, len(c)

def check(R):
    H = [h[len(INC):] for h in headers()]
    jobs = [('clang++', (h, h), s, '') for h in H for s in STDS]
    jobs += [('g++', (h, h), s, '') for h in H for s in (STDS if R.tier == 'thorough' else ('c++98', 'c++11', 'c++17'))]
    jobs += [('clang++', (h, h), s, w) for w in SWITCHES for h in H for s in (STDS if R.tier == 'thorough' else ('c++17',)) if uses(h, w)]
    for s in STDS:
        jobs += [('clang++', tuple(H), s, ''), ('clang++', tuple(reversed(H)), s, '')]
    d = tempfile.mkdtemp(prefix='c15')
    try:
        with cf.ThreadPoolExecutor(8) as P:
            for (cc, inc, std, sw), rc, e in P.map(syntax, jobs):
                n = inc[0] if inc[0] == inc[1] else 'all headers together, first %s' % inc[0]
                R.count('translation units'); R.ob(rc == 0)
                if rc:
                    w = re.search(r'([\w/.+-]+:\d+)', e[0]) if e else None
                    R.violation(w.group(1) if w else n, '%s does not compile on its own with %s -std=%s %s: %s' % (n, cc, std, sw, (e or ['?'])[0][-200:]), key='selfcontained %s' % n, detail=e)
            sj = [(h, s, w, d, 0) for h in H for s, w in (('c++98', ''), ('c++17', ''), ('c++17', '-DCYBOZU_EXCEPTION_WITH_STACKTRACE -DCYBOZU_SOCKET_USE_EPOLL'))]
            for a, bad, n in P.map(symbols, [x[:4] + (i,) for i, x in enumerate(sj)]):
                if bad is None: continue
                R.count('object files'); R.count('external symbols', n); R.ob(not [b for b in bad if b not in ALLOWED])
                for b in bad:
                    if b in ALLOWED and a[0].endswith('test.hpp'): continue
                    dem = sh(['c++filt', b]).stdout.strip()
                    R.violation(a[0], '%s is defined in header %s with strong linkage: two translation units including it do not link' % (dem, a[0]), key='odr %s' % dem)
    finally: shutil.rmtree(d)
    R.count('headers', len(H))
    R.sample('clang++ -std=c++98 -fsyntax-only <<< "#include <%s> (twice)"' % H[0])
    return R.finish('every header, included alone and twice, must be accepted by the compiler under each standard and switch; no object file made from a header alone may define a strong external symbol',
                    minimum={'headers': 40}, level='proof')

_src = {}
def uses(h, sw):
    """does the header (or one it includes) mention a macro of the switch; otherwise the switch cannot matter"""
    seen = set(); todo = [h]
    names = re.findall(r'-D(\w+)', sw)
    while todo:
        x = todo.pop()
        if x in seen or not os.path.exists(INC + x): continue
        seen.add(x)
        if x not in _src: _src[x] = open(INC + x, errors='replace').read()
        if any(re.search(r'\b%s\b' % n, _src[x]) for n in names) or 'NDEBUG' in names: return True
        todo += re.findall(r'#\s*include\s*[<"](cybozu/[^>"]+)', _src[x])
    return False
