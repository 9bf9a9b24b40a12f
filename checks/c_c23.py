"""C23: functions reporting through a bool* flag."""
import re, multiprocessing as mp
import common
from pai import *
from own import no_throw
ENTRY = {'cybozu::' + x for x in ('MemoryOutputStream::write', 'RandomGenerator::read', 'Socket::write', 'StringOutputStream::write', 'Time::fromString', 'XorShift128Plus::read',
         'XorShift::read', 'Xoroshiro128Plus::read', 'atoi_local::convertHexToInt', 'atoi_local::convertToInt', 'atoi_local::convertToUint', 'read', 'stream_local::writeSub', 'write', 'writeChar')}
class BHooks(Hooks):
    unroll = 8; undecided_unroll = 1; max_states = 30000
    def __init__(self, k): self.k = k
    def init(self, eng, st):
        self.p = st.env[eng.f['args'][self.k]['id']]; st.mon = ()
        st.r[self.p] = (4096, (1 << 63) - 1); self.thr = []
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def call(self, eng, st, i, name, q, args):
        if name is None or name in eng.m.funcs and not re.match(r'(InS|OutS)::', q): return None
        # the caller's stream reports through the same flag, and its own exceptions are the caller's
        if re.match(r'(InS|OutS|std::.*stream)', q) or 'stream' in q:
            if any(a is self.p for a in args):
                eng.store_raw(st, self.p, 0, 1, zext(X(('streamflag', i.get('id', 0)), 1), 8)); st.memo = {}
                return [(st, eng.fresh(st, i), 'ret', None)] if i.get('ty') else [(st, None, 'ret', None)]
        return None
_M = None; MODS = []
def one(job):
    m, k, mod = job; _M = MODS[mod]; f = _M.funcs[m]; h = BHooks(k); eng = Engine(_M, m, h, max_time=200)
    try: eng.run()
    except (Incomplete, RecursionError) as e: return m, [], 0, str(e)[:200]
    bad = []; n = 0; vals = set()
    for ex in eng.exits:
        n += 1
        if ex.kind == 'unwind':
            if not (isinstance(ex.val, str) and ex.val.startswith('_ZTI')) or 'bad_alloc' in ex.val: continue      # thrown by the caller's stream or by the standard library, not by a throw of the library
            bad.append(('lets an exception out although a flag was supplied', _M.loc(ex.loc), describe(eng, ex.st, 10))); continue
        if ex.kind != 'ret': continue
        v = ex.st.mem.get(h.p, {}).get((0, 1))
        if v is None or any(t.op == 'x' and t.a[0] == 'ld' and t.a[1] is h.p for t in v.at) or (v.op == 'x' and v.a[0] == 'ld' and v.a[1] is h.p):
            bad.append(('returns without setting the flag', _M.loc(ex.loc), describe(eng, ex.st, 10))); continue
        for c in (0, 1):
            if ex.st.copy().assume(cmp_('eq', v, C(c, 8)), 1): vals.add(c)
        if any(t.op == 'x' and t.a[0] == 'undef' for t in v.at): bad.append(('sets the flag to an indeterminate value', _M.loc(ex.loc), []))
    return m, bad, n, None
def check(R):
    global _M
    F = common.facts(); _M = Module(common.ir())
    # long parsers: number conversion as an opaque step (judged on its own)
    MODS[:] = [_M, Module(common.ir(opaque=common.OPAQUE + r'|^cybozu::atoi', roots='^cybozu::Time::'))]
    jobs = []
    # a helper that only functions with a flag call is part of those functions: judged there (calls are followed)
    callers = {}
    for f in F['funcs']:
        flag = any(p['c'] in ('_Bool *', 'bool *') for p in f['params'])
        for c in f['calls']: callers.setdefault(c['callee'], set()).add(flag)
    helpers = {n for n, v in callers.items() if v == {True}}
    for f in F['funcs']:
        if f['name'] not in ENTRY and f['name'] in helpers: continue
        for k, p in enumerate(f['params']):
            if p['c'] in ('_Bool *', 'bool *') and p['n'] in ('b', 'pb') and f['kind'] not in ('dtor', 'ctor'):
                if f['file'].endswith('option.hpp') or f.get('access') in ('private', 'protected'): continue
                for m in f['mangled']:
                    if m not in _M.funcs: continue
                    g = _M.funcs[m]
                    if re.search(r'<cybozu::(File|Socket|ssl::)', g['dem']): continue      # streams of the caller that throw themselves
                    jobs.append((m, k + len(g['args']) - len(f['params']), 1 if m in MODS[1].funcs and f['file'].endswith('time.hpp') else 0))
    jobs = list(dict.fromkeys(jobs))
    with mp.Pool(8) as P: res = P.map(one, jobs, chunksize=1)
    for m, bad, n, err in res:
        dem = _M.funcs[m]['dem']
        if err: R.skip(dem[:120], err); continue
        R.count('functions'); R.count('exits', n); R.ob(not bad, n); R.sample('%s: %d exits' % (dem[:120], n))
        for w, l, d in bad: R.violation(l, '%s: %s' % (dem[:160], w), key='%s: %s' % (_M.funcs[m]['q'], w), detail=d)
    R.assume += ['exceptions thrown by a stream class of the caller and memory exhaustion are outside the property', 'functions of the standard library called on these paths do not throw otherwise']
    return R.finish('For every function with a success flag parameter (bool *b / *pb, non-null), all paths: each normal exit has definitely assigned the flag, no exit is by an exception that the library throws.', minimum={'functions': 20})
