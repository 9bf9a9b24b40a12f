"""C20: parallel_for hands out every index once, waits for all workers and reports failures.

parallel_for is analysed with the workers opaque: ghost counters follow which worker was set up, started, waited for and
asked for its error, and where its range ends; loops by induction.  The worker's own loop is analysed with the user's
function opaque, returning or throwing anything."""
import re
import common
from pai import *
from own import no_throw
from c_c04 import strip_t
from c_c10 import consistent
OPQ = common.OPAQUE + r'|^cybozu::(ThreadBase|ScopedArray<.*>)::|^cybozu::parallel_util::'
STRIDE = 1 << 12
EL = ptr_atom(('workers',)); PTR.add(EL); ERR = ptr_atom(('errors',)); PTR.add(ERR); GH = ptr_atom(('ghost',)); PTR.add(GH)
NAMES = ('set up', 'started', 'waited for', 'asked for its error')
class For(Hooks):
    oom = False; unroll = 0; undecided_unroll = 0; peel = True; max_states = 20000; fork_logic = True
    def init(self, eng, st):
        self.bad = []; self.odd = []; st.r[EL] = (4096, 1 << 60); st.r[ERR] = (4096, 1 << 60)
        a = [st.env[x['id']] for x in eng.f['args']]
        self.n, self.t = a[1], a[2]; self.w = self.n.w; self.signed = ', int>' in eng.f['q']
        st.r[self.n] = (0, (1 << 31) - 1); st.r[self.t] = (0, (1 << 31) - 1)
        self.ghosts = tuple((GH, 8 * k, self.w // 8) for k in range(5))     # and the number of workers, which does not change
        for b, o, z in self.ghosts + ((GH, 40, self.w // 8),): eng.store_raw(st, GH, o, z, C(0, 8 * z))
        st.mon = ()
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def fail(self, st, i, w):
        if 'odd' not in st.mon: self.bad.append((w, i.get('l') if i else None, st))
    def odds(self, st, w):
        self.odd.append(w)
        if 'odd' not in st.mon: st.mon = ('odd',) + st.mon
    def g(self, eng, st, k): return eng.load_raw(st, GH, 8 * k, self.w // 8)
    def set(self, eng, st, k, v): eng.store_raw(st, GH, 8 * k, self.w // 8, self.nar(v)); st.memo = {}
    def idx(self, p, base):
        if p is base: return C(0, 64)
        if p.op != 'lin' or base not in p.at: return None
        r = sub(p, base)
        if r.op == 'c': return C(r.a[0] // STRIDE, 64)
        k = C(r.a[0] // STRIDE, 64) if r.op == 'lin' else None
        if k is None: return None
        for x, c in r.a[1]:
            if c % STRIDE: return None
            k = add(k, mulc(x, c // STRIDE))
        return k
    def step(self, eng, st, i, k, which):
        if k is None: raise Incomplete('worker not identified')
        k = self.nar(k)
        up = st.truth(cmp_('eq', k, self.g(eng, st, which))) == 1
        down = which and st.truth(cmp_('eq', k, sub(sub(self.nar(self.g(eng, st, 5)), C(1, self.w)), self.g(eng, st, which)))) == 1
        if up != down and (up or down):      # from the first to the last, or from the last to the first, but not both
            me, other = ('#%s%d' % (d, which) for d in (('up', 'down') if up else ('down', 'up')))
            if other in st.mon: self.odds(st, 'the order in which the workers are %s is not understood' % NAMES[which])
            elif me not in st.mon: st.mon = tuple(sorted(st.mon + (me,)))
        if not up and not down:
            if sub(k, self.g(eng, st, which)).op == 'c' or k.op == 'c': self.fail(st, i, 'the workers are not %s one after the other' % NAMES[which])
            else: self.odds(st, 'the order in which the workers are %s is not understood' % NAMES[which])
        self.set(eng, st, which, add(self.g(eng, st, which), C(1, self.w)))
    def nar(self, t): return trunc(t, self.w) if t.w > self.w else t
    def call(self, eng, st, i, name, q, args):
        q0 = strip_t(q or ''); last = q0.rsplit('::', 1)[-1].replace('[abi:cxx11]', '')
        R = lambda v: [(st, v, 'ret', None)]
        if q0.startswith('cybozu::ScopedArray::'):
            if last == 'ScopedArray': self.set(eng, st, 5, args[1]); return R(None)
            if last == '~ScopedArray': return R(None)
            if last == 'operator[]': return R(add(EL, mulc(args[1], STRIDE)))
            if last == 'size': n = self.g(eng, st, 5); return R(zext(n, 64) if n.w < 64 else n)
            if last in ('begin', 'data'): return R(EL)
            raise Incomplete(q0)
        if last == 'init' and 'parallel_util' in q0:
            k = self.idx(args[0], EL); self.step(eng, st, i, k, 0); b, e, t = args[2:5]; k = self.nar(k)
            if st.truth(cmp_('eq', b, self.g(eng, st, 4))) != 1:
                if sub(b, self.g(eng, st, 4)).op == 'c' or b.op == 'c': self.fail(st, i, 'a range does not begin where the previous one ends')
                else: self.odds(st, 'begin of range %s' % show(b)[:80])
            if st.truth(cmp_('eq', t, k)) != 1: self.fail(st, i, 'a worker is given the number of another one')
            self.share(eng, st, i, k, b, e); eng.store_raw(st, GH, 32, self.w // 8, e); st.memo = {}; return R(None)
        if last in ('beginThread', 'joinThread') and len(args) == 2:
            k = self.idx(args[0], EL); ok, no = st.copy(), st; which = 1 if last == 'beginThread' else 2
            self.step(eng, ok, i, k, which); no.mon = no.mon + ('not ' + NAMES[which],) if 'not ' + NAMES[which] not in no.mon else no.mon
            return [(ok, C(1, 1), 'ret', None), (no, C(0, 1), 'ret', None)]
        if last == 'getErr': return R(add(ERR, mulc(self.idx(args[0], EL), STRIDE)))
        if last in ('empty', 'size', 'length') and args and self.idx(args[0], ERR) is not None:
            k = self.idx(args[0], ERR); no, yes = st.copy(), st; self.step(eng, no, i, k, 3)
            asked = st.truth(cmp_('ult', self.nar(k), self.g(eng, st, 2)))
            if asked is None and any(x.startswith('#down') for x in st.mon): self.odds(st, 'workers waited for from the last to the first')
            elif asked != 1: self.fail(st, i, 'a worker is asked for its error before it has been waited for')
            if 'failed' not in yes.mon: yes.mon = yes.mon + ('failed',)
            n = X(('errlen', i['id']), 64); yes.r[n] = (1, 1 << 40)
            return [(no, C(1, 1) if last == 'empty' else C(0, 64), 'ret', None), (yes, C(0, 1) if last == 'empty' else n, 'ret', None)]
        return None
    def share(self, eng, st, i, k, b, e):
        """the part of a worker: n / workers, and one more for n % workers of them"""
        inc = sub(e, b); T_ = self.nar(self.g(eng, st, 5))
        q, r = self.divs(st, T_)
        d = sub(inc, q); c = st.const(d)
        if c is None and d.op != 'c' and self.extra(d, r, k): return
        if c is None:
            self.odds(st, 'share %s' % show(inc)[:80]); return
        c = c - (1 << self.w) if c >> self.w - 1 else c
        lt = lambda a, b: (lambda u: u if u is not None else st.truth(cmp_('slt', a, b)))(st.truth(cmp_('ult', a, b)))
        lead = lt(k, r)
        if lead is None: lead = lt(k, sub(self.n, mul(q, T_)))
        tail = lt(k, sub(T_, r)); tail = None if tail is None else 1 - tail
        if not (c == 1 and (lead == 1 or tail == 1) or c == 0 and (lead == 0 or tail == 0)): self.fail(st, i, 'the shares do not add up to n')
    def extra(self, d, r, k): return d is zext(cmp_('ult', k, r), self.w)
    def divs(self, st, size):
        """the quotient and remainder of n and the number of workers the function computes"""
        d = 's' if self.signed else 'u'
        return mk(d + 'div', (self.n, size), self.w), mk(d + 'rem', (self.n, size), self.w)
    def carry(self, eng, st, entry, vals): return st.mon
def real(mon): return [x for x in mon if x[0] != '#']
def same(st, a, b):
    return a is b or a.w == b.w and st.truth(cmp_('eq', a, b)) == 1
def for_all(R, M):
    global STRIDE
    n = 0; size = {}
    for f in M.funcs.values():
        g = re.match(r'cybozu::drv::stride_(\w)', f['q'])
        if g: size[g.group(1)] = next((i['ops'][0][1] for b in f['blocks'] for i in b['i'] if i['op'] == 'ret' and i['ops'][0][0] == 'i'), None)
    for m, f in sorted(M.funcs.items()):
        if not f['q'].startswith('cybozu::parallel_for<'): continue
        STRIDE = size.get('j' if 'unsigned int' in f['q'] else 'i' if ', int>' in f['q'] else 'm') or 1 << 12      # distance between two workers
        n += 1; R.count('parallel_for instances'); h = For(); eng = Engine(M, m, h, max_time=100)
        try: eng.run()
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        if h.odd: R.skip(f['dem'], h.odd[0])
        bad = list(h.bad)
        for e in eng.exits:
            st = e.st; R.count('paths'); cnt = [h.g(eng, st, k) for k in range(4)]
            if h.odd or not consistent(st): continue
            if e.kind == 'unwind':
                if not real(st.mon) and st.truth(cmp_('eq', cnt[1], C(0, h.w))) != 1: bad.append(('fails although no worker failed', e.loc, st))
                continue
            if e.kind != 'ret': continue
            if real(st.mon): bad.append(('returns normally although a worker %s' % {'failed': 'failed'}.get(real(st.mon)[0], 'was ' + real(st.mon)[0]), e.loc, st)); continue
            if st.truth(cmp_('eq', h.n, C(0, h.w))) == 1: continue
            for k in range(4):
                if '#down%d' % k in st.mon and st.const(cnt[k]) is None and st.truth(cmp_('eq', cnt[k], h.g(eng, st, 5))) is None: R.skip(f['dem'], 'workers %s from the last to the first' % NAMES[k])
                elif not same(st, cnt[k], h.g(eng, st, 5)): bad.append(('returns although not all workers were %s' % NAMES[k], e.loc, st))
        R.ob(not bad, max(1, len(eng.exits)))
        for w, l, st in bad: R.violation(M.loc(l), '%s: %s' % (f['dem'], w), key='parallel_for %s' % w, detail=describe(eng, st, 12))
    if not n: raise common.ToolError('parallel_for is not instantiated')
# ------------------------------------------------------------------ the worker
class Work(Hooks):
    oom = False; unroll = 0; undecided_unroll = 0; peel = True; fork_logic = True
    def init(self, eng, st):
        self.bad = []; self.a = {x['n']: st.env[x['id']] for x in eng.f['args']}
        for n in ('w', 't'): st.r[self.a[n]] = (4096, 1 << 60)
        w = self.a['end'].w; self.cw = w; self.ghosts = ((GH, 0, w // 8),); eng.store_raw(st, GH, 0, w // 8, C(0, w)); st.mon = ()
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def fail(self, st, i, w): self.bad.append((w, i.get('l') if i else None, st))
    def slen(self, eng, st, p):
        b = ptr_atom(('len', p)); PTR.add(b); t = eng.load_raw(st, b, 0, 8)
        if t.op == 'x' and t not in st.r: st.r[t] = (0, 1 << 40)
        return b, t
    def text(self, eng, st, t, i):
        """length of the text assigned"""
        b, o = split_addr(t)
        g = eng.m.globals.get(b.a[1]) if isinstance(b, T) and b.op == 'x' and b.a[0] == 'g' else None
        if g and g.get('const') and g.get('init') and isinstance(o, int):
            d = g['init'][o:]; return C(d.index(0) if 0 in d else len(d), 64)
        v = X(('newlen', i['id']), 64); st.r[v] = (0, 1 << 40); return v
    def call(self, eng, st, i, name, q, args):
        q0 = strip_t(q or ''); last = q0.rsplit('::', 1)[-1].replace('[abi:cxx11]', ''); R = lambda v: [(st, v, 'ret', None)]
        if q0 == 'cybozu::drv::Target::operator()':
            A = self.a; cnt = eng.load_raw(st, GH, 0, self.cw // 8)
            if st.mon: self.fail(st, i, 'the function is called again after it %s' % ('failed' if st.mon[0] == 'failed' else 'asked to stop'))
            if not same(st, args[1], add(A['begin'], cnt)): self.fail(st, i, 'the indices are not taken one after the other from the first of the range')
            elif st.truth(cmp_('slt' if eng.f['q'].endswith('_i') else 'ult', args[1], A['end'])) != 1: self.fail(st, i, 'an index outside the range is handed to the function')
            if not same(st, args[2], A['idx']): self.fail(st, i, 'the function is given the number of another worker')
            if not same(st, args[0], A['t']): self.fail(st, i, 'another object than the given one is called')
            eng.store_raw(st, GH, 0, self.cw // 8, add(cnt, C(1, self.cw))); st.memo = {}
            out = [(st.copy(), C(1, 1), 'ret', None)]
            s = st.copy(); s.mon = ('stop',); out.append((s, C(0, 1), 'ret', None))
            for ti in ('_ZTISt9exception', '_ZTISt13runtime_error', '_ZTIi'):
                s = st.copy(); s.mon = ('failed',); out.append((s, None, 'throw', ti))
            return out
        if 'basic_string' in q0 and args and args[0] is not None and args[0].w == 64:
            b, n = self.slen(eng, st, args[0])
            if last in ('operator=', 'assign') and len(args) == 2: eng.store_raw(st, b, 0, 8, self.text(eng, st, args[1], i)); st.memo = {}; return R(args[0])
            if last in ('append', 'operator+=') and len(args) == 2:
                x = self.text(eng, st, args[1], i); eng.store_raw(st, b, 0, 8, add(n, x)); st.memo = {}; return R(args[0])
            if last == 'empty': return R(cmp_('eq', n, C(0, 64)))
            if last in ('size', 'length'): return R(n)
            if last == 'clear': eng.store_raw(st, b, 0, 8, C(0, 64)); st.memo = {}; return R(None)
        return None
def workers(R, M):
    for m, f in sorted(M.funcs.items()):
        if not f['q'].startswith('cybozu::drv::work_'): continue
        R.count('worker instances'); h = Work(); eng = Engine(M, m, h, max_time=100)
        try: eng.run()
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        bad = list(h.bad)
        for e in eng.exits:
            st = e.st; R.count('paths')
            if not consistent(st): continue
            if e.kind == 'unwind': bad.append(('an exception thrown by the function (%s) is not kept inside the worker' % e.val, e.loc, st)); continue
            if e.kind != 'ret': continue
            failed = st.truth(e.val) if e.val.w == 1 else None
            if st.mon == ('failed',):
                if failed != 0: bad.append(('the failure of the function leaves no error behind', e.loc, st))
                continue
            if failed != 1: bad.append(('an error is reported although the function did not fail', e.loc, st))
            if st.mon: continue
            A = h.a; cnt = eng.load_raw(st, GH, 0, h.cw // 8); nx = add(A['begin'], cnt)
            if st.truth(cmp_('slt' if f['q'].endswith('_i') else 'ult', nx, A['end'])) != 0: bad.append(('the worker ends before the end of its range', e.loc, st))
        R.ob(not bad, max(1, len(eng.exits)))
        for w, l, st in bad: R.violation(M.loc(l), '%s: %s' % (f['dem'], w), key='worker %s' % w, detail=describe(eng, st, 12))
# ------------------------------------------------------------------ waiting
class Wait(Hooks):
    oom = False
    def init(self, eng, st): self.bad = []; st.mon = ()
    def may_throw(self, eng, st, i, name, q): return False
    def call(self, eng, st, i, name, q, args):
        if name in ('pthread_join', 'pthread_create'):
            ok, no = st.copy(), st; v = X((name, i['id']), 32); no.r[v] = (1, 1 << 20)
            ok.mon = ok.mon + ((name, args[0] if name == 'pthread_join' else args[3]),); return [(ok, C(0, 32), 'ret', None), (no, v, 'ret', None)]
        return None
class Dtor(Hooks):
    oom = False
    def init(self, eng, st): self.bad = []; st.mon = (); self.this = st.env[eng.f['args'][0]['id']]; st.r[self.this] = (4096, 1 << 60)
    def may_throw(self, eng, st, i, name, q): return False
    def call(self, eng, st, i, name, q, args):
        q0 = strip_t(q or '')
        if q0 in ('cybozu::ThreadBase::joinThread', 'cybozu::ThreadBase::~ThreadBase') and args[0] is self.this: st.mon = ('joined',); return [(st, C(1, 1) if 'join' in q0 else None, 'ret', None)]
        if '::~' in q0 and args and split_addr(args[0])[0] is self.this and args[0] is not self.this and not st.mon:
            self.bad.append(('a member is destroyed before the thread that uses it has been waited for', i.get('l'), st))
        return None
def waiting(R, M, MO):
    for nm, call, ret in (('cybozu::drv::join', 'pthread_join', 1), ('cybozu::drv::begin', 'pthread_create', 1)):
        for m, f in sorted(M.funcs.items()):
            if f['q'] != nm: continue
            h = Wait(); eng = Engine(M, m, h, max_time=60)
            try: eng.run()
            except Incomplete as x: R.skip(f['dem'], str(x)); continue
            bad = []
            for e in eng.exits:
                st = e.st; R.count('paths')
                if e.kind != 'ret' or st.truth(e.val) == 0 or not consistent(st): continue
                if st.mon: 
                    if len(st.mon) > 1: bad.append(('%s is called twice' % call, e.loc, st))
                    continue
                if call == 'pthread_create': bad.append(('reports success without a thread having been started', e.loc, st)); continue
                # nothing to wait for: the handle must have been zero
                if not zero_handle(eng, st): bad.append(('reports success without having waited for the thread', e.loc, st))
            R.ob(not bad, max(1, len(eng.exits)))
            for w, l, st in bad: R.violation(M.loc(l), '%s: %s' % (f['dem'], w), key='%s %s' % (nm, w), detail=describe(eng, st, 12))
    for m, f in sorted(MO.funcs.items()):
        if not re.match(r'cybozu::parallel_util::Thread<.*::~Thread$', f['q']) or not m.endswith('D2Ev'): continue
        R.count('worker destructors'); h = Dtor(); eng = Engine(MO, m, h, max_time=60)
        try: eng.run()
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        R.ob(not h.bad, max(1, len(eng.exits)))
        for w, l, st in h.bad: R.violation(MO.loc(l), '%s: %s' % (f['dem'], w), key='worker %s' % w, detail=describe(eng, st, 12))
def zero_handle(eng, st):
    return any(st.truth(cmp_('eq', t, C(0, t.w))) == 1 for t in list(st.r) if isinstance(t, T) and t.op == 'x')
def check(R):
    M = Module(common.ir('par_drv.cpp', opaque=common.OPAQUE)); MO = Module(common.ir('par_drv.cpp', opaque=OPQ)); MD = Module(common.ir('par_drv.cpp', opaque=common.OPAQUE + r'|^cybozu::ThreadBase::'))
    for_all(R, MO); workers(R, M); waiting(R, M, MD)
    return R.finish('parallel_for with every n and number of workers, starting and waiting failing or not, any worker reporting an error; the worker with any range and a function that returns, asks to stop or throws anything; starting, waiting and destruction of a worker', minimum={'parallel_for instances': 3, 'worker instances': 3})
