"""C06: lock typestate over every function, contracts of the locking primitives, lock set of Event."""
import re
import common
from pai import *
from own import no_throw
ACQ = {'pthread_mutex_lock', 'pthread_spin_lock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock'}
REL = {'pthread_mutex_unlock', 'pthread_spin_unlock', 'pthread_rwlock_unlock'}
INL = r'^(cybozu::|std::condition_variable::wait<)'
# documented primitives whose purpose is to leave with the lock state changed: (acquired, released)
PRIM = [(r'^cybozu::(Mutex|CriticalSection)::lock$|^cybozu::thread::(Mutex|Cs)Lock$|^cybozu::thread::AutoLockT<.*>::AutoLockT$', (1, 0)),
        (r'^cybozu::(Mutex|CriticalSection)::unlock$|^cybozu::thread::(Mutex|Cs)Unlock$|^cybozu::thread::AutoLockT<.*>::~AutoLockT$', (0, 1))]
class LH(Hooks):
    unroll = 4; undecided_unroll = 1; max_states = 40000
    def __init__(self, entry_held=(), ev=None): self.entry = entry_held; self.ev = ev
    def init(self, eng, st):
        self.bad = []; self.n = 0; st.mon = (tuple(), ()); self.seen = []
        self.this = ptr_atom(('arg', 0, eng.f['args'][0]['n'])) if eng.f['args'] else None
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    # mon = (held: tuple of addresses in order of acquisition, log of events)
    def log(self, st, *e):
        if st.mon[1][-1:] != (e,): st.mon = (st.mon[0], st.mon[1] + (e,))
    def fresh_flag(self, eng, st):
        if self.ev is None: return
        for off in self.ev:
            self.k = getattr(self, 'k', 0) + 1
            t = X(('flag', self.k), 8); st.r[t] = (0, 1); st.memo = {}
            eng.store_raw(st, self.this, off, 1, t)
    def call(self, eng, st, i, name, q, args):
        zero = [(st, C(0, 32), 'ret', None)]
        mm = re.match(r'std::(unique_lock|lock_guard|scoped_lock)<.*>::(\S+)$', q or '')
        if mm:       # the standard guards: a pointer to the mutex and an ownership flag
            g = args[0]; op = mm.group(2); done = [(st, None, 'ret', None)]
            def ld(): return eng.load_raw(st, *split_addr(g), 8, True)
            def own(v=None):
                b, o = split_addr(g)
                if v is not None: eng.store_raw(st, b, o + 8, 1, C(v, 8))
                return st.const(eng.load_raw(st, b, o + 8, 1))
            if op == mm.group(1):
                b, o = split_addr(g)
                if len(args) == 1: eng.store_raw(st, b, o, 8, C(0, 64)); own(0); return done
                if len(args) == 2 and 'unique_lock' in (param_types(eng.m.dem(name)) or [''])[0]: return None
                eng.store_raw(st, b, o, 8, args[1])
                if len(args) == 2: self.call(eng, st, i, 'pthread_mutex_lock', 'pthread_mutex_lock', [args[1]]); own(1)
                else: own(1 if 'adopt' in eng.m.dem(name) else 0)
                return done
            if op in ('lock', 'unlock') or op.startswith('~'):
                if op == 'lock': self.call(eng, st, i, 'pthread_mutex_lock', 'pthread_mutex_lock', [ld()]); own(1)
                elif op == 'unlock' or own() != 0:
                    self.call(eng, st, i, 'pthread_mutex_unlock', 'pthread_mutex_unlock', [ld()]); own(0)
                return done
            return None
        if re.match(r'std::(recursive_|timed_)?mutex::(lock|unlock)$', q or ''): name = 'pthread_mutex_' + q.rsplit('::', 1)[-1]
        if name in ACQ:
            self.n += 1; a = args[0]
            if a in st.mon[0]: self.bad.append(('takes a lock it already holds (deadlock)', i.get('l')))
            st.mon = (st.mon[0] + (a,), st.mon[1]); self.log(st, 'lock', a); self.fresh_flag(eng, st); return zero
        if name in ('pthread_mutex_trylock', 'pthread_mutex_timedlock'):
            self.n += 1; a = args[0]; s2 = st.copy()
            st.mon = (st.mon[0] + (a,), st.mon[1]); self.log(st, 'lock', a)
            t = X(('tryfail', i['id']), 32); s2.r[t] = (1, 200); s2.memo = {}
            return [(st, C(0, 32), 'ret', None), (s2, t, 'ret', None)]
        if name in REL:
            self.n += 1; a = args[0]; self.log(st, 'unlock', a)
            if a in st.mon[0]:
                h = list(st.mon[0]); h.remove(a); st.mon = (tuple(h), st.mon[1])
            else: st.mon = (st.mon[0] + (('minus', a),), st.mon[1])
            return zero
        m = None
        if name in ('pthread_cond_wait', 'pthread_cond_timedwait'): m = args[1]; c = args[0]
        elif re.match(r'std::(_V2::)?condition_variable(_any)?::wait', q) and len(args) >= 2:
            m = eng.load_raw(st, *split_addr(args[1]), 8, True); c = args[0]
        if m is not None:
            self.n += 1; self.log(st, 'condwait', c, m); self.seen.append((m, m in st.mon[0], i.get('l'))); self.fresh_flag(eng, st); return zero if i.get('ty') == 'i32' else [(st, None, 'ret', None)]
        if name in ('pthread_cond_signal', 'pthread_cond_broadcast') or re.match(r'std::(_V2::)?condition_variable(_any)?::notify_(one|all)$', q or ''):
            self.n += 1; self.log(st, 'notify', args[0], 'all' if 'broadcast' in name or name.endswith('all') or q.endswith('all') else 'one'); return zero if i.get('ty') == 'i32' else [(st, None, 'ret', None)]
        if name in ('pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_cond_init', 'pthread_cond_destroy'):
            self.n += 1; self.log(st, name, args[0]); return zero
        return None
    def acc(self, eng, st, inst, base, off, w):
        if self.ev is not None and base is self.this and off in self.ev and not st.mon[0]: self.bad.append(('%s the signal flag without holding the lock' % w, inst.get('l')))
    def load(self, eng, st, inst, base, off, size): self.acc(eng, st, inst, base, off, 'reads')
    def store(self, eng, st, inst, base, off, size, val): self.acc(eng, st, inst, base, off, 'writes'); self.stored(eng, st, base, off, val)
    def stored(self, eng, st, base, off, val):
        if self.ev is None or base is not self.this or off not in self.ev: return
        old = eng.load_raw(st, base, off, 1)
        self.log(st, 'store', off, st.const(val) if val is not None else None, nonzero(st, old))
def nonzero(st, v): return st.rng(v)[0] >= 1 or st.truth(cmp_('ne', v, C(0, v.w))) == 1 or st.truth(trunc(v, 1)) == 1 or not st.copy().assume(cmp_('eq', v, C(0, v.w)), 1)
class PH(Hooks):
    """the event made of a pipe: mon is the last transfer of a byte that succeeded"""
    unroll = 4; undecided_unroll = 1; max_states = 40000
    def init(self, eng, st): st.mon = (); self.this = ptr_atom(('arg', 0, eng.f['args'][0]['n']))
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def call(self, eng, st, i, name, q, args):
        if name not in ('read', 'write'): return None
        ld = [o for o in (0, 4) if eng.load_raw(st, self.this, o, 4) is args[0]]
        r = eng.fresh(st, i); s2 = st.copy(); out = []
        eng.havoc_args(st, i, name, args); eng.havoc_args(s2, i, name, args)
        if st.assume(cmp_('sge', r, C(1, r.w)), 1): st.mon = (name, ld[0] if ld else None); out.append((st, r, 'ret', None))
        if s2.assume(cmp_('slt', r, C(1, r.w)), 1): out.append((s2, r, 'ret', None))
        return out
def pipe_event(R):
    M = Module(common.ir('inst98.cpp', std='gnu++98'))
    for m, f in M.funcs.items():
        leaf = f['q'].rsplit('::', 1)[-1]
        if not re.match(r'^cybozu::Event::(wait|wakeup)$', f['q']): continue
        h = PH(); eng = Engine(M, m, h, max_time=100)
        try: eng.run()
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        R.count('event functions'); R.count('paths', len(eng.exits))
        for e in eng.exits:
            if e.kind != 'ret': continue
            ok = e.st.mon == (('read', 0) if leaf == 'wait' else ('write', 4)); R.ob(ok)
            w = 'returns though no wakeup was taken from the pipe (the read may have failed or been interrupted)' if leaf == 'wait' else 'returns though nothing was put into the pipe'
            if not ok: R.violation(M.loc(e.loc), '%s [gnu++98] %s' % (f['q'], w), key='%s98: %s' % (f['q'], leaf))
def check(R):
    pipe_event(R)
    M = Module(common.ir(inline=INL)); F = common.facts()
    names = sorted(ACQ | REL | {'pthread_mutex_trylock', 'pthread_mutex_timedlock', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_cond_init', 'pthread_cond_destroy'})
    def touches(f):
        for b in f['blocks']:
            for i in b['i']:
                if i['op'] in ('call', 'invoke') and i['callee'][0] == 'fn' and (i['callee'][1] in names or re.match(r'std::(_V2::)?(condition_variable|unique_lock|lock_guard|scoped_lock|mutex|recursive_mutex)\b', M.q(i['callee'][1]) or '')): return True
        return False
    recs = {r['name']: r for r in F['records']}
    private = {mn for f in F['funcs'] if f.get('access') in ('private', 'protected') for mn in f['mangled']}
    for m, f in M.funcs.items():
        q = f['q']
        if not q.startswith('cybozu::') or m in private or not (touches(f) or any(re.search(p, q) for p, w in PRIM) or re.match(r'cybozu::(Event|ConditionVariable(Cs)?|Mutex|CriticalSection)::', q)): continue
        leaf = q.rsplit('::', 1)[-1]; cls = q.rsplit('::', 1)[0]
        ev = None
        if cls == 'cybozu::Event' and leaf in ('wait', 'wakeup'):
            r = recs.get('cybozu::Event') or {'fields': []}
            ev = [x['off'] for x in r['fields'] if x.get('scalar') and not x.get('ptr') and x['size'] == 1 and x.get('off') is not None]
        h = LH(ev=ev); eng = Engine(M, m, h, max_time=100)
        try: eng.run()
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        R.count('functions that lock, wait or signal'); R.count('lock events', h.n); R.count('paths', len(eng.exits)); R.sample('%s: %d paths' % (q, len(eng.exits)))
        if ev is not None: R.count('event functions')
        bad = list(h.bad); want = (0, 0)
        for p, w in PRIM:
            if re.search(p, q): want = w; R.count('locking primitives')
        for mx, held, l in h.seen:
            if not held and not re.match(r'^cybozu::ConditionVariable(Cs)?$', cls): bad.append(('waits on a condition variable without holding the lock', l))
        for e in eng.exits:
            held = e.st.mon[0]; log = e.st.mon[1]
            acq = [x for x in held if not (isinstance(x, tuple) and x[0] == 'minus')]; rel = [x for x in held if isinstance(x, tuple) and x[0] == 'minus']
            R.ob(); how = 'by exception' if e.kind == 'unwind' else 'normally'
            if e.kind not in ('ret', 'throw'): continue
            if (len(acq), len(rel)) != want:
                if want == (0, 0):
                    if acq: bad.append(('leaves %s with a lock still held' % how, e.loc))
                    if rel: bad.append(('leaves %s having released a lock it did not take' % how, e.loc))
                elif want == (1, 0): bad.append(('does not leave with exactly one lock taken', e.loc))
                else: bad.append(('does not leave having released its lock exactly once', e.loc))
            elif want != (0, 0):
                a = (acq + [x[1] for x in rel])[0]
                obj = h.this
                if 'AutoLockT<' in q:
                    b, o = split_addr(a)
                    if leaf.startswith('~'): ok = any(a is y or b is y for y in [eng.load_raw(e.st, h.this, 0, 8, True)])
                    else:
                        x = ptr_atom(('arg', 1, f['args'][1]['n'])); ok = b is x
                        if eng.load_raw(e.st, h.this, 0, 8, True) is not x: ok = False
                    if not ok: bad.append(('does not act on the mutex the guard was made for', e.loc))
                elif split_addr(a)[0] is not obj: bad.append(('does not act on its own mutex', e.loc))
            if re.match(r'^cybozu::ConditionVariable(Cs)?$', cls) and e.kind == 'ret':
                if leaf == 'wait':
                    w = [x for x in log if x[0] == 'condwait']
                    mx = ptr_atom(('arg', 1, f['args'][1]['n']))
                    if len(w) != 1 or split_addr(w[0][1])[0] is not h.this or split_addr(w[0][2])[0] is not mx: bad.append(('does not wait exactly once on its own variable with the caller\'s mutex', e.loc))
                if leaf in ('notifyOne', 'notifyAll'):
                    w = [x for x in log if x[0] == 'notify' and split_addr(x[1])[0] is h.this]
                    if not w or (leaf == 'notifyAll' and w[-1][2] != 'all'): bad.append(('does not wake %s' % ('every waiting thread' if leaf == 'notifyAll' else 'a waiting thread'), e.loc))
            if ev and e.kind == 'ret':
                off = ev[0]; v = eng.load_raw(e.st, h.this, off, 1)
                if leaf == 'wait':
                    sv = [x for x in log if x[0] == 'store' and x[1] == off]
                    if not sv or e.st.const(v) != 0: bad.append(('does not consume the signal', e.loc))
                    elif not sv[-1][3]: bad.append(('returns though the event was not seen signalled under the lock', e.loc))
                else:
                    if not nonzero(e.st, v): bad.append(('does not leave the event signalled', e.loc))
                    nt = [j for j, x in enumerate(log) if x[0] == 'notify']; sx = [j for j, x in enumerate(log) if x[0] == 'store']; lk = [j for j, x in enumerate(log) if x[0] == 'lock']
                    if not nt or not sx or not lk or nt[-1] < lk[0]: bad.append(('sets the signal without waking a waiting thread afterwards', e.loc))
            if cls in ('cybozu::Mutex', 'cybozu::CriticalSection', 'cybozu::ConditionVariable', 'cybozu::ConditionVariableCs') and e.kind == 'ret':
                k = 'mutex' if 'ondition' not in cls else 'cond'
                if leaf == cls.rsplit('::', 1)[-1] and not (m.find('C1') > 0 or m.find('C2') > 0): pass
                n_i = [x for x in log if x[0] == 'pthread_%s_init' % k]; n_d = [x for x in log if x[0] == 'pthread_%s_destroy' % k]
                if leaf.startswith('~') and len(n_d) != 1: bad.append(('does not destroy its %s exactly once' % k, e.loc))
                if leaf == cls.rsplit('::', 1)[-1] and len(n_i) != 1: bad.append(('does not initialise its %s exactly once' % k, e.loc))
        for w, l in bad: R.ob(False); R.violation(M.loc(l) if l is not None else f['dem'], '%s %s' % (q, w), key='%s: %s' % (q, w))
    return R.finish('lock typestate on every path (normal and exceptional) of every function that locks, waits or signals; contracts of the primitives; the event flag is only touched under the lock, waited for in a loop and signalled', minimum={'functions that lock, wait or signal': 12, 'locking primitives': 8, 'event functions': 2}, level='proof')
