"""C07: atomic primitives and the hand-over of handles between threads."""
import re
import common
from pai import *
from own import no_throw
class AHooks(Hooks):
    """other threads may change *p between any two accesses"""
    unroll = 8; undecided_unroll = 1; max_states = 5000
    def init(self, eng, st): self.p = st.env[eng.f['args'][0]['id']]; st.mon = (); self.plain = []; self.k = 0; self.weak = []
    def load(self, eng, st, inst, base, off, size):
        if base is self.p:
            eng.havoc(st, base)
            if not inst.get('atomic'): self.plain.append(('reads the cell with an ordinary load', inst.get('l')))
    def store(self, eng, st, inst, base, off, size, val):
        if base is self.p: self.plain.append(('writes the cell with a separate store', inst.get('l')))
    def atomic(self, eng, st, inst, base, off, size):
        if base is not self.p: return None
        if inst.get('atomic') != 'seq_cst' or inst.get('atomic2', 'seq_cst') != 'seq_cst': self.weak.append(('is only ordered %s' % inst['atomic'], inst.get('l')))
        n = st.cnt.get('at', 0); st.cnt['at'] = n + 1
        return X(('seen', inst['id'], n), size * 8)
    def atomic_done(self, eng, st, inst, base, off, size, old, new):
        if base is not self.p: return
        if off != 0: self.plain.append(('accesses another cell', inst.get('l')))
        if new is not None or not st.mon or st.mon[-1][1] is not None: st.mon = st.mon + ((old, new, size),) if new is not None else tuple(x for x in st.mon if x[1] is not None) + ((old, None, size),)
        else: st.mon = st.mon[:-1] + ((old, None, size),)
class HHooks(Hooks):
    """the handle member of a shared object"""
    unroll = 4; undecided_unroll = 1; max_states = 20000
    REL = {'close': 0, 'pthread_join': 0, 'pthread_detach': 0}
    def init(self, eng, st): st.mon = None; self.bad = []; self.n = 0
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def atomic(self, eng, st, inst, base, off, size):
        n = st.cnt.get('at', 0); st.cnt['at'] = n + 1
        return X(('seen', inst['id'], n), size * 8)
    def atomic_done(self, eng, st, inst, base, off, size, old, new):
        st.cnt[('xchg', old)] = (inst.get('rmw'), inst.get('atomic'), new)
    def call(self, eng, st, i, name, q, args):
        if name not in self.REL: return None
        v = args[0]
        if is_c(v): return None
        shared = [t for t in v.at if t.op == 'x' and t.a[0] in ('ld', 'seen')]
        for t in shared:
            if t.a[0] == 'ld':
                b = t.a[1]
                if isinstance(b, T) and b.op == 'x' and b.a[0] in ('alloca',): continue
                if not isinstance(b, T) or b.op != 'x' or b.a[0] != 'arg': continue
                if any(k[0] == 'own' for k in st.cnt if isinstance(k, tuple)): pass
                self.n += 1; self.bad.append(('%s gets the handle by an ordinary read of the object: two threads can both release it' % name, i.get('l'), st))
            else:
                self.n += 1
                rmw, order, new = st.cnt.get(('xchg', t), (None, None, None))
                inv = st.const(new) if new is not None else None
                if rmw != 'xchg' and new is None: self.bad.append(('%s of a handle that was not taken out of the object' % name, i.get('l'), st))
                elif inv not in (0, (1 << new.w) - 1): self.bad.append(('%s of a handle that was not replaced by the invalid value' % name, i.get('l'), st))
                elif order != 'seq_cst': self.bad.append(('the handle is taken out with ordering %s only' % order, i.get('l'), st))
        return None
def check(R):
    M = Module(common.ir('atomic_drv.cpp'))
    fs = {m: f for m, f in M.funcs.items() if re.match(r'cybozu::Atomic(Add|Exchange|CompareExchange)<', f['q'])}
    for m, f in fs.items():
        kind = re.match(r'cybozu::Atomic(\w+?)<', f['q']).group(1); R.count('atomic primitives')
        h = AHooks(); eng = Engine(M, m, h, max_time=60)
        try: eng.run()
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        bad = list(h.plain) + list(h.weak)
        A = [X(('arg', k, a['n']), ty_w(a['ty']) or 64) for k, a in enumerate(f['args'])]
        for ex in eng.exits:
            R.count('paths')
            if ex.kind != 'ret': bad.append(('throws', ex.loc)); continue
            ws = [x for x in ex.st.mon if x[1] is not None]; st = ex.st
            if kind == 'CompareExchange':
                want_new, want_old = A[1], A[2]
                if len(ws) > 1: bad.append(('writes the cell twice', ex.loc)); continue
                last = ex.st.mon[-1] if ex.st.mon else None
                if last is None: bad.append(('does not access the cell atomically', ex.loc)); continue
                if ex.val is not last[0] and st.truth(cmp_('eq', ex.val, last[0])) != 1: bad.append(('does not return the value the cell held before', ex.loc))
                if ws:
                    if st.truth(cmp_('eq', ws[0][1], want_new)) != 1: bad.append(('stores something other than newValue', ex.loc))
                    if st.truth(cmp_('eq', ws[0][0], want_old)) != 1: bad.append(('stores although the cell did not hold oldValue', ex.loc))
                elif st.truth(cmp_('eq', last[0], want_old)) != 0: bad.append(('may leave the cell unchanged although it held oldValue', ex.loc))
            else:
                if len(ws) != 1: bad.append(('updates the cell %s' % ('not at all' if not ws else 'in more than one step'), ex.loc)); continue
                old, new, size = ws[0]
                want = add(old, A[1]) if kind == 'Add' else A[1]
                if st.truth(cmp_('eq', new, want)) != 1: bad.append(('stores a wrong value', ex.loc))
                if ex.val is None or st.truth(cmp_('eq', ex.val, old)) != 1: bad.append(('does not return the value the cell held before', ex.loc))
            if any(x[2] * 8 != A[1].w for x in ws): bad.append(('access width differs from the type', ex.loc))
        R.ob(not bad, 4); R.sample('%s: %d paths' % (f['dem'], len(eng.exits)))
        for w, l in bad: R.violation(M.loc(l), '%s %s' % (f['dem'], w), key='%s %s' % (f['q'], w))
    mf = M.by_q(r'^cybozu::mfence$')
    for m in mf:
        f = M.funcs[m]; R.count('fences')
        ok = False
        ent = f['blocks'][0]['i']
        for i in ent:
            if i['op'] == 'fence' and i.get('atomic') == 'seq_cst' and i.get('ss', 1) == 1: ok = True
            if i['op'] == 'call' and i['callee'][0] == 'fn' and i['callee'][1] == 'llvm.x86.sse2.mfence': ok = True
            if i['op'] == 'call' and i['callee'][0] == 'asm' and 'mfence' in str(i['callee']): ok = True
        R.ob(ok)
        if not ok: R.violation(f['dem'], 'mfence() does not execute a full memory fence', key='mfence')
    # hand-over of handles
    F = common.facts(); M2 = Module(common.ir()); fa = {mn: f for f in F['funcs'] for mn in f['mangled']}
    for m, f in M2.funcs.items():
        if not re.match(r'cybozu::(Socket|ThreadBase)::', f['q']) or m not in fa: continue
        if not any(i.get('callee') and i['callee'][0] == 'fn' and i['callee'][1] in HHooks.REL for b in f['blocks'] for i in b['i']): continue
        h = HHooks(); eng = Engine(M2, m, h, max_time=60)
        try: eng.run()
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        R.count('handle releasing operations'); R.count('release sites seen', h.n); R.ob(not h.bad, max(1, h.n))
        R.sample('%s: %d releases' % (f['dem'][:120], h.n))
        for w, l, st in h.bad: R.violation(M2.loc(l), '%s: %s' % (f['dem'], w), key='%s: %s' % (f['q'], w), detail=describe(eng, st, 8))
    R.assume += ['x86-64/clang lowering of seq_cst atomics is correct']
    return R.finish('(a) Every AtomicAdd/Exchange/CompareExchange instantiation is analysed with the cell changing arbitrarily between accesses: on every path exactly one seq_cst read-modify-write of full width performs the update with the specified value and its old value is returned, no plain access. (b) mfence contains a full fence. (c) In Socket and ThreadBase every handle passed to close/pthread_join/pthread_detach that comes from the object was taken out by one seq_cst exchange that left the invalid value.', minimum={'atomic primitives': 12, 'fences': 1, 'handle releasing operations': 4})
