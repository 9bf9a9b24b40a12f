"""C21: definite initialisation of scalar members by every constructor, on every path that returns."""
import re
import common
from pai import *
from own import no_throw
class IH(Hooks):
    """monitor: set of (offset, size) of the object under construction that have been given a value"""
    unroll = 8; undecided_unroll = 1; max_states = 20000
    def init(self, eng, st):
        st.mon = frozenset(); self.this = ptr_atom(('arg', 0, eng.f['args'][0]['n']))
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def store(self, eng, st, i, base, off, size, val):
        if not isinstance(size, int): size = const_of(st, size)
        off = const_of(st, off)
        if base is self.this and off is not None and size: st.mon |= {(off, size)}
    def after_call(self, eng, st, i, name, q, args, val):
        name = name or ''; q = q or ''
        if name.startswith('llvm.'): return
        for n, a in enumerate(args):
            if a is None or not hasattr(a, 'at'): continue
            b, o = split_addr(a)
            if b is not self.this: continue
            o = const_of(st, o)
            # an operation of the class itself that is not expanded here may set anything; any other callee only the object it was given
            own = n == 0 and o == 0 and q.startswith(self.cls + '::')
            st.mon |= {(0, 1 << 40)} if own or o is None else {(o, 'at')}
    def carry(self, eng, st, entry_mon, vals): return st.mon
def const_of(st, t):
    if isinstance(t, int) or t is None: return t
    return t.a[0] if t.op == 'c' else None
def covered(mon, off, size):
    need = set(range(off, off + size))
    for o, s in mon:
        if s == 'at':
            if o == off: return True
        else: need -= set(range(max(o, off), min(o + s, off + size)))
    return not need
def check(R):
    for F, p, only, cfg in common.configs(): config(R, F, Module(p), only)
    return R.finish('every scalar member is written before a constructor returns, on every path')
def config(R, F, M, only):
    recs = {r['type']: r for r in F['records'] if not r.get('dependent')}
    seen = set()
    for f in F['funcs']:
        if f.get('kind') != 'ctor' or f.get('dependent') or (only and not only.match(f['classType'])): continue
        r = recs.get(f['classType'])
        if r is None: continue
        fl = [x for x in r['fields'] if x.get('scalar') and x.get('off') is not None]
        for mn in f['mangled']:
            if mn not in M.funcs or mn in seen or not M.funcs[mn]['args']: continue
            seen.add(mn)
            if not fl: continue
            if f['implicit']:
                R.count('implicit constructors')
                if f.get('copyCtor') or f.get('moveCtor'): continue
            h = IH(); h.cls = re.sub(r'<.*', '', f['classType']); eng = Engine(M, mn, h, max_time=60)
            try: eng.run()
            except Incomplete as x:      # long parsers: number conversion as an opaque step
                M2 = Module(common.ir(opaque=common.OPAQUE + r'|^cybozu::atoi', roots='^cybozu::Time::'))
                if only or mn not in M2.funcs: R.skip(M.funcs[mn]['dem'], str(x)); continue
                eng = Engine(M2, mn, h, max_time=60)
                try: eng.run()
                except Incomplete as x: R.skip(M.funcs[mn]['dem'], str(x)); continue
            R.count('constructors'); R.count('scalar members', len(fl))
            for e in eng.exits:
                if e.kind != 'ret': continue
                for x in fl:
                    if not covered(e.st.mon, x['off'], x['size']):
                        R.violation('%s:%d' % (f['file'].replace(common.REPO + '/', ''), f['line']), '%s leaves member %s indeterminate' % (M.funcs[mn]['dem'], x['n']), key='%s%s::%s' % ('implicit ' if f['implicit'] else '', re.sub(r'<[^<>]*>', '', M.funcs[mn]['q']), x['n'])); R.ob(False)
                    else: R.ob()
