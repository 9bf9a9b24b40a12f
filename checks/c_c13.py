"""C13: what load reads is what save wrote.

Scalars: save followed by load is analysed as one program (ser_drv.cpp) and must reproduce the value for every value.
Containers and classes: every path of save and of load is reduced to the sequence of things it puts into or takes from
the stream (integers with their value, byte ranges with address and length, parts with their own save/load, elements of
a container one after the other with their number).  Every pair of a save path and a load path that are possible for
the same stream must agree item by item, and afterwards the members must hold what was saved."""
import re
import common
from pai import *
from own import no_throw
from c_c04 import strip_t
from c_c10 import consistent
OPQ = common.OPAQUE + r'|^cybozu::(save|load|savePodVec|loadPodVec|write|read)(<|$)|^cybozu::.*::(save|load)(<|$)'
STRIDE = 1 << 16
THIS = {'save': ptr_atom(('saved',)), 'load': ptr_atom(('loaded',))}
for _t in THIS.values(): PTR.add(_t)
def ptr(name):
    t = ptr_atom(name); PTR.add(t); return t
GH = ptr(('ghost',))
OFF = {'cybozu::drv::K': 0, 'cybozu::drv::V': 8}
# ------------------------------------------------------------------ scalars
class Rt(Hooks):
    oom = False; fork_logic = True; partitions = 200
    def init(self, eng, st):
        self.a = {}
        for a in eng.f['args']:
            t = st.env[a['id']]
            if a['n'] in ('y', 'wrote', 'took'): st.r[t] = (4096, 1 << 62)
            if a['n'] == 'x' and t.w > 8 and t.op == 'x' and a['ty'][0] == 'i':
                x = C(0, t.w)
                for j in range(t.w // 8): x = add(x, mulc(zext(X(('xb', j), 8), t.w), 1 << 8 * j))
                st.env[a['id']] = t = x
            self.a[a['n']] = t
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
def scalars(R, defs=()):
    M = Module(common.ir('ser_drv.cpp', defs=defs))
    for m, f in sorted(M.funcs.items()):
        if not f['q'].startswith('cybozu::drv::rt'): continue
        R.count('scalar round trips'); h = Rt(); eng = Engine(M, m, h, max_time=120); bad = []
        try: eng.run()
        except Incomplete as x: R.skip(f['dem'], str(x)); continue
        for e in eng.exits:
            st = e.st; R.count('paths')
            if e.kind != 'ret':
                if consistent(st): bad.append(('fails for some value', e.loc, st))
                continue
            x = h.a['x']; n = max(1, x.w // 8); y = eng.load_raw(st, h.a['y'], 0, n)
            if x.w < 8: x = zext(x, 8)
            if y is not x and (y.w != x.w or st.truth(cmp_('eq', y, x)) != 1): bad.append(('the value loaded is not the value saved', e.loc, st))
            w, t = (eng.load_raw(st, h.a[k], 0, 8) for k in ('wrote', 'took'))
            if st.truth(cmp_('eq', w, t)) != 1: bad.append(('load takes another number of bytes than save wrote', e.loc, st))
        R.ob(not bad, max(1, len(eng.exits))); R.sample('%s: %d paths' % (f['dem'], len(eng.exits)))
        for w, l, st in bad: R.violation(M.loc(l), '%s: %s' % (f['dem'], w), key='%s %s' % (f['q'], w), detail=describe(eng, st, 12))
# ------------------------------------------------------------------ containers and classes
def tyname(t):
    t = re.sub(r'\bconst\b', '', t.replace('&', '')).strip()
    return {'unsigned long long': 'unsigned long', 'long long': 'long'}.get(t, t)
def ev_call(M, name, q, dem):
    """(operation, type, object argument index, by value) of a call that serialises a part"""
    q0 = strip_t(q); last = q0.rsplit('::', 1)[-1]
    if not q0.startswith('cybozu::'): return None
    pt = param_types(dem) or []
    if q0 in ('cybozu::save', 'cybozu::savePodVec') and len(pt) >= 2: return ('save', ('podvec ' if 'PodVec' in q0 else '') + tyname(pt[1]), 1, '&' not in pt[1] and '*' not in pt[1])
    if q0 in ('cybozu::load', 'cybozu::loadPodVec') and len(pt) >= 2: return ('load', ('podvec ' if 'PodVec' in q0 else '') + tyname(pt[0]), 0, False)
    if last in ('save', 'load') and len(pt) == 1: return (last, tyname(re.sub(r'^\w+ (?=cybozu)', '', re.sub(r'::(save|load)(<.*>)?$', '', q))), 0, False)
    return None
SCALAR = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'wchar_t': 4, 'float': 4, 'double': 8}
def kind(ty):
    """how a scalar is written: the variable-length integers by width (signs do not matter), everything else as its bytes"""
    if ty in ('int', 'unsigned int', 'long', 'unsigned long'): return 'integer', SCALAR[ty]
    if ty.startswith('raw'): return 'bytes', int(ty[3:])
    return 'bytes', SCALAR.get(ty, ty)
class Ser(Hooks):
    oom = False; unroll = 16; undecided_unroll = 1; peel = True; max_states = 30000; partitions = 64
    def __init__(self, mode, M, pod=None): self.mode = mode; self.M = M; self.pod = pod
    def init(self, eng, st):
        self.bad = []; self.thrown = []; args = eng.f['args']; self.this = THIS[self.mode]
        ev = ev_call(self.M, eng.fn, eng.f['q'], eng.f['dem'])
        k = ev[2]; st.r[self.this] = (4096, 1 << 60)
        if ev[1].replace(' ', '') == 'char*':
            t = ptr(('el', self.this)); st.env[args[k]['id']] = t; st.r[t] = (4096, 1 << 60); self.cstr = True
        else: st.env[args[k]['id']] = self.this; self.cstr = False
        self.whole = self.cstr or re.match(r'(podvec )?std::|cybozu::StringT', ev[1]) is not None
        eng.store_raw(st, GH, 0, 8, C(0, 64)); st.mon = ()
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def fail(self, st, i, w): self.bad.append((w, i.get('l') if i else None, st))
    # --- container model: number of elements and storage
    def vs(self, eng, st, v):
        b = ptr(('vs', v)); t = eng.load_raw(st, b, 0, 8)
        if t.op == 'x' and t not in st.r: st.r[t] = (0, 1 << 40)
        return t
    def setvs(self, eng, st, v, t): eng.store_raw(st, ptr(('vs', v)), 0, 8, t); st.memo = {}
    def el(self, eng, st, v):
        c = st.mem.get(ptr(('vs', v)), {}).get((8, 8)); t = c if c is not None else ptr(('el', v)); st.r.setdefault(t, (4096, 1 << 60)); return t
    def cont(self, st, t):
        """container storage an address lies in: (storage, index term, offset)"""
        b, o = split_addr(t)
        if t.op == 'x': return (t, C(0, 64), 0) if t.a[0] == 'el' or (isinstance(t.a[0], tuple) and t.a[0][0] == 'el') else None
        if t.op != 'lin': return None
        els = [x for x, c in t.a[1] if c == 1 and x in PTR and isel(x)]
        if len(els) != 1: return None
        r = sub(t, els[0]); k = C(0, 64); c0 = r.a[0] if r.op in ('lin', 'c') else 0
        if r.op == 'x' : return None
        if r.op == 'lin':
            for x, c in r.a[1]:
                if c % STRIDE: return None
                k = add(k, mulc(x, c // STRIDE))
        if c0 >= 1 << 63: c0 -= 1 << 64
        q, off = divmod(c0, STRIDE)
        return els[0], add(k, C(q % (1 << 64), 64)), off
    def inside(self, eng, st, i, c):
        if self.mode != 'load': return
        own = [payload(b) for b, cells in st.mem.items() if isinstance(b, T) and b.op == 'x' and tagof(b) == 'vs' and self.el(eng, st, payload(b)) is c[0]] or [payload(c[0])]
        # elements are taken in order from the first (checked apart), so it is enough that none is taken at the end of the container
        if not any(st.truth(cmp_('eq', c[1], self.vs(eng, st, v))) == 0 for v in own): self.fail(st, i, 'an element is loaded into a container that has no room for it')
    def G(self, eng, st): return eng.load_raw(st, GH, 0, 8)
    # --- items
    def item(self, st, it): self.close(st); st.mon = st.mon + (it,)
    def close(self, st):
        """an item that is not an element of the running sequence ends it"""
        if st.mon and st.mon[-1][0] == 'S' and not st.mon[-1][-1]:
            _, pat, ph, pend, num, _c = st.mon[-1]
            if ph != len(pat): self.fail(st, None, 'an element is not completely treated')
            if pend: self.fail(st, None, 'an element that was loaded is not put into the container')
            n = self.eng.load_raw(st, GH, 0, 8); cand = self.canon(st, n)
            if cand is None: self.fail(st, None, 'the number of elements %s does not follow from what is in the stream before them' % ('saved' if self.mode == 'save' else 'loaded')); cand = n
            st.mon = st.mon[:-1] + (('S', pat, ph, pend, cand, True),); self.eng.store_raw(st, GH, 0, 8, C(0, 64)); st.memo = {}
    def canon(self, st, n):
        if n.op == 'c': return n
        for it in st.mon:
            if it[0] == 'I' and it[2].w == 64 and st.truth(cmp_('eq', n, it[2])) == 1: return it[2]
        return None
    def element(self, eng, st, i, ty, k, off):
        """the element k of the container (None: a local object that will be put in) at sub-offset off is serialised"""
        n = self.G(eng, st); pend = k is None
        cur = st.mon[-1] if st.mon and st.mon[-1][0] == 'S' and not st.mon[-1][-1] else None
        if cur is None:
            self.close(st); n = self.G(eng, st)
            st.mon = st.mon + (('S', (), 0, False, None, False),); cur = st.mon[-1]
        _, pat, ph, pd, num, _c = cur
        first = n.op == 'c' and n.a[0] == 1      # the parts of an element are learnt from the first one
        if not pat or ph == len(pat) and not (first and (ty, off) not in pat):
            if pd: self.fail(st, i, 'an element that was loaded is not put into the container')
            if k is not None and st.truth(cmp_('eq', k, n)) != 1: self.fail(st, i, 'the elements are not taken one after the other')
            if pat and (ty, off) != pat[0]: self.fail(st, i, 'the elements are not all treated alike')
            n = add(n, C(1, 64)); eng.store_raw(st, GH, 0, 8, n); st.memo = {}
            if not pat: pat = ((ty, off),)
            ph = 1
        else:
            if k is not None and st.truth(cmp_('eq', add(k, C(1, 64)), n)) != 1: self.fail(st, i, 'the parts of an element are not taken together')
            if ph == len(pat): pat = pat + ((ty, off),)
            elif pat[ph] != (ty, off): self.fail(st, i, 'the elements are not all treated alike')
            ph += 1
        st.mon = st.mon[:-1] + (('S', pat, ph, pend or pd, None, False),)
    def token(self, eng, st, ty): return add(X(('tok', ty), 64), self.G(eng, st))
    def put(self, eng, st, i, v, p, what=None):
        """an object is put into the container"""
        cur = st.mon[-1] if st.mon and st.mon[-1][0] == 'S' and not st.mon[-1][-1] else None
        n = self.vs(eng, st, v)
        if cur and cur[3]:
            for ty, off in cur[1]:
                o = OFF.get(ty)
                if o is None: raise Incomplete('element of type %s' % ty)
                if isinstance(p, list): a = p[0] if o == 0 else p[1]; o = 0
                else: a = p
                if what == 'key' and o: continue
                b, bo = split_addr(a)
                if st.truth(cmp_('eq', eng.load_raw(st, b, bo + o, 8), self.token(eng, st, ty))) != 1: self.fail(st, i, 'what is put into the container is not what was loaded')
            st.mon = st.mon[:-1] + (cur[:3] + (False,) + cur[4:],)
        self.setvs(eng, st, v, add(n, C(1, 64)))
    def part(self, eng, st, i, op, ty, a, byval):
        if op != self.mode: self.fail(st, i, '%s is called while %s' % (op, 'saving' if self.mode == 'save' else 'loading')); return
        if ty in SCALAR:
            w = 8 * SCALAR[ty]
            if op == 'save':
                v = a if byval else eng.load_raw(st, *split_addr(a), w // 8)
                if v.w < w: v = zext(v, w)
                if v.op == 'x' and w == 64 and v not in st.r: st.r[v] = (0, 1 << 48)
                self.item(st, ('I', ty, v)); return
            c = self.cont(st, a)
            if c: self.inside(eng, st, i, c); self.element(eng, st, i, ty, c[1], c[2]); return
            v = self.fresh(st, w); b, o = split_addr(a); eng.store_raw(st, b, o, w // 8, v); st.memo = {}
            self.item(st, ('I', ty, v)); return
        c = self.cont(st, a)
        if c: self.inside(eng, st, i, c); self.element(eng, st, i, ty, c[1], c[2]); return
        if ty in OFF and op == 'load':
            self.element(eng, st, i, ty, None, OFF[ty]); b, o = split_addr(a); eng.store_raw(st, b, o, 8, self.token(eng, st, ty)); st.memo = {}; return
        if ty.startswith('podvec std::'):
            sz = self.pod(ty)
            if sz:
                if op == 'save': n = self.vs(eng, st, a); self.item(st, ('I', 'unsigned long', n))
                else: n = self.fresh(st, 64); self.item(st, ('I', 'unsigned long', n)); self.setvs(eng, st, a, n)
                self.item(st, ('B', self.el(eng, st, a), mulc(n, sz))); return
        it = ('O', ty, a)
        if op == 'load' and ty.startswith('std::'):      # follow the contents if they are moved on to another container
            t = ptr(('ocont', len(st.mon))); it += (t,); self.setvs(eng, st, a, X(('ocount', len(st.mon)), 64)); eng.store_raw(st, ptr(('vs', a)), 8, 8, t)
        self.item(st, it)
    def fresh(self, st, w):
        k = sum(1 for x in st.mon if x[0] == 'I'); v = X(('in', k, w), w)
        if w == 64: st.r[v] = (0, 1 << 40)
        return v
    def bytes_(self, eng, st, i, op, p, n):
        if op != self.mode: self.fail(st, i, '%s is called while %s' % (op, 'saving' if self.mode == 'save' else 'loading')); return
        c = st.const(n); b, o = split_addr(p)
        if c is not None and c <= 8 and c in (1, 2, 4, 8) and not isel(b):
            if op == 'save': self.item(st, ('I', 'raw%d' % c, eng.load_raw(st, b, o, c)))
            else:
                v = self.fresh(st, 8 * c); eng.store_raw(st, b, o, c, v); st.memo = {}; self.item(st, ('I', 'raw%d' % c, v))
            return
        self.item(st, ('B', p, n))
    # --- calls
    def call(self, eng, st, i, name, q, args):
        self.eng = eng; q = q or ''
        q0 = strip_t(q.split('(')[0] if not q.startswith('cybozu') else q); last = q0.rsplit('::', 1)[-1]
        if q0 in ('cybozu::write', 'cybozu::read'):
            a = args[-2:] if q0 == 'cybozu::write' else args[-3:-1]
            if len(args) == 3: self.bytes_(eng, st, i, 'save' if q0 == 'cybozu::write' else 'load', a[0], a[1]); return [(st, None, 'ret', None)]
        f = self.M.funcs.get(name)
        ev = ev_call(self.M, name, q, self.M.dem(name) if hasattr(self.M, 'dem') else (f or {}).get('dem', ''))
        if ev: self.part(eng, st, i, ev[0], ev[1], args[ev[2]], ev[3]); return [(st, None, 'ret', None)]
        if last == 'strlen' and self.cstr: return [(st, self.vs(eng, st, self.this), 'ret', None)]
        if re.match(r'(std|__gnu_cxx)::', q): return self.stdcall(eng, st, i, q, q0, last, args)
        return None
    def stdcall(self, eng, st, i, q, q0, last, args):
        R = lambda v: [(st, v, 'ret', None)]
        isit = re.search(r'iterator', q0) is not None or q0.startswith('__gnu_cxx::')
        if isit or re.match(r'std::(__detail::)?operator[!=]=', q0):
            def pos(a): return eng.load_raw(st, *split_addr(a), 8)
            if last in ('operator!=', 'operator==') and len(args) == 2:
                c = cmp_('eq', pos(args[0]), pos(args[1])); return R(not_(c) if last == 'operator!=' else c)
            if last == 'operator++':
                b, o = split_addr(args[0]); p = eng.load_raw(st, b, o, 8); eng.store_raw(st, b, o, 8, add(p, C(1, 64))); st.memo = {}
                return R(args[0]) if len(args) == 1 else R(p)
            if last in ('operator*', 'operator->'):
                p = pos(args[0])
                it = [x for x in p.at if x in PTR and x.a[0] == 'it' or x.op == 'x' and isinstance(x.a[0], tuple) and x.a[0][0] == 'it'] if p.at else []
                it = [x for x in p.at if itof(x) is not None]
                if len(it) == 1: return R(add(self.el(eng, st, itof(it[0])), mulc(sub(p, it[0]), STRIDE)))
            if last.startswith('_') or 'iterator' in last or last == 'base': 
                if len(args) == 2: eng.store_raw(st, *split_addr(args[0]), 8, pos(args[1]) if args[1] in PTR or True else args[1]); st.memo = {}; return R(None)
            return None
        m = re.match(r'std::(__cxx11::)?(vector|list|deque|set|multiset|map|multimap|unordered_map|unordered_set|basic_string)<?', q)
        if not m: return None
        sret = args[0] if i.get('sret') else None
        if sret is not None: args = args[1:]
        v = args[0] if args else None
        if v is None: return None
        if last in ('size', 'length'): return R(self.vs(eng, st, v))
        if last == 'empty': return R(cmp_('eq', self.vs(eng, st, v), C(0, 64)))
        if last == 'clear': self.setvs(eng, st, v, C(0, 64)); return R(None)
        if last == 'resize': self.setvs(eng, st, v, args[1]); return R(None)
        if last == 'reserve': return R(None)
        if last in ('begin', 'cbegin', 'end', 'cend'):
            it = ptr(('it', v)); st.r.setdefault(it, (4096, 1 << 60)); t = it if 'begin' in last else add(it, self.vs(eng, st, v))
            if sret is not None: eng.store_raw(st, *split_addr(sret), 8, t); st.memo = {}; return R(None)
            return R(t)
        if last in ('operator[]', 'at') and m.group(2) in ('vector', 'deque', 'basic_string'):
            c = self.M.podsize(q) if False else None
            ix = st.const(args[1]); e = self.el(eng, st, v)
            return R(add(e, mulc(args[1], STRIDE)))
        if last in ('data', 'c_str', 'front'): return R(self.el(eng, st, v))
        if last in ('operator[]', 'at'):
            self.put(eng, st, i, v, args[1], 'key'); return R(add(add(self.el(eng, st, v), mulc(sub(self.vs(eng, st, v), C(1, 64)), STRIDE)), C(8, 64)))
        if last in ('push_back', 'emplace_back'):
            self.put(eng, st, i, v, args[1] if len(args) > 1 else None)
            return R(add(self.el(eng, st, v), mulc(sub(self.vs(eng, st, v), C(1, 64)), STRIDE)))
        if last == 'back': return R(add(self.el(eng, st, v), mulc(sub(self.vs(eng, st, v), C(1, 64)), STRIDE)))
        if last in ('insert', 'emplace', 'emplace_hint'):
            a = args[1:] if last != 'emplace' or len(args) == 2 else [args[1:3]]
            if last == 'emplace_hint' and len(args) == 4: a = [args[2:4]]
            self.put(eng, st, i, v, a[-1]); return R(None)
        if last == m.group(2) and len(args) == 1: self.setvs(eng, st, v, C(0, 64)); eng.store_raw(st, ptr(('vs', v)), 8, 8, ptr(('el', v))); return R(None)
        if last.startswith('~'): return R(None)
        if (last == 'operator=' or last == m.group(2)) and len(args) == 2 and args[1].w == 64 and args[1] in PTR | {args[1]} and 'initializer_list' not in q:
            n, e = self.vs(eng, st, args[1]), self.el(eng, st, args[1]); self.setvs(eng, st, v, n); eng.store_raw(st, ptr(('vs', v)), 8, 8, e)
            return R(args[0] if last == 'operator=' else None)
        if last == 'swap' and len(args) == 2:
            a, b = args; x, y = (self.vs(eng, st, a), self.el(eng, st, a)), (self.vs(eng, st, b), self.el(eng, st, b))
            for p, (n, e) in ((a, y), (b, x)): self.setvs(eng, st, p, n); eng.store_raw(st, ptr(('vs', p)), 8, 8, e)
            return R(None)
        return None
    def carry(self, eng, st, entry, vals): return st.mon
def isel(x): return x.op == 'x' and tagof(x) == 'el'
def itof(x):
    if x.op == 'x' and tagof(x) == 'it': return payload(x)
def tagof(x):
    a = x.a[0] if not isinstance(x.a[0], tuple) else x.a[0][0]
    return a
def payload(x): return x.a[1] if not isinstance(x.a[0], tuple) else x.a[0][1]
def run_one(M, m, mode, pod):
    h = Ser(mode, M, pod); eng = Engine(M, m, h, max_time=150); h.eng = eng; eng.run(); paths = []
    for e in eng.exits:
        if not consistent(e.st): continue
        if e.kind == 'unwind' and 'cybozu' in str(e.val): h.thrown.append(e)
        if e.kind != 'ret': continue
        h.close(e.st); paths.append(e)
    return h, eng, paths

def target(f, M):
    for b in f['blocks']:
        for i in b['i'] if isinstance(b, dict) and 'i' in b else b:
            if i['op'] in ('call', 'invoke') and i['callee'][0] == 'fn' and ev_call(M, i['callee'][1], M.q(i['callee'][1]), M.dem(i['callee'][1])): return i['callee'][1]

# --- agreement of a save path with a load path
def rebase(t, frm, to):
    """t with the object `frm` replaced by `to`, in addresses and in the names of container storage"""
    m = {}
    for x in t.at:
        y = rebase_atom(x, frm, to)
        if y is not x: m[x] = y
    return subst(t, m) if m else t
def rebase_atom(x, frm, to):
    if x is frm: return to
    if x.op == 'x' and tagof(x) in ('el', 'vs', 'it'):
        p = payload(x); q = rebase(p, frm, to)
        if q is not p: return ptr((tagof(x), q))
    return x
def branch_conds(st):
    t = st.tr; seen = set()
    while t:
        l, c, v, t = t
        if (c, v) not in seen: seen.add((c, v)); yield c, v
def joint(s, l):
    """facts of both paths for one stream: (state, substitution for the load side) or None if they exclude each other"""
    sl, ll = THIS['save'], THIS['load']; m = {}
    si = [x for x in s.st.mon if x[0] == 'I']; li = [x for x in l.st.mon if x[0] == 'I']
    for a, b in zip(si, li):
        if a[2].w == b[2].w and b[2].op == 'x': m[b[2]] = a[2]
    j = s.st.copy(); j.memo = {}
    for c, v in list(branch_conds(l.st)) + list(l.st.bl.items()):
        if not j.assume(subst(rebase(c, ll, sl), m), 1 if v else 0): return None
    if not consistent(j): return None
    return j, m
def disagree(es, s, el, l, hl):
    r = joint(s, l)
    if r is None: return None
    j, m = r; sl, ll = THIS['save'], THIS['load']
    def L(t): return subst(rebase(t, ll, sl), m)
    def eq(a, b): return a is b or a.w == b.w and j.truth(cmp_('eq', a, b)) == 1
    def trim(items, f):
        out = []
        for x in items:
            if x[0] == 'B' and j.truth(cmp_('eq', f(x[2]), C(0, 64))) == 1: continue
            if x[0] == 'S' and j.truth(cmp_('eq', f(x[4]), C(0, 64))) == 1: continue
            out.append(x)
        return out
    A, B = trim(s.st.mon, lambda t: t), trim(l.st.mon, L)
    for n in range(max(len(A), len(B))):
        if n >= len(A): return 'load goes on to take %s where save has ended' % name(B[n])
        if n >= len(B): return 'save writes %s but load does not take it' % name(A[n])
        a, b = A[n], B[n]
        if a[0] != b[0] or a[1] != b[1] and (a[0] in 'OS' or a[0] == 'I' and kind(a[1]) != kind(b[1])): return 'save writes %s but load takes %s' % (name(a), name(b))
        if a[0] == 'B':
            if not eq(a[1], L(b[1])): return 'the bytes of one part are loaded into another'
            if not eq(a[2], L(b[2])): return 'load takes another number of bytes than save wrote'
        if a[0] == 'O' and not (len(b) > 3 and l.st.mem.get(ptr(('vs', rebase(a[2], sl, ll))), {}).get((8, 8)) is b[3] if len(b) > 3 else eq(a[2], L(b[2]))): return 'a part is loaded into another place than it was saved from'
        if a[0] == 'S' and not eq(a[4], L(b[4])): return 'load takes another number of elements than save wrote'
    # afterwards the members hold what was saved
    want = [x[2] for x in A if x[0] == 'I']
    for x in A:
        if x[0] == 'B' and isel(x[1]) and es.h.whole is not None: want.append(es.load_raw(s.st.copy(), ptr(('vs', payload(x[1]))), 0, 8))
    if es.h.whole and not any(x[0] == 'O' and x[2] is sl for x in A): want.append(es.load_raw(s.st.copy(), ptr(('vs', sl)), 0, 8))
    for v in want:
        if v.op != 'x' or v.a[0] != 'ld' or not isinstance(v.a[1], T): continue
        base = rebase(v.a[1], sl, ll)
        if base is v.a[1]: continue
        g = el.load_raw(l.st, base, v.a[2], v.a[3])
        if not eq(v, L(g)): return '%s after load is not what was saved' % ('the size' if tagof(v.a[1]) == 'vs' else 'a member')
    return None
def eqk(x, y): return x[0] == y[0] and (x[0] not in 'IO' or (kind(x[1]) == kind(y[1]) if x[0] == 'I' else x[1] == y[1]))
def name(x):
    if x[0] == 'I': return 'a value of type %s' % x[1].replace('raw', 'size ')
    if x[0] == 'B': return 'a range of bytes'
    if x[0] == 'O': return 'a %s' % x[1][:80]
    return 'elements (%s)' % ', '.join(p[0][:60] for p in x[1])
def classes(R):
    M = Module(common.ir('ser2_drv.cpp', opaque=OPQ)); T_ = {}
    for m, f in sorted(M.funcs.items()):
        g = re.match(r'cybozu::drv::([sl])_(\w+)$', f['q'])
        if g: T_.setdefault(g.group(2), {})[g.group(1)] = (target(f, M), f)
    sizes = {}
    def pod(ty):
        if ty not in sizes:
            sizes[ty] = None
            for m, f in M.funcs.items():
                ev = ev_call(M, m, f['q'], f['dem'])
                if ev and ev[1] == ty and sizes[ty] is None:
                    try: h, eng, ps = run_one(M, m, ev[0], pod)
                    except Incomplete: continue
                    for e in ps:
                        for x in e.st.mon:
                            if x[0] == 'B' and x[2].op == 'lin' and len(x[2].a[1]) == 1: sizes[ty] = x[2].a[1][0][1]
                            elif x[0] == 'B' and x[2].op == 'x': sizes[ty] = 1
        return sizes[ty]
    for tag, d in sorted(T_.items()):
        if set(d) != {'s', 'l'} or not all(t and t in M.funcs for t, _ in d.values()): R.skip('cybozu::drv::%s' % tag, 'save or load not found'); continue
        s, l = d['s'][0], d['l'][0]; R.count('types'); bad = []
        try: hs, es, ps = run_one(M, s, 'save', pod); hl, el, pl = run_one(M, l, 'load', pod)
        except Incomplete as x: R.skip(M.funcs[s]['dem'], str(x)); continue
        for h, fn in ((hs, s), (hl, l)):
            for w, loc, st in h.bad: bad.append((w, M.loc(loc) if loc is not None else '%s:%d' % (M.funcs[fn]['file'], M.funcs[fn]['line']), fn, describe(h.eng, st, 12)))
        n = 0
        for a in ps:
            for b in pl:
                n += 1; w = disagree(es, a, el, b, hl)
                if w: bad.append((w, '%s:%d' % (M.funcs[l]['file'], M.funcs[l]['line']), l, describe(es, a.st, 6) + ['--- load'] + describe(el, b.st, 6)))
        for a in ps:
            for b in hl.thrown:
                n += 1; r = joint(a, b)
                if r and all(eqk(x, y) for x, y in zip(a.st.mon, b.st.mon)): bad.append(('load refuses something that save writes', M.loc(b.loc), l, describe(el, b.st, 6)))
        R.count('save paths', len(ps)); R.count('load paths', len(pl)); R.count('path pairs', n); R.ob(not bad, n)
        R.sample('%s: %d save paths, %d load paths, items %s' % (M.funcs[s]['dem'][:120], len(ps), len(pl), ' '.join(x[0] for x in max((p.st.mon for p in ps), key=len, default=()))))
        if not ps or not pl: bad.append(('save or load never completes', '%s:%d' % (M.funcs[l]['file'], M.funcs[l]['line']), l, []))
        for w, loc, fn, det in bad: R.violation(loc, '%s: %s' % (M.funcs[fn]['dem'][:160], w), key='%s %s' % (tag, w), detail=det)
def check(R):
    scalars(R); scalars(R, ('-DCYBOZU_SERIALIZER_FIXED_SIZE_INTEGER',)); classes(R)
    return R.finish('every value of every scalar type through save and load as one program; every pair of a save path and a load path of the standard containers, strings and of the library classes that serialise', minimum={'scalar round trips': 12, 'types': 15})
