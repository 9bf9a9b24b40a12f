"""Ownership typestate: every acquired or entry-owned handle ends in exactly one place."""
import re, time, multiprocessing as mp
from pai import *

FD, PTR_, MAP, ZS, KEY = 'fd', 'ptr', 'map', 'zs', 'key'
ACQ = {}
for n in ('open', 'open64', 'openat', 'openat64', 'creat', 'socket', 'accept', 'accept4', 'dup', 'epoll_create', 'epoll_create1', 'eventfd', 'mkstemp', 'inotify_init', 'timerfd_create'): ACQ[n] = (FD, 'ret')
for n in ('fopen', 'fopen64', 'fdopen', 'popen', 'freopen', 'tmpfile', 'opendir', 'fdopendir', 'malloc', 'calloc', 'strdup', 'aligned_alloc', 'memalign', 'EVP_MD_CTX_new', 'EVP_CIPHER_CTX_new', 'HMAC_CTX_new',
          'SSL_CTX_new', 'SSL_new', 'BIO_new', 'BIO_new_mem_buf', 'backtrace_symbols', '__cxa_demangle', 'EVP_PKEY_new', 'bfd_openr', '_Znwm', '_Znam', 'mecab_new2', 'realpath'): ACQ[n] = (PTR_, 'ret')
for n in ('mmap', 'mmap64'): ACQ[n] = (MAP, 'ret')
ACQ['getaddrinfo'] = (PTR_, ('out', 3, 8, 1, 'ret0'))
ACQ['vasprintf'] = (PTR_, ('out', 0, 8, 1, 'retge0')); ACQ['asprintf'] = ACQ['vasprintf']
ACQ['posix_memalign'] = (PTR_, ('out', 0, 8, 1, 'ret0'))
ACQ['pipe'] = (FD, ('out', 0, 4, 2, 'ret0')); ACQ['pipe2'] = ACQ['pipe']; ACQ['socketpair'] = (FD, ('out', 3, 4, 2, 'ret0'))
ACQ['deflateInit_'] = (ZS, ('obj', 0, 'ret0')); ACQ['deflateInit2_'] = ACQ['deflateInit_']; ACQ['inflateInit_'] = ACQ['deflateInit_']; ACQ['inflateInit2_'] = ACQ['deflateInit_']
ACQ['regcomp'] = (ZS, ('obj', 0, 'ret0'))
REL = {'close': 0, 'fclose': 0, 'pclose': 0, 'closedir': 0, 'free': 0, 'munmap': 0, 'freeaddrinfo': 0, 'EVP_MD_CTX_free': 0, 'EVP_CIPHER_CTX_free': 0, 'HMAC_CTX_free': 0, 'SSL_CTX_free': 0, 'SSL_free': 0,
       'BIO_free': 0, 'BIO_free_all': 0, 'BIO_vfree': 0, '_ZdlPv': 0, '_ZdaPv': 0, '_ZdlPvm': 0, '_ZdaPvm': 0, 'deflateEnd': 0, 'inflateEnd': 0, 'bfd_close': 0, 'EVP_PKEY_free': 0, 'regfree': 0,
       'pthread_join': 0, 'pthread_detach': 0, 'pthread_mutex_destroy': 0, 'pthread_cond_destroy': 0, 'pthread_key_delete': 0}
NOFIELD_REL = {'pthread_join', 'pthread_detach'}   # used for field discovery only with their own class

def invalid(st, h, kind):
    """is the handle known not to denote a resource on this path"""
    if kind == FD: return st.srng(h)[1] < 0
    c = st.const(h)
    if kind == KEY: return c is not None
    if c == 0: return True
    def std(cc, v):
        if cc.op == 'not': return std(cc.a[0], 1 - v)
        if cc.op in ('and', 'or') and cc.w == 1:
            f = any if (cc.op == 'and') == (v == 1) else all
            return f(std(x, v) for x in cc.a)
        if cc.op == 'cmp' and cc.a[0] == ('eq' if v else 'ne') and any(x is h for x in cc.a[1:]):
            o = cc.a[1] if cc.a[2] is h else cc.a[2]
            return o.op == 'x' and o.a[0] == 'ld' and isinstance(o.a[1], T) and o.a[1].op == 'x' and o.a[1].a[0] == 'g' and o.a[1].a[1] in ('stdout', 'stderr', 'stdin')
        return False
    t = st.tr   # equal to a standard stream: never owned
    while t:
        _, cc, v, t = t
        if std(cc, 1 if v else 0): return True
    if kind == MAP or c is not None: return c == (1 << h.w) - 1 or c == 0
    return False

def no_throw(q):
    """None: engine default.  Exhausted memory is out of scope: standard-library operations that can only throw for
    that reason, and building an exception object, do not throw here."""
    if re.match(r'(std|__gnu_cxx|cybozu::(Exception|ErrorNo|NetErrorNo|exception))\b', q) or q.startswith('operator new'):
        if re.search(r'::(at|substr|stoi|stol|stod|to_string|rethrow\w*|read|write|put|get|getline|open|operator(<<|>>))$', re.sub(r'<[^<>]*>$', '', q)) and not q.startswith('cybozu::'): return None
        return False
    return None

class OwnHooks(Hooks):
    max_states = 12000
    undecided_unroll = 1
    unroll = 64
    def __init__(self, tracked, dtor=False, ctor=False, owner_off=None, poly_del=None):
        # tracked: list of (argindex, [(off,size,kind)], [flag offs])
        self.tracked = tracked; self.dtor = dtor; self.ctor = ctor
        self.events = []; self.err = []
    def mon_set(self, st, h, kind, status, site):
        d = dict((k, v) for k, v in (st.mon or ()))
        d[h] = (kind, status, site)
        st.mon = tuple(sorted(d.items(), key=lambda x: x[0].id))
    def init(self, eng, st):
        self.objs = []
        for (ai, fields, flags) in self.tracked:
            base = st.env[eng.f['args'][ai]['id']]
            b, o0 = split_addr(base)
            hs = []
            for (off, size, kind) in fields:
                if kind == ZS:
                    h = add(base, C(off, 64)); self.mon_set(st, h, kind, 'ent', None); hs.append((off, size, kind, h)); continue
                h = eng.load_raw(st, b, o0 + off, size, kind != FD)
                if kind != FD: PTR.add(h)
                self.mon_set(st, h, kind, 'ent', None)
                hs.append((off, size, kind, h))
            fl = [eng.load_raw(st, b, o0 + f, 1) for f in flags]
            self.objs.append((b, hs, fl))
        if st.mon is None: st.mon = ()
    def call(self, eng, st, i, name, q, args):
        if name is None: return self.virtual_delete(eng, st, i, args)
        rn = rel_name(name)
        if name.endswith('D0Ev') and args:
            self.release(eng, st, i, 'delete', args[0]); return [(st, None, 'ret', None)]
        if rn in REL and args:
            h = args[REL[rn]]
            self.release(eng, st, i, rn, h)
            r = eng.fresh(st, i)
            if rn in ('pthread_join', 'pthread_detach'): pass
            eng.havoc(st, ERRNO)
            return [(st, r, 'ret', None)]
        # handing an object or handle to an opaque container operation: it takes it over
        if name and st.mon and name.startswith('_Z') and re.search(r'unique_ptr|shared_ptr|auto_ptr|::(push_back|push_front|insert|emplace\w*|push|swap|operator=|operator\[\])$', re.sub(r'<.*>', '', q)):
            for j, a in enumerate(args):
                d = dict(st.mon)
                if a in d:
                    if d[a][1] == 'acq': self.mon_set(st, a, d[a][0], 'gone', i.get('l'))
                    continue
                if i['aty'][j] != 'ptr': continue
                b, o = split_addr(a)
                if isinstance(b, T) and isinstance(o, int):
                    for (oo, s), t in list(st.mem.get(b, {}).items()):
                        if t in d and d[t][1] == 'acq' and isinstance(oo, int) and o <= oo < o + max(i['der'][j], 8): self.mon_set(st, t, d[t][0], 'gone', i.get('l'))
        an = acq_name(name)
        if an in ACQ:
            kind, how = ACQ[an]
            if how == 'ret': return None    # handled after the call
            if how[0] == 'out':
                _, ai, size, n, pred = how
                base, off = split_addr(args[ai])
                ret = eng.fresh(st, i)
                eng.havoc(st, ERRNO)
                s2 = st.copy()
                ok = cmp_('eq', ret, C(0, ret.w)) if pred == 'ret0' else cmp_('sge', ret, C(0, ret.w))
                out = []
                if st.assume(ok, 1):
                    for j in range(n):
                        h = X(('acq', an, i.get('id'), j, tuple(sorted((x, c[0]) for x, c in st.loops.items())), st.cnt.get(('site', i.get('id')), 0)), size * 8)
                        if kind != FD: PTR.add(h); st.r[h] = (4096, (1 << 63) - 1)
                        else: st.r[h] = (0, (1 << 31) - 1)
                        eng.store_raw(st, base, off if n == 1 else (off + j * size if isinstance(off, int) else add(off, C(j * size, 64))), size, h)
                        self.mon_set(st, h, kind, 'acq', i.get('l'))
                    st.memo = {}
                    out.append((st, ret, 'ret', None))
                if s2.assume(ok, 0):
                    if an != 'getaddrinfo': eng.havoc_obj(s2, args[ai], size * n)
                    out.append((s2, ret, 'ret', None))
                return out
            if how[0] == 'obj':
                h = args[how[1]]
                ret = eng.fresh(st, i); s2 = st.copy(); out = []
                ok = cmp_('eq', ret, C(0, ret.w))
                if st.assume(ok, 1):
                    self.mon_set(st, h, kind, 'acq', i.get('l')); out.append((st, ret, 'ret', None))
                if s2.assume(ok, 0): out.append((s2, ret, 'ret', None))
                return out
        return None
    def virtual_delete(self, eng, st, i, args):
        """an indirect call at the location of a delete-expression is the deleting destructor"""
        if not args or not any((f.replace('/repo/', '') + ':%d' % l) in eng.m.delete_locs for f, l, fn in eng.m.chain(i.get('l'))[:1]): return None
        self.release(eng, st, i, 'delete', args[0])
        return [(st, None, 'ret', None)]
    def release(self, eng, st, i, name, h):
        d = dict(st.mon)
        if h not in d:
            b = split_addr(h)[0]
            if isinstance(b, T) and b in d: h = b
        if h not in d:
            if h.op == 'x' and h.a[0] == 'ld' and not isinstance(h.a[2], int):   # element chosen by a runtime index: which one is unknown
                for (b, hl, fl) in self.objs:
                    if h.a[1] is b:
                        for x in hl: self.mon_set(st, x[3], x[2], 'maybe', i.get('l'))
        if h not in d:
            # releasing something not tracked (a parameter, a local): remember it
            kind = FD if name == 'close' else PTR_
            if not invalid(st, h, kind): self.mon_set(st, h, kind, 'rel', i.get('l'))
            self.events.append((name, h, i.get('l')))
            return
        kind, status, site = d[h]
        self.events.append((name, h, i.get('l')))
        if status == 'rel' and not invalid(st, h, kind):
            self.err.append(('double', h, st, i.get('l'), 'released twice'))
        self.mon_set(st, h, kind, 'rel', i.get('l'))
    def carry(self, eng, st, entry_mon, vals):
        """resources acquired during one iteration must still be reachable at its end"""
        ent = dict(entry_mon or ())
        for h, (kind, status, site) in st.mon:
            if status != 'acq' or h in ent or kind == ZS or invalid(st, h, kind): continue
            if any(v is h or h in v.at for v in vals): continue
            if any(h is t or h in t.at for c in st.mem.values() for t in c.values()): continue
            self.err.append(('loopleak', h, st, site, ''))
        return None
    def may_throw(self, eng, st, i, name, q):
        return no_throw(q)
    def after_call(self, eng, st, i, name, q, args, v):
        an = acq_name(name) if name else None
        if an in ACQ and ACQ[an][1] == 'ret' and v is not None:
            kind = ACQ[an][0]
            self.mon_set(st, v, kind, 'acq', i.get('l'))

def rel_name(n):
    return n
def acq_name(n):
    return n

def holders(eng, st, h, exit_, objs):
    """objects that hold handle h at the exit: list of (base, off)"""
    out = []
    for b, cells in st.mem.items():
        for (o, s), t in cells.items():
            if t is h or (t.op == 'lin' and split_addr(t)[0] is h): out.append((b, o))
    return out

def is_local(b):
    return isinstance(b, T) and b.op == 'x' and b.a[0] in ('alloca', 'exobj')

class Result:
    def __init__(self): self.bad = []; self.exits = 0; self.steps = 0; self.events = 0; self.handles = 0; self.error = None; self.time = 0
    
def analyse(mod, fname, tracked, dtor=False, ctor=False, this_owned=None, alias=None, max_time=40, this_new=None):
    """-> Result with bad = list of (category, message, loc, trace)"""
    R = Result(); t0 = time.time()
    h = OwnHooks(tracked, dtor, ctor)
    eng = Engine(mod, fname, h, max_time=max_time)
    if alias:
        orig = eng.init_state
        def init():
            st = orig(); a, b = alias
            st.env[eng.f['args'][b]['id']] = st.env[eng.f['args'][a]['id']]; return st
        eng.init_state = init
    try: eng.run()
    except Incomplete as e: R.error = str(e); return R
    R.steps = eng.steps; R.exits = len(eng.exits); R.events = len(h.events)
    f = eng.f
    sret = f['args'] and f['args'][0].get('sret')
    sretb = ('arg', 0, f['args'][0]['n']) if sret else None
    seen = set()
    def bad(cat, msg, st, loc, key):
        if key in seen: return
        seen.add(key); R.bad.append((cat, msg, mod.loc(loc), describe(eng, st, 10)))
    for (cat, hh, st, loc, msg) in h.err: bad('leak', 'a resource acquired in a loop iteration is forgotten before the next one', st, loc, ('ll', loc)) if cat == 'loopleak' else bad('double', 'a handle is released twice on a path', st, loc, ('dbl', loc))
    hs = set()
    thisi = 1 if sret else 0
    for ex in eng.exits:
        if ex.kind not in ('ret', 'unwind', 'terminate'): continue
        st = ex.st
        if ex.kind == 'terminate' and not dtor: continue
        held_owner_fields = {}
        for (b, hl, fl) in h.objs:
            for (off, size, kind, h0) in hl:
                if kind == ZS: continue
                cur = st.mem.get(b, {}).get((off, size)) if True else None
                held_owner_fields[(b, off)] = cur
        if this_new is not None and ex.kind == 'ret':   # constructor: the object under construction
            b = X(('arg', this_new[0], f['args'][this_new[0]]['n']), 64)
            off_ = any(is_false(st, st.mem.get(b, {}).get((fo, 1), C(1, 8))) for fo in this_new[2])
            for (off, size, kind) in this_new[1]:
                if kind != ZS and not off_: held_owner_fields[(b, off)] = st.mem.get(b, {}).get((off, size))
        for hd, (kind, status, site) in st.mon:
            hs.add(hd)
            if invalid(st, hd, kind): continue
            hl = holders(eng, st, hd, ex, h.objs)
            retv = ex.kind == 'ret' and ex.val is not None and (ex.val is hd or hd in ex.val.at)
            if ex.kind == 'ret' and ex.val is not None and ex.val.op == 'x' and ex.val.a[0] in ('agg2', 'aggload'): retv = True if any(p is hd for p in ex.val.a[1:]) else retv
            if status == 'acq':
                ok = retv
                if kind == ZS:
                    b, o = split_addr(hd)
                    ok = not is_local(b) and not (ctor and ex.kind == 'unwind')
                else:
                    for (b, o) in hl:
                        if is_local(b): continue
                        if isinstance(b, T) and b.op == 'x':
                            if ex.kind == 'unwind' and sret and b.a == sretb: continue
                            if ctor and ex.kind == 'unwind' and b.a[:2] == ('arg', thisi): continue
                            if b.a[0] == 'arg' and b.a[1] == thisi and this_owned is not None and isinstance(o, int) and not any(off <= o < off + size for (off, size, k) in this_owned):
                                continue
                            if b in dict(st.mon) and b is not hd and not is_local(b):
                                # held by a heap object we also track: fine if that one is held
                                s2 = dict(st.mon)[b]
                                if s2[1] == 'rel': continue
                        ok = True
                    # pointer arithmetic on the handle kept somewhere (aligned block)
                    if not ok:
                        for b, cells in st.mem.items():
                            if is_local(b): continue
                            if ex.kind == 'unwind' and ctor and isinstance(b, T) and b.a[:2] == ('arg', thisi): continue
                            if any(hd in t.at and t in () for t in cells.values()): ok = True
                if not ok:
                    bad('leak', '%s acquired at %s is not released or handed over when the function leaves by %s' % ({'fd': 'descriptor', 'ptr': 'resource', 'map': 'mapping', 'zs': 'compression state'}[kind], mod.loc(site), 'exception' if ex.kind == 'unwind' else 'return'), st, ex.loc, ('leak', site, ex.kind))
            elif status == 'ent':
                ow = [(b, hl2, fl) for (b, hl2, fl) in h.objs if any(x[3] is hd for x in hl2)]
                flagfalse = any(fl and all(is_false(st, x) for x in fl) for (_, _, fl) in ow)
                if kind == ZS:
                    if dtor and ex.kind == 'ret': bad('dtor', 'destructor leaves without releasing', st, ex.loc, ('dtor', hd))
                    continue
                tracked_h = {k for k, _ in st.mon}      # held on entry by one of the objects, or acquired here: known
                # number of owner fields holding it
                n = sum(1 for v in held_owner_fields.values() if v is hd)
                n_other = 1 if retv else sum(1 for (b, o) in hl if not is_local(b) and (b, o) not in held_owner_fields)
                if dtor:
                    if ex.kind in ('ret', 'unwind') and not flagfalse: bad('dtor', 'destructor can finish without releasing the resource it holds', st, ex.loc, ('dtor', hd, ex.kind))
                    continue
                if flagfalse: continue
                unknown = any(v is None or (v.op == 'x' and v.a[0] == 'ld' and v not in tracked_h) for (k, v) in held_owner_fields.items() if any(k == (b, x[0]) for (b, hl2, fl) in ow for x in hl2 if x[3] is hd))
                if n == 0 and n_other == 0 and not unknown: bad('lost', 'a resource held on entry is neither released nor kept when the function leaves by %s' % ('exception' if ex.kind == 'unwind' else 'return'), st, ex.loc, ('lost', hd, ex.kind))
                if n > 1 and len({b for (b, o), v in held_owner_fields.items() if v is hd}) > 1: bad('dup', 'two objects hold the same resource afterwards', st, ex.loc, ('dup', hd))
            elif status == 'rel':
                if dtor: continue
                for (b, o), v in held_owner_fields.items():
                    if v is hd:
                        if any(fl and all(st.const(x) == 0 for x in [st.mem.get(b, {}).get((fo, 1), C(1, 8)) for fo in ()]) for fl in ()): continue
                        # object still believes it owns it (unless its flag says no)
                        if not flag_off(h, st, b):
                            bad('dangling', 'a released resource is still held by the object (it would be released again)', st, ex.loc, ('dang', hd, ex.kind))
        if dtor and ex.kind in ('unwind', 'terminate'):
            bad('throws', 'an exception can leave the destructor (%s)' % ex.kind, st, ex.loc, ('throws', ex.kind))
    R.handles = len(hs); R.time = time.time() - t0
    return R

def is_false(st, x):
    return st.const(x) == 0 or st.truth(trunc(x, 1)) == 0

def flag_off(h, st, b):
    for i, (ai, fields, flags) in enumerate(h.tracked):
        if h.objs[i][0] is b:
            for f in flags:
                v = st.mem.get(b, {}).get((f, 1))
                if v is not None and is_false(st, v): return True
    return False

class Owners:
    """owner classes and their owned fields, discovered from destructors"""
    def __init__(self, facts, mod):
        self.mod = mod; self.cls = {}; self.facts = facts
        mod.delete_locs = {d['loc'].replace('/repo/', '') for f in facts['funcs'] for d in f.get('deletes', [])}
        self.rec = {}
        self.fbym = {}
        for f in facts['funcs']:
            for mn in f['mangled']: self.fbym[mn] = f
        for r in facts['records']:
            if r['dependent']: continue
            self.rec[norm_ty(r['type'])] = r
        self.errors = []; self.tagged = []; self.relevents = {}
        for r in self.rec.values():
            d = r.get('dtor') or {}
            ms = [x for x in (d.get('mangled') or []) if x in mod.funcs]
            ms = [x for x in ms if 'D1Ev' in x] or [x for x in ms if 'D2Ev' in x] or ms
            if not ms: continue
            self.probe(r, ms[0])
    def probe(self, r, fn):
        h = OwnHooks([], True); eng = Engine(self.mod, fn, h, max_time=20)
        try: eng.run()
        except Incomplete as e: self.errors.append(str(e)); return
        this = eng.f['args'][0]
        fields = {}
        def member_class(t):
            b, o = t, 0
            if t.op == 'x' and t.a[0] == 'ld' and isinstance(t.a[1], T): b, o = t.a[1], t.a[2]
            else: b, o = split_addr(t)
            if not (isinstance(b, T) and b.a[:2] == ('arg', 0) and isinstance(o, int)): return False
            for x in r['fields']:
                if x['off'] <= o < x['off'] + max(x.get('size') or 1, 1): return norm_ty(x.get('c') or x['t']) in self.rec or norm_ty(x['t']) in self.rec
            return True   # inside a base class
        self.relevents[fn] = {n for (n, t, loc) in h.events if not member_class(t)}
        for (name, t, loc) in h.events:
            if name in NOFIELD_REL and t.w != 64: continue
            if t.op == 'x' and t.a[0] == 'ld' and isinstance(t.a[1], T) and t.a[1].a[:2] == ('arg', 0) and isinstance(t.a[2], int):
                kind = FD if name == 'close' else MAP if name == 'munmap' else KEY if name == 'pthread_key_delete' else PTR_
                fields[t.a[2]] = (t.a[2], t.a[3], kind)
            elif name in ('deflateEnd', 'inflateEnd', 'regfree', 'pthread_mutex_destroy', 'pthread_cond_destroy'):
                b, o = split_addr(t)
                if isinstance(b, T) and b.a[:2] == ('arg', 0) and isinstance(o, int): fields[o] = (o, 8, ZS)
        # delete-expressions on members (virtual destructors are indirect calls)
        f = self.fbym.get(fn)
        for dl in (f or {}).get('deletes', []):
            if dl.get('member') and dl.get('this'):
                for x in r['fields']:
                    if x['n'] == dl['member']: fields.setdefault(x['off'], (x['off'], 8, PTR_))
        for o in list(fields):   # a member of a tagged union: ownership depends on the tag, not decided here
            if sum(1 for x in r['fields'] if x['off'] == o) > 1 or any(x['off'] == o and not x['n'] for x in r['fields']): del fields[o]; self.tagged.append(norm_ty(r['type']))
        flags = [x['off'] for x in self.allfields(r) if x['t'] in ('bool', '_Bool') and re.search(r'close|own', x['n'], re.I)]
        if fields: self.cls[norm_ty(r['type'])] = dict(fields=sorted(fields.values()), flags=flags, rec=r, dtor=fn, steps=eng.steps)
    def allfields(self, r): return r['fields']

def norm_ty(t):
    t = re.sub(r'\b(class|struct|union|enum) ', '', t)
    t = re.sub(r'\bconst ', '', t)
    return t.strip()

def ref_class(pt):
    """class named by a reference/rvalue-reference parameter type, constness"""
    m = re.match(r'^(const )?(.*?) ?(&&|&)$', pt)
    if not m: return None
    return norm_ty(m.group(2)), bool(m.group(1)), m.group(3)
