"""C12: byte layout of the endian helpers, decided by bit provenance over all values at once."""
import re
import common
from pai import *
NAMES = {}
for w in (16, 32, 64):
    for e in ('LE', 'BE'):
        NAMES['Get%dbitAs%s' % (w, e)] = ('get', w // 8, e); NAMES['Set%dbitAs%s' % (w, e)] = ('set', w // 8, e)
SRC = ptr_atom(('src',))
class EHooks(Hooks):
    unroll = 64; undecided_unroll = 8; max_states = 2000
    def __init__(self, k, n): self.k = k; self.n = n; self.acc = []
    def init(self, eng, st):
        self.acc = []
        self.p = st.env[eng.f['args'][0]['id']]
        self.bytes = [X(('byte', j), 8) for j in range(self.n)]
        for j in range(self.n): eng.store_raw(st, self.p, j, 1, self.bytes[j])
        st.memo = {}
    def load(self, eng, st, inst, base, off, size):
        if base is self.p: self.acc.append(('reads', off, size, inst.get('l')))
    def store(self, eng, st, inst, base, off, size, val):
        if base is self.p: self.acc.append(('writes', off, size, inst.get('l')))
        elif not (isinstance(base, T) and base.op == 'x' and base.a[0] == 'alloca'): self.acc.append(('writes elsewhere', off, size, inst.get('l')))
def byte_bits(t): return bits(t)
def check(R):
    for cfg, defs in (('default', ()), ('portable byte order code', ('-DCYBOZU_ENDIAN=2',))):
        M = Module(common.ir('endian_drv.cpp', defs=defs))
        fs = {}
        for m, f in M.funcs.items():
            q = f['q'].rsplit('::', 1)[-1]
            if f['q'].startswith('cybozu::') and (q in NAMES or q == 'byteSwap'): fs[m] = f
        for m, f in fs.items():
            q = f['q'].rsplit('::', 1)[-1]; R.count('functions')
            if q == 'byteSwap': kind, n, e = 'swap', ty_w(f['args'][0]['ty']) // 8, 'BE'
            else: kind, n, e = NAMES[q]
            h = EHooks(kind, n)
            if kind == 'swap': h.init = lambda eng, st: None
            eng = Engine(M, m, h, max_time=60)
            try: eng.run()
            except Incomplete as x: R.skip(f['dem'], str(x)); continue
            bad = []
            for a, off, size, l in h.acc:
                if not (isinstance(off, int) and 0 <= off and off + (size if isinstance(size, int) else 1 << 60) <= n): bad.append(('%s bytes outside the %d byte field' % (a, n), l))
            for ex in eng.exits:
                if ex.kind != 'ret': bad.append(('throws', ex.loc)); continue
                for j in range(n):
                    pos = j if e == 'LE' else n - 1 - j       # byte j of the value lies at this position
                    if kind == 'set':
                        v = eng.load_raw(ex.st, h.p, pos, 1); want = tuple((ARG(f, 1), 8 * j + b) for b in range(8)); got = bits(v)
                    elif kind == 'get':
                        v = ex.val; want = tuple((h.bytes[pos], b) for b in range(8)); got = bits(v)[8 * j:8 * j + 8]
                    else:
                        v = ex.val; want = tuple((ARG(f, 0), 8 * pos + b) for b in range(8)); got = bits(v)[8 * j:8 * j + 8]
                    R.count('byte positions')
                    if got != want: bad.append(('byte %d of the value is not placed at position %d for every value' % (j, pos), ex.loc))
                if kind == 'get' and bits(ex.val)[8 * n:] != (0,) * (ex.val.w - 8 * n): bad.append(('result has extra bits', ex.loc))
                if kind == 'get':
                    for j in range(n):
                        if eng.load_raw(ex.st, h.p, j, 1) is not h.bytes[j]: bad.append(('changes its source', ex.loc))
            R.ob(not bad, n + 1); R.sample('%s [%s]: %d bytes, %d paths' % (f['dem'], cfg, n, len(eng.exits)))
            # direct access wider than a byte must not assume alignment
            for b in f['blocks']:
                for i in b['i']:
                    if i['op'] in ('load', 'store') and i.get('sz', 1) > 1 and i.get('al', 1) > 1 and not is_local(f, i): bad.append(('accesses the caller\'s buffer as an aligned %d byte object' % i['sz'], i.get('l')))
            for w, l in bad: R.violation(M.loc(l) if l else f['dem'], '%s [%s]: %s' % (f['dem'], cfg, w), key='%s: %s' % (q, w))
    return R.finish('Bit provenance of every result/stored byte of Get/Set{16,32,64}bitAs{LE,BE} and byteSwap, for all values at once, in the native and the portable configuration; accesses must stay inside the field and must not assume alignment.', minimum={'functions': 28})
def ARG(f, k): return X(('arg', k, f['args'][k]['n']), ty_w(f['args'][k]['ty']))
def is_local(f, i):
    o = i['ops'][0 if i['op'] == 'load' else 1]
    d = {x['id']: x for b in f['blocks'] for x in b['i'] if 'id' in x}
    seen = 0
    while o[0] == 'v' and seen < 20:
        seen += 1
        x = d.get(o[1])
        if x is None: return False          # an argument
        if x['op'] == 'alloca': return True
        if x['op'] == 'getelementptr': o = x['base']
        elif x['op'] in ('bitcast',): o = x['ops'][0]
        else: return False
    return o[0] == 'g'
