"""Hash-consed value terms: the symbolic-value abstract domain of the analyser.

A term denotes an SSA value as an expression over atoms (inputs of the analysed function, contents of memory at
entry, results of opaque calls, loop-carried values).  Sums are kept in linear normal form modulo 2^w."""
import itertools

_tab = {}
_cnt = itertools.count()

class T:
    __slots__ = ('op', 'a', 'w', 'id', 'at', '_pm', '_bits')
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id
    def __reduce__(self): return (str, (show(self),))

def mk(op, a, w):
    k = (op, a, w)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.w = w; t.id = next(_cnt); t._pm = None; t._bits = None
        if op == 'x': t.at = frozenset((t,))
        else:
            s = frozenset()
            for x in subterms(t): s |= x.at
            t.at = s
        _tab[k] = t
    return t

def subterms(t):
    op = t.op
    if op in ('c', 'x'): return ()
    if op == 'lin': return tuple(x for x, c in t.a[1])
    return tuple(x for x in t.a if isinstance(x, T))

def C(v, w):
    v &= (1 << w) - 1
    return mk('c', (v,), w)

def X(name, w): return mk('x', name if isinstance(name, tuple) else (name,), w)

def is_c(t): return t.op == 'c'
def cval(t): return t.a[0] if t.op == 'c' else None
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

def lin_parts(t):
    """(k, {term:coef}) with signed-centred coefficients"""
    if t.op == 'c': return sgn(t.a[0], t.w), ()
    if t.op == 'lin': return t.a
    return 0, ((t, 1),)

def from_lin(k, parts, w):
    m = (1 << w) - 1
    d = {}
    for t, c in parts:
        d[t] = d.get(t, 0) + c
    L = []
    for t, c in d.items():
        c &= m
        if c:
            L.append((t, sgn(c, w)))
    k = sgn(k & m, w)
    if not L: return C(k, w)
    L.sort(key=lambda p: p[0].id)
    if k == 0 and len(L) == 1 and L[0][1] == 1: return L[0][0]
    return mk('lin', (k, tuple(L)), w)

def add(a, b):
    k1, p1 = lin_parts(a); k2, p2 = lin_parts(b)
    return from_lin(k1 + k2, tuple(p1) + tuple(p2), a.w)
def mulc(a, c):
    k1, p1 = lin_parts(a)
    return from_lin(k1 * c, tuple((t, x * c) for t, x in p1), a.w)
def sub(a, b): return add(a, mulc(b, -1))

def tzeros(t):
    """number of low bits certainly zero in a constant or linear term"""
    k, ps = lin_parts(t)
    n = k
    for _, c in ps: n |= c
    if n == 0: return t.w
    return min(t.w, (n & -n).bit_length() - 1)
def pm(t):
    """mask of bits that may be one (structural)"""
    if t._pm is None: t._pm = _pmask(t)
    return t._pm
def _pmask(t):
    op, w = t.op, t.w
    full = (1 << w) - 1
    if op == 'c': return t.a[0]
    if op == 'x': return full
    if op == 'zext': return pm(t.a[0])
    if op == 'trunc': return pm(t.a[0]) & full
    if op == 'and': return pm(t.a[0]) & pm(t.a[1])
    if op in ('or', 'xor'): return pm(t.a[0]) | pm(t.a[1])
    if op == 'shl' and is_c(t.a[1]): return (pm(t.a[0]) << t.a[1].a[0]) & full
    if op == 'lshr' and is_c(t.a[1]): return pm(t.a[0]) >> t.a[1].a[0]
    if op == 'lin':
        k, ps = t.a
        if k < 0 or any(c < 0 for _, c in ps): 
            return full
        s = k + sum(pm(x) * c for x, c in ps)
        if s <= full:
            # try disjoint
            acc = k; ok = True
            for x, c in ps:
                if c & (c - 1): ok = False; break
                m = pm(x) * c
                if m & acc: ok = False; break
                acc |= m
            if ok: return acc
            return (1 << s.bit_length()) - 1
        return full
    if op == 'tbl':
        return full
    if op == 'urem' and is_c(t.a[1]) and t.a[1].a[0]: return (1 << (t.a[1].a[0] - 1).bit_length()) - 1
    if op == 'sel': return pm(t.a[1]) | pm(t.a[2])
    return full

def zext(a, w):
    if w == a.w: return a
    if is_c(a): return C(a.a[0], w)
    if a.op == 'zext': return zext(a.a[0], w)
    return mk('zext', (a,), w)
def sext(a, w):
    if w == a.w: return a
    if is_c(a): return C(sgn(a.a[0], a.w), w)
    if a.op == 'zext' : return zext(a.a[0], w)
    if a.op == 'sext': return sext(a.a[0], w)
    return mk('sext', (a,), w)
def trunc(a, w):
    if w == a.w: return a
    if is_c(a): return C(a.a[0], w)
    if a.op in ('zext', 'sext'):
        b = a.a[0]
        if b.w == w: return b
        if b.w > w: return trunc(b, w)
        return zext(b, w) if a.op == 'zext' else sext(b, w)
    if a.op == 'trunc': return trunc(a.a[0], w)
    if a.op == 'lin':
        k, ps = a.a
        out = []
        for t, c in ps:
            if not c % (1 << w): continue
            k2, qs = lin_parts(trunc(t, w)); k += k2 * c
            out += [(u, d * c) for u, d in qs]
        return from_lin(k, tuple(out), w)
    if a.op in ('and', 'or', 'xor'):
        return BIN[a.op](trunc(a.a[0], w), trunc(a.a[1], w))
    return mk('trunc', (a,), w)

def and_(a, b):
    if is_c(a): a, b = b, a
    full = (1 << a.w) - 1
    if is_c(b):
        m = b.a[0]
        if is_c(a): return C(a.a[0] & m, a.w)
        if m == 0: return b
        if pm(a) & ~m == 0: return a
        if a.op == 'and' and is_c(a.a[1]): return and_(a.a[0], C(a.a[1].a[0] & m, a.w))
        if a.op == 'zext' and m >= (1 << a.a[0].w) - 1 and (m & ((1 << a.a[0].w) - 1)) == (1 << a.a[0].w) - 1: return a
        if a.op == 'zext': return zext(and_(a.a[0], C(m, a.a[0].w)), a.w)
        if m & (m + 1) == 0:  # low mask
            n = m.bit_length()
            if n < a.w: return zext(trunc(a, n), a.w) if n in (8, 16, 32) else mk('and', (a, b), a.w)
        return mk('and', (a, b), a.w)
    if a is b: return a
    if a.id > b.id: a, b = b, a
    return mk('and', (a, b), a.w)
def or_(a, b):
    if is_c(a): a, b = b, a
    if is_c(a): return C(a.a[0] | b.a[0], a.w)
    if is_c(b) and b.a[0] == 0: return a
    if a is b: return a
    if pm(a) & pm(b) == 0 and a.w > 1: return add(a, b)
    if a.id > b.id and not is_c(b): a, b = b, a
    return mk('or', (a, b), a.w)
def xor_(a, b):
    if is_c(a): a, b = b, a
    if is_c(a): return C(a.a[0] ^ b.a[0], a.w)
    if is_c(b):
        if b.a[0] == 0: return a
        if a.w == 1: return not_(a)
        if b.a[0] == (1 << a.w) - 1: return from_lin(-1, tuple((t, -c) for t, c in lin_parts(a)[1]) , a.w) if lin_parts(a)[0] == 0 else sub(C(-1, a.w), a)
    if a is b: return C(0, a.w)
    if pm(a) & pm(b) == 0 and a.w > 1: return add(a, b)
    if a.id > b.id and not is_c(b): a, b = b, a
    return mk('xor', (a, b), a.w)

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}
def not_(a):
    if is_c(a): return C(a.a[0] ^ 1, 1)
    if a.op == 'cmp': return cmp_(NEG[a.a[0]], a.a[1], a.a[2])
    if a.op == 'not': return a.a[0]
    return mk('not', (a,), 1)
def ev_cmp(p, x, y, w):
    if p == 'eq': return x == y
    if p == 'ne': return x != y
    if p == 'ult': return x < y
    if p == 'ule': return x <= y
    if p == 'ugt': return x > y
    if p == 'uge': return x >= y
    x = sgn(x, w); y = sgn(y, w)
    return {'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p]
def cmp_(p, a, b):
    if is_c(a) and is_c(b): return C(int(ev_cmp(p, a.a[0], b.a[0], a.w)), 1)
    if a is b: return C(int(p in ('eq', 'ule', 'uge', 'sle', 'sge')), 1)
    if is_c(a): p, a, b = SWAP[p], b, a
    if a.w == 1 and is_c(b) and p in ('eq', 'ne'):
        return a if (b.a[0] == 1) == (p == 'eq') else not_(a)
    if a.op == 'zext' and is_c(b) and (p in ('eq', 'ne') or p[0] == 'u'):
        v = b.a[0]; iw = a.a[0].w
        if v < (1 << iw): return cmp_(p, a.a[0], C(v, iw))
    if p in ('eq', 'ne') and is_c(b) and a.op == 'lin' and len(a.a[1]) == 1 and abs(a.a[1][0][1]) == 1:
        k, ((t, c),) = a.a
        return cmp_(p, t, C((b.a[0] - k) * c, a.w))
    if p in ('eq', 'ne') and is_c(b) and b.a[0] == 0 and a.op == 'lin' and len(a.a[1]) == 2 and a.a[0] == 0:
        (t1, c1), (t2, c2) = a.a[1]
        if c1 == 1 and c2 == -1: return cmp_(p, t1, t2)
        if c1 == -1 and c2 == 1: return cmp_(p, t2, t1)
    if p in ('eq', 'ne') and not is_c(b) and (a.op == 'lin' or b.op == 'lin'):
        # cancel common parts
        ka, pa = lin_parts(a); kb, pb = lin_parts(b)
        sa = dict(pa); sb = dict(pb)
        com = {t: c for t, c in sa.items() if sb.get(t) == c}
        if com:
            a2 = from_lin(ka - kb, tuple((t, c) for t, c in pa if t not in com), a.w)
            b2 = from_lin(0, tuple((t, c) for t, c in pb if t not in com), a.w)
            return cmp_(p, a2, b2)
    if not is_c(b) and p in ('eq', 'ne', 'ugt', 'uge', 'sgt', 'sge') and a.id > b.id:
        p, a, b = SWAP[p], b, a
    return mk('cmp', (p, a, b), 1)
def sel(c, a, b):
    if is_c(c): return a if c.a[0] else b
    if a is b: return a
    if a.w == 1 and is_c(a) and is_c(b): return c if a.a[0] else not_(c)
    if c.op == 'not': return sel(c.a[0], b, a)
    return mk('sel', (c, a, b), a.w)
def shl(a, b):
    if is_c(b):
        n = b.a[0]
        if n >= a.w: return C(0, a.w)
        return mulc(a, 1 << n)
    return mk('shl', (a, b), a.w)
def lshr(a, b):
    if is_c(b):
        n = b.a[0]
        if n == 0: return a
        if n >= a.w: return C(0, a.w)
        if is_c(a): return C(a.a[0] >> n, a.w)
        if a.op == 'lshr' and is_c(a.a[1]): return lshr(a.a[0], C(a.a[1].a[0] + n, a.w))
        if a.op == 'zext' and n < a.a[0].w: return zext(lshr(a.a[0], C(n, a.a[0].w)), a.w)
        if a.op == 'zext': return C(0, a.w)
        if pm(a) >> n == 0: return C(0, a.w)
    return mk('lshr', (a, b), a.w)
def ashr(a, b):
    if is_c(b):
        if b.a[0] == 0: return a
        if is_c(a): return C(sgn(a.a[0], a.w) >> b.a[0], a.w)
        if not pm(a) >> (a.w - 1) & 1: return lshr(a, b)
    return mk('ashr', (a, b), a.w)
def mul(a, b):
    if is_c(a): a, b = b, a
    if is_c(b): return mulc(a, sgn(b.a[0], b.w))
    if a.id > b.id: a, b = b, a
    return mk('mul', (a, b), a.w)
def udiv(a, b):
    if is_c(b) and b.a[0]:
        v = b.a[0]
        if is_c(a): return C(a.a[0] // v, a.w)
        if v & (v - 1) == 0: return lshr(a, C(v.bit_length() - 1, a.w))
    return mk('udiv', (a, b), a.w)
def urem(a, b):
    if is_c(b) and b.a[0]:
        v = b.a[0]
        if is_c(a): return C(a.a[0] % v, a.w)
        if v & (v - 1) == 0: return and_(a, C(v - 1, a.w))
    return mk('urem', (a, b), a.w)
def _tdiv(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q
def sdiv(a, b):
    if is_c(b) and b.a[0]:
        v = sgn(b.a[0], b.w)
        if is_c(a): return C(_tdiv(sgn(a.a[0], a.w), v), a.w)
        if v == 1: return a
    return mk('sdiv', (a, b), a.w)
def srem(a, b):
    if is_c(b) and b.a[0] and is_c(a):
        x = sgn(a.a[0], a.w); y = sgn(b.a[0], b.w)
        return C(x - _tdiv(x, y) * y, a.w)
    return mk('srem', (a, b), a.w)
BIN = dict(add=add, sub=sub, mul=mul, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, shl=shl, lshr=lshr, ashr=ashr)
BIN['and'] = and_; BIN['or'] = or_; BIN['xor'] = xor_

def ev(t, env, tables=None):
    """concrete value of t when its atoms have the values env"""
    op, w = t.op, t.w
    m = (1 << w) - 1
    if op == 'c': return t.a[0]
    if op == 'x': return env[t]
    if op == 'lin':
        return (t.a[0] + sum(c * ev(x, env, tables) for x, c in t.a[1])) & m
    if op == 'cmp': return int(ev_cmp(t.a[0], ev(t.a[1], env, tables), ev(t.a[2], env, tables), t.a[1].w))
    if op == 'not': return 1 - ev(t.a[0], env, tables)
    if op == 'zext' or op == 'trunc': return ev(t.a[0], env, tables) & m
    if op == 'sext': return sgn(ev(t.a[0], env, tables), t.a[0].w) & m
    if op == 'sel': return ev(t.a[1], env, tables) if ev(t.a[0], env, tables) else ev(t.a[2], env, tables)
    if op == 'tbl':
        data, idx, es = t.a[0], t.a[1], t.a[2]
        i = ev(idx, env, tables)
        i = sgn(i, 64)
        if i < 0 or i + es > len(data): raise IndexError(i)
        return int.from_bytes(bytes(data[i:i + es]), 'little')
    x = ev(t.a[0], env, tables); y = ev(t.a[1], env, tables)
    if op == 'and': return x & y
    if op == 'or': return x | y
    if op == 'xor': return x ^ y
    if op == 'shl': return (x << y) & m if y < w else 0
    if op == 'lshr': return x >> y if y < w else 0
    if op == 'ashr': return (sgn(x, w) >> min(y, w)) & m
    if op == 'mul': return (x * y) & m
    if op == 'udiv': return x // y if y else 0
    if op == 'urem': return x % y if y else 0
    if op == 'sdiv': return _tdiv(sgn(x, w), sgn(y, w)) & m if y else 0
    if op == 'srem':
        if not y: return 0
        sx = sgn(x, w); sy = sgn(y, w); return (sx - _tdiv(sx, sy) * sy) & m
    raise KeyError(op)

def show(t, d=0):
    if d > 6: return '..'
    op = t.op
    if op == 'c':
        v = sgn(t.a[0], t.w) if t.w > 1 else t.a[0]
        return str(v)
    if op == 'x': return '.'.join(show(p, d + 1) if isinstance(p, T) else str(p) for p in t.a)
    if op == 'lin':
        k, ps = t.a
        s = ' + '.join((('' if c == 1 else '%d*' % c) + show(x, d + 1)) for x, c in ps)
        return '(' + s + ('' if k == 0 else ' + %d' % k) + ')'
    if op == 'cmp': return '(%s %s %s)' % (show(t.a[1], d + 1), t.a[0], show(t.a[2], d + 1))
    if op in ('zext', 'sext', 'trunc'): return '%s%d(%s)' % (op[0], t.w, show(t.a[0], d + 1))
    if op == 'tbl': return 'tbl[%s]' % show(t.a[1], d + 1)
    return '%s(%s)' % (op, ', '.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.a))

def bits(t):
    """bit provenance: tuple of w entries, each 0, 1, (atom,bit) or None"""
    if t._bits is None: t._bits = _bits(t)
    return t._bits
def _bits(t):
    op, w = t.op, t.w
    if op == 'c': return tuple(t.a[0] >> i & 1 for i in range(w))
    if op == 'x': return tuple((t, i) for i in range(w))
    if op == 'zext': return bits(t.a[0]) + (0,) * (w - t.a[0].w)
    if op == 'sext':
        b = bits(t.a[0]); return b + (b[-1],) * (w - len(b))
    if op == 'trunc': return bits(t.a[0])[:w]
    if op in ('and', 'or', 'xor'):
        x, y = bits(t.a[0]), bits(t.a[1]); r = []
        for p, q in zip(x, y):
            if op == 'and': r.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q and p is not None else None)
            elif op == 'or': r.append(1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q and p is not None else None)
            else: r.append(q if p == 0 else p if q == 0 else (1 - p if q == 1 and p in (0, 1) else (1 - q if p == 1 and q in (0, 1) else (0 if p == q and p is not None else None))))
        return tuple(r)
    if op in ('shl', 'lshr', 'ashr') and is_c(t.a[1]):
        n = t.a[1].a[0]; b = bits(t.a[0])
        if op == 'shl': return ((0,) * n + b)[:w]
        if op == 'lshr': return b[n:] + (0,) * n
        return b[n:] + (b[-1],) * n
    if op == 'lin':
        k, ps = t.a
        acc = list(k >> i & 1 for i in range(w)) if k >= 0 else None
        if acc is None: return (None,) * w
        # process terms one at a time; disjoint adds only; a negative top coefficient -2^(w-1) is the top bit
        for x, c in ps:
            c &= (1 << w) - 1
            if c & (c - 1): return (None,) * w
            n = c.bit_length() - 1
            b = ((0,) * n + bits(x))[:w]
            for i in range(w):
                if b[i] == 0: continue
                if acc[i] == 0: acc[i] = b[i]
                else: return (None,) * w
        return tuple(acc)
    return (None,) * w
