"""Bit-linear forms: a value as constant + sum of coefficient * input bit (mod 2^w).

The form of a value is unique once the bits the path fixes are substituted, so two computations agree for every input of
the path exactly when their forms agree.  `known(atom, i)` gives a bit the path has fixed (0/1) or None; `rng(term)` the
interval the path has established for a subterm."""
from terms import *
class NotLinear(Exception): pass
class Form:
    __slots__ = ('k', 'c', 'w')
    def __init__(self, k, c, w): self.k = k % (1 << w); self.c = {b: v for b, v in ((b, v % (1 << w)) for b, v in c.items()) if v}; self.w = w
    def __eq__(self, o): return self.w == o.w and self.k == o.k and self.c == o.c
    def __repr__(self): return '%d%s' % (self.k, ''.join(' + %d*%s.%d' % (v, b[0], b[1]) for b, v in sorted(self.c.items(), key=str)))
def _sym(v, w): return v - (1 << w) if v >> (w - 1) else v
def exact(f, lo, hi):
    """(k, coeffs) with integer value equal to the value, known to lie in [lo, hi]"""
    M = 1 << f.w; best = None
    for mode in (0, 1):
        c = {b: (v if mode == 0 else _sym(v, f.w)) for b, v in f.c.items()}
        mn = f.k + sum(min(0, v) for v in c.values()); mx = f.k + sum(max(0, v) for v in c.values())
        ms = [m for m in range((lo - mx) // M - 1, (hi - mn) // M + 2) if mn + m * M <= hi and mx + m * M >= lo]
        if len(ms) == 1: return f.k + ms[0] * M, c
    raise NotLinear('range')
class Dom:
    def __init__(self, known, rng, srng): self.known = known; self.rng = rng; self.srng = srng; self.memo = {}
    def form(self, t):
        r = self.memo.get(t.id)
        if r is None: r = self.memo[t.id] = self._form(t)
        return r
    def ex(self, t):
        lo, hi = self.rng(t); return exact(self.form(t), lo, hi)
    def tobits(self, t):
        try: k, c = self.ex(t)
        except NotLinear: k, c = self.form(t).k, self.form(t).c
        out = [k >> i & 1 for i in range(t.w)]
        if k < 0: raise NotLinear('negative')
        for b, v in c.items():
            if v <= 0 or v & (v - 1): raise NotLinear('coefficient')
            i = v.bit_length() - 1
            if i >= t.w: continue
            if out[i] != 0: raise NotLinear('carry')
            out[i] = b
        return out
    def frombits(self, bs):
        k = 0; c = {}
        for i, b in enumerate(bs):
            if b == 1: k += 1 << i
            elif b != 0: c[b] = c.get(b, 0) + (1 << i)
        return Form(k, c, len(bs))
    def _form(self, t):
        op, w = t.op, t.w
        if op == 'c': return Form(t.a[0], {}, w)
        if op == 'x' or op not in ('lin', 'zext', 'sext', 'trunc', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sel', 'urem', 'udiv'):
            k = 0; c = {}
            for i in range(w):
                v = self.known(t, i)
                if v is None: c[(t, i)] = 1 << i
                else: k += v << i
            return Form(k, c, w)
        if op == 'lin':
            k, ps = t.a; c = {}
            for x, m in ps:
                f = self.form(x); k += m * f.k
                for b, v in f.c.items(): c[b] = c.get(b, 0) + m * v
            return Form(k, c, w)
        if op == 'zext': k, c = self.ex(t.a[0]); return Form(k, c, w)
        if op == 'sext':
            lo, hi = self.srng(t.a[0])
            if lo >= 0: k, c = self.ex(t.a[0])
            else: k, c = exact(self.form(t.a[0]), lo, hi)
            return Form(k, c, w)
        if op == 'trunc': f = self.form(t.a[0]); return Form(f.k, f.c, w)
        if op == 'shl' and is_c(t.a[1]):
            n = t.a[1].a[0]; f = self.form(t.a[0]); return Form(f.k << n, {b: v << n for b, v in f.c.items()}, w)
        if op in ('lshr', 'udiv') and is_c(t.a[1]) or op == 'ashr' and is_c(t.a[1]) and self.srng(t.a[0])[0] >= 0:
            n = t.a[1].a[0]
            if op == 'udiv':
                if n & (n - 1): raise NotLinear('div')
                n = n.bit_length() - 1
            k, c = self.ex(t.a[0]); hi = {}; rk = k % (1 << n); mx = rk; mn = rk
            for b, v in c.items():
                if v % (1 << n) == 0: hi[b] = v >> n
                else: mx += max(v, 0); mn += min(v, 0)
            if mx >= 1 << n or mn < 0: raise NotLinear('shift')
            return Form(k >> n, hi, w)
        if op == 'ashr' and is_c(t.a[1]):
            raise NotLinear('ashr')
        if op == 'urem' and is_c(t.a[1]) and t.a[1].a[0] & (t.a[1].a[0] - 1) == 0: return self.low(t.a[0], t.a[1].a[0].bit_length() - 1, w)
        if op == 'and' and is_c(t.a[1]) and t.a[1].a[0] & (t.a[1].a[0] + 1) == 0:
            try: return self.low(t.a[0], t.a[1].a[0].bit_length(), w)
            except NotLinear: pass
        if op in ('and', 'or', 'xor'):
            x, y = self.tobits(t.a[0]), self.tobits(t.a[1]); r = []
            for p, q in zip(x, y):
                if op == 'and': v = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None
                elif op == 'or': v = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q else None
                else: v = q if p == 0 else p if q == 0 else 0 if p == q else None
                if v is None:
                    if op == 'xor' and (p == 1 or q == 1): v = ('not', q if p == 1 else p)
                    raise NotLinear(op)
                r.append(v)
            return self.frombits(r)
        raise NotLinear(op)
    def low(self, t, n, w):
        f = self.form(t); k = f.k % (1 << n); c = {b: v % (1 << n) for b, v in f.c.items() if v % (1 << n)}
        if k + sum(c.values()) >= 1 << n: raise NotLinear('low bits')
        return Form(k, c, w)
