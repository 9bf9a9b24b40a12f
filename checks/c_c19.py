"""C19: open modes -> flags, for every combination of modes."""
import re
import common
from pai import *
from own import no_throw
APP, ATE, BIN, IN, OUT, TRUNC = 1, 2, 4, 8, 16, 32
O_ACC, O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 3, 1, 2, 0o100, 0o200, 0o1000, 0o2000
class MHooks(Hooks):
    unroll = 8; undecided_unroll = 1; max_states = 20000
    def __init__(self, mode): self.mode = mode
    def init(self, eng, st):
        st.mon = (); self.opens = []; self.fopens = []; self.other = []
        if self.mode is not None:
            k, v = self.mode; st.env[eng.f['args'][k]['id']] = C(v, 32); st.memo = {}
    def may_throw(self, eng, st, i, name, q): return no_throw(q)
    def call(self, eng, st, i, name, q, args):
        if name in ('open', 'open64'):
            fl = st.const(args[1]); pm = st.const(args[2]) if len(args) > 2 else None
            self.opens.append((fl, pm, len(args), i.get('l'), st.copy())); st.mon = st.mon + (('open', fl),)
        elif name in ('fopen', 'fopen64'):
            b, o = split_addr(args[1]); s = ''
            while isinstance(o, int) and len(s) < 20:
                c = st.const(eng.load_raw(st, b, o, 1))
                if not c: break
                s += chr(c); o += 1
            self.fopens.append((s, i.get('l'), st.copy()))
        elif name in ('mmap', 'mmap64'): self.other.append(('mmap', st.const(args[2]), st.const(args[3]), i.get('l')))
        elif name in ('rename', 'unlink', 'remove', 'truncate', 'ftruncate', 'truncate64', 'ftruncate64'): self.other.append((name, [a for a in args], None, i.get('l')))
        elif re.match(r'std::.*basic_string<char.*::(c_str|data)$', q) and len(args) == 1:
            t = ptr_atom(('cstr', args[0])); st.r[t] = (4096, (1 << 63) - 1)
            return [(st, t, 'ret', None)]
        return None
def valid(m):
    if bool(m & IN) == bool(m & OUT): return False
    return not (m & (APP | TRUNC)) if m & IN else not (m & APP and m & TRUNC)
def judge(fl, pm, na, kind):
    """kind: 'r', 'w', 'a'"""
    if fl is None: return 'the flags are not a fixed function of the mode'
    acc = fl & O_ACC
    if kind == 'r':
        if acc != 0: return 'a file opened for reading is opened writable'
        if fl & (O_CREAT | O_TRUNC | O_APPEND): return 'a file opened for reading may be created or truncated'
        return None
    if acc not in (O_WRONLY,): return 'a file opened for writing is not opened write-only'
    if not fl & O_CREAT: return 'a file opened for writing is not created'
    if fl & O_EXCL: return 'an existing file cannot be opened for writing'
    if kind == 'w':
        if not fl & O_TRUNC: return 'a file opened for writing without append is not truncated'
        if fl & O_APPEND: return 'a file opened for writing without append appends'
    else:
        if fl & O_TRUNC: return 'append truncates the file'
        if not fl & O_APPEND: return 'append mode can overwrite what other writers appended'
    if na < 3: return 'created without a permission argument'
    if pm is None or pm & 0o600 != 0o600 or pm & 0o022: return 'created with unexpected permissions %s' % (oct(pm) if pm is not None else '?')
    return None
def check(R):
    M = Module(common.ir()); F = common.facts(); fa = {mn: f for f in F['funcs'] for mn in f['mangled']}
    def run(m, mode):
        h = MHooks(mode); eng = Engine(M, m, h, max_time=100); eng.run(); return h, eng
    for m, f in M.funcs.items():
        q = f['q']; fact = fa.get(m)
        if fact is None: continue
        names = {i['callee'][1] for b in f['blocks'] for i in b['i'] if i.get('callee') and i['callee'][0] == 'fn'}
        if not names & {'open', 'open64', 'fopen', 'fopen64', 'mmap', 'mmap64', 'rename', 'unlink', 'remove', 'truncate', 'ftruncate'}: continue
        if fact.get('access') in ('private', 'protected') or fact['file'].endswith('process.hpp'): continue
        sh = len(f['args']) - len(fact['params'])
        mk_ = [k + sh for k, p in enumerate(fact['params']) if 'Openmode' in p['c'] or 'openmode' in p['c']]
        try:
            if mk_:
                R.count('functions taking a mode')
                for mode in range(64):
                    h, eng = run(m, (mk_[0], mode)); R.count('mode combinations'); bad = []
                    rets = [e for e in eng.exits if e.kind == 'ret']
                    if not valid(mode):
                        if h.opens: bad.append(('contradictory mode %s is not rejected before the file is opened' % show_mode(mode), h.opens[0][3]))
                        elif rets: bad.append(('contradictory mode %s is accepted' % show_mode(mode), rets[0].loc))
                    else:
                        if not h.opens: bad.append(('mode %s never opens the file' % show_mode(mode), None))
                        for fl, pm, na, l, st in h.opens:
                            w = judge(fl, pm, na, 'r' if mode & IN else 'a' if mode & APP else 'w')
                            if w: bad.append(('mode %s: %s' % (show_mode(mode), w), l))
                        if any(not e.st.mon for e in rets): bad.append(('mode %s: returns without having opened the file' % show_mode(mode), rets[0].loc))
                    R.ob(not bad)
                    for w, l in bad: R.violation(M.loc(l), '%s: %s' % (f['dem'][:100], w), key='%s: %s' % (q, w))
                continue
            h, eng = run(m, None); R.count('other opening functions'); bad = []
            last = q.rsplit('::', 1)[-1]
            kind = 'w' if last == 'openW' else 'r' if last == 'openR' or q.startswith('cybozu::Mmap') else None
            for fl, pm, na, l, st in h.opens:
                if kind: w = judge(fl, pm, na, kind)
                else: w = None
                if w: bad.append((w, l))
            for s, l, st in h.fopens:
                if fact['file'].endswith('log.hpp'): w = None if s.startswith('a') else 'the log file is opened with mode "%s": existing entries may be lost' % s
                else: w = None if s.startswith('r') and '+' not in s else 'the random device is opened with mode "%s"' % s
                if w: bad.append((w, l))
            args = [X(('arg', k, a['n']), 64) for k, a in enumerate(f['args'])]
            for o in h.other:
                if o[0] == 'mmap':
                    if o[1] is None or o[1] & 2: bad.append(('the mapping is writable', o[3]))
                elif o[0] == 'rename' and last == 'RenameFile':
                    want = [X(('cstr', a), 64) for a in args[-2:]]
                    if [x for x in o[1]] != want: bad.append(('rename is not called with (from, to)', o[3]))
                elif o[0] in ('unlink', 'remove') and last == 'RemoveFile':
                    if o[1][0] is not X(('cstr', args[-1]), 64): bad.append(('%s is called with something other than the given name' % o[0], o[3]))
                else: bad.append(('unexpected %s' % o[0], o[3]))
            if last == 'RenameFile' and not any(o[0] == 'rename' for o in h.other): bad.append(('does not rename', None))
            R.ob(not bad, max(1, len(h.opens) + len(h.fopens) + len(h.other))); R.sample('%s: %s' % (f['dem'][:100], ['%s' % (oct(x[0]) if x[0] is not None else None) for x in h.opens] + [x[0] for x in h.fopens]))
            for w, l in bad: R.violation(M.loc(l), '%s: %s' % (f['dem'][:100], w), key='%s: %s' % (q, w))
        except Incomplete as e: R.skip(f['dem'][:100], str(e))
    return R.finish('Constant propagation of all 64 combinations of the six open modes through every function taking a mode down to open(2): flags and permissions compared with the documented table, contradictory combinations must throw before any open; the fixed-mode openers (openR, openW, Mmap, log file, random device), the mapping protection and the names given to rename/unlink likewise.', minimum={'mode combinations': 128, 'other opening functions': 5})
def show_mode(m): return '|'.join(n for b, n in ((IN, 'in'), (OUT, 'out'), (APP, 'app'), (TRUNC, 'trunc'), (ATE, 'ate'), (BIN, 'binary')) if m & b) or '0'
