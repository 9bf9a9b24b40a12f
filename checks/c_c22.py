"""C22: origin of every format string (backward slice over SSA, through call sites), and the compiler's
own check of conversions against argument types."""
import re
import common
from common import sh, INC
from pai import Module
SINK = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'asprintf': 1, 'vprintf': 0, 'vfprintf': 1, 'vsprintf': 1, 'vsnprintf': 2, 'vdprintf': 1,
        'vasprintf': 1, 'syslog': 1, 'vsyslog': 1, '__printf_chk': 1, '__fprintf_chk': 2, '__sprintf_chk': 3, '__snprintf_chk': 4, '__vprintf_chk': 1, '__vfprintf_chk': 2,
        '__vsprintf_chk': 3, '__vsnprintf_chk': 4, '__vasprintf_chk': 2, '__asprintf_chk': 2, '__syslog_chk': 2, 'err': 1, 'errx': 1, 'warn': 0, 'warnx': 0, 'error': 2,
        'wprintf': 0, 'fwprintf': 1, 'swprintf': 2, 'scanf': 0, 'fscanf': 1, 'sscanf': 1, '__isoc99_sscanf': 1, '__isoc99_fscanf': 1, '__isoc99_scanf': 0,
        '__isoc23_sscanf': 1, '__isoc23_fscanf': 1, '__isoc23_scanf': 0}
def check(R):
    M = Module(common.ir(inline='^NONE$', roots='.*', stdinline=False))
    lib = {n: f for n, f in M.funcs.items() if f['q'].startswith('cybozu::') or 'cybozu::' in f['q'] or INC in str(M.chain(first_loc(f)))}
    callers = {}
    for n, f in lib.items():
        for b in f['blocks']:
            for i in b['i']:
                if i['op'] in ('call', 'invoke') and i['callee'][0] == 'fn': callers.setdefault(i['callee'][1], []).append((n, i))
    defs = {}
    def defs_of(n):
        if n not in defs:
            d = {}
            for b in M.funcs[n]['blocks']:
                for i in b['i']:
                    if 'id' in i: d[i['id']] = i
            for k, a in enumerate(M.funcs[n]['args']): d[a['id']] = dict(op='arg', k=k)
            defs[n] = d
        return defs[n]
    def leaves(n, o, seen):
        if o[0] == 'g': return [('global', o[1])]
        if o[0] in ('null', 'zero', 'undef', 'poison'): return [('const', '')]
        if o[0] == 'gep' or o[0] == 'ce': return [('global', g) for g in re.findall(r"'g', '([^']+)'", repr(o))] or [('expr', repr(o)[:60])]
        if o[0] != 'v': return [('expr', repr(o)[:60])]
        if o[1] in seen: return []
        seen.add(o[1])
        i = defs_of(n).get(o[1])
        if i is None: return [('expr', '?')]
        if i['op'] == 'arg': return [('arg', i['k'])]
        if i['op'] == 'phi': return [l for p, v in i['inc'] for l in leaves(n, v, seen)]
        if i['op'] == 'select': return leaves(n, i['ops'][1], seen) + leaves(n, i['ops'][2], seen)
        if i['op'] == 'getelementptr': return leaves(n, (i.get('base') or i['ops'][0]), seen)
        if i['op'] in ('bitcast', 'freeze'): return leaves(n, i['ops'][0], seen)
        if i['op'] == 'load':
            a = leaves(n, i['ops'][0], set())
            if a and all(k == 'global' and M.globals.get(g, {}).get('const') for k, g in a): return [('global', g) for k, g in a]
            return [('load', i)]
        if i['op'] in ('call', 'invoke'):
            c = i['callee'][1] if i['callee'][0] == 'fn' else '?'
            if c in lib:      # a library function returning the text: its returned values
                out = []
                for b in M.funcs[c]['blocks']:
                    for j in b['i']:
                        if j['op'] == 'ret' and j.get('ops'):
                            for l in leaves(c, j['ops'][0], set()):
                                out += leaves(n, i['args'][l[1]], seen) if l[0] == 'arg' else [l]
                return out
            return [('call', i)]
        return [(i['op'], i)]
    todo = [(s, k, None) for s, k in SINK.items()]; done = set()
    while todo:
        s, k, via = todo.pop()
        if (s, k) in done: continue
        done.add((s, k))
        cs = callers.get(s, [])
        if via is not None and not cs and not variadic(M, s):
            R.ob(False); f = M.funcs[s]
            R.violation(M.loc(first_loc(f)), 'parameter %d of %s, which is no printf-like function, is used as a format string (%s)' % (k + 1, f['q'], via), key='fmt-param %s' % f['q'])
        for n, i in cs:
            if k >= len(i['args']): continue
            R.count('printf-like call sites'); ok = True
            if len(R.samples) < 20: R.sample('%s in %s' % (M.loc(i.get('l')), M.funcs[n]['q']))
            for l in leaves(n, i['args'][k], set()):
                if l[0] in ('const', 'arg'): 
                    if l[0] == 'arg': todo.append((n, l[1], M.q(s)))
                    continue
                if l[0] == 'global' and M.globals.get(l[1], {}).get('const', l[1].startswith('.str')): continue
                ok = False
                src = M.q(l[1]['callee'][1]) if l[0] == 'call' and l[1]['callee'][0] == 'fn' else l[0]
                R.violation(M.loc(i.get('l')), 'the format string passed to %s in %s is not a literal: it comes from %s' % (M.q(s), M.funcs[n]['q'], src), key='fmt %s %s' % (M.funcs[n]['q'], M.q(s)))
            R.ob(ok)
    R.count('printf-like functions', len([1 for s, k in done if s in lib or s in callers]))
    # conversions against arguments: the type checker's own rule
    for std, d in (('gnu++17', []), ('gnu++98', []), ('gnu++17', ['-DCYBOZU_EXCEPTION_WITH_STACKTRACE', '-DCYBOZU_STACKTRACE_ONELINE'])):
        cmd = ['clang++', '-std=' + std, '-fsyntax-only', '-ferror-limit=0', '-Wno-everything', '-Wformat', '-fno-access-control', '-march=x86-64-v2', '-D_FILE_OFFSET_BITS=64', '-I' + INC, '-I' + common.VERIF + '/drivers', common.VERIF + '/drivers/inst.cpp']
        r = sh(cmd + d); R.count('translation units type-checked')
        bad = [l for l in r.stderr.splitlines() if re.search(r'include/.*warning: .*\[-Wformat', l)]
        R.ob(not bad)
        for l in bad:
            m = re.match(r'(.*?):(\d+):\d+: warning: (.*) \[', l)
            R.violation('%s:%s' % (m.group(1).replace(common.REPO + '/', ''), m.group(2)), 'format string and arguments disagree: %s' % m.group(3), key='fmtargs %s %s' % (m.group(1).replace(common.REPO + '/', ''), m.group(3)[:60]))
    return R.finish('every value that can reach the format parameter of a printf-like function is a string literal or the format parameter of a variadic/va_list function; conversions match the arguments per -Wformat', minimum={'printf-like call sites': 20}, level='proof')
def first_loc(f):
    for b in f['blocks']:
        for i in b['i']:
            if i.get('l', -1) is not None and i.get('l', -1) >= 0: return i['l']
    return -1
def variadic(M, n):
    d = M.dem(n) if M.dem(n) != n else M.funcs[n].get('dem', n)
    return bool(re.search(r'\.\.\.\)|__va_list_tag', d))
