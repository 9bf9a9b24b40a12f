"""C24: writes to static storage and calls of process-global C functions, per function of the library."""
import re
import common
from common import sh
from pai import Module
BANNED = {n: 'keeps its result or state in static storage' for n in ('strtok', 'gmtime', 'localtime', 'ctime', 'asctime', 'strerror', 'gethostbyname', 'gethostbyaddr', 'getservbyname', 'getservbyport',
          'getprotobyname', 'inet_ntoa', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'getpwnam', 'getpwuid', 'getgrnam', 'getgrgid', 'ttyname', 'tmpnam', 'getlogin',
          'crypt', 'ecvt', 'fcvt', 'lgamma', 'strsignal', 'basename', 'dirname', 'hcreate', 'hsearch', 'mblen', 'mbtowc', 'wctomb', 'ptsname', 'getopt', 'getopt_long', 'l64a', 'twalk', 'initstate', 'setstate', 'mktemp')}
BANNED.update({n: 'changes state of the whole process' for n in ('setlocale', 'putenv', 'setenv', 'unsetenv', 'clearenv', 'chdir', 'fchdir', 'umask', 'tzset', 'setrlimit', 'setuid', 'setgid')})
EXEMPT = [(r'^cybozu::(bench::|CpuClock|test::|QuitSignalHandler)', 'measurement and test tools and the process-wide signal handler are global by design'),
          (r'^cybozu::(SetLog\w*|OpenLogFile|useSyslog)$', 'configuration of the process-wide logger, documented as not thread safe')]
READERS = re.compile(r'^(strlen|strcmp|strncmp|memcmp|memchr|strchr|strrchr|strstr|printf|fprintf|puts|write|syslog|send|crc32|atoi|strtol|strtoul|fputs|__cxa_guard_\w+|__cxa_atexit|llvm\.(lifetime|dbg|assume|invariant).*|__dynamic_cast)$')
SRC_ONLY = {'memcpy': 0, 'memmove': 0, 'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'snprintf': 0, 'sprintf': 0, 'vsnprintf': 0}   # only this argument is written
FMT_N = {}
def roots_of(o, D, G, seen):
    """globals an operand may point into"""
    if not isinstance(o, (list, tuple)) or not o: return set()
    if o[0] == 'g': return {o[1]} if o[1] in G else set()
    if o[0] in ('ce', 'gep'):
        r = set()
        for x in o[1:]:
            r |= roots_of(x, D, G, seen) if isinstance(x, (list, tuple)) and x and isinstance(x[0], str) else set().union(*[roots_of(y, D, G, seen) for y in x if isinstance(y, (list, tuple))]) if isinstance(x, (list, tuple)) else set()
        return r
    if o[0] != 'v' or o[1] in seen: return set()
    i = D.get(o[1])
    if i is None: return set()
    seen = seen | {o[1]}
    if i['op'] == 'getelementptr': return roots_of(i.get('base') or i['ops'][0], D, G, seen)
    if i['op'] in ('bitcast', 'addrspacecast', 'freeze'): return roots_of(i['ops'][0], D, G, seen)
    if i['op'] == 'phi': return set().union(set(), *[roots_of(v, D, G, seen) for p, v in i['inc']])
    if i['op'] == 'select': return roots_of(i['ops'][1], D, G, seen) | roots_of(i['ops'][2], D, G, seen)
    if i['op'] in ('call', 'invoke') and i['callee'][0] == 'fn' and RET.get(i['callee'][1]): return RET[i['callee'][1]]
    return set()
RET = {}
def guarded(f):
    """block ids that only run inside the one-time initialisation of a static"""
    blocks = {b['id']: b for b in f['blocks']}
    succ = {}
    for b in f['blocks']:
        i = b['i'][-1]; s = []
        for k in ('t', 'f', 'def', 'normal', 'unwind'):
            if isinstance(i.get(k), int): s.append(i[k])
        for c in i.get('cases') or []: s.append(c[1])
        succ[b['id']] = s
    entry = f['blocks'][0]['id']; out = set(); g = {}
    for b in f['blocks']:
        for i in b['i']:
            if i['op'] == 'call' and i['callee'][0] == 'fn' and i['callee'][1] == '__cxa_guard_acquire': g[b['id']] = i['id']
    for b, v in g.items():
        t = blocks[b]['i'][-1]
        if t['op'] != 'br' or 'f' not in t: continue
        for init in (t['t'], t['f']):
            # dominated by init: unreachable without it
            seen = set(); todo = [entry]
            while todo:
                x = todo.pop()
                if x in seen or x == init: continue
                seen.add(x); todo += succ[x]
            dom = set(blocks) - seen
            if init not in dom: continue
            if not any(i['op'] == 'call' and i['callee'][0] == 'fn' and i['callee'][1] in ('__cxa_guard_release',) for x in dom for i in blocks[x]['i']): continue
            out |= dom
    return out
def check(R):
    M = Module(common.ir(opaque='^NONE$'))
    G = {g for g, v in M.globals.items() if not v['const'] and not v['decl'] and not v['tls'] and not g.startswith(('_ZGV', '_ZN5boost', '_ZZN5boost', '_ZTI', '_ZTV', '_ZTS'))}
    dem = dict(zip(sorted(G), sh(['c++filt'], input='\n'.join(sorted(G))).stdout.splitlines()))
    G = {g for g in G if 'cybozu' in dem[g] or not dem[g].startswith('std::')}
    R.count('objects with static storage', len(G))
    for rnd in range(3):
        for n, f in M.funcs.items():
            D = {i['id']: i for b in f['blocks'] for i in b['i'] if 'id' in i}
            r = set()
            for b in f['blocks']:
                for i in b['i']:
                    if i['op'] == 'ret' and i.get('ops'): r |= roots_of(i['ops'][0], D, G, set())
            if r: RET[n] = r
    for n, f in M.funcs.items():
        if 'cybozu::' not in f['q'].split('(')[0]: continue
        R.count('functions'); ok = True
        ex = [w for p, w in EXEMPT if re.search(p, f['q'])]
        D = {i['id']: i for b in f['blocks'] for i in b['i'] if 'id' in i}; gd = None
        locked = any(i['op'] in ('call', 'invoke') and i['callee'][0] == 'fn' and i['callee'][1] == 'pthread_mutex_lock' for b in f['blocks'] for i in b['i'])
        for b in f['blocks']:
            for i in b['i']:
                op = i['op']; w = set(); how = 'written'
                if op in ('call', 'invoke'):
                    c = i['callee'][1] if i['callee'][0] == 'fn' else None
                    if c and re.sub(r'(64|_nc)$', '', c) in BANNED and not ex:
                        ok = False; R.violation(M.loc(i.get('l')), '%s calls %s, which %s' % (f['q'], c, BANNED[re.sub(r'(64|_nc)$', '', c)]), key='call %s %s' % (f['q'], c)); continue
                    if c and READERS.match(c): continue
                    cd = M.dem(c) if c else ''
                    pt = ptypes(cd) if c and c.startswith('_Z') else None
                    for k, a in enumerate(i.get('args') or []):
                        s = roots_of(a, D, G, set())
                        if not s: continue
                        base = re.sub(r'^llvm\.|\.p0.*$', '', c or '')
                        if base in SRC_ONLY and k != SRC_ONLY[base]: continue
                        if pt is not None:
                            d = len(i['args']) - len(pt)
                            if k < d:
                                if k == d - 1 and cd.rstrip().endswith(' const'): continue
                            elif re.search(r'\bconst ?[*&]$', pt[k - d]): continue
                        w |= s; how = 'handed to %s, which may write it' % (M.q(c) if c else 'a function pointer')
                elif op == 'store': w = roots_of(i['ops'][1], D, G, set())
                if not w or ex: continue
                if gd is None: gd = guarded(f)
                if b['id'] in gd or locked: continue
                ok = False
                g = sorted(w)[0]
                R.violation(M.loc(i.get('l')), 'the shared object %s is %s by %s without synchronisation' % (dem[g], how, f['q']), key='static %s %s' % (f['q'], dem[g]))
        R.ob(ok)
        if ex: R.count('functions exempt by design')
    R.sample('objects: ' + ', '.join(sorted(set(re.sub('<.*', '', d) for d in dem.values()))[:20]))
    R.assume += [w for p, w in EXEMPT]
    return R.finish('no function stores to, or hands to a writer, an object with static storage outside its one-time initialisation or a lock; no function calls a C function with static or process-wide state', minimum={'functions': 300}, level='proof')
def ptypes(d):
    """parameter types of a demangled member or free function, with 'this' for members"""
    from pai import param_types
    try: p = param_types(d)
    except Exception: return None
    return p
