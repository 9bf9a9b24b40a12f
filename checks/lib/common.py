"""Shared plumbing: tool build, front-end runs (cached by content), reporting, evidence."""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('CYBOZU_REPO', '/repo')      # overridden only while developing the checks
INC = REPO + '/include/'
BUILD = VERIF + '/build'
LLVM = '/usr/lib/llvm-18'
TIER = os.environ.get('VERIF_TIER', 'quick')

class ToolError(Exception):
    """the analysis could not be carried out (not a verdict)"""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

class Lock:
    def __init__(self, name): self.p = os.path.join(BUILD, name + '.lock')
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def filehash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b'\0'); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:24]

def build_tools():
    srcs = [VERIF + '/src/cyfront.cpp', VERIF + '/src/cyir.cpp']
    tag = filehash(srcs)
    out = {n: '%s/%s-%s' % (BUILD, n, tag) for n in ('cyfront', 'cyir')}
    with Lock('tools'):
        jobs = []
        for n in out:
            if os.path.exists(out[n]): continue
            for old in glob.glob('%s/%s-*' % (BUILD, n)): os.unlink(old)
            libs = [LLVM + '/lib/libclang-cpp.so.18.1'] if n == 'cyfront' else []
            cmd = ['g++', '-O1', '-fno-rtti', '-std=c++17', '-I' + LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS',
                   '%s/src/%s.cpp' % (VERIF, n), '-o', out[n] + '.tmp'] + libs + ['-L' + LLVM + '/lib', '-lLLVM-18']
            jobs.append((n, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for n, p in jobs:
            o, _ = p.communicate()
            if p.returncode: raise ToolError('cannot build %s:\n%s' % (n, o[-3000:]))
            os.rename(out[n] + '.tmp', out[n])
    return out

def headers():
    r = sorted(glob.glob(INC + '**/*.hpp', recursive=True))
    if len(r) < 40: raise ToolError('only %d headers found under %s' % (len(r), INC))
    return r

BASE_FLAGS = ['-resource-dir', LLVM + '/lib/clang/18', '-O0', '-Xclang', '-disable-O0-optnone', '-g1', '-fno-discard-value-names', '-fno-access-control',
              '-m64', '-march=x86-64-v2', '-D_FILE_OFFSET_BITS=64', '-I' + REPO + '/include', '-I' + VERIF + '/drivers', '-fsyntax-only', '-w']

OPAQUE = r'^cybozu::(Exception|ErrorNo|exception::|NetErrorNo)'
STDINLINE = r'^std::(min|max|move|forward|swap|exchange|addressof|__addressof|numeric_limits.*|operator[|&^~]=?|pair<.*>::pair|make_pair|initializer_list.*)(<.*>)?$|^std::(numeric_limits<.*>::(min|max)|_Ios_.*)$'

def front(driver, std='gnu++17', defs=(), root=INC):
    """parse a driver; returns path prefix of .facts.json/.bc (cached by content)"""
    tools = build_tools()
    drv = VERIF + '/drivers/' + driver
    flags = ['-std=' + std] + BASE_FLAGS + list(defs)
    tag = hashlib.sha256((filehash(headers() + sorted(glob.glob(VERIF + '/drivers/*')) + [tools['cyfront']]) + repr(flags) + driver + root).encode()).hexdigest()[:24]
    pre = '%s/cache/%s-%s' % (BUILD, driver.replace('.', '_'), tag)
    with Lock('front-' + driver + std):
        if not os.path.exists(pre + '.ok'):
            os.makedirs(BUILD + '/cache', exist_ok=True)
            src = drv; r = None
            for _ in range(8):
                r = sh([tools['cyfront'], root, pre, src, '--'] + flags + ['-ferror-limit=0'])
                if not r.returncode: break
                src = without_failing_lines(src, r.stderr + r.stdout, pre)
                if src is None: break
            if src and src != drv: os.unlink(src)
            if r.returncode: raise ToolError('front end failed on %s (%s):\n%s' % (driver, std, (r.stderr + r.stdout)[-3000:]))
            open(pre + '.ok', 'w').close()
            _prune()
    return pre

def without_failing_lines(src, log, pre):
    """a use in the driver of something the library no longer offers under that name: drop that line and go on without it"""
    L = open(src).read().split('\n'); bad = set()
    for m in re.finditer(re.escape(src) + r':(\d+):\d+: (fatal error|error): (.*)', log):
        n = int(m.group(1)) - 1; t = re.sub(r"'(\\\\.|[^'])'|"r'"(\\\\.|[^"\\\\])*"', '', L[n])
        if L[n].strip() and t.count('{') == t.count('}') and t.count('(') == t.count(')') and not t.startswith('#'): bad.add(n)
    if not bad or len(bad) > 25: return None
    for n in bad:
        print('note: the driver line "%s" does not compile against this tree and is left out' % L[n].strip()[:100], file=sys.stderr); L[n] = ''
    out = pre + '.' + os.path.basename(src).split('.')[-2].split('-')[0] + '-cut.cpp'
    open(out, 'w').write('\n'.join(L)); return out

def _prune():
    L = []
    for p in glob.glob(BUILD + '/cache/*'):
        try: t = os.stat(p); L.append((t.st_mtime, t.st_size, p))
        except OSError: pass      # removed by another check
    L.sort(); tot = sum(x[1] for x in L)
    while L and tot > 3 << 30:
        _, n, p = L.pop(0); tot -= n
        try: os.unlink(p)
        except OSError: pass

def facts(driver='inst.cpp', **kw):
    return json.load(open(front(driver, **kw) + '.facts.json'))

def ir(driver='inst.cpp', inline='^cybozu::', opaque=OPAQUE, roots='^cybozu::', passes=None, stdinline=True, std='gnu++17', defs=()):
    """normalised IR module (path of JSON)"""
    tools = build_tools()
    pre = front(driver, std=std, defs=defs)
    inl = '(%s)|(%s)' % (inline, STDINLINE) if stdinline else inline
    args = ['--inline', inl, '--opaque', opaque, '--roots', roots] + (['--passes', passes] if passes else [])
    tag = hashlib.sha256((repr(args) + tools['cyir']).encode()).hexdigest()[:12]
    out = '%s.%s.json' % (pre, tag)
    with Lock('ir-' + driver):
        if not os.path.exists(out):
            r = sh([tools['cyir'], pre + '.bc', out + '.tmp'] + args)
            if r.returncode: raise ToolError('cyir failed: ' + r.stderr[-2000:])
            os.rename(out + '.tmp', out)
    return out

# the configurations the whole-library checks look at: everything in the default one, and what reads differently in C++98 with epoll
CONFIGS = (('inst.cpp', 'gnu++17', None), ('inst98.cpp', 'gnu++98', r'^cybozu::(Event|experimental|Socket::queryAccept)'))
def configs(**kw):
    for driver, std, only in CONFIGS:
        yield facts(driver, std=std), ir(driver, std=std, **kw), (re.compile(only) if only else None), '' if only is None else ' [%s]' % std

# ---------------------------------------------------------------- reporting
def known_findings(pid):
    out = []
    p = VERIF + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\w+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append(m.group(2))
    return out

class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time(); self.viol = []; self.cov = {}; self.samples = []; self.assume = []; self.counts = {}
        self.obl = 0; self.dis = 0; self.undec = []
    def ob(self, ok=True, n=1):
        self.obl += n
        if ok: self.dis += n
    def violation(self, where, what, key=None, detail=None):
        """where: file:line / function; key: stable identity used for known findings and de-duplication"""
        k = key or what
        if any(v['key'] == k for v in self.viol): return
        self.viol.append(dict(where=where, what=what, key=k, detail=detail or []))
    def skip(self, where, why):
        """an instance the analysis could not finish: reported as not covered, never as held"""
        self.undec.append('%s: %s' % (where, why)); self.obl += 1
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def sample(self, s):
        if len(self.samples) < 40: self.samples.append(s)
    def finish(self, rule, minimum=None, level='other', extra=None):
        known = known_findings(self.pid)
        new = []; kn = []; hits = set()
        for v in self.viol:
            line = '%s: %s' % (v['key'], v['what']) if v['key'] != v['what'] else v['what']
            hit = [k for k in known if k.split(' :: ')[0] == v['key'] or (re.fullmatch(r'\w+@[\w./]+', k.split(' :: ')[0]) and v['key'].startswith(k.split(' :: ')[0] + ':'))]
            if hit: hits.add(hit[0].split(' :: ')[0])
            (kn if hit else new).append(v)
        for k, n in (minimum or {}).items():
            if self.counts.get(k, 0) < n:
                raise ToolError('%s: analysed only %d %s, expected at least %d (anchor vanished?)' % (self.pid, self.counts.get(k, 0), k, n))
        if len(self.undec) > max(5, self.obl // 8) and not new: raise ToolError('%s: %d instances could not be analysed: %s' % (self.pid, len(self.undec), '; '.join(self.undec[:5])))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        cov = dict(explanation=rule, analysed=self.counts, obligations=self.obl, discharged=self.dis, rule=rule, samples=self.samples,
                   checker_cmd='python3 checks/run.py %s %s' % (self.pid, self.tier),
                   trusted_base=['clang 18 front end and LLVM 18 inliner/SROA', 'checks/lib (abstract interpreter and rules)'])
        if self.undec: cov['not_analysed'] = self.undec
        if extra: cov.update(extra)
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level=level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  assumptions=self.assume, violations=[dict(where=v['where'], what=v['what'], detail=v['detail'][:30]) for v in new])
        ep = '%s/evidence/%s.json' % (VERIF, self.pid)
        json.dump(ev, open(ep, 'w'), indent=1, default=str)
        print('%s: %s; %d obligations, %d discharged, %d not analysed; %.1f s' % (self.pid, ', '.join('%d %s' % (n, k) for k, n in sorted(self.counts.items())), self.obl, self.dis, len(self.undec), time.time() - self.t0))
        for k in sorted(hits): print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if new:
            rp = '%s/evidence/%s.violations.txt' % (VERIF, self.pid)
            with open(rp, 'w') as f:
                for v in new: f.write('%s\n  at %s\n%s\n' % (v['what'], v['where'], ''.join('    %s\n' % d for d in v['detail'])))
            for v in new[:20]: print('  %s: %s [%s]' % (v['where'], v['what'], v['key']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0
