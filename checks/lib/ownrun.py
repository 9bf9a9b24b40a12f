"""Run the ownership typestate over every library function; shared by C01, C02, C05, C06."""
import json, os, re, sys, time, multiprocessing as mp
import common
from common import ToolError
from pai import Module, Incomplete
from own import *
from own import analyse as _analyse
_M = None
def _one(job):
    fn, tracked, dtor, ctor, owned, alias, tn = job
    try: r = _analyse(_M, fn, tracked, dtor=dtor, ctor=ctor, this_owned=owned, alias=alias, max_time=60, this_new=tn)
    except RecursionError: r = Result(); r.error = 'recursion'
    return job, r.bad, r.exits, r.steps, r.events, r.handles, r.error
NOINL = common.OPAQUE
def copy_rule(F, M, O):
    """classes whose own destructor gives something back: status of their copy and move members"""
    out = []
    for t, r in sorted(O.rec.items()):
        d = r.get('dtor') or {}
        if not d.get('userProvided'): continue
        ms = [x for x in (d.get('mangled') or []) if x in M.funcs]
        if not ms or not t.startswith('cybozu::'): continue   # function-local helpers cannot be copied by a user
        ms = [x for x in ms if 'D2Ev' in x] or ms
        ev = set(O.relevents.get(ms[0], ()))
        f = O.fbym.get(ms[0]) or {}
        if f.get('deletes'): ev.add('delete')
        for b in M.funcs[ms[0]]['blocks']:
            for i in b['i']:
                c = i.get('callee')
                if c and c[0] == 'fn' and c[1] in ('pthread_mutex_unlock', 'epoll_ctl'): ev.add(c[1])
        if not ev: continue
        mem = {}
        for k in ('copyCtor', 'copyAssign', 'moveCtor', 'moveAssign'):
            x = r.get(k) or {}
            if not x.get('decl'): mem[k] = 'absent'
            elif x.get('deleted'): mem[k] = 'deleted'
            elif x.get('userProvided'): mem[k] = 'user' if x.get('defined') else 'undefined'
            else: mem[k] = 'memberwise'
        # a member that cannot be copied (declared without definition, or deleted) stops the implicit one from being usable
        for k, j in (('copyCtor', 'copyCtor'), ('copyAssign', 'copyAssign'), ('moveCtor', 'copyCtor'), ('moveAssign', 'copyAssign')):
            if mem[k] != 'memberwise': continue
            for fl in r['fields']:
                if k.endswith('Assign') and (fl['t'].rstrip().endswith('&') or re.search(r'(^|\b)const$', fl['t']) or (fl['t'].startswith('const ') and '*' not in fl['t'])): mem[k] = 'blocked'
                fr = O.rec.get(norm_ty(fl.get('c') or fl['t']))
                if fr:
                    x = fr.get(j) or {}
                    if x.get('deleted') or (x.get('decl') and not x.get('implicit') and not x.get('defined') and not x.get('defaulted')): mem[k] = 'blocked'
        out.append(dict(type=t, file=r['file'], line=r['line'], events=sorted(ev), members=mem, loc={k: (r.get(k) or {}).get('loc') for k in mem}))
    return out
def collect(tier):
    """-> dict(owners, jobs results) over all configurations"""
    tot = None
    for F, p, only, cfg in common.configs():
        d, _ = _collect(F, p)
        if only:
            d['res'] = [r for r in d['res'] if only.match(r['q'])]; d['copy'] = [c for c in d['copy'] if only.match(c['type'])]
            for r in d['res']: r['dem'] += cfg
        if tot is None: tot = d; F0 = F
        else: tot['res'] += d['res']; tot['copy'] += d['copy']; tot['owners'].update(d['owners'])
    return tot, F0
def _collect(F, p):
    global _M
    key = p + '.own.json'
    src = common.filehash([common.VERIF + '/checks/lib/' + x for x in ('own.py', 'ownrun.py', 'pai.py', 'terms.py')])
    if os.path.exists(key):
        d = json.load(open(key))
        if d.get('src') == src: return d, F
    _M = Module(p); O = Owners(F, _M)
    if O.errors: raise ToolError('destructor not analysable: ' + '; '.join(O.errors[:3]))
    jobs = []
    REF = [(n, c) for n, c in O.cls.items()]
    interesting = set(ACQ) | set(REL)
    def has_ev(fn):
        for b in _M.funcs[fn]['blocks']:
            for i in b['i']:
                if i.get('callee') and i['callee'][0] == 'fn' and i['callee'][1] in interesting: return True
        return False
    seen = set()
    for f in F['funcs']:
        for m in f['mangled']:
            if m not in _M.funcs or m in seen: continue
            if f['kind'] == 'dtor' and m.endswith('D0Ev'): continue     # calls the complete destructor and frees the object: nothing of its own
            fa = _M.funcs[m]
            seen.add(m)
            cls = norm_ty(f.get('classType') or '') if f.get('classType') else None
            isdtor = f['kind'] == 'dtor'; isctor = f['kind'] == 'ctor'
            sret = bool(fa['args'] and fa['args'][0].get('sret'))
            ti = 1 if sret else 0
            tracked = []
            method = f['kind'] in ('ctor', 'dtor', 'method') and not f.get('static')
            if method and cls in O.cls and not isctor:
                c = O.cls[cls]; tracked.append((ti, c['fields'], c['flags']))
            pi = ti + (1 if method else 0)
            for k, pr in enumerate(f['params']):
                rc = ref_class(pr['c'])
                if rc and rc[0] in O.cls and pi + k < len(fa['args']):
                    c = O.cls[rc[0]]; tracked.append((pi + k, c['fields'], c['flags']))
            if f.get('access') in ('private', 'protected') and f['kind'] == 'method': tracked = []   # judged inlined into the public callers
            if not tracked and not isdtor and not has_ev(m): continue
            owned = None
            tn = (ti, O.cls[cls]['fields'], O.cls[cls]['flags']) if isctor and cls in O.cls else None
            jobs.append((m, tracked, isdtor, isctor, owned, None, tn))
            # self move / self swap
            if method and not isctor and not isdtor and len(tracked) == 2 and tracked[1][0] == ti + 1 and ref_class(f['params'][0]['c'])[0] == cls:
                jobs.append((m, tracked[:1], False, False, owned, (ti, ti + 1), None))
    out = []
    with mp.Pool(min(8, os.cpu_count() or 4)) as P:
        for job, bad, ex, steps, ev, hs, err in P.imap_unordered(_one, jobs, chunksize=2):
            m = job[0]; f = O.fbym[m]
            out.append(dict(m=m, dem=_M.funcs[m]['dem'], q=_M.funcs[m]['q'], loc=f.get('loc') or f.get('l') or '', dtor=job[2], ctor=job[3], alias=bool(job[5]), nt=len(job[1]), bad=bad, exits=ex, steps=steps, events=ev, handles=hs, error=err))
    out.sort(key=lambda x: (x['m'], x['alias']))
    copyable = copy_rule(F, _M, O)
    d = dict(src=src, copy=copyable, res=out, owners={k: dict(fields=v['fields'], flags=v['flags'], dtor=v['dtor']) for k, v in O.cls.items()})
    json.dump(d, open(key + '.tmp%d' % os.getpid(), 'w'), default=str); os.rename(key + '.tmp%d' % os.getpid(), key)
    return d, F
if __name__ == '__main__':
    t = time.time(); d, F = collect('quick'); print(time.time() - t, len(d['res']), len(d['owners']))
    for r in d['res']:
        if r['error']: print('ERR', r['dem'], r['error'])
        for b in r['bad']: print(b[0], '|', r['dem'][:90], 'ALIAS' if r['alias'] else '', '|', b[1], b[2])
