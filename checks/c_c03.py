"""C03: a failing external call is visible in the outcome."""
import failprop, common, re
def check(R):
    for f, q, dem, bad, ex, ns, err in failprop.collect():
        if f.get('access') in ('private', 'protected'): continue     # judged inlined into the public callers
        if q == 'cybozu::PutLog': continue                           # logging is documented best effort and never fails
        if err: R.skip(dem, err); continue
        R.count('functions'); R.count('call sites', ns); R.count('exits', ex); R.ob(not bad, max(ns, 1))
        for name, site, exitloc, tr, fn in bad:
            R.violation(site, '%s: %s failing here is not reported: the function completes normally (%s) as if it had succeeded' % (dem, name, exitloc), key='%s@%s:%s in %s' % (name, site.split(':')[0].split('/')[-1], fn, re.sub(r'\[abi:\w+\]', '', q)), detail=tr)
    R.assume += ['failure conventions of the external functions: table in checks/lib/failprop.py', 'calls inside destructors, PutLog and the status pipe of process.hpp are best effort', 'an explicit dontThrow argument asks for failures to be ignored']
    return R.finish('At every call of a fallible system, C-library, pthread, zlib or OpenSSL function the failing outcome is assumed (one at a time) and followed on every path; a normal return is allowed only if it carries a failure value (false, null, zero or negative, the failing result, -errno), sets the caller\'s flag, or the call was made again.', minimum={'functions': 120, 'call sites': 150})
