"""C05: destructors do not throw and always release."""
import ownrun, common
def check(R):
    d, F = ownrun.collect(R.tier)
    for r in d['res']:
        if not r['dtor']: continue
        if r['error']: R.skip(r['dem'], r['error']); continue
        R.count('destructors'); R.count('exits', r['exits'])
        bad = [b for b in r['bad'] if b[0] in ('dtor', 'throws', 'double')]
        R.ob(not bad)
        R.sample('%s: %d exits' % (r['dem'], r['exits']))
        for b in bad: R.violation(b[2], '%s: %s' % (r['dem'], b[1]), key='%s:%s' % (b[0], r['q']), detail=b[3])
    R.assume += ['exhausted memory is not considered']
    return R.finish('Every destructor of a resource-holding class is explored on all paths with every call failing or throwing where it can: no exception may leave it and each path must release the resource unless it is known not to be held.', minimum={'destructors': 25})
