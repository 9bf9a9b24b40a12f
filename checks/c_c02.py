"""C02: no leak on any path."""
import ownrun, common
def check(R):
    d, F = ownrun.collect(R.tier)
    for r in d['res']:
        if r['dtor']: continue
        if r['error']: R.skip(r['dem'], r['error']); continue
        R.count('functions'); R.count('exits', r['exits']); R.count('handles', r['handles'])
        bad = [b for b in r['bad'] if b[0] in ('leak', 'lost')]
        R.ob(not bad, max(1, r['handles']))
        for b in bad: R.violation(b[2], '%s%s: %s' % (r['dem'], ' (argument is the object itself)' if r['alias'] else '', b[1]), key='%s:%s' % (b[0], r['q']), detail=b[3])
    R.assume += ['exhausted memory (std::bad_alloc) is not considered', 'callee models: the acquire/release table in checks/lib/own.py', 'private helpers are judged inlined into their public callers']
    return R.finish('Every function is explored on all paths with every call returning success or failure and every throwing call throwing; each acquired handle must at each exit be released, returned, or stored in an object that outlives the call (not in an object whose construction failed), and a handle held on entry must not be overwritten.',
        minimum={'functions': 150, 'handles': 100})
