"""C01: two objects never release the same resource; moving and swapping transfers it."""
import ownrun, common
def check(R):
    d, F = ownrun.collect(R.tier)
    for c in d['copy']:
        R.count('owner classes')
        for k, v in c['members'].items():
            bad = v == 'memberwise'
            R.ob(not bad)
            R.sample('%s: %s is %s (releases with %s)' % (c['type'], k, v, ','.join(c['events'])))
            if bad: R.violation('%s:%d' % (c['file'].replace('/repo/', ''), c['line']), '%s gives back a resource in its destructor (%s) but its %s is the memberwise one, so two objects release the same resource' % (c['type'], ', '.join(c['events']), k), key='copy:%s:%s' % (c['type'], k))
    for r in d['res']:
        if not r['nt'] or r['dtor']: continue
        R.count('operations on owners'); R.count('exits', r['exits'])
        if r['error']: R.skip(r['dem'], r['error']); continue
        bad = [b for b in r['bad'] if b[0] in ('dup', 'double', 'dangling') or (b[0] == 'lost' and (r['alias'] or r['nt'] >= 2 or 'swap' in r['q'] or 'operator=' in r['q']))]
        R.ob(not bad)
        for b in bad: R.violation(b[2], '%s%s: %s' % (r['dem'], ' (argument is the object itself)' if r['alias'] else '', b[1]), key='%s:%s' % (b[0], r['q']), detail=b[3])
    R.assume += ['exhausted memory is not considered', 'an owner class is one whose destructor (with everything it calls inlined) releases a resource', 'function-local helper classes are not considered']
    return R.finish('For every class whose destructor releases a resource: copy/move members are absent, deleted, never defined or user-written (not memberwise); every operation taking such objects is analysed on all paths by an ownership typestate: each handle held on entry is at exit held by exactly one object or released exactly once, also when the argument is the object itself.',
        minimum={'owner classes': 20, 'operations on owners': 60})
