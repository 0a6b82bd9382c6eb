def run(chk):
    """Every way of storing a field reachable in the specification is a candidate; a sample is used for each field."""
    jobs = [chk.tlc_start('Layout', c, workers=1) for c in ('Layout1', 'Layout2')]
    chk.build()
    layouts = [chk.histories(chk.tlc_wait(j)) for j in jobs]
    k = 8 if chk.thorough else 1
    s0 = chk.seed * 1000
    jobs = [dict(mode='store', seed=s0 + 50 + s, n=2 * k, each=4, layouts=layouts, gaussian=True) for s in range(8)] + \
           [dict(mode='store', seed=s0 + s, n=6 * k, each=5, layouts=layouts) for s in range(8)] + \
           [dict(mode='shift', seed=s0 + 100 + s, n=140 * k) for s in range(8)]
    cases = [c for o in chk.drive('layouts', jobs) for c in o['cases']]
    chk.judge('TraceLayout', cases)
    st = [c for c in cases if c['kind'] == 'store']
    sh = [c for c in cases if c['kind'] == 'shift']
    chk.extra.update(layouts=[len(x) for x in layouts], stored=len(st), stored_with_eddies=sum(bool(c['base']) for c in st), identical_tables=sum(all(o[2] == 0 for o in c['obs']) for c in st if c['obs']), with_gaussian=sum(c['gaussian'] for c in st),
                     shifted=len(sh), shifted_contours=sum(len(c['contours']) for c in sh), compared=sum(k['one'] and k['two'] for c in sh for k in c['contours']),
                     decided_outcomes=sum(k['sure'] for c in sh for k in c['contours']))
    chk.samples = st[:2] + sh[:1]
    chk.assumptions = ['tables of the same field stored in another way are compared to the precision of the arithmetic; shifted ones to the precision of the arithmetic',
                       'after a shift, outcomes are compared unless a measurement is at its criterion or the ellipse is not determined; extremes unless a vertex is half way between two grid points']
