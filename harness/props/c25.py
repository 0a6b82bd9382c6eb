from harness.props._tracking import split


def run(chk):
    d = chk.tlc_start('Ellipses', 'Ellipses', workers=2)
    chk.build()
    ellipses = chk.histories(chk.tlc_wait(d))
    chk.extra['design_runs'] = [dict(module='Ellipses', config='Ellipses', distinct_states=d['distinct'], states_generated=d['generated'])]
    k = 12 if chk.thorough else 1
    jobs = [dict(seed=chk.seed * 1000 + s, ellipses=q, each=3 * k, n=200 * k) for s, q in enumerate(split(ellipses, 8))]
    cases = [c for o in chk.drive('ellipses', jobs) for c in o['cases']]
    chk.judge('TraceEllipses', cases)
    mv = [c for c in cases if c['kind'] == 'moved']
    chk.extra.update(ellipses=len(ellipses), exact=sum(c['kind'] == 'exact' for c in cases), moved=len(mv), moved_and_compared=sum(c['sure'] for c in mv))
    chk.samples = cases[:2] + mv[:1]
    chk.assumptions = ['vertices of the exact ellipses are the points with rational directions, at least eight of them',
                       'contours whose best conic is not clearly an ellipse, or much smaller than their distance to the origin, are not compared after moving']
