from harness.props import _detect


def run(chk):
    _detect.run(chk, 'C04', 50, 2, design=[('Cascade', 'Cascade')])
    k = 6 if chk.thorough else 1
    jobs = [dict(seed=chk.seed * 1000 + 700 + s, n=4 * k, gaussian=True) for s in range(8)] + \
           [dict(seed=chk.seed * 1000 + 800 + s, n=16 * k) for s in range(16)]
    cases = [c for o in chk.drive('thresholds', jobs) for c in o['cases']]
    chk.judge('TraceThresholds', cases)
    n = {}
    for c in cases:
        key = c['kind'] if c['kind'] == 'mono' else '%s at rank %d' % (c['gate'], c['t'])
        n[key] = n.get(key, 0) + 1
    chk.extra['threshold_cases'] = n
    chk.samples += [c for c in cases if c['kind'] == 'exact'][:2]
