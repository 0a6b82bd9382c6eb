import os


def jobs_of(chk, missing, filled):
    k = 10 if chk.thorough else 1
    return [dict(mode='fields', seed=chk.seed * 1000 + s, n=60 * k, missing=missing) for s in range(8)] + \
           [dict(mode='filled', seed=chk.seed * 1000 + 50 + s, n=filled * k) for s in range(8 if filled else 0)]


def judge(chk, prop, missing, filled):
    cases = [c for o in chk.drive('filters', jobs_of(chk, missing, filled)) for c in o['cases']]
    os.environ['PROP'] = prop
    chk.judge('TraceFilters', cases)
    n = {}
    for c in cases:
        key = c['kind'] if c['kind'] != 'field' else c['filter'] + (' filled' if c['fill'] else '')
        n[key] = n.get(key, 0) + 1
    chk.extra['filter_cases'] = n
    chk.samples += [c for c in cases if c['kind'] == 'field'][:2]


def run(chk):
    d = chk.design(('Filters', 'Filters'))
    chk.build()
    judge(chk, 'C19', .5, 0)
    chk.design_wait(d)
    chk.assumptions = ['integer fields; anomalies are compared with the exact rational ones to 1e-4',
                       'the filters "time", "both" and the gaussian mode are not implemented in the code and not specified']
