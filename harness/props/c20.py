import os


def run(chk):
    d = chk.design(('Frechet', 'Frechet'))
    chk.build()
    k = 12 if chk.thorough else 1
    jobs = [dict(mode='exact', seed=chk.seed * 1000 + s, n=120 * k, big=.02) for s in range(8)] + \
           [dict(mode='limit', seed=chk.seed * 1000 + 100 + s, n=3, lens=l) for s, l in enumerate([[[300, 300], [300, 7], [299, 120]], [[2, 300], [250, 250], [1, 300]]])] + \
           [dict(mode='long', seed=chk.seed * 1000 + 200 + s, n=4 * min(k, 4)) for s in range(4)]
    cases = [c for o in chk.drive('frechet', jobs) for c in o['cases']]
    chk.judge('TraceFrechet', cases)
    chk.design_wait(d)
    chk.extra.update(exact=sum(c['kind'] == 'exact' for c in cases), long=sum(c['kind'] == 'long' for c in cases), longest=max(max(c.get('sizes', [0])) for c in cases))
    chk.samples = cases[:3]
    chk.assumptions = ['integer coordinates, so that squared distances are exact; curves longer than 300 points are thinned by design and only bounded']
