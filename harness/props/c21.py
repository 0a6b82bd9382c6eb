import os


def run(chk):
    d = chk.design(('Frechet', 'Frechet'))
    chk.build()
    k = 12 if chk.thorough else 1
    cases = [c for o in chk.drive('frechet', [dict(mode='score', seed=chk.seed * 1000 + s, n=300 * k) for s in range(8)]) for c in o['cases']]
    chk.judge('TraceFrechet', cases)
    chk.design_wait(d)
    chk.extra.update(zero=sum(c.get('s') == 0 for c in cases), one=sum(c.get('s') == 10000 for c in cases), total=len(cases))
    chk.samples = cases[:3]
    chk.assumptions = ['curves with steps along the axes, whose lengths are integers; the score is compared with the exact one to half a unit of the fourth decimal']
