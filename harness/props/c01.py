import random
TECH = 'TLA+/TLC: marching-squares specification model checked; recorded contours judged against it'


def run(chk):
    design = chk.design(('Contours', 'Contours'), ('Contours', 'ContoursNA'))
    chk.build()
    rng = random.Random(chk.seed)
    jobs = []
    def grids(w, h, vals, lev, n):
        tot = len(vals) ** (w * h)
        nums = list(range(tot)) if n is None or n >= tot else rng.sample(range(tot), n)
        for k in range(0, len(nums), 4000):
            jobs.append(dict(mode='grids', w=w, h=h, vals=vals, lev=lev, numbers=nums[k:k + 4000]))
    T = chk.thorough
    grids(2, 2, [0, 1, 3, 99999], 1, None)
    grids(3, 3, [0, 3], 1, None)
    grids(3, 3, [0, 1, 3], 1, None if T else 6000)
    grids(4, 4, [0, 2], 1, None if T else 4000)
    grids(5, 2, [0, 1, 3], 1, 59049 if T else 1500)
    grids(2, 5, [0, 2, 99999], 1, 59049 if T else 1500)
    grids(5, 5, [0, 3], 1, 30000 if T else 2000)
    for s in range(16 if T else 8):
        jobs.append(dict(mode='random', seed=chk.seed * 1000 + s, n=400 if T else 60, size=26))
        jobs.append(dict(mode='large', seed=chk.seed * 1000 + 500 + s, n=20 if T else 3))
    cases = [c for o in chk.drive('contours', jobs) for c in o['cases']]
    chk.judge('TraceContours', cases)
    chk.design_wait(design)
    nontriv = sum(1 for c in cases if len(c.get('obs', [])) > 0)
    chk.samples = [dict(id=c['id'], field=c['f'], contours=c['obs']) for c in cases if c.get('obs')][100:102]
    chk.extra.update(fields=len(cases), fields_with_contours=nontriv, closed=sum(1 for c in cases for o in c['obs'] if len(o) > 1 and o[0] == o[-1]),
                     open=sum(1 for c in cases for o in c['obs'] if not (len(o) > 1 and o[0] == o[-1])),
                     exhaustive_families='all 2x2 {low,tie,high,missing}, all 3x3 {low,high}' + (', all 3x3 {low,tie,high}, all 4x4 {low,high}, all 5x2, 2x5' if T else ''))
    chk.assumptions = ['fields take integer values, so that saddle means and crossings are exact in the specification',
                       'rectilinear coordinates']
