def run(chk):
    d = chk.design(('Plots', 'Plots'))
    chk.build()
    jobs = [dict(seed=chk.seed * 1000 + s, n=500 if chk.thorough else 60) for s in range(8)]
    cases = [c for o in chk.drive('plots', jobs) for c in o['cases']]
    chk.judge('TracePlots', cases)
    chk.design_wait(d)
    reasons = {}
    for c in cases:
        if c['kind'] == 'level':
            for p, r in c['cats'][1]:
                reasons[r] = reasons.get(r, 0) + 1
    chk.extra.update(pictures=len(cases), of_levels=sum(c['kind'] == 'levels' for c in cases), entries=sum(len(q) for c in cases for q in c['cats']), reasons=reasons,
                     empty=sum(any(not q for q in c['cats']) for c in cases), with_legend=sum(bool(p['legend']) for c in cases for p in c['panels']))
    chk.samples = [c for c in cases if 0 < sum(map(len, c['cats'])) < 4][:2]
    chk.assumptions = ['pictures are read from the lines and meshes of the axes of matplotlib']
