def run(chk):
    d = chk.design(('Placement', 'Placement'))
    chk.build()
    k = 20 if chk.thorough else 1
    cases = [c for o in chk.drive('generator', [dict(seed=chk.seed * 1000 + s, n=35 * k, crowded=1) for s in range(8)]) for c in o['cases']]
    chk.judge('TracePlacement', cases)
    chk.design_wait(d)
    f = [c for c in cases if c['kind'] == 'field']
    chk.extra.update(fields=len(f), without_interaction=sum(c['apart'] and c['n'] > 1 for c in f), frames=sum(len(c['seen']) for c in f),
                     moving=sum(c['kind'] == 'moving' for c in cases), crowded=sum(c['kind'] == 'crowded' for c in cases))
    chk.samples = cases[:3]
    chk.assumptions = ['eddies of frames without interaction are found again as extremes of the frame; the sum of Gaussians is computed in the harness',
                       'separation is required where there is plenty of room; otherwise only that the placement ends within 100 s']
