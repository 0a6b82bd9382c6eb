from harness.props._tracking import split


def run(chk):
    """TLC enumerates every selection of properties and simulates histories of the registries; the code replays them."""
    d = chk.design(('Registry', 'Registry'))
    sel = chk.histories(chk.tlc('Records', workers=1))
    hist = chk.simulate('Registry', 'RegistrySim', 8000 if chk.thorough else 600, 13)
    chk.build()
    k = 8
    a, b = split(sel, k), split(hist, k)
    rep = 4 if chk.thorough else 1
    jobs = [dict(seed=chk.seed * 1000 + r * 10 + n, selections=a[n], histories=b[n] if r == 0 else []) for r in range(rep) for n in range(k)]
    cases = [c for o in chk.drive('registry', jobs) for c in o['cases']]
    chk.judge('TraceRegistry', cases)
    chk.design_wait(d)
    chk.extra.update(selections=len(sel), histories=len(hist), records_rejected=sum(c['kind'] == 'record' and c['unknown'] for c in cases))
    chk.samples = cases[:2] + cases[-1:]
    chk.assumptions = ['values are integers; a Gaussian that was not fitted may appear in the record in any way']
