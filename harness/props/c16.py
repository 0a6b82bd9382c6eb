from harness.props._tracking import split


def run(chk):
    """TLC enumerates every layout (and checks the specification on them); each one is opened with the code and judged."""
    job = chk.tlc('Coords', workers=1)
    layouts = chk.histories(job)
    chk.build()
    if len(layouts) != job['distinct']:
        raise RuntimeError('layouts lost: %d of %d' % (len(layouts), job['distinct']))
    outs = chk.drive('coords', [dict(layouts=q, part=k) for k, q in enumerate(split(layouts, 8))])
    cases = [c for o in outs for c in o['cases']]
    chk.judge('TraceCoords', cases)
    chk.extra.update(design_runs=[dict(module='Coords', distinct_states=job['distinct'])], layouts=len(cases), refused=sum(c['refused'] for c in cases))
    chk.samples = cases[::len(cases) // 3][:3]
    chk.exhaustive = True
    chk.assumptions = ['a grid of 3 x 2 points and two time steps; names that fit two roles, or two names for one role, are not specified']
