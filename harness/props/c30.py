from harness.props._tracking import split


def run(chk):
    """Simulated scenes of isolated eddies, turned into records, detected and tracked."""
    d = chk.design(('Scene', 'Scene'))
    chk.build()
    scenes = chk.simulate('Scene', 'SceneSim', 2400 if chk.thorough else 240, 8)
    cases = [c for o in chk.drive('scenes', [dict(seed=chk.seed * 1000 + k, scenes=q) for k, q in enumerate(split(scenes, 8))]) for c in o['cases']]
    chk.judge('TraceScene', cases)
    chk.design_wait(d)
    chk.extra.update(scenes=len(cases), entries=sum(len(c['obs']) for c in cases), tracks=sum(max([o[0] for o in c['obs']] or [0]) for c in cases),
                     empty=sum(not c['obs'] for c in cases))
    chk.samples = [c for c in cases if c['obs']][:2]
    chk.assumptions = ['eddies at least 16 grid steps apart, centred on the grid, with widths of 2 to 3 grid steps and levels of 0.2 to 0.6 of the amplitude']
