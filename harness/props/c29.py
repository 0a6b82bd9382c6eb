def run(chk):
    """Kernels of every size, width and centre, alone and as moving records."""
    d = chk.design(('Kernels', 'Kernels'))
    chk.build()
    cases = [c for o in chk.drive('kernels', [dict(seed=chk.seed * 1000 + s, n=1500 if chk.thorough else 120) for s in range(8)]) for c in o['cases']]
    chk.judge('TraceKernels', cases)
    chk.design_wait(d)
    chk.extra.update(kernels=sum(len(c['frames']) for c in cases), largest=max(c['size'] for c in cases), default_centre=sum(c['default'] for c in cases))
    chk.samples = [dict(c, frames=c['frames'][:1]) for c in cases[:2]]
    chk.assumptions = ['widths and centres are multiples of half a grid step; values below 2^-900 are not told apart']
