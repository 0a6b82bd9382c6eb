"""Gaussian kernels, alone and moving."""
from base import *
from trackeddy.generator.gaussian_field_functions import makeGaussian, moveGaussian


def exponents(z, f2, limit):
    """-log2 of the values times f^2 (in doubled units), as integers; what is not a value in (0, 1] is negative."""
    out = []
    for row in np.asarray(z, float):
        r = []
        for v in row:
            e = -np.log2(v) * f2 * f2 if v > 0 else limit if v == 0 else -limit - 9
            r.append(int(min(limit, max(-limit - 9, round(e)))) if np.isfinite(e) else -limit - 9)
        out.append(r)
    return out


def case(id, rng):
    size, f2 = int(rng.integers(1, 26)), int(rng.integers(1, 60))
    limit = 900 * f2 * f2                   # the exponents of doubles end at 1074
    steps = int(rng.integers(1, 5))
    near = (lambda: int(rng.integers(0, 2 * size))) if rng.random() < .7 else (lambda: int(rng.integers(-40, 2 * size + 40)))
    c = dict(id=id, size=size, limit=limit, f2=f2, default=False, exc='', frames=[], centres=[[near(), near()] for _ in range(steps)])
    kind = int(rng.integers(0, 3))
    f = f2 / 2
    half = np.array(c['centres']) / 2
    if kind == 0:
        c['default'], c['centres'] = True, c['centres'][:1]
        z, e = attempt(lambda: [makeGaussian(size, f) if f2 != 6 or rng.random() < .5 else makeGaussian(size)])
    elif kind == 1:
        c['centres'] = c['centres'][:1]
        z, e = attempt(lambda: [makeGaussian(size, f, tuple(half[0]) if rng.random() < .5 else half[0])])
    else:
        z, e = attempt(lambda: moveGaussian(size, f, half, steps))
    c['exc'] = e or ''
    if not e:
        c['frames'] = [exponents(q, f2, limit) for q in z]
    return c


def run(job):
    rng = np.random.default_rng(job['seed'])
    return dict(cases=[case('k%d.%d' % (job['seed'], k), rng) for k in range(job['n'])])


if __name__ == '__main__':
    main(run)
