"""Generated fields and moving Gaussians."""
from base import *
import random
from trackeddy.generator.field_generator import Generate_field
from trackeddy.generator.gaussian_field_functions import moveGaussian

M = 1000000


def gauss(X, Y, amp, xo, yo, sx, sy, th):
    """A Gaussian whose axes are rotated by th."""
    co, si = np.cos(th), np.sin(th)
    u = (X - xo) * co - (Y - yo) * si
    v = (X - xo) * si + (Y - yo) * co
    return amp * np.exp(-u ** 2 / (2 * sx ** 2) - v ** 2 / (2 * sy ** 2))


def micro(v):
    return int(min(2e9, max(-2e9, round(v * M)))) if np.isfinite(v) else 2 * 10 ** 9


def peaks_of(z, sign, coarse):
    """Strict local extremes with a magnitude over one half (in coarse grids each eddy is one point)."""
    w = sign * z
    if coarse:
        return list(zip(*np.nonzero(w > .5)))
    p = np.pad(w, 1, constant_values=-np.inf)
    h, k = w.shape
    best = np.max([p[a:a + h, b:b + k] for a in range(3) for b in range(3) if (a, b) != (1, 1)], axis=0)
    return list(zip(*np.nonzero((w > best) & (w > .5))))


def field(rng, id, opt):
    c = dict(id=id, kind='field', exc='', opt=opt)
    margin = int(rng.choice([0, 0, 3, 8, 20]))
    frames = int(rng.choice([1, 2, 3]))
    n = int(rng.integers(1, 9))
    if opt in ('interaction', 'int'):
        n = 1
    ux, uy = (int(v) for v in rng.choice([1, 1, 2, 3], 2))             # spacing of the grid with margins, in sixteenths
    r = rng.uniform(1.1, 2.) * max(ux, uy)
    coarse = opt in ('no_interaction', 'Nint') and rng.random() < .25
    if coarse:                                               # eddies smaller than the distance between points
        r = rng.uniform(.1, .16) * min(ux, uy)
        side = 0
    elif opt in ('no_interaction', 'Nint'):
        side = 5 * r * 1.1 * np.sqrt(n * rng.choice([2.7, 4, 8]))        # plenty of room
    else:
        side = rng.uniform(10, 30) * r
    nx, ny = max(6, int(side / ux) + int(rng.integers(0, 9))), max(6, int(side / uy) + int(rng.integers(0, 9)))
    if coarse:
        nx, ny = int(rng.integers(3, 8)), int(rng.integers(3, 8))
        nx, ny = (nx, ny) if nx * ny > 2 * n else (7, 7)
    if rng.random() < .2:
        nx = ny = max(nx, ny)
    lx, ly = nx + 2 * margin - 1, ny + 2 * margin - 1
    x0, y0 = float(rng.integers(-100, 100)), float(rng.integers(-80, 80))
    x, y = np.linspace(x0, x0 + ux * lx / 16, nx), np.linspace(y0, y0 + uy * ly / 16, ny)
    a, b = r / 16, r / 16 * (1 if rng.random() < .5 else rng.uniform(.7, 1))
    random.seed(int(rng.integers(1 << 30)))
    c.update(nx=nx, ny=ny, margin=margin, frames=frames, n=n, ux=ux, uy=uy, r2=0, apart=False, amps=[0], shape=[], seen=[])
    box = {}

    def go():
        g = Generate_field(a, b, n, x, y, opt) if opt or rng.random() < .5 else Generate_field(a, b, n, x, y)
        box['g'] = g
        return g.assemble_field(frames, margin)
    data, exc = attempt(go, 100)
    if exc:
        c['exc'] = exc
        return c
    g = box['g']
    data = np.asarray(data, float)
    c['shape'] = list(data.shape)
    e = list(g.eddies.values())
    ra, rb = max(q['radius'][0] for q in e), max(q['radius'][1] for q in e)
    c['apart'] = opt in ('no_interaction', 'Nint') or n == 1
    c['r2'] = int(np.floor((5 * max(ra, rb) * 16) ** 2 - 1e-6))
    c['amps'] = [micro(q['amp']) for q in e]
    if c['shape'] != [frames, ny + 2 * margin, nx + 2 * margin]:
        return c
    X, Y = np.meshgrid(np.linspace(x[0], x[-1], nx + 2 * margin), np.linspace(y[0], y[-1], ny + 2 * margin))
    for t in range(frames):
        z = data[t]
        found = []
        if c['apart']:
            for s in (-1, 1):
                for j, i in peaks_of(z, s, coarse):
                    k = int(np.argmin([abs(q['amp'] - z[j, i]) for q in e]))
                    found.append([int(i), int(j), k + 1 if abs(e[k]['amp'] - z[j, i]) < .01 else 0, micro(z[j, i])])
            G = sum([gauss(X, Y, e[p[2] - 1]['amp'], X[0, p[0]], Y[p[1], 0], *e[p[2] - 1]['radius'], e[p[2] - 1]['angle']) for p in found if p[2]], np.zeros_like(z))
        else:                                               # they don't move: where the generator has them
            G = sum([gauss(X, Y, q['amp'], X[0, q['loc'][0][0] + margin], Y[q['loc'][0][1] + margin, 0], *q['radius'], q['angle']) for q in e], np.zeros_like(z))
        c['seen'].append(dict(peaks=found, residual=micro(np.abs(z - G).max())))
    if opt not in ('interaction', 'int') and rng.random() < .4:            # the last frame again, without margins
        r2, exc = attempt(lambda: np.asarray(g.reconstruct_field(), float), 60)
        if exc:
            c['exc'] = exc
        else:
            X, Y = np.meshgrid(np.linspace(x[0], x[-1], nx), np.linspace(y[0], y[-1], ny))
            G = sum([gauss(X, Y, q['amp'], X[0, q['loc'][0][0]], Y[q['loc'][0][1], 0], *q['radius'], q['angle']) for q in e], np.zeros((ny, nx)))
            if r2.shape == G.shape:
                c['seen'][-1]['residual'] = max(c['seen'][-1]['residual'], micro(np.abs(r2 - G).max()))
            else:
                c['exc'] = 'reconstruct_field: shape %s' % (r2.shape,)
    return c


def crowded(rng, id):
    """There is no room: it must end all the same."""
    n = int(rng.integers(2, 5))
    x = np.linspace(0, 1, int(rng.integers(3, 8)))
    y = np.linspace(0, 1, int(rng.integers(3, 8)))
    random.seed(int(rng.integers(1 << 30)))
    c = dict(id=id, kind='crowded', exc='')
    d, exc = attempt(lambda: Generate_field(.5, .5, n, x, y, 'Nint').assemble_field(1, 2), 100)
    c['exc'] = exc or ''
    return c


def moving(rng, id):
    size, frames = int(rng.integers(3, 40)), int(rng.integers(1, 7))
    fwhm = float(rng.choice([2, 3, 7.5, 20]))
    centers = rng.integers(-2, size + 2, (frames, 2))
    cen = centers.astype(float) if rng.random() < .5 else centers
    c = dict(id=id, kind='moving', exc='', size=size, frames=frames, centers=[[int(u), int(v)] for u, v in centers],
             inside=[bool((q >= 0).all() and (q < size).all()) for q in centers], shape=[], peaks=[], residuals=[])
    z, exc = attempt(lambda: np.asarray(moveGaussian(size, fwhm, cen, frames), float), 30)
    if exc:
        c['exc'] = exc
        return c
    c['shape'] = list(z.shape)
    J, I = np.mgrid[0:size, 0:size]
    for t in range(min(frames, len(z))):
        j, i = np.unravel_index(np.argmax(z[t]), z[t].shape)
        c['peaks'].append([int(i), int(j), micro(z[t][j, i])])
        w = 2. ** (-4 * ((I - centers[t, 0]) ** 2 + (J - centers[t, 1]) ** 2) / fwhm ** 2)
        c['residuals'].append(micro(np.abs(z[t] - w).max()) if w.shape == z[t].shape else 2 * 10 ** 9)
    return c


def walk(rng, id):
    """Positions of a long random walk."""
    random.seed(int(rng.integers(1 << 30)))
    step, p = int(rng.integers(1, 6)), [int(v) for v in rng.integers(-50, 50, 2)]
    c = dict(id=id, kind='walk', exc='', step=step, path=[list(p)])
    x = np.linspace(0, 1, 9)

    def go():
        g = Generate_field(.1, .1, 2, x, x)
        for _ in range(250):
            q = g.make_random_walk(list(c['path'][-1]), step)
            c['path'].append([int(q[0]), int(q[1])])
    c['exc'] = attempt(go, 60)[1] or ''
    return c


def run(job):
    rng = np.random.default_rng(job['seed'])
    out = []
    for n in range(job['n']):
        out.append(field(rng, 'f%d.%d' % (job['seed'], n), str(rng.choice(['no_interaction', 'Nint', 'Nint', '', 'int', 'interaction']))))
        out.append(moving(rng, 'm%d.%d' % (job['seed'], n)))
    for n in range(job['crowded']):
        out.append(crowded(rng, 'c%d.%d' % (job['seed'], n)))
        out.append(walk(rng, 'w%d.%d' % (job['seed'], n)))
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
