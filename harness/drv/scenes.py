"""Records of isolated eddies (specification Scene), detected and tracked by the real code."""
from fields import *
HOME, EDGE = 20, 12


def case(id, rng, s, gaussian):
    H, n = 3 * EDGE + 9, len(s['amp'])
    dx = float(rng.choice([.125, .25, .5, 1.]))
    g = Grid(rng, H, H, dx=dx, dy=dx * float(rng.choice([1, 1, .5])), lat0=float(rng.choice([-40, -22, 0, 10])), place=str(rng.choice(['plain', 'plain', 'flip', 'turn'])))
    unit = float(rng.choice([1., 1., .01, 300.]))
    J, I = np.mgrid[0:H, 0:H].astype(float)
    shape = [(rng.uniform(2.4, 2.6), rng.uniform(1, 1.2), rng.uniform(0, np.pi)) for _ in range(n)]
    z = np.zeros((len(s['steps']), H, H))
    for t, step in enumerate(s['steps']):
        for h, p in enumerate(step):
            if tuple(p) == (99, 99):
                continue
            cx, cy = EDGE + HOME * ((h + 1) % 2) + p[0], EDGE + HOME * ((h + 1) // 2) + p[1]
            w, e, th = shape[h]
            u, v = (I - cx) * np.cos(th) + (J - cy) * np.sin(th), (J - cy) * np.cos(th) - (I - cx) * np.sin(th)
            z[t] += s['amp'][h] / 10 * unit * np.exp(-u ** 2 / 2 / (w * e) ** 2 - v ** 2 / 2 / (w / e) ** 2)
    X = tracker(g.dataset(z), crit=dict(ellipse_fit=1., eccentricity=.999, gaussian_fit=0., max_area=1000.), skip=not gaussian)
    levels = np.array(rng.permutation(s['levels']), float) / 10 * unit
    kw = {} if rng.random() < .3 else dict(tf=len(z))
    r, exc = attempt(lambda: X.time_tracking(lin_levels=levels, ntimes=s['ntimes'], **kw), 300)
    c = dict(s, id=id, exc=exc or '', obs=[])
    if exc or r.empty:
        return c
    for (i, t), q in r.reset_index().groupby(['identifier', 'time'], sort=True):
        q = q.iloc[0]
        at = g.at(q['maxima_x'], q['maxima_y']) - 1 - EDGE
        near = np.round(at).astype(int)
        mid = np.abs(g.at(q['contour_x'], q['contour_y']) - 1 - EDGE - near).max() < .5
        whole = np.abs(at - near).max() < 1e-4
        val = lambda v: int(np.round(v / unit * 10)) if abs(v / unit * 10 - np.round(v / unit * 10)) < 2e-3 else 999
        c['obs'].append([int(i) + 1, int(t) + 1] + (near.tolist() if whole else [-9, -9]) + [int(q['eddy_sign']), val(q['level']), val(q['maxima']), bool(mid)])
    return c


def run(job):
    rng = np.random.default_rng(job['seed'])
    out = []
    for k, s in enumerate(job['scenes']):
        out.append(case('s%d.%d' % (job['seed'], k), rng, s, k % 6 == 0))
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
