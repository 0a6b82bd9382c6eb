"""Records the contours that the implementation extracts from integer fields."""
from base import *
from trackeddy.geometry import extract_contours
from scipy import ndimage
NA, SC = 99999, 720720


def encode(v):
    if not np.isfinite(v):
        return NA
    s = v * SC
    r = round(s)
    return int(r) if abs(s - r) < 1e-5 else int(r) * 2 + 7   # off the scaled lattice: certainly not a crossing


PLAIN = dict(A=np.eye(2), t=np.zeros(2), k=1., o=0., form='double')


def another(rng):
    """The same question asked with other numbers: coordinates turned, sheared or mirrored, values scaled and shifted
    (exactly), other types and memory layouts. Contours in the units of the grid are the same."""
    h = dict(PLAIN)
    if rng.random() < .6:
        A = rng.integers(-3, 4, (2, 2)) * float(rng.choice([1, 1 + 2. ** -26]))
        if abs(np.linalg.det(A)) > .5:
            h['A'], h['t'] = A, rng.integers(-200, 200, 2).astype(float)
    if rng.random() < .6:
        h['k'], h['o'] = 2. ** int(rng.integers(-40, 40)), float(rng.integers(-3, 4)) * 2. ** int(rng.integers(0, 34))
    h['form'] = str(rng.choice(['double', 'strided', 'fortran'] + (['single'] if not h['o'] and (h['A'] % 1 == 0).all() else [])))
    return h


def form(a, how):
    if how == 'single':
        return a.astype(np.float32)
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full((a.shape[0] * 2, a.shape[1] * 3), -7.)
        b[::2, ::3] = a
        return b[::2, ::3]
    return a


def case(id, z, lev, x, y, how=PLAIN):
    """z: 2D array of integers (float with nan); x, y: integer coordinates."""
    X0, Y0 = np.meshgrid(np.asarray(x, float), np.asarray(y, float))
    X, Y = (how['A'][n, 0] * X0 + how['A'][n, 1] * Y0 + how['t'][n] for n in (0, 1))
    back = np.linalg.inv(how['A'])
    f = dict(w=len(x), h=len(y), l=int(lev), x=[int(v) for v in x], y=[int(v) for v in y],
             z=[[NA if np.isnan(v) else int(v) for v in row] for row in z])
    data = (np.array(z, dtype=float) + how['o']) * how['k']
    args = [form(a, how['form']) for a in (X, Y, data)]
    res, exc = attempt(lambda: extract_contours(*args, (float(lev) + how['o']) * how['k'])[0], 20)
    obs = [] if exc else [[[encode(a), encode(b)] for a, b in (np.asarray(c) - how['t']) @ back.T] for c in res]
    return dict(id=id, f=f, obs=obs, exc=exc or '', how=dict(A=how['A'].round().astype(int).tolist(), t=how['t'].astype(int).tolist(), scale=repr(how['k']), offset=repr(how['o']), form=how['form']))


def values(rng, h, w, kind):
    if kind == 0:
        z = rng.integers(0, 11, (h, w)).astype(float)
    elif kind == 1:
        z = ndimage.gaussian_filter(rng.normal(size=(h, w)), 1.2)
        z = np.clip(np.round(5 + z / (z.std() + 1e-9) * 2), 0, 10)
    elif kind == 2:
        z = rng.choice([0., 5., 10.], (h, w))
    elif kind == 3:
        z = ndimage.gaussian_filter(rng.normal(size=(h, w)), 2.5)
        z = np.clip(np.round(5 + z / (z.std() + 1e-9) * 2.5), 0, 10)
    else:
        z = 10. * (rng.random((h, w)) < .5)
    return z


def large(rng):
    """Long contours (spirals and combs) and many contours, on large and on narrow grids."""
    h, w = (int(v) for v in (rng.integers(50, 90, 2) if rng.random() < .6 else rng.permutation([rng.integers(2, 5), rng.integers(150, 400)])))
    J, I = np.mgrid[0:h, 0:w].astype(float)
    kind = rng.integers(0, 4)
    if kind == 0:
        r, a = np.hypot(I - w / 2 + .3, J - h / 2), np.arctan2(J - h / 2, I - w / 2 + .3)
        z = np.clip(np.round(5 + 5 * np.cos(a + r / rng.uniform(1.3, 4))), 0, 10)
        if rng.random() < .5:
            z[[0, -1]], z[:, [0, -1]] = 0, 0
    elif kind == 1:
        z = np.where((I % 4 < 2) & (J > 1) & (J < h - 2) | (J == 2), 10., 0.)
    else:
        z = values(rng, h, w, int(rng.choice([1, 3])))
    return z


def run(job):
    out = []
    if job['mode'] == 'grids':            # exhaustive numbering of small fields
        w, h, vals, lev = job['w'], job['h'], job['vals'], job['lev']
        for n in job['numbers']:
            v, m = [], n
            for _ in range(w * h):
                v.append(vals[m % len(vals)]); m //= len(vals)
            z = np.array([np.nan if q == NA else q for q in v], float).reshape(h, w)
            out.append(case('g%dx%d#%d' % (w, h, n), z, lev, range(1, w + 1), range(1, h + 1)))
    else:
        rng = np.random.default_rng(job['seed'])
        for k in range(job['n']):
            if job['mode'] == 'large':
                z = large(rng)
            else:
                z = values(rng, *rng.integers(2, job['size'], 2), rng.integers(0, 5))
            h, w = z.shape
            if rng.random() < .25:
                z[rng.random((h, w)) < rng.choice([.03, .2])] = np.nan
            x = np.cumsum(rng.integers(1, 4, w)) - int(rng.integers(0, 20))
            y = np.cumsum(rng.integers(1, 4, h)) - int(rng.integers(0, 20))
            out.append(case('%s%d.%d' % (job['mode'][0], job['seed'], k), z, int(rng.integers(0, 10)), x, y, another(rng) if rng.random() < .6 else PLAIN))
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
