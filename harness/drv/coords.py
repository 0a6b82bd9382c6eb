"""Builds each layout of the specification as a dataset and records how the code reads it."""
from base import *
import xarray as xr
from trackeddy.trackeddy import TrackEddy

NX, NY, NT = 3, 2, 2
XDIM, YDIM, XVEC, YVEC = [3, 5, 8], [-4, 2], [10, 20, 40], [30, 35]
XMAT = [[100 + 10 * i + j for i in range(1, NX + 1)] for j in range(1, NY + 1)]
YMAT = [[50 + 10 * j + i for i in range(1, NX + 1)] for j in range(1, NY + 1)]


def role(n):
    """Which values the harness stores along a dimension (all its names are clear)."""
    if n in ('time', 't', 'time_counter'):
        return 't'
    if n in ('depth', 'ensemble'):
        return 'e'
    return 'x' if n in ('x', 'lon', 'longitude', 'nav_lon', 'xh', 'i') else 'y'


def build(L):
    dims = L['dims']
    by = {role(d): d for d in dims}
    size = dict(x=NX, y=NY, t=NT, e=L['extra'])
    data = np.zeros([size[role(d)] for d in dims])
    for pos in np.ndindex(*data.shape):
        k = {role(d): p for d, p in zip(dims, pos)}
        data[pos] = 1000 * (k.get('t', 0)) + 10 * (k.get('y', 0) + 1) + k.get('x', 0) + 1
    coords = {}
    for d in dims:
        coords[d] = dict(x=XDIM, y=YDIM, t=list(range(NT)), e=list(range(L['extra'])))[role(d)]
    ds = xr.Dataset({'ssh': (dims, data)}, coords=coords)
    for v in L['vars']:
        isx = v['name'] in ('lon', 'nav_lon', 'x', 'longitude')
        vec, mat = (XVEC, XMAT) if isx else (YVEC, YMAT)
        val = dict(zip(('0d', '1d', 'yx', 'xy', '3d'), [
            ((), 7.), ([by['x' if isx else 'y']], vec), ([by['y'], by['x']], mat), ([by['x'], by['y']], np.array(mat).T.tolist()),
            (['k', by['y'], by['x']], [mat, mat])]))[v['kind']]
        ds[v['name']] = val
    return ds


def ints(a):
    a = np.asarray(a, float)
    return [[int(v) if v == int(v) else -99999 for v in r] for r in a] if a.ndim == 2 else []


def run(job):
    out = []
    for n, L in enumerate(job['layouts']):
        L['vars'], L['dims'] = list(L['vars']), list(L['dims'])
        ds = build(L)
        hast = any(role(d) == 't' for d in L['dims'])
        t = n % NT
        c = dict(id='l%d.%d' % (job['part'], n), layout=L, t=t, refused=False, exc='', x=[], y=[], field=[])
        box = {}

        def go():
            T = TrackEddy(ds, 'ssh')
            T.filter, T.skip_gaussian_fit = None, True
            box['T'] = T
            T.time_tracking(t, t + 1, np.array([1e9]))
        _, exc = attempt(go, 30)
        if exc:
            c['refused'], c['exc'] = True, exc
        else:
            T = box['T']
            c['x'], c['y'], c['field'] = ints(T.X), ints(T.Y), ints(T.data2track.values)
            if not hast:
                c['t'] = 0
        out.append(c)
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
