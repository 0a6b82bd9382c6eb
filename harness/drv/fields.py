"""Seeded field generators shared by the drivers."""
from base import *
import xarray as xr
from scipy import ndimage

GRADMAX = 15
PREC = 1 + 2. ** -26              # a factor that small integers times it are exact, but not in single precision


def smooth(rng, h, w, kind=None):
    """A real valued field with eddy-like structures (unit scale)."""
    J, I = np.mgrid[0:h, 0:w].astype(float)
    kind = rng.integers(0, 6) if kind is None else kind
    z = np.zeros((h, w))
    if kind == 5:           # well inside
        z = .03 * rng.normal(size=(h, w))
        for _ in range(int(rng.integers(3, 8))):
            s = rng.uniform(1., 2.2)
            el, th = rng.uniform(1, 1.6), rng.uniform(0, np.pi)
            cx, cy = rng.uniform(2.5, max(3, w - 3.5)), rng.uniform(2.5, max(3, h - 3.5))
            u, v = (I - cx) * np.cos(th) + (J - cy) * np.sin(th), -(I - cx) * np.sin(th) + (J - cy) * np.cos(th)
            z += rng.choice([-1, 1]) * rng.uniform(.5, 1) * np.exp(-u ** 2 / 2 / (s * el) ** 2 - v ** 2 / 2 / s ** 2)
    if kind in (0, 1, 4):
        for _ in range(int(rng.integers(1, 6 if kind else 3))):
            s = rng.uniform(1.2, max(1.5, min(h, w) / 5))
            el = rng.uniform(1, 1.9)
            th = rng.uniform(0, np.pi)
            cx, cy = rng.uniform(-1, w), rng.uniform(-1, h)
            u = (I - cx) * np.cos(th) + (J - cy) * np.sin(th)
            v = -(I - cx) * np.sin(th) + (J - cy) * np.cos(th)
            z += rng.choice([-1, 1]) * rng.uniform(.4, 1) * np.exp(-u ** 2 / 2 / (s * el) ** 2 - v ** 2 / 2 / s ** 2)
    if kind == 4:
        z += .05 * ndimage.gaussian_filter(rng.normal(size=(h, w)), 1) / .28
    if kind == 2:
        z = ndimage.gaussian_filter(rng.normal(size=(h, w)), rng.uniform(1.2, 3))
        z /= z.std() + 1e-12
    if kind == 3:
        z = np.sin(I / rng.uniform(1.2, 3)) * np.sin(J / rng.uniform(1.2, 3)) + .2 * rng.normal(size=(h, w))
    return z


def integer(z, gradmax=GRADMAX):
    """Scale to integers whose neighbours differ by at most gradmax."""
    g = max(np.abs(np.diff(z, axis=0)).max(initial=0), np.abs(np.diff(z, axis=1)).max(initial=0), 1e-9)
    q = np.round(z * (gradmax - 1) / g)
    return q


def times(n, k):
    """Values of a time coordinate; tracking counts steps, whatever their values."""
    a = np.arange(n)
    return [a, a, a * 5 + 3, a[::-1].copy(), np.datetime64('1999-12-30') + a * np.timedelta64(1, 'D'), a / 4 - 2, a // 2][k % 7]


class Grid:
    """A lon/lat grid whose coordinates are exact in binary, so that positions map back exactly to index units. Other
    placements: axes that decrease ('flip'), or a grid turned over the sphere, with 2D coordinates ('turn')."""
    def __init__(self, rng, h, w, dx=None, dy=None, lon0=None, lat0=None, place='plain'):
        self.h, self.w, self.place = h, w, place
        self.dx = float(rng.choice([.125, .25, .5, 1.])) * (PREC if rng.random() < .5 else 1) if dx is None else dx
        self.dy = float(self.dx * rng.choice([.5, 1, 1, 1])) if dy is None else dy
        self.lon0 = float(rng.choice([0, 10, -31, 170, 352, -180])) if lon0 is None else lon0
        self.lat0 = float(rng.choice([-66, -40, -8, 0, 21, 55])) if lat0 is None else lat0
        self.M = np.diag([self.dx, self.dy])
        if place == 'flip':
            s = [(1, -1), (-1, 1), (-1, -1), (1, -1)][int(rng.integers(0, 4))]
            self.M = self.M * np.array(s)[None, :]
            self.lat0 += self.dy * (h - 1) * (s[1] < 0)
            self.lon0 += self.dx * (w - 1) * (s[0] < 0)
        if place == 'turn':
            self.dx = self.dy = min(np.float32(self.dx).item(), .5)
            c, s = [(.6, .8), (.8, -.6), (5 / 13, 12 / 13), (-24 / 25, 7 / 25), (0, 1), (0, -1), (.96, .28)][int(rng.integers(0, 7))]
            self.M = self.dx * np.array([[c, -s], [s, c]])
            if rng.random() < .3:
                self.M = self.M @ np.diag([1, -1])
            self.lat0 = float(rng.choice([-30, -40, 0, 21]))
        self.lon = self.lon0 + self.M[0, 0] * np.arange(w)
        self.lat = self.lat0 + self.M[1, 1] * np.arange(h)
        if place == 'turn':
            J, I = np.mgrid[0:h, 0:w]
            self.X, self.Y = (o + m[0] * I + m[1] * J for o, m in zip((self.lon0, self.lat0), self.M))
            self.inv = np.linalg.inv(self.M)
        else:
            self.X, self.Y = np.meshgrid(self.lon, self.lat)

    def index(self, path):
        if self.place == 'turn':
            return (path - np.array([self.lon0, self.lat0])) @ self.inv.T + 1
        return np.stack([(path[:, 0] - self.lon0) / self.M[0, 0] + 1, (path[:, 1] - self.lat0) / self.M[1, 1] + 1], axis=1)

    def at(self, x, y):
        return self.index(np.array([[x, y]], float))[0]

    def dataset(self, data, name='ssh'):
        d = np.asarray(data)
        dims = ('y', 'x') if self.place == 'turn' else ('lat', 'lon')
        co = {} if self.place == 'turn' else dict(lon=self.lon, lat=self.lat)
        if d.ndim == 2:
            ds = xr.Dataset({name: (dims, d)}, coords=co)
        else:
            ds = xr.Dataset({name: (('time',) + dims, d)}, coords=dict(co, time=times(d.shape[0], int(self.w + self.h))))
        if self.place == 'turn':
            ds['lon'], ds['lat'] = (dims, self.X), (dims, self.Y)
        return ds


PERMISSIVE = dict(ellipse_fit=.99, eccentricity=.999, gaussian_fit=0., max_area=1000.)


def tracker(ds, name='ssh', crit=None, skip=True, filter=None, **kw):
    from trackeddy.trackeddy import TrackEddy
    T = TrackEddy(ds, name, **kw)
    T.filter = filter
    T.skip_gaussian_fit = skip
    if crit:
        T.identification_criteria = dict(crit)
    return T


def load(T, time=None):
    """Prepare the tracked field of one snapshot, as documented in the examples."""
    snap = T.rawdata if time is None or 'time' not in T.rawdata.dims else T.rawdata.isel(time=time)
    T._filter_data_(snap.squeeze(), filter=T.filter)


def groups(df):
    """Tables of each identified eddy, in order of identifier."""
    if df.empty:
        return []
    lev = list(df.index.names)
    return [(k, g) for k, g in df.groupby(level=[n for n in lev if n != 'index'], sort=True)]
