"""Replays histories of operations (specification Session) in one process; every result is compared with a fresh process."""
from fields import *
import pickle, pandas as pd
from layouts import differ
from trackeddy.trackeddy import TrackEddy

CRITS = [dict(ellipse_fit=.99, eccentricity=.95, gaussian_fit=.3, max_area=10.), dict(PERMISSIVE),
         dict(ellipse_fit=.85, eccentricity=.0, gaussian_fit=.8, max_area=2 * np.pi), dict(ellipse_fit=.7, eccentricity=.7, gaussian_fit=.5, max_area=.5)]


class Interrupted(BaseException):
    """Like KeyboardInterrupt: it isn't an Exception."""


class Failing(dict):
    """Criteria that fail the n-th time they are looked up."""
    def __init__(self, d, n, kind):
        super().__init__(d)
        self.n, self.kind = n, kind

    def tick(self):
        self.n -= 1
        if self.n < 0:
            raise self.kind('looked up too often')

    def __getitem__(self, k):
        self.tick()
        return super().__getitem__(k)

    def get(self, k, *a):
        self.tick()
        return super().get(k, *a)


class World:
    """Three datasets, and the objects of the history (the first two may share one)."""
    def __init__(self, seed):
        rng = np.random.default_rng(seed)
        self.rng = rng
        self.gauss = bool(rng.random() < .08)
        self.shared = bool(rng.random() < .4)
        self.raw = []
        for k in range(3):
            if k == 2 and rng.random() < .5:                     # other data on the same grid
                g = self.raw[0][0]
                h, w = g.h, g.w
            else:
                h, w = (int(v) for v in rng.integers(10, 15 if self.gauss else 25, 2))
                g = Grid(rng, h, w)
            z = np.stack([integer(smooth(rng, h, w, 5)), integer(smooth(rng, h, w, 5))])
            if k == 2 and rng.random() < .15:
                z[:] = 0
            elif rng.random() < .3:
                z[rng.random(z.shape) < .03] = np.nan
            self.raw.append((g, z, bool(rng.random() < .5)))
        if self.shared:
            self.raw[1] = self.raw[0][:2] + (self.raw[1][2],)
        v = max(2, int(min(np.nanmax(np.abs(z)) or 99 for _, z, _ in self.raw)))
        a, b = max(1, v // 5), max(1, v // 2)
        self.levels = [float(a), -float(a), float(b), 1e6]
        self.crits = [[dict(c) for c in CRITS] for _ in range(3)]
        # none, two convolutions and a mean, the same or not for each object
        kernels = [int(v) for v in rng.choice([3, 4, 5, 7, 8], (3, 2), replace=True).ravel()]
        self.filters = [[(None, dict(filter_type='convolution', mode='uniform', kernel=10)), ('space', dict(filter_type='convolution', mode='uniform', kernel=kernels[2 * k])),
                         ('space', dict(filter_type=str(rng.choice(['meridional', 'zonal'])))), ('space', dict(filter_type='convolution', mode='uniform', kernel=kernels[2 * k + 1]))]
                        for k in range(3)]
        self.inplace = [bool(v) for v in rng.random(3) < .5]         # whether the settings of each object are changed in place
        self.track_levels = [np.array([self.levels[0], 0., self.levels[1]]), np.array(self.levels[:3]), np.array([self.levels[3]])]

    def dataset(self, k):
        g, z, _ = self.raw[k]
        return g.dataset(z.copy())

    def tracker(self, k, ds, crit=0, filt=0):
        T = TrackEddy(ds, 'ssh', nan_treatment=self.raw[k][2])
        T.skip_gaussian_fit = not self.gauss
        self.set(T, k, crit, filt)
        return T

    def set(self, T, k, crit, filt):
        T.filter = self.filters[k][filt][0]
        if self.inplace[k]:
            for own, new in ((T.identification_criteria, self.crits[k][crit]), (T.S_filter_setup, self.filters[k][filt][1])):
                own.clear()
                own.update(new)
        else:
            T.identification_criteria = self.crits[k][crit]
            T.S_filter_setup = dict(self.filters[k][filt][1])

    def load(self, T, t):
        T._filter_data_(T.rawdata.isel(time=t).squeeze(), filter=T.filter)


def fresh(f, budget=120):
    """Result of f in a forked process, which has run nothing else."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with Timed(budget):
                out = ('ok', quiet(f))
        except BaseException as e:
            out = ('error', '%s: %s' % (type(e).__name__, e))
        with os.fdopen(w, 'wb') as h:
            pickle.dump(out, h)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        b = h.read()
    _, status = os.waitpid(pid, 0)
    if not b:
        return None, 'died with status %d' % status
    kind, v = pickle.loads(b)
    return (v, None) if kind == 'ok' else (None, v)


def detection(res):
    e, d = res
    return ([(int(k if not isinstance(k, tuple) else k[0]), t.reset_index()) for k, t in groups(e)], d if len(d) else None)


def compare(got, want):
    """[eddies, eddies of the fresh process, discarded, same, worst difference, identifiers]."""
    (ge, gd), (we, wd) = got, want
    worst = max([differ(a[1], b[1]) for a, b in zip(ge, we)] or [0]) if len(ge) == len(we) else 2
    nd = [0 if q is None else len(q) for q in (gd, wd)]
    if nd[0] == nd[1] and nd[0]:
        a, b = gd, wd
        num = [q for q in a.columns if q != 'reason']
        same = sorted(map(str, a.columns)) == sorted(map(str, b.columns)) and list(map(str, a['reason'])) == list(map(str, b['reason'])) and list(a.index) == list(b.index)
        same = same and all(np.allclose(a[q].astype(float), b[q].astype(float), rtol=1e-3 if 'gauss' in q else 1e-9, equal_nan=True) for q in num)
        worst = max(worst, 0 if same else 2)
    return dict(n=len(ge), want=len(we), nd=nd[0], wantd=nd[1], differ=worst, ids=[k for k, _ in ge], dids=[int(k) for k in (gd.index if gd is not None else [])])


def track_table(df):
    if df is None or df.empty:
        return ([], None)
    f = df.reset_index()
    return ([(int(i), t) for (i, _), t in f.groupby(['identifier', 'time'], sort=True)], None)


def digest(W, Ts, dss):
    """Everything that belongs to the caller."""
    import zlib
    crc = lambda a: zlib.crc32(np.ascontiguousarray(np.asarray(a, float)).tobytes()) >> 1
    txt = lambda s: zlib.crc32(s.encode()) >> 1
    out = {}
    for k, ds in enumerate(dss):
        out['data%d' % k] = txt(str([(str(n), ds[n].dims, crc(ds[n].values), sorted(map(str, ds[n].attrs.items()))) for n in ds.variables]) + str(dict(ds.sizes)))
    for k, T in enumerate(Ts):
        out['grid%d' % k] = txt(str((crc(T.X), crc(T.Y))))
        out['criteria%d' % k] = txt(repr(sorted(T.identification_criteria.items())))
        out['filter%d' % k] = txt(repr((T.filter, sorted(T.S_filter_setup.items()), bool(T.nan_treatment), bool(T.skip_gaussian_fit))))
        out['loaded%d' % k] = crc(T.data2track.values) if hasattr(T, 'data2track') else 0
    out['levels'] = txt(str([crc(v) for v in W.track_levels]))
    out['settings'] = txt(repr(W.crits) + repr(W.filters))
    return out


def replay(W, ops, seed):
    rng = np.random.default_rng(seed)
    dss = [W.dataset(k) for k in range(3)]
    if W.shared:
        dss[1] = dss[0]
    Ts = [W.tracker(k, dss[k]) for k in range(3)]
    state = [dict(crit=0, filt=0, loaded=None) for _ in range(3)]
    out = []
    for n, (op, o, a, b) in enumerate(ops):
        k = o - 1
        T, s = Ts[k], state[k]
        before = digest(W, Ts, dss)
        e = dict(op=op, o=k, exc='', checked=False, again=False, changed=[], r=dict(n=0, want=0, nd=0, wantd=0, differ=0, ids=[], dids=[]))
        e['r2'] = e['r']
        res, key = None, None
        if op == 'load':
            _, x = attempt(lambda: W.load(T, a), 60)
            e['exc'] = x or ''
            s['loaded'] = (a, s['filt'])
        elif op == 'criteria':
            s['crit'] = a
            W.set(T, k, a, s['filt'])
        elif op == 'filter':
            s['filt'] = a
            W.set(T, k, s['crit'], a)
        elif op == 'fail':
            kind = Interrupted if rng.random() < .4 else RuntimeError
            if rng.random() < .3:
                V = W.tracker(k, W.dataset(k), s['crit'], s['filt'])
                call = lambda: V.time_tracking(0, 2, W.track_levels[1])
            else:
                V = T
                call = lambda: V._detect_one_level(W.levels[a - 1])
            keep = V.identification_criteria
            V.identification_criteria = Failing(keep, 1 + 3 * b + int(rng.integers(0, 4)), kind)
            try:
                attempt(call, 60)
            except Interrupted:
                pass
            V.identification_criteria = keep
        elif op == 'detect':
            lev = W.levels[a - 1]
            key = ('detect', k, s['loaded'], s['crit'], lev)
            call = lambda: detection(T._detect_one_level(lev))
        elif op == 'track':
            lv = W.track_levels[n % 3]
            key = ('track', k, a, s['crit'], s['filt'], n % 3)
            call = lambda: track_table(T.time_tracking(0, a, lv))
            s['loaded'] = None
        if key:
            e['checked'] = True
            res, x = attempt(call, 100)
            e['exc'] = x or ''
            res = (key, res)
            if not x and rng.random() < .4:
                r2, x = attempt(call, 100)
                e['exc'] = x or ''
                if not x:
                    e['again'], e['r2'] = True, compare(r2, res[1])
        after = digest(W, Ts, dss)
        e['changed'] = [q for q in after if after[q] != before[q]]
        out.append((e, res))
    return out


def baseline(W, key):
    if key[0] == 'detect':
        _, k, (t, f), crit, lev = key

        def go():
            T = W.tracker(k, W.dataset(k), crit, f)
            W.load(T, t)
            return detection(T._detect_one_level(lev))
    else:
        _, k, n, crit, f, lv = key

        def go():
            T = W.tracker(k, W.dataset(k), crit, f)
            return track_table(T.time_tracking(0, n, W.track_levels[lv]))
    return fresh(go)


def warm():
    """Import what the libraries load late, without running anything of the code under test that has a history."""
    from sklearn.neighbors import BallTree
    from astropy import convolution
    g = Grid(np.random.default_rng(0), 6, 6)
    z = np.zeros((2, 6, 6))
    z[:, 2, 2] = 1
    ds = g.dataset(z)
    d = ds['ssh'].isel(time=0).squeeze().transpose('lat', 'lon').fillna(0).copy()
    d.where(d > 0, np.nan).load().mean(), d.argmax(), d - d.mean('lon')
    BallTree(np.zeros((3, 2)), metric='haversine').query(np.zeros((1, 2)))
    BallTree(np.zeros((3, 2))).query(np.zeros((1, 2)))
    convolution.convolve(d, kernel=np.ones((3, 3)))
    f = pd.concat((pd.DataFrame({'a': [1, 2]}), pd.DataFrame({'a': [3]}))).reset_index().set_index(['a', 'index']).sort_index()
    f.xs(0, level='index'), f.groupby(level='a')


def run(job):
    warm()
    out = []
    for n, ops in enumerate(job['histories']):
        seed = job['seed'] * 1000 + n
        W = World(seed)
        c = dict(id='s%d.%d' % (job['seed'], n), ops=ops, steps=[], exc='')
        res, x = fresh(lambda: replay(W, ops, seed), 400)
        c['exc'] = x or ''
        memo = {}
        for e, r in res or []:
            if e['checked'] and not e['exc']:
                key, got = r
                if key not in memo:
                    memo[key] = baseline(W, key)
                want, x = memo[key]
                if x:
                    e['exc'] = 'fresh: ' + x
                else:
                    e['r'] = compare(got, want)
            c['steps'].append(e)
        out.append(c)
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
