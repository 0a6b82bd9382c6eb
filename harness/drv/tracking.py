"""Tracking histories: synthetic detections fed to the real merge and tracking code, and real fields."""
from fields import *
import refimpl as ref
import inspect, itertools, pandas as pd, shutil, zlib
from trackeddy.trackeddy import TrackEddy
NA = 99999
UNITS = 100                       # distances in tens of metres


def template():
    x = np.arange(20.)
    J, I = np.mgrid[0:20, 0:20]
    z = 10 * np.exp(-((I - 10) ** 2 + (J - 9) ** 2) / 8)
    T = tracker(xr.Dataset({'ssh': (('lat', 'lon'), z)}, coords=dict(lat=x, lon=x)), skip=False)
    load(T)
    return quiet(T._detect_one_level, 3.)[0]


class Det:
    """A detection of the plan: position, radius (km), scores, sign, level and number of points."""
    def __init__(self, lat, lon, r, e=.5, g=.5, sign=1, npts=3):
        self.lat, self.lon, self.r, self.e, self.g, self.sign, self.npts = lat, lon, r, e, g, sign, npts


TEMPLATE = None


def make_table(dets, numbers, level):
    """The table of one level as the detection returns it."""
    out = []
    for k, (d, tag) in enumerate(zip(dets, numbers)):
        t = TEMPLATE.iloc[[0] * d.npts].copy()
        t.index = pd.MultiIndex.from_arrays([[k] * d.npts, list(range(d.npts))], names=TEMPLATE.index.names)
        a = np.arange(d.npts)
        t['contour_path_x'] = d.lon + .01 * np.cos(a + tag)
        t['contour_path_y'] = d.lat + .01 * np.sin(a + tag)
        t['level'], t['area_eddy'], t['radius_eddy'] = float(level), float(tag), float(d.r)
        t['contour_ellipse_error'], t['contour_gaussian_error'] = float(d.e), float(d.g)
        t['eddy_sign'], t['maxima'] = float(d.sign), float(d.sign) * (1 + tag / 8)
        t['maxima_y'], t['maxima_x'] = float(d.lat), float(d.lon)
        t['contour_y'], t['contour_x'] = d.lat + .001, d.lon - .001
        t['ellipse_eccen'] = .5 + tag / 1024
        out.append(t)
    return pd.concat(out)


class Planned(TrackEddy):
    """The code under test, with the detection at one level replaced by a plan {(time, level): [(det, number)]}."""
    plan = None
    asked = 0

    def _detect_one_level(self, level):
        self.asked += 1
        t = int(round(float(self.data2track.values.ravel()[0])))
        level = float(level)
        p = self.plan.get((t, level), [])
        self.log.append((t, level))
        if not p:
            return pd.DataFrame({'': []}), []
        return make_table([d for d, _ in p], [n for _, n in p], level), []


def planned(plan, ntime, scratch=None, cls=None):
    x = np.arange(4.)
    data = np.broadcast_to(np.arange(float(ntime))[:, None, None], (ntime, 4, 4)).copy()
    ds = xr.Dataset({'ssh': (('time', 'lat', 'lon'), data)}, coords=dict(lat=x, lon=x, time=times(ntime, len(plan))))
    h = zlib.crc32(repr(sorted(plan)).encode())             # other layouts of the record
    if h % 3 == 0:
        ds = ds.transpose(*[('lat', 'time', 'lon'), ('lon', 'lat', 'time'), ('lat', 'lon', 'time')][h // 3 % 3])
    if h % 5 == 0:
        ds = ds.rename(time=['t', 'ocean_time', 'time_counter'][h // 5 % 3])
    if h % 7 == 0:
        ds['wind'] = (('hour',), np.arange(3.))
    T = (cls or Planned)(ds, 'ssh')
    T.filter = None
    T.plan, T.log = plan, []
    if scratch:
        T.out_path = scratch
    return T


def canary():
    """The plan is honoured: a planned detection comes out of time_tracking."""
    T = planned({(0, 1.): [(Det(0, 30, 10), 7)], (1, 1.): [(Det(0, 30, 10), 8)]}, 2)
    r, exc = attempt(lambda: T.time_tracking(0, 2, np.array([1.]), 1), 30)
    return exc is not None or T.asked == 2


def rows(df, ref_tables):
    """Observation of an output table: one [identifier (from 1), time, number, intact] per group of rows."""
    if df is None or df.empty:
        return []
    f = df.reset_index()
    out = []
    has_time = 'time' in f.columns
    keys = ['identifier'] + (['time'] if has_time else []) + ['area_eddy']
    for k, g in f.groupby(keys, sort=True):
        tag = k[-1]
        ok = intact(g, ref_tables.get(tag))
        num = ref_tables[tag][0] if tag in ref_tables else 0
        out.append([int(k[0]) + 1, int(k[1]) if has_time else 0, num, ok])
    return out


def intact(g, want):
    """Same rows, in order, with every column as it was detected."""
    if want is None:
        return False
    w = want[1]
    g = g.sort_values('index', kind='stable') if not (np.diff(g['index'].values) > 0).all() else g
    if len(g) != len(w) or list(g['index']) != list(range(len(w))):
        return False
    for q in w.columns:
        if q in ('identifier', 'time', 'index'):
            continue
        if q not in g.columns:
            return False
        a, b = g[q].values, w[q].values
        try:
            if not np.array_equal(a.astype(float), b.astype(float), equal_nan=True):
                return False
        except (TypeError, ValueError):
            if list(map(str, a)) != list(map(str, b)):
                return False
    return True


def matrix(dets):
    la, lo = np.array([d.lat for d in dets]), np.array([d.lon for d in dets])
    D = ref.haversine(la[:, None], lo[:, None], la[None], lo[None])
    return np.round(D * UNITS).astype(int).tolist(), [int(round(d.r * UNITS)) for d in dets]


def table_refs(plan):
    out = {}
    for (t, lev), p in plan.items():
        if p:
            tab = make_table([d for d, _ in p], [n for _, n in p], lev).reset_index()
            for tag, g in tab.groupby('area_eddy'):
                out[tag] = (int(tag), g)
    return out


# ---------------------------------------------------------------------------- synthetic histories of detections
def base_points(rng, kind):
    if kind == 0:
        return float(rng.uniform(-5, 5)), float(rng.uniform(20, 40))
    if kind == 1:
        return float(rng.uniform(-70, 70)), float(rng.choice([0, 180, 359.9, -179.9]))
    return float(rng.uniform(-75, 75)), float(rng.uniform(0, 360))


def random_det(rng, lat0, lon0, spread, others):
    """Near the cluster; the radius is often just above or below a distance to another detection."""
    lat = float(np.clip(lat0 + rng.normal() * spread, -85, 85))
    lon = float(lon0 + rng.normal() * spread / np.cos(np.radians(lat)))
    r = float(rng.choice([5, 30, 80, 150, 300])) * spread
    if others and rng.random() < .6:
        o = others[int(rng.integers(len(others)))]
        d = float(ref.haversine(lat, lon, o.lat, o.lon))
        r = d * float(rng.choice([.9995, 1.0005, .9999, 1.0001, .9, 1.1, .5, 2]))
    if rng.random() < .1:
        lon += float(rng.choice([-360, 360]))
    return Det(lat, lon, max(r, .5), e=float(rng.integers(0, 5)) / 10, g=float(rng.integers(0, 5)) / 10,
               sign=int(rng.choice([-1, 1])), npts=int(rng.integers(2, 5)) if rng.random() < .97 else int(rng.integers(5, 120)))


def random_history(rng, T, maxd):
    """Detections of each time step; [] for the empty ones."""
    lat0, lon0 = base_points(rng, int(rng.integers(0, 3)))
    spread = float(rng.choice([.3, 1., 2.]))
    empties = rng.random() < .5
    hist, near = [], []
    for t in range(T):
        if empties and rng.random() < .4:
            hist.append([])
            continue
        new = []
        for _ in range(int(rng.integers(0, maxd + 1))):
            if near and rng.random() < .6:              # follow an earlier one
                o = near[int(rng.integers(len(near)))]
                step = float(rng.choice([0, .1, .5])) * spread
                new.append(random_det(rng, o.lat, o.lon, max(step, .01), near))
            else:
                new.append(random_det(rng, lat0, lon0, spread, near))
        hist.append(new)
        near = (new + near)[:8]
    return hist


def sparse_history(rng, T):
    """Few eddies over a long record: each one is seen at some steps only, with gaps around the number allowed."""
    lat0, lon0 = base_points(rng, int(rng.integers(0, 3)))
    hist = [[] for _ in range(T)]
    far = 0
    for _ in range(int(rng.integers(1, 4))):
        lat, lon, t = lat0, lon0 + far, int(rng.integers(0, 4))
        far += float(rng.choice([4., 4., .2]))
        while t < T:
            d = Det(lat, lon, 60., npts=2)
            hist[t].append(d)
            lat, lon = lat + float(rng.normal() * .1), lon + float(rng.normal() * .1)
            t += int(rng.choice([1, 1, 2, 3, 5, 6, 7, 8]))
    return hist


def abstract_history(h):
    """A history of the specification (positions on a line) as detections."""
    deg = .5
    km = float(ref.haversine(0, 0, 0, deg))
    return [[Det(0., 30 + deg * q[0], km * (q[1] - .5), npts=2 + (k % 2)) for k, q in enumerate(s)] for s in h]


def flatten(hist):
    dets = [d for s in hist for d in s]
    n, steps = 0, []
    for s in hist:
        steps.append(list(range(n + 1, n + len(s) + 1)))
        n += len(s)
    return dets, steps


def track_case(id, rng, hist, ntimes, full=True):
    """Track a history, and a window of it."""
    T = len(hist)
    dets, steps = flatten(hist)
    plan = {(t, 1.): list(zip(hist[t], steps[t])) for t in range(T)}
    refs = table_refs(plan)
    t0, tf = 0, T
    if not full:
        t0 = int(rng.integers(0, T))
        tf = int(rng.integers(t0, T + 1))
    given = full or rng.random() < .7
    if not given:
        tf = T
    c = dict(id=id, kind='tracks', times=T, t0=t0, tf=tf if given else NA, ntimes=ntimes, steps=steps, exc='', obs=[], tf2=NA, obs2=[])
    c['dist'], c['rad'] = matrix(dets)
    def go(a, b):
        X = planned(plan, T)
        kw = {} if ntimes == 5 and rng.random() < .5 else dict(ntimes=ntimes)
        if b is not None:
            kw['tf'] = b
        return X.time_tracking(a, lin_levels=np.array([1.]), **kw)
    r, exc = attempt(lambda: go(t0, tf if given else None), 60)
    if exc:
        c['exc'] = exc
        return c
    c['obs'] = rows(r, refs)
    if tf - t0 >= 2 and rng.random() < .6:
        c['tf2'] = int(rng.integers(t0 + 1, tf))
        r, exc = attempt(lambda: go(t0, c['tf2']), 60)
        if exc:
            c['exc'] = exc
        else:
            c['obs2'] = rows(r, refs)
    return c


def catalogue_case(id, rng, levels, extra_zero=True):
    """levels: detections of each level (list of lists); all in one snapshot."""
    dets, steps = flatten(levels)
    names = [float(v) for v in rng.choice([-3, -.02, -1e-6, 1e-9, .125, 2, 3.5, 40], len(levels), replace=False)]
    plan = {(0, names[k]): list(zip(levels[k], steps[k])) for k in range(len(levels))}
    refs = table_refs(plan)
    c = dict(id=id, kind='catalogue', levels=steps, exc='', obs=[], obs0=[], lev=[], zeros=False, asked=True)
    c['dist'], c['rad'] = matrix(dets)
    c['e'], c['g'] = [int(round(d.e * 10000)) for d in dets], [int(round(d.g * 10000)) for d in dets]
    X = planned(plan, 1)
    r, exc = attempt(lambda: X.time_tracking(0, 1, np.array(names)), 60)
    if exc:
        c['exc'] = exc
        return c
    c['obs'] = rows(r, refs)
    c['asked'] = X.log == [(0, n) for n in names]
    c['lev'] = [] if r.empty else [1 if float(v) in names and [n for n, q in zip(names, steps) if int(a) in q] == [float(v)] else 0
                                  for v, a in zip(r['level'], r['area_eddy'])]
    if extra_zero:
        withz = list(names)
        for _ in range(int(rng.integers(1, 3))):
            withz.insert(int(rng.integers(0, len(withz) + 1)), float(rng.choice([0., -0.])))
        Y = planned({**plan, (0, 0.): [(Det(80, 80, 10), 999)]}, 1)
        r, exc = attempt(lambda: Y.time_tracking(0, 1, np.array(withz)), 60)
        if exc:
            c['exc'] = exc
        c['zeros'], c['obs0'] = True, rows(r, refs)
    return c


def offline_case(id, rng, hist, scratch):
    T = len(hist)
    dets, steps = flatten(hist)
    plan = {(t, 1.): list(zip(hist[t], steps[t])) for t in range(T)}
    refs = table_refs(plan)
    t0 = int(rng.integers(0, T)) if rng.random() < .5 else 0
    tf = int(rng.integers(t0, T + 1)) if rng.random() < .5 else T
    fmt = str(rng.choice(['csv', 'csv', 'json', 'json', 'hd5']))
    folder = os.path.join(scratch, 'out')
    cwd = os.path.join(scratch, 'cwd')
    for d in (folder, cwd):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    os.chdir(cwd)
    off = int(rng.choice([0, 0, 0, 9, 99998]))
    c = dict(id=id, kind='offline', times=T, t0=t0, tf=tf, steps=steps, exc='', files=[], stray=0, fmt=fmt)
    X = planned(plan, T)
    X.out_path, X.out_format = folder, fmt
    for n in range(int(rng.choice([1, 1, 2, 3]))):      # again into the folder that has the files of the run before
        if n:
            if rng.random() < .5:
                X = planned(plan, T)
            X.out_path, X.out_format = folder, fmt
        r, exc = attempt(lambda: X.time_tracking(t0, tf, np.array([1.]), online_track=False), 60)
        if exc:
            c['exc'] = exc
            return c
    c['stray'] = len(os.listdir(cwd))
    for name in sorted(os.listdir(folder)):
        m = [t for t in range(T) if name == 'identified_eddies_{0:05}.{1}'.format(t, fmt)]
        try:
            f = read_file(os.path.join(folder, name), fmt)
        except Exception as e:
            c['exc'] = 'unreadable %s: %r' % (name, e)
            break
        c['files'].append([m[0] if m else -1, groups(f, refs)])
    return c


class Interrupted(Exception):
    pass


class Interruptible(Planned):
    """A plan of which one time step can fail."""
    stop = None

    def _detect_one_level(self, level):
        if int(round(float(self.data2track.values.ravel()[0]))) == self.stop:
            raise Interrupted()
        return super()._detect_one_level(level)


def storage_case(id, rng, h, scratch):
    """Runs of several versions of the data into the same folders, some interrupted (specification Storage)."""
    cwd = os.path.join(scratch, 'cwd')
    folders = [os.path.join(scratch, 'out%d' % d) for d in (1, 2)]
    for d in folders + [cwd]:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    os.chdir(cwd)
    T, tag, tags, objs, refs = len(h['count'][0]), 0, [], [], {}
    for row in h['count']:
        steps, plan = [], {}
        for t, n in enumerate(row):
            steps.append(list(range(tag + 1, tag + n + 1)))
            plan[(t, 1.)] = [(Det(float(rng.uniform(-60, 60)), float(rng.uniform(0, 360)), float(rng.uniform(5, 90)), npts=int(rng.integers(2, 5))), k) for k in steps[-1]]
            tag += n
        tags.append(steps)
        objs.append((plan, steps))
        refs.update(table_refs(plan))
    c = dict(id=id, kind='storage', count=h['count'], ops=h['ops'], tags=tags, seen=[], exc='')
    live = {}
    for v, t0, tf, d, fmt, off, stop in h['ops']:
        if v not in live or rng.random() < .5:
            live[v] = planned(objs[v - 1][0], T, cls=Interruptible)
        X = live[v]
        X.out_path, X.out_format, X.stop = folders[d - 1] + ('/' if rng.random() < .3 else ''), fmt, stop
        o = dict(outcome='done', files=[], stray=0)
        try:
            with Timed(60):
                quiet(X.time_tracking, t0, tf, np.array([1.]), online_track=not off)
        except Interrupted:
            o['outcome'] = 'stopped'
        except Timeout:
            o['outcome'] = 'timeout'
        except Exception as e:
            o['outcome'] = 'format' if fmt not in ('csv', 'json', 'hd5') else type(e).__name__ + str(e)[:80]
        o['stray'] = len(os.listdir(cwd))
        for n, folder in enumerate(folders):
            for name in sorted(os.listdir(folder)):
                m = [(t, f) for t in range(T) for f in ('csv', 'json', 'hd5') if name == 'identified_eddies_{0:05}.{1}'.format(t, f)]
                t, f = m[0] if m else (-1, name)
                try:
                    got = groups(read_file(os.path.join(folder, name), f), refs)
                except Exception as e:
                    got = [[-1, -1, 0, False]]
                o['files'].append([n + 1, t, f, got])
        c['seen'].append(o)
    return c


def groups(f, refs):
    """What a file contains: [identifier, time, detection, unchanged] for each eddy."""
    got = []
    for k, g in f.groupby(['identifier', 'time', 'area_eddy'], sort=True):
        tag = round(float(k[2]))
        want = refs.get(float(tag))
        got.append([int(k[0]), int(k[1]), tag if want else 0, close(g, want[1]) if want else False])
    return got


def hdf_stand_in():
    """Where the library behind hd5 is missing, keep what to_hdf is given (its arguments checked as pandas does)."""
    try:
        import tables
        return False
    except ImportError:
        pass
    sig = inspect.signature(pd.DataFrame.to_hdf)

    def to_hdf(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        assert isinstance(b.arguments['key'], str) and b.arguments['key'] and b.arguments['mode'] in ('a', 'w', 'r+'), b.arguments
        self.to_pickle(b.arguments['path_or_buf'], compression=None)
    pd.DataFrame.to_hdf = to_hdf
    return True


def read_file(path, fmt):
    if fmt == 'hd5':
        return (pd.read_pickle(path, compression=None) if NOHDF else pd.read_hdf(path)).reset_index()
    if fmt == 'csv':
        return pd.read_csv(path)
    d = json.load(open(path))
    cols = list(d)
    keys = list(d[cols[0]])
    f = pd.DataFrame({q: [d[q][k] for k in keys] for q in cols})
    idx = [[int(v) for v in k.strip('()').split(',')] for k in keys]
    for n, name in enumerate(('identifier', 'time', 'index')):
        f[name] = [i[n] for i in idx]
    return f


def close(g, w):
    if len(g) != len(w) or list(g['index']) != list(range(len(w))):
        return False
    return all(q in g.columns and np.allclose(g[q].astype(float), w[q].astype(float), rtol=1e-12, atol=1e-9)
               for q in w.columns if q not in ('identifier', 'time', 'index'))


# ---------------------------------------------------------------------------- real fields
def moving_field(rng, h, w, T):
    """A few Gaussians that move, appear and vanish."""
    J, I = np.mgrid[0:h, 0:w].astype(float)
    z = np.zeros((T, h, w))
    for _ in range(int(rng.integers(2, 9))):
        cx, cy = rng.uniform(3, w - 3), rng.uniform(3, h - 3)
        vx, vy = rng.normal(size=2) * float(rng.choice([.2, 1, 3]))
        s, a = rng.uniform(1.2, 2.5), float(rng.choice([-1, 1])) * rng.uniform(.5, 1)
        on = rng.random(T) < float(rng.choice([1, .8, .5]))
        for t in range(T):
            if on[t]:
                z[t] += a * np.exp(-((I - cx - vx * t) ** 2 + (J - cy - vy * t) ** 2) / 2 / s ** 2)
    return z


def entries(df):
    """Entries of a real table: [(key, first row, rows)], in order of identifier."""
    out = []
    if df is None or df.empty:
        return out
    f = df.reset_index()
    keys = ['identifier'] + (['time'] if 'time' in f.columns else [])
    for k, g in f.groupby(keys, sort=True):
        key = (float(g['level'].iloc[0]), np.ascontiguousarray(g[['contour_path_x', 'contour_path_y']].values.astype(float)).tobytes())
        out.append((key, g))
    return out


def row_det(g):
    r = g.iloc[0]
    return Det(float(r['maxima_y']), float(r['maxima_x']), float(r['radius_eddy']), float(r['contour_ellipse_error']), float(r['contour_gaussian_error']))


def observed(df, numbers):
    """As rows(), for real tables; numbers: (time or None, key) -> (number, table)."""
    if df is None or df.empty:
        return []
    f = df.reset_index()
    has_time = 'time' in f.columns
    keys = ['identifier'] + (['time'] if has_time else [])
    out = []
    for k, g in f.groupby(keys, sort=True):
        key = (float(g['level'].iloc[0]), np.ascontiguousarray(g[['contour_path_x', 'contour_path_y']].values.astype(float)).tobytes())
        t = int(k[1]) if has_time else 0
        want = numbers.get((t, key))
        out.append([int(k[0]) + 1, t, want[0] if want else 0, intact(g, want) if want else False])
    return out


CRIT = dict(ellipse_fit=.9, eccentricity=.95, gaussian_fit=0., max_area=1000.)


def real_cases(id, rng, gaussian=False):
    h, w = (int(v) for v in rng.integers(16, 34, 2))
    T = int(rng.integers(2, 6))
    g = Grid(rng, h, w)
    z = moving_field(rng, h, w, T)
    if rng.random() < .4:                   # steady for a while, or back to where it was
        z[int(rng.integers(1, T))] = z[int(rng.integers(0, T - 1))].copy()
    levels = np.array([[.3, -.3], [.2, .5, -.2, -.5], [.5, .3, .1], [-.3]][int(rng.integers(0, 4))])
    new = lambda data=z: tracker(g.dataset(data), crit=CRIT, skip=not gaussian)
    out = []
    # the catalogue of one snapshot against the detections of its levels
    t = int(rng.integers(0, T))
    c = dict(id=id + '/cat', kind='catalogue', levels=[], exc='', obs=[], obs0=[], lev=[], zeros=False, asked=True)
    numbers, dets = {}, []
    D = new(z[t])
    load(D)
    for lev in levels:
        r, exc = attempt(lambda: D._detect_one_level(float(lev)))
        if exc:
            c['exc'] = exc
            break
        nums = []
        for key, tab in entries(r[0]):
            tab = tab.copy()
            dets.append(row_det(tab))
            numbers.setdefault((t, key), (len(dets), tab))
            nums.append(len(dets))
        c['levels'].append(nums)
    r, exc = attempt(lambda: new().time_tracking(t, t + 1, levels), 120)
    c['exc'] = c['exc'] or exc or ''
    if not c['exc']:
        c['obs'] = observed(r, numbers)
        c['lev'] = [] if r.empty else [1 if float(v) in levels else 0 for v in r['level']]
        c['dist'], c['rad'] = matrix(dets) if dets else ([], [])
        c['e'], c['g'] = [int(round(d.e * 10000)) for d in dets], [int(round(d.g * 10000)) for d in dets]
    out.append(c)
    # the tracks against the catalogues of the snapshots
    ntimes = int(rng.integers(0, 3))
    c = dict(id=id + '/trk', kind='tracks', times=T, t0=0, tf=T, ntimes=ntimes, steps=[], exc='', obs=[], tf2=NA, obs2=[])
    numbers, dets = {}, []
    for t in range(T):
        r, exc = attempt(lambda: new().time_tracking(t, t + 1, levels), 120)
        if exc:
            c['exc'] = exc
            break
        nums = []
        for key, tab in entries(r):
            dets.append(row_det(tab))
            numbers[(t, key)] = (len(dets), tab)
            nums.append(len(dets))
        c['steps'].append(nums)
    if not c['exc']:
        c['dist'], c['rad'] = matrix(dets) if dets else ([], [])
        X = new()
        r, exc = attempt(lambda: X.time_tracking(0, T, levels, ntimes), 240)
        c['exc'] = exc or ''
        c['obs'] = observed(r, numbers)
        c['tf2'] = int(rng.integers(1, T))
        r, exc = attempt(lambda: X.time_tracking(0, c['tf2'], levels, ntimes), 240)
        c['exc'] = c['exc'] or exc or ''
        c['obs2'] = observed(r, numbers)
    out.append(c)
    return out


def run(job):
    global TEMPLATE, NOHDF
    NOHDF = hdf_stand_in()
    rng = np.random.default_rng(job['seed'])
    mode = job['mode']
    out = []
    if mode != 'real':
        TEMPLATE = template()
        if not canary():
            return dict(cases=[], honoured=False)
    scratch = os.path.join(job['scratch'], 'files')
    if mode == 'tracks':
        for k, h in enumerate(job['histories']):
            hist = abstract_history(h['hist'])
            out.append(track_case('h%d.%d' % (job['seed'], k), rng, hist, h['ntimes'], rng.random() < .7))
    elif mode == 'random_tracks':
        for k in range(job['n']):
            T = int(rng.integers(1, 9 if job.get('long') else 7))
            hist = random_history(rng, T, int(rng.integers(1, 6)))
            out.append(track_case('r%d.%d' % (job['seed'], k), rng, hist, int(rng.choice([0, 1, 2, 5])), rng.random() < .5))
        for k in range(job['n'] // 3):
            hist = sparse_history(rng, int(rng.integers(8, 26)))
            out.append(track_case('s%d.%d' % (job['seed'], k), rng, hist, int(rng.choice([0, 1, 2, 4, 5, 5, 5, 6])), rng.random() < .7))
        for k in range(job['n'] // 12):
            hist = random_history(rng, int(rng.integers(6, 12)), 14)
            out.append(track_case('w%d.%d' % (job['seed'], k), rng, hist, int(rng.choice([0, 1, 3, 5])), rng.random() < .7))
    elif mode == 'catalogue':
        for k, h in enumerate(job['histories']):
            hist = abstract_history(h['hist'])
            for s, q in zip(hist, h['hist']):
                for d, v in zip(s, q):
                    d.e, d.g = v[2] / 10, v[3] / 10
            out.append(catalogue_case('hc%d.%d' % (job['seed'], k), rng, hist))
    elif mode == 'random_catalogue':
        for k in range(job['n']):
            L = int(rng.integers(1, 6))
            hist = random_history(rng, L, int(rng.integers(1, 6)))
            out.append(catalogue_case('rc%d.%d' % (job['seed'], k), rng, hist))
        for k in range(job['n'] // 10):
            hist = random_history(rng, int(rng.integers(2, 9)), 13)
            out.append(catalogue_case('rw%d.%d' % (job['seed'], k), rng, hist))
    elif mode == 'offline':
        for k in range(job['n']):
            hist = random_history(rng, int(rng.integers(1, 7)), int(rng.integers(1, 4)))
            out.append(offline_case('o%d.%d' % (job['seed'], k), rng, hist, scratch))
        for k, h in enumerate(job['histories']):
            out.append(storage_case('st%d.%d' % (job['seed'], k), rng, h, scratch))
    elif mode == 'real':
        for k in range(job['n']):
            out += real_cases('f%d.%d' % (job['seed'], k), rng, job.get('gaussian', False))
    return dict(cases=out, honoured=True)


if __name__ == '__main__':
    main(run)
