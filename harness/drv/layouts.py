"""The same field stored in other ways (specification Layout), or with another origin of longitudes."""
from fields import *
import detect as D
import shutil
from trackeddy.trackeddy import TrackEddy

FOLDER = None
CRIT = dict(ellipse_fit=.9, eccentricity=.95, gaussian_fit=.3, max_area=1000.)


def store(g, z, L, rng):
    """Dataset with the field z (time, y, x) stored as the layout says."""
    T = z.shape[0]
    other = lambda: integer(smooth(rng, g.h, g.w))
    full = np.stack([other() for _ in range(L['before'])] + list(z) + [other() for _ in range(L['after'])])
    if 't' not in L['dims']:
        full = full[0]
        src = ['y', 'x']
    else:
        src = ['t', 'y', 'x']
    data = np.ascontiguousarray(full.transpose([src.index(d) for d in L['dims']]))
    name = dict(t='time', y='lat', x='lon') if L['coords'] == 'dims' else dict(t='time', y='nj_lat', x='ni_lon')
    dims = [name[d] for d in L['dims']]
    co = {name['y']: g.lat, name['x']: g.lon}
    if L['coords'] != 'dims':
        co = {name['y']: np.arange(g.h) * 3., name['x']: np.arange(g.w) * 2.}
    if 't' in L['dims']:
        co['time'] = times(full.shape[0], full.size % 3)
    ds = xr.Dataset({'ssh': (dims, data)}, coords=co)
    X, Y = np.meshgrid(g.lon, g.lat)
    if L['coords'] == 'vectors':
        ds['lat'], ds['lon'] = (name['y'], g.lat), (name['x'], g.lon)
    elif L['coords'] == 'yx':
        ds['lon'], ds['lat'] = ((name['y'], name['x']), X), ((name['y'], name['x']), Y)
    elif L['coords'] == 'xy':
        ds['lon'], ds['lat'] = ((name['x'], name['y']), X.T.copy()), ((name['x'], name['y']), Y.T.copy())
    if not L['files']:
        return ds, {}
    # in files, each with some of the time steps
    shutil.rmtree(FOLDER, ignore_errors=True)
    os.makedirs(FOLDER)
    a = 0
    for n, m in enumerate(L['files']):
        (ds.isel(time=slice(a, a + m)) if 't' in L['dims'] else ds).to_netcdf(os.path.join(FOLDER, 'part%d.nc' % n))
        a += m
    kw = {}
    if len(L['files']) > 1:
        kw = dict(data_vars='minimal', coords='minimal', compat='override') if rng.random() < .5 or L['coords'] != 'dims' else dict(combine='nested', concat_dim='time')
    if rng.random() < .5:
        kw['chunks'] = {d: int(rng.integers(1, 9)) for d in ds['ssh'].dims if rng.random() < .7}
    return os.path.join(FOLDER, 'part0.nc' if len(L['files']) == 1 and rng.random() < .5 else 'part*.nc'), kw


def tables(df):
    """[(identifier, time, table)] in order."""
    if df is None or df.empty:
        return []
    f = df.reset_index()
    return [(int(i), int(t), q) for (i, t), q in f.groupby(['identifier', 'time'], sort=True)]


def differ(a, b):
    """0: identical, 1: equal to the precision of the arithmetic, 2: different."""
    cols = [q for q in a.columns if q not in ('identifier', 'time')]
    if sorted(cols) != sorted(q for q in b.columns if q not in ('identifier', 'time')) or len(a) != len(b):
        return 2
    worst = 0
    for q in cols:
        u, v = a[q].astype(float).values, b[q].astype(float).values
        if np.array_equal(u, v, equal_nan=True):
            continue
        tol = 1e-3 if 'gauss' in q else 1e-9
        worst = max(worst, 1 if np.allclose(u, v, rtol=tol, atol=tol, equal_nan=True) else 2)
    return worst


def store_cases(rng, id, layouts, nt, k, gaussian):
    h, w = (int(v) for v in rng.integers(10, 16 if gaussian else 24, 2))
    g = Grid(rng, h, w)
    z = np.stack([integer(smooth(rng, h, w, int(rng.choice([1, 2, 4, 5, 5]))))] * nt)
    for t in range(1, nt):
        z[t] = np.roll(z[0], rng.integers(-1, 2, 2), axis=(0, 1)) + np.round(rng.normal(size=(h, w)) * .6)
    if rng.random() < .25:
        z[rng.random(z.shape) < .02] = np.nan
    flt = str(rng.choice(['none', 'none', 'convolution', 'meridional', 'zonal']))
    nan = bool(rng.random() < .3)
    v = np.abs(z[np.isfinite(z)]).max(initial=2)
    levels = np.array(sorted({float(max(1, int(v * q))) * s for q in (.2, .5) for s in (-1, 1)}))
    if gaussian:
        levels = levels[:2]

    def go(ds, a, whole=False, **kw):
        T = TrackEddy(ds, 'ssh', nan_treatment=nan, **kw)
        T.skip_gaussian_fit = not gaussian
        T.identification_criteria = dict(CRIT)
        T.filter = None if flt == 'none' else 'space'
        if flt != 'none':
            T.S_filter_setup = dict(filter_type=flt, mode='uniform', kernel=int(kern)) if flt == 'convolution' else dict(filter_type=flt)
        return T.time_tracking(a, lin_levels=levels) if whole else T.time_tracking(a, a + nt, levels)
    kern = int(rng.integers(3, 8))
    base, exc0 = attempt(lambda: go(g.dataset(z), 0), 300)
    out = []
    kinds = [[n for n, L in enumerate(layouts) if bool(L['files']) == b] for b in (False, True)]
    for n in {int(rng.choice(kinds[m % 2])) for m in range(k)}:
        L = layouts[n]
        c = dict(id='%s.%d' % (id, n), kind='store', layout=L, filter=flt, gaussian=gaussian, exc=exc0 or '', base=[], obs=[])
        if not exc0:
            want = tables(base)
            c['base'] = [[i, t, 0] for i, t, _ in want]
            ds, kw = store(g, z, L, rng)
            r, exc = attempt(lambda: go(ds, L['before'], L['after'] == 0 and n % 2 == 0, **kw), 300)
            got = [] if exc else tables(r)
            c['exc'], c['obs'] = exc or '', [[i, t, differ(want[m][2], q) if m < len(want) else 2] for m, (i, t, q) in enumerate(got)]
        out.append(c)
    return out


def entry(t, g):
    """Measures of one identified eddy, positions in index units."""
    one = t.iloc[0]
    col = lambda q: float(one[q])
    s = D.sc
    gx, gy = (col('maxima_x') - g.lon0) / g.dx + 1, (col('maxima_y') - g.lat0) / g.dy + 1
    return dict(area=s(col('area_eddy'), 10), radius=s(col('radius_eddy'), 1000), ecc=s(col('ellipse_eccen'), 1e5), sim=s(col('contour_ellipse_error'), 1e4),
                cx=s((col('contour_x') - g.lon0) / g.dx, 1e5), cy=s((col('contour_y') - g.lat0) / g.dy, 1e5), sign=s(col('eddy_sign'), 1), ext=s(col('maxima'), 100),
                i=s(gx, 100), j=s(gy, 100), a=s(col('ellipse_params_a') / g.dx, 1e4), b=s(col('ellipse_params_b') / g.dx, 1e4))


def shift_case(rng, id):
    h, w = (int(v) for v in rng.integers(10, 30, 2))
    g = Grid(rng, h, w)
    z = integer(smooth(rng, h, w, int(rng.choice([0, 1, 2, 4, 5, 5])))) if rng.random() < .85 else D.island(rng, h, w)
    v = int(np.abs(z).max())
    lev = float(max(1, int(v * rng.uniform(.05, .6)))) * float(rng.choice([-1, 1]))
    mid = np.floor(g.lon0 + g.dx * w / 2)
    to = float(rng.choice([0, 180, -180, 360, 90, 719, -45, float(rng.integers(-400, 400))]))      # where its middle goes
    g2 = Grid(rng, h, w, g.dx, g.dy, g.lon0 + to - mid, g.lat0)
    crit = dict(CRIT) if rng.random() < .8 else D.random_crit(rng)
    c = dict(id=id, kind='shift', shift=float(to - mid), exc='', contours=[], extra=0)

    def go(G):
        T = tracker(G.dataset(z), crit=crit, skip=True)
        return T.time_tracking(0, 1, np.array([lev]))
    a, e1 = attempt(lambda: go(g), 120)
    b, e2 = attempt(lambda: go(g2), 120)
    c['exc'] = e1 or e2 or ''
    if c['exc']:
        return c
    tabs = []
    for df, G in ((a, g), (b, g2)):
        m = {}
        for _, t in groups(df):
            p = G.index(np.stack([np.asarray(t['contour_path_x'], float), np.asarray(t['contour_path_y'], float)], axis=1))
            m[np.round(p * 1000).astype(int).tobytes()] = entry(t, G)
        tabs.append(m)
    X, Y = np.meshgrid(g.lon, g.lat)
    seen = set()
    for p in D.extract_contours(X, Y, np.array(z, float), lev)[0]:
        p = np.asarray(p)
        if len(p) < 2 or not np.array_equal(p[0], p[-1]) or not np.isfinite(p).all() or (p == p[0]).all():
            continue
        k, m = D.candidate(p, g, crit)
        idx = g.index(p)
        key = np.round(idx * 1000).astype(int).tobytes()
        seen.add(key)
        tie = bool((np.abs(idx - np.floor(idx) - .5) < 1e-9).any())
        sure = m['fit'] == 'ok' and all(abs(q['m'] - q['t']) > q['s'] for q in k['gates'].values()) and not k['near_first']
        zero = tie and bool((z == 0).any())
        empty = dict.fromkeys(['area', 'radius', 'ecc', 'sim', 'cx', 'cy', 'sign', 'ext', 'i', 'j', 'a', 'b'], 0)
        c['contours'].append(dict(sure=bool(sure and not zero), tie=tie, fit=m['fit'] == 'ok', one=key in tabs[0], two=key in tabs[1],
                                  a=tabs[0].get(key, empty), b=tabs[1].get(key, empty)))
    c['extra'] = len([q for m in tabs for q in m if q not in seen])
    return c


def run(job):
    global FOLDER
    FOLDER = os.path.join(job['scratch'], 'stored')
    rng = np.random.default_rng(job['seed'])
    out = []
    for n in range(job['n']):
        id = '%s%d.%d' % (job['mode'], job['seed'], n)
        if job['mode'] == 'store':
            nt = 1 + n % 2
            out += store_cases(rng, id, job['layouts'][nt - 1], nt, job['each'], job.get('gaussian', False))
        else:
            out.append(shift_case(rng, id))
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
