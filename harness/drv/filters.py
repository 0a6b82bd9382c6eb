"""Filtered fields, with missing values, layouts and histories of filters."""
from fields import *
import hashlib
NA = 99999


def enc(v):
    return NA if np.isnan(v) else int(np.clip(round(float(v) * 10000), -2 * 10 ** 8, 2 * 10 ** 8))


def field(rng, missing):
    h, w = (int(v) for v in rng.integers(2, 14, 2))
    z = rng.integers(-9, 10, (h, w)).astype(float)
    if rng.random() < .2:
        z += rng.integers(-9, 10, (h, 1))
    if missing:
        z[rng.random((h, w)) < rng.choice([.05, .3])] = np.nan
        if rng.random() < .2:
            z[int(rng.integers(h)), :] = np.nan
        if rng.random() < .2:
            z[:, int(rng.integers(w))] = np.nan
    return z


def one(id, rng, missing):
    z = field(rng, missing)
    h, w = z.shape
    T = int(rng.integers(1, 5))
    last = int(rng.integers(T))
    data = np.stack([z if t == last else rng.integers(-9, 10, (h, w)).astype(float) for t in range(T)])
    if missing and rng.random() < .5:       # missing values at other times too
        data[(rng.random(data.shape) < .1) & (rng.random((T, 1, 1)) < .5)] = np.nan
    order = list(rng.permutation(['time', 'lat', 'lon']))
    ds = xr.Dataset({'ssh': (('time', 'lat', 'lon'), data)}, coords=dict(lon=10. + np.arange(w), lat=np.arange(float(h)), time=times(T, h + w))).transpose(*order)
    if rng.random() < .3:
        ds['ssh'] = ds['ssh'].astype(np.float32 if np.isnan(data).any() or rng.random() < .5 else np.int64)
    fill = bool(rng.random() < .5) if missing else bool(rng.random() < .2)
    X = tracker(ds, filter='space', nan_treatment=fill)
    own, out = X.S_filter_setup, []
    for step in range(int(rng.integers(1, 5))):
        f = str(rng.choice(['meridional', 'zonal', 'convolution', 'none', 'convolution']))
        kernel = int(rng.integers(1, 12))
        if f == 'none':
            X.filter = None
        else:
            X.filter = 'space'
            X.S_filter_setup = dict(filter_type=f, kernel=kernel) if rng.random() < .5 else dict(filter_type=f, mode='uniform', kernel=kernel)
            if f != 'convolution' and rng.random() < .5:
                X.S_filter_setup = dict(filter_type=f)
            if rng.random() < .3:                # in place, and then that of another object
                X.S_filter_setup, new = own, X.S_filter_setup
                own.clear()
                own.update(new)
                other = tracker(ds, filter='space')
                other.S_filter_setup.update(filter_type='zonal' if f == 'meridional' else 'meridional', kernel=3)
        t = last if rng.random() < .5 else int(rng.integers(T))
        z = data[t]
        c = dict(id='%s/%d' % (id, step), kind='field', z=[[NA if np.isnan(v) else int(v) for v in r] for r in z], filter=f, kernel=kernel, fill=fill, exc='', obs=[], input_same=True)
        before = ds['ssh'].values.copy()
        if rng.random() < .5:
            snap = X.rawdata.isel(time=t)
            _, exc = attempt(lambda: X._filter_data_(snap, filter=X.filter), 30)
        else:
            _, exc = attempt(lambda: X.time_tracking(t, t + 1, np.array([1000.])), 30)
        if exc:
            c['exc'] = exc
        else:
            d = X.data2track.squeeze()
            d = d.expand_dims([q for q in ('lat', 'lon') if q not in d.dims]).transpose('lat', 'lon').values
            c['obs'] = [[enc(v) for v in r] for r in d]
            c['input_same'] = bool(np.array_equal(before, ds['ssh'].values, equal_nan=True))
        out.append(c)
    return out


def unknown(id, rng):
    X = tracker(xr.Dataset({'ssh': (('lat', 'lon'), field(rng, False)[:2, :2])}, coords=dict(lat=[0., 1], lon=[0., 1])), filter='space')
    X.S_filter_setup = dict(filter_type=str(rng.choice(['gaussian', 'Zonal', 'both', 'mean', ''])))
    _, exc = attempt(lambda: X._filter_data_(X.rawdata, filter='space'), 10)
    return dict(id=id, kind='unknown', rejected=bool(exc and exc.startswith('ValueError')))


def digest(X, levels, n):
    r, exc = attempt(lambda: X.time_tracking(0, n, levels), 120)
    if exc:
        return 'raised ' + exc
    if r.empty:
        return 'empty'
    f = r.reset_index()
    h = hashlib.sha1()
    for q in sorted(f.columns):
        h.update(q.encode())
        h.update(str(list(map(str, f[q].values))).encode())
    return '%d %s' % (f['identifier'].nunique(), h.hexdigest())


def filled(id, rng):
    h, w = (int(v) for v in rng.integers(12, 30, 2))
    g = Grid(rng, h, w)
    z = smooth(rng, h, w)
    z[rng.random((h, w)) < rng.choice([.01, .1])] = np.nan
    if rng.random() < .5:
        a, b = int(rng.integers(0, h - 4)), int(rng.integers(0, w - 4))
        z[a:a + 4, b:b + 4] = np.nan
    frames = [z]
    for _ in range(int(rng.choice([0, 1, 2]))):         # other times, with other missing values or none
        q = smooth(rng, h, w)
        q[rng.random((h, w)) < rng.choice([0, .01, .05])] = np.nan
        frames.insert(int(rng.integers(len(frames) + 1)), q)
    z = np.stack(frames)
    filt = None if rng.random() < .4 else 'space'
    setup = dict(filter_type=str(rng.choice(['meridional', 'zonal', 'convolution'])), kernel=int(rng.integers(3, 12)))
    got = []
    for data, treat in ((z, True), (np.nan_to_num(z), False)):
        X = tracker(g.dataset(data), crit=PERMISSIVE, filter=filt, nan_treatment=treat)
        X.S_filter_setup = dict(setup)
        got.append(digest(X, np.array([.2, -.2, .5]), len(z)))
    return dict(id=id, kind='filled', filled=got[0], zeros=got[1])


def run(job):
    rng = np.random.default_rng(job['seed'])
    out = []
    for k in range(job['n']):
        id = 'f%d.%d' % (job['seed'], k)
        if job['mode'] == 'fields':
            out += one(id, rng, rng.random() < job.get('missing', .5))
            if k % 10 == 0:
                out.append(unknown(id + 'u', rng))
        else:
            out.append(filled(id, rng))
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
