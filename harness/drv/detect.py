"""Records complete detections at one level: field, criteria, identified and discarded eddies, reference measures."""
from fields import *
import refimpl as ref
from trackeddy.geometry import extract_contours
NA, SC, UNIT = 99999, 720720, 720


def enc(v):
    if not np.isfinite(v):
        return NA
    s = float(v) * SC
    return int(round(s)) if abs(s - round(s)) < 2e-4 else int(round(s)) * 2 + 7


def sc(v, k, cap=10 ** 9):
    return NA if not np.isfinite(v) else int(max(-cap, min(cap, round(float(v) * k))))


def cmpf(a, b):
    return 0 if a == b else (1 if a > b else -1)


def gate(m, t, slack):
    """A measurement and its criterion in the same integer unit."""
    return dict(m=m, t=t, s=slack)


def measures(path, crit):
    """Reference measurements of a closed finite path; None entries are not reproducible."""
    A = ref.sphere_area(path)
    out = dict(area=A, area2=ref.quad_area(path), radius=np.sqrt(A / np.pi), rd=ref.rossby(path[:, 1].mean()), ell=None, fit='ok')
    try:
        e = ref.ellipse(path)
        rng = np.random.default_rng(7)
        jit = [ref.ellipse(path + rng.normal(size=path.shape) * 1e-10 * np.ptp(path, axis=0).max()) for _ in range(2)]
        out['ea'], out['ea2'] = ref.sphere_area(e[0]), ref.quad_area(e[0])
        with np.errstate(all='ignore'):
            out['ecc'] = np.sqrt(1 - e[2] ** 2 / e[1] ** 2)
        out['outline'] = e[0]
        span = np.ptp(path, axis=0).max()
        stable = (e[4] < 1e12 and np.isfinite(e[0]).all() and np.ptp(e[0], axis=0).max() < 40 and
                  all(np.allclose(e[0], j[0], atol=1e-4 * span) for j in jit))
        out['fit'] = 'ok' if stable else 'unstable'
        out['sim'] = ref.similarity(path, e[0]) if stable and len(path) <= 300 else np.nan        # longer curves are thinned, in a way that is not specified
    except np.linalg.LinAlgError:
        out['fit'] = 'singular'
    return out


def candidate(path, g, crit):
    idx = g.index(path)
    deg = bool(np.allclose(np.mean(path, axis=0), path[0], equal_nan=True))
    m = measures(path, crit)
    k = dict(path=[[enc(a), enc(b)] for a, b in idx], near_first=deg)
    big = 10 ** 9
    gates = {'area': gate(sc(m['radius'], 1000), sc(crit['max_area'] * m['rd'], 1000), sc(m['radius'], 2) + sc(1.3 * abs(np.sqrt(m['area2'] / np.pi) - m['radius']), 1000) + 2)}
    if m['fit'] == 'ok':
        gates['ellipse_fit_failed'] = gate(0, 1, 0)
        rel = abs(m['area'] - m['ea']) / m['ea'] if m['ea'] else np.inf
        rel2 = abs(m['area2'] - m['ea2']) / m['ea2'] if m['ea2'] else np.inf
        gates['ellipse_area'] = gate(sc(rel, 1e6), sc(.1 * crit['ellipse_fit'], 1e6), 2000 + sc(.01 * rel + 1.3 * abs(rel2 - rel), 1e6))
        gates['eccentricity'] = gate(sc(m['ecc'], 1e6), sc(crit['eccentricity'], 1e6), 200)
        gates['similarity'] = gate(sc(m['sim'], 1e6), sc(crit['ellipse_fit'], 1e6), 200) if len(path) <= 300 else gate(0, 0, big)
    else:
        for n in ('ellipse_fit_failed', 'ellipse_area', 'eccentricity', 'similarity'):
            gates[n] = gate(0, 0, big)
    k['gates'] = gates
    k['radius'] = sc(m['radius'], 1000)
    k['centre'] = [sc(v, SC / UNIT) for v in g.at(*path.mean(axis=0))]
    return k, m


def record(id, z, lev, g, T, crit, gaussian=False, budget=120, truth=None, unit=1.):
    """Detect at one level with T (already loaded with field z times unit, with few bits) and write down everything that is observable."""
    f = dict(w=g.w, h=g.h, l=int(lev), x=list(range(1, g.w + 1)), y=list(range(1, g.h + 1)),
             z=[[NA if np.isnan(v) else int(v) for v in row] for row in z])
    c = dict(id=id, f=f, skipg=not gaussian, exc='', cands=[], ident=[], disc=[], gaussian=gaussian, isolated=bool(truth))
    res, exc = attempt(lambda: T._detect_one_level(lev * unit), budget)
    if exc:
        c['exc'] = exc
        return c
    X, Y = g.X, g.Y
    raw, exc = attempt(lambda: extract_contours(X, Y, np.array(z, float) * unit, lev * unit)[0], 20)
    if exc:
        c['exc'] = exc
        return c
    full = []
    for p in raw:
        p = np.asarray(p)
        if len(p) > 1 and np.array_equal(p[0], p[-1]):          # closed and starts at a finite vertex
            if np.isfinite(p).all() and np.ptp(g.index(p), axis=0).max() > 1e-9:
                k, m = candidate(p, g, crit)
                full.append((p, k, m))
    c['cands'] = [k for _, k, _ in full]
    ident, disc = res
    paths = {p.tobytes(): n for n, (p, _, _) in enumerate(full)}
    for gid, t in groups(ident):
        p = np.stack([np.asarray(t['contour_path_x'], float), np.asarray(t['contour_path_y'], float)], axis=1)
        n = paths.get(p.tobytes(), -1)
        idx = g.index(p)
        one = t.iloc[0]
        col = lambda q: float(one[q])
        const = all(len(set(map(str, t[q]))) == 1 for q in t.columns if q not in ('contour_path_x', 'contour_path_y', 'index'))
        gx, gy = g.at(col('maxima_x'), col('maxima_y')) - 1
        ongrid = abs(gx - round(gx)) < 1e-6 and abs(gy - round(gy)) < 1e-6 and 0 <= round(gx) < g.w and 0 <= round(gy) < g.h
        mx = col('maxima') / unit
        numeric = [q for q in t.columns if q not in ('contour_path_x', 'contour_path_y')]
        fin = all(np.isfinite(float(one[q])) for q in numeric if one[q] is not None) and bool(np.isfinite(p).all())
        a, b = col('ellipse_params_a'), col('ellipse_params_b')
        r = dict(ident=int(gid[0] if isinstance(gid, tuple) else gid), cand=n + 1, path=[[enc(u), enc(v)] for u, v in idx],
                 index_ok=list(t.index.get_level_values('index')) == list(range(len(t))), const=const, finite=fin,
                 level=1 if col('level') == lev * unit else 0, sign=int(col('eddy_sign')) if col('eddy_sign') in (-1., 0., 1.) else 9,
                 ext=int(mx) if mx == int(mx) else NA, i=int(round(gx)) + 1 if ongrid else 0, j=int(round(gy)) + 1 if ongrid else 0,
                 area=sc(col('area_eddy'), 1), radius=sc(col('radius_eddy'), 1000), radius_area=sc(np.sqrt(col('area_eddy') / np.pi), 1000),
                 centre=[sc(v, SC / UNIT) for v in g.at(col('contour_x'), col('contour_y'))],
                 ecc=sc(col('ellipse_eccen'), 1e6), ecc_ab=sc(np.sqrt(max(0., 1 - (b / a) ** 2)), 1e6), axes=1 if a >= b >= 0 else 0,
                 sim=sc(col('contour_ellipse_error'), 1e4), gauss=sc(col('contour_gaussian_error'), 1e4),
                 ref_area=NA, area_s=0, ref_sim=NA, ref_ab=[NA, NA], ab=[sc(a / g.dx, 1e4), sc(b / g.dx, 1e4)], ref_gauss=NA,
                 ecmp=cmpf(col('ellipse_eccen'), crit['eccentricity']), scmp=cmpf(col('contour_ellipse_error'), crit['ellipse_fit']),
                 gcmp=cmpf(col('contour_gaussian_error'), crit['gaussian_fit']))
        if n >= 0:
            m = full[n][2]
            r['ref_area'] = sc(m['area'], 1)
            r['area_s'] = sc(1.3 * abs(m['area'] - m['area2']) + .002 * m['area'] + 2, 1)
            if m['fit'] == 'ok':
                r['ref_sim'] = sc(m['sim'], 1e4)
                e = ref.ellipse(p)
                r['ref_ab'] = [sc(e[1] / g.dx, 1e4), sc(e[2] / g.dx, 1e4)]
            if gaussian:
                r['ref_gauss'] = gauss_score(p, one, X, Y, g, lev)
        if gaussian:
            th, ga = col('ellipse_params_theta'), [col('gaussian_params_' + q) for q in ('x', 'y', 'sigma_x', 'sigma_y', 'theta')]
            # centre in grid spacings from the extreme; widths over those of the ellipse; angle (and that of the ellipse) in millionths
            r['fitg'] = dict(c=[sc((ga[0] - col('maxima_x')) / g.dx, 1e6), sc((ga[1] - col('maxima_y')) / g.dy, 1e6)], s=[sc(ga[2] / a, 1e6), sc(ga[3] / b, 1e6)], th=sc(ga[4], 1e6), eth=sc(th, 1e6))
            r['truth'] = []
            if truth:           # centre off in millionths of a spacing, widths over the true ones, orientation off (modulo pi), amplitude off
                cx, cy, s1, s2, tth, amp = truth
                off = (ga[4] - tth + np.pi / 2) % np.pi - np.pi / 2
                r['truth'] = [sc((ga[0] - cx) / g.dx, 1e6), sc((ga[1] - cy) / g.dy, 1e6), sc(ga[2] / s1, 1e6), sc(ga[3] / s2, 1e6), sc(off if s1 > 1.25 * s2 else 0, 1e6), sc(mx - amp, 1e3)]
        c['ident'].append(r)
    if len(disc):
        used = set()
        for k in range(len(disc)):
            row = disc.iloc[k]
            cx, cy = float(row['contour_x']), float(row['contour_y'])
            best, bd = -1, None
            for n, (p, _, m) in enumerate(full):
                if n in used:
                    continue
                d = abs(p[:, 0].mean() - cx) + abs(p[:, 1].mean() - cy) + abs(np.sqrt(m['area2'] / np.pi) - float(row['radius_eddy'])) / 111
                if bd is None or d < bd:
                    best, bd = n, d
            near = bd is not None and bd < .02 * g.dx
            if near:
                used.add(best)
            c['disc'].append(dict(id=int(disc.index[k]), reason=str(row['reason']), cand=best + 1 if near else 0, finite=bool(np.isfinite([cx, cy, float(row['radius_eddy'])]).all()),
                                  level=1 if float(row['level']) == lev * unit else 0, radius=sc(row['radius_eddy'], 1000), zero=1 if float(row.get('maxima', np.nan)) == 0 else 0,
                                  ecmp=cmpf(float(row['ellipse_eccen']), crit['eccentricity']), scmp=cmpf(float(row['contour_ellipse_error']), crit['ellipse_fit']),
                                  gcmp=cmpf(float(row['contour_gaussian_error']), crit['gaussian_fit'])))
    return c


def gauss_score(p, one, X, Y, g, lev):
    """Score of the recorded path against the contour of the recorded Gaussian, when it does not depend on the fitting window."""
    amp, xo, yo = float(one['maxima']), float(one['gaussian_params_x']), float(one['gaussian_params_y'])
    sx, sy, th = (float(one['gaussian_params_' + q]) for q in ('sigma_x', 'sigma_y', 'theta'))
    G = ref.gauss_surface(X, Y, amp, xo, yo, sx, sy, th)
    cs = [np.asarray(q) for q in extract_contours(X, Y, G, float(lev))[0]]
    if len(cs) != 1 or not np.array_equal(cs[0][0], cs[0][-1]):
        return NA
    q = cs[0]
    p0, q0 = g.index(p), g.index(q)
    if (q0.min(axis=0) < p0.min(axis=0) - 2.2).any() or (q0.max(axis=0) > p0.max(axis=0) + 2.2).any():
        return NA
    return sc(ref.similarity(p, q), 1e4)


def random_crit(rng):
    d = dict(ellipse_fit=.85, eccentricity=.85, gaussian_fit=.8, max_area=2 * np.pi)
    k = rng.integers(0, 6)
    if k == 1:
        d = dict(PERMISSIVE)
    elif k == 2:
        d = dict(ellipse_fit=float(rng.choice([.6, .66, .7, .9])), eccentricity=float(rng.choice([.5, .7, .95])),
                 gaussian_fit=float(rng.choice([.3, .8, .95])), max_area=float(rng.choice([.3, 3., 30., 1000.])))
    elif k == 3:
        d['max_area'] = float(rng.choice([.05, .2, .5, 20.]))
    elif k == 4:
        d = dict(ellipse_fit=float(rng.choice([.95, .99])), eccentricity=.95, gaussian_fit=.5, max_area=1000.)
    elif k == 5:
        d['max_area'] = 100.
    return d


def island(rng, h, w):
    """Zero valued islands in a one signed field."""
    z = np.full((h, w), -float(rng.integers(4, 15))) * rng.choice([-1, 1])
    for _ in range(rng.integers(1, 4)):
        r = rng.uniform(1, 4)
        cx, cy = rng.uniform(3, w - 3), rng.uniform(3, h - 3)
        J, I = np.mgrid[0:h, 0:w]
        z[(I - cx) ** 2 + (J - cy) ** 2 <= r * r] = 0
    return z


def make(rng, size=(10, 34), kind=None):
    h, w = (int(v) for v in rng.integers(size[0], size[1], 2))
    place = str(rng.choice(['plain', 'plain', 'plain', 'flip', 'turn'])) if kind is None else 'plain'
    g = Grid(rng, h, w, place=place)
    if kind is None and rng.random() < .12:
        z = island(rng, h, w)
    else:
        z = integer(smooth(rng, h, w, kind))
    if rng.random() < .2:
        z[rng.random((h, w)) < rng.choice([.01, .06])] = np.nan
    return g, z


def big(rng, h, w):
    """One eddy over most of the grid, and small ones on it."""
    J, I = np.mgrid[0:h, 0:w].astype(float)
    r2 = ((I - w / 2 + rng.uniform(-2, 2)) / w) ** 2 + ((J - h / 2 + rng.uniform(-2, 2)) / h) ** 2
    z = np.exp(-r2 / 2 / rng.uniform(.18, .3) ** 2) * float(rng.choice([-1, 1]))
    for _ in range(int(rng.integers(0, 4))):
        z += .1 * rng.normal() * np.exp(-((I - rng.uniform(0, w)) ** 2 + (J - rng.uniform(0, h)) ** 2) / 2 / rng.uniform(1, 4) ** 2)
    return integer(z, int(rng.choice([5, 9, 15])))


def levels_of(rng, z, n):
    v = z[np.isfinite(z)]
    lo, hi = int(v.min()), int(v.max())
    out = set()
    for _ in range(n * 3):
        q = int(rng.integers(lo, hi + 1))
        if rng.random() < .3 or lo == hi:
            q = int(rng.choice([-1, 1]))
        if q != 0:
            out.add(q)
        if len(out) == n:
            break
    return sorted(out)


def isolated(id, rng):
    """One Gaussian alone, centred on the grid, with permissive criteria: the fit has to find it."""
    w, h = (int(v) for v in rng.integers(34, 48, 2))
    g = Grid(rng, h, w, dx=.25, dy=.25)
    X, Y = np.meshgrid(g.lon, g.lat)
    i, j = w // 2 + int(rng.integers(-2, 3)), h // 2 + int(rng.integers(-2, 3))
    cx, cy = g.lon[i], g.lat[j]
    s = rng.uniform(2.5, min(w, h) / 9) * g.dx
    el, th = float(rng.choice([1.02, rng.uniform(1.3, 2)])), rng.uniform(-1.5, 1.5)
    amp = int(rng.choice([-1, 1]) * rng.integers(500, 4000))
    z = np.round(ref.gauss_surface(X, Y, amp, cx, cy, s * el, s, th))
    T = tracker(g.dataset(z), crit=PERMISSIVE, skip=False)
    load(T)
    lev = int(amp * rng.choice([.3, .5, .7]))
    return record('%s@%dG' % (id, lev), z, lev, g, T, PERMISSIVE, True, truth=(cx, cy, s * el, s, th, amp))


def touching(id, rng):
    """An eddy on a fine grid that touches the edge of the domain at one point: the ends of its open contour nearly coincide."""
    w, h = (int(v) for v in rng.integers(12, 20, 2))
    g = Grid(rng, h, w, dx=2. ** -6, dy=2. ** -6, lon0=float(rng.choice([352, 170, -180])))
    J, I = np.mgrid[0:h, 0:w].astype(float)
    r = rng.uniform(2.5, min(w, h) / 2 - 1.5)
    cx = int(rng.integers(np.ceil(r) + 1, w - np.ceil(r) - 1)) if w > 2 * np.ceil(r) + 3 else w // 2
    d2 = (I - cx) ** 2 + (J - r) ** 2
    inside = d2 <= r * r + 1e-9
    lev = int(rng.integers(1, 30))
    z = np.where(inside, lev + 1 + np.floor(12 * np.clip(1 - d2 / r ** 2, 0, 1)), lev - rng.integers(12, 14))
    if rng.random() < .5:
        z = z[::-1].copy()
    s = float(rng.choice([-1, 1]))
    T = tracker(g.dataset(s * z), crit=PERMISSIVE)
    load(T)
    return record('%s@%dT' % (id, s * lev), s * z, int(s * lev), g, T, PERMISSIVE)


def balanced(id, rng):
    """A ring and its core that sum up to nothing, so that the eddy between has no sign."""
    w, h = (int(v) for v in rng.integers(12, 20, 2))
    g = Grid(rng, h, w)
    J, I = np.mgrid[0:h, 0:w].astype(float)
    r = rng.uniform(3, min(w, h) / 2 - 2)
    el = rng.uniform(1, 1.25)
    d = np.hypot((I - w // 2) * el, J - h // 2) / r
    inside = d <= 1
    lev = int(rng.integers(1, 6))
    z = np.where(inside, np.where(d > rng.uniform(.5, .75), lev + 2, lev - 7), lev - 3)
    todo = np.argwhere(inside & (d < .9))
    k = 0
    while z[inside].sum() != 0 and k < 5000:        # nudge the core and the ring until they cancel
        j, i = todo[int(rng.integers(0, len(todo)))]
        v = z[j, i] - np.sign(z[inside].sum())
        if (z[j, i] > 0 and lev < v <= lev + 6) or (z[j, i] < 0 and lev - 8 <= v < 0):
            z[j, i] = v
        k += 1
    s = float(rng.choice([-1, 1]))
    T = tracker(g.dataset(s * z), crit=PERMISSIVE)
    load(T)
    return record('%s@%dB' % (id, s * lev), s * z, int(s * lev), g, T, PERMISSIVE)


def comet(id, rng):
    """A disc with a tail whose extreme is far from the mean of the vertices, over many degrees."""
    r, n = float(rng.uniform(5, 9)), int(rng.integers(12, 20))
    h, w = int(2 * r + 8), int(2 * r + n + 8)
    J, I = np.mgrid[0:h, 0:w].astype(float)
    cy, cx = h // 2, int(r) + 3
    thick = rng.uniform(.8, 1.8)
    end = cx + r + n - 2
    inside = ((I - cx) ** 2 + (J - cy) ** 2 <= r * r) | ((abs(J - cy) <= thick) & (I >= cx) & (I <= end))
    lev = int(rng.integers(1, 30))
    z = np.where(inside, lev + 2 + rng.integers(0, 3, (h, w)), lev - rng.integers(2, 6))
    z[cy, int(end - rng.integers(0, 2))] = lev + 9
    for k in range(2):
        if rng.random() < .5:
            z = np.flip(z, k).copy()
    if rng.random() < .4:
        z = z.T.copy()
    g = Grid(rng, *z.shape, dx=float(rng.choice([.5, 1., 1.])), lon0=float(rng.choice([0, 10, -31])), lat0=float(rng.choice([-20, 0, -8])))
    s = float(rng.choice([-1, 1]))
    crit = dict(ellipse_fit=60., eccentricity=1., gaussian_fit=0., max_area=1e5)
    T = tracker(g.dataset(s * z), crit=crit)
    load(T)
    return record('%s@%dC' % (id, s * lev), s * z, int(s * lev), g, T, crit)


def run(job):
    rng = np.random.default_rng(job['seed'])
    out = []
    for n in range(job['n']):
        gaussian = job.get('gaussian', False)
        g, z = make(rng, (10, 22) if gaussian else (60, 100) if job.get('large') else (10, 34), 5 if job.get('fitted') else None)
        crit = random_crit(rng)
        if job.get('fitted') and rng.random() < .8:      # criteria that let eddies through to the fit and past it
            crit = dict(crit, max_area=1000., ellipse_fit=float(rng.choice([.8, .9, .99])), eccentricity=float(rng.choice([.9, .999])), gaussian_fit=float(rng.choice([0., .3, .6])))
        if job.get('large'):        # contours of hundreds of points, that some criteria accept
            if rng.random() < .6:
                z = big(rng, *z.shape)
            crit = dict(crit, max_area=1e5, ellipse_fit=float(rng.choice([.9, .99])), eccentricity=.99)
        unit = 1. if gaussian else float(rng.choice([1, 1, 2. ** -7, 2. ** -20, 2. ** 9, PREC, PREC, PREC * 2. ** -9]))
        data = z * unit
        if not gaussian and np.log2(unit) % 1 == 0 and rng.random() < .3:      # exact in other types as well
            data = data.astype(np.float32 if unit < 1 or np.isnan(z).any() or rng.random() < .5 else np.int32)
        T = tracker(g.dataset(data), crit=crit, skip=not gaussian)
        load(T)
        if job.get('fitted'):
            out.append(isolated('g%d.%d' % (job['seed'], n), rng))
        if not gaussian and not job.get('large') and n % 12 == 0:
            out.append(touching('t%d.%d' % (job['seed'], n), rng))
            out.append(comet('c%d.%d' % (job['seed'], n), rng))
            out.append(balanced('b%d.%d' % (job['seed'], n), rng))
        for lev in levels_of(rng, z, 1 if gaussian or job.get('large') else 3):
            out.append(record('d%d.%d@%d%s' % (job['seed'], n, lev, 'G' if gaussian else ''), z, lev, g, T, crit, gaussian, unit=unit))
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
