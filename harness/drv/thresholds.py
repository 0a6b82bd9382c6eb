"""Detections with criteria set exactly at, just below and just above recorded measurements."""
from detect import *


def table(ident):
    out = {}
    for gid, t in groups(ident):
        p = np.stack([np.asarray(t['contour_path_x'], float), np.asarray(t['contour_path_y'], float)], axis=1)
        out[p.tobytes()] = t.iloc[0]
    return out


def detect(T, lev, budget=120):
    return attempt(lambda: T._detect_one_level(float(lev)), budget)


def outcome(T, lev, key, row):
    """What became of one contour: identified, the reason given, or lost."""
    res, exc = detect(T, lev)
    if exc:
        return 'raised ' + exc
    ident, disc = res
    if key in table(ident):
        return 'identified'
    if len(disc):
        d = np.abs(disc['contour_x'].astype(float) - float(row['contour_x'])) + np.abs(disc['contour_y'].astype(float) - float(row['contour_y'])) + \
            np.abs(disc['radius_eddy'].astype(float) - float(row['radius_eddy']))
        k = int(np.nanargmin(d.values)) if np.isfinite(d.values).any() else 0
        if d.values[k] < 1e-9:
            return str(disc['reason'].iloc[k])
    return 'lost'


def run(job):
    rng = np.random.default_rng(job['seed'])
    out = []
    gaussian = job.get('gaussian', False)
    for n in range(job['n']):
        g, z = make(rng, (10, 20) if gaussian else (12, 30))
        id = 't%d.%d' % (job['seed'], n)
        loose = dict(PERMISSIVE)
        T = tracker(g.dataset(z), crit=loose, skip=not gaussian)
        load(T)
        for lev in levels_of(rng, z, 1 if gaussian else 2):
            base, exc = detect(T, lev)
            if exc:
                out.append(dict(id=id, kind='exact', gate='area', m=0, t=0, outcome='raised ' + exc))
                continue
            rows = table(base[0])
            keys = list(rows)
            rng.shuffle(keys)
            for key in keys[:2 if gaussian else 4]:
                row = rows[key]
                p = np.frombuffer(key).reshape(-1, 2)
                m = measures(p, loose)
                tests = []
                e = float(row['ellipse_eccen'])
                tests += [('eccentricity', 'eccentricity', e, v) for v in (e, np.nextafter(e, 0), np.nextafter(e, 1))]
                s = float(row['contour_ellipse_error'])
                if 'ea' in m and s > 0:
                    A, B = float(row['area_eddy']), m['ea2']
                    if max(abs(A - B), abs(A - m['ea']), abs(m['area'] - B)) / B < .085 * s:
                        tests += [('ellipse_fit', 'similarity', s, v) for v in (s, np.nextafter(s, 0), np.nextafter(s, 1))]
                r = float(row['radius_eddy'])
                ma = r / ref.rossby(float(row['contour_y']))
                tests += [('max_area', 'area', ma, v) for v in (ma * (1 + 1e-9), ma * (1 - 1e-9))]
                if gaussian:
                    q = float(row['contour_gaussian_error'])
                    tests += [('gaussian_fit', 'gaussian_check', q, v) for v in (q, np.nextafter(q, 0), np.nextafter(q, 1))]
                else:
                    tests += [('gaussian_fit', 'none', 0., 1.)]
                for name, gate_, a, t in tests:
                    if name == 'max_area' and not np.isfinite(t):
                        continue
                    how = int(rng.integers(0, 4))
                    if how == 0:                       # in place
                        T.identification_criteria[name] = t
                        U = T
                    elif how == 1:                     # replaced
                        T.identification_criteria = dict(loose, **{name: t})
                        U = T
                    elif how == 2:                     # in place, and then those of yet another object
                        U, V = (tracker(g.dataset(z), skip=not gaussian) for _ in range(2))
                        U.identification_criteria.update(loose, **{name: t})
                        V.identification_criteria.update(random_crit(rng))
                        load(U)
                    else:                              # another object, whose criteria are its own
                        U = tracker(g.dataset(z), crit=dict(loose, **{name: t}), skip=not gaussian)
                        load(U)
                    o = outcome(U, lev, key, row)
                    T.identification_criteria = dict(loose)
                    out.append(dict(id='%s@%d/%s%+d/%d' % (id, lev, name, cmpf(t, a), how), kind='exact', gate=gate_, m=1, t=1 + cmpf(t, a), outcome=o,
                                    value=repr(a), criterion=repr(float(t))))
            # loosening
            for _ in range(2):
                c1, c2 = random_crit(rng), random_crit(rng)
                lo = {k: (max if k == 'gaussian_fit' else min)(c1[k], c2[k]) for k in c1}
                one = str(rng.choice(list(c1)))
                hi = dict(lo)
                hi[one] = (min if one == 'gaussian_fit' else max)(c1[one], c2[one])
                got = []
                for c in (lo, hi):
                    T.identification_criteria = dict(c)
                    res, exc = detect(T, lev)
                    got.append(None if exc else sorted(table(res[0])))
                T.identification_criteria = dict(loose)
                if None in got:
                    continue
                ids = {k: i for i, k in enumerate(sorted(set(got[0] + got[1])))}
                if one == 'ellipse_fit':
                    pass                               # a larger ellipse_fit loosens both the area and the score test
                out.append(dict(id='%s@%d/mono-%s' % (id, lev, one), kind='mono', tight=[ids[k] for k in got[0]], loose=[ids[k] for k in got[1]]))
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
