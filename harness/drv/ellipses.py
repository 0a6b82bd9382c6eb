"""Ellipses fitted to vertices on exact ellipses, and to contours that are moved and scaled."""
from base import *
from trackeddy.geometry import fit_ellipse

M = 1000000


def units(k):
    return [[m, n, k] for m in range(-k, k + 1) for n in range(-k, k + 1) if m * m + n * n == k * k]


def vertices(e, u):
    m, n, k = u
    return [e['cx'] * e['h'] * k + e['A'] * e['p'] * m - e['B'] * e['q'] * n, e['cy'] * e['h'] * k + e['A'] * e['q'] * m + e['B'] * e['p'] * n]


def big(v):
    return int(min(2e9, max(-2e9, round(float(v))))) if np.isfinite(v) else 2 * 10 ** 9


def exact(rng, id, e, k):
    u = sorted(units(k), key=lambda c: np.arctan2(c[1], c[0]))
    if rng.random() < .5:
        u = u[::-1]
    s = int(rng.integers(len(u)))
    u = u[s:] + u[:s]
    # without up to a third of the vertices (at least 8 stay), and closed or not
    drop = set(rng.choice(len(u), int(rng.integers(0, len(u) // 3 + 1)), replace=False).tolist())
    u = [c for n, c in enumerate(u) if n not in drop]
    if rng.random() < .6:
        u = u + [u[0]]
    pts = [vertices(e, c) for c in u]
    c = dict(id=id, kind='exact', exc='', e=e, k=k, unit=u, pts=pts, obs={})
    f = float(rng.choice([1, .125, .5, 4]))                              # unit of the coordinates
    P = np.array(pts, float) * f
    r, exc = attempt(lambda: fit_ellipse(P[:, 0], P[:, 1]), 30)
    if exc:
        c['exc'] = exc
        return c
    o, (a, b, th) = np.asarray(r[0], float) / f, r[1]
    S = e['h'] * k
    d = o - [e['cx'] * S, e['cy'] * S]
    v = (e['p'] * d[:, 0] + e['q'] * d[:, 1]) / e['h'] / (e['A'] * S), (e['p'] * d[:, 1] - e['q'] * d[:, 0]) / e['h'] / (e['B'] * S)
    c['obs'] = dict(a=big(1000 * a / f), b=big(1000 * b / f), dir=[big(M * np.cos(th)), big(M * np.sin(th))],
                    c=[big(1000 * q) for q in (o.max(0) + o.min(0)) / 2 * 0 + o[:-1].mean(0)], n=len(o), finite=bool(np.isfinite([a, b, th]).all() and np.isfinite(o).all()),
                    outline=big(M * np.abs(v[0] ** 2 + v[1] ** 2 - 1).max()))
    return c


def conic(P):
    """Condition of the fit, and whether the best conic is an ellipse by a good margin."""
    q = P - P.mean(0)
    q = q / np.abs(q).max()
    D = np.array([q[:, 0] ** 2, q[:, 0] * q[:, 1], q[:, 1] ** 2, q[:, 0], q[:, 1]]).T
    s = np.linalg.svd(D, compute_uv=False)
    a, b, c, d, e = np.linalg.lstsq(D, np.ones(len(q)), rcond=None)[0]
    w = np.linalg.eigvalsh([[a, b / 2], [b / 2, c]])
    F = 1 + (np.array([d, e]) @ np.linalg.solve([[a, b / 2], [b / 2, c]], [d, e])) / 4
    # the direction means something, the ellipse isn't a circle, and its tilt isn't neglected in one fit only
    tilt = min(abs(b / a), abs(b / c))
    return s[-1] / s[0] > 1e-4 and w.min() > .02 * w.max() and F > 0, bool(w.max() > 1.02 * w.min()), bool(abs(tilt - 1e-3) > 1e-6), tilt


def moved(rng, id):
    n = int(rng.integers(7, 60))
    t = np.linspace(0, 2 * np.pi, n, endpoint=False) + rng.uniform(0, 6)
    r = 1 + sum(rng.uniform(-.12, .12) * np.cos(m * t + rng.uniform(0, 6)) for m in (2, 3, 4, 5))
    A, B, th = rng.uniform(1, 3), 1., rng.uniform(0, np.pi)
    u, v = A * r * np.cos(t), B * r * np.sin(t)
    P = np.stack([u * np.cos(th) - v * np.sin(th), u * np.sin(th) + v * np.cos(th)], 1) * float(rng.choice([.2, 1, 30])) + rng.uniform(-170, 170, 2)
    P = np.vstack([P, P[:1]])
    s, d = float(rng.choice([.25, 1, 2, 3.7])), rng.uniform(-100, 100, 2)
    Q = P * s + d
    c = dict(id=id, kind='moved', exc='', sure=False, finite=False, order=False, axes=[], direction=[], centre=[], outline=[], shape=0)
    x, exc = attempt(lambda: (fit_ellipse(P[:, 0], P[:, 1]), fit_ellipse(Q[:, 0], Q[:, 1])), 30)
    if exc:
        c['exc'] = exc
        return c
    (o1, p1), (o2, p2) = [(np.asarray(q[0], float), np.asarray(q[1], float)) for q in x]
    good, elongated, clear, tilt = conic(P)
    # far away from the origin of the coordinates the fit loses precision
    good = good and clear and np.ptp(P, 0).max() > 1e-3 * np.abs(P).max() and np.ptp(Q, 0).max() > 1e-3 * np.abs(Q).max()
    c['finite'] = bool(not good or all(np.isfinite(q).all() for q in (o1, p1, o2, p2)))
    c['order'] = bool(p1[0] < p1[1] * (1 - 1e-9) or p2[0] < p2[1] * (1 - 1e-9))
    c['sure'] = bool(good)
    if good:
        z = p1[0]
        c['axes'] = [big(M * (p2[k] / s - p1[k]) / p1[k]) for k in (0, 1)]
        c['direction'] = [big(M * (np.cos(p1[2]) * np.sin(p2[2]) - np.sin(p1[2]) * np.cos(p2[2])))] if elongated else []
        c['centre'] = [big(M * q / z) for q in (o2[:-1].mean(0) - d) / s - o1[:-1].mean(0)]
        c['outline'] = [big(M * np.abs((o2 - d) / s - o1).max() / z)]
        w = o1 - o1[:-1].mean(0)
        k = p1[2] if elongated else 0
        u, v = w[:, 0] * np.cos(k) + w[:, 1] * np.sin(k), w[:, 1] * np.cos(k) - w[:, 0] * np.sin(k)
        c['shape'] = big(M * np.abs((u / p1[0]) ** 2 + (v / p1[1]) ** 2 - 1).max()) if elongated and tilt > 1e-3 else 0
    return c


def run(job):
    rng = np.random.default_rng(job['seed'])
    out = []
    for n, e in enumerate(job['ellipses']):
        for r in range(job['each']):
            out.append(exact(rng, 'e%d.%d.%d' % (job['seed'], n, r), e, 5))
    extra = [(12, 5, 13), (5, 12, 13), (12, -5, 13), (15, 8, 17), (40, 9, 41)]
    for n in range(job['n']):
        p, q, h = extra[int(rng.integers(len(extra)))]
        A = int(rng.integers(2, 5))
        e = dict(A=A, B=int(rng.integers(1, A + 1)), p=p, q=q, h=h, cx=int(rng.integers(-40, 40)), cy=int(rng.integers(-40, 40)))
        if A * A * e['B'] ** 2 * h ** 4 * 25 < 2 ** 31:
            out.append(exact(rng, 'x%d.%d' % (job['seed'], n), e, 5))
        out.append(moved(rng, 'm%d.%d' % (job['seed'], n)))
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
