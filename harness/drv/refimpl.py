"""Reference measurements, written from their definitions and independent of the code under test at run time."""
import numpy as np

R_EARTH = 6378.137


def rossby(lat):
    c = 0.15
    return 200 * np.exp(-(lat ** 2) / 2 * c ** 2) + 60 * np.exp(-(lat ** 2) / 40 * c ** 2)


def sphere_area(path):
    """Area (km2) enclosed by a closed lon/lat path: line integral of sin(lat) dlon."""
    lon, lat = np.radians(path[:, 0]), np.radians(path[:, 1])
    return abs(np.sum(np.diff(lon) * (np.sin(lat[1:]) + np.sin(lat[:-1])) / 2)) * R_EARTH ** 2


def quad_area(path):
    """The same area by the midpoint rule in polar coordinates around a point 90 degrees away. It converges to the
    exact one for fine paths; the difference is the discretisation error that is tolerated in recorded areas."""
    lon, lat = np.radians(path[:, 0] - path[:, 0].mean() + 90), np.radians(path[:, 1])
    colat = np.arccos(np.clip(np.cos(lat) * np.cos(lon), -1, 1))
    az = np.unwrap(np.arctan2(np.cos(lat) * np.sin(lon), np.sin(lat)))
    return abs(np.sum((1 - np.cos((colat[1:] + colat[:-1]) / 2)) * np.diff(az))) * R_EARTH ** 2


def ellipse(path):
    """Least squares conic around the centroid -> (outline with as many points as the path, major, minor, angle).

    Raises LinAlgError if the points do not determine a conic."""
    x, y = path[:, 0], path[:, 1]
    mx, my = x.mean(), y.mean()
    u, v = x - mx, y - my
    M = np.stack([u * u, u * v, v * v, u, v], axis=1)
    A = M.T @ M
    cond = np.linalg.cond(A)
    a, b, c, d, e = np.linalg.solve(A.T, M.sum(axis=0))
    ang = 0 if (b == 0 and a < c) else np.pi / 2 if (b == 0 and c < a) else np.arctan((c - a - np.sqrt((a - c) ** 2 + b ** 2)) / b)
    phi = 0.0
    if min(abs(b / a), abs(b / c)) > 1e-3:
        phi = 0.5 * np.arctan(b / (c - a))
    co, si = np.cos(phi), np.sin(phi)
    if phi != 0.0 or min(abs(b / a), abs(b / c)) > 1e-3:
        a, c, d, e = (a * co ** 2 - b * co * si + c * si ** 2, a * si ** 2 + b * co * si + c * co ** 2, d * co - e * si, d * si + e * co)
        mx, my = co * mx - si * my, si * mx + co * my
    X0, Y0 = mx - d / 2 / a, my - e / 2 / c
    F = 1 + d * d / (4 * a) + e * e / (4 * c)
    ra, rb = np.sqrt(abs(F / a)), np.sqrt(abs(F / c))
    t = np.linspace(0, 2 * np.pi, len(y))
    ex, ey = X0 + ra * np.cos(t), Y0 + rb * np.sin(t)
    out = np.stack([co * ex + si * ey, -si * ex + co * ey], axis=1)
    return out, max(ra, rb), min(ra, rb), ang, cond


def frechet(P, Q):
    P, Q = (P, Q) if len(P) >= len(Q) else (Q, P)
    k = 2
    while len(P) > 300 and len(Q) > 300:
        P, Q = P[::k], Q[::k]
        k += 1
    D = np.sqrt(((P[:, None, :] - Q[None, :, :]) ** 2).sum(axis=2))
    C = np.empty_like(D)
    C[0] = np.maximum.accumulate(D[0])
    for i in range(1, len(P)):
        row, prev = C[i], C[i - 1]
        row[0] = max(prev[0], D[i, 0])
        m = np.minimum(prev[1:], prev[:-1])
        for j in range(1, len(Q)):
            row[j] = max(min(m[j - 1], row[j - 1]), D[i, j])
    return C[-1, -1]


def length(P):
    return np.sqrt((np.diff(P, axis=0) ** 2).sum(axis=1)).sum()


def similarity(P, Q):
    return max(1 - frechet(P, Q) / (np.sqrt(length(P) * length(Q)) / np.sqrt(2)), 0)


def haversine(lat1, lon1, lat2, lon2, radius=6371.0):
    p1, p2 = np.radians(lat1), np.radians(lat2)
    h = np.sin((p2 - p1) / 2) ** 2 + np.cos(p1) * np.cos(p2) * np.sin(np.radians(lon2 - lon1) / 2) ** 2
    return 2 * radius * np.arcsin(np.sqrt(h))


def gauss_surface(X, Y, amp, xo, yo, sx, sy, th):
    a = np.cos(th) ** 2 / (2 * sx ** 2) + np.sin(th) ** 2 / (2 * sy ** 2)
    b = np.sin(2 * th) / (4 * sx ** 2) - np.sin(2 * th) / (4 * sy ** 2)
    c = np.sin(th) ** 2 / (2 * sx ** 2) + np.cos(th) ** 2 / (2 * sy ** 2)
    return amp * np.exp(-(a * (X - xo) ** 2 + 2 * b * (X - xo) * (Y - yo) + c * (Y - yo) ** 2))
