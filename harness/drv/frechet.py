"""Curve distances and similarity scores of integer curves."""
from base import *
from trackeddy.geometry import frdist, compute_similarity


def walk(rng, n, kind):
    """n points: a lattice walk, random points, or points with repetitions."""
    if kind == 'rect':            # axis aligned steps, so that lengths are integers
        p = [list(map(int, rng.integers(0, 6, 2)))]
        for _ in range(n - 1):
            a = int(rng.integers(0, 2))
            q = list(p[-1])
            q[a] += int(rng.integers(-3, 4))
            p.append(q)
        return p
    p = rng.integers(-8, 9, (n, 2)) if kind == 'free' else np.cumsum(rng.integers(-2, 3, (n, 2)), axis=0)
    if rng.random() < .3 and n > 1:
        p = p[np.sort(rng.integers(0, n, n))]
    return [[int(a), int(b)] for a, b in p]


def inside(rng, p):
    """A curve close to p: with points repeated, moved or removed."""
    q = [list(v) for v in p]
    for _ in range(int(rng.integers(0, 4))):
        k = int(rng.integers(len(q)))
        a = rng.random()
        if a < .5:
            q.insert(k, list(q[k]))
        elif a < .8:
            q[k] = [q[k][0] + int(rng.integers(-1, 2)), q[k][1] + int(rng.integers(-1, 2))]
        elif len(q) > 1:
            q.pop(k)
    return q


def form(rng, p):
    """Curves are arrays, of integers or floats, or lists."""
    a = int(rng.integers(0, 3))
    return np.array(p, float) if a < 2 else np.array(p)


def root(v):
    s = float(v) ** 2
    return int(round(s)) if abs(s - round(s)) < 1e-6 * (1 + s) else -1


def run(job):
    rng = np.random.default_rng(job['seed'])
    out = []
    for n in range(job['n']):
        id = '%s%d.%d' % (job['mode'], job['seed'], n)
        if job['mode'] == 'exact':
            big = rng.random() < job.get('big', .02)
            a, b = (int(v) for v in (rng.integers(60, 130, 2) if big else rng.integers(1, 13, 2)))
            p = walk(rng, a, str(rng.choice(['free', 'walk'])))
            q = walk(rng, b, str(rng.choice(['free', 'walk']))) if rng.random() < .6 else inside(rng, p)
            c = dict(id=id, kind='exact', p=p, q=q, exc='', f2=-1, f2r=-1)
            r, exc = attempt(lambda: (frdist(form(rng, p), form(rng, q)), frdist(form(rng, q), form(rng, p))), 120)
            if exc:
                c['exc'] = exc
            else:
                c['f2'], c['f2r'] = root(r[0]), root(r[1])
        elif job['mode'] == 'limit':
            a, b = job['lens'][n % len(job['lens'])]
            p, q = walk(rng, a, 'walk'), walk(rng, b, 'walk')
            c = dict(id=id, kind='exact', p=p, q=q, exc='', f2=-1, f2r=-1)
            r, exc = attempt(lambda: (frdist(np.array(p), np.array(q)), frdist(np.array(q), np.array(p))), 120)
            if exc:
                c['exc'] = exc
            else:
                c['f2'], c['f2r'] = root(r[0]), root(r[1])
        elif job['mode'] == 'long':
            a, b = (int(v) for v in rng.integers(301, 1400, 2))
            if rng.random() < .3:
                b = int(rng.integers(2, 299))
            t = np.linspace(0, 2 * np.pi, a)
            p = np.stack([3 * np.cos(t), 2 * np.sin(t)], axis=1)
            t = np.linspace(0, 2 * np.pi, b) + rng.normal() * .2
            q = np.stack([3 * np.cos(t) + rng.normal() * .3, 2 * np.sin(t)], axis=1)
            c = dict(id=id, kind='long', sizes=[a, b], exc='', finite=False, bounds=False, symmetric=False)
            r, exc = attempt(lambda: (float(frdist(p, q)), float(frdist(q, p))), 200)
            if exc:
                c['exc'] = exc
            else:
                D = np.sqrt(((p[:, None] - q[None]) ** 2).sum(axis=2))
                c.update(finite=bool(np.isfinite(r[0])), bounds=bool(D[0, 0] - 1e-9 <= r[0] <= D.max() + 1e-9), symmetric=bool(abs(r[0] - r[1]) < 1e-9) or a == b)
        else:
            a, b = (int(v) for v in rng.integers(2, 12, 2))
            p = walk(rng, a, 'rect')
            same = rng.random() < .1
            q = [list(v) for v in p] if same else walk(rng, b, 'rect')
            if not same and rng.random() < .6:      # something similar: the same walk with extra points or a shift
                s = rng.integers(-1, 2, 2)
                q = [[int(v[0] + s[0]), int(v[1] + s[1])] for v in p]
                if rng.random() < .5:
                    q.insert(int(rng.integers(len(q))), list(q[0])) if False else q.append(list(q[-1]))
            ln = lambda s: sum(abs(u[0] - v[0]) + abs(u[1] - v[1]) for u, v in zip(s, s[1:]))
            if ln(p) == 0 or ln(q) == 0:
                continue
            P, Q = form(rng, p), form(rng, q)
            sh = rng.integers(-50, 50, 2)
            k = float(rng.choice([2, .5, 8]))
            c = dict(id=id, kind='score', p=p, q=q, same=bool(same), exc='', s=-1, sr=-1, moved=-1, scaled=-1, rounded=False)
            r, exc = attempt(lambda: [float(compute_similarity(u, v)) for u, v in ((P, Q), (Q, P), (P + sh, Q + sh), (P * k, Q * k))], 60)
            if exc:
                c['exc'] = exc
            else:
                v = [x * 10000 for x in r]
                c['rounded'] = all(abs(x - round(x)) < 1e-6 for x in v)
                c['s'], c['sr'], c['moved'], c['scaled'] = (int(round(x)) for x in v)
        out.append(c)
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
