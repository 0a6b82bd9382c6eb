"""Records of eddies with any selection of properties, and histories of the registries of stored and discarded eddies."""
from base import *
from trackeddy.eddy import Eddy

WIDTH = dict(ellipse_params=3, contour_center=2, eddy_maxima=3, gaussian_params=5)
SCALARS = ['identifier', 'level', 'area_eddy', 'radius_eddy', 'contour_ellipse_error', 'ellipse_eccen', 'eddy_sign', 'contour_gaussian_error']


def values(rng, n, fitted):
    v = {p: [int(rng.integers(-50, 50))] for p in SCALARS}
    for p, k in WIDTH.items():
        if p != 'gaussian_params' or fitted:
            v[p] = [int(q) for q in rng.integers(-90, 90, k)]
    v['contour'] = [[int(a), int(b)] for a, b in rng.integers(-90, 90, (n, 2))]
    return v


def eddy(v, rng):
    e = Eddy(np.array(v['contour'], float), float(v['level'][0]))
    for p, q in v.items():
        if p in ('contour', 'level'):
            continue
        if p == 'eddy_maxima':
            a = np.array(q, float)[:, None] if rng.random() < .8 else np.array(q, float)
        elif p in WIDTH:
            a = np.array(q, float)
        else:
            a = [float(q[0]), np.array(float(q[0])), np.array([float(q[0])])][int(rng.integers(0, 3))]
        setattr(e, p, a)
    return e


def ints(a):
    return [int(x) if float(x) == int(x) else -9999 for x in np.atleast_1d(np.asarray(a, float))]


def number(c):
    try:
        return ints(c)
    except (TypeError, ValueError):
        return [-99999]


def record(rng, id, sel):
    n = int(rng.choice([2, 3, 4, 7]))
    v = values(rng, n, rng.random() < .7)
    e = eddy(v, rng)
    sel = [sel[int(k)] for k in rng.permutation(len(sel))]
    unknown = rng.random() < .1
    scalar = rng.random() < .1
    ask = list(sel)
    if sel and unknown:
        setattr(e, 'velocity', rng.normal(size=int(rng.choice([2, 3, 4, 5, 9]))))
        ask.insert(int(rng.integers(0, len(ask) + 1)), 'velocity')
    elif sel and scalar:
        v['vorticity'] = [int(rng.integers(0, 99))]
        e.vorticity = np.array(float(v['vorticity'][0]))
        ask.append('vorticity')
        sel = ask
    c = dict(id=id, kind='record', sel=sel, eddy=v, unknown=bool(unknown and sel), exc='', cols={}, tabled=False, table={}, index=[])
    try:
        d = quiet(e.to_dict, *([ask] if ask or rng.random() < .5 else []))
        c['cols'] = {k: number(q) for k, q in d.items()}
        if not ask or 'contour' in ask:
            t = quiet(e.to_table, *([ask] if ask else []))
            c['tabled'] = True
            c['table'] = {k: number(t[k].values) for k in t.columns if k != 'index'}
            c['index'] = ints(t['index'].values)
    except Exception as x:
        c['exc'] = type(x).__name__
    if not c['cols']:
        c['cols'] = {'none': [0]} if c['exc'] else {}
    if not c['table']:
        c['table'] = {'none': [0]}
    return c


def history(rng, id, ops):
    size = sorted({o[1] for o in ops})
    top = max(size)
    vals = [values(rng, k + 1, rng.random() < .7) for k in range(1, top + 1)]
    for k, v in enumerate(vals):
        v['area_eddy'] = [1000 + k + 1]            # tells them apart
    objs = [eddy(v, rng) for v in vals]
    c = dict(id=id, kind='history', ops=ops, size=[k + 1 for k in range(1, top + 1)], seen=[], exc='')
    try:
        Eddy(None, 0.).exit()
        for op, k, why in ops:
            o = objs[k - 1] if rng.random() < .7 else eddy(vals[k - 1], rng)
            seen = []
            if op == 'exit':
                o.exit()
            elif op == 'store':
                t = o.store()
                for n in range(len(t)):
                    r = t.iloc[n]
                    who, p = int(r['area_eddy']) - 1000, int(r['index'])
                    v = vals[who - 1]
                    ok = 0 <= p < len(v['contour']) and [r['contour_path_x'], r['contour_path_y']] == v['contour'][p] and all(
                        r[q] == v[q][0] for q in ('level', 'radius_eddy', 'eddy_sign', 'ellipse_eccen')) and r['maxima'] == v['eddy_maxima'][0]
                    seen.append([int(r['identifier']), p, who, bool(ok)])
            else:
                t = o.discarded(why) if rng.random() < .5 else o.discarded(reason=why)
                for n in range(len(t)):
                    r = t.iloc[n]
                    who = int(r['area_eddy']) - 1000
                    v = vals[who - 1]
                    ok = r['contour_x'] == v['contour_center'][0] and r['contour_y'] == v['contour_center'][1] and r['level'] == v['level'][0] and r['radius_eddy'] == v['radius_eddy'][0]
                    seen.append([int(t.index[n]), str(r['reason']), who, bool(ok)])
            c['seen'].append(seen)
        Eddy(None, 0.).exit()
    except Exception as x:
        c['exc'] = '%s: %s' % (type(x).__name__, x)
    return c


def run(job):
    rng = np.random.default_rng(job['seed'])
    out = [record(rng, 's%d.%d' % (job['seed'], k), list(s)) for k, s in enumerate(job['selections'])]
    out += [history(rng, 'h%d.%d' % (job['seed'], k), h) for k, h in enumerate(job['histories'])]
    return dict(cases=out)


if __name__ == '__main__':
    main(run)
