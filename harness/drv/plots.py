"""Pictures of detections."""
from fields import *
import detect as D
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.colors import to_hex

LABELS = {'Fail eccentricity': 'eccentricity', 'Area fail': 'area', 'Contour != ellipse': 'similarity', 'Ellipse area fail': 'ellipse_area',
          'Eddy is island': 'eddy_is_island', 'Gaussian fit failed': 'gaussian_fit_failed', 'Contour != Gaussian': 'gaussian_check'}


def pts(x, y):
    """A path in millionths; a point repeated is one point."""
    q = np.round(np.stack([np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))], axis=1) * 1e6).astype(int)
    return q[:1].tolist() if (q == q[0]).all() else q.tolist()


def same_field(ax, z):
    for m in ax.collections:
        a = np.ma.filled(np.ma.asarray(m.get_array(), dtype=float), np.nan).ravel()
        if a.shape == z.ravel().shape and np.array_equal(a, z.ravel(), equal_nan=True):
            return True
    return False


def panel(ax, z, key):
    marks, legend = {}, []
    for l in ax.lines:
        c = to_hex(l.get_color())
        if str(l.get_label()).startswith('_'):
            m = [pts(l.get_xdata(), l.get_ydata()), c]
            marks[str(m)] = m
        else:
            legend.append([key(l.get_label()), c])
    return dict(marks=list(marks.values()), legend=legend, field=same_field(ax, z))


def frames(*dfs):
    return [d.copy(deep=True) if hasattr(d, 'copy') and len(d) else None for d in dfs]


def equal(a, b):
    return all((x is None and not len(y)) or (x is not None and x.equals(y)) for x, y in zip(a, b))


def case(rng, id):
    easy = rng.random() < .6
    g, z = D.make(rng, (12, 26), 5 if easy else None)
    while not np.isfinite(z).any():
        g, z = D.make(rng, (10, 26))
    unit = float(rng.choice([1, 1, D.PREC, 2. ** -8, 2. ** -34]))
    T = tracker(g.dataset(z * unit), crit=dict(D.random_crit(rng), max_area=1000., ellipse_fit=.99) if easy else dict(D.random_crit(rng), max_area=float(rng.choice([.5, 6, 1000]))))
    T.skip_gaussian_fit = True
    load(T)
    kind = str(rng.choice(['levels', 'level']))
    c = dict(id=id, kind=kind, exc='', cats=[], panels=[], changed=False)
    keep, field = None, T.data2track.values.copy()
    try:
        if kind == 'levels':
            levels = np.array(D.levels_of(rng, z, int(rng.integers(1, 7))) or [500], float) * unit
            if rng.random() < .1:
                levels = levels[:1] + 9999
            r = quiet(lambda: T._detect_snapshot(None, levels))
            for q in [] if r.empty else r.level.unique():
                assert q in levels
            number = {} if r.empty else {float(q): n + 1 for n, q in enumerate(r.level.unique())}
            c['cats'] = [[[pts(t['contour_path_x'], t['contour_path_y']), number[float(t['level'].iloc[0])]] for _, t in groups(r)]]
            key = lambda s: number.get(float(s), 0)
            call, keep = (lambda: T.plot_eddy_detection_multilevel(r)), frames(r)
            now = (r,)
        else:
            lev = float((D.levels_of(rng, z, 1) or [3])[0]) * unit if rng.random() < .9 else 9999.
            i, d = quiet(lambda: T._detect_one_level(lev))
            a = [[pts(t['contour_path_x'], t['contour_path_y']), 1] for _, t in groups(i)] + [[pts(t['contour_x'].iloc[0], t['contour_y'].iloc[0]), 2] for _, t in groups(i)]
            b = [[pts(d.iloc[n]['contour_x'], d.iloc[n]['contour_y']), str(d.iloc[n]['reason']).replace('ellipse_fit_failed', 'similarity')] for n in range(len(d))]
            c['cats'] = [a, b]
            key = lambda s: LABELS.get(str(s), str(s))
            args = {} if rng.random() < .6 else dict(markersize=int(rng.integers(1, 9)))
            call, keep = (lambda: T.plot_eddy_detection_in_level(i, d, **args)), frames(i, d)
            now = (i, d)
    except Exception:
        return None             # not about pictures
    plt.close('all')
    try:
        _, c['exc'] = attempt(call, 60)
        if not c['exc']:
            c['exc'] = ''
            c['panels'] = [panel(ax, field, key) for ax in plt.gcf().axes if ax.collections]
            c['changed'] = not equal(keep, now) or not np.array_equal(field, T.data2track.values, equal_nan=True)
    finally:
        plt.close('all')
    return c


def run(job):
    rng = np.random.default_rng(job['seed'])
    cases = [case(rng, 'p%d.%d' % (job['seed'], n)) for n in range(job['n'])]
    return dict(cases=[c for c in cases if c])


if __name__ == '__main__':
    main(run)
