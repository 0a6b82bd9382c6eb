"""Checks decided on tracking histories (specifications Tracks, Catalogue and TraceTracks)."""
import os


def split(seq, n):
    return [seq[k::n] for k in range(n) if seq[k::n]]


def run(chk, prop, kinds, design=()):
    T = chk.thorough
    d = chk.design(*design) if design else []
    chk.build()
    jobs = []
    s0 = chk.seed * 1000
    if 'real' in kinds:
        jobs += [dict(mode='real', seed=s0 + 300 + s, n=2 * (6 if T else 1), gaussian=True) for s in range(8)]
        jobs += [dict(mode='real', seed=s0 + 200 + s, n=10 * (6 if T else 1)) for s in range(8)]
    if 'tracks' in kinds:
        h = chk.simulate('Tracks', 'TracksSim', 6000 if T else 500, 7)
        jobs += [dict(mode='tracks', seed=s0 + k, histories=q) for k, q in enumerate(split(h, 8))]
        jobs += [dict(mode='random_tracks', seed=s0 + 100 + s, n=1000 if T else 60, long=T) for s in range(8)]
    if 'catalogue' in kinds:
        h = chk.simulate('Catalogue', 'CatalogueSim', 8000 if T else 800, 6)
        jobs += [dict(mode='catalogue', seed=s0 + k, histories=q) for k, q in enumerate(split(h, 8))]
        jobs += [dict(mode='random_catalogue', seed=s0 + 100 + s, n=1000 if T else 70) for s in range(8)]
    if 'offline' in kinds:
        h = split(chk.simulate('Storage', 'StorageSim', 6000 if T else 600, 40), 8)
        jobs += [dict(mode='offline', seed=s0 + 400 + s, n=600 if T else 50, histories=h[s]) for s in range(8)]
    outs = chk.drive('tracking', jobs)
    cases = [c for o in outs for c in o['cases']]
    want = 'tracks' if 'tracks' in kinds else 'catalogue' if 'catalogue' in kinds else 'offline'
    cases = [c for c in cases if c['kind'] in (want, 'crash') or want == 'offline' and c['kind'] == 'storage']
    os.environ['PROP'] = prop
    chk.judge('TraceTracks', cases)
    if d:
        chk.design_wait(d)
    chk.extra.update(histories=len(cases), plan_honoured=all(o.get('honoured', True) for o in outs),
                     detections=sum(len(c.get('rad', [])) for c in cases), observed_groups=sum(len(c.get('obs', [])) for c in cases))
    if want == 'tracks':
        chk.extra.update(tracks=sum(max([o[0] for o in c['obs']] or [0]) for c in cases),
                         histories_with_empty_steps=sum(1 for c in cases if [] in c['steps']),
                         histories_with_missed_steps=sum(1 for c in cases if missed(c)), prefix_runs=sum(1 for c in cases if c.get('tf2') != 99999))
    if want == 'offline':
        o = [q for c in cases if c['kind'] == 'storage' for q in c['seen']]
        chk.extra.update(runs=len(o), interrupted=sum(q['outcome'] == 'stopped' for q in o), unknown_formats=sum(q['outcome'] == 'format' for q in o), files=sum(len(q['files']) for q in o))
    if want == 'catalogue':
        chk.extra.update(merged=sum(1 for c in cases if len(c['obs']) < sum(map(len, c['levels']))))
    chk.samples = [{q: c[q] for q in c if q not in ('dist',)} for c in cases if len(c.get('obs', c.get('files', c.get('ops')))) > 2][:2]
    chk.assumptions = ['distances are compared in tens of metres: matches closer than 20 m to a limit are accepted either way',
                       'planned detections replace TrackEddy._detect_one_level in a subclass; merge, tracking and storage are the real code, and real fields run everything']
    return cases


def missed(c):
    by = {}
    for o in c['obs']:
        by.setdefault(o[0], []).append(o[1])
    return any(max(b - a for a, b in zip(sorted(v), sorted(v)[1:])) > 1 for v in by.values() if len(v) > 1)
