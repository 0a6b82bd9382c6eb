"""Checks decided on recorded detections at one level (specification TraceDetect)."""
import os


def run(chk, prop, n_plain, n_gauss=0, design=(), fitted=False):
    d = chk.design(*design) if design else []
    chk.build()
    T = chk.thorough
    jobs = [dict(seed=chk.seed * 1000 + s, n=n_plain * (8 if T else 1)) for s in range(16)]
    if n_plain:
        jobs = [dict(seed=chk.seed * 1000 + 700 + s, n=8 if T else 2, large=True) for s in range(8)] + jobs
    if n_gauss:
        jobs = [dict(seed=chk.seed * 1000 + 500 + s, n=n_gauss * (6 if T else 1), gaussian=True, fitted=fitted) for s in range(8)] + jobs
    cases = [c for o in chk.drive('detect', jobs) for c in o['cases']]
    os.environ['PROP'] = prop
    chk.judge('TraceDetect', cases)
    if d:
        chk.design_wait(d)
    ident = sum(len(c.get('ident', [])) for c in cases)
    reasons = {}
    for c in cases:
        for r in c.get('disc', []):
            reasons[r['reason']] = reasons.get(r['reason'], 0) + 1
    chk.extra.update(detections=len(cases), closed_contours=sum(len(c.get('cands', [])) for c in cases), identified=ident, discarded=reasons,
                     with_gaussian=sum(1 for c in cases if c.get('gaussian')), fields_with_missing=sum(1 for c in cases if any(99999 in r for r in c.get('f', {}).get('z', []))))
    chk.samples = [dict(id=c['id'], level=c['f']['l'], identified=c['ident'][:1], discarded=c['disc'][:2]) for c in cases if c.get('ident')][3:5]
    chk.assumptions = ['fields take integer values with neighbours differing by at most 15 and coordinates are exact in binary, so positions are exact in the specification',
                       'verdicts of the area and ellipse tests come from reference measurements; contours too close to a criterion to tell are accepted either way']
    return cases
