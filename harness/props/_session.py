"""Checks decided on sessions (specification Session): several objects, settings and failures in one process."""
import os
from harness.props._tracking import split


def run(chk, prop):
    d = chk.design(('Session', 'Session'))
    hist = chk.simulate('Session', 'SessionSim', 2000 if chk.thorough else 240, 15)
    chk.build()
    cases = [c for o in chk.drive('session', [dict(seed=chk.seed * 100 + n, histories=q) for n, q in enumerate(split(hist, 16))]) for c in o['cases']]
    os.environ['PROP'] = prop
    chk.judge('TraceSession', cases)
    chk.design_wait(d)
    steps = [e for c in cases for e in c['steps']]
    chk.extra.update(histories=len(cases), operations=len(steps), compared_with_fresh_process=sum(e['checked'] for e in steps), repeated=sum(e['again'] for e in steps),
                     with_eddies=sum(e['r']['n'] > 0 for e in steps), with_discarded=sum(e['r']['nd'] > 0 for e in steps), failures=sum(e['op'] == 'fail' for e in steps))
    chk.samples = [dict(id=c['id'], ops=c['ops']) for c in cases[:3]]
    chk.assumptions = ['failures are injected through criteria that fail when looked up; results are compared to the precision of the arithmetic',
                       'which snapshot stays loaded after tracking is not specified']
