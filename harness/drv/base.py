"""Common part of the drivers, which run inside the repository's interpreter against the scratch build."""
import contextlib, io, json, os, signal, sys, traceback, warnings
warnings.filterwarnings('ignore')
LIB = os.environ['TRACKEDDY_LIB']
sys.path.insert(0, LIB)
import numpy as np
import trackeddy
assert os.path.realpath(trackeddy.__file__).startswith(os.path.realpath(LIB)), trackeddy.__file__


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


class Timed:
    """Budget (s) for one call of the code under test; raises Timeout inside it."""
    def __init__(self, s): self.s = s
    def __enter__(self): signal.alarm(int(self.s))
    def __exit__(self, *a): signal.alarm(0)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def attempt(f, budget=60):
    """(result, None) or (None, description of the failure)."""
    try:
        with Timed(budget):
            return quiet(f), None
    except Timeout:
        return None, 'timeout after %ss' % budget
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return None, '%s: %s @%s' % (type(e).__name__, str(e)[:120], tb[-1].name)


def main(run):
    job = json.load(open(sys.argv[1]))
    res = run(job)
    json.dump(res, open(sys.argv[2], 'w'), default=conv)


def conv(o):
    if isinstance(o, (np.integer,)): return int(o)
    if isinstance(o, (np.floating,)): return float(o)
    if isinstance(o, np.bool_): return bool(o)
    if isinstance(o, np.ndarray): return o.tolist()
    raise TypeError(type(o))
