from harness.props import _detect


def run(chk):
    cases = _detect.run(chk, 'C26', 0, n_gauss=24, fitted=True)
    g = [r for c in cases for r in c.get('ident', [])]
    chk.extra.update(isolated=sum(bool(r['truth']) for r in g), fitted=len(g), scored_again=sum(r['ref_gauss'] != 99999 for r in g))
    chk.assumptions = ['uniform grids; the contour of the recorded Gaussian is compared when it is one closed contour inside of the window around the eddy']
