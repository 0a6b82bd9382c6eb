from harness.props import _tracking


def run(chk):
    _tracking.run(chk, 'C09', ('tracks', 'real'), design=[('Tracks', 'Tracks')])
