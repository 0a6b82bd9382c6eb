from harness.props import _tracking


def run(chk):
    _tracking.run(chk, 'C13', ('tracks', 'real'), design=[('Tracks', 'TracksLong')])
