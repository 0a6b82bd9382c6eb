from harness.props import _tracking


def run(chk):
    _tracking.run(chk, 'C11', ('tracks', 'real'), design=[('Tracks', 'TracksLong')])
