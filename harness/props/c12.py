from harness.props import _tracking


def run(chk):
    _tracking.run(chk, 'C12', ('tracks', 'real'), design=[('Tracks', 'Tracks'), ('Tracks', 'TracksLong')])
