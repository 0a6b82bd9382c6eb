from harness.props import _tracking


def run(chk):
    _tracking.run(chk, 'C10', ('tracks', 'real'), design=[('Tracks', 'TracksWide' if chk.thorough else 'Tracks')])
