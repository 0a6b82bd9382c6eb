from harness.props import _tracking


def run(chk):
    _tracking.run(chk, 'C14', ('offline',), design=[('Storage', 'Storage')])
