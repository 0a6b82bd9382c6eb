from harness.props import _detect


def run(chk):
    _detect.run(chk, 'C06', 90, 2)
