from harness.props import _detect


def run(chk):
    _detect.run(chk, 'C23', 90, 4)
