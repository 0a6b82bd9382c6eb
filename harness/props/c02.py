from harness.props import _detect


def run(chk):
    _detect.run(chk, 'C02', 90, 0)
