from harness.props import _detect


def run(chk):
    _detect.run(chk, 'C03', 90, 3, design=[('Cascade', 'Cascade')])
