from harness.props import _detect, c19


def run(chk):
    _detect.run(chk, 'C18', 90, 0, design=[('Filters', 'Filters')])
    c19.judge(chk, 'C18', .9, 8)
