from harness.props import _session


def run(chk):
    _session.run(chk, "C05")
