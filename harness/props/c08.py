from harness.props import _tracking


def run(chk):
    _tracking.run(chk, 'C08', ('catalogue', 'real'), design=[('Catalogue', 'Catalogue3')])
