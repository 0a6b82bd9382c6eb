from harness.props import _tracking


def run(chk):
    _tracking.run(chk, 'C07', ('catalogue', 'real'), design=[('Catalogue', 'Catalogue'), ('Catalogue', 'Catalogue3')])
