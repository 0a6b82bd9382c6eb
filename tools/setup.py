"""Nothing to build ahead: every check compiles its own copy of /repo. Verifies that the tools are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from harness.common import Check, JARS, PY
c = Check('setup')
c.build()
r = subprocess.run(['java', '-version'], capture_output=True)
c.close()
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
sys.exit(0 if r.returncode == 0 and all(os.path.exists(j) for j in JARS.split(':')) and os.path.exists(PY) else 1)
