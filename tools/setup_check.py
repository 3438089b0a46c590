"""setup_cmd: nothing has to be built.  Makes sure that the interpreter, the libraries and the harness are usable offline."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from bgmon import core  # noqa

core.prepare_environment()
core.import_bathygrid()
from bgmon.checks import REGISTRY  # noqa

with open(os.path.join(HERE, 'MANIFEST.json')) as f:
    claimed = [c['property'] for c in json.load(f)['checks']]
missing = [c for c in claimed if c not in REGISTRY]
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('{} checks ready'.format(len(claimed)))
sys.exit(1 if missing else 0)
