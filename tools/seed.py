"""
Make and confirm the planted bugs of /verif/seeded.  No check uses this.

  seed.py make SPEC.py [id ...]   write seeded/<id>/ from a list BUGS of dicts (id, property, edits, needs, what_it_breaks, demo)
  seed.py verify [id ...]         confirm patch, demo and stable tests of each bug in a scratch copy
  seed.py check [id ...]          run the quick check of the property of each bug against a scratch copy that has it

Scratch copies live under /tmp/seedwork and are removed again.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')
WORK = '/tmp/seedwork'
BASE = '99d9a56'
PY = '/opt/venv/bin/python'
PREAMBLE = '''import os, sys, shutil, tempfile, subprocess, atexit
sys.path.insert(0, os.getcwd())
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
from bathygrid.convenience import create_grid, load_grid, is_bathygrid

TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)


def pts(x, y, z, tvu=None, thu=None, dtype=np.float64):
    names, cols = ['x', 'y', 'z'], [x, y, z]
    if tvu is not None:
        names, cols = names + ['tvu'], cols + [tvu]
    if thu is not None:
        names, cols = names + ['thu'], cols + [thu]
    cols = [np.atleast_1d(np.asarray(c, dtype=dtype)) for c in cols]
    out = np.empty(cols[0].size, dtype=[(n, dtype) for n in names])
    for n, c in zip(names, cols):
        out[n] = c
    return out


def add(grid, data, name='c', **kw):
    kw.setdefault('crs', 26917)
    kw.setdefault('vertical_reference', 'waterline')
    grid.add_points(data, name, ['%s.all' % name], progress_bar=False, **kw)


def rand(n, x0, x1, y0, y1, seed=0, z0=10.0, z1=30.0):
    r = np.random.RandomState(seed)
    return pts(r.uniform(x0, x1, n), r.uniform(y0, y1, n), r.uniform(z0, z1, n), r.uniform(0.1, 1, n), r.uniform(0.1, 1, n))


def leaves(grid):
    out = []
    if grid.tiles is not None:
        for t in grid.tiles.flat:
            if t:
                out += leaves(t) if hasattr(t, 'tiles') else [t]
    return out


def arr(a):
    return np.array(a)


'''


def spec(path):
    ns = {}
    exec(compile(open(path).read(), path, 'exec'), ns)
    return ns['BUGS']


def copy(name):
    dest = os.path.join(WORK, name)
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    subprocess.run(['cp', '-a', os.environ.get('SEED_REPO', '/repo'), dest], check=True)
    return dest


def make(bug):
    dest = copy('make_' + bug['id'])
    for fil, old, new in bug['edits']:
        p = os.path.join(dest, 'bathygrid', fil)
        text = open(p, newline='').read()
        crlf = '\r\n' in text
        if crlf:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if text.count(old) != 1:
            print(bug['id'], 'EDIT MATCHES', text.count(old), 'times:', old[:80])
            shutil.rmtree(dest)
            return
        open(p, 'w', newline='').write(text.replace(old, new))
    diff = subprocess.run(['git', 'diff', '-U3'], cwd=dest, capture_output=True).stdout
    shutil.rmtree(dest)
    out = os.path.join(SEEDED, bug['id'])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
    with open(os.path.join(out, 'demo.py'), 'w') as f:
        f.write(PREAMBLE + bug['demo'].strip() + '\nprint("ok")\n')
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PROJ_NETWORK=OFF\n%sexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' % bug.get('env', ''))
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['what_it_breaks']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)


def original_lines(patch):
    """every line the patch takes away is a line of the base commit, and there is one"""
    old, fil, removed = 0, None, 0
    blame = {}
    for line in open(patch, errors='replace'):
        if line.startswith('--- a/'):
            fil = line[6:].strip()
            blame[fil] = [b.split()[0].lstrip('^') for b in subprocess.run(['git', '-C', os.environ.get('SEED_REPO', '/repo'), 'blame', '-s', 'HEAD', '--', fil], capture_output=True, text=True).stdout.splitlines()]
        elif line.startswith('@@'):
            old = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            if not blame[fil][old - 1].startswith(BASE[:7]):
                return False
            removed += 1
            old += 1
        elif line.startswith(' '):
            old += 1
    return removed > 0


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PROJ_NETWORK='OFF', TZ='UTC')
    return e


def verify(bid):
    d = os.path.join(SEEDED, bid)
    out = {'id': bid, 'original': original_lines(os.path.join(d, 'patch.diff'))}
    dest = copy('v_' + bid)
    try:
        demo = lambda: subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=dest, env=env(), capture_output=True, text=True, timeout=280)
        r = demo()
        out['clean'] = r.returncode
        if r.returncode:
            out['clean_err'] = (r.stdout + r.stderr)[-600:]
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=dest, capture_output=True, text=True)
        out['apply'] = r.returncode
        r = demo()
        out['bug'] = r.returncode
        out['bug_err'] = (r.stdout + r.stderr).strip().splitlines()[-1:]
        xml = os.path.join(dest, 'o.xml')
        subprocess.run([PY, '-m', 'pytest', 'tests', '-q', '-x' if '--x' in sys.argv else '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + xml],
                       cwd=dest, env=env(), capture_output=True, timeout=900)
        bad = []
        for c in ET.parse(xml).getroot().iter('testcase'):
            if c.find('failure') is not None or c.find('error') is not None:
                bad.append(c.get('name'))
        out['tests'] = [b for b in bad if b not in ('test_nb_cube', 'test_SRGrid_grid_cube')]
        out['good'] = out['original'] and out['clean'] == 0 and out['apply'] == 0 and out['bug'] != 0 and not out['tests']
    finally:
        shutil.rmtree(dest, ignore_errors=True)
    return out


def check(bid, prop=None):
    d = os.path.join(SEEDED, bid)
    prop = prop or json.load(open(os.path.join(d, 'meta.json')))['property']
    dest = copy('c_' + bid)
    try:
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=dest, check=True)
        e = env()
        e.update(BGMON_REPO=dest, VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run([PY, os.path.join(VERIF, 'check.py'), prop], cwd=VERIF, env=e, capture_output=True, text=True, timeout=900)
        lines = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'KNOWN'))]
        return {'id': bid, 'property': prop, 'exit': r.returncode, 'caught': r.returncode == 1, 'line': lines[:1], 'tail': (r.stdout + r.stderr)[-900:]}
    finally:
        shutil.rmtree(dest, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if args[0] == 'make':
        for b in spec(args[1]):
            if len(args) == 2 or b['id'] in args[2:]:
                make(b)
    else:
        ids = args[1:] or sorted(os.listdir(SEEDED))
        n = int(os.environ.get('SEED_JOBS') or (7 if args[0] == 'verify' else 2))
        with ThreadPoolExecutor(n) as ex:
            for out in ex.map(verify if args[0] == 'verify' else check, ids):
                if args[0] == 'verify':
                    print('GOOD' if out.get('good') else 'BAD ', json.dumps(out), flush=True)
                else:
                    print('CAUGHT' if out['caught'] else 'MISSED', out['id'], out['property'], out['exit'], out['line'] or out['tail'], flush=True)
