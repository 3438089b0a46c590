"""
Looks for blind spots: samples small changes (operators, constants, conditions, dropped statements) of the package, runs the quick checks against each
in a scratch copy until one of them fails, and lists the changes that none of them notices.  No check uses this.

  mutate.py OUT.jsonl [--n 200] [--seed 1] [--jobs 4] [--cases 40] [--files bgrid.py,tile.py]

Scratch copies live under /tmp/mutwork and are removed again.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SEED_REPO', '/repo')
WORK = '/tmp/mutwork'
PY = '/opt/venv/bin/python'
FILES = ['algorithms.py', 'backends.py', 'bgrid.py', 'convenience.py', 'grids.py', 'maingrid.py', 'tile.py', 'utilities.py', 'grid_variables.py']
ORDER = 'C02 C13 C03 C04 C05 C15 C17 C01 C06 C08 C07 C20 C18 C19 C23 C29 C27 C16 C22 C14 C21 C26 C28 C30 C31 C32 C33 C24 C25 C35 C10 C11 C12 C34 C36 C37 C09'.split()
PREFER = [('plot', 'C32'), ('histogram', 'C32'), ('export', 'C18 C19 C20'), ('_csv', 'C20'), ('bag', 'C19'), ('gdal', 'C18 C19'), ('chunk', 'C17 C18'), ('slope', 'C27'), ('cube', 'C30'), ('neighbor', 'C29 C30'), ('border', 'C29 C30'),
          ('parallel', 'C09'), ('resolution', 'C14'), ('density', 'C14 C06'), ('save', 'C10 C12 C25'), ('load', 'C10 C12'), ('clear', 'C08 C12'), ('extent', 'C02'), ('metadata', 'C23 C22'), ('remove', 'C03 C25'),
          ('values_at', 'C16'), ('trim', 'C15'), ('container', 'C26 C03'), ('mean', 'C04 C06'), ('shoalest', 'C05'), ('create', 'C24'), ('is_bathy', 'C24'), ('surf', 'C15'), ('layers', 'C15'), ('print', 'C23'), ('return_', 'C23 C15')]
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/'}
SKIP = ('trial_', 'print_progress_bar', 'my_unravel')


def mutants(fil):
    text = open(os.path.join(REPO, 'bathygrid', fil), newline='').read()
    lines = text.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    pos = lambda ln, col: starts[ln - 1] + len(lines[ln - 1].encode()[:col].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def put(node, a, b, new, kind, fn):
        out.append(dict(file=fil, a=a, b=b, new=new, old=text[a:b], kind=kind, line=node.lineno, function=fn))

    def visit(node, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = node.name if isinstance(node, ast.FunctionDef) else fn
            if any(s in node.name for s in SKIP):
                return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = span(node.left)[1], span(node.comparators[0])[0]
            new = CMP.get(type(node.ops[0]))
            if new:
                mid = text[a:b]
                core = mid.strip().strip('()').strip()
                if core in ('<', '<=', '>', '>=', '==', '!=', 'in', 'not in', 'is', 'is not'):
                    put(node, a, b, mid.replace(core, new), 'compare', fn)
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            a, b = span(node.left)[1], span(node.right)[0]
            mid = text[a:b]
            core = mid.strip().strip('()').strip()
            if core in ('+', '-', '*', '/', '//'):
                put(node, a, b, mid.replace(core, BIN[type(node.op)]), 'arith', fn)
        if isinstance(node, ast.Constant) and fn:
            a, b = span(node)
            if node.value is True or node.value is False:
                put(node, a, b, str(not node.value), 'const', fn)
            elif isinstance(node.value, int):
                put(node, a, b, str(node.value + 1), 'const', fn)
                if node.value > 0:
                    put(node, a, b, str(node.value - 1), 'const', fn)
            elif isinstance(node.value, float):
                put(node, a, b, repr(node.value * 1.5 + 0.1), 'const', fn)
        if isinstance(node, ast.BoolOp) and len(node.values) == 2:
            a, b = span(node.values[0])[1], span(node.values[1])[0]
            old = 'and' if isinstance(node.op, ast.And) else 'or'
            mid = text[a:b]
            if old in mid:
                put(node, a, b, mid.replace(old, 'or' if old == 'and' else 'and'), 'bool', fn)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            a, b = span(node)
            c, d = span(node.operand)
            put(node, a, b, '(' + text[c:d] + ')', 'not', fn)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            a, b = span(node)
            c, d = span(node.operand)
            put(node, a, b, text[c:d], 'sign', fn)
        if isinstance(node, (ast.If, ast.IfExp)):
            a, b = span(node.test)
            put(node, a, b, '(True)', 'if', fn)
            put(node, a, b, '(False)', 'if', fn)
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and fn and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            a, b = span(node)
            if 'print_progress_bar' not in text[a:b] and not text[a:b].startswith('print('):
                if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                    pass     # a missing local is a NameError, not worth a run
                else:
                    put(node, a, b, 'pass', 'drop', fn)
        if isinstance(node, ast.Attribute) and node.attr in ('min', 'max', 'nanmin', 'nanmax', 'ceil', 'floor', 'minimum', 'maximum'):
            a, b = span(node)
            swap = {'min': 'max', 'max': 'min', 'nanmin': 'nanmax', 'nanmax': 'nanmin', 'ceil': 'floor', 'floor': 'ceil', 'minimum': 'maximum', 'maximum': 'minimum'}
            put(node, b - len(node.attr), b, swap[node.attr], 'minmax', fn)
        if isinstance(node, ast.Attribute) and node.attr in ('min_x', 'min_y', 'max_x', 'max_y', 'tile_x_origin', 'tile_y_origin', 'tile_edges_x', 'tile_edges_y') and isinstance(node.ctx, ast.Load):
            a, b = span(node)
            new = node.attr.replace('_x', '_Q').replace('_y', '_x').replace('_Q', '_y')
            put(node, b - len(node.attr), b, new, 'axis', fn)
        body_doc = isinstance(node, (ast.FunctionDef, ast.ClassDef))
        for name, child in ast.iter_fields(node):
            if name in ('decorator_list', 'returns', 'annotation'):
                continue
            for c in child if isinstance(child, list) else [child]:
                if isinstance(c, ast.AST):
                    if isinstance(c, ast.Raise) or (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('print', 'print_progress_bar')):
                        continue
                    if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and isinstance(c.value.func, ast.Name) and c.value.func.id in ('print', 'print_progress_bar'):
                        continue
                    if isinstance(c, ast.arguments):
                        continue
                    if isinstance(c, ast.If) and isinstance(c.test, ast.Name) and c.test.id == 'progress_bar':
                        continue
                    visit(c, fn)
    visit(ast.parse(text), '')
    return out


def order(m):
    first = []
    for word, props in PREFER:
        if word in m['function'].lower() or word in m['file'].lower():
            first += [p for p in props.split() if p not in first]
    return first + [p for p in ORDER if p not in first]


def run(m, slot, cases, verif):
    dest = os.path.join(WORK, 'w{}'.format(slot))
    p = os.path.join(dest, 'bathygrid', m['file'])
    text = open(os.path.join(REPO, 'bathygrid', m['file']), newline='').read()
    assert text[m['a']:m['b']] == m['old']
    with open(p, 'w', newline='') as f:
        f.write(text[:m['a']] + m['new'] + text[m['b']:])
    env = dict(os.environ, BGMON_REPO=dest, VERIF_SEED='1')
    t0, codes = time.time(), {}
    try:
        r = subprocess.run([PY, '-c', 'import bathygrid.convenience'], cwd=dest, capture_output=True, timeout=120)
        if r.returncode:
            return dict(m, killed='import', wall=time.time() - t0)
        for prop in order(m):
            try:
                r = subprocess.run([PY, 'check.py', prop, '--cases', str(cases if prop not in ('C09', 'C11', 'C34', 'C36', 'C37') else max(6, cases // 3)), '--procs', '2'], cwd=verif, env=env, capture_output=True, text=True, timeout=700)
                codes[prop] = r.returncode
            except subprocess.TimeoutExpired:
                codes[prop] = 'timeout'
            if codes[prop] == 1:
                return dict(m, killed=prop, wall=time.time() - t0)
        return dict(m, killed=None, wall=time.time() - t0, odd={k: v for k, v in codes.items() if v not in (0, 2)})
    finally:
        with open(p, 'w', newline='') as f:
            f.write(text)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=200)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--cases', type=int, default=40)
    ap.add_argument('--files', default=','.join(FILES))
    ap.add_argument('--wall', type=float, default=3600)
    args = ap.parse_args()
    every = [m for f in args.files.split(',') for m in mutants(f)]
    random.Random(args.seed).shuffle(every)
    done = set()
    if os.path.exists(args.out):
        done = {(d['file'], d['a'], d['new']) for d in map(json.loads, open(args.out))}
    todo = [m for m in every if (m['file'], m['a'], m['new']) not in done][:args.n]
    print(len(every), 'mutants,', len(todo), 'to run')
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    verif = os.path.join(WORK, 'verif')
    subprocess.run(['cp', '-a', VERIF, verif], check=True)
    for i in range(args.jobs):
        subprocess.run(['cp', '-a', REPO, os.path.join(WORK, 'w{}'.format(i))], check=True)
    slots, lock, start = list(range(args.jobs)), Lock(), time.time()

    def one(m):
        if time.time() - start > args.wall:
            return
        with lock:
            slot = slots.pop()
        try:
            r = run(m, slot, args.cases, verif)
        finally:
            with lock:
                slots.append(slot)
        with lock:
            with open(args.out, 'a') as f:
                f.write(json.dumps(r) + '\n')
    with ThreadPoolExecutor(args.jobs) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
