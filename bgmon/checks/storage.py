"""C10 save/load, C11 durability, C12 backends, C24 folders, C25 permission errors"""
import contextlib
import hashlib
import os
import pickle
import shutil
import signal
import struct
import subprocess
import sys
import time
from collections import Counter

import numpy as np

from bgmon import core
from bgmon.checks import register
from bgmon.core import Inconclusive, Violation
from bgmon.world import (EPSG, Session, Spec, World, asarr, diff_metadata, diff_observed, is_grid, iter_leaves, leaves, metadata, observe, random_spec, same_rows)


def tree_digest(path, ignore=()):
    """{relative path: digest} of everything below path, directories included"""
    out = {}
    for root, dirs, files in os.walk(path):
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), path) + '/'] = ''
        for f in files:
            p = os.path.join(root, f)
            if f in ignore:
                continue
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, path)] = hashlib.md5(fh.read()).hexdigest()
    return out


def diff_tree(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return '{} {}'.format(k, 'appeared' if k not in a else ('disappeared' if k not in b else 'was changed'))
    return ''


# ------------------------------------------------------------------------------------------------------------- C10

def same_grid(ctx, spec, a, b, label, skip=()):
    if a.tiles is None or b.tiles is None or a.is_empty or b.is_empty:
        ctx.require(bool(a.is_empty) == bool(b.is_empty), lambda: '{}: one grid is empty and the other is not'.format(label))
    else:
        oa, ob = observe(spec, a), observe(spec, b)
        d = diff_observed(oa, ob, rows_ordered=True)
        ctx.require(not d, lambda: '{}: {}'.format(label, d))
        ctx.saw('tiles_compared', len(oa))
        ctx.saw('layers_compared', sum(len(l) for o in oa.values() for l in o['cells'].values()))
    m = diff_metadata(metadata(a, skip), metadata(b, skip))
    ctx.require(not m, lambda: '{}: metadata {}'.format(label, m))
    ctx.saw('states_compared')


OTHER_PROCESS = '''
import sys, pickle
sys.path.insert(0, sys.argv[1])
from bgmon import core
core.prepare_environment(); core.import_bathygrid()
from bathygrid.convenience import load_grid
from bgmon.world import observe, metadata
import io, contextlib
spec = pickle.loads(bytes.fromhex(sys.argv[2]))
with contextlib.redirect_stdout(io.StringIO()):
    g = load_grid(spec.folder)
    out = (observe(spec, g) if not g.is_empty else {}, metadata(g))
sys.stdout.buffer.write(pickle.dumps(out))
'''


def case_c10(ctx):
    from bathygrid.convenience import load_grid
    spec = random_spec(ctx, backscatter=ctx.chance(0.1))
    s = Session(ctx, spec, World(ctx, spec, ctx.pick([1.0, 2.0])))
    s.add(n=ctx.pick([20, 80, 200]))
    for _ in range(ctx.integer(1, 5)):
        s.step(dict(add=2, remove=1, grid=2.5, reload=0.5, readd=0.5))
    if ctx.chance(0.6) and s.model.containers:
        s.random_grid()
        if ctx.chance(0.4):
            s.step(dict(add=2, remove=1, grid=0.0, reload=0.0, readd=0.5))  # leave some tiles with changes that are not gridded yet
    before_obs = observe(spec, s.g) if s.model.containers else {}
    before_meta = metadata(s.g)
    # how it gets to disk
    how = ctx.pick(['new', 'in place', 'empty folder', 'existing']) if spec.folder else ctx.pick(['new', 'empty folder', 'existing'])
    old, old_digest = spec.folder, None
    if how == 'in place':
        ctx.sut('save in place', s.g.save, progress_bar=False)
        dest = spec.folder
    else:
        if old:
            old_digest = tree_digest(old)
        dest = ctx.folder(create=how != 'new', stem='saved')
        occupied = None
        if how == 'existing':
            with open(os.path.join(dest, 'something.txt'), 'w') as f:
                f.write('not a grid')
            occupied = tree_digest(dest)
        ctx.sut('save to {} folder'.format(how), s.g.save, dest, progress_bar=False)
        if occupied:
            now = tree_digest(dest)
            gone = {k for k in occupied if now.get(k) != occupied[k]}
            ctx.require(not gone, lambda: 'saving in to an occupied folder changed {}'.format(gone))
        ctx.require(os.path.abspath(s.g.output_folder) == os.path.abspath(dest), lambda: 'output_folder is {} after saving to {}'.format(s.g.output_folder, dest))
    ctx.mark(spec.kind, spec.backend, 'disk' if old else 'mem', how)
    # saving does not change the grid that is saved
    if before_obs:
        d = diff_observed(before_obs, observe(spec, s.g), rows_ordered=True)
        ctx.require(not d, lambda: 'saving changed the grid: {}'.format(d))
    if old_digest:
        d = diff_tree(old_digest, tree_digest(old))
        ctx.require(not d, lambda: 'saving elsewhere changed the old folder: {}'.format(d))
    spec.folder = dest
    loaded = ctx.sut('load_grid', load_grid, dest)
    ctx.require(type(loaded) is type(s.g), lambda: 'a {} was saved and a {} is loaded'.format(type(s.g), type(loaded)))
    if before_obs:
        d = diff_observed(before_obs, observe(spec, loaded), rows_ordered=True)
        ctx.require(not d, lambda: 'saved and loaded ({}): {}'.format(how, d))
    d = diff_metadata(before_meta, metadata(loaded))
    ctx.require(not d, lambda: 'saved and loaded ({}): metadata {}'.format(how, d))
    ctx.saw('round_trips')
    if ctx.index % 30 == 3:
        env = dict(os.environ, BGMON_REPO=core.REPO)
        p = subprocess.run([sys.executable, '-c', OTHER_PROCESS, core.VERIF, pickle.dumps(spec).hex()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=100)
        ctx.require(p.returncode == 0, lambda: 'loading in another process failed: {}'.format(p.stderr.decode()[-600:]))
        obs, meta = pickle.loads(p.stdout)
        d = diff_observed(before_obs, obs, rows_ordered=True) or diff_metadata(before_meta, meta)
        ctx.require(not d, lambda: 'loaded in another process: {}'.format(d))
        ctx.saw('loaded_in_a_new_interpreter')
    # once more around
    if ctx.chance(0.4):
        again = ctx.folder(stem='again')
        ctx.sut('save the loaded grid', loaded.save, again, progress_bar=False)
        third = ctx.sut('load_grid', load_grid, again)
        same_grid(ctx, spec, s.g, third, 'second round trip')
        loaded = third
        ctx.saw('round_trips')
    else:
        # a copy of the folder is the same grid, and does not share a folder with the grid that was saved
        copy = ctx.folder(stem='copy')
        shutil.copytree(dest, copy)
        loaded = ctx.sut('load_grid copy', load_grid, copy)
        same_grid(ctx, spec, s.g, loaded, 'copied folder')
    # both continue in the same way
    twin = Session.__new__(Session)
    twin.__dict__.update(s.__dict__)
    twin.g = loaded
    for _ in range(ctx.integer(1, 3)):
        ops = ['add', 'grid', 'grid'] + (['remove'] if s.model.containers else [])
        op = ctx.pick(ops if s.model.containers else ['add'])
        if op == 'add':
            rows = s.world.points(ctx.pick([5, 40, 120]))
            name = s.new_name()
            for g in (s.g, loaded):
                ctx.sut('add {}'.format(name), g.add_points, np.copy(rows), name, ['f1'], s.crs, s.vref, progress_bar=False)
            s.model.add(name, rows, ['f1'])
        elif op == 'remove':
            name = ctx.pick(list(s.model.containers))
            for g in (s.g, loaded):
                ctx.sut('remove {}'.format(name), g.remove_points, name, progress_bar=False)
            s.model.remove(name)
        else:
            algo = s.model.algo or 'mean'
            res, clear, update = s.random_res(), ctx.chance(0.3), ctx.chance(0.5)
            for g in (s.g, loaded):
                ctx.sut('grid {} {} {} {}'.format(algo, res, clear, update), g.grid, algo, res, clear_existing=clear, regrid_option='update' if update else 'full',
                        progress_bar=False)
            s.model.algo = algo
        same_grid(ctx, spec, s.g, loaded, 'continued with {}'.format(op), skip=('container_timestamp',))
        ctx.saw('continuations')


register('C10', case_c10, 'random histories, then saved (new folder, in place, over an empty or an occupied folder), loaded (same process, other process, copied folder) and compared in every '
         'sounding, layer, flag and attribute, then continued in lock step; non trivial when a round trip was compared',
         quick=110, thorough=2500, nontrivial='round_trips', least={'round_trips': 90, 'tiles_compared': 900, 'continuations': 120, 'loaded_in_a_new_interpreter': 2})


# ------------------------------------------------------------------------------------------------------------- C11

def send(fd, obj):
    b = pickle.dumps(obj)
    os.write(fd, struct.pack('<Q', len(b)))
    view = memoryview(b)
    while view:
        view = view[os.write(fd, view[:65536]):]


def receive(fd):
    def exactly(n):
        out = b''
        while len(out) < n:
            part = os.read(fd, min(65536, n - len(out)))
            if not part:
                raise EOFError
            out += part
        return out
    return pickle.loads(exactly(struct.unpack('<Q', exactly(8))[0]))


def writer(ctx, s, nops, up, go):
    """the process that gets killed: reports after each completed operation, then waits for permission to go on"""
    def report(op):
        send(up, {'op': op, 'obs': observe(s.spec, s.g) if s.model.containers else {}, 'meta': metadata(s.g), 'model': s.model, 'spec': s.spec,
                  'log': ctx.log, 'state': {'counter': s.counter, 'removed': s.removed}, 'rng': ctx.rng.bit_generator.state,
                  'counters': dict(ctx.counters), 'nfold': ctx._nfold})
        if not os.read(go, 1):
            os._exit(0)
    try:
        for i in range(nops):
            op = s.step(dict(add=2.5, remove=1.2, grid=2.5, reload=0.25, readd=0.8))
            report(op)
    except BaseException as e:
        send(up, {'error': e if isinstance(e, (Violation, Inconclusive)) else Violation('writer failed: {!r}'.format(e)), 'log': ctx.log})
    os._exit(0)


class DaskSession(Session):
    """some griddings go through a dask client of the process that runs them"""
    dask = None

    def grid(self, algo=None, res=None, clear=False, update=False, mode='depth', use_dask=False, extra=None):
        if not self.dask or not self.ctx.chance(0.6):
            return super().grid(algo, res, clear, update, mode, use_dask, extra)
        from dask.distributed import Client, LocalCluster
        try:
            cluster = LocalCluster(n_workers=self.dask[0], threads_per_worker=self.dask[1], processes=False, dashboard_address=None, silence_logs=50)
            client = Client(cluster)   # the default client of this process
        except Exception as e:
            raise Inconclusive('can not start a dask cluster: {!r}'.format(e))
        try:
            self.g.client = None
            out = super().grid(algo, res, clear, update, mode, True, extra)
            self.ctx.saw('griddings_with_dask')
            return out
        finally:
            self.g.client = None
            client.close()
            cluster.close()


def case_c11(ctx):
    from bathygrid.convenience import load_grid
    spec = random_spec(ctx, disk=True, tiles=(32, 64, 128))
    cls = Session
    if ctx.chance(0.2):
        cls, DaskSession.dask = DaskSession, ctx.pick([(1, 1), (1, 2), (2, 1), (1, 4), (3, 1)])
    s = cls(ctx, spec, World(ctx, spec, ctx.pick([1.0, 2.0])))
    s.add(n=ctx.pick([20, 80]))
    for generation in range(ctx.integer(1, 3)):
        up_r, up_w = os.pipe()
        go_r, go_w = os.pipe()
        nops = ctx.integer(1, 3)
        pid = os.fork()
        if pid == 0:
            signal.alarm(0)
            os.close(up_r), os.close(go_w)
            writer(ctx, s, nops, up_w, go_r)
        os.close(up_w), os.close(go_r)
        last = None
        try:
            for i in range(nops):
                r = receive(up_r)
                if 'error' in r:
                    ctx.log = r['log']
                    raise r['error']
                last = r
                if i < nops - 1:
                    verify_disk(ctx, r, load_grid, 'while the writer is waiting')
                    ctx.saw('boundaries_observed')
                    os.write(go_w, b'1')
        finally:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(up_r), os.close(go_w)
        # the writer is gone, everything it did has to be in the folder
        ctx.log = last['log'] + ['SIGKILL after {}'.format(last['op'])]
        ctx._nfold = last['nfold']
        ctx.counters.update({k: v - ctx.counters[k] for k, v in last['counters'].items() if v > ctx.counters[k]})
        ctx.rng.bit_generator.state = last['rng']
        g = verify_disk(ctx, last, load_grid, 'after SIGKILL')
        ctx.saw('kills')
        ctx.mark(spec.kind, spec.backend, last['op'])
        s.g, s.model, s.spec = g, last['model'], last['spec']
        s.counter, s.removed = last['state']['counter'], last['state']['removed']


def verify_disk(ctx, r, load_grid, when):
    spec, m = r['spec'], r['model']
    when = '{} ({})'.format(when, r['op'])
    g = ctx.sut('load_grid ' + when, load_grid, spec.folder)
    got = observe(spec, g) if not g.is_empty else {}
    want = m.live()
    ctx.require(set(got) == want, lambda: '{}: tiles on disk {} expected {}'.format(when, sorted(got)[:5], sorted(want)[:5]))
    for lid in want:
        ctx.require(same_rows(got[lid]['rows'], m.leaf_rows(lid)), lambda: '{}: tile {} has {} soundings on disk, {} were added'.format(
            when, lid, len(got[lid]['rows']), len(m.leaf_rows(lid))))
        ctx.require(got[lid]['changed'] == (lid in m.changed), lambda: '{}: change flag of tile {} on disk is {}'.format(when, lid, got[lid]['changed']))
        ctx.require(set(got[lid]['cells']) == set(m.snap.get(lid, {})), lambda: '{}: tile {} has layers on disk at {} expected {}'.format(
            when, lid, sorted(got[lid]['cells']), sorted(m.snap.get(lid, {}))))
        for res in got[lid]['cells']:
            bad = m.ref(lid, res).check_depth(got[lid]['cells'][res]['depth'])
            ctx.require(not bad, lambda: '{}: tile {} at {} m on disk: {}'.format(when, lid, res, bad))
            ctx.saw('layers_compared')
    d = diff_observed(r['obs'], got, rows_ordered=True)
    ctx.require(not d, lambda: '{}: writer and disk: {}'.format(when, d))
    d = diff_metadata(r['meta'], metadata(g))
    ctx.require(not d, lambda: '{}: metadata of writer and disk: {}'.format(when, d))
    ctx.saw('tiles_compared', len(want))
    return g


register('C11', case_c11, 'a writer process runs a random history on a grid with an output folder and is killed (SIGKILL) after a completed operation; another process opens the folder at every operation '
         'boundary, compares it with the model and with what the writer had in memory, and a new writer continues from the recovered folder',
         quick=120, thorough=2500, nontrivial='kills', least={'kills': 120, 'boundaries_observed': 60, 'tiles_compared': 800}, level='fault_enumeration')


# ------------------------------------------------------------------------------------------------------------- C12

def answers(ctx, g, rng_state, spec, w):
    """answers to the questions a user asks, in a comparable form"""
    rng = np.random.default_rng(rng_state)
    out = {'extents': g.return_extents(), 'count': g.points_count, 'names': sorted(g.return_layer_names()), 'tiles': int(g.number_of_tiles or 0)}
    if g.is_empty or g.no_grid:
        return out
    out['cell_count'] = {float(k): int(v) for k, v in g.cell_count.items()}
    out['density'] = sorted(g.density_count)
    for res in g.resolutions:
        lyr = g.get_layers_by_name([spec.depth_key, 'density'], res)
        if lyr is not None:
            out['layer {}'.format(res)] = [asarr(l) for l in lyr]
            x = rng.uniform(g.min_x - 1, g.max_x + 1, 25)
            y = rng.uniform(g.min_y - 1, g.max_y + 1, 25)
            out['query {}'.format(res)] = g.layer_values_at_xy(x, y, spec.depth_key, res)
    return out


def diff_answers(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return k
        x, y = a[k], b[k]
        if isinstance(x, list) and x and isinstance(x[0], np.ndarray):
            if not (len(x) == len(y) and all(p.shape == q.shape and np.array_equal(p, q, equal_nan=True) for p, q in zip(x, y))):
                return k
        elif isinstance(x, np.ndarray):
            if not np.array_equal(x, y, equal_nan=True):
                return k
        elif x != y:
            return '{}: {} and {}'.format(k, str(x)[:200], str(y)[:200])
    return ''


def case_c12(ctx):
    from bathygrid.convenience import load_grid
    base = random_spec(ctx, disk=False, backscatter=ctx.chance(0.1))
    w = World(ctx, base, ctx.pick([1.0, 2.0]))
    specs = [base.clone(backend=b, folder=f) for b in ('numpy', 'zarr') for f in ('', ctx.folder())]
    driver = Session.__new__(Session)  # only for its choices and its model
    s = Session(ctx, specs[0], w)
    grids = [s.g] + [ctx.sut('create ' + sp.describe(), sp.build) for sp in specs[1:]]
    m = s.model
    for step in range(ctx.integer(3, 6)):
        ops = ['add'] if not m.containers else ['add', 'add', 'remove', 'grid', 'grid', 'grid', 'reload', 'move']
        op = ctx.pick(ops) if step != 1 else 'grid'
        if op == 'add':
            rows = w.points(ctx.pick([1, 10, 60, 150]))
            if step < 2 and ctx.chance(0.12):
                # a dense line, with soundings that occur more than once, many of them in one tile
                rows = w.points(20000, region=w.region(small=True), style='uniform')
                rows = np.concatenate([rows, rows[ctx.rng.integers(0, len(rows), 8000)]])
                ctx.saw('dense_lines')
            name, files = s.new_name(), ctx.pick([None, ['a.all', 'b.all']])
            for g in grids:
                ctx.sut('add {} {}'.format(name, len(rows)), g.add_points, np.copy(rows), name, files, EPSG, 'MLLW', 100 + step, 200 + step, progress_bar=False)
            m.add(name, rows, files)
        elif op == 'remove':
            name = ctx.pick(list(m.containers))
            for g in grids:
                ctx.sut('remove {}'.format(name), g.remove_points, name, progress_bar=False)
            m.remove(name)
        elif op == 'grid':
            m.algo = m.algo or ctx.pick(['mean', 'shoalest'])
            res, clear, update, mode = s.random_res(), ctx.chance(0.3), ctx.chance(0.4), ctx.pick(['depth', 'density'])
            if ctx.chance(0.25) and base.leaf <= 64 and (base.kind == 'vr' or not update):
                res = None
            got = [ctx.sut('grid {} {} clear={} update={} {}'.format(m.algo, res, clear, update, mode), g.grid, m.algo, res, clear_existing=clear, auto_resolution_mode=mode,
                           regrid_option='update' if update else 'full', progress_bar=False) for g in grids]
            ctx.require(all(r == got[0] for r in got), lambda: 'the resolutions returned differ: {}'.format(got))
        else:
            for i, sp in enumerate(specs):
                if sp.folder:
                    if op == 'move':   # arrays that were read from one folder are written to another one
                        sp.folder = ctx.folder(stem='moved')
                        ctx.sut('save {} elsewhere'.format(sp.backend), grids[i].save, sp.folder, progress_bar=False)
                    grids[i] = ctx.sut('load_grid {}'.format(sp.backend), load_grid, sp.folder)
        ctx.saw('op:' + op)
        obs = [observe(sp, g) if m.containers else {} for sp, g in zip(specs, grids)]
        metas = [metadata(g, skip=('name', 'storage_type', 'container_timestamp')) for g in grids]
        q = [answers(ctx, g, step, base, w) if m.containers else {} for g in grids]
        for i in range(1, 4):
            label = '{} and {} after {}'.format(specs[0].describe(), specs[i].describe(), op)
            d = diff_observed(obs[0], obs[i], rows_ordered=True)
            ctx.require(not d, lambda: '{}: {}'.format(label, d))
            d = diff_metadata(metas[0], metas[i])
            ctx.require(not d, lambda: '{}: {}'.format(label, d))
            d = diff_answers(q[0], q[i])
            ctx.require(not d, lambda: '{}: answers to queries differ: {}'.format(label, d))
            ctx.saw('pairs_compared')
            ctx.saw('tiles_compared', len(obs[0]))
        ctx.mark(base.kind, op)


register('C12', case_c12, 'the same random history on four grids (numpy/zarr, memory/disk, the disk ones reloaded at random), compared after every operation: soundings in order, '
         'container ranges, layers bit for bit, metadata, extents and answers to queries', quick=90, thorough=2200, nontrivial='pairs_compared',
         least={'pairs_compared': 500, 'tiles_compared': 4000, 'op:grid': 60, 'op:reload': 15})


# ------------------------------------------------------------------------------------------------------------- C24

ROOTS = {('sr', 'numpy'): 'SRGrid_Root', ('vr', 'numpy'): 'VRGridTile_Root', ('sr', 'zarr'): 'SRGridZarr_Root', ('vr', 'zarr'): 'VRGridTileZarr_Root'}
CLASSES = {('sr', 'numpy'): 'SRGrid', ('vr', 'numpy'): 'VRGridTile', ('sr', 'zarr'): 'SRGridZarr', ('vr', 'zarr'): 'VRGridTileZarr'}
LOOKALIKES = ['SRGrid_Root_old', 'xSRGrid_Root', 'SRGrid_Root.bak', 'VRGridTile_Root.old', 'srgrid_root', 'SRGrid_Root ', 'SRGridZarr_Root_1', 'SRGridZarr_Roo', 'VRGridTileZarr_root',
              'SRGrid', 'VRGridTile', 'Root', 'copy of VRGridTile_Root']
KINDS = {'sr': 'single_resolution', 'vr': 'variable_resolution_tile'}


def case_c24(ctx):
    from bathygrid.convenience import create_grid, is_bathygrid, load_grid
    home = ctx.folder(create=True, stem='home')
    kind, backend = ctx.pick(['sr', 'vr']), ctx.pick(['numpy', 'zarr'])
    backscatter = ctx.chance(0.2)
    cwd = os.getcwd()
    os.chdir(home)
    try:
        # neighbours that must not be touched
        os.makedirs(os.path.join(home, 'other', 'SRGrid_Root'))
        for p in ('other/readme.txt', 'other/SRGrid_Root/metadata.json', 'loose.txt'):
            with open(os.path.join(home, p), 'w') as f:
                f.write('content of ' + p)
        layout = ctx.pick(['new', 'nested', 'relative', 'relative nested', 'empty', 'foreign', 'grid', 'dot relative'])
        path = {'new': os.path.join(home, 'survey'), 'nested': os.path.join(home, 'a', 'b', 'survey'), 'relative': 'survey', 'relative nested': os.path.join('a', 'survey'),
                'empty': os.path.join(home, 'survey'), 'foreign': os.path.join(home, 'survey'), 'grid': os.path.join(home, 'survey'),
                'dot relative': os.path.join('.', 'survey')}[layout]
        spec = Spec(kind, backend, 32.0, 16.0, backscatter=backscatter)
        w = World(ctx, spec, 2.0)

        def make(where):
            return ctx.sut('create_grid {} {} {} in {}'.format(kind, backend, backscatter, layout), create_grid, where, KINDS[kind], backend, spec.tile, spec.sub, backscatter)

        first = None
        if layout == 'empty':
            os.makedirs(path)
        elif layout == 'foreign':
            os.makedirs(path)
            with open(os.path.join(path, 'notes.txt'), 'w') as f:
                f.write('foreign')
        elif layout == 'grid':
            first = make(path)
            ctx.sut('add', first.add_points, w.points(30), 'first', None, EPSG, 'MLLW', progress_bar=False)
            ctx.sut('grid', first.grid, 'mean', 2.0, progress_bar=False)
        before = tree_digest(home)
        # invalid options first: refused, and nothing that exists is touched
        bad = ctx.pick([dict(grid_type='quadtree'), dict(grid_backend='hdf5'), dict(tile_size=100.0), dict(tile_size=0), dict(tile_size=-64.0), dict(tile_size=48),
                        dict(grid_type='variable_resolution_tile', subtile_size=24.0), dict(grid_type='variable_resolution_tile', subtile_size=128.0), dict(grid_type='', grid_backend='numpy')])
        opts = dict(grid_type=KINDS[kind], grid_backend=backend, tile_size=64.0, subtile_size=16.0)
        opts.update(bad)
        target = os.path.join(home, 'refused') if ctx.chance(0.5) else ''
        e = ctx.rejects('create_grid {}'.format(bad), create_grid, target, **opts)
        ctx.require(e is not None, lambda: 'create_grid accepted {}'.format(bad))
        after = tree_digest(home)
        ctx.require(after == before, lambda: 'a refused create_grid changed the folders: {}'.format(diff_tree(before, after)))
        ctx.require(not (target and is_bathygrid(target)), 'a refused create_grid left something that is recognised as a grid')
        ctx.saw('invalid_options')

        if layout in ('foreign', 'grid') and ctx.chance(0.6):
            # two grids in an occupied folder, right after each other
            rival = make(path)
            ctx.sut('add', rival.add_points, w.points(12), 'rival', None, EPSG, 'MLLW', progress_bar=False)
            before = tree_digest(home)
            ctx.saw('grids_in_the_same_second')
        else:
            rival = None
        g = make(path)
        now = tree_digest(home)
        gone = {k: v for k, v in before.items() if now.get(k) != v}
        ctx.require(not gone, lambda: 'create_grid changed {} of what was there ({})'.format(sorted(gone), layout))
        where = os.path.abspath(g.output_folder)
        ctx.require(rival is None or os.path.abspath(rival.output_folder) != where, 'two grids share the folder {}'.format(where))
        if layout in ('foreign', 'grid'):
            ctx.require(where != os.path.abspath(path) and os.path.basename(where).startswith('survey') and os.path.dirname(where) == os.path.dirname(os.path.abspath(path)),
                        lambda: 'create_grid in an occupied folder uses {}'.format(where))
        else:
            ctx.require(where == os.path.abspath(path), lambda: 'create_grid {} uses {}'.format(path, where))
        ctx.require(os.path.isdir(where), lambda: 'the folder of the grid was not created')
        ctx.require(type(g).__name__ == CLASSES[(kind, backend)] and bool(g.is_backscatter) == backscatter and g.tile_size == spec.tile and
                    (kind == 'sr' or g.subtile_size == spec.sub), lambda: 'create_grid returned {} tile {} subtile {} backscatter {}'.format(
                        type(g).__name__, g.tile_size, g.subtile_size, g.is_backscatter))
        outside = tree_digest(home)
        rows = w.points(ctx.pick([5, 40]))
        ctx.sut('add', g.add_points, np.copy(rows), 'cont', ['f'], EPSG, 'MLLW', progress_bar=False)
        if ctx.chance(0.6):
            ctx.sut('grid', g.grid, 'mean', 4.0, progress_bar=False)
        after = tree_digest(home)
        rel = os.path.relpath(where, home)
        strays = [k for k in set(after) | set(outside) if after.get(k) != outside.get(k) and not k.startswith(rel + os.sep)]
        ctx.require(not strays, lambda: 'working with the grid changed files outside of its folder: {}'.format(strays[:5]))
        given = g.output_folder
        company = {}
        if ctx.chance(0.5):
            # foreign files and folders beside the root folder
            for r in ctx.rng.choice(LOOKALIKES + ['exports', 'a_first', 'zz_last'], 3, replace=False):
                other = os.path.join(where, str(r))
                if ctx.chance(0.5):
                    os.makedirs(other)
                    other = os.path.join(other, 'metadata.json')
                with open(other, 'w') as f:
                    f.write('{}')
            company = {k: v for k, v in tree_digest(where).items() if not k.startswith(g.name + os.sep)}
            ctx.saw('grid_folders_with_foreign_content')
        ctx.require(is_bathygrid(given) and is_bathygrid(where), 'the folder of a grid is not recognised')
        again = ctx.sut('load_grid', load_grid, ctx.pick([given, where, where + os.sep, os.path.relpath(where)]))
        ctx.require(type(again) is type(g), lambda: 'a {} is opened as {}'.format(type(g), type(again)))
        ctx.require(bool(again.is_backscatter) == backscatter and again.points_count == len(rows), lambda: 'opened grid has {} of {} soundings, backscatter {}'.format(
            again.points_count, len(rows), again.is_backscatter))
        d = diff_observed(observe(spec, g), observe(spec, again), rows_ordered=True)
        ctx.require(not d, lambda: 'opened grid: {}'.format(d))
        if company:
            ctx.sut('add to the opened grid', again.add_points, w.points(7), 'later', None, EPSG, 'MLLW', progress_bar=False)
            now = tree_digest(where)
            gone = [k for k, v in company.items() if now.get(k) != v]
            ctx.require(not gone, lambda: 'working with the opened grid changed {}'.format(gone))
        if first is not None:
            old = ctx.sut('load_grid first', load_grid, path)
            d = diff_observed(observe(spec, first), observe(spec, old), rows_ordered=True)
            ctx.require(not d and list(old.container) == ['first'], lambda: 'the grid that was there before is now {} {}'.format(list(old.container), d))
        if rival is not None:
            old = ctx.sut('load_grid rival', load_grid, rival.output_folder)
            d = diff_observed(observe(spec, rival), observe(spec, old), rows_ordered=True)
            ctx.require(not d and list(old.container) == ['rival'], lambda: 'the grid that was made before is now {} {}'.format(list(old.container), d))
        ctx.saw('grids_opened')
        # folders that are not one grid
        odd = ctx.folder(create=True, stem='odd')
        case = ctx.pick(['empty', 'foreign', 'missing', 'two', 'root itself', 'file', 'lookalike'])
        if case == 'foreign':
            os.makedirs(os.path.join(odd, 'some_root'))
            open(os.path.join(odd, 'x.tif'), 'w').close()
        elif case == 'missing':
            odd = odd + '_missing'
        elif case == 'two':
            for r in ('SRGrid_Root', 'VRGridTile_Root'):
                shutil.copytree(os.path.join(where, g.name), os.path.join(odd, r))
        elif case == 'root itself':
            odd = os.path.join(where, g.name)
        elif case == 'file':
            odd = os.path.join(home, 'loose.txt')
        elif case == 'lookalike':
            for r in ctx.rng.choice(LOOKALIKES, 2, replace=False):
                shutil.copytree(os.path.join(where, g.name), os.path.join(odd, str(r)))
        state = tree_digest(home)
        e = ctx.rejects('load_grid {} folder'.format(case), load_grid, odd)
        ctx.require(e is not None, lambda: 'load_grid opened a folder that is not one grid ({})'.format(case))
        if case != 'two':
            ctx.require(not is_bathygrid(odd), lambda: 'is_bathygrid is True for a folder that is not a grid ({})'.format(case))
        ctx.require(tree_digest(home) == state, lambda: 'opening {} changed files'.format(case))
        ctx.saw('folders_refused')
        ctx.mark(layout, kind, backend, case)
    finally:
        os.chdir(cwd)


register('C24', case_c24, 'create_grid with valid and invalid options in new, nested, relative, empty, foreign and already used folders, with digests of the whole surrounding tree, then opened; '
         'odd folders (no root, two roots, root itself, files) are offered to load_grid and is_bathygrid', quick=250, thorough=5000, nontrivial='grids_opened',
         least={'grids_opened': 200, 'invalid_options': 200, 'folders_refused': 200})


# ------------------------------------------------------------------------------------------------------------- C25

class Faults:
    """
    PermissionError from the deletion calls of the operating system, when they are made on behalf of bathygrid's own deletion.
    A burst is followed by at least one call that succeeds, and no folder gets more than CAP of them (the code gives up after 200).
    """
    CAP = 150

    def __init__(self, rng, plan):
        self.rng, self.plan = rng, plan
        self.left = 0
        self.cool = False
        self.injected = 0
        self.deletions = 0
        self.slept = 0.0
        self.per_folder = Counter()
        self.saved = {}

    def ours(self):
        """the folder bathygrid is removing, or None for deletions made by the libraries (zarr, numpy, this harness)"""
        f = sys._getframe(2)
        folder = None
        while f is not None:
            name = f.f_code.co_filename
            if os.path.basename(name) == 'shutil.py':
                if f.f_code.co_name == 'rmtree':
                    folder = str(f.f_locals.get('path'))
            elif folder is not None:
                return folder if os.path.abspath(name).startswith(os.path.join(core.REPO, 'bathygrid')) else None
            f = f.f_back
        return None

    def wrap(self, fn):
        def call(*args, **kwargs):
            folder = self.ours()
            if folder is not None:
                self.deletions += 1
                if self.plan.get('stuck'):
                    self.injected += 1
                    raise PermissionError(13, 'still in use')
                if self.left == 0 and not self.cool and self.rng.random() < self.plan['rate']:
                    self.left = int(self.rng.choice(self.plan['bursts']))
                self.cool = False
                if self.left > 0:
                    self.left -= 1
                    self.cool = self.left == 0
                    if self.per_folder[folder] < self.CAP:
                        self.per_folder[folder] += 1
                        self.injected += 1
                        raise PermissionError(13, 'The process cannot access the file because it is being used by another process')
                    self.left = 0
            return fn(*args, **kwargs)
        return call

    def __enter__(self):
        for n in ('unlink', 'rmdir', 'remove'):
            self.saved[n] = getattr(os, n)
            setattr(os, n, self.wrap(self.saved[n]))
        self.sleep = time.sleep

        def sleep(t):
            self.slept += t
        time.sleep = sleep
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(os, n, f)
        time.sleep = self.sleep


def case_c25(ctx):
    from bathygrid.convenience import load_grid
    spec = random_spec(ctx, disk=True, tiles=(32, 64))
    twin_spec = spec.clone(folder=ctx.folder())
    w = World(ctx, spec, 1.5)
    s = Session(ctx, spec, w)
    other = ctx.sut('create twin', twin_spec.build)
    m = s.model
    plan = ctx.pick([{'rate': 0.02, 'bursts': [1, 40, 140]}, {'rate': 0.1, 'bursts': [1, 2, 5]}, {'rate': 0.4, 'bursts': [1]}, {'rate': 1.0, 'bursts': [1]},
                     {'rate': 1.0, 'bursts': [1, 2, 3]}])
    for step in range(ctx.integer(3, 6)):
        ops = ['add'] if not m.containers else ['add', 'remove', 'grid', 'grid', 'reload', 'save']
        op = ctx.pick(ops) if step != 1 else 'grid'
        if op == 'add':
            rows, name = w.points(ctx.pick([10, 60, 150])), s.new_name()
            call = lambda g, sp: ctx.sut('add {}'.format(name), g.add_points, np.copy(rows), name, None, EPSG, 'MLLW', progress_bar=False)
            m.add(name, rows)
        elif op == 'remove':
            name = ctx.pick(list(m.containers))
            call = lambda g, sp: ctx.sut('remove {}'.format(name), g.remove_points, name, progress_bar=False)
            m.remove(name)
        elif op == 'grid':
            m.algo = m.algo or ctx.pick(['mean', 'shoalest'])
            res, clear, update = s.random_res(), ctx.chance(0.4), ctx.chance(0.5)
            call = lambda g, sp: ctx.sut('grid {} {} {}'.format(res, clear, update), g.grid, m.algo, res, clear_existing=clear, regrid_option='update' if update else 'full',
                                         progress_bar=False)
        elif op == 'save':
            call = lambda g, sp: ctx.sut('save in place', g.save, progress_bar=False)
        else:
            s.g = ctx.sut('load', load_grid, spec.folder)
            other = ctx.sut('load twin', load_grid, twin_spec.folder)
            continue
        with Faults(ctx.rng, plan) as f:
            call(s.g, spec)
        call(other, twin_spec)
        ctx.saw('faults_injected', f.injected)
        ctx.saw('deletion_calls', f.deletions)
        ctx.event('  {} faults in {} deletion calls'.format(f.injected, f.deletions))
        if f.injected:
            ctx.saw('operations_with_faults')
            ctx.mark(spec.kind, spec.backend, op, plan['rate'], max(plan['bursts']))
        label = '{} with {} permission errors'.format(op, f.injected)
        for a, b, what in ((s.g, other, 'memory'), (ctx.sut('load', load_grid, spec.folder), ctx.sut('load twin', load_grid, twin_spec.folder), 'disk')):
            if m.containers:
                d = diff_observed(observe(spec, a), observe(twin_spec, b), rows_ordered=True)
                ctx.require(not d, lambda: '{}: {} differs from the run without errors: {}'.format(label, what, d))
            d = diff_metadata(metadata(a, ('container_timestamp',)), metadata(b, ('container_timestamp',)))
            ctx.require(not d, lambda: '{}: {} metadata differs from the run without errors: {}'.format(label, what, d))
            ctx.saw('states_compared')
        ta, tb = set(tree_digest(spec.folder)), set(tree_digest(twin_spec.folder))
        ctx.require(ta == tb, lambda: '{}: files on disk differ from the run without errors: {}'.format(label, sorted(ta ^ tb)[:4]))
    # an error that does not go away is reported
    if m.containers and ctx.chance(0.25):
        with Faults(ctx.rng, {'rate': 0, 'bursts': [1], 'stuck': True}) as f:
            e = ctx.rejects('grid while a file stays locked', s.g.grid, m.algo or 'mean', s.random_res(), clear_existing=True, progress_bar=False)
        if f.injected:
            ctx.require(isinstance(e, OSError), lambda: 'a deletion that never succeeds ended with {!r}'.format(e))
            ctx.saw('persistent_errors')


register('C25', case_c25, 'PermissionErrors injected in the deletion calls of the operating system (single, bursts below the retry limit, every second call; also in the middle of a '
         'folder) during add/remove/grid/save of disk grids; state in memory and on disk is compared with a twin that had no errors',
         quick=90, thorough=2000, nontrivial='operations_with_faults', least={'faults_injected': 500, 'operations_with_faults': 80, 'states_compared': 300}, level='fault_enumeration')
