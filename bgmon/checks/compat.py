"""C34 grids do not influence each other, C35 folders with the grid metadata in the older form"""
import contextlib
import io
import json
import os
import random
import shutil
import sys
import threading
import time

import numpy as np

from bgmon.checks import register
from bgmon.checks.storage import diff_tree, same_grid, tree_digest
from bgmon.core import Violation
from bgmon.world import EPSG, Session, World, asarr, diff_metadata, diff_observed, depth_resolution, expected_leaf, leaves, metadata, observe, random_spec, same_rows, tile_cells


# ------------------------------------------------------------------------------------------------------------- C34

def follows_model(s, label):
    """the grid holds what its own history says, and nothing else"""
    ctx, m, spec, g = s.ctx, s.model, s.spec, s.g
    ctx.require(sorted(g.container) == sorted(m.containers), lambda: '{}: containers {} expected {}'.format(label, sorted(g.container), sorted(m.containers)))
    for name in m.containers:
        ctx.require(list(g.container[name]) == m.files[name], lambda: '{}: files of {} are {} expected {}'.format(label, name, g.container[name], m.files[name]))
    tiles = leaves(spec, g)
    ctx.require(set(tiles) == m.live(), lambda: '{}: tiles {} expected {}'.format(label, sorted(tiles)[:5], sorted(m.live())[:5]))
    for lid, t in tiles.items():
        ctx.require(same_rows(asarr(t.data), m.leaf_rows(lid)), lambda: '{}: soundings of tile {} are not those that were added to this grid'.format(label, lid))
        ctx.require(set(t.container) == set(m.leaf_containers(lid)), lambda: '{}: tile {} has the containers {}'.format(label, lid, sorted(t.container)))
        ctx.require(bool(t.point_count_changed) == (lid in m.changed), lambda: '{}: change flag of tile {} is {}'.format(label, lid, t.point_count_changed))
        cells = tile_cells(t)
        ctx.require(set(cells) == set(m.snap.get(lid, {})), lambda: '{}: tile {} has layers at {} expected {}'.format(label, lid, sorted(cells), sorted(m.snap.get(lid, {}))))
        for res in cells:
            ref = m.ref(lid, res)
            bad = ref.check_depth(cells[res][spec.depth_key]) or ref.check_density(cells[res]['density']) or ref.check_uncertainty(cells[res])
            ctx.require(not bad, lambda: '{}: tile {} at {} m: {}'.format(label, lid, res, bad))
            ctx.saw('layers_compared')
    ctx.saw('tiles_compared', len(tiles))


def deep(s):
    """soundings of a depth that asks for a resolution coarser than small tiles"""
    rows = s.world.points(40)
    rows['z'] = np.round(s.ctx.rng.uniform(0.9, 1.1, len(rows)) * s.ctx.pick([300.0, 900.0, 2000.0]), 2)
    s.add(rows=rows)


def automatic(s):
    """the automatic resolution depends on the soundings and tiles of this grid only"""
    ctx, m = s.ctx, s.model
    s.grid(clear=True)
    whole = depth_resolution(float(np.mean(m.all_rows()['z'].astype(np.float64))), s.spec.tile)
    for lid, t in leaves(s.spec, s.g).items():
        want = whole if s.spec.kind == 'sr' else expected_leaf(s.spec, m, lid, 'depth')
        have = {float(r) for r in t.cells}
        ctx.require(have <= want, lambda: 'tile {} of a grid with tiles of {} m is gridded at {} expected {} (among other grids)'.format(lid, s.spec.leaf, have, want))
    follows_model(s, 'after automatic gridding')
    ctx.saw('automatic_resolutions')


def picture(s):
    return (observe(s.spec, s.g) if s.model.containers else {}, metadata(s.g), tree_digest(s.spec.folder) if s.spec.folder and os.path.isdir(s.spec.folder) else {})


def untouched(ctx, before, s, label):
    obs, meta, tree = picture(s)
    d = diff_observed(before[0], obs, rows_ordered=True) or diff_metadata(before[1], meta) or diff_tree(before[2], tree)
    ctx.require(not d, lambda: '{}: {}'.format(label, d))
    ctx.saw('bystanders_compared')


class Planned:
    """a list of operations that is drawn up front, and carried out by a thread of its own"""

    def __init__(self, s, nops, big=0, only=None):
        self.s, self.calls, self.effects, self.error, self.layers = s, [], [], None, []
        ctx, m = s.ctx, s.model
        here = list(m.containers)
        for _ in range(nops):
            op = only or ctx.pick(['add', 'add', 'grid', 'grid', 'query'] + (['remove'] if len(here) > 1 else []))
            if op == 'add':
                rows, name = s.world.points(big or ctx.pick([30, 120])), s.new_name()
                if name in here or any(name == h for h in m.containers):
                    continue
                files = ['{}_{}.all'.format(name, id(self) % 97)]
                here.append(name)
                self.plan('add ' + name, lambda r=rows, n=name, f=files: s.g.add_points(np.copy(r), n, f, s.crs, s.vref, progress_bar=False),
                          lambda r=rows, n=name, f=files: m.add(n, r, f))
            elif op == 'remove':
                name = ctx.pick(here)
                here.remove(name)
                self.plan('remove ' + name, lambda n=name: s.g.remove_points(n, progress_bar=False), lambda n=name: m.remove(n))
            elif op == 'grid':
                res, clear, update, algo = s.random_res(), ctx.chance(0.3), ctx.chance(0.5), m.algo or 'mean'
                m.algo = algo
                self.plan('grid {} {} {} {}'.format(algo, res, clear, update),
                          lambda a=algo, r=res, c=clear, u=update: s.g.grid(a, r, clear_existing=c, regrid_option='update' if u else 'full', progress_bar=False),
                          lambda a=algo, r=res, c=clear, u=update: m.gridded(a, lambda lid: r, c, u))
            else:
                self.plan('query', self.query, lambda: None)

    def plan(self, text, call, effect):
        self.s.ctx.event(text + ' (in a thread)')
        self.calls.append(call)
        self.effects.append(effect)

    def query(self):
        g = self.s.g
        if not g.is_empty and not g.no_grid:
            for r in g.resolutions:
                g.get_layers_by_name(['density'], r)
                g.layer_values_at_xy(np.array([g.min_x + 1.0]), np.array([g.min_y + 1.0]), resolution=r)

    def run(self, gate, delays):
        try:
            gate.wait(30)
            sys.settrace(delays)
            for c in self.calls:
                c()
        except Exception as e:
            self.error = e
        finally:
            sys.settrace(None)


class Delays:
    """trace function that lets the other threads go on, now and then before a line of bathygrid is run"""

    def __init__(self, seed, chance):
        import bathygrid
        self.package = os.path.dirname(os.path.abspath(bathygrid.__file__)) + os.sep
        self.random, self.chance, self.switches, self.known = random.Random(seed), chance, 0, {}

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name not in self.known:
            self.known[name] = os.path.abspath(name).startswith(self.package)
        return self.line if self.known[name] else None

    def line(self, frame, event, arg):
        if event == 'line' and self.switches < 3000 and self.random.random() < self.chance:
            self.switches += 1
            time.sleep(self.random.choice([1e-5, 1e-5, 3e-4]))
        return self.line


def case_c34(ctx):
    from bathygrid.convenience import create_grid
    n = ctx.pick([2, 2, 3])
    sessions = []
    same = ctx.chance(0.3)   # grids of the same shape are more easily confused
    shared = ctx.folder(create=True, stem='shared')
    for k in range(n):
        spec = random_spec(ctx, tiles=(16, 32, 64)) if not (same and k) else sessions[0].spec.clone()
        if spec.folder:
            # next to each other, with names that are alike
            spec.folder = os.path.join(shared, ctx.pick(['survey', 'survey_1', 'surve', 'survey_1_1', 'SURVEY']) + ('' if k == 0 else '_' * k))
        w = World(ctx, spec, ctx.pick([1.0, 2.0])) if not (same and k) else sessions[0].world
        s = Session(ctx, spec, w)
        if k and ctx.chance(0.5):
            s.crs, s.vref = 32618, 'ellipse'
        sessions.append(s)
    ctx.mark(n, 'alike' if same else 'different', *sorted('{}/{}/{}'.format(s.spec.kind, s.spec.backend, bool(s.spec.folder)) for s in sessions))
    for s in sessions:
        s.add(n=ctx.pick([20, 80]))
        if ctx.chance(0.6):
            # the same name in several grids
            s.add(n=20, name='common' if 'common' not in s.model.containers else None)
    for i in range(ctx.integer(2, 5)):
        s = ctx.pick(sessions)
        others = [(o, picture(o)) for o in sessions if o is not s]
        op = s.step(dict(add=2, remove=1.2, grid=2.5, reload=0.4, readd=0.5))
        for o, before in others:
            untouched(ctx, before, o, '{} of one grid altered another grid'.format(op))
        follows_model(s, 'after {} among other grids'.format(op))
        ctx.saw('interleaved_operations')
    if ctx.chance(0.4):
        order = list(sessions)
        ctx.rng.shuffle(order)
        # one with tiles that are smaller than the resolution its depth asks for, before the others
        tiny = np.array([(1.0, 1.0, 2000.0), (3.0, 2.0, 2100.0)], dtype=[('x', 'f8'), ('y', 'f8'), ('z', 'f4')])
        other = create_grid(grid_backend='numpy', tile_size=ctx.pick([8.0, 16.0]))
        ctx.sut('add to a grid of small tiles', other.add_points, tiny, 'other', ['f'], EPSG, 'waterline', progress_bar=False)
        ctx.sut('automatic resolution of a grid of small tiles', other.grid, 'mean', progress_bar=False)
        for s in order:
            deep(s)
        for s in order:
            automatic(s)
    # at the same time, one thread for each grid
    for s in sessions:
        if not s.model.containers:
            s.add(n=30)
    big = ctx.pick([0, 0, 0, 1500])
    together = ctx.chance(0.5)
    plans = [Planned(s, ctx.integer(4, 6), 0, 'grid') if together else Planned(s, ctx.integer(2, 4), big) for s in sessions]
    gate = threading.Barrier(len(plans))
    delays = [Delays(ctx.integer(0, 2 ** 31 - 1), ctx.pick([0.0, 0.02, 0.1, 0.5])) for _ in plans]
    threads = [threading.Thread(target=p.run, args=(gate, d), daemon=True) for p, d in zip(plans, delays)]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(ctx.pick([1e-6, 1e-5, 1e-4]))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for t in threads:
                t.start()
            for t in threads:
                t.join(100)
    finally:
        sys.setswitchinterval(interval)
    for s, p in zip(sessions, plans):
        if p.error is not None:
            raise Violation('an operation failed with {!r} while other grids were used in other threads'.format(p.error))
        for e in p.effects:
            e()
        follows_model(s, 'after the threads')
        ctx.saw('operations_in_threads', len(p.calls))
    ctx.saw('delays_injected', sum(d.switches for d in delays))


register('C34', case_c34, 'two or three grids of random kinds (or of the same kind, with the same container names, in neighbouring folders with similar names) are driven alternately: after each operation '
         'the other grids and their folders are compared bit for bit with how they were, and the grid itself with its own model; then all of them at once, each from a thread of its own with a very short '
         'switch interval; non trivial when bystanders were compared',
         quick=70, thorough=1500, nontrivial='bystanders_compared', deterministic=False, attempts=10, least={'bystanders_compared': 150, 'operations_in_threads': 200, 'layers_compared': 800, 'automatic_resolutions': 30, 'delays_injected': 2000})


# ------------------------------------------------------------------------------------------------------------- C35

ARRAYS = ['tile_x_origin', 'tile_y_origin', 'tile_edges_x', 'tile_edges_y', 'existing_tile_mask']


def to_older_form(ctx, folder, grid, root):
    """what versions before 1.1.2 wrote: the arrays of the grid are lists in metadata.json"""
    def convert(g, path):
        meta = os.path.join(path, 'metadata.json')
        with open(meta) as f:
            data = json.load(f)
        for key in ARRAYS:
            value = asarr(getattr(g, key)) if getattr(g, key) is not None else None
            data[key] = None if value is None or value.dtype == object else value.tolist()
            stored = os.path.join(path, key)
            if os.path.isdir(stored):
                shutil.rmtree(stored)
            elif os.path.exists(stored):
                os.remove(stored)
        with open(meta, 'w') as f:
            json.dump(data, f, indent=4)
        ctx.saw('metadata_files_rewritten')
    convert(grid, os.path.join(folder, root))
    if grid.sub_type == 'grid' and grid.tiles is not None:
        for t in grid.tiles.flat:
            if t is not None:
                convert(t, os.path.join(folder, root, t.name))


def case_c35(ctx):
    from bathygrid.convenience import load_grid
    spec = random_spec(ctx, backscatter=ctx.chance(0.1), disk=ctx.chance(0.7), tiles=(16, 32, 64))
    s = Session(ctx, spec, World(ctx, spec, ctx.pick([1.0, 2.0])))
    s.add(n=ctx.pick([20, 80]))
    for _ in range(ctx.integer(1, 4)):
        s.step(dict(add=2, remove=0.8, grid=2.5, reload=0.3, readd=0.5))
    if not s.model.containers:
        s.add(n=30)
    if not spec.folder:
        spec.folder = ctx.folder(stem='saved')
        ctx.sut('save', s.g.save, spec.folder, progress_bar=False)
    old = ctx.folder(stem='older')
    shutil.copytree(spec.folder, old)
    to_older_form(ctx, old, s.g, s.g.name)
    loaded = ctx.sut('load_grid with the older form of the metadata', load_grid, old)
    same_grid(ctx, spec, s.g, loaded, 'older form of the metadata')
    for key in ARRAYS[:4]:
        a, b = asarr(getattr(s.g, key)), asarr(getattr(loaded, key))
        ctx.require(np.array_equal(a, b), lambda: '{} differs when loaded from the older form'.format(key))
    ctx.saw('older_folders_loaded')
    ctx.mark(spec.kind, spec.backend)
    # and goes on in the same way
    for op in [ctx.pick(['add', 'grid', 'remove', 'add']) for _ in range(ctx.integer(1, 3))]:
        if op == 'remove' and len(s.model.containers) < 2:
            op = 'add'
        if op == 'add':
            rows, name = s.world.points(ctx.pick([5, 40, 120])), s.new_name()
            for g in (s.g, loaded):
                ctx.sut('add {}'.format(name), g.add_points, np.copy(rows), name, ['f1'], s.crs, s.vref, progress_bar=False)
            s.model.add(name, rows, ['f1'])
        elif op == 'remove':
            name = ctx.pick(list(s.model.containers))
            for g in (s.g, loaded):
                ctx.sut('remove {}'.format(name), g.remove_points, name, progress_bar=False)
            s.model.remove(name)
        else:
            algo, res, clear, update = s.model.algo or 'mean', s.random_res(), ctx.chance(0.3), ctx.chance(0.5)
            for g in (s.g, loaded):
                ctx.sut('grid {} {} {} {}'.format(algo, res, clear, update), g.grid, algo, res, clear_existing=clear, regrid_option='update' if update else 'full', progress_bar=False)
            s.model.algo = algo
        same_grid(ctx, spec, s.g, loaded, 'older folder continued with {}'.format(op), skip=('container_timestamp',))
        again = ctx.sut('load_grid again', load_grid, old)
        same_grid(ctx, spec, loaded, again, 'older folder opened again after {}'.format(op))
        ctx.saw('continuations')


register('C35', case_c35, 'folders of random histories are rewritten in the form of the versions before 1.1.2 (grid arrays as lists in metadata.json), opened, compared in every sounding, layer and attribute with '
         'the grid, and continued in lock step with it; non trivial when an older folder was opened',
         quick=60, thorough=1200, nontrivial='older_folders_loaded', least={'older_folders_loaded': 55, 'continuations': 80, 'tiles_compared': 400})
