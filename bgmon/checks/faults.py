"""C36 operations that fail can be repeated, C37 soundings survive operations that are cut short"""
import contextlib
import errno
import io
import os
import shutil
import sys

import numpy as np

from bgmon.checks import register
from bgmon.checks.storage import diff_tree, tree_digest
from bgmon.core import Inconclusive, Violation, _where
from bgmon.world import EPSG, Session, World, asarr, diff_metadata, diff_observed, leaves, metadata, observe, random_spec, same_rows, sorted_rows

# extents can differ by a row or column of tiles between a grid that got a container twice and one that got it once
EXTENTS = ('min_x', 'min_y', 'max_x', 'max_y', 'width', 'height', 'maximum_tiles', 'container_timestamp', 'tile_edges_x', 'tile_edges_y')


class Cut(BaseException):
    """The process ends here: raised for every further change to the file system, so that nothing that runs after it has an effect"""


class Gate:
    """
    Sees every attempt to create, alter or delete a file or folder (audit events of the interpreter, no matter which code or library
    makes the call), counts them, and makes the chosen ones fail.
    """
    WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
    CREATE = ('os.mkdir', 'os.rename', 'shutil.move')
    DELETE = ('os.remove', 'os.rmdir', 'shutil.rmtree')

    def __init__(self):
        self.on = False
        sys.addaudithook(self.hook)

    def arm(self, root, at=None, make=None, sticky=False, deletions=False):
        self.root, self.at, self.make, self.sticky, self.deletions = root, at, make, sticky, deletions
        self.count, self.fired, self.where = 0, 0, ''
        self.on = True

    def hook(self, event, args):
        if not self.on:
            return
        if event == 'open':
            if not isinstance(args[2], int) or not args[2] & self.WRITE:
                return
        elif event not in self.CREATE and not (self.deletions and event in self.DELETE):
            return
        target = args[0]
        if isinstance(target, bytes):
            target = os.fsdecode(target)
        if isinstance(target, str) and os.path.isabs(target) and not target.startswith(self.root):
            return
        self.count += 1
        if self.at is not None and (self.count == self.at or (self.sticky and self.count > self.at)):
            self.fired += 1
            if self.fired == 1:
                self.where = '{} {}'.format(event, os.path.relpath(target, self.root) if isinstance(target, str) and os.path.isabs(target) else target)
            raise self.make()


GATE = None


def gate():
    global GATE
    if GATE is None:
        GATE = Gate()
    return GATE


@contextlib.contextmanager
def armed(g, *args, **kwargs):
    g.arm(*args, **kwargs)
    try:
        yield g
    finally:
        g.on = False


ERRORS = {
    'disk full': (lambda: OSError(errno.ENOSPC, 'No space left on device'), False),
    'input/output error': (lambda: OSError(errno.EIO, 'Input/output error'), False),
    'quota': (lambda: OSError(errno.EDQUOT, 'Disk quota exceeded'), False),
    'read only': (lambda: OSError(errno.EROFS, 'Read-only file system'), False),
    'no memory': (lambda: MemoryError(), False),
    'ctrl-c': (lambda: KeyboardInterrupt(), True),
}


def base_session(ctx, disk, tiles=(16, 32, 64)):
    spec = random_spec(ctx, backscatter=ctx.chance(0.1), disk=disk, tiles=tiles)
    s = Session(ctx, spec, World(ctx, spec, ctx.pick([1.0, 1.5, 2.0])))
    s.progress = False
    s.add(n=ctx.pick([20, 60, 120]))
    if ctx.chance(0.8):
        s.random_grid(update=False, auto=0.1)
    for _ in range(ctx.integer(0, 3)):
        s.step(dict(add=2, remove=0.7, grid=1.5, reload=0, readd=0.4))
    while len(s.model.containers) < 2:
        s.add(n=ctx.pick([10, 40]))
    return s


class Operation:
    """an operation with its arguments fixed, the way to repeat it, and what has to be left of the soundings if it fails half way"""

    def __init__(self, ctx, s, kind):
        m = s.model
        self.kind, self.name, self.rows = kind, None, None
        if kind == 'add':
            self.rows, self.name = s.world.points(ctx.pick([5, 40, 120])), s.new_name()
            while self.name in m.containers:
                self.name = s.new_name()
            self.run = lambda g: g.add_points(np.copy(self.rows), self.name, ['f1.all'], EPSG, 'MLLW', progress_bar=False)
            self.label = 'add {} n={}'.format(self.name, len(self.rows))
        elif kind == 'remove':
            self.name = ctx.pick(list(m.containers))
            self.run = lambda g: g.remove_points(self.name, progress_bar=False)
            self.label = 'remove {}'.format(self.name)
        elif kind == 'grid':
            clear, update = ctx.chance(0.3), ctx.chance(0.6)
            algo = m.algo or ctx.pick(['mean', 'shoalest'])
            res = s.random_res()
            if ctx.chance(0.15) and s.spec.kind == 'vr' and s.spec.leaf <= 32:
                res = None
            self.run = lambda g: g.grid(algo, res, clear_existing=clear, regrid_option='update' if update else 'full', progress_bar=False)
            self.label = 'grid {} res={} clear={} {}'.format(algo, res, clear, 'update' if update else 'full')

    def repeat(self, g):
        """what a user does after the operation has failed"""
        self.tidy(g)
        self.run(g)

    def tidy(self, g):
        if self.kind == 'add' and self.name in g.container:
            g.remove_points(self.name, progress_bar=False)


def picture(spec, g):
    meta = metadata(g, EXTENTS)
    depths = {}

    def strip(m, path):
        depths[path] = m.pop('mean_depth')
        for k in EXTENTS:
            m.pop(k, None)
        m['container'] = {k: m['container'][k] for k in sorted(m['container'])}
        for k in list(m):
            if k.startswith('sub '):
                strip(m[k], path + '/' + k)
    strip(meta, '')
    return (observe(spec, g) if g.tiles is not None and not g.is_empty else {}, meta, depths)


def same_picture(ctx, a, b, label):
    d = diff_observed(a[0], b[0], rows_ordered=True) or diff_metadata(a[1], b[1])
    ctx.require(not d, lambda: '{}: {}'.format(label, d))
    for k in a[2]:
        ctx.require(k in b[2] and abs(a[2][k] - b[2][k]) <= 0.0021, lambda: '{}: mean depth {} is {} and {}'.format(label, k, a[2][k], b[2].get(k)))
    ctx.saw('states_compared')


def nothing_lost(ctx, s, op, g, label):
    """soundings in memory right after the failure: those of the other containers are all there, for a gridding all of them are"""
    m = s.model
    tiles = leaves(s.spec, g) if g.tiles is not None else {}
    for lid in m.live():
        for name in m.leaf_containers(lid):
            if op.kind == 'remove' and name == op.name:
                continue
            want = m.leaf_rows(lid, name)
            ctx.require(lid in tiles and name in tiles[lid].container, lambda: '{}: tile {} has lost the container {}'.format(label, lid, name))
            i, j = tiles[lid].container[name]
            ctx.require(same_rows(asarr(tiles[lid].data)[i:j], want), lambda: '{}: tile {} does not have the soundings of {} any more'.format(label, lid, name))
            ctx.saw('container_ranges_checked')
    for name in m.containers:
        if not (op.kind == 'remove' and name == op.name):
            ctx.require(list(g.container.get(name, ['gone'])) == m.files[name], lambda: '{}: files of {} are {}'.format(label, name, g.container.get(name)))


def as_before(ctx, s, before, g, label):
    """an addition that has failed is taken back with a removal"""
    d = diff_observed(before[0], observe(s.spec, g), what=('rows', 'container', 'cells'))
    ctx.require(not d, lambda: '{}: {}'.format(label, d))
    ctx.require(g.number_of_tiles == before[1] and g.points_count == before[3] and abs(g.mean_depth - before[2]) <= 0.0021,
                lambda: '{}: number of tiles, mean depth and points were {} and are {}'.format(label, before[1:], (g.number_of_tiles, g.mean_depth, g.points_count)))
    ctx.require(list(g.container) == list(s.model.containers), lambda: '{}: containers are {}'.format(label, list(g.container)))
    ctx.saw('additions_taken_back')


def attempt(ctx, fn, g):
    """(exception or None) of a call that is allowed to fail"""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            fn(g)
    except (Exception, KeyboardInterrupt) as e:
        return e
    return None


def case_c36(ctx):
    from bathygrid.convenience import load_grid
    if ctx.chance(0.12):
        return failed_save(ctx)
    s = base_session(ctx, True)
    spec, m = s.spec, s.model
    op = Operation(ctx, s, ctx.pick(['add', 'remove', 'grid', 'grid', 'grid']))
    g8 = gate()

    def fresh():
        spec.folder = ctx.folder(stem='copy')
        shutil.copytree(home, spec.folder)
        return ctx.sut('load_grid', load_grid, spec.folder)
    home = spec.folder
    g = fresh()
    with armed(g8, spec.folder, deletions=True):
        ctx.sut(op.label, op.run, g)
    total = g8.count
    want, want_disk = picture(spec, g), picture(spec, ctx.sut('load_grid', load_grid, spec.folder))
    before = ctx.sut('load_grid', load_grid, home)
    before = (observe(spec, before), before.number_of_tiles, before.mean_depth, before.points_count)
    same_picture(ctx, want, want_disk, '{}: memory and disk without any error'.format(op.label))
    points = sorted({ctx.integer(1, total) for _ in range(5 if ctx.tier == 'quick' else 12)} | {ctx.pick([1, total])})
    for at in points:
        err = ctx.pick(list(ERRORS))
        make, deletions = ERRORS[err]
        sticky = ctx.chance(0.3) and err != 'ctrl-c'
        if not deletions:
            at = max(1, int(at * 0.7))     # fewer events without the deletions
        g = fresh()
        with armed(g8, spec.folder, at, make, sticky, deletions):
            failed = attempt(ctx, op.run, g)
        fired, where = g8.fired, g8.where
        label = '{} with {} at write {} ({})'.format(op.label, err, at, where)
        ctx.event(label + (' -> {!r}'.format(failed) if failed is not None else ' -> no exception'))
        if not fired and failed is None:
            ctx.saw('faults_not_reached')
        elif not fired:
            raise Violation('{} raised {!r} at {}'.format(label, failed, _where(failed)))
        else:
            ctx.saw('faults_injected', fired)
            ctx.saw('operations_that_failed', failed is not None)
            ctx.mark(spec.kind, spec.backend, op.kind, err, 'sticky' if sticky else 'once', 'raised' if failed is not None else 'harmless')
        if failed is not None:
            nothing_lost(ctx, s, op, g, 'after {}'.format(label))
            # the next try can fail as well
            for _ in range(ctx.pick([0, 0, 1, 2])):
                again = ctx.integer(1, total)
                with armed(g8, spec.folder, again, make, False, deletions):
                    second = attempt(ctx, op.repeat, g)
                ctx.event('repeated with {} at write {} ({}) -> {!r}'.format(err, again, g8.where, second))
                if second is None:
                    break
                if not g8.fired:
                    raise Violation('repeating after {} raised {!r} at {}'.format(label, second, _where(second)))
                ctx.saw('repeated_failures')
                nothing_lost(ctx, s, op, g, 'after a second failure of {}'.format(label))
            if op.kind == 'add' and op.name in g.container:
                ctx.sut('remove what was added', op.tidy, g)
                as_before(ctx, s, before, g, 'removed after {}'.format(label))
                as_before(ctx, s, before, ctx.sut('load_grid', load_grid, spec.folder), 'loaded after {} was removed'.format(label))
            ctx.sut('repeat the operation', op.repeat, g)
            ctx.saw('operations_repeated')
        same_picture(ctx, want, picture(spec, g), '{}, then repeated, differs in memory from a run without errors'.format(label))
        same_picture(ctx, want_disk, picture(spec, ctx.sut('load_grid', load_grid, spec.folder)), '{}, then repeated, differs on disk from a run without errors'.format(label))
        shutil.rmtree(spec.folder, ignore_errors=True)


def failed_save(ctx):
    """a grid in memory is saved, which fails, and saved again"""
    from bathygrid.convenience import load_grid
    s = base_session(ctx, False)
    if s.spec.folder:
        s.spec.folder = ''
    spec, g8 = s.spec, gate()
    want = picture(spec, s.g)
    dest = ctx.folder(stem='saved')
    save = lambda g: g.save(dest, progress_bar=False)
    for _ in range(ctx.integer(1, 3)):
        at, err = int(ctx.rng.integers(1, 200)), ctx.pick(list(ERRORS))
        make, deletions = ERRORS[err]
        with armed(g8, dest, at, make, False, deletions):
            failed = attempt(ctx, save, s.g)
        label = 'save with {} at write {} ({})'.format(err, at, g8.where)
        ctx.event(label + ' -> {!r}'.format(failed))
        if failed is not None and not g8.fired:
            raise Violation('{} raised {!r} at {}'.format(label, failed, _where(failed)))
        if g8.fired:
            ctx.saw('faults_injected')
            ctx.saw('operations_that_failed', failed is not None)
            ctx.mark(spec.kind, spec.backend, 'save', err, 'raised' if failed is not None else 'harmless')
        same_picture(ctx, want, picture(spec, s.g), 'after {}'.format(label))
    ctx.sut('save again', save, s.g)
    ctx.saw('operations_repeated')
    same_picture(ctx, want, picture(spec, s.g), 'saved after failures')
    same_picture(ctx, want, picture(spec, ctx.sut('load_grid', load_grid, dest)), 'loaded from a folder that was saved after failures')


register('C36', case_c36, 'errors (disk full, input/output, quota, read only, out of memory, ctrl-c; once or until the operation gives up, up to three failures in a row) at random writes of an '
         'addition, removal, gridding or save, injected from audit events of the interpreter; the operation has to raise or do no harm, no sounding of another container is missing after it, and '
         'once repeated the grid in memory and in the folder equals the one of a run without errors', quick=70, thorough=1500, nontrivial='operations_that_failed',
         least={'faults_injected': 200, 'operations_that_failed': 180, 'operations_repeated': 180, 'states_compared': 500}, level='fault_enumeration')


# ------------------------------------------------------------------------------------------------------------- C37

def stored_soundings(path, dtype):
    """every sounding that can be found in the arrays below path, whatever they are called"""
    import dask.array as da
    found = []
    for root, dirs, files in os.walk(path):
        try:
            if 'info' in files:
                arr = da.from_npy_stack(root)
            elif '.zarray' in files or 'zarr.json' in files:
                arr = da.from_zarr(root)
            else:
                continue
            if arr.dtype.names and {'x', 'y', 'z'} <= set(arr.dtype.names):
                found.append(arr.compute()[list(dtype.names)].astype(dtype))
        except Exception:   # half written
            continue
    return np.concatenate(found) if found else np.zeros(0, dtype=dtype)


def missing(want, have):
    """rows of want that are not in have, as multisets"""
    from collections import Counter
    count = Counter(r.tobytes() for r in have)
    out = []
    for r in want:
        k = r.tobytes()
        if count[k] > 0:
            count[k] -= 1
        else:
            out.append(r)
    return out


def case_c37(ctx):
    from bathygrid.convenience import load_grid
    s = base_session(ctx, True)
    spec, m, g8 = s.spec, s.model, gate()
    home = spec.folder
    dtype = np.dtype([(n, np.float64) for n in spec.fields])
    flat = lambda rows: np.ascontiguousarray(rows[list(dtype.names)].astype(dtype))
    per_leaf = {lid: flat(m.leaf_rows(lid)) for lid in m.live()}
    everything = np.concatenate(list(per_leaf.values()))
    if missing(everything, flat(stored_soundings(home, dtype))):
        raise Inconclusive('the stored soundings are not found in arrays with named fields')
    op = Operation(ctx, s, ctx.pick(['grid', 'grid', 'grid', 'add', 'remove']))
    parent = ctx.folder(stem='parent')

    def fresh():
        shutil.rmtree(parent, ignore_errors=True)
        shutil.copytree(home, os.path.join(parent, 'grid'))
        shutil.copytree(home, os.path.join(parent, 'grid_2'))
        return ctx.sut('load_grid', load_grid, os.path.join(parent, 'grid'))
    g = fresh()
    with armed(g8, parent, deletions=True):
        ctx.sut(op.label, op.run, g)
    total = g8.count
    sibling = tree_digest(os.path.join(parent, 'grid_2'))
    for at in sorted({ctx.integer(1, total) for _ in range(10 if ctx.tier == 'quick' else 30)} | {1, total}):
        g = fresh()
        ctx.event('{} killed at change {} of {}'.format(op.label, at, total))
        if ctx.chance(0.15):
            pid = os.fork()
            if pid == 0:
                try:
                    with armed(g8, parent, at, lambda: os._exit(9), True, True):
                        attempt(ctx, op.run, g)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            ctx.saw('processes_killed')
        else:
            with armed(g8, parent, at, Cut, True, True):
                try:
                    attempt(ctx, op.run, g)
                except Cut:
                    pass
        ctx.saw('operations_cut_short')
        label = '{} killed at change {} of {} ({})'.format(op.label, at, total, g8.where)
        have = flat(stored_soundings(os.path.join(parent, 'grid'), dtype))
        lost = missing(everything, have)
        if op.kind == 'grid':
            ctx.require(not lost, lambda: '{}: {} of {} stored soundings are not in the folder any more'.format(label, len(lost), len(everything)))
            ctx.require(len(have) == len(everything), lambda: '{}: the folder has {} soundings, {} before'.format(label, len(have), len(everything)))
        else:
            if op.kind == 'remove':
                lost = missing(np.concatenate([flat(m.containers[n]) for n in m.containers if n != op.name]), have)
            harmed = {leaf_of(m, r) for r in lost}
            ctx.require(len(harmed) <= 1, lambda: '{}: soundings of {} tiles are not in the folder any more'.format(label, len(harmed)))
            if op.kind == 'add':
                touched = {leaf_of(m, r) for r in op.rows}
                ctx.require(harmed <= touched, lambda: '{}: soundings of tile {} are gone, it gets no soundings in this operation'.format(label, sorted(harmed - touched)))
        d = diff_tree(sibling, tree_digest(os.path.join(parent, 'grid_2')))
        ctx.require(not d, lambda: '{}: the grid in the neighbouring folder: {}'.format(label, d))
        ctx.saw('soundings_checked', len(everything))
        ctx.mark(spec.kind, spec.backend, op.kind, min(at * 8 // total, 7))


def leaf_of(m, row):
    one = np.array([tuple(row)], dtype=row.dtype)
    return tuple(int(v) for v in m.locate(one)[0])


register('C37', case_c37, 'additions, removals and griddings of grids in a folder are ended at random changes of the file system (nothing is written from then on; some in a process that really exits); '
         'the soundings stored in the folder are collected from the arrays and compared with those of the grid, neighbouring grids byte for byte', quick=60, thorough=1200,
         nontrivial='operations_cut_short', least={'operations_cut_short': 500, 'soundings_checked': 30000, 'processes_killed': 40}, level='fault_enumeration')
