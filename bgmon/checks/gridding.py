"""C04 mean, C05 shoalest, C06 density and statistics, C07 history independence, C08 update mode, C13 tiling independence,
C14 automatic resolution"""
import numpy as np

from bgmon.checks import register
from bgmon.core import Violation
from bgmon.world import (DEPTH_LOOKUP, EPSG, VREF_UP, RefCells, Session, Spec, World, asarr, density_resolution, depth_resolution, expected_leaf, is_grid, iter_leaves, lattice, leaf_origin,
                         leaves, random_spec, tile_cells)


def expect_layers(s, op, lid, cells):
    """the tile has been gridded at exactly the resolutions the history asked for"""
    want = s.model.snap.get(lid, {})
    s.ctx.require(set(cells) == set(want), lambda: 'after {}: tile {} has layers at {} expected {}'.format(op, lid, sorted(cells), sorted(want)))
    return want


def cell_values(algo, uncertainty=True):
    def monitor(s, op):
        ctx, m, spec = s.ctx, s.model, s.spec
        for lid, t in leaves(spec, s.g).items():
            cells = tile_cells(t)
            for res in expect_layers(s, op, lid, cells):
                ref = m.ref(lid, res)
                if ref.algo != algo:
                    continue
                got = cells[res]
                ctx.require(set(got) == ref.layer_names(spec.depth_key), lambda: 'after {}: tile {} has the layers {} expected {}'.format(
                    op, lid, sorted(got), sorted(ref.layer_names(spec.depth_key))))
                bad = ref.check_depth(got[spec.depth_key])
                ctx.require(not bad, lambda: 'after {}: tile {} at {} m {}: {}'.format(op, lid, res, spec.depth_key, bad))
                if uncertainty:
                    bad = ref.check_uncertainty(got)
                    ctx.require(not bad, lambda: 'after {}: tile {} at {} m: {}'.format(op, lid, res, bad))
                filled = int((ref.count > 0).sum())
                ctx.saw('cells_compared', filled)
                ctx.saw('cells_with_several_soundings', int((ref.count > 1).sum()))
                ctx.saw('empty_cells_compared', int((ref.count == 0).sum()))
                ctx.mark(spec.kind, spec.backend, 'disk' if spec.folder else 'mem', res)
    return monitor


def grid_history(ctx, algo, monitors, **speckw):
    spec = random_spec(ctx, **speckw)
    w = World(ctx, spec, ctx.pick([1.0, 2.0]))
    s = Session(ctx, spec, w, monitors)
    s.add(n=ctx.pick([20, 80, 250, 600]))
    if ctx.chance(0.6):
        s.add(n=ctx.pick([20, 80, 250]))
    s.random_grid(algos=(algo,), auto=0.15)
    for _ in range(ctx.integer(1, 4 if not spec.folder else 2)):
        k = s.step(dict(add=2, remove=1, readd=0.5, grid=2.5, reload=0.6)) if s.model.algo in ('', algo) else None
    if s.model.containers:
        s.grid(algo, s.random_res(), clear=ctx.chance(0.5))
    return s


def only(algo):
    """keep a session to one algorithm"""
    class OneAlgo(Session):
        def random_grid(self, update=None, clear=None, auto=0.2, algos=(algo,), use_dask=False):
            ctx = self.ctx
            clear = ctx.chance(0.3) if clear is None else clear
            update = ctx.chance(0.5) if update is None else update
            res = self.random_res()
            if ctx.chance(auto) and (self.spec.kind == 'vr' or not update or clear):
                if self.spec.leaf <= 64 or float(np.mean(self.model.all_rows()['z'])) > 25:
                    res = None
            return self.grid(algo, res, clear, update, mode=ctx.pick(['depth', 'density']) if res is None else 'depth')
    return OneAlgo


def algo_case(algo):
    cls = only(algo)

    def case(ctx):
        if algo == 'shoalest' and ctx.index == 0:
            return positive_up_shoalest(ctx)
        spec = random_spec(ctx, origin=0.1)
        w = World(ctx, spec, ctx.pick([0.7, 1.5, 2.0]))
        s = cls(ctx, spec, w, [cell_values(algo)])
        for _ in range(ctx.integer(1, 3)):
            s.add(n=ctx.pick([20, 80, 250, 600]))
        if ctx.chance(0.15):
            # thousands of soundings in a cell, as in deep water with coarse cells
            s.add(n=ctx.pick([3000, 12000]), style='uniform')
            s.grid(algo, spec.leaf / ctx.pick([1, 2]))
            ctx.saw('dense_cells')
        s.random_grid(auto=0.15)
        for _ in range(ctx.integer(1, 4 if not spec.folder else 2)):
            s.step(dict(add=2, remove=1, readd=0.5, grid=2.5, reload=0.6))
        if s.model.containers:
            s.grid(algo, s.random_res(), clear=ctx.chance(0.5))
    return case


def positive_up_shoalest(ctx):
    """KF2: with a height (positive up) vertical reference the shoalest sounding is the highest value"""
    spec = Spec('sr', 'numpy', 16, 16)
    rows = np.zeros(2, dtype=spec.dtype)
    rows['x'], rows['y'], rows['z'], rows['tvu'], rows['thu'] = 4.25, 4.25, [-12.0, -7.0], [1.0, 2.0], [1.0, 2.0]
    g = ctx.sut('create', spec.build)
    ctx.sut('add heights -12 and -7', g.add_points, rows, 'a', None, EPSG, VREF_UP, progress_bar=False)
    ctx.sut('grid shoalest', g.grid, 'shoalest', 1.0, progress_bar=False)
    cells = list(tile_cells(list(iter_leaves(g))[0]).values())[0]
    v = float(cells['depth'][4, 4])
    ctx.saw('cells_compared')
    ctx.require(v in (-12.0, -7.0), 'shoalest of the heights -12, -7 is {}'.format(v))
    if v != -7.0:
        ctx.known_finding('shoalest-of-heights', 'shoalest of the heights -12 and -7 (positive up) is {}'.format(v))


RULE = 'random soundings (clustered, on cell edges, ties, negative and positive z) gridded, updated and regridded at random power of two resolutions; every cell of ' \
       'every tile is compared with a float64 reference gridding; non trivial when populated cells were compared'
register('C04', algo_case('mean'), RULE, quick=150, thorough=3500, nontrivial='cells_compared',
         least={'cells_compared': 30000, 'cells_with_several_soundings': 5000, 'monitor_evaluations': 2000})
register('C05', algo_case('shoalest'), RULE, quick=150, thorough=3500, nontrivial='cells_compared',
         least={'cells_compared': 30000, 'cells_with_several_soundings': 5000, 'monitor_evaluations': 2000})


# ------------------------------------------------------------------------------------------------------------- C06

def multiset(values, decimals=None):
    a = np.asarray(list(values), dtype=np.float64)
    return np.sort(a)


def statistics(s, op):
    ctx, m, spec, g = s.ctx, s.model, s.spec, s.g
    want_count, dens, dens_m2, area, depths, pairs = {}, [], [], 0.0, [], []
    unc = {}
    for lid, t in leaves(spec, g).items():
        cells = tile_cells(t)
        for res in expect_layers(s, op, lid, cells):
            ref = m.ref(lid, res)
            bad = ref.check_density(cells[res]['density']) if 'density' in cells[res] else 'density layer is missing'
            ctx.require(not bad, lambda: 'after {}: tile {} at {} m: {}'.format(op, lid, res, bad))
            ctx.require(int(cells[res]['density'].sum()) == len(ref.rows), lambda: 'after {}: density of tile {} adds up to {} with {} soundings'.format(
                op, lid, cells[res]['density'].sum(), len(ref.rows)))
            filled = ref.count[ref.count > 0]
            want_count[res] = want_count.get(res, 0) + len(filled)
            dens.extend(filled.tolist())
            dens_m2.extend((filled / res ** 2).tolist())
            area += len(filled) * res ** 2
            depths.extend(ref.depth[ref.count > 0].tolist())
            pairs.append(np.column_stack([filled, ref.depth[ref.count > 0]]))
            ctx.saw('density_cells', len(filled))
            for lyr in ref.unc:
                unc.setdefault(lyr, []).extend(ref.unc[lyr][ref.count > 0].tolist())
    if not dens or op not in ('grid', 'reload'):
        return
    ctx.saw('statistics_compared')
    tol = 1e-3 + 1e-6 * max(1.0, max(abs(d) for d in depths)) * 8
    got = {float(k): int(v) for k, v in g.cell_count.items()}
    ctx.require(got == want_count, lambda: 'cell_count is {} expected {}'.format(got, want_count))
    ctx.require(np.array_equal(multiset(g.density_count), multiset(dens)), lambda: 'density_count has {} entries, sum {}; expected {}, {}'.format(
        len(g.density_count), sum(g.density_count), len(dens), sum(dens)))
    a, b = multiset(g.density_per_square_meter), multiset(dens_m2)
    ctx.require(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9), 'density_per_square_meter differs from the soundings per cell area')
    ctx.require(abs(g.coverage_area_square_meters - area) <= 1e-6 * area + 1e-3 * len(want_count) * max(1, len(m.live())), lambda: 'coverage_area_square_meters is {} expected {}'.format(
        g.coverage_area_square_meters, area))
    ctx.require(abs(g.coverage_area_square_nm - area / 1852.0 ** 2) <= 2e-3 * area / 1852.0 ** 2 + 1e-6, lambda: 'coverage_area_square_nm is {} expected {}'.format(
        g.coverage_area_square_nm, area / 1852.0 ** 2))
    a, b = multiset(g.return_layer_values(spec.depth_key)), multiset(depths)
    ctx.require(a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol), 'return_layer_values({}) differs from the populated cells'.format(spec.depth_key))
    ctx.require(np.array_equal(multiset(g.return_layer_values('density')), multiset(dens)), 'return_layer_values(density) differs from the populated cells')
    for lyr in unc:
        a, b = multiset(g.return_layer_values(lyr)), multiset(unc[lyr])
        ctx.require(a.shape == b.shape and np.allclose(a, b, rtol=0, atol=2e-3), 'return_layer_values({}) differs from the populated cells'.format(lyr))
    if not spec.backscatter:
        for name, div in (('density_count_vs_depth', False), ('density_per_square_meter_vs_depth', True)):
            d, z = getattr(g, name)
            ctx.require(len(d) == len(z) == len(dens), lambda: '{} has {} and {} entries expected {}'.format(name, len(d), len(z), len(dens)))
            ctx.require(np.allclose(multiset(d), multiset(dens_m2 if div else dens), rtol=1e-6), lambda: '{} densities differ'.format(name))
            ctx.require(np.allclose(multiset(z), multiset(depths), rtol=0, atol=tol), lambda: '{} depths differ'.format(name))
            if not div:
                # the pairing matters: the soundings weighted mean depth does not survive a wrong pairing
                allp = np.concatenate(pairs)
                w1, w2 = float(np.dot(d, z)), float(np.dot(allp[:, 0], allp[:, 1]))
                ctx.require(abs(w1 - w2) <= tol * allp[:, 0].sum() + 1e-6, lambda: '{} pairs the counts with other depths'.format(name))
    names = {spec.depth_key, 'density'} | {l for f, l in (('tvu', 'vertical_uncertainty'), ('thu', 'horizontal_uncertainty')) if f in spec.fields}
    ctx.require(set(g.return_layer_names()) == names, lambda: 'return_layer_names {} expected {}'.format(g.return_layer_names(), names))
    ctx.require(set(g.layer_names) == names, lambda: 'layer_names {} expected {}'.format(g.layer_names, names))
    ctx.require(g.has_vertical_uncertainty == ('tvu' in spec.fields) and g.has_horizontal_uncertainty == ('thu' in spec.fields),
                'has_vertical_uncertainty/has_horizontal_uncertainty disagree with the soundings')


def case_c06(ctx):
    spec = random_spec(ctx, origin=0.1, backscatter=ctx.chance(0.15))
    w = World(ctx, spec, ctx.pick([0.7, 1.5, 2.0]))
    s = Session(ctx, spec, w, [statistics])
    for _ in range(ctx.integer(1, 3)):
        s.add(n=ctx.pick([20, 80, 250, 600]))
    s.random_grid(auto=0.15)
    for _ in range(ctx.integer(1, 4 if not spec.folder else 2)):
        s.step(dict(add=1.5, remove=1, readd=0.5, grid=3, reload=0.8))
        ctx.mark(spec.kind, spec.backend, 'disk' if spec.folder else 'mem', s.model.algo)


register('C06', case_c06, 'density of every cell, the sum per tile and the grid wide statistics against the reference counts, over random add/remove/grid/reload histories',
         quick=150, thorough=3500, nontrivial='statistics_compared', least={'density_cells': 30000, 'statistics_compared': 150, 'monitor_evaluations': 2000})


# ------------------------------------------------------------------------------------------------------------- C07

def global_cells(spec, grid, res=None):
    """{(res, ix, iy): {layer: value}} of all populated cells, ix/iy on the global cell lattice"""
    out = {}
    for lid, t in leaves(spec, grid).items():
        x0, y0 = leaf_origin(spec, lid)
        for r, lyrs in tile_cells(t).items():
            if res is not None and r != res:
                continue
            ix0, iy0 = int(round((x0 - spec.ox) / r)), int(round((y0 - spec.oy) / r))
            names = sorted(lyrs)
            stack = np.stack([lyrs[n].astype(np.float64) for n in names], axis=-1)
            for i, j in np.argwhere(lyrs['density'] > 0):
                out[(r, ix0 + j, iy0 + i)] = dict(zip(names, stack[i, j]))
    return out


def compare_global(ctx, a, b, label, zabs, maxcount=600, skip_uncertainty=False):
    ctx.require(set(a) == set(b), lambda: '{}: populated cells differ, only first {} only second {}'.format(
        label, sorted(set(a) - set(b))[:3], sorted(set(b) - set(a))[:3]))
    tol = 1.1e-3 + 2.6e-7 * zabs * 64
    for key in a:
        p, q = a[key], b[key]
        ctx.require(set(p) == set(q), lambda: '{}: cell {} has the layers {} and {}'.format(label, key, sorted(p), sorted(q)))
        for l in p:
            if skip_uncertainty and l.endswith('uncertainty'):
                continue
            t = 0.0 if l == 'density' else (tol if l in ('depth', 'intensity') else 1.5e-3)
            if not (abs(p[l] - q[l]) <= t):
                ctx.require(False, lambda: '{}: {} of cell {} is {} and {}'.format(label, l, key, p[l], q[l]))
    ctx.saw('cells_compared', len(a))
    ctx.counters['monitor_evaluations'] += len(a)


def case_c07(ctx):
    spec = random_spec(ctx)
    w = World(ctx, spec, ctx.pick([1.0, 2.0, 3.0]))
    s = Session(ctx, spec, w)
    algo = ctx.pick(['mean', 'shoalest'])
    auto = spec.kind == 'vr' and spec.leaf <= 64 and ctx.chance(0.35)
    res = None if auto else s.random_res()
    mode = ctx.pick(['depth', 'density'])
    s.add()
    s.grid(algo, res, mode=mode)
    n = ctx.integer(3, 8 if not spec.folder else 5)
    for i in range(n):
        op = s.step(dict(grid=0, add=3, remove=2, readd=1, reload=0.7))
        if s.model.containers and (ctx.chance(0.5) or i == n - 1):
            if not auto and ctx.chance(0.3):
                # a detour over another resolution, which the tiles forget about again
                s.grid(algo, s.random_res(), clear=True)
                if ctx.chance(0.6):
                    s.step(dict(grid=0, add=3, remove=2 if len(s.model.containers) > 1 else 0, readd=1, reload=0.7))
                s.grid(algo, res, clear=True, mode=mode)
                ctx.saw('detours')
            s.grid(algo, res, clear=False, update=ctx.chance(0.8), mode=mode)
            ctx.mark(spec.kind, spec.backend, algo, 'auto' if auto else 'fixed', op)
    if not s.model.containers:
        s.add()
    how = ctx.pick(['update', 'update', 'full', 'clear'])
    # a full run that does not clear leaves the layers of a former automatic resolution, so that is only used with a fixed resolution
    if auto and how == 'full':
        how = 'update'
    if auto:
        # leaves that were gridded more than once without clearing can carry several resolutions, bring them to one
        s.grid(algo, res, clear=True, mode=mode)
        s.add(n=30)
        how = 'update'
    s.grid(algo, res, clear=how == 'clear', update=how == 'update', mode=mode)
    final = global_cells(spec, s.g)
    zabs = float(np.max(np.abs(s.model.all_rows()['z'])))

    # the same containers, from scratch, in another order
    fresh_spec = spec.clone(folder='')
    order = list(s.model.containers)
    shuffle = ctx.chance(0.6)
    if shuffle:
        order = [order[i] for i in ctx.rng.permutation(len(order))]
    f = ctx.sut('create from scratch', fresh_spec.build)
    for c in order:
        ctx.sut('scratch add {}'.format(c), f.add_points, np.copy(s.model.containers[c]), c, None, EPSG, 'MLLW', progress_bar=False)
    ctx.sut('scratch grid', f.grid, algo, res, clear_existing=True, auto_resolution_mode=mode, progress_bar=False)
    fresh = global_cells(fresh_spec, f)
    if auto:
        # the resolution of a leaf can flip on the rounding of the mean when the order changes, that is not a difference
        r1 = {lid: set(tile_cells(t)) for lid, t in leaves(spec, s.g).items()}
        r2 = {lid: set(tile_cells(t)) for lid, t in leaves(fresh_spec, f).items()}
        for lid in set(r1) & set(r2):
            if r1[lid] != r2[lid]:
                mean = float(np.mean(s.model.leaf_rows(lid)['z'].astype(float)))
                ctx.require(mode == 'density' or len(depth_resolution(mean, spec.leaf)) > 1,
                            lambda: 'tile {} is gridded at {} but from scratch at {}'.format(lid, r1[lid], r2[lid]))
                ctx.saw('resolution_on_a_band_boundary')
                return
    ties = algo == 'shoalest' and shuffle  # which of several equally shoal soundings provides the uncertainty is not specified
    compare_global(ctx, final, fresh, 'history and from scratch', zabs, skip_uncertainty=ties)
    ctx.saw('histories_compared')
    # gridding again without a change gives the same answer
    s.grid(algo, res, clear=ctx.chance(0.5), update=ctx.chance(0.5), mode=mode)
    compare_global(ctx, final, global_cells(spec, s.g), 'gridding twice', zabs)


register('C07', case_c07, 'random histories of add/remove/re-add/reload with updates and full griddings, ending in a gridding that is compared cell by cell with a grid that '
         'is built from scratch from the surviving containers in a shuffled order, and with itself gridded once more',
         quick=130, thorough=3000, nontrivial='histories_compared', least={'histories_compared': 70, 'cells_compared': 4000})


# ------------------------------------------------------------------------------------------------------------- C08

def flags(s, op):
    ctx, m = s.ctx, s.model
    got = {lid: bool(t.point_count_changed) for lid, t in leaves(s.spec, s.g).items()}
    want = {lid: lid in m.changed for lid in got}
    bad = [lid for lid in got if got[lid] != want[lid]]
    ctx.saw('flags_checked', len(got))
    ctx.require(not bad, lambda: 'after {}: point_count_changed of tile {} is {}, its soundings {} since it was gridded'.format(
        op, bad[0], got[bad[0]], 'changed' if want[bad[0]] else 'did not change'))
    ctx.require(bool(s.g.point_count_changed) == any(want.values()), lambda: 'after {}: point_count_changed of the grid is {}'.format(op, s.g.point_count_changed))


SENTINEL = 1000000


def plant(s):
    """mark the layers of every tile so that we can see which ones were computed again.  Returns the tiles that are marked"""
    marked = set()
    for lid, t in leaves(s.spec, s.g).items():
        for r in t.cells:
            d = asarr(t.cells[r]['density']) + SENTINEL
            t.cells[r]['density'] = d
            marked.add(lid)
    return marked


def unplant(s):
    for lid, t in leaves(s.spec, s.g).items():
        for r in t.cells:
            d = asarr(t.cells[r]['density'])
            if d.max() >= SENTINEL:
                t.cells[r]['density'] = d - SENTINEL


def case_c08(ctx):
    spec = random_spec(ctx, disk=ctx.chance(0.25))
    w = World(ctx, spec, ctx.pick([2.0, 3.0]))
    s = Session(ctx, spec, w, [flags])
    algo = ctx.pick(['mean', 'shoalest'])
    auto = spec.kind == 'vr' and spec.leaf <= 64 and ctx.chance(0.3)
    res = None if auto else s.random_res()
    for _ in range(ctx.integer(1, 3)):
        s.add(n=ctx.pick([30, 100, 200]))
    s.grid(algo, res)
    if not auto and ctx.chance(0.3):   # layers of several resolutions in the tiles
        res = s.random_res()
        s.grid(algo, res, update=ctx.chance(0.2))
        ctx.saw('tiles_with_several_resolutions')
    for _ in range(ctx.integer(2, 4)):
        for _ in range(ctx.integer(0, 2)):
            k = ctx.rng.random()
            if k < 0.5 or not s.model.containers:
                s.add(n=ctx.pick([1, 3, 15]), region=w.region(small=True))
            elif k < 0.8 and len(s.model.containers) > 1:
                s.remove()
            elif s.removed:
                name, rows = s.removed[-1]
                s.add(rows=rows, name=name if name not in s.model.containers else None)
        if ctx.chance(0.25):
            s.reload(elsewhere=not spec.folder)
        if not s.model.containers:
            s.add()
        if ctx.chance(0.3) and not auto:
            res = s.random_res()
        expect = set(s.model.changed) & s.model.live()
        kept = s.model.live() - expect
        marked = plant(s)
        clear = ctx.chance(0.12)
        s.grid(algo, res, clear=clear, update=True)
        if clear:
            expect, kept = s.model.live(), set()
        now = leaves(spec, s.g)
        for lid in sorted(expect):
            d = {r: l['density'] for r, l in tile_cells(now[lid]).items()}
            ctx.require(all(a.max() < SENTINEL for a in d.values()), lambda: 'update left tile {} alone although its soundings changed'.format(lid))
            ref_bad = [s.model.ref(lid, r).check_density(d[r]) for r in d if r in s.model.snap[lid]]
            ctx.require(not any(ref_bad) and set(d) == set(s.model.snap[lid]), lambda: 'updated tile {} is not gridded from its current soundings: {} {}'.format(lid, ref_bad, sorted(d)))
        for lid in sorted(kept):
            if lid in marked:
                d = {r: l['density'] for r, l in tile_cells(now[lid]).items()}
                ctx.require(set(d) == set(s.model.snap[lid]) and all(a.min() >= SENTINEL for a in d.values()), lambda: 'update gridded tile {} again although its soundings did not change'.format(lid))
        ctx.saw('tiles_updated', len(expect))
        ctx.saw('tiles_left_alone', len(kept))
        ctx.saw('updates')
        ctx.mark(spec.kind, spec.backend, 'auto' if auto else 'fixed', 'none' if not expect else ('all' if not kept else 'some'), 'clear' if clear else '')
        unplant(s)
        for lid, t in leaves(spec, s.g).items():
            for r, lyrs in tile_cells(t).items():
                ref = s.model.ref(lid, r)
                bad = ref.check_depth(lyrs[spec.depth_key])
                ctx.require(not bad, lambda: 'after the update tile {} at {} m is stale: {}'.format(lid, r, bad))


register('C08', case_c08, 'a small change (few soundings, one container removed or put back) on a gridded surface, then an update: density layers of all tiles are marked '
         'beforehand, so that regridded and untouched tiles can be told apart; the change flag of every tile is compared after each operation',
         quick=150, thorough=3500, nontrivial='updates', least={'tiles_updated': 400, 'tiles_left_alone': 800, 'flags_checked': 4000, 'updates': 150})


# ------------------------------------------------------------------------------------------------------------- C13

def case_c13(ctx):
    base = Spec('sr', 'numpy', 64.0, 16.0, fields=ctx.pick([('x', 'y', 'z', 'tvu', 'thu'), ('x', 'y', 'z')]))
    w = World(ctx, base, ctx.pick([1.0, 2.0, 3.0]))
    conts = [('c{}'.format(i), w.points(ctx.pick([1, 20, 100, 300]))) for i in range(ctx.integer(1, 3))]
    zabs = max(float(np.max(np.abs(r['z']))) for _, r in conts)
    algo = ctx.pick(['mean', 'shoalest'])
    res = ctx.pick([0.25, 0.5, 1.0, 2.0, 4.0, 8.0])
    configs = [('sr', 16.0, 16.0), ('sr', 32.0, 32.0), ('sr', 64.0, 64.0), ('sr', 256.0, 256.0), ('vr', 64.0, 16.0), ('vr', 64.0, 64.0), ('vr', 128.0, 32.0),
               ('vr', 32.0, 8.0)]
    first = None
    for k in ctx.rng.permutation(len(configs))[:4]:
        kind, tile, sub = configs[k]
        if (tile if kind == 'sr' else sub) / res > 128 or res > sub:
            continue
        spec = base.clone(kind=kind, tile=tile, sub=sub, backend=ctx.pick(['numpy', 'zarr']))
        g = ctx.sut('create {}'.format(spec.describe()), spec.build)
        for name, rows in conts:
            ctx.sut('add {}'.format(name), g.add_points, np.copy(rows), name, None, EPSG, 'MLLW', progress_bar=False)
        ctx.sut('grid {} {}'.format(algo, res), g.grid, algo, res, progress_bar=False)
        cells = global_cells(spec, g)
        total = sum(c['density'] for c in cells.values())
        ctx.require(total == sum(len(r) for _, r in conts), lambda: '{}: density adds up to {}'.format(spec.describe(), total))
        # what a user retrieves, in coordinates
        x, y, lyr, _, _ = ctx.sut('return_surf_xyz', g.return_surf_xyz, 'depth', res, False)
        arr = lyr[0]
        pts = {(int(np.floor(x[j] / res)), int(np.floor(y[i] / res))): float(arr[i, j]) for i, j in np.argwhere(~np.isnan(arr))}
        ctx.require(set(pts) == {(k[1], k[2]) for k in cells}, lambda: '{}: return_surf_xyz has other populated nodes than the tiles'.format(spec.describe()))
        ctx.mark(kind, tile, sub, res, algo)
        if first is None:
            first, firstname = cells, spec.describe()
        else:
            compare_global(ctx, first, cells, '{} and {}'.format(firstname, spec.describe()), zabs)
            ctx.saw('tilings_compared')


register('C13', case_c13, 'the same soundings gridded at one resolution by grids of different type and tile size; populated cells (global index) have to be the same with the same values',
         quick=140, thorough=3000, nontrivial='tilings_compared', least={'tilings_compared': 120, 'cells_compared': 8000})


# ------------------------------------------------------------------------------------------------------------- C14

def case_c14(ctx):
    kind = ctx.pick(['sr', 'vr'])
    mode = ctx.pick(['depth', 'density'])
    # a tile size that keeps the fine resolutions affordable
    spec = Spec(kind, ctx.pick(['numpy', 'zarr']), ctx.pick([16.0, 32.0, 64.0]) if ctx.chance(0.6) else ctx.pick([128.0, 256.0, 1024.0]), 16.0,
                folder=ctx.folder() if ctx.chance(0.2) else '')
    spec.sub = ctx.pick([8.0, 16.0, 32.0]) if spec.tile <= 64 else spec.tile / 4
    spec.sub = min(spec.sub, spec.tile)
    w = World(ctx, spec, ctx.pick([0.5, 1.0, 2.0]))
    big = spec.leaf > 64
    w.zstyle = ctx.pick(['deep', 'slope', 'flat', 'noisy'] + ([] if big else ['shallow']))
    deep = ctx.pick([45.0, 75.0, 120.0, 250.0, 600.0, 1000.0, 2000.0, 8000.0, 15000.0, 19000.0, 26000.0])
    w.z0 = deep if big else ctx.pick([1.0, 5.0, 9.0, 12.0, 19.0, 25.0, 41.0, 61.0, 81.0, 170.0, 350.0, deep])
    # different depth per quadrant, so that tiles end up at different resolutions
    steps = ctx.chance(0.5)
    s = Session(ctx, spec, w)
    for _ in range(ctx.integer(1, 3)):
        n = ctx.pick([1, 20, 150, 400, 2000])
        rows = w.points(n, style=ctx.pick(['uniform', 'uniform', 'cluster', 'lattice', 'edges']))
        if steps:
            rows['z'] *= 1 + lattice(rows['x'], w.cx, spec.leaf) % 3
        s.add(rows=rows)
    if len(s.model.containers) > 1 and ctx.chance(0.3):
        s.remove()
    if ctx.chance(0.2) and spec.folder:
        s.reload()
    m = s.model
    # a prior gridding must not influence the choice
    if ctx.chance(0.3):
        s.grid('mean', s.random_res() if not big else spec.leaf / 4)
    got = ctx.sut('grid auto {}'.format(mode), s.g.grid, 'mean', None, clear_existing=True, auto_resolution_mode=mode, progress_bar=False)
    tiles = leaves(spec, s.g)
    used = set()
    if kind == 'sr':
        if mode == 'depth':
            want = depth_resolution(float(np.mean(m.all_rows()['z'].astype(np.float64))), spec.tile)
        else:
            per = [density_resolution(m.leaf_rows(l), *leaf_origin(spec, l), spec.leaf) for l in tiles]
            want = {max(min(p) for p in per), max(max(p) for p in per)} | {v for p in per for v in p if max(min(q) for q in per) <= v <= max(max(q) for q in per)}
        for lid, t in tiles.items():
            have = {float(r) for r in t.cells}
            ctx.require(len(have) == 1 and have <= want, lambda: 'tile {} is gridded at {} expected {}'.format(lid, have, want))
            used |= have
        ctx.require(len(used) == 1, lambda: 'single resolution grid is gridded at {}'.format(used))
    else:
        for lid, t in tiles.items():
            want = expected_leaf(spec, m, lid, mode)
            have = {float(r) for r in t.cells}
            ctx.require(len(have) == 1 and have <= want, lambda: 'tile {} with mean depth {} and {} soundings is gridded at {} expected {}'.format(
                lid, np.mean(m.leaf_rows(lid)['z']), len(m.leaf_rows(lid)), have, want))
            used |= have
    for r in used:
        ctx.mark(kind, mode, r, spec.leaf)
        ctx.require(r <= spec.leaf and float(np.log2(r)).is_integer(), lambda: 'resolution {} does not divide the tile of {}'.format(r, spec.leaf))
    ctx.require([float(r) for r in got] == sorted(used) and [float(r) for r in s.g.resolutions] == sorted(used),
                lambda: 'grid returned {} resolutions {} but the tiles are gridded at {}'.format(got, s.g.resolutions, sorted(used)))
    ctx.require(s.g.grid_resolution == 'AUTO_' + mode.upper(), lambda: 'grid_resolution is {}'.format(s.g.grid_resolution))
    ctx.saw('auto_griddings')
    ctx.saw('tiles_with_an_automatic_resolution', len(tiles))
    # explicit resolution: exactly that one, everywhere
    r = spec.leaf / ctx.pick([1, 4, 8])
    got = ctx.sut('grid explicit {}'.format(r), s.g.grid, 'mean', r, clear_existing=True, progress_bar=False)
    ctx.require([float(v) for v in got] == [r] and all({float(v) for v in t.cells} == {r} for t in leaves(spec, s.g).values()) and float(s.g.grid_resolution) == r,
                lambda: 'explicit resolution {} gave {}'.format(r, got))


register('C14', case_c14, 'automatic gridding (depth lookup and density estimate) of grids whose tiles sit in different depth bands and densities; the resolution of every tile is '
         'compared with an independent evaluation of the documented rule', quick=170, thorough=3500, nontrivial='auto_griddings',
         least={'auto_griddings': 90, 'tiles_with_an_automatic_resolution': 600})
