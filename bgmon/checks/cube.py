"""C30 the hand off to, and the answer from, the CUBE kernel.  bathycube itself is not part of the repository: a recording stand in takes its place."""
import contextlib
import sys
import threading
import types

import numpy as np

from bgmon.checks import register
from bgmon.core import Violation
from bgmon.world import VREF_UP, Session, World, asarr, field_order, lattice, leaf_origin, leaves, random_spec, same_rows, tile_cells, observe, diff_observed, metadata, diff_metadata

CALLS = []
LOCK = threading.Lock()
SALT = [0, 0.2]


def surface(x, y, res):
    """what the stand in answers for the nodes at these centers: depth (NaN for some), uncertainty, ratio, hypotheses"""
    h = (np.floor(x / 0.25).astype(np.int64) * 73856093) ^ (np.floor(y / 0.25).astype(np.int64) * 19349663) ^ int(res * 4) ^ (SALT[0] * 83492791)
    h = (h ^ (h >> 13)) * 1274126177
    a, b, c, d = [((h >> s) & 0xffff) / 65536.0 for s in (1, 9, 21, 33)]
    depth = np.where(a < SALT[1], np.nan, 10 + 20 * b)
    return depth, 0.1 + c, 0.5 + 4.5 * d, 1 + ((h >> 5) & 3)


def run_cube_gridding(depth, horizontal_uncertainty, vertical_uncertainty, eastings, northings, numcols, numrows, min_easting, max_northing, method, iho_order,
                      grid_resolution_x, grid_resolution_y, variance_selection='cube', **kw):
    rows = np.zeros(len(depth), dtype=[(n, 'f8') for n in ('x', 'y', 'z', 'thu', 'tvu')])
    rows['x'], rows['y'], rows['z'], rows['thu'], rows['tvu'] = eastings, northings, depth, horizontal_uncertainty, vertical_uncertainty
    with LOCK:
        CALLS.append(dict(rows=rows, cols=int(numcols), nrows=int(numrows), x0=float(min_easting), y1=float(max_northing), method=method, iho=iho_order, resx=float(grid_resolution_x),
                          resy=float(grid_resolution_y), variance=variance_selection, extra=dict(kw)))
    cx = min_easting + (np.arange(numcols) + 0.5) * grid_resolution_x
    cy = max_northing - (np.arange(numrows) + 0.5) * grid_resolution_y
    d, u, r, n = surface(*np.meshgrid(cx, cy), grid_resolution_x)
    return d.astype(np.float32), u.astype(np.float32), r.astype(np.float32), n.astype(np.int32)


def install():
    """has to be called before bathygrid is imported"""
    package, module = types.ModuleType('bathycube'), types.ModuleType('bathycube.numba_cube')
    module.run_cube_gridding = run_cube_gridding
    package.numba_cube = module
    package.__path__ = []
    sys.modules['bathycube'], sys.modules['bathycube.numba_cube'] = package, module


def plain_rows(rows):
    out = np.zeros(len(rows), dtype=[(n, 'f8') for n in ('x', 'y', 'z', 'thu', 'tvu')])
    for n in out.dtype.names:
        out[n] = rows[n]
    return out


def minus(a, b):
    """multiset difference of two sets of rows, as a list of tuples, and whether b is contained in a"""
    from collections import Counter
    ca, cb = Counter(map(tuple, a.tolist())), Counter(map(tuple, b.tolist()))
    return ca - cb, not (cb - ca)


class CubeMonitor:
    """
    Keeps, per tile and resolution, what the tile has to hold: the answer of the kernel and the density of the soundings at the time of the gridding.
    """

    def __init__(self, ctx, session):
        self.ctx, self.s = ctx, session
        self.options = {}

    def border(self, rows, lid, near, size, upper):
        """soundings next to the square, in the four squares that share an edge with it, not farther than near"""
        spec = self.s.spec
        sx, sy = lattice(rows['x'], spec.ox, size), lattice(rows['y'], spec.oy, size)
        x0, y0 = spec.ox + lid[0] * size, spec.oy + lid[1] * size
        pick = np.zeros(len(rows), dtype=bool)
        for k, dist in (((lid[0], lid[1] - 1), y0 - rows['y']), ((lid[0], lid[1] + 1), rows['y'] - (y0 + size)), ((lid[0] - 1, lid[1]), x0 - rows['x']),
                        ((lid[0] + 1, lid[1]), rows['x'] - (x0 + size))):
            pick |= (sx == k[0]) & (sy == k[1]) & (dist <= near + (1e-9 if upper else -1e-9) * max(1.0, abs(x0), abs(y0)))
        return pick

    def check_calls(self, calls, touched, options, dask):
        ctx, s = self.ctx, self.s
        spec, m = s.spec, s.model
        seen = {}
        for c in calls:
            lid = (int(round((c['x0'] - spec.ox) / spec.leaf)), int(round((c['y1'] - spec.leaf - spec.oy) / spec.leaf)))
            x0, y0 = leaf_origin(spec, lid)
            ctx.require(c['x0'] == x0 and c['y1'] == y0 + spec.leaf, lambda: 'CUBE is given the corner {}, {}, which is no corner of a tile'.format(c['x0'], c['y1']))
            ctx.require(lid in touched, lambda: 'CUBE is run for the tile {} that was not to be gridded'.format(lid))
            ctx.require(lid not in seen, lambda: 'CUBE is run twice for the tile {}'.format(lid))
            seen[lid] = c
            res = m.latest[lid]
            n = int(round(spec.leaf / res))
            ctx.require((c['cols'], c['nrows'], c['resx'], c['resy']) == (n, n, res, res), lambda: 'CUBE is given {} x {} nodes at {}, {} for a tile with {} x {} cells at {}'.format(
                c['cols'], c['nrows'], c['resx'], c['resy'], n, n, res))
            got = (c['method'], c['iho'], c['variance'])
            want = (options.get('method', 'local'), options.get('iho_order', 'order1a'), options.get('variance_selection', 'cube'))
            ctx.require(got == want, lambda: 'CUBE is run with the options {} instead of {}'.format(got, want))
            own = plain_rows(m.leaf_rows(lid))
            extra, inside = minus(c['rows'], own)
            ctx.require(inside, lambda: 'CUBE is run for tile {} without some of the soundings of the tile ({} given, {} in the tile)'.format(lid, len(c['rows']), len(own)))
            every = m.all_rows()
            width = spec.leaf / 10
            atmost = self.border(every, lid, width, spec.leaf, True)
            if dask:
                width = min(width, 3 * res)
            least = self.border(every, lid, width, spec.leaf, False)
            if spec.kind == 'vr':   # the border soundings of the grid of the tile come with it
                f = int(round(spec.tile / spec.leaf))
                atmost |= self.border(every, (lid[0] // f, lid[1] // f), spec.tile / 10, spec.tile, True)
            _, ok = minus(plain_rows(every[atmost]), np.array(list(extra.elements()), dtype=own.dtype))
            ctx.require(ok, lambda: 'CUBE is run for tile {} with soundings that are not next to the tile, e.g. {}'.format(lid, list(extra)[:2]))
            _, ok = minus(np.array(list(extra.elements()), dtype=own.dtype), plain_rows(every[least]))
            ctx.require(ok, lambda: 'CUBE is run for tile {} without the soundings just beyond its border: {} given, {} within {} m'.format(lid, sum(extra.values()), int(least.sum()), width))
            ctx.saw('kernel_calls')
            ctx.saw('border_soundings', int(least.sum()))
        ctx.require(set(seen) == set(touched), lambda: 'CUBE is not run for the tiles {}'.format(sorted(set(touched) - set(seen))[:4]))

    def check_tiles(self, label):
        ctx, s = self.ctx, self.s
        spec, m = s.spec, s.model
        for lid, t in leaves(spec, s.g).items():
            cells = tile_cells(t)
            want = m.snap.get(lid, {})
            ctx.require(set(cells) == set(want), lambda: '{}: tile {} has layers at {} expected {}'.format(label, lid, sorted(cells), sorted(want)))
            for res in want:
                x0, y0 = leaf_origin(spec, lid)
                n = int(round(spec.leaf / res))
                cx = x0 + (np.arange(n) + 0.5) * res
                cy = y0 + (np.arange(n) + 0.5) * res
                d, u, r, h = surface(*np.meshgrid(cx, cy), res)
                ok = ~np.isnan(d)
                got = cells[res]
                ctx.require(set(got) == {'depth', 'density', 'total_uncertainty', 'hypothesis_ratio', 'hypothesis_count'}, lambda: '{}: tile {} has the layers {}'.format(label, lid, sorted(got)))
                for name, ref in (('depth', d), ('total_uncertainty', np.where(ok, u, np.nan)), ('hypothesis_ratio', np.where(ok, r, np.nan))):
                    a = got[name].astype(float)
                    same = a.shape == ref.shape and np.array_equal(np.isnan(a), np.isnan(ref)) and np.allclose(a[ok], ref[ok], rtol=0, atol=6e-4)
                    ctx.require(same, lambda: '{}: {} of tile {} at {} is not what CUBE returned for the nodes at that location'.format(label, name, lid, res))
                ctx.require(np.array_equal(got['hypothesis_count'], np.where(ok, h, 0)), lambda: '{}: hypothesis_count of tile {} at {} is not what CUBE returned'.format(label, lid, res))
                bad = m.ref(lid, res).check_density(got['density'])
                ctx.require(not bad, lambda: '{}: tile {} at {}: {}'.format(label, lid, res, bad))
                ctx.saw('cells_compared', n * n)
                ctx.saw('tiles_compared')


def container_query(ctx, s, mon):
    spec, m, g = s.spec, s.model, s.g
    for lid, t in leaves(spec, g).items():
        if lid not in m.snap or lid in m.changed or ctx.chance(0.5):
            continue
        res = ctx.pick(sorted(m.snap[lid]))
        name = ctx.pick(m.leaf_containers(lid))
        del CALLS[:]
        got = ctx.sut('query {} of tile {} at {}'.format(name, lid, res), t.get_layers_by_name, name, res)
        calls = list(CALLS)
        ctx.require(len(calls) == 1, lambda: 'query of container {}: CUBE is run {} times'.format(name, len(calls)))
        c = calls[0]
        x0, y0 = leaf_origin(spec, lid)
        n = int(round(spec.leaf / res))
        ctx.require((c['x0'], c['y1'], c['cols'], c['nrows'], c['resx'], c['resy']) == (x0, y0 + spec.leaf, n, n, res, res), 'query of a container: other nodes than those of the tile')
        if res == m.latest[lid]:
            used = mon.options[lid]
            opts, want = (c['method'], c['iho'], c['variance']), (used.get('method', 'local'), used.get('iho_order', 'order1a'), used.get('variance_selection', 'cube'))
            ctx.require(opts == want, lambda: 'query of container {} runs CUBE with the options {}, the tile was gridded with {}'.format(name, opts, want))
            ctx.saw('query_options')
        want = plain_rows(m.leaf_rows(lid, name))
        more, inside = minus(c['rows'], want)
        ctx.require(inside and not more, lambda: 'query of container {}: CUBE is given {} soundings, the container has {} in the tile'.format(name, len(c['rows']), len(want)))
        cx, cy = x0 + (np.arange(n) + 0.5) * res, y0 + (np.arange(n) + 0.5) * res
        d = surface(*np.meshgrid(cx, cy), res)[0]
        if np.isnan(d).all():
            ctx.require(got is None, 'query of a container: a surface although CUBE returned none')
        else:
            got = asarr(got).astype(float)
            ctx.require(np.array_equal(np.isnan(got), np.isnan(d)) and np.allclose(got, d, rtol=0, atol=6e-4, equal_nan=True), 'query of a container: not what CUBE returned for the nodes at that location')
        ctx.saw('container_queries')
    mon.check_tiles('after a container query')


INTLAYERS = ('density', 'hypothesis_count')


class Answer:
    """the layers that the tiles hold at a resolution, as one array per layer with row 0 in the south, by absolute position"""

    def __init__(self, s, res):
        spec = s.spec
        self.res, self.up = res, s.up
        held = {lid: tile_cells(t)[res] for lid, t in leaves(spec, s.g).items() if res in tile_cells(t)}
        n = int(round(spec.leaf / res))
        c0, r0 = min(l[0] for l in held), min(l[1] for l in held)
        shape = ((max(l[1] for l in held) - r0 + 1) * n, (max(l[0] for l in held) - c0 + 1) * n)
        self.x0, self.y0 = spec.ox + c0 * spec.leaf, spec.oy + r0 * spec.leaf
        self.layers = {l: np.full(shape, 0 if l in INTLAYERS else np.nan, dtype=float) for l in ('depth', 'density', 'total_uncertainty', 'hypothesis_ratio', 'hypothesis_count')}
        for lid, cells in held.items():
            for l, a in cells.items():
                self.layers[l][(lid[1] - r0) * n:(lid[1] - r0 + 1) * n, (lid[0] - c0) * n:(lid[0] - c0 + 1) * n] = a

    def within(self, layer, x0, y0, shape, zup=False):
        """the values of the layer that belong in an array with this origin and shape, and the number of values outside of it"""
        res = self.res
        dc, dr = (x0 - self.x0) / res, (y0 - self.y0) / res
        if dc != round(dc) or dr != round(dr):
            raise Violation('the origin {}, {} is not on the {} m cell lattice'.format(x0, y0, res))
        dc, dr = int(dc), int(dr)
        a = self.layers[layer]
        if layer == 'depth' and bool(zup) != bool(self.up):
            a = -a
        out = np.full(shape, 0 if layer in INTLAYERS else np.nan, dtype=float)
        ra, rb = max(0, dr), min(a.shape[0], dr + shape[0])
        ca, cb = max(0, dc), min(a.shape[1], dc + shape[1])
        full = int((a != 0).sum()) if layer in INTLAYERS else int((~np.isnan(a)).sum())
        if ra < rb and ca < cb:
            out[ra - dr:rb - dr, ca - dc:cb - dc] = a[ra:rb, ca:cb]
        here = int((out != 0).sum()) if layer in INTLAYERS else int((~np.isnan(out)).sum())
        return out, here, full

    def check(self, ctx, label, layer, arr, x0, y0, nodata=np.nan, zup=False):
        arr = asarr(arr).astype(float)
        want, here, full = self.within(layer, x0, y0, arr.shape, zup)
        if layer in INTLAYERS:
            if not np.isnan(nodata):
                arr = np.where((arr == int(nodata)) & (want == 0), 0, arr)
            same = arr == want
        else:
            want = np.where(np.isnan(want), np.float32(nodata), want)
            same = (arr == want) | (np.isnan(arr) & np.isnan(want))
        ctx.require(same.all(), lambda: '{}: {} differs in {} of {} cells from the answer of CUBE in the tiles, e.g. {} instead of {}'.format(
            label, layer, int((~same).sum()), same.size, arr[~same][0], want[~same][0]))
        ctx.saw('cells_viewed', int(here))
        return here, full


def views(ctx, s):
    """what CUBE returned is what the grid shows and exports"""
    import os
    from bgmon.files import Csv, NODATA, Raster
    from bgmon.checks.views import pick_nodata
    spec, g = s.spec, s.g
    every = {}
    for t in leaves(spec, g).values():
        for res, cells in tile_cells(t).items():
            for l, a in cells.items():
                every.setdefault(l, []).append(a[a != 0] if l in INTLAYERS else a[~np.isnan(a)])
            every.setdefault('pairs', []).append(np.stack([cells['density'][cells['density'] > 0].astype(float), cells['depth'][cells['density'] > 0].astype(float)], axis=1))
    for l in ('depth', 'density', 'total_uncertainty', 'hypothesis_ratio', 'hypothesis_count'):
        got = np.sort(np.asarray(ctx.sut('return_layer_values ' + l, g.return_layer_values, l), dtype=float))
        want = np.sort(np.concatenate(every[l]).astype(float))
        ctx.require(np.array_equal(got, want), lambda: '{} values of {}, the tiles have {}'.format(len(got), l, len(want)))
    n, d = ctx.sut('density_count_vs_depth', lambda: g.density_count_vs_depth)
    got, want = sorted(map(repr, zip(map(float, n), map(float, d)))), sorted(repr(tuple(x)) for x in np.concatenate(every['pairs']).tolist())
    ctx.require(got == want, 'density versus depth is not that of the cells with soundings')
    for res in sorted(float(r) for r in g.resolutions):
        if not any(res in tile_cells(t) for t in leaves(spec, g).values()):
            continue
        want = Answer(s, res)
        if np.isnan(want.layers['depth']).all():
            continue
        names = [str(l) for l in ctx.rng.permutation(list(want.layers))[:ctx.integer(1, 5)]]
        nodata, zup = pick_nodata(ctx), ctx.chance(0.4)
        label = '{} at {} m nodata={} up={}'.format(names, res, nodata, zup)
        full = ctx.sut('get_layers_by_name ' + label, g.get_layers_by_name, list(names), res, nodata, zup)
        for l, a in zip(names, full):
            here, there = want.check(ctx, 'layer ' + label, l, a, float(g.min_x), float(g.min_y), nodata, zup)
            ctx.require(here == there, lambda: '{}: {} of {} cells with a value missing'.format(label, there - here, there))
        found = {l: [0, 0] for l in names}
        for geo, dim, data in ctx.sut('get_chunks_of_tiles ' + label, lambda: list(g.get_chunks_of_tiles(res, list(names), nodata, zup, spec.tile * ctx.pick([1, 2, 100]), False))):
            ctx.require(sorted(data) == sorted(names), lambda: '{}: chunk with the layers {}'.format(label, sorted(data)))
            for l, a in data.items():
                a = asarr(a)
                k = want.check(ctx, 'chunk ' + label, l, a, float(geo[0]), float(geo[3]) - a.shape[0] * res, nodata, zup)
                found[l][0] += k[0]
                found[l][1] = k[1]
        ctx.require(all(v[0] == v[1] for v in found.values()), lambda: '{}: chunks with {} cells with a value'.format(label, found))
        # at points
        l = names[0]
        rows = s.model.all_rows()
        px, py = rows['x'].astype(float)[:200], rows['y'].astype(float)[:200]
        got = ctx.sut('layer_values_at_xy {} at {}'.format(l, res), g.layer_values_at_xy, px, py, l, res)
        c, r = lattice(px, want.x0, res).astype(int), lattice(py, want.y0, res).astype(int)
        arr, _, _ = want.within(l, want.x0, want.y0, want.layers[l].shape)
        ok = (c >= 0) & (r >= 0) & (c < arr.shape[1]) & (r < arr.shape[0])
        val = np.full(len(px), 0 if l in INTLAYERS else np.nan)
        val[ok] = arr[r[ok], c[ok]]
        same = (got == val) | (np.isnan(got) & np.isnan(val)) | (np.isnan(got) & (val == 0) & (l in INTLAYERS))
        ctx.require(same.all(), lambda: '{} queried at {}, {} is {} expected {}'.format(l, px[~same][0], py[~same][0], got[~same][0], val[~same][0]))
        ctx.saw('views_compared')
    # exports
    rezs = [r for r in sorted(float(r) for r in g.resolutions) if any(r in tile_cells(t) for t in leaves(spec, g).values()) and not np.isnan(Answer(s, r).layers['depth']).all()]
    if not rezs:
        return
    res, fmt, zup = ctx.pick(rezs), ctx.pick(['geotiff', 'bag', 'csv']), ctx.chance(0.5)
    want = Answer(s, res)
    if fmt == 'bag' and spec.ox == 0 and (abs(want.x0) < 1000 or abs(want.y0) < 1000):
        fmt = 'geotiff'   # GDAL takes a corner at 0, 0 for no georeference
    folder = ctx.folder(create=True, stem='ex')
    dim = spec.tile * ctx.pick([1, 2, 100])
    label = '{} at {} m up={} dim={}'.format(fmt, res, zup, dim)
    ctx.sut('export ' + label, g.export, os.path.join(folder, 'out'), fmt, zup, res, dim)
    if fmt == 'csv':
        f = Csv(os.path.join(folder, 'out_{}.csv'.format(res)))
        zname = 'elevation' if zup else 'depth'
        ctx.require(sorted(f.header) == sorted(['x', 'y', zname] + [l for l in want.layers if l != 'depth']), lambda: '{}: columns {}'.format(label, f.header))
        c, r = np.round((f.col['x'] - want.x0) / res - 0.5).astype(int), np.round((f.col['y'] - want.y0) / res - 0.5).astype(int)
        ctx.require(len(set(zip(c.tolist(), r.tolist()))) == f.n, lambda: '{}: cells with more than one row'.format(label))
        inside = (c >= 0) & (r >= 0) & (c < want.layers['depth'].shape[1]) & (r < want.layers['depth'].shape[0])
        for l in want.layers:
            arr, _, _ = want.within(l, want.x0, want.y0, want.layers[l].shape, zup)
            val = np.full(f.n, 0 if l in INTLAYERS else np.nan)
            val[inside] = arr[r[inside], c[inside]]
            got = f.col[zname if l == 'depth' else l]
            ok = (np.isnan(got) & np.isnan(val)) | (np.abs(got - val) <= 5.01e-4)
            ctx.require(ok.all(), lambda: '{}: {} is {} instead of {}'.format(label, l, got[~ok][0], val[~ok][0]))
            if l == 'depth':
                ctx.require(int((~np.isnan(val)).sum()) == int((~np.isnan(arr)).sum()), lambda: '{}: cells are missing'.format(label))
    else:
        total = [0, 0]
        files = sorted(f for f in os.listdir(folder) if f.endswith('.tif' if fmt == 'geotiff' else '.bag'))
        ctx.require(files, lambda: '{}: no files'.format(label))
        for name in files:
            x = Raster(os.path.join(folder, name))
            names = {'geotiff': ['Elevation' if zup else 'Depth', 'Total Uncertainty'], 'bag': ['elevation', 'uncertainty']}[fmt]
            ctx.require([n if fmt == 'geotiff' else n.lower() for n in x.names] == names, lambda: '{}: bands {}'.format(label, x.names))
            for l, a in zip(('depth', 'total_uncertainty'), x.bands):
                k = want.check(ctx, label, l, a, x.x0, x.y0, NODATA, zup or fmt == 'bag')
                total = [total[0] + k[0], total[1] + k[1] if name == files[0] else total[1]]
        ctx.require(total[0] == total[1], lambda: '{}: {} of {} values in the files'.format(label, total[0], total[1]))
    ctx.saw('exports')
    ctx.saw('exports:' + fmt)


def without_uncertainty(ctx):
    """CUBE needs both uncertainties, soundings that lack one are refused and nothing is altered"""
    spec = random_spec(ctx, tiles=(16, 32), fields=ctx.pick([('x', 'y', 'z'), ('x', 'y', 'z', 'tvu'), ('x', 'y', 'z', 'thu')]))
    s = Session(ctx, spec, World(ctx, spec, 1.5))
    s.add(n=40)
    gridded = ctx.chance(0.6)
    if gridded:
        s.random_grid(update=False)
        s.add(n=3)
    before, meta = observe(spec, s.g), metadata(s.g)
    e = ctx.rejects('grid cube without uncertainties', s.g.grid, 'cube', s.random_res(), clear_existing=gridded or ctx.chance(0.5), progress_bar=False)
    ctx.require(e is not None, 'CUBE is run with soundings that carry {}'.format(spec.fields))
    d = diff_observed(before, observe(spec, s.g), rows_ordered=True) or diff_metadata(meta, metadata(s.g))
    ctx.require(not d, lambda: 'after CUBE was refused ({!r}): {}'.format(e, d))
    s.grid('mean', s.random_res(), clear=True)
    ctx.saw('cube_refused')


def case_c30(ctx):
    from bathygrid import algorithms
    ctx.require(algorithms.cube_enabled, 'CUBE is not enabled although bathycube is there')
    if ctx.index % 11 == 5:
        return without_uncertainty(ctx)
    SALT[0], SALT[1] = ctx.integer(0, 10 ** 6), ctx.pick([0.0, 0.2, 0.6, 0.97])
    spec = random_spec(ctx, origin=0.15, tiles=(16, 32, 64), disk=ctx.chance(0.25), fields=ctx.pick([('x', 'y', 'z', 'tvu', 'thu'), ('z', 'thu', 'x', 'tvu', 'y')]))
    w = World(ctx, spec, ctx.pick([1.0, 2.0, 3.0]))
    s = Session(ctx, spec, w)
    s.up = ctx.chance(0.2)
    s.vref = VREF_UP if s.up else 'MLLW'
    mon = CubeMonitor(ctx, s)
    options = {}

    def grid():
        from dask.distributed import Client
        m = s.model
        clear, update = ctx.chance(0.3), ctx.chance(0.5)
        options.clear()
        if ctx.chance(0.7):
            options['method'] = ctx.pick(['local', 'prior', 'posterior', 'predict'])
        if ctx.chance(0.7):
            options['iho_order'] = ctx.pick(['exclusive', 'special', 'order1a', 'order1b', 'order2'])
        if ctx.chance(0.7):
            options['variance_selection'] = ctx.pick(['cube', 'input', 'max'])
        res, mode = s.random_res(), 'depth'
        if ctx.chance(0.2) and (spec.kind == 'vr' or not update or clear) and (spec.leaf <= 64 or float(np.mean(m.all_rows()['z'])) > 25):
            res, mode = None, ctx.pick(['depth', 'density'])
        extra = {'grid_parameters': dict(options) if options or ctx.chance(0.5) else None}
        del CALLS[:]
        dask = ctx.chance(0.12)
        with contextlib.ExitStack() as stack:
            if dask:
                from bgmon.checks import parallel
                import dask as d
                client = parallel.client_for('threads', 2)
                stack.enter_context(Client(parallel.CLIENTS[('threads', 2)][0]))
                stack.enter_context(d.config.set(scheduler='synchronous'))
                s.g.client = None
            s.grid('cube', res, clear, update, mode, use_dask=dask, extra=extra)
            s.g.client = None
        if extra['grid_parameters'] is not None:   # the caller goes on to use his options for something else
            extra['grid_parameters'].update(method='other', iho_order='other', variance_selection='other')
        mon.check_calls(list(CALLS), s.touched, options, dask)
        for lid in s.touched:
            mon.options[lid] = dict(options)
        mon.check_tiles('after gridding')
        ctx.mark(spec.kind, spec.backend, 'disk' if spec.folder else 'mem', 'update' if update else 'full', 'clear' if clear else '', 'auto' if res is None else 'explicit', 'dask' if dask else '')

    for _ in range(ctx.integer(1, 3)):
        s.add(n=ctx.pick([20, 80, 200, 400]), wrap=field_order(ctx))
    grid()
    for _ in range(ctx.integer(1, 4 if not spec.folder else 2)):
        op = s.step(dict(grid=0, add=2, remove=1, readd=0.5, reload=0.7))
        mon.check_tiles('after ' + op)
        if s.model.containers and ctx.chance(0.8):
            grid()
    if s.model.containers and ctx.chance(0.5):
        if ctx.chance(0.6):
            grid()
        container_query(ctx, s, mon)
    if s.model.containers and ctx.chance(0.6):
        if not any(tile_cells(t) for t in leaves(spec, s.g).values()):
            grid()
        views(ctx, s)
    if not spec.folder and ctx.chance(0.3) and s.model.containers:
        s.reload(elsewhere=True)
        mon.check_tiles('after saving and loading')


def teardown():
    from bgmon.checks import parallel
    parallel.teardown()


register('C30', case_c30, 'CUBE griddings (full, update, clear, automatic resolution, container queries, dask) with a recording stand in for the kernel, which answers with a surface that depends on '
         'the location of each node; every call and every cell compared with the model', quick=110, thorough=2500, nontrivial='kernel_calls', teardown=teardown, before_import=install,
         least={'kernel_calls': 900, 'border_soundings': 1500, 'cells_compared': 100000, 'container_queries': 60, 'views_compared': 40, 'exports': 30}, case_timeout=200)
