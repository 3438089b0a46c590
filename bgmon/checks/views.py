"""C15 retrieval, C16 point queries, C17 chunks, C21 signs, C26 container queries, C27 slopes, C28 backscatter, C29 neighbours, C33 reading"""
import os

import numpy as np

from bgmon.checks import register
from bgmon.checks.storage import diff_tree, tree_digest
from bgmon.core import Violation
from bgmon.world import (EPSG, VREF_DOWN, VREF_UP, RefCells, Session, World, asarr, diff_metadata, diff_observed, is_grid, lattice, leaf_origin, field_order, leaves, metadata,
                         observe, random_spec, tile_cells)

INTLAYERS = ('density', 'hypothesis_count')


# ---------------------------------------------------------------------------------------------------------- expected surface

class Surface:
    """what a grid should show at one resolution: {layer: values} of all populated cells by their absolute position"""

    def __init__(self, s, res, up=False):
        self.spec, self.res = s.spec, res
        cols, rows, vals = [], [], {}
        ctx, m = s.ctx, s.model
        self.tiles = set()
        for lid, t in leaves(s.spec, s.g).items():
            cells = tile_cells(t)
            if res not in cells:
                ctx.require(res not in m.snap.get(lid, {}), lambda: 'tile {} has no layers at {} although it was gridded there'.format(lid, res))
                continue
            ctx.require(res in m.snap.get(lid, {}), lambda: 'tile {} has layers at {} that were never gridded'.format(lid, res))
            self.tiles.add(lid)
            ref = m.ref(lid, res)
            # the values are those of the tile, and these are the ones of the soundings at that place
            bad = ref.check_depth(cells[res][s.spec.depth_key]) or ref.check_density(cells[res]['density'])
            ctx.require(not bad, lambda: 'tile {} at {}: {}'.format(lid, res, bad))
            i, j = np.nonzero(ref.count)
            x0, y0 = leaf_origin(s.spec, lid)
            cols.append(j + int(round((x0 - s.spec.ox) / res)))
            rows.append(i + int(round((y0 - s.spec.oy) / res)))
            for l, a in cells[res].items():
                vals.setdefault(l, []).append(a[i, j])
        self.col = np.concatenate(cols) if cols else np.zeros(0, int)
        self.row = np.concatenate(rows) if rows else np.zeros(0, int)
        self.vals = {l: np.concatenate(v) for l, v in vals.items()}
        self.layers = sorted(self.vals)
        self.up = up  # the soundings are heights
        self.n = len(self.col)

    def value(self, layer, z_positive_up=False):
        v = self.vals[layer]
        if layer == 'depth' and bool(z_positive_up) != bool(self.up):
            v = v * np.float32(-1)
        return v

    def place(self, x0, y0):
        """column and row of each populated cell in an array whose first cell is at x0, y0"""
        c = (x0 - self.spec.ox) / self.res
        r = (y0 - self.spec.oy) / self.res
        if c != round(c) or r != round(r):
            raise Violation('the origin {}, {} is not on the {} m cell lattice'.format(x0, y0, self.res))
        return self.col - int(c), self.row - int(r)

    def check(self, ctx, label, arrays, x0, y0, nodata=np.nan, z_positive_up=False, everything=True):
        """
        arrays {layer: 2d array, row 0 in the south}: all populated cells that belong in the array have their value, all other cells have the nodata value.
        Returns the mask of the cells of this surface that the array covers.
        """
        inside = None
        for layer, arr in arrays.items():
            arr = asarr(arr)
            ctx.require(arr.ndim == 2, lambda: '{}: {} has the shape {}'.format(label, layer, arr.shape))
            c, r = self.place(x0, y0)
            inside = (c >= 0) & (r >= 0) & (r < arr.shape[0]) & (c < arr.shape[1])
            if everything:
                ctx.require(inside.all(), lambda: '{}: {} of {} populated cells are outside of the {} array with origin {}, {} and shape {}'.format(
                    label, int((~inside).sum()), self.n, layer, x0, y0, arr.shape))
            got, want = arr[r[inside], c[inside]], self.value(layer, z_positive_up)[inside]
            same = got == want
            if not same.all():
                k = np.nonzero(~same)[0][0]
                cc, rr = self.col[inside][k], self.row[inside][k]
                ctx.require(False, lambda: '{}: {} is {} at {}, {} where the soundings give {} ({} of {} cells differ)'.format(
                    label, layer, got[k], self.spec.ox + (cc + 0.5) * self.res, self.spec.oy + (rr + 0.5) * self.res, want[k], int((~same).sum()), len(same)))
            rest = np.ones(arr.shape, dtype=bool)
            rest[r[inside], c[inside]] = False
            other = arr[rest]
            if layer in INTLAYERS:
                ok = (other == 0) if np.isnan(nodata) else ((other == 0) | (other == int(nodata)))
            elif np.isnan(nodata):
                ok = np.isnan(other)
            else:
                ok = other == np.float32(nodata)
            ctx.require(ok.all(), lambda: '{}: {} is {} in {} cells where no sounding was gridded'.format(label, layer, other[~ok][0], int((~ok).sum())))
            ctx.counters['monitor_evaluations'] += 2
            ctx.saw('cells_compared', int(inside.sum()))
            ctx.saw('empty_cells_compared', len(other))
            ctx.saw('layers_compared')
        return inside


def viewed_session(ctx, origin=0.1, backscatter=False, up=None, disk=None, settle=0.5, algos=('mean', 'shoalest'), fields=None, tiles=(16, 32, 64, 128), spans=(0.7, 1.5, 2.5), centers=None, elongated=0.12):
    """a grid in some reachable state: several resolutions, tiles that are gridded at some of them or not at all, reloads"""
    spec = random_spec(ctx, origin=origin, backscatter=backscatter, disk=disk, fields=fields, tiles=tiles)
    w = World(ctx, spec, ctx.pick(list(spans)), centers, elongated)
    s = Session(ctx, spec, w)
    layered = spec.kind == 'vr' and ctx.chance(0.35)
    if layered and not backscatter:
        w.zstyle = 'bands'
    up = ctx.chance(0.2) if up is None else up
    s.vref = VREF_UP if up else ctx.pick(['MLLW', VREF_DOWN])
    s.up = up
    for _ in range(ctx.integer(1, 3)):
        s.add(n=ctx.pick([1, 5, 40, 120, 300]))
    s.random_grid(update=False, clear=False, auto=0.4, algos=algos)
    for _ in range(ctx.integer(0, 3)):
        s.step(dict(add=1.5, remove=0.7, readd=0.4, grid=2, reload=0.8))
    if not s.model.containers:
        s.add(n=60)
    if not any(s.model.snap.get(l) for l in s.model.live()) or ctx.chance(settle):
        s.grid(s.model.algo or ctx.pick(list(algos)), s.random_res(), clear=ctx.chance(0.3), update=ctx.chance(0.2))
    if layered:
        # layers of one resolution everywhere, then those of the automatic resolutions on top: several answers at one location
        if ctx.chance(0.6):
            s.add(n=300, region=(w.cx - w.span / 2, w.cy - w.span / 2, w.span, w.span))
        s.grid(s.model.algo, ctx.pick([min(16.0, spec.leaf), min(32.0, spec.leaf), s.random_res()]), clear=ctx.chance(0.3))
        s.grid(s.model.algo, None, mode=ctx.pick(['depth', 'depth', 'density']))
        ctx.saw('grids_with_layers_on_top_of_each_other')
    # an update gridding with nothing to do leaves the tiles alone, make sure that there is something to look at
    if not any(s.model.snap.get(l) for l in s.model.live()):
        s.grid(s.model.algo, s.random_res())
    ctx.mark(spec.kind, spec.backend, 'disk' if spec.folder else 'mem', 'up' if up else 'down')
    return s


def resolutions_of(s):
    return sorted({r for lid in s.model.live() for r in s.model.snap.get(lid, {})})


def some_layers(ctx, surf):
    k = ctx.integer(1, len(surf.layers))
    return [surf.layers[i] for i in ctx.rng.permutation(len(surf.layers))[:k]]


def pick_nodata(ctx):
    return ctx.pick([np.nan, np.float32(np.nan), 1000000.0, -9999.0], p=[0.4, 0.2, 0.25, 0.15])


# ------------------------------------------------------------------------------------------------------------- C15

def mixed_variables(ctx):
    """a grid in which the soundings of one tile carry uncertainties and those of the other do not (known finding)"""
    from bathygrid.convenience import create_grid
    g = ctx.sut('create', create_grid, '', 'single_resolution', 'numpy', 16.0)
    one = np.array([(4.5, 4.5, 10.0, 0.5, 0.25)], dtype=[('x', 'f8'), ('y', 'f8'), ('z', 'f4'), ('tvu', 'f4'), ('thu', 'f4')])
    two = np.array([(20.5, 4.5, 12.0)], dtype=[('x', 'f8'), ('y', 'f8'), ('z', 'f4')])
    ctx.sut('add with uncertainties', g.add_points, one, 'a', None, EPSG, 'MLLW', progress_bar=False)
    ctx.sut('add without uncertainties, in another tile', g.add_points, two, 'b', None, EPSG, 'MLLW', progress_bar=False)
    ctx.sut('grid', g.grid, 'mean', 1.0, progress_bar=False)
    d = asarr(ctx.sut('depth', g.get_layers_by_name, 'depth', 1.0)[0])
    ctx.require(sorted(d[~np.isnan(d)].tolist()) == [10.0, 12.0], 'depth of a grid whose tiles carry different variables')
    e = ctx.rejects('vertical uncertainty', g.get_layers_by_name, 'vertical_uncertainty', 1.0)
    if e is not None:
        ctx.known_finding('uncertainty-of-mixed-tiles', 'vertical uncertainty of a grid with a tile whose soundings carry none: {!r}'.format(e))
    else:
        u = asarr(g.get_layers_by_name('vertical_uncertainty', 1.0)[0])
        ctx.require(u[~np.isnan(u)].tolist() == [0.5], 'vertical uncertainty of a grid whose tiles carry different variables')


def case_c15(ctx):
    if ctx.index == 0:
        mixed_variables(ctx)
    s = viewed_session(ctx)
    g, spec = s.g, s.spec
    rezs = resolutions_of(s)
    ctx.require(sorted(float(r) for r in set(g.resolutions)) == rezs or not set(map(float, g.resolutions)) - set(rezs), lambda: 'grid reports the resolutions {}, tiles have {}'.format(
        g.resolutions, rezs))
    for res in rezs:
        surf = Surface(s, res, s.up)
        for _ in range(2):
            layers, nodata, zup = some_layers(ctx, surf), pick_nodata(ctx), ctx.chance(0.4)
            ask = layers[0] if len(layers) == 1 and ctx.chance(0.5) else list(layers)
            label = '{} at {} m nodata={} up={}'.format(layers, res, nodata, zup)
            noarg = len(g.resolutions) == 1 and float(g.resolutions[0]) == res and ctx.chance(0.5)
            got = ctx.sut('get_layers_by_name ' + label, g.get_layers_by_name, ask, None if noarg else res, nodata, zup)
            ctx.require(isinstance(got, list) and len(got) == len(layers), lambda: '{} returned {}'.format(label, type(got)))
            for a in got:
                ctx.require(a.shape == (int(round(g.height / res)), int(round(g.width / res))), lambda: '{}: shape {} for an area of {} x {}'.format(label, a.shape, g.width, g.height))
            surf.check(ctx, 'get_layers_by_name ' + label, dict(zip(layers, got)), g.min_x, g.min_y, nodata, zup)

            data, mins, maxs = ctx.sut('get_layers_trimmed ' + label, g.get_layers_trimmed, ask, res, nodata, zup)
            for a in data:
                ctx.require(a.shape == (maxs[0] - mins[0], maxs[1] - mins[1]), lambda: 'get_layers_trimmed: shape {} with limits {} {}'.format(a.shape, mins, maxs))
            surf.check(ctx, 'get_layers_trimmed ' + label, dict(zip(layers, data)), g.min_x + mins[1] * res, g.min_y + mins[0] * res, nodata, zup)
            if np.isnan(nodata) and layers[0] not in INTLAYERS:
                c, r = surf.place(g.min_x, g.min_y)
                box = [[r.min(), c.min()], [r.max() + 1, c.max() + 1]]
                ctx.require([list(map(int, mins)), list(map(int, maxs))] == [list(map(int, b)) for b in box], lambda: 'get_layers_trimmed: limits {} {} expected {}'.format(mins, maxs, box))

            bounds = ctx.chance(0.5)
            x, y, surfs, mins, maxs = ctx.sut('return_surf_xyz {} boundaries={}'.format(label, bounds), g.return_surf_xyz, ask, res, bounds, nodata)
            shp = surfs[0].shape
            ctx.require(len(surfs) == len(layers) and len(x) == shp[1] + bounds and len(y) == shp[0] + bounds,
                        lambda: 'return_surf_xyz: {} x and {} y values for an array of {} (boundaries={})'.format(len(x), len(y), shp, bounds))
            for v in (x, y):
                ctx.require(np.allclose(np.diff(v), res, rtol=0, atol=1e-9), lambda: 'return_surf_xyz: coordinates are not {} m apart'.format(res))
            x0, y0 = (x[0], y[0]) if bounds else (x[0] - res / 2, y[0] - res / 2)
            surf.check(ctx, 'return_surf_xyz ' + label, dict(zip(layers, surfs)), x0, y0, nodata, False)

            seen = np.zeros(surf.n, dtype=int)
            for geo, dcol, drow, count, data in ctx.sut('get_tiles_by_resolution ' + label, lambda: list(g.get_tiles_by_resolution(res, ask, nodata, zup))):
                if not data:
                    continue
                ctx.require(set(data) == set(layers), lambda: 'get_tiles_by_resolution gave {} for {}'.format(sorted(data), layers))
                for a in data.values():
                    ctx.require(a.shape == (count, count) and count == round(spec.tile / res), lambda: 'get_tiles_by_resolution: tile of {} with {} cells'.format(a.shape, count))
                ctx.require(geo[1] == res and geo[5] == -res and geo[2] == 0 and geo[4] == 0, lambda: 'get_tiles_by_resolution: geotransform {}'.format(geo))
                seen += surf.check(ctx, 'get_tiles_by_resolution ' + label, data, float(geo[0]), float(geo[3]) - count * res, nodata, zup, everything=False)
                # the reported index is where the tile goes in the full array
                seen2 = surf.check(ctx, 'get_tiles_by_resolution index ' + label, data, g.min_x + drow * res, g.min_y + dcol * res, nodata, zup, everything=False)
            ctx.require((seen == 1).all(), lambda: 'get_tiles_by_resolution {}: {} cells missing, {} more than once'.format(label, int((seen == 0).sum()), int((seen > 1).sum())))

            rr, cc = [int(v) for v in ctx.pick(np.argwhere(g.tiles != None).tolist())]
            tile, data, geo, dcol, drow, count = ctx.sut('get_tile_data {} {} '.format(rr, cc) + label, g.get_tile_data, rr, cc, res, layers, nodata, zup)
            ctx.require(tile is g.tiles[rr, cc], 'get_tile_data returned another tile')
            ctx.require((dcol, drow, count) == (rr * count, cc * count, int(round(spec.tile / res))), lambda: 'get_tile_data: index {} {} count {} for row {} column {}'.format(
                dcol, drow, count, rr, cc))
            ix0, iy0 = int(round((tile.min_x - spec.ox) / res)), int(round((tile.min_y - spec.oy) / res))
            here = (surf.col >= ix0) & (surf.col < ix0 + count) & (surf.row >= iy0) & (surf.row < iy0 + count)
            ctx.require(bool(data) or not here.any(), lambda: 'get_tile_data: no data for a tile with {} populated cells'.format(int(here.sum())))
            if data:
                inside = surf.check(ctx, 'get_tile_data ' + label, data, tile.min_x, tile.min_y, nodata, zup, everything=False)
                ctx.require(set(data) == set(layers) and (inside == here).all(), lambda: 'get_tile_data: layers {} for {}'.format(sorted(data), layers))
            ctx.saw('views_compared')
        ctx.mark('res', res, 'partial' if len(surf.tiles) < len(s.model.live()) else 'all', len(rezs))
    if len(g.resolutions) > 1:
        ctx.require(ctx.rejects('layer without resolution', g.get_layers_by_name, spec.depth_key) is not None, 'a layer was returned although the resolution is ambiguous')


register('C15', case_c15, 'grids in random states (several resolutions, tiles not gridded at some of them, non zero origins); every retrieval function with random layer lists, nodata and sign options is '
         'compared cell by cell with the populated cells by absolute position', quick=130, thorough=3000, nontrivial='views_compared',
         least={'views_compared': 200, 'cells_compared': 60000, 'empty_cells_compared': 300000})


# ------------------------------------------------------------------------------------------------------------- C16

def case_c16(ctx):
    s = viewed_session(ctx, up=False)
    g, spec = s.g, s.spec
    rezs = resolutions_of(s)
    surfs = {r: Surface(s, r) for r in rezs}
    if sorted(map(float, g.resolutions)) != rezs:
        # an update that changed some tiles only leaves it at the resolutions in use; anything else is up to C14
        ctx.require(set(map(float, g.resolutions)) <= set(rezs), lambda: 'grid reports the resolutions {}, tiles have {}'.format(g.resolutions, rezs))
    lookup = {r: {(int(c), int(w)): k for k, (c, w) in enumerate(zip(f.col, f.row))} for r, f in surfs.items()}
    for _ in range(4):
        layer = ctx.pick(surfs[rezs[0]].layers)
        nodata = ctx.pick([np.nan, np.float32(np.nan), -9999.0, 1000000.0])
        which = ctx.pick([None, None] + rezs)
        query = sorted(map(float, g.resolutions)) if which is None else [which]
        n = ctx.pick([1, 2, 12, 60])
        margin = spec.tile * ctx.pick([0.0, 0.2, 1.0])
        x = ctx.rng.uniform(g.min_x - margin, g.max_x + margin, n)
        y = ctx.rng.uniform(g.min_y - margin, g.max_y + margin, n)
        style = ctx.pick(['anywhere', 'soundings', 'edges', 'centers', 'far'])
        if style == 'far':
            x, y = x + 10 * spec.tile, y - 10 * spec.tile
        elif style != 'anywhere':
            rows = s.model.all_rows()
            k = ctx.rng.integers(0, len(rows), n)
            x, y = rows['x'][k].astype(float), rows['y'][k].astype(float)
            r = ctx.pick(rezs)
            if style == 'edges':
                for a, o in ((x, spec.ox), (y, spec.oy)):
                    b = o + np.round((a - o) / r) * r
                    side = ctx.rng.integers(0, 3, n)
                    a[:] = np.where(side == 0, b, np.where(side == 1, np.nextafter(b, -np.inf), np.nextafter(b, np.inf)))
            elif style == 'centers':
                x, y = spec.ox + (lattice(x, spec.ox, r) + 0.5) * r, spec.oy + (lattice(y, spec.oy, r) + 0.5) * r
        cast = np.dtype(ctx.pick(['f8', 'f4', 'i8'], p=[0.7, 0.15, 0.15]))
        x, y = x.astype(cast).astype(float), y.astype(cast).astype(float)
        want, alt = np.full(n, np.float32(nodata), dtype=np.float32), np.full(n, np.float32(nodata), dtype=np.float32)
        found = 0
        for i in range(n):
            for r in query:
                if r not in lookup:
                    continue
                k = lookup[r].get((int(lattice(x[i], spec.ox, r)), int(lattice(y[i], spec.oy, r))))
                if k is not None:
                    want[i] = alt[i] = surfs[r].value(layer)[k]
                    found += 1
                    break
            else:
                if layer in INTLAYERS:
                    alt[i] = 0
        form = ctx.pick(['array', 'array', 'list', 'tuple', 'scalar'] if n == 1 else ['array', 'array', 'list', 'tuple'])
        if form == 'scalar' and ctx.chance(0.5):
            qx, qy = x.astype(cast)[0], y.astype(cast)[0]   # of numpy
        elif form == 'scalar':
            qx, qy = x.astype(cast).tolist()[0], y.astype(cast).tolist()[0]
        elif form == 'array':
            qx, qy = x.astype(cast), y.astype(cast)
        else:
            qx, qy = [{'list': list, 'tuple': tuple}[form](a.astype(cast).tolist()) for a in (x, y)]
        keep = np.array(x), np.array(y)
        label = 'layer_values_at_xy {} {} at {} {} nodata={} as {} {}'.format(n, style, which, layer, nodata, form, cast)
        got = ctx.sut(label, g.layer_values_at_xy, qx, qy, layer, which, nodata)
        if form == 'scalar':
            ctx.require(np.ndim(got) == 0 or np.size(got) == 1, lambda: '{} returned {}'.format(label, got))
            got = np.array([float(np.ravel(got)[0])], dtype=np.float32)
        else:
            ctx.require(isinstance(got, np.ndarray) and got.shape == (n,), lambda: '{} returned {}'.format(label, np.shape(got)))
        if form == 'array':
            ctx.require(np.array_equal(qx, keep[0]) and np.array_equal(qy, keep[1]), 'the locations that were handed in were modified')
        with np.errstate(invalid='ignore'):
            ok = (got == want) | (got == alt) | (np.isnan(got) & np.isnan(want))
        if not ok.all():
            i = int(np.nonzero(~ok)[0][0])
            ctx.require(False, lambda: '{}: at {!r}, {!r} the value is {} expected {}'.format(label, x[i], y[i], got[i], want[i]))
        ctx.counters['monitor_evaluations'] += n
        ctx.saw('locations_checked', n)
        ctx.saw('locations_with_a_value', found)
        ctx.saw('locations_without_a_value', n - found)
        ctx.mark(form, style, 'one' if which else 'all of {}'.format(len(rezs)), layer in INTLAYERS)


register('C16', case_c16, 'random locations (anywhere, at soundings, on and one representable number beside cell edges, outside) for random layers, resolutions and nodata values, against the '
         'populated cells by absolute position', quick=160, thorough=4000, nontrivial='locations_with_a_value',
         least={'locations_checked': 6000, 'locations_with_a_value': 2000, 'locations_without_a_value': 2000})


# ------------------------------------------------------------------------------------------------------------- C17

def case_c17(ctx):
    s = viewed_session(ctx, origin=0.2, spans=(0.7, 1.5, 3.0), elongated=0.35)
    g, spec = s.g, s.spec
    for res in resolutions_of(s):
        surf = Surface(s, res, s.up)
        for _ in range(2):
            layers, nodata, zup, gdal = some_layers(ctx, surf), pick_nodata(ctx), ctx.chance(0.4), ctx.chance(0.5)
            dim = spec.tile * ctx.pick([0.3, 1.0, 1.5, 2.0, 2.0, 3.0, 1000.0]) if ctx.chance(0.9) else None
            label = '{} at {} m nodata={} up={} chunk={} gdal={}'.format(layers, res, nodata, zup, dim, gdal)
            ask = layers[0] if len(layers) == 1 and ctx.chance(0.5) else list(layers)
            chunks = ctx.sut('get_chunks_of_tiles ' + label, lambda: list(g.get_chunks_of_tiles(res, ask, nodata, zup, dim, gdal)))
            seen = np.zeros(surf.n, dtype=int)
            boxes = []
            for geo, maxdim, data in chunks:
                ctx.require(set(data) == set(layers), lambda: '{}: chunk has the layers {}'.format(label, sorted(data)))
                ctx.require(list(data) == list(layers), lambda: '{}: layers come in the order {}'.format(label, list(data)))
                arrs = {}
                for l, a in data.items():
                    arrs[l] = np.flipud(np.asarray(a).T) if gdal else np.asarray(a)
                shp = arrs[layers[0]].shape
                ctx.require(all(a.shape == shp for a in arrs.values()), lambda: '{}: shapes differ between layers'.format(label))
                ctx.require(geo[1] == res and geo[5] == -res and geo[2] == 0 and geo[4] == 0, lambda: '{}: geotransform {}'.format(label, geo))
                ctx.require(abs(maxdim - max(shp) * res) < 1e-6, lambda: '{}: dimension {} reported for an array of {} at {} m'.format(label, maxdim, shp, res))
                limit = max(dim or 32768, spec.tile)
                ctx.require(max(shp) * res <= limit + 1e-6, lambda: '{}: chunk of {} m is larger than {}'.format(label, max(shp) * res, limit))
                x0, y0 = float(geo[0]), float(geo[3]) - shp[0] * res
                seen += surf.check(ctx, 'chunk ' + label, arrs, x0, y0, nodata, zup, everything=False)
                boxes.append((x0, y0, x0 + shp[1] * res, y0 + shp[0] * res))
                ctx.saw('chunks_compared')
            ctx.require((seen == 1).all(), lambda: '{}: {} populated cells missing, {} more than once in {} chunks'.format(label, int((seen == 0).sum()), int((seen > 1).sum()), len(chunks)))
            per = max(int(np.floor((dim or 32768) / spec.tile)), 1)
            most = int(np.ceil(g.tiles.shape[0] / per)) * int(np.ceil(g.tiles.shape[1] / per))
            ctx.require(len(chunks) <= most, lambda: '{}: {} chunks where a grid of {} tiles in chunks of {} by {} tiles needs no more than {}'.format(label, len(chunks), g.tiles.shape, per, per, most))
            for i, a in enumerate(boxes):
                for b in boxes[:i]:
                    ctx.require(a[2] <= b[0] or b[2] <= a[0] or a[3] <= b[1] or b[3] <= a[1], lambda: '{}: the chunks {} and {} overlap'.format(label, a, b))
            ctx.saw('chunkings_compared')
            ctx.mark(spec.kind, len(chunks) if len(chunks) < 10 else '10+', gdal)


register('C17', case_c17, 'random tile layouts and resolutions split with random chunk sizes, layer lists, nodata, sign and orientation options; exactly once accounting of the populated cells '
         'by absolute position', quick=150, thorough=4000, nontrivial='chunks_compared', least={'chunks_compared': 500, 'chunkings_compared': 250, 'cells_compared': 20000})


# ------------------------------------------------------------------------------------------------------------- C26

def case_c26(ctx):
    s = viewed_session(ctx, up=False, settle=1.0)
    g, spec, m = s.g, s.spec, s.model
    if ctx.chance(0.5):
        s.grid(m.algo, s.random_res(), clear=ctx.chance(0.5))
    if ctx.chance(0.3):
        s.add(n=40)  # soundings that are not in the standard layers yet
    g = s.g
    before, before_meta = observe(spec, g), metadata(g)
    standard = {r: Surface(s, r) for r in resolutions_of(s)}
    shown = {r: g.get_layers_by_name(list(f.layers), r) for r, f in standard.items()}
    for res, full in standard.items():
        for name in list(m.containers):
            want = {}
            for lid in full.tiles:
                rows = m.leaf_rows(lid, name)
                if not len(rows):
                    continue
                ref = RefCells(rows, *leaf_origin(spec, lid), spec.leaf, res, m.algo)
                x0, y0 = leaf_origin(spec, lid)
                want[lid] = (ref, int(round((x0 - g.min_x) / res)), int(round((y0 - g.min_y) / res)))
            nodata = ctx.pick([np.nan, np.nan, -9999.0])
            label = 'container query {} of {} at {} m {} nodata={}'.format(name, len(m.containers), res, m.algo, nodata)
            got = ctx.sut(label, g.get_layers_by_name, name, res, nodata)
            if not want:
                ctx.require(got is None or not np.isfinite(np.where(got[0] == nodata, np.nan, got[0])).any(), lambda: '{}: values without soundings'.format(label))
                continue
            ctx.require(isinstance(got, list) and len(got) == 1, lambda: '{} returned {}'.format(label, type(got)))
            arr = np.array(got[0], dtype=np.float64)
            if not np.isnan(nodata):
                arr[arr == nodata] = np.nan
            rest = np.ones(arr.shape, dtype=bool)
            for lid, (ref, c, r) in want.items():
                part = arr[r:r + ref.n, c:c + ref.n]
                bad = ref.check_depth(part)
                ctx.require(not bad, lambda: '{}: tile {}: {}'.format(label, lid, bad))
                rest[r:r + ref.n, c:c + ref.n] = False
                ctx.saw('cells_compared', int((ref.count > 0).sum()))
            ctx.require(not np.isfinite(arr[rest]).any(), lambda: '{}: values in tiles without soundings of the container'.format(label))
            ctx.saw('container_queries')
            ctx.saw('queries_with_changed_tiles', bool(set(want) & m.changed))
            ctx.mark(spec.kind, spec.backend, m.algo, 'shared' if any(len(m.leaf_containers(l)) > 1 for l in want) else 'alone')
        for l, a, b in zip(full.layers, shown[res], ctx.sut('layers again', g.get_layers_by_name, list(full.layers), res)):
            ctx.require(np.array_equal(a, b, equal_nan=True), lambda: 'layer {} at {} changed through a container query'.format(l, res))
    d = diff_observed(before, observe(spec, g), rows_ordered=True) or diff_metadata(before_meta, metadata(g))
    ctx.require(not d, lambda: 'container queries changed the grid: {}'.format(d))
    # gridding, and querying again after the soundings changed
    if len(m.containers) > 1 and ctx.chance(0.5):
        s.remove()
        s.grid(m.algo, ctx.pick(list(standard)), update=ctx.chance(0.5))
        res = float(s.got[-1])
        name = ctx.pick(list(m.containers))
        got = ctx.sut('container query {} after a removal'.format(name), s.g.get_layers_by_name, name, res)
        n = 0
        for lid in leaves(spec, s.g):
            if res in m.snap.get(lid, {}) and lid not in m.changed:
                rows = m.leaf_rows(lid, name)
                if len(rows):
                    ref = RefCells(rows, *leaf_origin(spec, lid), spec.leaf, res, m.algo)
                    x0, y0 = leaf_origin(spec, lid)
                    r, c = int(round((y0 - s.g.min_y) / res)), int(round((x0 - s.g.min_x) / res))
                    bad = ref.check_depth(np.array(got[0][r:r + ref.n, c:c + ref.n], dtype=np.float64))
                    ctx.require(not bad, lambda: 'container query {} after a removal: tile {}: {}'.format(name, lid, bad))
                    n += 1
        ctx.saw('queries_after_changes', n > 0)


register('C26', case_c26, 'grids with overlapping containers in random states; every container queried at every resolution and compared with a reference gridding of its soundings per tile, '
         'all standard layers compared around the queries', quick=90, thorough=3000, nontrivial='container_queries', least={'container_queries': 200, 'cells_compared': 8000})


# ------------------------------------------------------------------------------------------------------------- C27

def case_c27(ctx):
    spec = random_spec(ctx, fields=('x', 'y', 'z'), tiles=(16, 32))
    spec.zdtype = 'f8' if ctx.chance(0.5) else 'f4'
    w = World(ctx, spec, ctx.pick([0.5, 1.0, 1.5]))
    s = Session(ctx, spec, w)
    gx, gy = ctx.rng.uniform(-2, 2, 2)
    noise = ctx.pick([0.0, 0.2])

    def planar(n):
        rows = w.points(n, style='uniform')
        if ctx.chance(0.3):
            # a pass along a line, the soundings of a cell lie in a thin band
            f = ctx.pick(['x', 'y'])
            rows[f] = spec.oy + np.round((rows[f] - spec.oy) / 16.0) * 16.0 + 3.3 + ctx.rng.uniform(0, ctx.pick([0.001, 0.01, 0.1]), n)
        rows['z'] = 30 + gx * (rows['x'] - w.cx) + gy * (rows['y'] - w.cy) + noise * ctx.rng.normal(0, 1, n)
        return rows

    def compare(label):
        for res in resolutions_of(s):
            g = s.g
            order = ctx.pick([('x_slope', 'y_slope'), ('y_slope', 'x_slope')])
            got = dict(zip(order, ctx.sut('{} slopes at {}'.format(label, res), g.get_layers_by_name, list(order), res)))
            for lid, t in leaves(spec, g).items():
                if res not in s.model.snap.get(lid, {}):
                    continue
                rows = s.model.leaf_rows(lid)
                ctx.saw('tiles_with_new_soundings', lid in s.model.changed)
                x0, y0 = leaf_origin(spec, lid)
                c, r = lattice(rows['x'], x0, res), lattice(rows['y'], y0, res)
                C, R = int(round((x0 - g.min_x) / res)), int(round((y0 - g.min_y) / res))
                flat = r * 100000 + c
                for key in np.unique(flat):
                    k = np.nonzero(flat == key)[0]
                    if len(k) < 3:
                        continue
                    xx, yy, zz = (rows[f][k].astype(np.float64) for f in 'xyz')
                    A = np.column_stack([xx - xx.mean(), yy - yy.mean(), np.ones(len(k))])
                    sv = np.linalg.svd(A[:, :2], compute_uv=False)
                    if sv[-1] < 1e-4 * res:
                        continue  # on a line
                    fit = np.linalg.lstsq(A, zz, rcond=None)[0]
                    i, j = R + int(r[k[0]]), C + int(c[k[0]])
                    tol = 1e-5 + 1e-8 * abs(zz).max() * np.sqrt(len(k)) / sv[-1]
                    ctx.saw('cells_with_a_thin_band_of_soundings', sv[-1] < 0.02 * sv[0])
                    for n, v in (('x_slope', fit[0]), ('y_slope', fit[1])):
                        ctx.require(abs(float(got[n][i, j]) - v) <= tol + 2e-6 * abs(v), lambda: '{}: {} of the cell at {}, {} is {} expected {} ({} soundings)'.format(
                            label, n, g.min_x + (j + .5) * res, g.min_y + (i + .5) * res, got[n][i, j], v, len(k)))
                    ctx.saw('cells_compared')
                    tol += 5e-6 * abs(zz).max() * np.sqrt(len(k)) / sv[-1]  # the depths of the plane were rounded
                    if noise == 0:
                        ctx.require(abs(float(got['x_slope'][i, j]) - gx) <= tol + 1e-2 and abs(float(got['y_slope'][i, j]) - gy) <= tol + 1e-2, lambda: '{}: planted plane {}, {} is found as {}, {}'.format(
                            label, gx, gy, got['x_slope'][i, j], got['y_slope'][i, j]))
            ctx.saw('slopes_compared')

    s.add(rows=planar(ctx.pick([60, 150, 400])))
    res = ctx.pick([r for r in (2.0, 4.0, 8.0) if r <= spec.leaf])
    s.grid(ctx.pick(['mean', 'shoalest']), res)
    compare('first')
    gx, gy = ctx.rng.uniform(-2, 2, 2)
    for _ in range(ctx.integer(1, 2)):
        op = ctx.pick(['add', 'remove and add', 'reload', 'other'])
        if op == 'add':
            noise = 1.0  # mixed planes, only the fit is comparable
            s.add(rows=planar(ctx.pick([40, 100])))
        elif op == 'remove and add':
            noise = 0.2 if len(s.model.containers) > 1 else noise
            s.remove()
            if s.model.containers:
                noise = 1.0
            s.add(rows=planar(ctx.pick([80, 200])))
        elif op == 'reload':
            s.reload()
        else:
            s.add(n=40)
            noise = 1.0
        if ctx.chance(0.4):
            noise = 1.0
            compare('not gridded yet')
        s.grid(s.model.algo, res, clear=ctx.chance(0.3), update=ctx.chance(0.6))
        ctx.mark(spec.kind, spec.backend, op)
        if op == 'reload':
            noise = 1.0
        compare(op)


register('C27', case_c27, 'planted planes with and without noise at small and large coordinates, slopes compared with a centered float64 least squares fit per cell, again after soundings changed and were gridded',
         quick=100, thorough=2500, nontrivial='cells_compared', least={'cells_compared': 1500, 'slopes_compared': 150})


# ------------------------------------------------------------------------------------------------------------- C29

def case_c29(ctx):
    spec = random_spec(ctx, origin=0.1, disk=ctx.chance(0.25), tiles=(16, 32, 64))
    w = World(ctx, spec, ctx.pick([2.5, 4.0]))
    s = Session(ctx, spec, w)
    for _ in range(ctx.integer(1, 4)):
        s.add(n=ctx.pick([10, 60, 200, 400]), wrap=field_order(ctx))
    if len(s.model.containers) > 1 and ctx.chance(0.5):
        s.remove()
    if spec.folder and ctx.chance(0.5):
        s.reload()
    g, m = s.g, s.model
    rows = m.all_rows()
    tx, ty = lattice(rows['x'], spec.ox, spec.tile), lattice(rows['y'], spec.oy, spec.tile)
    by = {}
    for k, key in enumerate(zip(tx.tolist(), ty.tolist())):
        by.setdefault(key, []).append(k)
    tiles = {}
    for t in g.tiles.flat:
        if t is not None:
            tiles[(int(round((t.min_x - spec.ox) / spec.tile)), int(round((t.min_y - spec.oy) / spec.tile)))] = t
    ctx.require(set(tiles) == set(by), lambda: 'tiles {} soundings in {}'.format(sorted(tiles)[:5], sorted(by)[:5]))
    # inside of a variable resolution grid the subgrids answer the same question for their tiles
    levels = [(g, tiles, spec.tile, None)]
    if spec.kind == 'vr':
        key = ctx.pick(sorted(tiles))
        sub = tiles[key]
        subtiles = {(int(round((t.min_x - spec.ox) / spec.leaf)), int(round((t.min_y - spec.oy) / spec.leaf))): t for t in sub.tiles.flat if t is not None}
        levels.append((sub, subtiles, spec.leaf, key))
    for grid, tiles, size, parent in levels:
        sx, sy = lattice(rows['x'], spec.ox, size), lattice(rows['y'], spec.oy, size)
        for (ix, iy), t in tiles.items():
            near = [(ix, iy - 1), (ix + 1, iy), (ix, iy + 1), (ix - 1, iy)]
            want = [tiles.get(k) for k in near]
            got = ctx.sut('get_tile_neighbors {} {}'.format(ix, iy), grid.get_tile_neighbors, t)
            ctx.require(len(got) == 4 and all(a is b for a, b in zip(got, want)), lambda: 'neighbours of {}: got {} expected {}'.format(
                (ix, iy), [None if a is None else (a.min_x, a.min_y) for a in got], [k if tiles.get(k) is not None else None for k in near]))
            ctx.saw('neighbours_checked', 4)
            ctx.saw('missing_neighbours', sum(v is None for v in want))
            buf = float(size * ctx.pick([0.0, 0.05, 0.1, 0.25, 0.5, 1.0]))
            x0, y0 = spec.ox + ix * size, spec.oy + iy * size
            pick = np.zeros(len(rows), dtype=bool)
            for k, dist in ((near[0], rows['y'] >= y0 - buf), (near[1], rows['x'] <= x0 + size + buf), (near[2], rows['y'] <= y0 + size + buf), (near[3], rows['x'] >= x0 - buf)):
                if k in tiles:
                    pick |= (sx == k[0]) & (sy == k[1]) & dist
            label = 'get_tile_neighbor_points {} {} buffer {}'.format(ix, iy, buf)
            pts = ctx.sut(label, grid.get_tile_neighbor_points, t, buf)
            pts = None if pts is None else asarr(pts)
            n = 0 if pts is None else len(pts)
            ctx.require(n == int(pick.sum()), lambda: '{}: {} soundings, {} are within the buffer'.format(label, n, int(pick.sum())))
            if n:
                from bgmon.world import same_rows
                ctx.require(same_rows(pts, rows[pick]), lambda: '{}: other soundings than those within the buffer'.format(label))
                ctx.saw('border_points_compared', n)
            else:
                ctx.require(pts is None, lambda: '{}: {} instead of None'.format(label, pts))
            ctx.saw('tiles_asked')
        ctx.mark(spec.kind, spec.backend, 'disk' if spec.folder else 'mem', 'sub' if parent else 'top')


register('C29', case_c29, 'random tile layouts with gaps, every tile of the grid (and of one subgrid) asked for its neighbours and for the border soundings with random buffers',
         quick=120, thorough=3000, nontrivial='tiles_asked', least={'tiles_asked': 600, 'border_points_compared': 2000, 'missing_neighbours': 800})


# ------------------------------------------------------------------------------------------------------------- C21 and C28: two grids of the same soundings

def twins(ctx, make_second, **kw):
    """two grids of the same soundings with the same history, returns the two sessions"""
    spec = random_spec(ctx, tiles=(16, 32, 64), **kw)
    w = World(ctx, spec, ctx.pick([0.7, 1.5, 2.5]))
    a = Session(ctx, spec, w)
    spec2, vref = make_second(a)
    b = Session(ctx, spec2, w)
    a.vref, b.vref = vref
    both = (a, b)
    for k in range(ctx.integer(1, 3)):
        rows = w.points(ctx.pick([1, 5, 40, 120, 250]))
        for s in both:
            s.add(rows=rows, name='c{}'.format(k))
    algo = ctx.pick(['mean', 'shoalest'])
    auto = spec.kind == 'vr' and abs(float(np.mean(a.model.all_rows()['z']))) > 25 and ctx.chance(0.3)
    for res in ([None] if auto else [a.random_res() for _ in range(ctx.pick([1, 1, 2]))]):
        for s in both:
            s.grid(algo, res)
    if ctx.chance(0.5):
        rows = w.points(ctx.pick([5, 40]))
        res = None if auto else a.random_res()
        for s in both:
            s.add(rows=rows, name='more')
            s.grid(algo, res, update=True)
    if len(a.model.containers) > 1 and ctx.chance(0.4):
        for s in both:
            s.remove('c0')
    for s in both:
        if spec.folder and ctx.chance(0.5):
            s.reload()
    ctx.mark(spec.kind, spec.backend, 'disk' if spec.folder else 'mem')
    return a, b


def all_views(ctx, s, res, layers, nodata, zup, label):
    """{where: {layer: array}} through every function that hands out layers"""
    g, out = s.g, {}

    def keep(where, names, arrays):
        out[where] = {n: np.array(asarr(a)) for n, a in zip(names, arrays)}
    keep('get_layers_by_name', layers, ctx.sut(label + ' get_layers_by_name', g.get_layers_by_name, layers, res, nodata, zup))
    for l in layers:
        keep('get_layers_by_name one', [l], ctx.sut(label + ' get_layers_by_name ' + l, g.get_layers_by_name, l, res, nodata, zup))
    data, mins, maxs = ctx.sut(label + ' get_layers_trimmed', g.get_layers_trimmed, layers, res, nodata, zup)
    keep('get_layers_trimmed', layers, data)
    for geo, c, r, n, d in ctx.sut(label + ' get_tiles_by_resolution', lambda: list(g.get_tiles_by_resolution(res, layers, nodata, zup))):
        if d:
            keep('tile {} {}'.format(c, r), list(d), list(d.values()))
    for r, c in np.argwhere(g.tiles != None):
        d = ctx.sut(label + ' get_tile_data', g.get_tile_data, int(r), int(c), res, layers, nodata, zup)[1]
        if d:
            keep('tile data {} {}'.format(r, c), list(d), list(d.values()))
    for gdal in (True, False):
        for k, (geo, dim, d) in enumerate(ctx.sut(label + ' get_chunks_of_tiles', lambda: list(g.get_chunks_of_tiles(res, layers, override_maximum_chunk_dimension=s.spec.tile * 2,
                                                                                                                    nodatavalue=nodata, z_positive_up=zup, for_gdal=gdal)))):
            keep('chunk {} {}'.format(gdal, k), list(d), list(d.values()))
    return out


def exported_views(ctx, s, res, zup, label):
    """the same of the files"""
    from bgmon.files import Csv, Raster, exported
    out, folder = {}, ctx.folder(create=True, stem='ex')
    ctx.sut(label + ' export csv', s.g.export, os.path.join(folder, 'a.csv'), 'csv', zup, res)
    for p in exported(folder, 'a', '.csv'):
        f = Csv(p)
        order = np.lexsort([f.col['x'], f.col['y']])
        out['csv'] = {n: f.col[n][order] for n in f.header}
    ctx.sut(label + ' export geotiff', s.g.export, os.path.join(folder, 'a.tif'), 'geotiff', zup, res, s.spec.tile * 2)
    for k, p in enumerate(exported(folder, 'a', '.tif')):
        r = Raster(p)
        out['tif {}'.format(k)] = dict(zip(r.names, r.bands))
    if not s.spec.backscatter:
        ctx.sut(label + ' export bag', s.g.export, os.path.join(folder, 'a.bag'), 'bag', zup, res, s.spec.tile * 2)
        for k, p in enumerate(exported(folder, 'a', '.bag')):
            r = Raster(p)
            out['bag {}'.format(k)] = dict(zip(r.names, r.bands))
    return out


def same_values(a, b, flip=None, nodata=np.nan):
    """are the arrays the same, with the sign of all but the nodata cells changed when flip"""
    if a.shape != b.shape:
        return False
    a, b = a.astype(np.float64), b.astype(np.float64)
    if flip:
        empty = np.isnan(a) if np.isnan(nodata) else (a == nodata) | np.isnan(a)
        a = np.where(empty, a, -a)
    return np.array_equal(a, b, equal_nan=True)


def case_c21(ctx):
    def second(a):
        sp = a.spec
        return sp.clone(folder=ctx.folder() if sp.folder else ''), (ctx.pick(['MLLW', VREF_DOWN]), VREF_UP)
    a, b = twins(ctx, second, origin=0.1)
    ctx.require(not a.g.positive_up and b.g.positive_up, 'a height reference is not recognised')
    for res in resolutions_of(a):
        layers = ['depth'] + [l for l in a.g.layer_names if l != 'depth' and ctx.chance(0.5)]
        layers = [layers[i] for i in ctx.rng.permutation(len(layers))]
        nodata = pick_nodata(ctx)
        runs = {}
        for name, s in (('down', a), ('up', b)):
            for zup in (False, True, bool(ctx.chance(0.5))):
                got = all_views(ctx, s, res, layers, nodata, zup, '{} {} up={} nodata={}'.format(name, res, zup, nodata))
                prev = runs.setdefault((name, zup), got)
                if prev is not got:
                    for where in prev:
                        for l in prev[where]:
                            ctx.require(same_values(prev[where][l], got[where][l]), lambda: '{} {} of the {} grid is different when asked again with z_positive_up={}'.format(where, l, name, zup))
        base = runs[('down', False)]
        surf = Surface(a, res)
        surf.check(ctx, 'depth', {'depth': base['get_layers_by_name']['depth']}, a.g.min_x, a.g.min_y, nodata, False)
        for (name, zup), got in runs.items():
            ctx.require(set(got) == set(base), lambda: 'the {} grid gives {} where the positive down grid gives {}'.format(name, sorted(got)[:5], sorted(base)[:5]))
            for where in base:
                ctx.require(set(got[where]) == set(base[where]), lambda: '{} has the layers {} and {}'.format(where, sorted(got[where]), sorted(base[where])))
                for l in base[where]:
                    # soundings: positive down data is the depth, height data is minus the depth
                    flip = l == 'depth' and (zup != (name == 'up'))
                    ctx.require(same_values(base[where][l], got[where][l], flip, nodata), lambda: '{}: {} with z_positive_up={} of the grid with the reference {} has the wrong {}'.format(
                        where, l, zup, name, 'sign' if l == 'depth' else 'values'))
                    ctx.saw('arrays_compared')
                    ctx.saw('signs_compared', l == 'depth')
        # point queries
        rows = a.model.all_rows()
        k = ctx.rng.integers(0, len(rows), 20)
        qx, qy = rows['x'][k].astype(float), rows['y'][k].astype(float)
        va, vb = [ctx.sut('layer_values_at_xy', s.g.layer_values_at_xy, qx, qy, 'depth', res) for s in (a, b)]
        ctx.require(same_values(va, vb, True), lambda: 'layer_values_at_xy gives {} for depths and {} for heights'.format(va[:4], vb[:4]))
        # node surfaces
        sa, sb = [ctx.sut('return_surf_xyz', s.g.return_surf_xyz, 'depth', res, False, nodata)[2][0] for s in (a, b)]
        ctx.require(same_values(sa, sb, True, nodata), 'return_surf_xyz does not give positive down depths for both references')
        if ctx.chance(0.5):
            files = {}
            for name, s in (('down', a), ('up', b)):
                for zup in (False, True):
                    files[(name, zup)] = exported_views(ctx, s, res, zup, '{} {} up={}'.format(name, res, zup))
            base = files[('down', False)]
            for (name, zup), got in files.items():
                ctx.require(set(got) == set(base), lambda: 'files {} and {}'.format(sorted(got), sorted(base)))
                for where in base:
                    zname = 'elevation' if zup else 'depth'
                    names = {n.lower(): v for n, v in got[where].items()}
                    want = {n.lower(): v for n, v in base[where].items()}
                    bag = where.startswith('bag')
                    ctx.require(('elevation' if bag else zname) in names, lambda: '{} with z_positive_up={} has {}'.format(where, zup, sorted(names)))
                    for l in want:
                        if l in ('depth', 'elevation'):
                            # a BAG is always positive up
                            flip = (not bag and zup) != (name == 'up')
                            mine = names['elevation' if bag else zname]
                        else:
                            flip, mine = False, names[l]
                        ctx.require(same_values(want[l], mine, flip, np.nan if where == 'csv' else 1000000.0), lambda: '{}: {} with z_positive_up={} of the grid with the reference {}'.format(
                            where, l, zup, name))
                        ctx.saw('exported_arrays_compared')
        ctx.mark('res', len(layers), 'nan' if np.isnan(nodata) else 'value')


register('C21', case_c21, 'pairs of grids of the same soundings, one with a depth and one with a height reference; all functions and exports that hand out layers with both sign options, asked more than once, '
         'compared array by array', quick=80, thorough=1800, nontrivial='signs_compared', least={'signs_compared': 3000, 'arrays_compared': 6000, 'exported_arrays_compared': 400})


# ------------------------------------------------------------------------------------------------------------- C28

def rename(d):
    return {('depth' if k in ('intensity', 'Intensity', 'Depth') else k): v for k, v in d.items()}


def case_c28(ctx):
    def second(a):
        sp = a.spec
        return sp.clone(folder=ctx.folder() if sp.folder else '', backscatter=True), [ctx.pick(['MLLW', VREF_DOWN])] * 2 if ctx.chance(0.7) else ['MLLW', VREF_UP]
    a, b = twins(ctx, second, backscatter=False)
    for g in (a.g, b.g):
        for t in [g] + [x for x in (g.tiles.flat if g.tiles is not None else []) if x is not None] + [t for _, t in leaves(a.spec, g).items()]:
            ctx.require(bool(t.is_backscatter) == (g is b.g), lambda: '{} of a {} grid has is_backscatter={}'.format(type(t).__name__, 'backscatter' if g is b.g else 'depth', t.is_backscatter))
            ctx.require(t.depth_key == ('intensity' if g is b.g else 'depth'), 'depth_key is {}'.format(t.depth_key))
    ta, tb = leaves(a.spec, a.g), leaves(b.spec, b.g)
    ctx.require(set(ta) == set(tb), 'tiles differ')
    from bgmon.world import diff_cells
    for lid in ta:
        ca, cb = tile_cells(ta[lid]), {r: rename(v) for r, v in tile_cells(tb[lid]).items()}
        d = diff_cells(ca, cb)
        ctx.require(not d, lambda: 'tile {}: depth and intensity grids differ: {}'.format(lid, d))
        ctx.saw('tiles_compared')
    ctx.require([rename({n: 0 for n in [l]}).popitem()[0] for l in b.g.layer_names] == list(a.g.layer_names), lambda: 'layer names {} and {}'.format(a.g.layer_names, b.g.layer_names))
    for q in ('cell_count', 'density_count', 'density_per_square_meter', 'coverage_area_square_meters', 'coverage_area_square_nm', 'mean_depth', 'points_count', 'number_of_tiles', 'resolutions',
              'has_vertical_uncertainty', 'has_horizontal_uncertainty'):
        va, vb = [ctx.sut(q, getattr, s.g, q) for s in (a, b)]
        if isinstance(va, list):
            va, vb = sorted(va), sorted(vb)
        ctx.require(va == vb, lambda: '{} is {} for the depth grid and {} for the backscatter grid'.format(q, va, vb))
    for l in a.g.layer_names:
        va = ctx.sut('return_layer_values', a.g.return_layer_values, l)
        vb = ctx.sut('return_layer_values', b.g.return_layer_values, 'intensity' if l == 'depth' else l)
        ctx.require(np.array_equal(np.sort(va), np.sort(vb)), lambda: 'return_layer_values of {} differ'.format(l))
    for res in resolutions_of(a):
        nodata = pick_nodata(ctx)
        la = list(a.g.layer_names)
        lb = ['intensity' if l == 'depth' else l for l in la]
        base = all_views(ctx, a, res, la, nodata, False, 'depth {}'.format(res))
        for zup in (False, True):
            got = all_views(ctx, b, res, lb, nodata, zup, 'intensity {} up={}'.format(res, zup))
            ctx.require(set(got) == set(base), 'the depth and the backscatter grid give different pieces')
            for where in base:
                mine = rename(got[where])
                ctx.require(set(mine) == set(base[where]), lambda: '{}: layers {} and {}'.format(where, sorted(mine), sorted(base[where])))
                for l in mine:
                    ctx.require(same_values(base[where][l], mine[l]), lambda: '{}: {} with z_positive_up={} differs from the depth grid'.format(where, l, zup))
                    ctx.saw('arrays_compared')
        rows = a.model.all_rows()
        k = ctx.rng.integers(0, len(rows), 10)
        qx, qy = rows['x'][k].astype(float), rows['y'][k].astype(float)
        va, vb = ctx.sut('query', a.g.layer_values_at_xy, qx, qy, 'depth', res), ctx.sut('query', b.g.layer_values_at_xy, qx, qy, 'intensity', res)
        ctx.require(np.array_equal(va, vb, equal_nan=True), 'point queries differ')
        name = ctx.pick(list(a.model.containers))
        va, vb = [ctx.sut('container query', s.g.get_layers_by_name, name, res) for s in (a, b)]
        ctx.require((va is None) == (vb is None) and (va is None or np.array_equal(va[0], vb[0], equal_nan=True)), 'container queries differ')
        if ctx.chance(0.6):
            base = exported_views(ctx, a, res, False, 'depth')
            for zup in (False, True):
                got = exported_views(ctx, b, res, zup, 'intensity')
                for where in base:
                    if where.startswith('bag'):
                        continue
                    ctx.require(where in got, lambda: '{} was not exported'.format(where))
                    mine, want = rename(got[where]), rename(base[where])
                    # the GeoTIFF of a backscatter grid has the intensity band only
                    ctx.require('depth' in mine and ('Intensity' in got[where] or 'intensity' in got[where]), lambda: '{} has {}'.format(where, sorted(got[where])))
                    for l in mine:
                        ctx.require(l in want and same_values(want[l], mine[l]), lambda: '{}: {} differs from the depth grid'.format(where, l))
                        ctx.saw('exported_arrays_compared')
        folder = ctx.folder(create=True, stem='bag')
        e = ctx.rejects('BAG of a backscatter grid', b.g.export, os.path.join(folder, 'a.bag'), 'bag')
        ctx.require(e is not None, 'a BAG export of a backscatter grid is not refused')
        ctx.require(not os.listdir(folder), lambda: 'a refused BAG export left {}'.format(os.listdir(folder)))
        ctx.saw('bags_refused')


register('C28', case_c28, 'pairs of a depth and a backscatter grid of the same soundings with the same history, of all types, backends and media with reloads; tiles, statistics, all retrieval functions, '
         'queries and exports compared', quick=60, thorough=1200, nontrivial='arrays_compared', least={'arrays_compared': 2000, 'exported_arrays_compared': 150, 'bags_refused': 60})


# ------------------------------------------------------------------------------------------------------------- C33

def overwrite(obj):
    """write in to everything that can be written to, returns the number of things"""
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return sum(overwrite(o) for o in obj.flat)
        if not obj.flags.writeable or not obj.size:
            return 0
        if obj.dtype.names:
            for n in obj.dtype.names:
                obj[n] = 7
        else:
            obj[...] = 7
        return 1
    if isinstance(obj, dict):
        n = sum(overwrite(v) for v in obj.values())
        obj['written by the caller'] = 7
        return n + 1
    if isinstance(obj, list):
        n = sum(overwrite(v) for v in obj)
        obj.append(obj[0] if obj else 7)
        return n + 1
    if isinstance(obj, tuple):
        return sum(overwrite(v) for v in obj)
    return 0


def case_c33(ctx):
    import matplotlib.pyplot as plt
    s = viewed_session(ctx, disk=ctx.chance(0.6), backscatter=ctx.chance(0.15), fields=None, algos=('mean', 'shoalest'), settle=0.5, tiles=(16, 32, 64))
    g, spec, m = s.g, s.spec, s.model
    dk = spec.depth_key
    unresolved = any(not t.cells for t in leaves(spec, g).values())
    names = list(g.layer_names)

    def layers():
        k = ctx.integer(1, len(names))
        got = [names[i] for i in ctx.rng.permutation(len(names))[:k]]
        return got[0] if len(got) == 1 and ctx.chance(0.5) else got

    def some_tile():
        r, c = ctx.pick(np.argwhere(g.tiles != None).tolist())
        return int(r), int(c)
    rezs = [float(r) for r in g.resolutions]
    res = lambda: ctx.pick(rezs)
    rows = m.all_rows()
    xy = lambda: (rows['x'][:20].astype(float), rows['y'][:20].astype(float))
    outfolder = lambda: os.path.join(ctx.folder(create=True, stem='ex'), 'a')

    def plot(fn, *args):
        try:
            return fn(*args)
        finally:
            plt.close('all')
    reads = {
        'get_layers_by_name': lambda: g.get_layers_by_name(layers(), res(), pick_nodata(ctx), ctx.chance(0.5)),
        'get_layers_trimmed': lambda: g.get_layers_trimmed(layers(), res(), np.float32(np.nan), ctx.chance(0.5)),
        'return_surf_xyz': lambda: g.return_surf_xyz(layers(), res(), ctx.chance(0.5), pick_nodata(ctx)),
        'get_tiles_by_resolution': lambda: list(g.get_tiles_by_resolution(res(), layers(), pick_nodata(ctx), ctx.chance(0.5))),
        'get_tile_data': lambda: g.get_tile_data(*some_tile(), res(), [dk], pick_nodata(ctx), ctx.chance(0.5)),
        'get_chunks_of_tiles': lambda: list(g.get_chunks_of_tiles(res(), layers(), override_maximum_chunk_dimension=spec.tile * 2, nodatavalue=pick_nodata(ctx), z_positive_up=ctx.chance(0.5),
                                                                  for_gdal=ctx.chance(0.5))),
        'layer_values_at_xy': lambda: g.layer_values_at_xy(*xy(), dk, ctx.pick([None, res()])),
        'container query': lambda: g.get_layers_by_name(ctx.pick(list(m.containers)), res()),
        'slopes': lambda: g.get_layers_by_name(['x_slope', 'y_slope'], res()),
        'return_layer_values': lambda: g.return_layer_values(ctx.pick(names)),
        'return_layer_names': lambda: g.return_layer_names(),
        'return_extents': lambda: g.return_extents(),
        'return_attribution': lambda: g.return_attribution(),
        'return_unique_containers': lambda: g.return_unique_containers(),
        'get_tile_boundaries': lambda: g.get_tile_boundaries(),
        'get_tile_neighbors': lambda: g.get_tile_neighbors(g.tiles[some_tile()]),
        'get_tile_neighbor_points': lambda: g.get_tile_neighbor_points(g.tiles[some_tile()], float(spec.tile * ctx.pick([0.1, 0.5]))),
        'get_geotransform': lambda: g.get_geotransform(res()),
        'repr': lambda: (repr(g), str(g)),
        'statistics': lambda: [getattr(g, q) for q in ('cell_count', 'density_count', 'density_per_square_meter', 'coverage_area_square_meters', 'coverage_area_square_nm', 'points_count', 'is_empty', 'no_grid',
                                                       'has_tiles', 'layer_names', 'point_count_changed', 'positive_up', 'has_vertical_uncertainty', 'has_horizontal_uncertainty', 'unique_container_entries')],
        'resolution_by_density': lambda: g.resolution_by_density(),
        'tile statistics': lambda: [(t.mean_depth, t.points_count, t.layer_names, t.cell_count, t.resolution_by_density()) for t in leaves(spec, g).values()],
        'plot': lambda: plot(g.plot, dk, res()),
        'histograms': lambda: [plot(getattr(g, f)) for f in ('plot_density_histogram', 'plot_density_per_square_meter_histogram', 'plot_z_histogram', 'plot_vertical_uncertainty_histogram',
                                                             'plot_horizontal_uncertainty_histogram', 'plot_total_uncertainty_histogram')],
        'export csv': lambda: g.export(outfolder() + '.csv', 'csv', ctx.chance(0.5), res()),
        'export geotiff': lambda: g.export(outfolder() + '.tif', 'geotiff', ctx.chance(0.5), res(), spec.tile * 2),
    }
    if not spec.backscatter:
        reads['export bag'] = lambda: g.export(outfolder() + '.bag', 'bag', True, res(), spec.tile * 2)
        reads['density versus depth'] = lambda: [g.density_count_vs_depth, g.density_per_square_meter_vs_depth, plot(g.plot_density_vs_depth), plot(g.plot_density_per_square_meter_vs_depth)]
    before, meta = observe(spec, g), metadata(g)
    disk = tree_digest(spec.folder) if spec.folder else {}
    standard = {r: [np.copy(a) for a in ctx.sut('layers', g.get_layers_by_name, names, r)] for r in rezs}
    order = [list(reads)[i] for i in ctx.rng.permutation(len(reads))[:ctx.integer(6, len(reads))]]
    for op in order:
        state = ctx.rng.bit_generator.state
        ctx.sut(op, reads[op])
        ctx.saw('reads')
        ctx.saw('read:' + op)
        if ctx.chance(0.3):
            d = diff_observed(before, observe(spec, g), rows_ordered=True) or diff_metadata(meta, metadata(g))
            ctx.require(not d, lambda: 'the grid is different after {}: {}'.format(op, d))
            if spec.folder:
                d = diff_tree(disk, tree_digest(spec.folder))
                ctx.require(not d, lambda: 'the files of the grid are different after {}: {}'.format(op, d))
                ctx.saw('disk_compared')
    d = diff_observed(before, observe(spec, g), rows_ordered=True) or diff_metadata(meta, metadata(g))
    ctx.require(not d, lambda: 'the grid is different after {}: {}'.format(order, d))
    if ctx.chance(0.6):   # what a user does with what was handed out is his business
        for op in order:
            if op not in ('plot', 'get_tile_neighbors'):
                ctx.saw('handed_out_overwritten', overwrite(ctx.sut(op, reads[op])))
        d = diff_observed(before, observe(spec, g), rows_ordered=True) or diff_metadata(meta, metadata(g))
        ctx.require(not d, lambda: 'overwriting what {} handed out alters the grid: {}'.format(order, d))
    if spec.folder:
        d = diff_tree(disk, tree_digest(spec.folder))
        ctx.require(not d, lambda: 'the files of the grid are different after {}: {}'.format(order, d))
    ctx.require([l for l in g.layer_names if l not in ('x_slope', 'y_slope')] == names, lambda: 'layer names were {} and are {} after {}'.format(names, g.layer_names, order))
    for r in rezs:
        for l, a, b in zip(names, standard[r], ctx.sut('layers', g.get_layers_by_name, names, r)):
            ctx.require(np.array_equal(a, b, equal_nan=True), lambda: 'layer {} at {} is different after {}'.format(l, r, order))
    # what a user does with an array that was handed out is his business
    if ctx.chance(0.5):
        for r in rezs:
            for a in g.get_layers_by_name(names, r):
                a[...] = 0
            for _, _, _, _, data in g.get_tiles_by_resolution(r, names):
                for a in data.values():
                    a[...] = 0
            for _, _, data in g.get_chunks_of_tiles(r, names):
                for a in data.values():
                    a[...] = 0
        d = diff_observed(before, observe(spec, g), rows_ordered=True)
        ctx.require(not d, lambda: 'writing in to the layers that were handed out alters the grid: {}'.format(d))
        ctx.saw('handed_out_arrays_overwritten')
    # reading leaves a grid that goes on as if it was not read
    if ctx.chance(0.5):
        s.add(n=40)
        s.grid(m.algo, res(), update=ctx.chance(0.5))
        for lid, t in leaves(spec, s.g).items():
            for r, lyrs in tile_cells(t).items():
                ref = m.ref(lid, r)
                bad = ref.check_depth(lyrs[dk]) or ref.check_density(lyrs['density'])
                ctx.require(not bad, lambda: 'gridded after reading, tile {} at {}: {}'.format(lid, r, bad))
        ctx.saw('went_on_after_reading')
    ctx.mark(spec.kind, spec.backend, 'disk' if spec.folder else 'mem', 'reload' if 'reload' in ' '.join(ctx.log) else '')


register('C33', case_c33, 'grids in random states, random orders of all reading functions, plots, histograms and exports; soundings, layers, metadata and a digest of all files of the grid compared around them',
         quick=48, thorough=1300, nontrivial='reads', least={'reads': 400, 'disk_compared': 50})
