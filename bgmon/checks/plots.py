"""C32 what is drawn is what is in the grid"""
import contextlib

import numpy as np

from bgmon.checks import register
from bgmon.checks.views import INTLAYERS, Surface, resolutions_of, viewed_session
from bgmon.world import leaf_origin, leaves


@contextlib.contextmanager
def canvas():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        yield plt
    finally:
        plt.close('all')


def bars(ax):
    from matplotlib.patches import Rectangle
    b = [p for p in ax.patches if isinstance(p, Rectangle)]
    return np.array([[p.get_x(), p.get_width(), p.get_height()] for p in b], dtype=float)


def check_map(ctx, s, surfs, plt, layer, asked):
    from matplotlib.collections import QuadMesh
    meshes = [c for ax in plt.gcf().axes for c in ax.collections if isinstance(c, QuadMesh)]
    want = [asked] if asked else list(surfs)
    ctx.require(len(meshes) == len(want), lambda: 'plot({}, {}): {} surfaces drawn for the resolutions {}'.format(layer, asked, len(meshes), want))
    left = list(want)
    for mesh in meshes:
        xy = np.asarray(mesh.get_coordinates(), dtype=float)
        val = np.ma.asarray(mesh.get_array()).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
        corners = [xy[:-1, :-1], xy[1:, :-1], xy[:-1, 1:], xy[1:, 1:]]
        cx, cy = sum(c[..., 0] for c in corners) / 4, sum(c[..., 1] for c in corners) / 4
        wx, wy = np.ptp([c[..., 0] for c in corners], axis=0), np.ptp([c[..., 1] for c in corners], axis=0)
        res = float(np.median(wx))
        ctx.require(res in left, lambda: 'plot({}, {}): a surface with {} m cells is drawn, expected {}'.format(layer, asked, res, left))
        left.remove(res)
        ctx.require(np.allclose(wx, res, rtol=0, atol=1e-6 * res) and np.allclose(wy, res, rtol=0, atol=1e-6 * res), lambda: 'plot({}): the cells drawn are not {} m wide'.format(layer, res))
        surf = surfs[res]
        col = np.floor((cx - s.spec.ox) / res).astype(int)
        row = np.floor((cy - s.spec.oy) / res).astype(int)
        mask = np.ma.getmaskarray(val)
        drawn = {(a, b): v for a, b, v in zip(col[~mask].tolist(), row[~mask].tolist(), val.data[~mask].tolist())}
        if layer in INTLAYERS:
            drawn = {k: v for k, v in drawn.items() if v != 0}
        there = {(a, b): v for a, b, v in zip(surf.col.tolist(), surf.row.tolist(), surf.value(layer, False).tolist())}
        ctx.require(set(drawn) == set(there), lambda: 'plot({}) at {}: {} populated cells are not drawn, {} cells are drawn where there is none'.format(
            layer, res, len(set(there) - set(drawn)), len(set(drawn) - set(there))))
        bad = [k for k in there if drawn[k] != there[k]]
        ctx.require(not bad, lambda: 'plot({}) at {}: {} is drawn in cell {} where the grid has {}'.format(layer, res, drawn[bad[0]], bad[0], there[bad[0]]))
        ctx.saw('cells_compared', len(there))
    ctx.saw('maps_compared')


def check_histogram(ctx, ax, label, values, bins):
    b = bars(ax)
    values = np.asarray(values, dtype=float)
    ctx.require(len(b) == bins, lambda: '{}: {} bars for {} bins'.format(label, len(b), bins))
    ctx.require(b[:, 2].sum() == len(values), lambda: '{}: the bars add up to {} with {} cells'.format(label, b[:, 2].sum(), len(values)))
    edges = np.append(b[:, 0], b[-1, 0] + b[-1, 1])
    lo, hi = values.min(), values.max()
    slack = 1e-5 * max(1.0, abs(lo), abs(hi))
    if hi - lo > 1e-3:
        ctx.require(abs(edges[0] - lo) <= slack and abs(edges[-1] - hi) <= slack, lambda: '{}: drawn from {} to {} for values from {} to {}'.format(label, edges[0], edges[-1], lo, hi))
    # cumulative counts, values next to an edge can go to either side
    cum = np.cumsum(b[:, 2])[:-1]
    for e, c in zip(edges[1:-1], cum):
        ctx.require((values < e - slack).sum() <= c <= (values < e + slack).sum(), lambda: '{}: {} cells below {}, the grid has {}'.format(label, c, e, (values < e).sum()))
    ctx.saw('histograms_compared')


def check_line(ctx, ax, label, depth, dens, bins):
    lines = ax.get_lines()
    ctx.require(len(lines) == 1, lambda: '{}: {} lines drawn'.format(label, len(lines)))
    x, y = [np.asarray(v, dtype=float) for v in lines[0].get_data()]
    lo, hi = depth.min() - 0.001, depth.max() + 0.001
    step = (hi - lo) / bins
    k = np.floor((depth - lo) / step).astype(int)
    near = np.abs((depth - lo) / step - np.round((depth - lo) / step)) * step < 1e-4 * max(1.0, abs(hi))
    near &= (np.round((depth - lo) / step) > 0) & (np.round((depth - lo) / step) < bins)
    if near.any():
        ctx.saw('lines_skipped_on_a_bin_edge')
        return
    used = np.unique(k)
    ctx.require(len(x) == len(used), lambda: '{}: {} points for {} depth bins with cells'.format(label, len(x), len(used)))
    for i, b in enumerate(used):
        want = dens[k == b].mean()
        ctx.require(abs(y[i] - want) <= 1e-5 * max(1.0, want), lambda: '{}: average {} at {} for the cells between {} and {}, which have {}'.format(
            label, y[i], x[i], lo + b * step, lo + (b + 1) * step, want))
        ctx.require(lo + b * step - 1e-3 <= x[i] <= lo + (b + 1) * step + 1e-3, lambda: '{}: the average of the cells between {} and {} is drawn at {}'.format(
            label, lo + b * step, lo + (b + 1) * step, x[i]))
    ctx.saw('lines_compared')


def case_c32(ctx):
    s = viewed_session(ctx, tiles=(16, 32, 64), disk=ctx.chance(0.2), backscatter=ctx.chance(0.15), up=False)
    g, spec, m = s.g, s.spec, s.model
    rezs = resolutions_of(s)
    surfs = {r: Surface(s, r, s.up) for r in rezs}
    if sorted(map(float, g.resolutions)) != rezs:   # resolutions that are left in some tiles only, but were not part of the last gridding
        surfs_all = {r: surfs[r] for r in surfs if r in set(map(float, g.resolutions))}
    else:
        surfs_all = surfs
    layers = surfs[rezs[0]].layers
    with canvas() as plt:
        layer = ctx.pick(layers)
        asked = ctx.pick(rezs) if ctx.chance(0.6) else None
        ctx.sut('plot {} {}'.format(layer, asked), g.plot, layer, asked)
        check_map(ctx, s, surfs if asked else surfs_all, plt, layer, asked)
    # the values of all cells, of all resolutions
    vals = {l: np.concatenate([surfs[r].vals[l] for r in rezs if l in surfs[r].vals]).astype(float) for l in layers}
    area = np.concatenate([np.full(surfs[r].n, r ** 2) for r in rezs])
    bins = ctx.pick([1, 5, 20, 50])
    todo = [('plot_density_histogram', vals['density']), ('plot_density_per_square_meter_histogram', vals['density'] / area), ('plot_z_histogram', vals[spec.depth_key])]
    for l, f in (('vertical_uncertainty', 'plot_vertical_uncertainty_histogram'), ('horizontal_uncertainty', 'plot_horizontal_uncertainty_histogram')):
        todo.append((f, vals.get(l)))
    for name, want in todo:
        if ctx.chance(0.5):
            with canvas() as plt:
                ctx.sut('{} {}'.format(name, bins), getattr(g, name), bins)
                axes = plt.gcf().axes
                if want is None:
                    ctx.require(not axes or not len(bars(axes[0])), lambda: '{}: bars drawn although the grid has no such layer'.format(name))
                else:
                    check_histogram(ctx, axes[0], name, want, bins)
    if not spec.backscatter:
        for name, dens in (('plot_density_vs_depth', vals['density']), ('plot_density_per_square_meter_vs_depth', vals['density'] / area)):
            with canvas() as plt:
                ctx.sut('{} {}'.format(name, bins), getattr(g, name), bins)
                check_line(ctx, plt.gcf().axes[0], name, vals['depth'], dens, bins)
    outlines(ctx, s)
    ctx.mark(spec.kind, spec.backend, 'disk' if spec.folder else 'mem', 'backscatter' if spec.backscatter else '', len(rezs))


def outlines(ctx, s):
    """the tile boundaries that are there to be drawn go around every square of the tile lattice of the grid"""
    g, spec = s.g, s.spec
    x, y = ctx.sut('get_tile_boundaries', g.get_tile_boundaries)
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    ctx.require(x.shape == y.shape and x.ndim == 1, 'tile boundaries of the shapes {} and {}'.format(x.shape, y.shape))
    have = set(zip(np.round((x - g.min_x) / spec.tile, 3).tolist(), np.round((y - g.min_y) / spec.tile, 3).tolist()))
    nx, ny = int(round(g.width / spec.tile)), int(round(g.height / spec.tile))
    for t in (t for t in g.tiles.flat if t is not None):
        i, j = round((t.min_x - g.min_x) / spec.tile), round((t.min_y - g.min_y) / spec.tile)
        for c in ((i, j), (i + 1, j), (i, j + 1), (i + 1, j + 1)):
            ctx.require(c in have, lambda: 'the corner {} of tile {} is not among the tile boundaries'.format(c, t.name))
    # what a pen draws that follows the points: along the lattice only, and all four sides of every tile
    fx, fy = (x - g.min_x) / spec.tile, (y - g.min_y) / spec.tile
    px, py = np.round(fx).astype(int), np.round(fy).astype(int)
    ctx.require(np.all(np.abs(fx - px) < 1e-3) and np.all(np.abs(fy - py) < 1e-3), 'tile boundaries have points that are no corner of a tile')
    sides = set()
    for a, b, c, d in zip(px[:-1].tolist(), py[:-1].tolist(), px[1:].tolist(), py[1:].tolist()):
        ctx.require(a == c or b == d, lambda: 'tile boundaries have a line from {} to {} across the grid'.format((a, b), (c, d)))
        sides |= {('h', k, b) for k in range(min(a, c), max(a, c))} | {('v', a, k) for k in range(min(b, d), max(b, d))}
    for t in (t for t in g.tiles.flat if t is not None):
        i, j = round((t.min_x - g.min_x) / spec.tile), round((t.min_y - g.min_y) / spec.tile)
        ctx.require({('h', i, j), ('h', i, j + 1), ('v', i, j), ('v', i + 1, j)} <= sides, lambda: 'a side of tile {} is not drawn'.format(t.name))
    ctx.saw('outlines_compared')
    ctx.saw('boundaries_drawn')


register('C32', case_c32, 'grids in random states drawn with matplotlib (Agg); the meshes, bars and lines that end up on the axes are read back and compared with the cells of the grid', quick=150, thorough=2500,
         nontrivial='maps_compared', least={'maps_compared': 60, 'cells_compared': 3500, 'histograms_compared': 150, 'lines_compared': 30})
