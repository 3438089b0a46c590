"""C01 conservation, C02 placement, C03 container bookkeeping: what happens to the soundings themselves"""
import numpy as np

from bgmon.checks import register
from bgmon.world import Session, World, asarr, is_grid, iter_leaves, leaf_id, leaf_origin, lattice, leaves, random_spec, same_rows


# ------------------------------------------------------------------------------------------------------------- C01

def conservation(s, op):
    ctx, m = s.ctx, s.model
    want = m.all_rows()
    got = [asarr(t.data) for t in iter_leaves(s.g)]
    total = sum(len(r) for r in got)
    ctx.saw('soundings_compared', len(want))
    ctx.require(total == len(want), lambda: 'after {}: {} soundings are in the tiles, {} were added and not removed'.format(op, total, len(want)))
    ctx.require(s.g.points_count == len(want), lambda: 'after {}: points_count is {} expected {}'.format(op, s.g.points_count, len(want)))
    ctx.require(bool(s.g.is_empty) == (len(want) == 0), lambda: 'after {}: is_empty is {} with {} soundings'.format(op, s.g.is_empty, len(want)))
    if len(want):
        ctx.require(all(set(r.dtype.names) == set(s.spec.fields) for r in got), lambda: 'after {}: the soundings have lost or gained a field'.format(op))
        names = list(s.spec.fields)
        have = np.concatenate([r[names] for r in got])
        ctx.require(same_rows(have, want), lambda: 'after {}: the soundings in the tiles are not the soundings that were added'.format(op))


def case_c01(ctx):
    spec = random_spec(ctx, origin=0.15)
    s = Session(ctx, spec, World(ctx, spec, ctx.pick([1.5, 3.0, 4.0])), [conservation])
    steps = ctx.integer(4, 9 if not spec.folder else 6)
    s.vary_dtype = ctx.chance(0.3)
    s.add()
    for _ in range(steps):
        op = s.step(dict(add=3, remove=2, readd=1.2, grid=1.2, reload=1.0))
        ctx.mark(spec.kind, spec.backend, 'disk' if spec.folder else 'mem', op, 'mixed types' if s.vary_dtype else '')
    ctx.saw('removals', len(s.removed))


register('C01', case_c01, 'random histories of add/remove/re-add/grid/reload over random grids (type, backend, tile sizes, disk or memory, '
         'survey like and boundary-hugging soundings); a case is non trivial when soundings were compared; distinct by history text',
         quick=220, thorough=5000, nontrivial='soundings_compared', least={'monitor_evaluations': 800, 'soundings_compared': 20000, 'op:remove': 40, 'op:reload': 30})


# ------------------------------------------------------------------------------------------------------------- C02

def check_lattice(ctx, spec, grid, x0, y0, can_move, size, label):
    """the tile arrays describe a contiguous lattice of squares, aligned to the origin, with every tile in its own slot"""
    ex, ey = asarr(grid.tile_edges_x), asarr(grid.tile_edges_y)
    tx, ty = asarr(grid.tile_x_origin), asarr(grid.tile_y_origin)
    shape = grid.tiles.shape
    ctx.require(tx.shape == shape and ty.shape == shape and len(ex) == shape[1] + 1 and len(ey) == shape[0] + 1,
                lambda: '{}: tiles {} origins {} {} edges {} {}'.format(label, shape, tx.shape, ty.shape, len(ex), len(ey)))
    ctx.require(bool(np.all(np.diff(ex) == size) and np.all(np.diff(ey) == size)), lambda: '{}: tile edges are not {} apart'.format(label, size))
    ctx.require(bool(np.all((ex - x0) / size == np.round((ex - x0) / size)) and np.all((ey - y0) / size == np.round((ey - y0) / size))),
                lambda: '{}: tile edges {} {} are not aligned with the origin {}'.format(label, ex[:2], ey[:2], (x0, y0)))
    ctx.require(bool(np.all(tx == ex[:-1][None, :]) and np.all(ty == ey[:-1][:, None])), lambda: '{}: tile origins and edges disagree'.format(label))
    ctx.require(grid.min_x == ex[0] and grid.max_x == ex[-1] and grid.min_y == ey[0] and grid.max_y == ey[-1],
                lambda: '{}: extents {} are not the outer edges'.format(label, (grid.min_x, grid.min_y, grid.max_x, grid.max_y)))
    ctx.require(grid.width == ex[-1] - ex[0] and grid.height == ey[-1] - ey[0], lambda: '{}: width/height {} {}'.format(label, grid.width, grid.height))
    n = 0
    for (r, c), t in np.ndenumerate(grid.tiles):
        if t is None:
            continue
        n += 1
        ctx.require(t.min_x == tx[r, c] and t.min_y == ty[r, c] and t.max_x == tx[r, c] + size and t.max_y == ty[r, c] + size,
                    lambda: '{}: tile in slot {} covers {} expected origin {}'.format(label, (r, c), (t.min_x, t.min_y, t.max_x, t.max_y), (tx[r, c], ty[r, c])))
    ctx.require(int(grid.number_of_tiles) == n, lambda: '{}: number_of_tiles is {} but there are {} tiles'.format(label, grid.number_of_tiles, n))
    return n


def placement(s, op):
    ctx, spec, m = s.ctx, s.spec, s.model
    if s.g.tiles is None:
        ctx.require(not m.containers, 'no tiles although soundings were added')
        return
    if s.g.is_empty:
        ctx.require(not m.containers, 'grid is empty although soundings were added')
        return
    check_lattice(ctx, spec, s.g, spec.ox, spec.oy, True, spec.tile, op + ' grid')
    if spec.kind == 'vr':
        for t in s.g.tiles.flat:
            if t is not None:
                ctx.require(is_grid(t), 'tile of a variable resolution grid is not a grid')
                check_lattice(ctx, spec, t, t.min_x, t.min_y, False, spec.leaf, op + ' subgrid')
    got = leaves(spec, s.g)
    want = m.live()
    ctx.require(set(got) == want, lambda: 'after {}: tiles without soundings {}, soundings without a tile {}'.format(
        op, sorted(set(got) - want)[:4], sorted(want - set(got))[:4]))
    for lid, t in got.items():
        x0, y0 = leaf_origin(spec, lid)
        d = asarr(t.data)
        ctx.saw('tiles_checked')
        ctx.require((t.min_x, t.min_y, t.max_x, t.max_y) == (x0, y0, x0 + spec.leaf, y0 + spec.leaf), lambda: 'after {}: tile {} covers {}'.format(op, lid, (t.min_x, t.min_y, t.max_x, t.max_y)))
        ctx.require(bool(np.all((d['x'] >= x0) & (d['x'] < x0 + spec.leaf) & (d['y'] >= y0) & (d['y'] < y0 + spec.leaf))),
                    lambda: 'after {}: tile {} holds soundings that are outside of it'.format(op, lid))
        ctx.require(same_rows(d, m.leaf_rows(lid)), lambda: 'after {}: tile {} does not hold exactly the soundings that fall in it'.format(op, lid))
    allr = m.all_rows()
    (a, b), (c, d) = s.g.return_extents()
    ctx.require(allr['x'].min() >= a and allr['y'].min() >= b and allr['x'].max() < c and allr['y'].max() < d,
                lambda: 'after {}: extents {} do not contain the soundings'.format(op, s.g.return_extents()))
    # soundings exactly on a boundary are the interesting ones
    onx = (allr['x'] - spec.ox) % spec.leaf == 0
    ctx.saw('soundings_on_a_tile_edge', int(onx.sum()))


def growth(s, op):
    """growing the grid leaves the existing tile objects where they are, and never shrinks the extents"""
    ctx = s.ctx
    now = {}
    if s.g.tiles is not None and not s.g.is_empty:
        now = {lid: t for lid, t in leaves(s.spec, s.g).items()}
        ext = s.g.return_extents()
        prev = getattr(s, '_ext', None)
        if prev is not None and op == 'add':
            (a, b), (c, d) = prev
            (e, f), (g, h) = ext
            ctx.require(e <= a and f <= b and g >= c and h >= d, lambda: 'extents went from {} to {} when points were added'.format(prev, ext))
            if ext != prev:
                ctx.saw('grid_grew')
                ctx.mark('grow', 'W' if e < a else '', 'S' if f < b else '', 'E' if g > c else '', 'N' if h > d else '')
            for lid in getattr(s, '_tiles', {}):
                ctx.require(lid in now, lambda: 'tile {} disappeared when points were added'.format(lid))
        s._ext = ext
    else:
        s._ext = None
    s._tiles = now


def case_c02(ctx):
    spec = random_spec(ctx, origin=0.3, disk=ctx.chance(0.2))
    w = World(ctx, spec, ctx.pick([1.5, 3.0]))
    s = Session(ctx, spec, w, [placement, growth])
    s.add(n=ctx.pick([1, 5, 40, 120]))
    for _ in range(ctx.integer(4, 8)):
        k = ctx.rng.random()
        if k < 0.45:
            # outside of the current area, in any direction, forces the grid to grow
            dx, dy = ctx.pick([-1, 0, 1]), ctx.pick([-1, 0, 1])
            size = w.span * ctx.pick([0.2, 0.5])
            far = ctx.pick([0.6, 1.0, 1.5])
            x0, y0 = w.cx + dx * far * w.span - size / 2, w.cy + dy * far * w.span - size / 2
            s.add(n=ctx.pick([1, 2, 10, 60]), region=(x0, y0, size, size), style=ctx.pick(['edges', 'uniform', 'cluster', 'edges']))
            ctx.mark('outside', dx, dy, spec.kind)
        else:
            s.step(dict(add=3, remove=2, readd=1, grid=0.3, reload=0.6))


register('C02', case_c02, 'histories that grow the grid in every direction, with soundings on and one ulp beside tile/cell edges, non zero origins, '
         'emptied and rebuilt tiles; every tile of every state is compared with the half open square it should cover',
         quick=200, thorough=4500, nontrivial='tiles_checked', least={'monitor_evaluations': 5000, 'tiles_checked': 1500, 'grid_grew': 60, 'soundings_on_a_tile_edge': 300})


# ------------------------------------------------------------------------------------------------------------- C03

def bookkeeping(s, op):
    ctx, m, spec = s.ctx, s.model, s.spec
    g = s.g
    ctx.require(sorted(g.container) == sorted(m.containers), lambda: 'after {}: containers are {} expected {}'.format(op, sorted(g.container), sorted(m.containers)))
    for c in m.containers:
        ctx.require(list(g.container[c]) == m.files[c], lambda: 'after {}: files of {} are {} expected {}'.format(op, c, g.container[c], m.files[c]))
    ctx.require(sorted(g.container_timestamp) == sorted(m.containers), lambda: 'after {}: container_timestamp has {}'.format(op, sorted(g.container_timestamp)))
    ctx.require(sorted(g.return_unique_containers()) == sorted(m.containers), lambda: 'after {}: return_unique_containers {}'.format(op, g.return_unique_containers()))
    for lid, t in leaves(spec, g).items():
        d = asarr(t.data)
        want = m.leaf_containers(lid)
        ctx.require(sorted(t.container) == sorted(want), lambda: 'after {}: tile {} lists the containers {} expected {}'.format(op, lid, sorted(t.container), sorted(want)))
        at = 0
        for c in sorted(t.container, key=lambda k: t.container[k][0]):
            lo, hi = t.container[c]
            ctx.require(lo == at and hi > lo, lambda: 'after {}: ranges of tile {} do not partition its soundings: {}'.format(op, lid, dict(t.container)))
            at = hi
            ctx.saw('ranges_checked')
            ctx.require(same_rows(d[lo:hi], m.leaf_rows(lid, c)), lambda: 'after {}: range {} of container {} in tile {} holds other soundings'.format(op, (lo, hi), c, lid))
        ctx.require(at == len(d), lambda: 'after {}: ranges of tile {} end at {} of {}'.format(op, lid, at, len(d)))
        if len(t.container) > 1:
            ctx.saw('tiles_shared_by_containers')
    for t in (g.tiles.flat if g.tiles is not None else []):
        if t is not None and is_grid(t):
            rows = [asarr(l.data) for l in iter_leaves(t)]
            inside = set()
            for l in iter_leaves(t):
                inside |= set(l.container)
            ctx.require(set(t.container) >= inside, lambda: 'after {}: subgrid {} does not list {}'.format(op, t.name, inside - set(t.container)))


def case_c03(ctx):
    spec = random_spec(ctx)
    w = World(ctx, spec, ctx.pick([1.0, 2.0]))
    s = Session(ctx, spec, w, [bookkeeping])
    # overlapping containers, so that the ranges of the tiles are really shared
    for _ in range(ctx.integer(2, 4)):
        s.add(n=ctx.pick([5, 30, 80]), region=w.region() if ctx.chance(0.5) else (w.cx - w.span / 4, w.cy - w.span / 4, w.span / 2, w.span / 2))
    for _ in range(ctx.integer(4, 8 if not spec.folder else 5)):
        op = s.step(dict(add=1.5, remove=2.5, readd=1.8, grid=0.8, reload=0.8, remove_unknown=0.5))
        ctx.mark(spec.kind, spec.backend, op, min(len(s.model.containers), 4))


register('C03', case_c03, 'overlapping containers that are removed and re-added in random orders (also across reloads and griddings); non trivial when container '
         'ranges of a tile were compared with the soundings of that container', quick=220, thorough=5000, nontrivial='tiles_shared_by_containers',
         least={'monitor_evaluations': 3000, 'ranges_checked': 1500, 'tiles_shared_by_containers': 600, 'op:remove': 60})
