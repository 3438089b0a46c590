"""
Workload side of the monitors: survey-like (and hostile) sounding generators, the executable reference model of a grid and
the session that drives the real bathygrid objects and the model through the same history.

The model is deliberately naive: it keeps the rows of every container that is in the grid, and, per leaf tile, the rows that
were there when the leaf was last gridded at a resolution.  It knows nothing about how bathygrid stores any of it.
"""
import os
from collections import OrderedDict

import numpy as np

from bgmon.core import Violation

EPSG = 26919
VREF_DOWN = 'COMPOUNDCRS["x", VERTCRS["MLLW depth", VDATUM["a"], CS[vertical,1], AXIS["depth (D)",down], LENGTHUNIT["metre",1]]]'
VREF_UP = 'COMPOUNDCRS["x", VERTCRS["height", VDATUM["a"], CS[vertical,1], AXIS["gravity-related height (H)",up, AXIS["ellipsoidal height (h)",up], LENGTHUNIT["metre",1]]]'


class Spec:
    """What kind of grid is driven"""

    def __init__(self, kind='sr', backend='numpy', tile=64.0, sub=16.0, ox=0.0, oy=0.0, folder='', fields=('x', 'y', 'z', 'tvu', 'thu'),
                 backscatter=False, zdtype='f4', xydtype='f8'):
        self.kind, self.backend, self.tile, self.sub = kind, backend, float(tile), float(sub)
        self.ox, self.oy, self.folder, self.fields, self.backscatter = float(ox), float(oy), folder, tuple(fields), backscatter
        self.zdtype, self.xydtype = zdtype, xydtype

    @property
    def leaf(self):
        return self.sub if self.kind == 'vr' else self.tile

    @property
    def dtype(self):
        return np.dtype([(f, self.xydtype if f in 'xy' else (self.zdtype if f == 'z' else 'f4')) for f in self.fields])

    @property
    def depth_key(self):
        return 'intensity' if self.backscatter else 'depth'

    def clone(self, **kw):
        s = Spec(self.kind, self.backend, self.tile, self.sub, self.ox, self.oy, self.folder, self.fields, self.backscatter,
                 self.zdtype, self.xydtype)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def build(self):
        from bathygrid.convenience import create_grid
        from bathygrid import maingrid
        if self.ox or self.oy:
            cls = {('sr', 'numpy'): maingrid.SRGrid, ('sr', 'zarr'): maingrid.SRGridZarr,
                   ('vr', 'numpy'): maingrid.VRGridTile, ('vr', 'zarr'): maingrid.VRGridTileZarr}[(self.kind, self.backend)]
            kw = dict(min_x=self.ox, min_y=self.oy, tile_size=self.tile, output_folder=self.folder, is_backscatter=self.backscatter)
            if self.kind == 'vr':
                kw['subtile_size'] = self.sub
            return cls(**kw)
        return create_grid(self.folder, 'single_resolution' if self.kind == 'sr' else 'variable_resolution_tile', self.backend,
                           self.tile, self.sub, self.backscatter)

    def describe(self):
        return '{}/{} tile={} leaf={} origin=({},{}) {} fields={}{}'.format(
            self.kind, self.backend, self.tile, self.leaf, self.ox, self.oy, 'disk' if self.folder else 'memory', ','.join(self.fields),
            ' backscatter' if self.backscatter else '')


def random_spec(ctx, disk=None, kinds=('sr', 'vr'), backends=('numpy', 'zarr'), fields=None, backscatter=False, tiles=(16, 32, 64, 128), origin=0.0):
    kind = ctx.pick(list(kinds))
    tile = float(ctx.pick(list(tiles)))
    sub = tile / ctx.pick([1, 2, 4] if tile <= 64 else [2, 4])
    disk = ctx.chance(0.35) if disk is None else disk
    if fields is None:
        fields = ctx.pick([('x', 'y', 'z', 'tvu', 'thu'), ('x', 'y', 'z'), ('x', 'y', 'z', 'tvu'), ('x', 'y', 'z', 'thu'),
                           ('z', 'thu', 'x', 'tvu', 'y')], p=[0.5, 0.2, 0.1, 0.1, 0.1])
    ox = oy = 0.0
    if ctx.chance(origin):
        ox, oy = float(ctx.integer(-500, 500)) + ctx.pick([0, 0.5]), float(ctx.integer(-500, 500)) + ctx.pick([0, 0.25])
    return Spec(kind, ctx.pick(list(backends)), tile, max(sub, 4.0), ox, oy, ctx.folder() if disk else '', fields, backscatter,
                zdtype=ctx.pick(['f4', 'f8'], p=[0.75, 0.25]))


class World:
    """The patch of sea floor the soundings come from"""

    def __init__(self, ctx, spec, span_tiles=3.0, centers=None, elongated=0.12):
        self.ctx, self.spec = ctx, spec
        places = centers or [(0.0, 0.0), (500000.0, 4000000.0), (-1234.0, 777.0), (166021.5, 0.0), (-3.0e5, -2.5e6), (431000.0, 5.6e6), (620000.0, 9.3e6)]
        self.cx, self.cy = ctx.pick(places)
        # round to the tile lattice with an offset, so that boundaries fall inside the area
        t = spec.tile
        self.cx = spec.ox + np.floor((self.cx - spec.ox) / t) * t + ctx.pick([0.0, t / 2, t / 4])
        self.cy = spec.oy + np.floor((self.cy - spec.oy) / t) * t + ctx.pick([0.0, t / 2, t / 4])
        self.span = span_tiles * t
        # now and then a corridor survey, many tiles in one direction and few in the other
        self.ax, self.ay = ctx.pick([(1.0, 1.0), (2.3, 0.3), (0.3, 2.3)], p=[1 - elongated, elongated / 2, elongated / 2])
        self.zstyle = ctx.pick(['slope', 'flat', 'shallow', 'ties', 'deep', 'noisy', 'bands'])
        self.z0 = ctx.pick([2.0, 9.9, 15.0, 35.0, 70.0, 150.0, 600.0, 4000.0]) if self.zstyle != 'shallow' else 0.0
        self.gx, self.gy = ctx.rng.uniform(-0.05, 0.05, 2)

    def depth(self, x, y):
        ctx, n = self.ctx, len(x)
        if self.zstyle == 'flat':
            return np.full(n, self.z0)
        if self.zstyle == 'shallow':
            return ctx.rng.normal(0.0, 3.0, n)
        if self.zstyle == 'ties':
            return np.round(self.z0) + ctx.rng.integers(-2, 3, n).astype(float)
        if self.zstyle == 'deep':
            return self.z0 + ctx.rng.normal(0, self.z0 * 0.05, n)
        if self.zstyle == 'noisy':
            return np.abs(self.z0 + ctx.rng.standard_t(2, n) * 0.2 * self.z0) + 0.01
        if self.zstyle == 'bands':
            # every column of leaf tiles in another band of the depth lookup
            k = np.floor((x - self.spec.ox) / self.spec.leaf) % 6
            return 13.0 * 2.0 ** k + ctx.rng.uniform(0, 1, n)
        return self.z0 + self.gx * (x - self.cx) + self.gy * (y - self.cy) + ctx.rng.normal(0, 0.1, n)

    def region(self, small=False):
        """random box within the area"""
        ctx = self.ctx
        frac = ctx.pick([0.15, 0.3, 0.6, 1.0]) if not small else ctx.pick([0.05, 0.15, 0.3])
        sx, sy = self.span * self.ax, self.span * self.ay
        w, h = sx * frac, sy * frac
        x0 = self.cx - sx / 2 + ctx.rng.uniform(0, sx - w + 1e-9)
        y0 = self.cy - sy / 2 + ctx.rng.uniform(0, sy - h + 1e-9)
        return x0, y0, w, h

    def points(self, n, region=None, style=None):
        ctx, spec = self.ctx, self.spec
        x0, y0, w, h = region or self.region()
        style = style or ctx.pick(['uniform', 'line', 'edges', 'cluster', 'lattice', 'mixed'], p=[0.3, 0.15, 0.2, 0.1, 0.1, 0.15])
        if style == 'mixed':
            parts = np.array_split(np.arange(n), 3)
            subs = [self.points(len(p), (x0, y0, w, h), s) for p, s in zip(parts, ['uniform', 'edges', 'cluster']) if len(p)]
            out = np.concatenate(subs)
            return out[ctx.rng.permutation(len(out))]
        x = ctx.rng.uniform(x0, x0 + w, n)
        y = ctx.rng.uniform(y0, y0 + h, n)
        if style == 'line':
            t = np.linspace(0, 1, n)
            x, y = x0 + t * w, y0 + t * h * ctx.rng.uniform(0.1, 1.0) + ctx.rng.normal(0, w * 0.01, n)
        elif style == 'cluster':
            k = max(1, n // 12)
            which = ctx.rng.integers(0, k, n)
            x, y = x[which] + ctx.rng.normal(0, spec.leaf * 0.02, n), y[which] + ctx.rng.normal(0, spec.leaf * 0.02, n)
        elif style == 'lattice':
            side = max(2, int(np.ceil(np.sqrt(n))))
            gx, gy = np.meshgrid(np.linspace(x0, x0 + w, side), np.linspace(y0, y0 + h, side))
            x, y = gx.ravel()[:n], gy.ravel()[:n]
        elif style == 'edges':
            # on tile / leaf / cell boundaries, and one ulp to either side of them
            for arr, o in ((x, spec.ox), (y, spec.oy)):
                sel = np.where(ctx.rng.random(n) < 0.7)[0]
                step = ctx.rng.choice([spec.tile, spec.leaf, spec.leaf / 4, 1.0], len(sel))
                b = o + np.round((arr[sel] - o) / step) * step
                side = ctx.rng.integers(0, 3, len(sel))
                arr[sel] = np.where(side == 0, b, np.where(side == 1, np.nextafter(b, -np.inf), np.nextafter(b, np.inf)))
        out = np.empty(n, dtype=spec.dtype)
        out['x'], out['y'] = x, y
        if spec.xydtype == 'f4':
            x, y = out['x'].astype(float), out['y'].astype(float)
        out['z'] = self.depth(x, y)
        for f in ('tvu', 'thu'):
            if f in spec.fields:
                out[f] = ctx.rng.uniform(0.05, 3.0, n)
        return out


def recast(ctx, rows):
    """the same variables with other floating point types; what is added is what these hold"""
    kinds = {n: ctx.pick(['f4', 'f8']) if n not in 'xy' else ctx.pick(['f8', 'f8', 'f4']) for n in rows.dtype.names}
    out = np.empty(len(rows), dtype=[(n, kinds[n]) for n in rows.dtype.names])
    for n in rows.dtype.names:
        out[n] = rows[n]
        if kinds[n] == 'f8' and n not in 'xy' and rows.dtype[n] != np.float64:
            out[n] += ctx.rng.uniform(-1e-6, 1e-6, len(rows))   # not a number that single precision can hold
    return out


def field_order(ctx):
    """wrapper for Session.add: the soundings come with their variables in another order"""
    def wrap(rows):
        if not ctx.chance(0.3):
            return rows
        out = np.empty(len(rows), dtype=[(n, rows.dtype[n]) for n in ctx.rng.permutation(list(rows.dtype.names))])
        for n in out.dtype.names:
            out[n] = rows[n]
        return out
    return wrap


# ---------------------------------------------------------------------------------------------------------- geometry

def lattice(v, origin, size):
    """index of the half open interval [origin + k * size, origin + (k + 1) * size) that holds v, exact"""
    v = np.asarray(v, dtype=np.float64)
    k = np.floor((v - origin) / size)
    k = k - (v < origin + k * size)
    k = k + (v >= origin + (k + 1) * size)
    return k.astype(np.int64)


def asarr(a):
    """whatever the storage layer handed back, as a plain numpy array"""
    if a is None:
        return None
    if hasattr(a, 'compute'):
        a = a.compute(scheduler='synchronous')
    return np.array(a)


def is_grid(t):
    return hasattr(t, 'tiles')


def iter_leaves(grid):
    """every real tile that holds points and cells"""
    if grid.tiles is None:
        return
    for t in grid.tiles.flat:
        if t is None:
            continue
        if is_grid(t):
            yield from iter_leaves(t)
        else:
            yield t


def leaf_id(spec, tile):
    return (int(round((tile.min_x - spec.ox) / spec.leaf)), int(round((tile.min_y - spec.oy) / spec.leaf)))


def leaf_origin(spec, lid):
    return spec.ox + lid[0] * spec.leaf, spec.oy + lid[1] * spec.leaf


def leaves(spec, grid):
    out = OrderedDict()
    for t in iter_leaves(grid):
        lid = leaf_id(spec, t)
        if lid in out:
            raise Violation('two tiles cover the same square {}'.format(lid))
        out[lid] = t
    return out


def sorted_rows(rows):
    rows = np.asarray(rows)
    names = sorted(rows.dtype.names)
    order = np.lexsort([rows[n] for n in names])
    return np.column_stack([rows[n][order].astype(np.float64) for n in names]) if len(rows) else np.zeros((0, len(names)))


def same_rows(a, b):
    """same multiset of soundings, every field bit for bit"""
    if a is None or b is None or sorted(a.dtype.names) != sorted(b.dtype.names) or len(a) != len(b):
        return False
    return np.array_equal(sorted_rows(a), sorted_rows(b), equal_nan=True)


# ---------------------------------------------------------------------------------------------------------- reference gridding

LAYERS = {'tvu': 'vertical_uncertainty', 'thu': 'horizontal_uncertainty'}


class RefCells:
    """
    Straightforward gridding of a set of soundings on one square, kept per cell:
    count, value (float64) and, for shoalest, the candidate soundings that attain the value.
    """

    def __init__(self, rows, x0, y0, size, res, algo):
        self.n = int(round(size / res))
        self.res, self.algo, self.size = res, algo, size
        col, row = lattice(rows['x'], x0, res), lattice(rows['y'], y0, res)
        if len(rows) and (col.min() < 0 or row.min() < 0 or col.max() >= self.n or row.max() >= self.n):
            raise ValueError('model rows are outside of the square')
        self.flat = row * self.n + col
        self.rows = rows
        shape = (self.n, self.n)
        self.count = np.bincount(self.flat, minlength=self.n * self.n).reshape(shape)
        self.zabs = float(np.max(np.abs(rows['z']))) if len(rows) else 0.0
        z = rows['z'].astype(np.float64)
        self.z = z
        with np.errstate(invalid='ignore', divide='ignore'):
            if algo == 'mean':
                self.depth = (np.bincount(self.flat, weights=z, minlength=self.n * self.n) / self.count.ravel()).reshape(shape)
            else:
                d = np.full(self.n * self.n, np.inf)
                np.minimum.at(d, self.flat, z)
                d[np.isinf(d)] = np.nan
                self.depth = d.reshape(shape)
            self.unc = {}
            for f, lyr in LAYERS.items():
                if f in rows.dtype.names and algo == 'mean':
                    u = np.bincount(self.flat, weights=rows[f].astype(np.float64), minlength=self.n * self.n)
                    self.unc[lyr] = (u / self.count.ravel()).reshape(shape)

    def tol(self):
        """3 decimals in float32, plus the accumulation error of a (pairwise) sum of count values in the precision of the soundings"""
        if self.rows.dtype['z'] == np.float64:
            return 5.2e-4 + 2.5e-7 * self.zabs + 0 * self.count
        return 5.2e-4 + 6e-8 * self.zabs * (np.minimum(self.count, 30) + 4)

    def layer_names(self, depth_key):
        return {depth_key, 'density'} | {LAYERS[f] for f in LAYERS if f in self.rows.dtype.names}

    def check_depth(self, arr):
        if arr.shape != self.depth.shape:
            return 'shape {} expected {}'.format(arr.shape, self.depth.shape)
        bad = np.isnan(arr) != np.isnan(self.depth)
        if bad.any():
            i = np.argwhere(bad)[0]
            return 'cell {} is {} but {} soundings fall in it'.format(tuple(i), arr[tuple(i)], self.count[tuple(i)])
        diff = np.abs(arr.astype(np.float64) - self.depth)
        bad = diff > self.tol()
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            return 'cell {} is {} expected {} ({} of {} soundings)'.format(i, arr[i], self.depth[i], self.algo, self.count[i])
        return ''

    def check_density(self, arr):
        if arr.shape != self.count.shape:
            return 'shape {} expected {}'.format(arr.shape, self.count.shape)
        bad = arr != self.count
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            return 'density of cell {} is {} expected {}'.format(i, arr[i], self.count[i])
        return ''

    def check_uncertainty(self, cells):
        """cells: dict of layer name to array"""
        present = [lyr for f, lyr in LAYERS.items() if f in self.rows.dtype.names]
        for lyr in present:
            if lyr not in cells:
                return '{} layer is missing although the soundings carry it'.format(lyr)
            if cells[lyr].shape != self.count.shape:
                return '{} shape {} expected {}'.format(lyr, cells[lyr].shape, self.count.shape)
            bad = np.isnan(cells[lyr]) != (self.count == 0)
            if bad.any():
                i = tuple(np.argwhere(bad)[0])
                return '{} of cell {} is {} with {} soundings'.format(lyr, i, cells[lyr][i], self.count[i])
        if self.algo == 'mean':
            for lyr in present:
                diff = np.abs(cells[lyr].astype(np.float64) - self.unc[lyr])
                bad = diff > 5.2e-4 + 6e-8 * 5 * (np.minimum(self.count, 30) + 4)
                if bad.any():
                    i = tuple(np.argwhere(bad)[0])
                    return '{} of cell {} is {} expected {}'.format(lyr, i, cells[lyr][i], self.unc[lyr][i])
        elif present:
            # the uncertainty has to be the one of a sounding that attains the cell value, for all layers the same sounding
            cellz = self.depth.ravel()[self.flat]
            ok = self.z == cellz
            for lyr in present:
                f = [k for k in LAYERS if LAYERS[k] == lyr][0]
                ok &= np.abs(self.rows[f].astype(np.float64) - cells[lyr].ravel()[self.flat]) < 6.5e-4
            good = np.zeros(self.n * self.n, dtype=bool)
            good[self.flat[ok]] = True
            bad = (~good) & (self.count.ravel() > 0)
            if bad.any():
                i = np.unravel_index(np.where(bad)[0][0], self.count.shape)
                mine = self.rows[(self.flat == np.where(bad)[0][0])]
                return 'uncertainty of cell {} {} belongs to no sounding that attains the shoalest depth, soundings {}'.format(
                    i, {l: float(cells[l][i]) for l in present}, mine.tolist()[:6])
        return ''


class Model:
    """What has to be in the grid"""

    def __init__(self, spec):
        self.spec = spec
        self.containers = OrderedDict()   # name -> rows
        self.ids = {}                     # name -> (n, 2) leaf ids
        self.files = {}
        self.snap = {}                    # leaf -> {res: (algo, rows)}
        self.latest = {}                  # leaf -> res of the last gridding
        self.changed = set()
        self.algo = ''
        self.times = []

    def locate(self, rows):
        s = self.spec
        return np.column_stack([lattice(rows['x'], s.ox, s.leaf), lattice(rows['y'], s.oy, s.leaf)])

    def add(self, name, rows, files=None):
        self.containers[name] = rows
        self.ids[name] = self.locate(rows)
        self.files[name] = list(files) if files else ['Unknown']
        touched = {tuple(i) for i in np.unique(self.ids[name], axis=0).tolist()}
        self.changed |= touched
        return touched

    def remove(self, name):
        self.containers.pop(name)
        self.files.pop(name)
        touched = {tuple(i) for i in np.unique(self.ids.pop(name), axis=0).tolist()}
        live = self.live()
        for t in touched:
            if t in live:
                self.changed.add(t)
            else:
                self.changed.discard(t)
                self.snap.pop(t, None)
                self.latest.pop(t, None)
        return touched

    def live(self):
        if not self.ids:
            return set()
        return {tuple(i) for i in np.unique(np.concatenate(list(self.ids.values())), axis=0).tolist()}

    def leaf_rows(self, lid, name=None):
        parts = []
        for c, rows in self.containers.items():
            if name is None or c == name:
                i = self.ids[c]
                parts.append(rows[(i[:, 0] == lid[0]) & (i[:, 1] == lid[1])])
        return np.concatenate(parts) if parts else np.empty(0, dtype=self.spec.dtype)

    def all_rows(self):
        return np.concatenate(list(self.containers.values())) if self.containers else np.empty(0, dtype=self.spec.dtype)

    def leaf_containers(self, lid):
        return [c for c in self.containers if ((self.ids[c][:, 0] == lid[0]) & (self.ids[c][:, 1] == lid[1])).any()]

    def gridded(self, algo, resolve, clear, update):
        """resolve: leaf -> resolution that is used for the leaf"""
        touched = set()
        for lid in self.live():
            if update and not clear and lid not in self.changed:
                continue
            touched.add(lid)
            res = resolve(lid)
            if clear or update or lid not in self.snap:
                self.snap[lid] = {}
            self.snap[lid][res] = (algo, self.leaf_rows(lid))
            self.latest[lid] = res
            self.changed.discard(lid)
        self.algo = algo
        return touched

    def ref(self, lid, res):
        algo, rows = self.snap[lid][res]
        x0, y0 = leaf_origin(self.spec, lid)
        return RefCells(rows, x0, y0, self.spec.leaf, res, algo)


DEPTH_LOOKUP = [(10, 0.25), (20, 0.5), (40, 1.0), (60, 2.0), (80, 4.0), (160, 8.0), (320, 16.0), (640, 32.0), (1280, 64.0),
                (2560, 128.0), (5120, 256.0), (10240, 512.0), (20480, 1024.0)]


def depth_resolution(mean, size, slack=2e-3):
    """the resolutions the documented depth lookup allows for this mean depth (more than one only next to a band boundary)"""
    out = set()
    for m in (mean - slack, mean, mean + slack):
        for limit, res in DEPTH_LOOKUP:
            if m < limit:
                out.add(float(min(res, size)))
                break
        else:
            out.add(float(min(DEPTH_LOOKUP[-1][1], size)))
    return out


def density_resolution(rows, x0, y0, size):
    """Calder/Rice estimate as documented in resolution_by_density: set of acceptable answers"""
    start = min(size, 16.0)
    n = int(round(size / start))
    flat = lattice(rows['y'], y0, start) * n + lattice(rows['x'], x0, start)
    _, counts = np.unique(flat, return_counts=True)
    rez = [r for _, r in DEPTH_LOOKUP]
    mean = float(np.mean(rows['z'].astype(np.float64)))
    out = set()
    if len(counts) / n ** 2 <= 0.75:
        for m in (mean - 2e-3, mean, mean + 2e-3):
            for limit, r in DEPTH_LOOKUP:
                if m <= limit:
                    out.add(float(min(r, size)))
                    break
            else:
                out.add(float(min(rez[-1], size)))
    else:
        est = np.sqrt(2 * 5 * 1.75 / (counts / start ** 2))
        want = float(np.sum(est * counts) / np.sum(counts))
        for v in (want * (1 - 1e-6), want, want * (1 + 1e-6)):
            pick = [r for r in rez if r >= v]
            out.add(float(min(pick[0] if pick else rez[-1], size)))
    return out


def expected_leaf(spec, m, lid, mode):
    rows = m.leaf_rows(lid)
    x0, y0 = leaf_origin(spec, lid)
    if mode == 'depth':
        return depth_resolution(float(np.mean(rows['z'].astype(np.float64))), spec.leaf)
    return density_resolution(rows, x0, y0, spec.leaf)


class Session:
    """Drives the real grid and the model through the same history, running the monitors after each operation"""

    def __init__(self, ctx, spec, world=None, monitors=()):
        self.ctx, self.spec = ctx, spec
        self.world = world or World(ctx, spec)
        self.model = Model(spec)
        self.monitors = list(monitors)
        self.crs, self.vref = EPSG, 'MLLW'
        self.counter = 0
        self.removed = []
        self.touched = set()
        self.vary_dtype = False
        self.progress = ctx.index % 9 == 4   # progress bars are on by default, they are a part of the code too
        ctx.event('create ' + spec.describe())
        self.g = ctx.sut('create_grid', spec.build)
        ctx.saw('sessions')
        ctx.mark('spec', spec.kind, spec.backend, 'disk' if spec.folder else 'mem')

    def _after(self, op):
        self.ctx.saw('op:' + op)
        for m in self.monitors:
            m(self, op)

    def new_name(self):
        self.counter += 1
        base = self.ctx.pick(['em2040_123_05_23_2017', 'line', 'cont', 'tj patch'])
        have = list(self.model.containers) + [n for n, _ in self.removed]
        if have and self.ctx.chance(0.4):
            # the name of a container can be the start, the end or the middle of the name of another one
            old = self.ctx.pick(have)
            new = self.ctx.pick([old + '_0', old + '_0', old + '__line1', old + '_1', old + '0', old[:-1], old.split('_')[0], '_' + old, old.upper(), old + ' ', old + old])
            if new and new not in have:
                return new
        return '{}_{}{}'.format(base, self.counter, self.ctx.pick(['', '__a', '_0']))

    def add(self, rows=None, name=None, n=None, region=None, files=None, style=None, wrap=None, **kw):
        ctx = self.ctx
        if rows is None:
            n = n or int(ctx.pick([1, 2, 7, 30, 80, 200], p=[0.08, 0.07, 0.15, 0.3, 0.25, 0.15]))
            rows = self.world.points(n, region, style)
            if self.vary_dtype:
                rows = recast(ctx, rows)
        name = name or self.new_name()
        files = files if files is not None else (['{}_{}.all'.format(name, i) for i in range(ctx.integer(1, 3))] if ctx.chance(0.5) else None)
        handed = np.copy(rows)
        data = wrap(handed) if wrap else handed
        ctx.sut('add {} n={} files={}'.format(name, len(rows), bool(files)), self.g.add_points, data, name, files, kw.get('crs', self.crs),
                kw.get('vref', self.vref), kw.get('min_time'), kw.get('max_time'), progress_bar=self.progress)
        self.touched = self.model.add(name, rows, files)
        ctx.saw('points_added', len(rows))
        ctx.saw('leaf_tiles_touched', len(self.touched))
        self._after('add')
        return name

    def remove(self, name=None):
        name = name or self.ctx.pick(list(self.model.containers))
        rows = self.model.containers[name]
        self.ctx.sut('remove {}'.format(name), self.g.remove_points, name, progress_bar=self.progress)
        self.removed.append((name, rows))
        self.touched = self.model.remove(name)
        self.ctx.saw('points_removed', len(rows))
        self._after('remove')

    def remove_unknown(self):
        self.ctx.sut('remove unknown', self.g.remove_points, 'no such container', progress_bar=self.progress)
        self.touched = set()
        self._after('remove_unknown')

    def grid(self, algo=None, res=None, clear=False, update=False, mode='depth', use_dask=False, extra=None):
        ctx, m = self.ctx, self.model
        if algo is None:
            algo = m.algo or ctx.pick(['mean', 'shoalest'])
        option = 'update' if update else 'full'
        before = {lid: set(s) for lid, s in m.snap.items()}
        got = ctx.sut('grid {} res={} clear={} {} mode={} dask={}'.format(algo, res, clear, option, mode, use_dask), self.g.grid, algo, res,
                      clear_existing=clear, auto_resolution_mode=mode, regrid_option=option, use_dask=use_dask, progress_bar=self.progress, **(extra or {}))
        if res is not None:
            resolve = lambda lid: float(res)
        elif self.spec.kind == 'sr':
            auto = [r for r in got]
            if not update and len(auto) != 1:
                raise Violation('single resolution auto gridding returned the resolutions {}'.format(got))
            resolve = lambda lid: float(auto[0])
        else:
            tiles = leaves(self.spec, self.g)

            def resolve(lid):
                have = [float(r) for r in tiles[lid].cells]
                if clear or update or not before.get(lid):
                    if len(have) != 1:
                        raise Violation('tile {} has the resolutions {} after gridding'.format(lid, have))
                    return have[0]
                new = [r for r in have if r not in before[lid]]
                if len(new) == 1:
                    return new[0]
                cand = expected_leaf(self.spec, m, lid, mode)
                hit = [r for r in have if r in cand]
                return hit[0] if hit else have[0]
        self.touched = m.gridded(algo, resolve, clear, update)
        ctx.saw('leaf_tiles_gridded', len(self.touched))
        self.got = got
        self._after('grid')
        return got

    def reload(self, elsewhere=False):
        from bathygrid.convenience import load_grid
        ctx = self.ctx
        if elsewhere or not self.spec.folder:
            dest = ctx.folder(stem='saved')
            ctx.sut('save to {}'.format(os.path.basename(dest)), self.g.save, dest, progress_bar=self.progress)
            self.spec.folder = dest
        self.g = ctx.sut('load_grid', load_grid, self.spec.folder)
        self.touched = set()
        self._after('reload')

    # ---- histories
    def random_res(self):
        leaf = self.spec.leaf
        return float(self.ctx.pick([r for r in (0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0) if r <= leaf and leaf / r <= 64]))

    def random_grid(self, update=None, clear=None, auto=0.2, algos=('mean', 'shoalest'), use_dask=False):
        """a valid grid call.  Update mode on a single resolution grid keeps to an explicit resolution."""
        ctx, m = self.ctx, self.model
        clear = ctx.chance(0.3) if clear is None else clear
        update = ctx.chance(0.5) if update is None else update
        algo = m.algo or ctx.pick(list(algos))
        if clear and ctx.chance(0.5):
            algo = ctx.pick(list(algos))
        res = self.random_res()
        if ctx.chance(auto) and (self.spec.kind == 'vr' or not update or clear):
            zs = m.all_rows()['z']
            # keep the number of cells reasonable, the shallow bands use 0.25 m cells
            if self.spec.leaf <= 64 or float(np.mean(zs)) > 25:
                res = None
        return self.grid(algo, res, clear, update, mode=ctx.pick(['depth', 'density']) if res is None else 'depth', use_dask=use_dask)

    def step(self, weights=None):
        ctx, m = self.ctx, self.model
        w = dict(add=3.0, remove=1.5, readd=0.7, grid=2.5, reload=0.8, remove_unknown=0.15)
        w.update(weights or {})
        if not m.containers:
            w.update(remove=0, grid=0, reload=0)
        if len(m.containers) > 6:
            w['add'] *= 0.3
        if not self.removed:
            w['readd'] = 0
        if not self.spec.folder and not ctx.chance(0.3):
            w['reload'] = 0
        names = list(w)
        p = np.array([w[k] for k in names], dtype=float)
        op = names[int(ctx.rng.choice(len(names), p=p / p.sum()))]
        if op == 'add':
            self.add()
        elif op == 'readd':
            name, rows = self.removed[ctx.integer(0, len(self.removed) - 1)]
            if name in m.containers:
                name = None
            if ctx.chance(0.4):
                rows = None
            self.add(rows=rows, name=name)
        elif op == 'remove':
            self.remove()
        elif op == 'grid':
            self.random_grid()
        elif op == 'reload':
            self.reload(elsewhere=ctx.chance(0.25))
        else:
            self.remove_unknown()
        return op


# ---------------------------------------------------------------------------------------------------------- observing

STANDARD = ('depth', 'intensity', 'density', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_count',
            'hypothesis_ratio')


def tile_cells(tile):
    """{res: {layer: array}} of the layers that are part of the product"""
    return {float(r): {l: asarr(a) for l, a in lyrs.items() if l in STANDARD} for r, lyrs in tile.cells.items()}


def observe(spec, grid, cells=True):
    """A plain, comparable picture of everything a user can get at: soundings, containers and cells per tile"""
    out = {}
    for lid, t in leaves(spec, grid).items():
        out[lid] = {'rows': asarr(t.data), 'container': {k: [int(v[0]), int(v[1])] for k, v in t.container.items()},
                    'changed': bool(t.point_count_changed), 'cells': tile_cells(t) if cells else {}}
    return out


def diff_observed(a, b, rows_ordered=False, what=('rows', 'container', 'changed', 'cells')):
    """first difference between two observations or ''"""
    if set(a) != set(b):
        return 'tiles differ: only in first {} only in second {}'.format(sorted(set(a) - set(b))[:4], sorted(set(b) - set(a))[:4])
    for lid in a:
        p, q = a[lid], b[lid]
        if 'rows' in what:
            if rows_ordered:
                ok = p['rows'].dtype.names == q['rows'].dtype.names and len(p['rows']) == len(q['rows']) and \
                    all(np.array_equal(p['rows'][n], q['rows'][n], equal_nan=True) for n in p['rows'].dtype.names)
            else:
                ok = same_rows(p['rows'], q['rows'])
            if not ok:
                return 'soundings of tile {} differ ({} and {})'.format(lid, len(p['rows']), len(q['rows']))
        if 'container' in what and p['container'] != q['container']:
            return 'container ranges of tile {} differ: {} and {}'.format(lid, p['container'], q['container'])
        if 'changed' in what and p['changed'] != q['changed']:
            return 'point_count_changed of tile {} differs: {} and {}'.format(lid, p['changed'], q['changed'])
        if 'cells' in what:
            d = diff_cells(p['cells'], q['cells'])
            if d:
                return 'tile {}: {}'.format(lid, d)
    return ''


def diff_cells(p, q, tol=0.0):
    if set(p) != set(q):
        return 'resolutions differ {} and {}'.format(sorted(p), sorted(q))
    for r in p:
        if set(p[r]) != set(q[r]):
            return 'layers differ at {}: {} and {}'.format(r, sorted(p[r]), sorted(q[r]))
        for l in p[r]:
            x, y = p[r][l], q[r][l]
            if x.shape != y.shape:
                return 'layer {} at {} has the shapes {} and {}'.format(l, r, x.shape, y.shape)
            same = np.array_equal(x, y, equal_nan=True) if tol == 0 else np.allclose(x, y, rtol=0, atol=tol, equal_nan=True)
            if not same:
                i = tuple(np.argwhere(~((x == y) | (np.isnan(x.astype(float)) & np.isnan(y.astype(float)))))[0])
                return 'layer {} at {} cell {} is {} and {}'.format(l, r, i, x[i], y[i])
    return ''


def nonempty_layers(ctx, cells):
    return sum(1 for r in cells for l in cells[r])


META = ('min_x', 'min_y', 'max_x', 'max_y', 'width', 'height', 'origin_x', 'origin_y', 'epsg', 'vertical_reference', 'min_time', 'max_time', 'resolutions',
        'mean_depth', 'grid_algorithm', 'grid_resolution', 'number_of_tiles', 'maximum_tiles', 'can_grow', 'tile_size', 'subtile_size', 'name', 'sub_type',
        'storage_type', 'is_backscatter', 'version', 'container', 'container_timestamp', 'grid_parameters')


def plain(v):
    """comparable form of an attribute"""
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (list, tuple)):
        return [plain(i) for i in v]
    if isinstance(v, dict):
        return {k: plain(i) for k, i in v.items()}
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return float(v)
    return v


def metadata(grid, skip=()):
    """attributes of the grid and of all grids within it"""
    out = {k: plain(getattr(grid, k)) for k in META if k not in skip}
    for k in ('tile_edges_x', 'tile_edges_y'):
        v = asarr(getattr(grid, k))
        out[k] = [] if v is None or v.ndim == 0 else [float(i) for i in v]
    if grid.tiles is not None:
        for t in grid.tiles.flat:
            if t is not None and is_grid(t):
                out['sub ' + t.name] = metadata(t, skip)
    return out


def diff_metadata(a, b, path=''):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return '{}{} only in {}'.format(path, k, 'first' if k in a else 'second')
        if k.startswith('sub '):
            d = diff_metadata(a[k], b[k], path + k + ' ')
            if d:
                return d
        elif a[k] != b[k] and not (isinstance(a[k], float) and isinstance(b[k], float) and np.isnan(a[k]) and np.isnan(b[k])):
            return '{}{} is {} and {}'.format(path, k, a[k], b[k])
    return ''
