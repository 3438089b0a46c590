"""C22 rejected operations, C23 metadata, C31 input forms"""
import copy
import os
from collections import OrderedDict

import numpy as np

from bgmon.checks import register
from bgmon.checks.storage import diff_tree, tree_digest
from bgmon.world import (EPSG, VREF_DOWN, VREF_UP, Session, World, asarr, diff_cells, diff_metadata, diff_observed, is_grid, iter_leaves, leaf_origin, leaves, metadata, observe,
                         random_spec, same_rows)


def as_dask(ctx, rows):
    import dask.array as da
    return da.from_array(rows, chunks=max(1, int(np.ceil(len(rows) / ctx.integer(1, 3)))))


def as_xarray(ctx, rows):
    import xarray as xr
    dim = ctx.pick(['sounding', 'time', 'dim_0'])
    ds = xr.Dataset({n: ((dim,), np.copy(rows[n])) for n in rows.dtype.names})
    if ctx.chance(0.3):
        ds = ds.assign_coords({dim: np.arange(len(rows)) * 2.0 + 5})
    if ctx.chance(0.3):
        ds = ds.chunk({dim: max(1, len(rows) // 2)})
    return ds


# ------------------------------------------------------------------------------------------------------------- C22

class Refusals:
    """Makes requests that have to be refused, watching the grid around each of them"""

    def __init__(self, ctx, s, out):
        self.ctx, self.s, self.out = ctx, s, out

    def state(self):
        g, spec = self.s.g, self.s.spec
        st = {'observed': observe(spec, g), 'meta': metadata(g), 'points': int(g.points_count), 'empty': bool(g.is_empty), 'out': tree_digest(self.out)}
        if spec.folder:
            st['disk'] = tree_digest(spec.folder)
        return st

    def attempt(self, kind, what, fn, *args, **kwargs):
        ctx = self.ctx
        before = self.state()
        e = ctx.rejects('{}: {}'.format(kind, what), fn, *args, **kwargs)
        ctx.require(e is not None, lambda: '{} ({}) was not refused'.format(kind, what))
        after = self.state()
        where = 'after {} ({}) was refused with {!r}'.format(kind, what, e)
        d = diff_observed(before['observed'], after['observed'], rows_ordered=True)
        ctx.require(not d, lambda: '{}: {}'.format(where, d))
        d = diff_metadata(before['meta'], after['meta'])
        ctx.require(not d, lambda: '{}: metadata {}'.format(where, d))
        ctx.require(before['points'] == after['points'] and before['empty'] == after['empty'], lambda: '{}: {} soundings, before {}'.format(where, after['points'], before['points']))
        for k in ('disk', 'out'):
            if k in before:
                d = diff_tree(before[k], after[k])
                ctx.require(not d, lambda: '{}: on disk {}'.format(where, d))
        ctx.saw('refused')
        ctx.saw('refused:' + kind)
        ctx.mark(kind, what.split(' ')[0], self.s.spec.kind, self.s.spec.backend, 'disk' if self.s.spec.folder else 'mem')

    # ---- add_points
    def add(self):
        ctx, s = self.ctx, self.s
        m, w, spec, g = s.model, s.world, s.spec, s.g
        rows = w.points(ctx.pick([1, 5, 40]))
        where = ctx.pick(['around', 'far', 'same'])
        if where == 'far':
            rows['x'] += 5 * w.span
        elif where == 'same' and m.containers:
            rows = np.copy(m.containers[ctx.pick(list(m.containers))])
        name, crs, vref, kw = 'refused {}'.format(ctx.integer(0, 99)), s.crs, s.vref, {}
        form = ctx.pick(['numpy', 'dask', 'xarray'], p=[0.5, 0.2, 0.3])
        wrap = {'numpy': lambda r: r, 'dask': lambda r: as_dask(ctx, r), 'xarray': lambda r: as_xarray(ctx, r)}[form]
        options = ['empty', 'non finite', 'missing variable', 'not numeric', 'not an array', 'no names', 'bad time', 'bad crs', 'two dimensions', 'lengths', 'unhashable']
        if m.containers:
            options += ['duplicate'] * 2 + ['other crs'] * 2 + ['other vertical reference'] * 2
            options += ['other variables'] * 3
        kind = ctx.pick(options)
        detail = form
        if kind == 'duplicate':
            name = ctx.pick(list(m.containers))
            if ctx.chance(0.3):
                rows = np.copy(m.containers[name])
        elif kind == 'other crs':
            crs = ctx.pick([26918, 32619, '26918', 4326])
        elif kind == 'other vertical reference':
            if 'MLLW' in s.vref:
                vref = ctx.pick(['NAVD88', 'ellipse', VREF_UP, '', 'mllw'])
            else:
                vref = ctx.pick(['MLLW', VREF_DOWN, 'something else', ''])
        elif kind == 'empty':
            rows = rows[:0]
            wrap = (lambda r: r) if form == 'dask' else wrap
        elif kind == 'non finite':
            i = ctx.pick([0, len(rows) - 1, len(rows) // 2])
            f = ctx.pick(['x', 'y'])
            rows[f][i] = ctx.pick([np.nan, np.inf, -np.inf])
            detail += ' {}={}'.format(f, rows[f][i])
        elif kind == 'missing variable':
            f = ctx.pick(['x', 'y', 'z'])
            rows = np.ascontiguousarray(rows[[n for n in rows.dtype.names if n != f]]).copy()
            detail += ' without ' + f
        elif kind == 'not numeric':
            f = ctx.pick(['x', 'y', 'z'])
            t = ctx.pick(['U12', 'c16', 'S8'])
            new = np.empty(len(rows), dtype=[(n, t if n == f else rows.dtype[n]) for n in rows.dtype.names])
            for n in rows.dtype.names:
                new[n] = rows[n]
            rows, wrap, form = new, (wrap if form != 'dask' else (lambda r: r)), form
            detail += ' {} as {}'.format(f, t)
        elif kind == 'not an array':
            bad = ctx.pick([None, [(1.0, 2.0, 3.0)], {'x': rows['x'], 'y': rows['y'], 'z': rows['z']}, 'soundings.csv', 12.0])
            wrap, detail = (lambda r: bad), type(bad).__name__
        elif kind == 'no names':
            plain = np.column_stack([rows['x'], rows['y'], rows['z']])
            wrap = ctx.pick([lambda r: plain, lambda r: as_dask(ctx, plain)])
        elif kind == 'bad time':
            kw = ctx.pick([{'min_time': 'noon'}, {'min_time': float('nan')}, {'max_time': float('inf')}, {'min_time': 1500000000, 'max_time': 'later'}, {'max_time': float('nan')},
                           {'max_time': 1.0e19}, {'min_time': 1400000000.0, 'max_time': 1.0e19}])
            detail += ' ' + str(kw)
        elif kind == 'bad crs':
            crs = ctx.pick(['+proj=utm +zone=19 +datum=NAD83', 'WGS84', 'epsg:26919'])
        elif kind == 'two dimensions':
            import xarray as xr
            n = 6
            wrap = lambda r: xr.Dataset({'x': (('a',), np.arange(n) + w.cx), 'y': (('a',), np.arange(n) + w.cy), 'z': (('a', 'b'), np.ones((n, 3)))})
            detail = 'xarray'
        elif kind == 'lengths':
            import xarray as xr
            n = len(rows) + 3
            wrap = lambda r: xr.Dataset({'x': (('a',), np.linspace(0, 5, n) + w.cx), 'y': (('a',), np.linspace(0, 5, n) + w.cy), 'z': (('b',), np.ones(n + 4))})
            detail = 'xarray'
        elif kind == 'unhashable':
            name = ctx.pick([['a'], {'a': 1}, np.arange(3)])
            detail = type(name).__name__
        elif kind == 'other variables':
            # soundings with other variables than those in a tile that they fall in, alone or among others
            have = set(spec.fields)
            extra = {'x', 'y', 'z'} | {f for f in ('tvu', 'thu') if ctx.chance(0.5)}
            if extra == have:
                extra = have ^ {'tvu'}
            donor = m.containers[ctx.pick(list(m.containers))]
            k = ctx.integer(1, min(4, len(donor)))
            pos = donor[ctx.rng.choice(len(donor), k, replace=False)]
            n = k + (len(rows) if ctx.chance(0.5) else 0)
            new = np.zeros(n, dtype=[(f, 'f8' if f in 'xy' else 'f4') for f in ('x', 'y', 'z', 'tvu', 'thu') if f in extra])
            src = np.concatenate([rows, pos]) if n > k else pos
            for f in ('x', 'y', 'z'):
                new[f] = src[f]
            rows = new
            detail += ' {}'.format('+'.join(sorted(extra)))
        data = wrap(rows)
        self.attempt('add ' + kind, detail, g.add_points, data, name, None if ctx.chance(0.5) else ['refused.all'], crs, vref, kw.get('min_time', 1300000000 if ctx.chance(0.3) else None),
                     kw.get('max_time', 1900000000 if ctx.chance(0.3) else None), progress_bar=False)

    # ---- grid
    def grid(self):
        from bathygrid import algorithms
        ctx, s = self.ctx, self.s
        m, spec, g = s.model, s.spec, s.g
        algo = m.algo or ctx.pick(['mean', 'shoalest'])
        res = ctx.pick([None, s.random_res()])
        kw = dict(clear_existing=ctx.chance(0.5), regrid_option=ctx.pick(['full', 'update']), auto_resolution_mode=ctx.pick(['depth', 'density']), use_dask=ctx.chance(0.15))
        options = ['algorithm', 'resolution', 'coarse', 'auto mode']
        if not m.containers:
            options = ['empty grid']
        elif m.algo:
            options += ['other algorithm'] * 2
        if m.containers and not getattr(algorithms, 'cube_enabled', False):
            options += ['cube']
        kind = ctx.pick(options)
        if kind == 'algorithm':
            algo = ctx.pick(['median', 'MEAN', '', 'Shoalest', 'deepest'])
            kw['clear_existing'] = kw['clear_existing'] or bool(m.algo)
        elif kind == 'resolution':
            res = ctx.pick([3.0, 0.0, -1.0, 0.3, 100.0, 1.5, -0.5, float('nan'), 6])
        elif kind == 'coarse':
            res = spec.leaf * ctx.pick([2, 4, 64])
        elif kind == 'auto mode':
            res, kw['auto_resolution_mode'] = None, ctx.pick(['coarse', '', 'depths'])
        elif kind == 'other algorithm':
            algo, kw['clear_existing'] = ('mean' if m.algo == 'shoalest' else 'shoalest'), False
        elif kind == 'cube':
            algo = 'cube'
            kw['clear_existing'] = kw['clear_existing'] or bool(m.algo)
        self.attempt('grid ' + kind, '{} res={} {}'.format(algo, res, kw), g.grid, algo, res, progress_bar=False, **kw)

    # ---- reads and exports that can not be answered
    def read(self):
        ctx, s = self.ctx, self.s
        m, spec, g = s.model, s.spec, s.g
        options = ['export format']
        if spec.backscatter:
            options.append('bag of backscatter')
        if not m.snap:
            options += ['layers without grid', 'surface without grid']
        else:
            options += ['shapes', 'shapes']
        kind = ctx.pick(options)
        target = os.path.join(self.out, ctx.pick(['out.tif', 'out', 'there.csv']))
        if kind == 'export format':
            fmt = ctx.pick(['tiff', 'shp', '', 'las'])
            self.attempt('read ' + kind, fmt, g.export, target, fmt)
        elif kind == 'bag of backscatter':
            self.attempt('read ' + kind, 'bag', g.export, target, 'bag')
        elif kind == 'layers without grid':
            self.attempt('read ' + kind, 'get_layers_by_name', g.get_layers_by_name, spec.depth_key)
        elif kind == 'surface without grid':
            self.attempt('read ' + kind, 'return_surf_xyz', g.return_surf_xyz, spec.depth_key)
        else:
            a = s.world.points(5)
            self.attempt('read ' + kind, 'layer_values_at_xy', g.layer_values_at_xy, a['x'], a['y'][:3], spec.depth_key)


def case_c22(ctx):
    spec = random_spec(ctx, disk=ctx.chance(0.4), backscatter=ctx.chance(0.15))
    plain_spec = spec.clone(folder=ctx.folder() if spec.folder else '')
    w = World(ctx, spec, ctx.pick([1.0, 2.0]))
    out = ctx.folder(create=True, stem='out')
    with open(os.path.join(out, 'there.csv'), 'w') as f:
        f.write('there before')
    a = Session(ctx, spec, w)
    b = Session(ctx, plain_spec, w)   # has the same history without the refused requests
    if ctx.chance(0.5):
        a.vref = b.vref = ctx.pick(['MLLW', VREF_DOWN, VREF_UP, 'NAVD88'])
    r = Refusals(ctx, a, out)

    def refuse():
        for _ in range(ctx.integer(1, 4)):
            ctx.pick([r.add, r.grid, r.read], p=[0.6, 0.28, 0.12])()

    def both(op, *args, **kw):
        x, y = getattr(a, op)(*args, **copy.deepcopy(kw)), getattr(b, op)(*args, **copy.deepcopy(kw))
        d = diff_observed(observe(spec, a.g), observe(plain_spec, b.g), rows_ordered=True)
        ctx.require(not d, lambda: 'after {}: the grid differs from one that had no refused requests: {}'.format(op, d))
        d = diff_metadata(metadata(a.g, ('container_timestamp',)), metadata(b.g, ('container_timestamp',)))
        ctx.require(not d, lambda: 'after {}: the metadata differs from a grid that had no refused requests: {}'.format(op, d))
        ctx.saw('continued')
        ctx.saw('continued:' + op)

    if ctx.chance(0.6):
        refuse()
    for _ in range(ctx.integer(3, 6)):
        m = a.model
        op = ctx.pick(['add', 'remove', 'grid', 'reload'], p=[0.4, 0.25, 0.25, 0.1]) if m.containers else 'add'
        if op == 'add':
            t = {'min_time': 1.5e9 + ctx.integer(0, 10 ** 6), 'max_time': 1.6e9 + ctx.integer(0, 10 ** 6)} if ctx.chance(0.4) else {}
            name = a.new_name()
            both('add', rows=w.points(ctx.pick([1, 8, 50])), name=name, files=[name + '.all'], **t)
        elif op == 'remove':
            both('remove', ctx.pick(list(m.containers)))
        elif op == 'grid':
            algo = m.algo or ctx.pick(['mean', 'shoalest'])
            clear = ctx.chance(0.3)
            both('grid', ctx.pick(['mean', 'shoalest']) if clear else algo, a.random_res(), clear, ctx.chance(0.5))
        else:
            both('reload')
        refuse()


register('C22', case_c22, 'random histories with requests that have to be refused (all kinds of invalid soundings, names, references, times, gridding options, exports and queries) at random points; soundings, '
         'layers, metadata and files compared around each of them, and after every valid operation with a twin grid that never saw the refused requests', quick=120, thorough=2600,
         nontrivial='refused', least={'refused': 500, 'continued': 250, 'refused:add other variables': 10, 'refused:add duplicate': 10, 'refused:grid coarse': 8})


# ------------------------------------------------------------------------------------------------------------- C23

def fmt_time(t):
    import datetime
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t))).strftime('%Y-%m-%dT%H:%M:%S')


def case_c23(ctx):
    import time
    # the computer can be anywhere
    before = os.environ.get('TZ')
    os.environ['TZ'] = ctx.pick(['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'XXX-5:45'])
    time.tzset()
    try:
        metadata_history(ctx)
        ctx.mark('time zone', os.environ['TZ'])
    finally:
        if before is None:
            os.environ.pop('TZ')
        else:
            os.environ['TZ'] = before
        time.tzset()


def metadata_history(ctx):
    import datetime
    spec = random_spec(ctx, backscatter=ctx.chance(0.1))
    w = World(ctx, spec, ctx.pick([1.0, 2.5]))
    state = {'min': None, 'max': None, 'epsg': None, 'adds': 0, 'stamps': {}}

    def monitor(s, op):
        g, m = s.g, s.model
        label = 'after {}'.format(op)
        ctx.require(g.min_time == ('' if state['min'] is None else fmt_time(state['min'])), lambda: '{}: min_time is {!r}, earliest time added is {}'.format(
            label, g.min_time, None if state['min'] is None else fmt_time(state['min'])))
        ctx.require(g.max_time == ('' if state['max'] is None else fmt_time(state['max'])), lambda: '{}: max_time is {!r}, latest time added is {}'.format(
            label, g.max_time, None if state['max'] is None else fmt_time(state['max'])))
        ctx.require((g.epsg or None) == state['epsg'], lambda: '{}: epsg is {} expected {}'.format(label, g.epsg, state['epsg']))
        if state['adds']:
            ctx.require(g.vertical_reference == s.vref, lambda: '{}: vertical reference is {!r} expected {!r}'.format(label, g.vertical_reference, s.vref))
        ctx.saw('metadata_checked')
        rows = m.all_rows()
        if len(rows):
            z = rows['z'].astype(np.float64)
            tol = 1e-3 + 6e-4 * min(state['adds'], 12) + 3e-6 * float(np.abs(z).max())
            ctx.require(g.mean_depth is not None and abs(float(g.mean_depth) - z.mean()) <= tol, lambda: '{}: mean depth is {} but the mean of the {} soundings is {}'.format(
                label, g.mean_depth, len(z), z.mean()))
            ctx.saw('mean_depth_checked')
            ctx.require('Mean' in repr(g) and str(round(float(g.mean_depth), 3)) in repr(g), lambda: '{}: mean depth {} is not in the summary'.format(label, g.mean_depth))
        ctx.require(set(g.container) == set(m.containers), lambda: '{}: containers {} expected {}'.format(label, sorted(g.container), sorted(m.containers)))
        for c in m.containers:
            ctx.require(list(g.container[c]) == m.files[c], lambda: '{}: files of {} are {} expected {}'.format(label, c, g.container[c], m.files[c]))
            lo, hi = state['stamps'][c]
            when = datetime.datetime.strptime(g.container_timestamp[c], '%Y%m%d_%H%M%S')
            ctx.require(lo - datetime.timedelta(seconds=2) <= when <= hi + datetime.timedelta(seconds=2), lambda: '{}: {} was added at {} but the timestamp is {}'.format(label, c, hi, when))
        att = ctx.sut('return_attribution', g.return_attribution)
        sources = {k: v for k, v in att.items() if k.startswith('source_')}
        ctx.require(set(sources) == {'source_' + c for c in m.containers}, lambda: '{}: sources of the attribution {} expected {}'.format(label, sorted(sources), sorted(m.containers)))
        for c in m.containers:
            v = sources['source_' + c]
            ctx.require(list(v['multibeam_lines']) == m.files[c] and v['time'] == g.container_timestamp[c], lambda: '{}: attribution of {} is {}'.format(label, c, v))
            ctx.saw('sources_checked')
        expect = {'grid_folder': g.output_folder, 'name': g.name, 'type': type(g), 'grid_resolution': g.grid_resolution, 'grid_algorithm': m.algo, 'epsg': g.epsg, 'vertical_reference': g.vertical_reference,
                  'minimum_time_utc': g.min_time, 'maximum_time_utc': g.max_time, 'tile_size': spec.tile, 'subtile_size': spec.sub if spec.kind == 'vr' else 0,
                  'storage_type': spec.backend}
        for k, v in expect.items():
            ctx.require(att[k] == v or (not att[k] and not v), lambda: '{}: attribution {} is {!r} expected {!r}'.format(label, k, att[k], v))
        if len(rows):
            tiles = {(int(np.floor((leaf_origin(spec, l)[0] - spec.ox) / spec.tile)), int(np.floor((leaf_origin(spec, l)[1] - spec.oy) / spec.tile))) for l in m.live()}
            ctx.require(int(att['tile_count']) == len(tiles), lambda: '{}: tile_count of the attribution is {} expected {}'.format(label, att['tile_count'], len(tiles)))
            ctx.require(att['minimum_x'] <= rows['x'].min() and att['maximum_x'] >= rows['x'].max() and att['minimum_y'] <= rows['y'].min() and att['maximum_y'] >= rows['y'].max(),
                        lambda: '{}: extents of the attribution do not contain the soundings'.format(label))
            ctx.require(att['width'] == att['maximum_x'] - att['minimum_x'] and att['height'] == att['maximum_y'] - att['minimum_y'], lambda: '{}: width and height of the attribution'.format(label))
            have = sorted({r for st in m.snap.values() for r in st})
            if have and set(m.snap) == m.live() and not m.changed:
                ctx.require(set(float(r) for r in att['resolutions']) <= set(have), lambda: '{}: attribution has the resolutions {} but the tiles have {}'.format(label, att['resolutions'], have))
        unique = ctx.sut('return_unique_containers', g.return_unique_containers)
        ctx.require(sorted(unique) == sorted(m.containers), lambda: '{}: return_unique_containers is {}'.format(label, unique))
        groups = []
        for c in m.containers:
            base = c.split('__')[0] if c.count('__') == 1 else c
            if base not in groups:
                groups.append(base)
        ctx.require(sorted(g.unique_container_entries) == sorted(groups), lambda: '{}: unique_container_entries is {} expected {}'.format(label, g.unique_container_entries, groups))
        if not m.snap:
            ctx.require(list(g.return_layer_names()) == [] and list(g.layer_names) == [], lambda: '{}: nothing is gridded but the layers are {}'.format(label, g.return_layer_names()))
        text = repr(g)
        for c in groups:
            ctx.require(' - {}\n'.format(c) in text, lambda: '{}: container {} is not in the summary'.format(label, c))
        ctx.require('EPSG: {}'.format(g.epsg) in text and 'Time of Data (UTC): {} to {}'.format(g.min_time, g.max_time) in text, lambda: '{}: summary {}'.format(label, text))

    s = Session(ctx, spec, w)
    s.crs = ctx.pick([EPSG, str(EPSG), 32610])
    s.vref = ctx.pick(['MLLW', VREF_DOWN, VREF_UP, 'NAVD88', 'ellipse'])
    s.monitors = [monitor]
    names = ['em2040_123_05_23_2017', 'line', 'line_0', 'line_1', 'line__0', 'line__1', 'em2040__0001_a.all', 'em2040__0002_a.all', 'a', 'aa', 'a_0', 'b c', 'x__y__z', 'Ünïcode', 'depth2', '0']

    def add():
        free = [n for n in names if n not in s.model.containers]
        name = ctx.pick(free)
        kw = {}
        t0 = 1.4e9 + ctx.integer(-4 * 10 ** 8, 10 ** 9) + ctx.pick([0, 0.5, 0.99])
        what = ctx.pick(['both', 'none', 'min', 'max'], p=[0.6, 0.2, 0.1, 0.1])
        as_type = ctx.pick([float, int, np.float64, np.int64])
        if what in ('both', 'min'):
            kw['min_time'] = as_type(t0)
            state['min'] = int(t0) if state['min'] is None else min(state['min'], int(t0))
        if what in ('both', 'max'):
            t1 = t0 + ctx.pick([0, 1, 3600, 86400 * 40])
            kw['max_time'] = as_type(t1)
            state['max'] = int(t1) if state['max'] is None else max(state['max'], int(t1))
        if ctx.chance(0.15) and state['adds']:
            kw['crs'] = None
        else:
            state['epsg'] = int(s.crs)
        state['adds'] += 1
        now = datetime.datetime.utcnow()
        state['stamps'][name] = (now.replace(microsecond=0), now + datetime.timedelta(seconds=120))
        s.add(name=name, n=ctx.pick([1, 3, 40, 150]), files=ctx.pick([None, [], ['{}.all'.format(name)], ['{}_{}.all'.format(name, i) for i in range(5)]]), **kw)

    add()
    for _ in range(ctx.integer(4, 9 if not spec.folder else 6)):
        m = s.model
        k = ctx.rng.random()
        if k < 0.5 and len(m.containers) < 8 or not m.containers:
            add()
        elif k < 0.75:
            s.remove()
        elif k < 0.88:
            s.random_grid(auto=0.1)
        else:
            s.reload()
        ctx.mark(spec.kind, spec.backend, 'disk' if spec.folder else 'mem', len(m.containers), state['min'] is not None)


register('C23', case_c23, 'histories with and without times, coordinate systems, file lists and with colliding container names; all metadata, attribution and the printed summary compared with what was added after '
         'every operation', quick=170, thorough=4000, nontrivial='mean_depth_checked', least={'metadata_checked': 900, 'mean_depth_checked': 700, 'sources_checked': 2000})


# ------------------------------------------------------------------------------------------------------------- C31

def scramble(obj):
    """overwrite everything in the input of the caller"""
    if isinstance(obj, np.ndarray):
        for n in obj.dtype.names:
            obj[n] = -777 + np.arange(len(obj)) % 7
    else:
        for n in obj.data_vars:
            v = obj[n].variable._data
            if isinstance(v, np.ndarray):
                v[...] = -777


def digest(rows):
    return rows.tobytes()


def case_c31(ctx):
    spec = random_spec(ctx, disk=ctx.chance(0.25))
    w = World(ctx, spec, ctx.pick([1.0, 2.0]))
    names = list(spec.fields)
    ref = Session(ctx, spec, w)                                   # plain numpy arrays, fields in the order of the spec
    twin_spec = spec.clone(folder=ctx.folder() if spec.folder else '')
    twin = Session(ctx, twin_spec, w)
    forms = ['numpy', 'numpy', 'dask', 'xarray', 'view', 'readonly', 'strided', 'extra']

    def add():
        name = ref.new_name()
        rows = w.points(ctx.pick([1, 6, 40, 120]))
        ref.add(rows=np.copy(rows), name=name)
        form = ctx.pick(forms)
        order = list(ctx.rng.permutation(names)) if ctx.chance(0.6) else names
        given = np.empty(len(rows), dtype=[(n, rows.dtype[n]) for n in order])
        for n in order:
            given[n] = rows[n]
        base = given
        if form == 'dask':
            obj = as_dask(ctx, given)
        elif form == 'xarray':
            obj = as_xarray(ctx, given)
        elif form == 'extra':
            # variables that are not used by the grid come along in the dataset
            obj = as_xarray(ctx, given)
            dim = list(obj.dims)[0]
            obj['beam'] = ((dim,), np.arange(len(rows)))
            obj['quality'] = ((dim,), np.array(['good'] * len(rows)))
        elif form == 'view':
            big = np.empty(len(rows) + 10, dtype=given.dtype)
            big[5:-5] = given
            base, obj = big, big[5:-5]
        elif form == 'readonly':
            given.setflags(write=False)
            obj = given
        elif form == 'strided':
            big = np.empty(2 * len(rows), dtype=given.dtype)
            big[::2] = given
            big[1::2] = given[0]
            base, obj = big, big[::2]
        else:
            obj = given
        before = digest(base)
        held = {n: np.copy(obj[n].values) for n in obj.data_vars} if form in ('xarray', 'extra') else None
        files = ['a.all', 'b.all']
        twin.g_files = list(files)
        ctx.sut('add {} as {} order {}'.format(name, form, ','.join(order)), twin.g.add_points, obj, name, files, twin.crs, twin.vref, progress_bar=False)
        twin.model.add(name, rows, files)

        def untouched(when):
            ctx.require(digest(base) == before, lambda: 'the {} array that was handed in changed {}'.format(form, when))
            if held is not None:
                ctx.require(set(held) == set(obj.data_vars) and all(np.array_equal(held[n], obj[n].values) for n in held), lambda: 'the dataset that was handed in changed {}'.format(when))
            ctx.saw('inputs_checked')

        untouched('while it was added')
        compare('after adding as {} order {}'.format(form, order))
        if ctx.chance(0.5):
            grid()
            untouched('while the grid was gridded')
        # the caller goes on and uses the memory for something else
        if form in ('numpy', 'view', 'strided'):
            scramble(base)
            ctx.saw('inputs_overwritten')
        elif held is not None:
            scramble(obj)
            ctx.saw('inputs_overwritten')
        if ctx.chance(0.5):   # also the list of files
            files[0] = 'other.all'
            files.append('more.all')
            ctx.saw('lists_overwritten')
        compare('after the {} input was overwritten by the caller'.format(form))
        got = {c: list(f) for c, f in twin.g.container.items()}
        ctx.require(got == twin.model.files, lambda: 'the file lists are {} expected {}'.format(got, twin.model.files))
        ctx.mark(form, 'reordered' if order != names else 'same order', spec.kind, spec.backend, 'disk' if spec.folder else 'mem')

    def compare(label):
        a, b = observe(spec, ref.g), observe(twin_spec, twin.g)
        d = diff_observed(a, b, what=('rows', 'container', 'changed', 'cells'))
        ctx.require(not d, lambda: '{}: {}'.format(label, d))
        for lid in a:
            p, q = a[lid]['rows'], b[lid]['rows']
            ctx.require(all(np.array_equal(p[n], q[n], equal_nan=True) for n in names), lambda: '{}: the soundings of tile {} are in another order'.format(label, lid))
        d = diff_metadata(metadata(ref.g, ('container_timestamp', 'container')), metadata(twin.g, ('container_timestamp', 'container')))
        ctx.require(not d, lambda: '{}: metadata {}'.format(label, d))
        for i, t in enumerate(ref.g.tiles.flat if ref.g.tiles is not None else []):
            if t is not None and ctx.chance(0.3):
                p = asarr(ctx.sut('border soundings', ref.g.get_tile_neighbor_points, t, t.width / 4))
                q = asarr(ctx.sut('border soundings of the twin', twin.g.get_tile_neighbor_points, twin.g.tiles.flat[i], t.width / 4))
                ctx.require((p is None and q is None) or same_rows(p, q), lambda: '{}: other soundings at the border of tile {}'.format(label, t.name))
        ctx.saw('grids_compared')
        ctx.saw('tiles_compared', len(a))

    def grid():
        algo = ref.model.algo or ctx.pick(['mean', 'shoalest'])
        args = (algo, ref.random_res(), ctx.chance(0.3), ctx.chance(0.4))
        ref.grid(*args)
        twin.grid(*args)
        compare('after gridding')

    add()
    for _ in range(ctx.integer(2, 5)):
        k = ctx.rng.random()
        if k < 0.55 or not ref.model.containers:
            add()
        elif k < 0.75:
            name = ctx.pick(list(ref.model.containers))
            ref.remove(name)
            twin.remove(name)
            if ref.model.containers:
                compare('after removing')
        elif k < 0.9:
            grid()
        else:
            ref.reload()
            twin.reload()
            compare('after reloading')


register('C31', case_c31, 'the same soundings handed to twin grids as plain numpy array and as another form (dask, xarray with coordinates or chunks or extra variables, views, strided, read only, other field orders); '
         'inputs digested around every operation and overwritten afterwards', quick=150, thorough=3500, nontrivial='tiles_compared',
         least={'grids_compared': 900, 'inputs_checked': 400, 'inputs_overwritten': 200, 'lists_overwritten': 100})
