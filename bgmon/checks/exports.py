"""C18 GeoTIFF, C19 BAG, C20 CSV"""
import os

import numpy as np

from bgmon.checks import register
from bgmon.checks.views import Surface, pick_nodata, resolutions_of, viewed_session
from bgmon.files import NODATA, Csv, Raster, exported
from bgmon.world import VREF_DOWN, VREF_UP, EPSG

EPSGS = (26919, 32610, 32755, 2193, 3395)


def export_session(ctx, **kw):
    s = viewed_session(ctx, tiles=(16, 32, 64), **kw)
    ctx.require(s.g.epsg == EPSG, lambda: 'epsg is {}'.format(s.g.epsg))
    return s


def check_rasters(ctx, paths, surf, spec, layers, zup, dim, label):
    """the files hold every populated cell of the resolution once, at its place"""
    seen = np.zeros(surf.n, dtype=int)
    rasters = []
    for p in paths:
        r = Raster(p)
        rasters.append(r)
        ctx.require(r.geo[1] == surf.res and r.geo[5] == -surf.res and r.geo[2] == 0 and r.geo[4] == 0, lambda: '{}: geotransform {}'.format(os.path.basename(p), r.geo))
        ctx.require(all(n == NODATA for n in r.nodata), lambda: '{}: nodata value {}'.format(os.path.basename(p), r.nodata))
        ctx.require(r.epsg() == str(EPSG), lambda: '{}: coordinate system {}'.format(os.path.basename(p), r.epsg()))
        limit = max(dim or 32768, spec.tile)
        ctx.require(max(r.shape) * surf.res <= limit, lambda: '{}: {} x {} cells of {} m with a maximum of {} m'.format(os.path.basename(p), r.shape[0], r.shape[1], surf.res, limit))
        seen += surf.check(ctx, '{} {}'.format(label, os.path.basename(p)), dict(zip(layers, r.bands)), r.x0, r.y0, NODATA, zup, everything=False)
        ctx.saw('files_read')
        ctx.saw('bands_read', len(r.bands))
    ctx.require((seen == 1).all(), lambda: '{}: {} populated cells missing, {} more than once in {} files'.format(label, int((seen == 0).sum()), int((seen > 1).sum()), len(paths)))
    for i, a in enumerate(rasters):
        for b in rasters[:i]:
            ctx.require(a.x0 + a.shape[1] * a.res <= b.x0 or b.x0 + b.shape[1] * b.res <= a.x0 or a.y0 + a.shape[0] * a.res <= b.y0 or b.y0 + b.shape[0] * b.res <= a.y0,
                        lambda: '{}: the files {} and {} overlap'.format(label, a.path, b.path))
    ctx.saw('cells_read', int(seen.sum()))
    return rasters


def wanted_resolutions(ctx, s):
    """the resolutions to export: all that the grid reports or an explicit one"""
    rezs = sorted(float(r) for r in s.g.resolutions)
    return (None, rezs) if ctx.chance(0.5) else (lambda r: (r, [r]))(ctx.pick(resolutions_of(s)))


def file_of(base, res, ext):
    return '{}_{}{}'.format(base, res, ext)


def taken(ctx, out):
    """sometimes there is a file at the given path already, it has to stay what it is"""
    if ctx.chance(0.3):   # notes next to the files, with names that begin like theirs
        base = os.path.splitext(out)[0]
        for end in ('_notes.txt', '_1.0_readme.md', '.log', '_old.tif.bak'):
            if ctx.chance(0.5):
                with open(base + end, 'w') as f:
                    f.write('a note')
    if ctx.chance(0.25):
        with open(out, 'w') as f:
            f.write('something else')
        return True
    return False


def files_by_resolution(ctx, folder, had, rezs, ext, extra=()):
    """{resolution: [paths]} of the files that an export made, in any stem"""
    import re
    found, numbers = {}, {}
    for f in sorted(os.listdir(folder)):
        if f in had:
            if f.endswith(('_notes.txt', '_readme.md', '.log', '.bak')):
                with open(os.path.join(folder, f)) as fh:
                    ctx.require(fh.read() == 'a note', lambda: 'the export altered {}'.format(f))
            continue
        stem, e = os.path.splitext(f)
        if e in extra or f.endswith(tuple(extra)) and extra:
            continue
        ctx.require(e == ext, lambda: 'unexpected file {}'.format(f))
        m = re.search(r'_([0-9.]+)_(\d+)$', stem) if ext != '.csv' else re.search(r'_([0-9.]+)$', stem)
        ctx.require(m is not None, lambda: 'the name of {} does not tell the resolution'.format(f))
        found.setdefault(float(m.group(1)), []).append(os.path.join(folder, f))
        if ext != '.csv':
            numbers.setdefault(float(m.group(1)), []).append(int(m.group(2)))
    for r, k in numbers.items():
        ctx.require(sorted(k) == list(range(1, len(k) + 1)), lambda: 'the files of resolution {} are numbered {}'.format(r, sorted(k)))
    ctx.require(sorted(found) == sorted(rezs), lambda: 'files for the resolutions {} exported, expected {}'.format(sorted(found), sorted(rezs)))
    return found


# ------------------------------------------------------------------------------------------------------------- C18

TIFNAMES = {'depth': 'Depth', 'vertical_uncertainty': 'Vertical Uncertainty', 'total_uncertainty': 'Total Uncertainty', 'intensity': 'Intensity'}


def case_c18(ctx):
    s = export_session(ctx, backscatter=ctx.chance(0.15))
    g, spec = s.g, s.spec
    for k in range(2):
        res, rezs = wanted_resolutions(ctx, s)
        zup = ctx.chance(0.5)
        dim = ctx.pick([None, spec.tile, spec.tile * 2, spec.tile * 3, 100000.0])
        folder = ctx.folder(create=True, stem='ex')
        out = os.path.join(folder, ctx.pick(['out.tif', 'my.grid.tif', 'out']))
        kept = taken(ctx, out)
        had = os.listdir(folder)
        ctx.sut('export geotiff res={} up={} dim={} taken={}'.format(res, zup, dim, kept), g.export, out, ctx.pick(['geotiff', 'GeoTIFF']), zup, res, dim)
        if kept:
            with open(out) as f:
                ctx.require(f.read() == 'something else', 'the file at the given path was overwritten')
            ctx.saw('existing_files_kept')
        layers = [l for l in g.layer_names if l in (['intensity'] if spec.backscatter else ['depth', 'vertical_uncertainty', 'total_uncertainty'])]
        names = ['Elevation' if (l == 'depth' and zup) else TIFNAMES[l] for l in layers]
        want = {spec.depth_key} | ({'vertical_uncertainty'} if 'tvu' in spec.fields and not spec.backscatter else set())
        ctx.require(set(layers) == want, lambda: 'the layers are {}'.format(g.layer_names))
        found = files_by_resolution(ctx, folder, had, rezs, '.tif')
        for r, paths in found.items():
            rs = check_rasters(ctx, paths, Surface(s, r, s.up), spec, layers, zup, dim, 'geotiff')
            for x in rs:
                ctx.require(x.names == names, lambda: 'bands {} expected {}'.format(x.names, names))
        ctx.saw('exports')
        ctx.mark(spec.kind, 'files' if any(len(p) > 1 for p in found.values()) else 'file', 'up' if zup else 'down', len(rezs))
        # what is at the output path stays, exporting next to earlier exports of another name too
        if ctx.chance(0.3):
            digest = {p: open(p, 'rb').read() for v in found.values() for p in v}
            ctx.sut('export geotiff again', g.export, os.path.join(folder, 'second.tif'), 'geotiff', not zup, res, dim)
            ctx.require(all(open(p, 'rb').read() == d for p, d in digest.items()), 'an export altered the files of another export')


register('C18', case_c18, 'grids in random states exported with random resolutions, signs, chunk dimensions and names, on top of existing files; every file read back with GDAL and compared cell by cell by absolute '
         'position, exactly once over all files', quick=130, thorough=3000, nontrivial='files_read', least={'files_read': 300, 'cells_read': 5000, 'existing_files_kept': 15})


# ------------------------------------------------------------------------------------------------------------- C19

def bag_metadata(path):
    import h5py
    with h5py.File(path, 'r') as f:
        root = f['BAG_root']
        xml = b''.join(bytes(c) if not isinstance(c, bytes) else c for c in root['metadata'][()].tolist()).decode(errors='replace').replace('\x00', '')
        out = {'xml': xml}
        for name, lo, hi in (('elevation', 'Minimum Elevation Value', 'Maximum Elevation Value'), ('uncertainty', 'Minimum Uncertainty Value', 'Maximum Uncertainty Value')):
            if name in root:
                out[name] = tuple(float(np.ravel(root[name].attrs[k])[0]) if k in root[name].attrs else None for k in (lo, hi))
                out[name + ' data'] = root[name][()]
    return out


def is_wkt(text):
    from pyproj import CRS
    try:
        return CRS.from_wkt(text).is_vertical
    except Exception:
        return False


def case_c19(ctx):
    import re
    # GDAL reads a BAG whose north west corner is at 0, 0 as one without a georeference
    s = export_session(ctx, centers=[(500000.0, 4000000.0), (-1234.0, 777.0), (166021.5, 3000.0), (-3.0e5, -2.5e6)], fields=ctx.pick([None, ('x', 'y', 'z', 'tvu', 'thu')], p=[0.4, 0.6]))
    g, spec = s.g, s.spec
    times = None
    if ctx.chance(0.6):
        # the times come with the soundings
        t0 = ctx.integer(1000000000, 1600000000)
        rows = s.world.points(20)
        t1 = t0 + ctx.integer(1, 100000)
        s.add(rows=rows, min_time=t0, max_time=t1)
        times = (t0, t1)
        if ctx.chance(0.5):
            d0, d1 = ctx.integer(-50000, 50000), ctx.integer(-50000, 50000)
            d0, d1 = min(d0, d1), max(d0, d1)
            s.add(n=10, min_time=t0 + d0, max_time=t1 + d1)
            times = (min(t0, t0 + d0), max(t1, t1 + d1))
        s.grid(s.model.algo, s.random_res(), update=ctx.chance(0.3))
        if spec.folder and ctx.chance(0.5):
            s.reload()
        g = s.g
    if not times and ctx.chance(0.3) and 'tvu' in spec.fields:
        # uncertainties that are odd but gridded like all numbers
        rows = s.world.points(30)
        rows['tvu'] = ctx.pick([-1.0, 1.0, 4.0e4]) * rows['tvu'] if ctx.chance(0.7) else 0.0
        s.add(rows=rows)
        s.grid(s.model.algo, s.random_res(), update=ctx.chance(0.3))
        g = s.g
        ctx.saw('odd_uncertainties')
    res, rezs = wanted_resolutions(ctx, s)
    dim = ctx.pick([None, spec.tile, spec.tile * 2, 100000.0])
    vert = ctx.pick(['', VREF_DOWN, VREF_UP, 'VERT_CS["MLLW depth",VERT_DATUM["Mean Lower Low Water",2005],UNIT["metre",1],AXIS["Depth",DOWN]]',
                     'VERTCRS["MLLW",VDATUM["Mean Lower Low Water"],CS[vertical,1],AXIS["depth (D)",down],LENGTHUNIT["metre",1]]'])
    words = dict(individual_name='Jane Doe', organizational_name='Some Office', abstract='the sea floor of a bay', process_step_description='as it was done')
    words = {k: v for k, v in words.items() if ctx.chance(0.5)}
    folder = ctx.folder(create=True, stem='ex')
    out = os.path.join(folder, ctx.pick(['out.bag', 'my.grid.bag']))
    kept = taken(ctx, out)
    had = os.listdir(folder)
    zup = ctx.chance(0.5)  # has no effect, a BAG is positive up
    ctx.sut('export bag res={} dim={} vert={} words={}'.format(res, dim, vert[:9], sorted(words)), g.export, out, 'bag', zup, res, dim, vert_crs=vert, **words)
    if kept:
        with open(out) as f:
            ctx.require(f.read() == 'something else', 'the file at the given path was overwritten')
    layers = [l for l in g.layer_names if l in ('depth', 'vertical_uncertainty')]
    ctx.require(set(layers) == {'depth'} | ({'vertical_uncertainty'} if 'tvu' in spec.fields else set()), lambda: 'the layers are {}'.format(g.layer_names))
    found = files_by_resolution(ctx, folder, had, rezs, '.bag', extra=('.bag_rxl', '.xml'))
    for r, paths in found.items():
        surf = Surface(s, r, s.up)
        rs = check_rasters(ctx, paths, surf, spec, layers, True, dim, 'bag')
        from bathygrid.utilities import return_bag_vertical_wkt
        from xml.etree import ElementTree
        for x in rs:
            name = os.path.basename(x.path)
            low = [n.lower() for n in x.names]
            ctx.require(low[:len(layers)] == ['elevation', 'uncertainty'][:len(layers)], lambda: '{}: bands {}'.format(name, x.names))
            if len(layers) == 1 and len(x.bands) > 1:
                ctx.require((x.bands[1] == NODATA).all(), lambda: '{}: uncertainty without uncertainties of the soundings'.format(name))
            md = bag_metadata(x.path)
            for band, key in zip(x.bands, ('elevation', 'uncertainty')):
                if len(layers) == 1 and key == 'uncertainty':
                    continue
                ctx.require(np.array_equal(np.asarray(md[key + ' data']), band), lambda: '{}: {} differs between GDAL and the HDF5 file'.format(name, key))
                valid = band[band != NODATA]
                if valid.size:
                    ctx.require(np.float32(md[key][0]) == valid.min() and np.float32(md[key][1]) == valid.max(), lambda: '{}: {} of {} to {} recorded as {}'.format(
                        name, key, valid.min(), valid.max(), md[key]))
                    ctx.saw('extrema_compared')
            if times:
                import calendar
                import time as _time
                stamps = []
                for tag in ('beginPosition', 'endPosition'):
                    m = re.findall(r'<[^>]*' + tag + r'[^>]*>([^<]*)<', md['xml'])
                    ctx.require(len(m) == 1, lambda: '{}: {} {} entries'.format(name, len(m), tag))
                    txt = m[0].strip().rstrip('Z').replace(' UTC', '')
                    parsed = None
                    for fmt in ('%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M:%S', '%m/%d/%Y %H%M%S', '%m/%d/%Y %H:%M:%S'):
                        try:
                            parsed = calendar.timegm(_time.strptime(txt, fmt))
                        except ValueError:
                            pass
                    ctx.require(parsed is not None, lambda: '{}: {} is {}'.format(name, tag, txt))
                    stamps.append(parsed)
                ctx.require(tuple(stamps) == times, lambda: '{}: time span {} recorded as {}'.format(name, times, stamps))
                tree = ElementTree.fromstring(md['xml'])
                spans = [e for e in tree.iter() if e.tag.endswith('}TimePeriod')]
                ctx.require(len(spans) == 1 and {'beginPosition', 'endPosition'} <= {c.tag.split('}')[1] for c in spans[0]}, lambda: '{}: begin and end are not in one time period'.format(name))
                ctx.require(any(k.endswith('}id') or k == 'id' for k in spans[0].attrib), lambda: '{}: the time period has no identification'.format(name))
                ctx.saw('time_spans_compared')
            if vert and is_wkt(vert):
                wkt = ctx.sut('return_bag_vertical_wkt', return_bag_vertical_wkt, x.path)
                ctx.require('VERT' in wkt and ',down' not in wkt.lower().replace(' ', '') and ('(H)' in wkt or 'Gravity-related height' in wkt), lambda: '{}: return_bag_vertical_wkt is {}'.format(name, wkt))
                ctx.saw('vertical_systems_read')
            if vert:
                ctx.require('"depth (D)",down' not in md['xml'] and '"Depth",DOWN' not in md['xml'] and '&quot;depth (D)&quot;,down' not in md['xml'] and '&quot;Depth&quot;,DOWN' not in md['xml'],
                            lambda: '{}: the vertical coordinate system is positive down'.format(name))
                ctx.require('(H)' in md['xml'] or 'Gravity-related height' in md['xml'], lambda: '{}: no vertical axis recorded'.format(name))
                ctx.saw('vertical_systems_compared')
            for k, v in words.items():
                ctx.require(v in md['xml'], lambda: '{}: {} {} was not recorded'.format(name, k, v))
            rxl = os.path.splitext(x.path)[0] + '.bag_rxl'
            ctx.require(os.path.exists(rxl), lambda: '{}: no registration file'.format(name))
            with open(rxl) as f:
                ctx.require('"EPSG","{}"'.format(EPSG) in f.read(), lambda: '{}: the registration file has another coordinate system'.format(name))
    ctx.saw('exports')
    ctx.mark(spec.kind, len(layers), 'times' if times else '', vert[:12], 'up' if s.up else 'down')


register('C19', case_c19, 'grids in random states with and without uncertainty, times and vertical coordinate systems exported to BAG; every file read back with GDAL and h5py and compared cell by cell, with its '
         'extrema, time span, vertical axis and metadata', quick=90, thorough=2500, nontrivial='files_read',
         least={'files_read': 120, 'cells_read': 2500, 'extrema_compared': 200, 'time_spans_compared': 60, 'vertical_systems_compared': 60})


# ------------------------------------------------------------------------------------------------------------- C20

def case_c20(ctx):
    s = export_session(ctx, origin=0.1, backscatter=ctx.chance(0.15))
    g, spec = s.g, s.spec
    for k in range(2):
        res, rezs = wanted_resolutions(ctx, s)
        zup = ctx.chance(0.5)
        folder = ctx.folder(create=True, stem='ex')
        out = os.path.join(folder, ctx.pick(['out.csv', 'my.grid.csv', 'out.txt']))
        kept = taken(ctx, out)
        had = os.listdir(folder)
        if ctx.chance(0.2) and s.model.containers:
            ctx.sut('container query', g.get_layers_by_name, ctx.pick(list(s.model.containers)), rezs[0])
        ctx.sut('export csv res={} up={} taken={}'.format(res, zup, kept), g.export, out, ctx.pick(['csv', 'CSV']), zup, res)
        if kept:
            with open(out) as f:
                ctx.require(f.read() == 'something else', 'the file at the given path was overwritten')
            ctx.saw('existing_files_kept')
        for r, paths in files_by_resolution(ctx, folder, had, rezs, '.csv').items():
            ctx.require(len(paths) == 1, lambda: 'files {}'.format(paths))
            f = Csv(paths[0])
            surf = Surface(s, r, s.up)
            layers = set(surf.layers)
            want = {'x', 'y'} | {('elevation' if l == 'depth' and zup else l) for l in layers}
            ctx.require(set(f.header) == want and len(f.header) == len(want), lambda: 'columns {} expected {}'.format(f.header, sorted(want)))
            zname = 'elevation' if 'elevation' in want else spec.depth_key
            # cell of each row, the coordinates have to be the center of a cell
            c, rr = (f.col['x'] - spec.ox) / r - 0.5, (f.col['y'] - spec.oy) / r - 0.5
            ctx.require(np.abs(c - np.round(c)).max() * r <= 6e-4 and np.abs(rr - np.round(rr)).max() * r <= 6e-4, lambda: 'coordinates are not those of the cell centers')
            key = np.round(rr).astype(np.int64) * 10 ** 8 + np.round(c).astype(np.int64)
            ctx.require(len(np.unique(key)) == len(key), 'a cell has more than one row')
            pos = {int(k): i for i, k in enumerate(key)}
            mine = surf.row.astype(np.int64) * 10 ** 8 + surf.col.astype(np.int64)
            at = np.array([pos.get(int(k), -1) for k in mine])
            ctx.require((at >= 0).all(), lambda: '{} of {} populated cells have no row'.format(int((at < 0).sum()), len(at)))
            for l in surf.layers:
                got = f.col['elevation' if l == 'depth' and zup else l]
                val = surf.value(l, zup).astype(np.float64)
                bad = ~(np.abs(got[at] - val) <= 5.01e-4 + 1e-9 * np.abs(val))
                ctx.require(not bad.any(), lambda: '{} at {}, {} is {} expected {} ({} rows differ)'.format(l, f.col['x'][at[bad][0]], f.col['y'][at[bad][0]], got[at[bad][0]], val[bad][0], int(bad.sum())))
                rest = np.ones(f.n, dtype=bool)
                rest[at] = False
                ok = (got[rest] == 0) if l in ('density',) else np.isnan(got[rest])
                ctx.require(ok.all(), lambda: '{} has {} where no sounding was gridded'.format(l, got[rest][~ok][0]))
                ctx.saw('columns_compared')
            ctx.saw('files_read')
            ctx.saw('cells_read', surf.n)
            ctx.saw('empty_rows', f.n - surf.n)
        ctx.mark(spec.kind, spec.backend, 'up' if zup else 'down', 'heights' if s.up else 'depths', len(rezs))


register('C20', case_c20, 'grids in random states exported with random resolutions and signs; every file parsed and compared row by row with the populated cells by position', quick=120, thorough=3000,
         nontrivial='files_read', least={'files_read': 200, 'cells_read': 5000, 'columns_compared': 600})
