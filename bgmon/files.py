"""Reading back what an export wrote, with the libraries a user would use (GDAL, h5py, plain text)"""
import glob
import os

import numpy as np

NODATA = 1000000.0


class Raster:
    """bands as arrays with row 0 in the south, x0 and y0 the south west corner"""

    def __init__(self, path):
        from osgeo import gdal
        gdal.UseExceptions()
        # what is written next to the raster (statistics) is up to the exporter, reading it back writes nothing
        ds = gdal.Open(path)
        self.path = path
        self.geo = ds.GetGeoTransform()
        self.srs = ds.GetSpatialRef()
        self.names, self.bands, self.nodata = [], [], []
        for b in range(1, ds.RasterCount + 1):
            band = ds.GetRasterBand(b)
            self.names.append(band.GetDescription())
            self.nodata.append(band.GetNoDataValue())
            self.bands.append(np.flipud(band.ReadAsArray()))
        self.shape = self.bands[0].shape
        self.res = self.geo[1]
        self.x0 = self.geo[0]
        self.y0 = self.geo[3] + self.shape[0] * self.geo[5]
        ds = None

    def epsg(self):
        return None if self.srs is None else self.srs.GetAuthorityCode('PROJCS') or self.srs.GetAuthorityCode(None)


def exported(folder, base, ext):
    return sorted(glob.glob(os.path.join(glob.escape(folder), base + '_*' + ext)))


class Csv:
    def __init__(self, path):
        with open(path) as f:
            self.header = f.readline().strip().split(' ')
            text = f.read().split('\n')
        self.lines = [l for l in text if l.strip()]
        rows = [l.split(' ') for l in self.lines]
        bad = [r for r in rows if len(r) != len(self.header)]
        if bad:
            raise ValueError('row {} does not match the header {}'.format(bad[0], self.header))
        data = np.array(rows, dtype=np.float64).reshape(len(rows), len(self.header))
        self.col = {n: data[:, i] for i, n in enumerate(self.header)}
        self.n = len(rows)
