"""stand-ins for the map libraries that are not installed, and a record of
what the map programs draw (the renderer itself is not exercised)"""
import pathlib
import sys
import types

import matplotlib
matplotlib.use('Agg')
import matplotlib.animation as animation
import matplotlib.axes
import matplotlib.figure
import matplotlib.offsetbox as offsetbox
import matplotlib.pyplot as plt
import matplotlib.spines as mspines
import numpy as np
import pyproj

SHAPES = {}     # path of a shape file -> list of (points, parts, record)
RASTERS = {}    # path of an image -> (array, geotransform)


# ------------------------------------------------------------------ cartopy
class Crs:
    def __init__(self, key, proj, extent):
        self.key, self.proj, self.extent = key, proj, extent

    def _as_mpl_axes(self):
        return GeoAxes, {'crs': self}

    def lonlat(self, x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if self.proj is None:
            lon = x + self.key[1]
            lon = np.where(abs(lon) > 180, (lon + 180) % 360 - 180, lon)
            return lon, y
        return self.proj(x, y, inverse=True)

    def transform_points(self, src, x, y, z=None):
        lon, lat = src.lonlat(x, y)
        if self.proj is not None:
            lon, lat = self.proj(lon, lat)
        else:
            lon = lon - self.key[1]
        return np.stack([lon, lat, np.zeros_like(lon)], axis=-1)

    def __eq__(self, other):
        return isinstance(other, Crs) and self.key == other.key

    def __hash__(self):
        return hash(self.key)


def PlateCarree(central_longitude=0.0, globe=None):
    return Crs(('pc', float(central_longitude)), None, (-180.0, 180.0, -90.0,
        90.0))


def Stereographic(central_latitude=0.0, central_longitude=0.0,
        false_easting=0.0, false_northing=0.0, true_scale_latitude=None,
        scale_factor=None, globe=None):
    ts = central_latitude if true_scale_latitude is None else \
        true_scale_latitude
    proj = pyproj.Proj(proj='stere', lat_0=central_latitude,
        lon_0=central_longitude, lat_ts=ts, x_0=false_easting,
        y_0=false_northing, ellps='WGS84')
    return Crs(('st', float(central_latitude), float(central_longitude),
        float(ts), float(false_easting), float(false_northing)), proj, (-1e7,
        1e7, -1e7, 1e7))


def NorthPolarStereo(central_longitude=0.0, true_scale_latitude=None,
        globe=None):
    return Stereographic(90.0, central_longitude,
        true_scale_latitude=true_scale_latitude)


def SouthPolarStereo(central_longitude=0.0, true_scale_latitude=None,
        globe=None):
    return Stereographic(-90.0, central_longitude,
        true_scale_latitude=true_scale_latitude)


class Contours:
    def __init__(self, ax, **info):
        self.ax, self.info = ax, info
        self.levels = info['levels']
        ax.live.append(self)

    def remove(self):
        self.ax.live.remove(self)


class GeoAxes(matplotlib.axes.Axes):
    name = 'recorded_geoaxes'

    def __init__(self, *args, crs=None, **kwargs):
        super().__init__(*args, **kwargs)
        self.crs = self.projection = crs
        self.live, self.lines_of, self.image_of, self.grids = [], [], [], []
        self.spines['geo'] = mspines.Spine.linear_spine(self, 'bottom')
        self.set_xlim(crs.extent[:2])
        self.set_ylim(crs.extent[2:])

    def get_extent(self, crs=None):
        if crs is not None and crs != self.crs:
            raise NotImplementedError('extent in another projection')
        return (*self.get_xlim(), *self.get_ylim())

    def set_extent(self, extents, crs=None):
        if crs is not None and crs != self.crs:
            raise NotImplementedError('extent in another projection')
        self.set_xlim(extents[:2])
        self.set_ylim(extents[2:])

    def set_global(self):
        self.set_extent(self.crs.extent)

    def imshow(self, *args, transform=None, **kwargs):
        im = super().imshow(*args, **kwargs)
        self.image_of.append((im, transform or self.crs))
        return im

    def plot(self, *args, transform=None, **kwargs):
        out = super().plot(*args, **kwargs)
        self.lines_of += [(line, transform) for line in out]
        return out

    def contour(self, *args, levels=None, transform=None, colors=None,
            extent=None, origin=None, **kwargs):
        args = list(args)
        if levels is None and len(args) in (2, 4):
            levels = args.pop()
        X, Y = args[:2] if len(args) == 3 else (None, None)
        if levels is None or np.ndim(levels) == 0:
            levels = f'{levels} levels chosen by the library'
        else:
            levels = [float(v) for v in levels]
        if isinstance(colors, (list, tuple)) and len(colors) == 1:
            colors = colors[0]
        return Contours(self, x=X, y=Y, z=np.ma.array(args[-1], copy=True),
            levels=levels, colors=str(colors), extent=extent, origin=origin,
            crs=transform or self.crs)

    def gridlines(self, crs=None, **kwargs):
        gl = types.SimpleNamespace(crs=crs, xlocator=None, ylocator=None,
            **kwargs)
        self.grids.append(gl)
        return gl


# ------------------------------------------------------- shape files, images
class _Reader:
    def __init__(self, path, **kwargs):
        if str(path) not in SHAPES:
            raise FileNotFoundError(path)
        self.entries = SHAPES[str(path)]

    def shapes(self):
        return [types.SimpleNamespace(points=[tuple(p) for p in e[0]],
            parts=list(e[1])) for e in self.entries]

    def records(self):
        return [list(e[2]) for e in self.entries]


class _Dataset:
    def __init__(self, path):
        self.array, self.transform = RASTERS[str(path)]
        self.RasterYSize, self.RasterXSize = self.array.shape

    def GetGeoTransform(self):
        return self.transform

    def ReadAsArray(self, xoff=0, yoff=0, xsize=None, ysize=None, **kwargs):
        nx = self.RasterXSize - xoff if xsize is None else xsize
        ny = self.RasterYSize - yoff if ysize is None else ysize
        assert 0 <= xoff and 0 <= yoff and xoff + nx <= self.RasterXSize and \
            yoff + ny <= self.RasterYSize, 'window outside of the raster'
        return self.array[yoff:yoff + ny, xoff:xoff + nx].copy()


def install():
    """modules under the names the programs import"""
    cartopy, crs = types.ModuleType('cartopy'), types.ModuleType('cartopy.crs')
    for f in (PlateCarree, Stereographic, NorthPolarStereo, SouthPolarStereo):
        setattr(crs, f.__name__, f)
    cartopy.crs = crs
    shp = types.ModuleType('shapefile')
    shp.Reader = _Reader
    osgeo, gdal = types.ModuleType('osgeo'), types.ModuleType('osgeo.gdal')
    gdal.Open = _Dataset
    osgeo.gdal = gdal
    sys.modules.update({'cartopy': cartopy, 'cartopy.crs': crs, 'shapefile':
        shp, 'osgeo': osgeo, 'osgeo.gdal': gdal})


# ------------------------------------------------------------------- figures
class _Writer:
    """writer of movies that keeps what each frame shows"""
    record = None

    def __init__(self, *args, **kwargs):
        self.frames = []

    @classmethod
    def isAvailable(cls):
        return True

    def saving(self, fig, path, dpi=None, *args, **kwargs):
        return _Saving(self, fig, path, dpi)

    def grab_frame(self, **kwargs):
        self.frames.append(look(self.fig))


class _Saving:
    def __init__(self, writer, fig, path, dpi):
        self.writer, self.path, self.dpi = writer, pathlib.Path(path), dpi
        writer.fig = fig

    def __enter__(self):
        return self.writer

    def __exit__(self, *exc):
        self.path.write_bytes(b'movie')
        _Writer.record.movies.append((self.path, self.dpi,
            self.writer.frames))


class Record:
    """figures as they were when saved, movies frame by frame"""
    def __enter__(self):
        self.figures, self.movies = [], []
        self.old = (matplotlib.figure.Figure.savefig,
            dict(animation.writers._registered))
        rec = self

        def savefig(fig, fname, *args, **kw):
            rec.figures.append((pathlib.Path(fname), kw, look(fig)))
            pathlib.Path(fname).write_bytes(b'figure')
        matplotlib.figure.Figure.savefig = savefig
        animation.writers._registered['ffmpeg'] = _Writer
        _Writer.record = rec
        return self

    def __exit__(self, *exc):
        matplotlib.figure.Figure.savefig = self.old[0]
        animation.writers._registered.clear()
        animation.writers._registered.update(self.old[1])
        plt.close('all')


def look(fig):
    """the maps and color bars of a figure"""
    maps, bars = [], []
    for ax in fig.axes:
        if isinstance(ax, GeoAxes):
            images = [dict(z=np.ma.array(im.get_array(), copy=True),
                extent=tuple(im.get_extent()), origin=im.origin, norm=im.norm,
                cmap=im.get_cmap(), alpha=im.get_alpha(), crs=crs)
                for im, crs in ax.image_of if im.axes is ax]
            lines = [(np.column_stack([l.get_xdata(), l.get_ydata()]), t)
                for l, t in ax.lines_of if l.axes is ax]
            notes = [a.txt.get_text() for a in ax.artists if isinstance(a,
                offsetbox.AnchoredText)]
            maps.append(dict(crs=ax.crs, images=images, lines=lines,
                contours=[c.info for c in ax.live], title=ax.get_title(),
                labels=notes, texts=[(t.get_text(), t.get_position()) for t in
                ax.texts], grids=[(g.crs, None if g.xlocator is None else
                list(g.xlocator.locs), None if g.ylocator is None else
                list(g.ylocator.locs)) for g in ax.grids], xlim=ax.get_xlim(),
                ylim=ax.get_ylim()))
        elif getattr(ax, '_colorbar', None) is not None:
            cb = ax._colorbar
            axis = ax.xaxis if cb.orientation == 'horizontal' else ax.yaxis
            bars.append(dict(ticks=list(cb.get_ticks()), names=[t.get_text()
                for t in axis.get_ticklabels()], norm=cb.norm,
                cmap=cb.cmap, extend=cb.extend, words=sorted((ax.get_title(),
                ax.get_xlabel(), ax.get_ylabel()))))
    return dict(maps=maps, bars=bars, words=[t.get_text() for t in fig.texts])
