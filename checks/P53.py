"""P53: the map programs draw the grid of the file at its place"""
import itertools
import pathlib
import re

import h5py
import matplotlib.colors as colors
import netCDF4
import numpy as np
import pyproj
import scipy.interpolate

import maps
import mc
import prog

maps.install()

CHECK = mc.Check('P53', level='bounded_exhaustive',
    rule='distinct (program, options, grids) runs; every pixel of every drawn '
    'map, every contour, polyline and color bar is compared with the input '
    'files', assumptions=['cartopy, pyshp and gdal are not installed: their '
        'calls are answered by recording stand-ins (coordinates by pyproj); '
        'the renderer is not judged', 'most polar maps are drawn within a '
        'window of the region (the module level limits are narrowed)',
        'image values are those at the nodes of the image (half a pixel of '
        'an image cell is not judged); pixels beyond the outermost cells of a '
        'grid are not judged', 'the land-sea mask option of the programs, '
        'which they accept and do not use, is not covered'])

SOUTH = dict(proj='stere', lat_0=-90, lon_0=0, lat_ts=-71, ellps='WGS84')
NORTH = dict(proj='stere', lat_0=90, lon_0=-45, lat_ts=70, ellps='WGS84')
KEY = {'S': ('st', -90.0, 0.0, -71.0, 0.0, 0.0), 'N': ('st', 90.0, -45.0,
    70.0, 0.0, 0.0), 'G': ('pc', 0.0)}
# windows across the 180 degree meridian and over Greenland [m]
WINDOW = {'S': ((-200e3, 100e3), (-1500e3, -1200e3)), 'N': ((-250e3, 50e3),
    (-2000e3, -1800e3)), 'QML': ((600e3, 900e3), (900e3, 1100e3))}
ASE = ((-1700e3, -1300e3), (-300e3, 100e3))
# the whole regions of the programs (drawn where they can not be narrowed)
WHOLE = [(-3.1e6, 3.1e6, -2.6e6, 2.6e6), (-1.53e6, 1.61e6, -3.6e6, -0.28e6),
    (-1.9e6, -0.9e6, -0.9e6, 0.2e6), (-0.94e6, 2.4e6, 0.53e6, 2.3e6)]
# program -> (domain, maps in the figure, movie)
PROGRAMS = {'plot_global_grid_maps': ('G', 1), 'plot_global_grid_3maps': ('G',
    3), 'plot_global_grid_4maps': ('G', 4), 'plot_global_grid_5maps': ('G',
    5), 'plot_global_grid_9maps': ('G', 9), 'plot_global_grid_movie': ('G',
    0), 'plot_AIS_grid_maps': ('S', 1), 'plot_AIS_grid_3maps': ('S', 3),
    'plot_AIS_grid_4maps': ('S', 4), 'plot_AIS_grid_movie': ('S', 0),
    'plot_AIS_regional_maps': ('ASE', 1), 'plot_AIS_regional_movie': ('ASE',
    0), 'plot_GrIS_grid_maps': ('N', 1), 'plot_GrIS_grid_3maps': ('N', 3),
    'plot_GrIS_grid_5maps': ('N', 5), 'plot_GrIS_grid_movie': ('N', 0),
    'plot_QML_grid_3maps': ('QML', 3), 'plot_AIS_GrIS_maps': ('SN', 2)}
SPACING = {'G': (10.0, 5.0)}


# ---------------------------------------------------------------------- grids
def grid(seed, dlon, dlat, interval, east, masked):
    """latitudes upwards, longitudes, values and mask"""
    if interval == 1:
        lat = -90 + dlat*np.arange(round(180/dlat) + 1)
        lon = dlon*np.arange(round(360/dlon) + 1)
    else:
        lat = -90 + dlat*(np.arange(round(180/dlat)) + 0.5)
        lon = dlon*(np.arange(round(360/dlon)) + 0.5)
    if not east:
        lon = lon - 180.0
    ph, lm = np.meshgrid(np.radians(lat), np.radians(lon), indexing='ij')
    i, j = np.meshgrid(np.arange(len(lat)), np.round(np.mod(lon, 360)/dlon -
        0.5*(interval - 1)).astype(int) % round(360/dlon), indexing='ij')
    z = 12*np.sin(ph + seed) + 7*np.cos(ph)*np.cos(lm - 0.4*seed) + 4*np.sin(
        2.1*i**2 + 3.7*j + 1.3*i*j + seed) - 1.5
    z = np.round(z, 3)
    m = ((3*i + 5*j + seed) % 11 == 0) & masked
    return lat, lon, z, m


def write(path, form, lat, lon, z, m, names, time=None, month=None):
    fill = -9999.0
    v = np.where(m, fill, z)
    dims = ('lat', 'lon') + (('time',) if time is not None else ())
    if form == 'netCDF4':
        with netCDF4.Dataset(path, 'w') as f:
            f.createDimension('lat', len(lat))
            f.createDimension('lon', len(lon))
            f.createVariable(names[0], 'f8', ('lon',))[:] = lon
            f.createVariable(names[1], 'f8', ('lat',))[:] = lat
            if time is not None:
                f.createDimension('time', len(time))
                f.createVariable('time', 'f8', ('time',))[:] = time
            d = f.createVariable(names[2], 'f8', dims, fill_value=fill)
            d[:] = v
    elif form == 'HDF5':
        with h5py.File(path, 'w') as f:
            f[names[0]], f[names[1]], f[names[2]] = lon, lat, v
            if time is not None:
                f['time'] = time
            f[names[2]].attrs['_FillValue'] = fill
    else:
        with open(path, 'w') as f:
            for i, j in np.ndindex(z.shape):
                if not m[i, j]:
                    row = {'lon': lon[j], 'lat': lat[i], 'data': z[i, j]}
                    f.write(' '.join(f'{row[n]:12.4f}' for n in names) + '\n')


def wrap(lon):
    return lon - 360*np.floor((lon + 180)/360)


def nodes(lon, z, interval):
    """grid from -180 to 180"""
    if interval == 1:
        lon, z = lon[:-1], z[:, :-1]
    k = np.argsort(wrap(lon))
    lon, z = wrap(lon)[k], z[:, k]
    if interval == 1:
        lon, z = np.append(lon, 180.0), np.append(z, z[:, :1], axis=1)
    return lon, z


def sample(lat, lon, z, m, interval, order, plon, plat):
    """values, mask and validity of the grid at points"""
    x, v = nodes(lon, np.where(m, 0.0, z), interval)
    _, w = nodes(lon, m.astype(float), interval)
    ok = (plon >= x[0]) & (plon <= x[-1]) & (plat >= lat[0]) & (plat <=
        lat[-1])
    dx, dy = x[1] - x[0], lat[1] - lat[0]
    fx = np.clip((plon - x[0])/dx, 0, len(x) - 1)
    fy = np.clip((plat - lat[0])/dy, 0, len(lat) - 1)
    if order == 0:
        i, j = np.floor(fy + 0.5).astype(int), np.floor(fx + 0.5).astype(int)
        tie = (abs(abs(fy - np.floor(fy)) - 0.5) < 1e-6) | (abs(abs(fx -
            np.floor(fx)) - 0.5) < 1e-6)
        i, j = np.minimum(i, len(lat) - 1), np.minimum(j, len(x) - 1)
        return v[i, j], w[i, j] > 0, ok & ~tie
    if order == 3:
        s = scipy.interpolate.make_interp_spline(lat, v, k=3, axis=0)
        t = scipy.interpolate.make_interp_spline(x, s.c.T, k=3, axis=0)
        out = scipy.interpolate.NdBSpline((s.t, t.t), np.ascontiguousarray(
            t.c.T), 3)(np.stack([np.clip(plat, lat[0], lat[-1]),
            np.clip(plon, x[0], x[-1])], axis=-1))
        return out, np.zeros(plon.shape, bool), ok

    def bilinear(a, fy, fx):
        i = np.clip(np.floor(fy).astype(int), 0, len(lat) - 2)
        j = np.clip(np.floor(fx).astype(int), 0, len(x) - 2)
        ty, tx = fy - i, fx - j
        return ((1 - ty)*((1 - tx)*a[i, j] + tx*a[i, j + 1]) + ty*((1 - tx)*
            a[i + 1, j] + tx*a[i + 1, j + 1]))
    out = bilinear(v, fy, fx)
    at = [bilinear(w, np.clip(fy + a, 0, len(lat) - 1), np.clip(fx + b, 0,
        len(x) - 1)) > 1e-9 for a in (-1e-5, 0, 1e-5) for b in (-1e-5, 0,
        1e-5)]
    same = np.logical_and.reduce(at) | ~np.logical_or.reduce(at)
    return out, np.logical_or.reduce(at), ok & same


# ------------------------------------------------------------------- overlays
def ring(seed, n, polar):
    t = np.linspace(0, 2*np.pi, n)
    if polar:
        return np.column_stack([1e5*seed + 4e4*np.cos(t), -2e5*seed + 3e4*
            np.sin(t)]).round(1)
    return np.column_stack([20.0*seed % 150 + 3*np.cos(t), 7.0*(seed % 8) + 2*
        np.sin(t)]).round(4)


def overlays(base):
    """shape files of the programs; polylines by kind as (crs, points)"""
    L = {}
    S, N, G = KEY['S'], KEY['N'], KEY['G']

    def add(kind, path, crs, entries):
        maps.SHAPES[str(base.joinpath(*path.split('/')))] = entries
        L.setdefault(kind, []).append([(crs, p) for pts, parts, _ in entries
            for p in np.split(pts, parts[1:])])
    for k, name in enumerate(('GSHHS_i_L1_no_greenland',
            'greenland_coastline_islands')):
        add('coast', f'masks/G250/{name}.shp', G, [(ring(3*k + i, 5 + i,
            False), [0], ['x']) for i in range(3)])
    add('ice', 'masks/IceBoundaries_Antarctica_v02/'
        'ant_ice_sheet_islands_v2.shp', S, [(ring(10 + i, 6 + i, True), [0],
        ['x']) for i in range(4)])
    title = ('A-Ap', 'Ap-B', 'K-A')
    add('IMBIE-2:S', 'masks/ANT_Basins_IMBIE2_v1.6/ANT_Basins_IMBIE2_v1.6.shp',
        S, [(ring(20 + i, 12, True), [0, 7] if i == 1 else [0], ['r', t])
        for i, t in enumerate(title + ('Islands', 'West'))])
    add('IMBIE-2:N', 'masks/GRE_Basins_IMBIE2_v1.3/GRE_Basins_IMBIE2_v1.3.shp',
        G, [(ring(30 + i, 12, False), [0, 5] if i == 1 else [0], [t, 'r'])
        for i, t in enumerate(('CW', 'NE', 'SW', 'GIC'))])
    add('IMBIE-2_subbasin', 'masks/Basins_20Oct2016_v1.7/Basins_v1.7.shp', S,
        [(ring(40 + i, 12, True), [0, 4] if i == 2 else [0], ['r', t]) for i,
        t in enumerate(('G-H', 'Islands', 'J-Jpp'))])
    add('Amundsen', 'masks/Basins_Admunsen/'
        'Basins_admunsen_match_coastline_and_IS.shp', G, [(ring(50 + i, 7,
        False), [0], ['x']) for i in range(2)])
    add('margin', 'masks/GIMP/grn_ice_sheet_peripheral_glaciers.shp', N,
        [(ring(60 + i, 5, True), [0], ['x']) for i in range(31)])
    for k, f in enumerate(('03_rgi60_ArcticCanadaNorth',
            '04_rgi60_ArcticCanadaSouth', '06_rgi60_Iceland',
            '07_rgi60_Svalbard')):
        add('inventory', f'RGI/{f}/{f}_plot.shp', N, [(ring(100 + 31*k + i, 5,
            True), [0], ['x']) for i in range(30)])
    for hem, d, names, first, proj in (('S', 'ANT', ('AAp', 'ApB', 'BC', 'CCp',
            'CpD', 'DDp', 'DpE', 'EEp', 'EpFp', 'FpG', 'GH', 'HHp', 'HpI',
            'IIpp', 'IppJ', 'JJpp', 'JppK', 'KKp', 'KpA'), 'basin', SOUTH),
            ('N', 'GRE', ('CE', 'CW', 'NE', 'NO', 'NW', 'SE', 'SW'), 'divide',
            NORTH)):
        folder = base/'masks'/f'Rignot_{d}'
        folder.mkdir(parents=True, exist_ok=True)
        out = []
        for k, n in enumerate(names):
            lat = (-75 if hem == 'S' else 70) + 0.25*np.arange(4) + 0.125*k
            lon = 10.0*k + np.arange(4)
            a, b = (lat, lon) if hem == 'S' else (lon, lat)
            np.savetxt(folder/f'{first}_{n}_index.ascii', np.column_stack([a,
                b]), fmt='%12.6f')
            x, y = pyproj.Proj(**proj)(lon, lat)
            out.append((KEY[hem], np.column_stack([x, y])))
        L[f'Rignot:{hem}'] = [out]
    return L


def expected_lines(L, program, hem, basin, margins):
    flat = lambda k: [l for f in L[k] for l in f]   # noqa: E731
    if hem == 'G':
        return flat('coast') + flat('ice')
    out = []
    name = {'Rignot': f'Rignot:{hem}', 'IMBIE-2': f'IMBIE-2:{hem}'}.get(basin,
        basin)
    start = 0 if basin in (None, 'Amundsen') else 1
    if basin:
        lines = flat(name)
        if name == 'IMBIE-2:S':
            # the single basins (no islands or large regions)
            lines = lines[:4]
        elif name == 'IMBIE-2:N':
            lines = lines[:4]
        elif name == 'IMBIE-2_subbasin':
            lines = lines[:1] + lines[2:]
        out += lines
    if hem == 'S':
        out += flat('ice')[start:]
    if hem == 'N' or program == 'plot_AIS_GrIS_maps':
        out += flat('coast')
    if margins:
        out += flat('margin')[start:30] + flat('inventory')
    return out


def same_lines(rec, key, got, want):
    def norm(lines):
        return sorted((k, tuple(np.round(np.asarray(p, float).ravel(), 3)))
            for k, p in lines)
    got = norm([(t.key, p) for p, t in got if t is not None])
    want = norm(want)
    rec.eq([(k, len(p)) for k, p in got], [(k, len(p)) for k, p in want],
        key + ':polylines')
    if len(got) == len(want):
        for a, b in zip(got, want):
            if len(a[1]) == len(b[1]):
                rec.close(a[1], b[1], key + ':polyline', rtol=1e-6, atol=2e-3)


# --------------------------------------------------------------------- checks
def pixels(hem, image):
    """longitude and latitude of the nodes of an image"""
    x0, x1, y0, y1 = image['extent']
    z = image['z'] if image['origin'] == 'lower' else image['z'][::-1]
    ny, nx = z.shape
    X, Y = np.meshgrid(np.linspace(x0, x1, nx), np.linspace(y0, y1, ny))
    if hem != 'G':
        X, Y = pyproj.Proj(**(NORTH if hem == 'N' else SOUTH))(X, Y,
            inverse=True)
    return X, Y, z


def same_map(rec, key, hem, window, m, g, cfg):
    """a map shows the grid g"""
    rec.eq(m['crs'].key, KEY[hem], key + ':projection')
    rec.check(len(m['images']) == 1 + cfg.get('basemap', False), key +
        ':images', len(m['images']))
    if not m['images']:
        return
    im = m['images'][-1]
    rec.eq(im['crs'].key, KEY[hem], key + ':image:projection')
    if im['extent'] in WHOLE:
        window = im['extent']
    rec.close(im['extent'], window, key + ':extent', rtol=0, atol=1e-6)
    rec.close(m['xlim'] + m['ylim'], window, key + ':limits', rtol=0,
        atol=1e-6)
    order = cfg['order']
    lat, lon, z, mask = g
    X, Y, got = pixels(hem, im)
    step = 0.5 if hem == 'G' else 1000.0
    rec.check((window[1] - window[0])/(got.shape[1] - 1) <= step*1.001 and
        (window[3] - window[2])/(got.shape[0] - 1) <= step*1.001, key +
        ':resolution', got.shape)
    v, bad, ok = sample(lat, lon, z, mask, cfg['interval'], order, X, Y)
    gm = np.ma.getmaskarray(got)
    rec.check(ok.mean() > 0.5, key + ':judged', ok.mean())
    rec.check(np.array_equal(gm[ok], bad[ok]), key + ':blank', lambda:
        f'{np.count_nonzero(gm[ok] != bad[ok])} of {ok.sum()} pixels, first '
        f'{np.argwhere(ok & (gm != bad))[0]}')
    d = ok & ~bad & ~gm
    rec.close(np.ma.getdata(got)[d], v[d], key + ':pixels', rtol=0, atol=1e-7*
        (1 + abs(z).max()))
    # colors
    look = cfg['colors']
    if look[0] == 'range':
        rec.check(not isinstance(im['norm'], colors.BoundaryNorm), key +
            ':norm', im['norm'])
        rec.close([im['norm'].vmin, im['norm'].vmax], look[1][:2], key +
            ':norm', rtol=1e-12)
    else:
        rec.check(isinstance(im['norm'], colors.BoundaryNorm), key + ':norm')
        rec.close(getattr(im['norm'], 'boundaries', []), look[1], key +
            ':boundaries', rtol=1e-12)
    rec.check(im['alpha'] in (cfg['alpha'],) or (im['alpha'] is None and
        cfg['alpha'] == 1.0), key + ':alpha', im['alpha'])
    rec.eq(im['cmap'].name, cfg['cmap'], key + ':cmap')
    # contours
    same_contours(rec, key, hem, m['contours'], g, cfg, (X, Y, v, bad, ok),
        window)
    # grid lines
    if cfg.get('lines'):
        a, b = cfg['lines']
        rec.eq([(c.key, x, y) for c, x, y in m['grids']], [(('pc', 0.0),
            [a*k - 180 for k in range(int(360/a) + 1)], [b*k - 90 for k in
            range(int(180/b) + 1)])], key + ':grid lines')
    else:
        rec.eq(m['grids'], [], key + ':grid lines')


def same_mosaic(rec, key, hem, window, m, raster):
    """the background is the mosaic, at its place"""
    im = m['images'][0]
    a, (x0, dx, _, y0, _, dy) = raster
    rec.eq(im['crs'].key, KEY[hem], key + ':mosaic projection')
    e0, e1, f0, f1 = im['extent']
    z = im['z'] if im['origin'] == 'upper' else im['z'][::-1]
    ny, nx = z.shape
    # (columns and rows by their corners)
    j = (np.linspace(e0, e1, nx) - x0)/dx
    i = (np.linspace(f1, f0, ny) - y0)/dy
    if not rec.check(abs(j - np.round(j)).max() < 1e-6 and abs(i - np.round(
            i)).max() < 1e-6, key + ':mosaic extent', im['extent']):
        return
    w = a[np.ix_(np.round(i).astype(int), np.round(j).astype(int))]
    rec.check(np.array_equal(np.ma.getmaskarray(z), w == 0), key +
        ':mosaic blank')
    rec.check(np.array_equal(np.ma.getdata(z)[w > 0], w[w > 0]), key +
        ':mosaic')
    rec.check(e0 <= window[0] + dx and e1 >= window[1] - 2*dx and f0 <=
        window[2] - 2*dy and f1 >= window[3] + dy, key + ':mosaic cover',
        im['extent'])


def same_contours(rec, key, hem, got, g, cfg, image, window):
    lat, lon, z, mask = g
    want = []
    if cfg.get('contours'):
        lo, hi, st = cfg['contours']
        n = round((hi - lo)/st)
        want = [('0.2', [lo + k*st for k in range(n + 1) if abs(lo + k*st) >
            1e-12]), ('red', [0.0])]
        if cfg.get('mean'):
            w = np.cos(np.radians(lat))[:, None]*~mask
            want.append(('blue', [(w*z).sum()/w.sum()]))
    rec.eq(sorted((c['colors'], len(c['levels'])) for c in got), sorted((c,
        len(l)) for c, l in want), key + ':contours')
    if len(got) != len(want):
        return
    for c, (color, levels) in zip(sorted(got, key=lambda c: c['colors']),
            sorted(want)):
        if not rec.check(isinstance(c['levels'], list), key + ':levels',
                c['levels']):
            if not isinstance(c['levels'], list):
                continue
        rec.close(c['levels'], levels, f'{key}:levels:{color}', rtol=0,
            atol=1e-9)
        zz, zm = np.ma.getdata(c['z']), np.ma.getmaskarray(c['z'])
        if hem == 'G' and c['x'] is None:
            # drawn on the image
            X, Y, v, bad, ok = image
            rec.close(c['extent'], window, key + ':contour extent', rtol=0,
                atol=1e-9)
            rec.eq(c['origin'], 'lower', key + ':contour origin')
            rec.eq(c['crs'].key, KEY['G'], key + ':contour projection')
            fy = np.linspace(0, v.shape[0] - 1, zz.shape[0])
            fx = np.linspace(0, v.shape[1] - 1, zz.shape[1])
            fy, fx = fy[::7], fx[::11]
            i = np.minimum(np.floor(fy).astype(int), v.shape[0] - 2)
            j = np.minimum(np.floor(fx).astype(int), v.shape[1] - 2)
            ty, tx = (fy - i)[:, None], (fx - j)[None]
            at = lambda a: [a[np.ix_(i + p, j + q)] for p in (0, 1) for q in
                (0, 1)]     # noqa: E731
            a = at(v)
            e = (1 - ty)*((1 - tx)*a[0] + tx*a[1]) + ty*((1 - tx)*a[2] + tx*
                a[3])
            allok = np.logical_and.reduce(at(ok))
            clear = ~np.logical_or.reduce(at(bad))
            full = np.logical_and.reduce(at(bad))
            sub, subm = zz[::7, ::11], zm[::7, ::11]
            rec.check(not subm[allok & clear].any(), key + ':contour kept',
                lambda: (subm & allok & clear).sum())
            rec.check(subm[allok & full].all(), key + ':contour blank',
                lambda: f'{(~subm & allok & full).sum()} of {(allok & full).sum()}')
            rec.close(sub[allok & clear], e[allok & clear], key +
                ':contoured', rtol=0, atol=1e-7*(1 + abs(z).max()))
            continue
        rec.eq(c['crs'].key, KEY['G'], key + ':contour projection')
        x, y = np.asarray(c['x']), np.asarray(c['y'])
        if x.ndim == 1:
            x, y = np.meshgrid(x, y)
        k = np.argsort(y[:, 0])
        x, y, zz, zm = x[k], y[k], zz[k], zm[k]
        rec.close(y, np.repeat(lat[:, None], len(lon), 1), key + ':contour lat',
            rtol=0, atol=1e-4)
        rec.close(x, np.repeat(lon[None], len(lat), 0), key + ':contour lon',
            rtol=0, atol=1e-4)
        rec.check(np.array_equal(zm, mask), key + ':contour blank')
        rec.close(zz[~mask & ~zm], z[~mask & ~zm], key + ':contoured', rtol=0,
            atol=1e-9*(1 + abs(z).max()))


def same_bar(rec, key, bars, cfg):
    rec.eq(len(bars), 1, key + ':color bars')
    bar = bars[0]
    kind, v = cfg['colors']
    ticks = list(v) if kind != 'range' else [v[0] + k*v[2] for k in range(
        round((v[1] - v[0])/v[2]) + 1)]
    rec.close(bar['ticks'], ticks, key + ':ticks', rtol=0, atol=1e-9)
    rec.eq(bar['names'], [cfg['format'].format(t) for t in ticks], key +
        ':tick labels')
    rec.eq(bar['extend'], cfg['extend'], key + ':extend')
    rec.eq([w for w in bar['words'] if w], sorted((cfg['cbtitle'],
        cfg['cbunits'])), key + ':bar labels')


def limits(mod, domain, narrow):
    """windows of the maps of a program"""
    if domain == 'G':
        return [('G', (-180.0, 180.0, -90.0, 90.0))]
    hem = 'N' if domain == 'N' else 'S'
    if domain == 'ASE':
        if hasattr(mod, 'region_xlimit'):
            mod.region_xlimit['ASE'] = np.array(ASE[0])
            mod.region_ylimit['ASE'] = np.array(ASE[1])
        return [('S', (*ASE[0], *ASE[1]))]
    if domain == 'SN':
        out = []
        for h in 'SN':
            for name, lim in (('region_xlimit', WINDOW[h][0]),
                    ('region_ylimit', WINDOW[h][1])):
                if narrow and hasattr(mod, name):
                    getattr(mod, name)[h] = np.array(lim)
            out.append((h, (*WINDOW[h][0], *WINDOW[h][1])))
        return out
    w = WINDOW['QML' if domain == 'QML' else hem]
    mod.xlimits, mod.ylimits = np.array(w[0]), np.array(w[1])
    return [(hem, (*w[0], *w[1]))]


def configs(single, full):
    """option sets: image options exhaustively, the others in turn"""
    forms = ('netCDF4', 'HDF5', 'ascii')
    image = list(itertools.product((1, 2), ('nearest', 'bilinear', 'cubic'),
        (True, False)))
    for k, (interval, how, east) in enumerate(image):
        for r in range(6 if full else 1):
            n = k + 5*r + (k//6)
            yield dict(interval=interval, how=how, east=east, order={
                'nearest': 0, 'bilinear': 1, 'cubic': 3}[how],
                form=forms[n % 3], masked=how != 'cubic' and (n + r) % 2 == 0,
                down=('flip', 'up', 'down')[(n//2 + r) % 3],
                scale=(1.0, 2.5, -10.0)[(n + k) % 3],
                colors=('range', (-20.0, 20.0, 5.0)) if n % 2 else ('bound',
                (-30.0, -8.0, 0.0, 2.0, 17.5)),
                contours=((-10.0, 10.0, 2.5) if n % 5 < 2 else (1.0, 9.0, 4.0))
                if n % 3 != 1 else None, mean=n % 4 < 2,
                alpha=(1.0, 0.6)[n % 2], cmap=('viridis', 'RdBu')[(n//2) %
                2], lines=(None, (30.0, 30.0), (60.0, 15.0))[n % 3],
                one=n % 2 == 0, extend=('both', 'min', 'max',
                'neither')[n % 4], format=('{0:0.0f}', '{0:0.1f}')[n % 2],
                cbtitle='Mass', cbunits='cm', title=n % 3 != 2, label=n % 3 !=
                0, basin=n, text=n % 2 == 1, bar=n % 4 == 3, dpi=(90, 180)[
                n % 2], picture=('png', 'pdf', 'svg', 'jpg')[n % 4], margins=n//3 %
                2 == 0, basemap=n % 5 == 0)


@CHECK.block('draw', params=lambda tier: [(p, tier) for p in PROGRAMS if
    PROGRAMS[p][1]], timeout=800)
def draw(rec, param):
    program, tier = param
    domain, count = PROGRAMS[program]
    d = pathlib.Path(rec.mkdir())
    L = overlays(d)
    mod = prog.load(program)
    where = limits(mod, domain, True)
    where = where if len(where) == count else where*count
    cfgs = list(configs(count == 1, tier == 'thorough'))
    if count > 1 and tier != 'thorough':
        cfgs = cfgs if count < 4 else cfgs[::2] if count == 4 else cfgs[::3]
    for n, cfg in enumerate(cfgs):
        key = f'{program}:{n}'
        rec.case((program, n))
        run_maps(rec, key, d/f'{n}', d, L, program, domain, count, where, cfg,
            n)
    rec.sample({'program': program, 'runs': len(cfgs)})


def spacing(domain, cfg):
    dlon, dlat = SPACING.get(domain, (5.0, 2.0))
    if cfg['interval'] == 2 and cfg['one']:
        dlat = dlon
    return dlon, dlat


def run_maps(rec, key, d, base, L, program, domain, count, where, cfg, n):
    d.mkdir()
    dlon, dlat = spacing(domain, cfg)
    names = ('lon', 'lat', 'z') if n % 2 else ('x', 'y', 'hgt')
    forms = ['netCDF4', 'HDF5', 'ascii']
    down = cfg['down']
    if down == 'flip':      # a grid stored from north to south
        step = [dlon, -dlat]
        forms = forms[:2]
    else:
        step = [dlon, dlat]
    if len(set(forms)) == 3 and (names != ('lon', 'lat', 'data')):
        names = ('lon', 'lat', 'data')
    one = dlon == dlat and down != 'flip'
    first = forms.index(cfg['form']) if cfg['form'] in forms else 0
    form = [forms[(first + (k if n % 3 else 0)) % len(forms)] for k in
        range(count)]
    # files of longitudes to the west start elsewhere in text
    form = [f if cfg['east'] or f != 'ascii' else 'netCDF4' for f in form]
    cols = names if n % 2 else (names[1], names[0], names[2])
    if 'ascii' not in form:
        cols = names
    files, grids = [], []
    for k in range(count):
        lat, lon, z, m = grid(n + 3*k, dlon, dlat, cfg['interval'],
            cfg['east'], cfg['masked'])
        f = d/f'grid{k}.{form[k]}'
        o = slice(None, None, -1) if down != 'up' and form[k] != 'ascii' else \
            slice(None)
        if form[k] == 'ascii':
            write(f, 'ascii', lat, lon, z, m, cols)
        else:
            write(f, form[k], lat[o], lon, z[o], m[o], cols)
        files.append(f)
        grids.append((lat, lon, z*cfg['scale'], m))
    fig = d/'out'/f'map.{cfg["picture"]}'
    argv = [*files, '-D', base, '-v', *cols, '--spacing', *(step[:1] if one
        else step), '--interval', cfg['interval'], '-I', cfg['how'], '-m',
        cfg['cmap'], '-a', cfg['alpha'], '--cbextend', cfg['extend'],
        '--cbtitle', cfg['cbtitle'], '--cbunits', cfg['cbunits'],
        '--cbformat', cfg['format'], '-O', fig, '-f', cfg['picture'], '-d',
        cfg['dpi'], '-M', '755']
    if count == 1 or set(form) != {'netCDF4'}:
        argv += ['-F', *(form if len(set(form)) > 1 else form[:1])]
    if cfg['scale'] != 1:
        argv += ['-s', cfg['scale']]
    kind, v = cfg['colors']
    argv += ['-R' if kind == 'range' else '-B', *v]
    if cfg['contours']:
        argv += ['--plot-contours', '--contour-range', *cfg['contours']]
        argv += ['--mean-contour'] if cfg['mean'] else []
    if cfg['lines']:
        argv += ['--draw-grid-lines', '--grid-lines', *(cfg['lines'][:1] if
            cfg['lines'][0] == cfg['lines'][1] else cfg['lines'])]
    titles = [f'map_{k}_2002-2009' for k in range(count)]
    labels = [f'{c})' for c in 'abcdefghi'[:count]]
    argv += ['--plot-title', *titles] if cfg['title'] else []
    argv += ['--plot-label', *labels] if cfg['label'] else []
    basin, margins, basemap, put = None, False, False, {}
    if domain == 'G':
        if count == 1 and cfg['text']:
            argv += ['--add-projection', '--add-min-max']
    else:
        options = {'N': (None, 'Rignot', 'IMBIE-2'), 'ASE': (None, 'Rignot',
            'IMBIE-2', 'IMBIE-2_subbasin', 'Amundsen'), 'SN': (None, 'Rignot',
            'IMBIE-2', 'IMBIE-2_subbasin')}.get(domain, (None, 'Rignot', 'IMBIE-2', 'IMBIE-2_subbasin'))
        basin = options[cfg['basin'] % len(options)]
        argv += ['--basin-type', basin] if basin else []
        margins = domain == 'N' and cfg['margins']
        argv += ['--glacier-margins'] if margins else []
        argv += ['--draw-scale'] if cfg['bar'] else []
        argv += ['-r', 'ASE'] if domain == 'ASE' else []
        basemap = cfg['basemap']
        if basemap:
            argv += ['--basemap']
            for i, (h, name) in enumerate((('S', 'MOA/moa750_2004_hp1_v1.1.tif'),
                    ('ASE', 'MOA/moa125_2004_hp1_v1.1.tif'), ('N',
                    'MOG/mog500_2005_hp1_v1.1.tif'))):
                a = (np.arange(80*70).reshape(80, 70)*(37 + i)) % 16000
                a[a % 7 == i] = 0
                put[h] = a, (-3.4e6 + 5e3*i, 1e5, 0, 3.9e6, 0, -1e5)
                maps.RASTERS[str(base.joinpath(*name.split('/')))] = put[h]
    cfg = dict(cfg, basemap=basemap)
    with rec.guard(key), maps.Record() as R:
        log = prog.run(program, *argv)
        rec.check(not log, key + ':log', log)
        rec.eq([(f, kw.get('dpi'), kw.get('format')) for f, kw, _ in
            R.figures], [(fig, cfg['dpi'], cfg['picture'])], key + ':figures')
        rec.eq(fig.stat().st_mode & 0o777, 0o755, key + ':mode')
        seen = R.figures[0][2]
        rec.eq(len(seen['maps']), count, key + ':maps')
        for k, m in enumerate(seen['maps']):
            hem, window = where[k]
            kk = f'{key}:{k}'
            same_map(rec, kk, hem, window, m, grids[k], cfg)
            if basemap:
                same_mosaic(rec, kk, hem, window, m, put['ASE' if domain ==
                    'ASE' else hem])
            same_lines(rec, kk, m['lines'], expected_lines(L, program, hem,
                basin, margins))
            want = ''
            if cfg['title']:
                want = titles[k].replace('-', '\u2013')
                want = want if count == 1 else want.replace('_', ' ')
            rec.eq(m['title'], want, kk + ':title')
            rec.eq(m['labels'], labels[k:k + 1] if cfg['label'] else [], kk +
                ':label')
            words = [t for t, _ in m['texts']]
            if domain == 'G' and count == 1 and cfg['text']:
                extremes(rec, kk, words, m, cfg)
            if domain != 'G':
                scale_bar(rec, kk, m, cfg['bar'] and (k == 0 or domain == 'SN'
                    or program == 'plot_AIS_grid_4maps'), count, program, k)
        same_bar(rec, key, seen['bars'], cfg)


def extremes(rec, key, words, m, cfg):
    num = [float(x) for x in re.findall(r'(?:Min|Max) = (-?[\d.]+)',
        ' '.join(words))]
    z = m['images'][-1]['z'].compressed()
    rec.check(len(num) == 2, key + ':extremes', words)
    if len(num) == 2 and not cfg['masked']:
        # (values between the nodes of the image)
        tol = 0.05 + 0.02*np.ptp(z)
        rec.close(num, [z.min(), z.max()], key + ':extremes', rtol=0,
            atol=tol)
    rec.check(any('0.00\u00b0E' in w for w in words), key + ':projection text',
        words)


def scale_bar(rec, key, m, drawn, count, program, k):
    texts = [(t, p) for t, p in m['texts'] if re.fullmatch(r'\d+( km)?|km', t)]
    if program == 'plot_AIS_grid_4maps':
        drawn = drawn and k == 2
    want = (1 if program == 'plot_GrIS_grid_5maps' else 4) if drawn else 0
    rec.eq(len(texts), want, key + ':scale bar')
    num = sorted((float(t.split()[0]), p[0]) for t, p in texts if t != 'km')
    if len(num) == 3:
        rec.close([x - num[0][1] for _, x in num], [1e3*v for v, _ in num],
            key + ':scale bar', rtol=0, atol=500.0)
    if num:
        wide = max(np.ptp(p[:, 0]) for p, t in m['lines'] if t is None)
        rec.close(wide, 1e3*num[-1][0], key + ':scale bar', rtol=0, atol=500.0)


@CHECK.block('removed', params=lambda tier: [p for p in PROGRAMS if PROGRAMS[
    p][1] > 1], timeout=600)
def removed(rec, program):
    """a field is removed from each of the maps before they are scaled"""
    domain, count = PROGRAMS[program]
    d = pathlib.Path(rec.mkdir())
    overlays(d)
    mod = prog.load(program)
    where = limits(mod, domain, True)
    where = where if len(where) == count else where*count
    dlon, dlat = SPACING.get(domain, (5.0, 2.0))
    for scale in (1.0, -2.0):
        key = f'{program}:{scale}'
        rec.case((program, scale))
        cfg = dict(interval=1, order=1, colors=('range', (-20.0, 20.0, 5.0)),
            alpha=1.0, cmap='viridis', contours=(-10.0, 10.0, 5.0), mean=True)
        files, grids = [], []
        r = grid(77, dlon, dlat, 1, True, False)
        write(d/f'removed{scale}.nc', 'netCDF4', *r, ('lon', 'lat', 'z'))
        for k in range(count):
            lat, lon, z, m = grid(5*k + 1, dlon, dlat, 1, True, True)
            files.append(d/f'grid{scale}_{k}.nc')
            write(files[-1], 'netCDF4', lat, lon, z, m, ('lon', 'lat', 'z'))
            grids.append((lat, lon, (z - r[2])*scale, m))
        fig = d/f'map{scale}.png'
        with rec.guard(key), maps.Record() as R:
            mod.plot_grid(d, files, DATAFORM=['netCDF4'], VARIABLES=['lon',
                'lat', 'z'], DDEG=[dlon, dlat], INTERVAL=1,
                INTERPOLATION='bilinear', SCALE_FACTOR=scale,
                REMOVE_FILE=d/f'removed{scale}.nc', COLOR_MAP='viridis',
                PLOT_RANGE=[-20.0, 20.0, 5.0], CONTOURS=True, CONTOUR_RANGE=[
                -10.0, 10.0, 5.0], MEAN_CONTOUR=True, CBEXTEND='both',
                CBTITLE='', CBUNITS='', CBFORMAT='{0:0.0f}', FIGURE_FILE=fig,
                FIGURE_FORMAT='png', FIGURE_DPI=90)
            rec.eq([f[0] for f in R.figures], [fig], key + ':figures')
            for k, m in enumerate(R.figures[0][2]['maps']):
                same_map(rec, f'{key}:{k}', *where[k], m, grids[k], cfg)
    rec.sample({'program': program, 'maps': count})


@CHECK.block('movie', params=lambda tier: [(p, tier) for p in PROGRAMS if not
    PROGRAMS[p][1]], timeout=800)
def movie(rec, param):
    program, tier = param
    domain, _ = PROGRAMS[program]
    d = pathlib.Path(rec.mkdir())
    L = overlays(d)
    mod = prog.load(program)
    (hem, window), = limits(mod, domain, True)
    cfgs = list(configs(True, tier == 'thorough'))
    if tier != 'thorough':
        cfgs = cfgs[::2] + cfgs[1::4]
    # months on both sides of the gap and of a new year
    months = [(2002.87, 11), (2003.04, 13), (2018.96, 204)]
    for n, cfg in enumerate(cfgs):
        key = f'{program}:{n}'
        rec.case((program, n))
        dlon, dlat = spacing(domain, cfg)
        form = ('netCDF4', 'HDF5')[n % 2]
        flip = cfg['down'] == 'flip'
        parts = [grid(n + 4*k, dlon, dlat, cfg['interval'], cfg['east'],
            cfg['masked']) for k in range(3)]
        lat, lon = parts[0][:2]
        z = np.stack([p[2] for p in parts], axis=-1)
        m = np.stack([p[3] for p in parts], axis=-1)
        o = slice(None, None, 1 if cfg['down'] == 'up' else -1)
        f = d/f'grid{n}.{form}'
        write(f, form, lat[o], lon, z[o], m[o], ('lon', 'lat', 'z'),
            time=np.array([t for t, _ in months]))
        fig = d/f'out{n}'/'map.mp4'
        argv = [f, '-D', d, '-F', form, '--spacing', dlon, -dlat if flip else
            dlat, '--interval', cfg['interval'], '-I', cfg['how'], '-m',
            cfg['cmap'], '-a', cfg['alpha'], '--cbextend', cfg['extend'],
            '--cbtitle', cfg['cbtitle'], '--cbunits', cfg['cbunits'],
            '--cbformat', cfg['format'], '-O', fig, '-d', cfg['dpi']]
        argv += ['-s', cfg['scale']] if cfg['scale'] != 1 else []
        kind, v = cfg['colors']
        argv += ['-R' if kind == 'range' else '-B', *v]
        if cfg['contours']:
            argv += ['--plot-contours', '--contour-range', *cfg['contours']]
            argv += ['--mean-contour'] if cfg['mean'] else []
        if cfg['lines']:
            argv += ['--draw-grid-lines', '--grid-lines', *cfg['lines']]
        argv += ['--plot-title', 'A-B'] if cfg['title'] else []
        argv += ['--plot-label', 'a)'] if cfg['label'] else []
        basin, margins = None, False
        if domain != 'G':
            options = {'N': (None, 'Rignot', 'IMBIE-2'), 'ASE': (None,
                'Rignot', 'IMBIE-2', 'IMBIE-2_subbasin', 'Amundsen')}.get(
                domain, (None, 'Rignot', 'IMBIE-2', 'IMBIE-2_subbasin'))
            basin = options[cfg['basin'] % len(options)]
            argv += ['--basin-type', basin] if basin else []
            margins = domain == 'N' and cfg['margins']
            argv += ['--glacier-margins'] if margins else []
            argv += ['-r', 'ASE'] if domain == 'ASE' else []
        cfg = dict(cfg, basemap=False)
        with rec.guard(key), maps.Record() as R:
            log = prog.run(program, *argv)
            rec.check(not log, key + ':log', log)
            rec.eq([(p, dpi, len(fr)) for p, dpi, fr in R.movies], [(fig,
                cfg['dpi'], len(months))], key + ':movie')
            for k, seen in enumerate(R.movies[0][2]):
                kk = f'{key}:{k}'
                mp = seen['maps'][0]
                same_map(rec, kk, hem, window, mp, (lat, lon, parts[k][2]*cfg[
                    'scale'], parts[k][3]), cfg)
                same_lines(rec, kk, mp['lines'], expected_lines(L, program,
                    hem, basin, margins))
                words = ' '.join([t for t, _ in mp['texts']] + seen['words'])
                t, g = months[k]
                rec.eq(re.findall(r'(\d{4})-+(\d\d)', words), [(f'{int(t)}',
                    f'{(g - 1) % 12 + 1:02d}')], kk + ':date')
                rec.eq(mp['title'], 'A\u2013B' if cfg['title'] else '', kk +
                    ':title')
                rec.eq(mp['labels'], ['a)'] if cfg['label'] else [], kk +
                    ':label')
                same_bar(rec, kk, seen['bars'], cfg)
    rec.sample({'program': program, 'movies': len(cfgs), 'frames':
        3*len(cfgs)})
