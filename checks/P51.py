"""P51: the raster program evaluates the requested anomalies at every cell"""
import itertools
import pathlib
import types
import numpy as np
import pyproj
import mc
import ref
import prog
from checks import P26
from checks.P25 import expect, write as write_mask
from checks.P39 import UNITS, save
from checks.P41 import (Archive, CODES, MLAT, MLON, SUFFIX, anomalies,
    degree_factor, love_of, prepare, tail_of)
import hmodel
import gravity_toolkit as gt

CHECK = mc.Check('P51', level='bounded_exhaustive',
    rule='distinct (projection, bounds, spacing, months, truncation, field '
    'corrections, units, smoothing, format) runs; every cell of every month '
    'and the mask are compared with the defining sums over the archive',
    assumptions=['the optional geoid package, which converts latitudes and '
        'writes the files, is a stand-in: the grids and attributes handed to '
        'it are compared', 'coordinates are transformed by PROJ', 'the '
        'latitude of a cell is geodetic on the ellipsoid of the projection',
        'low degree replacements and the destriping filter are those of '
        'their own properties'])

WRITTEN = []


def geocentric_latitude(lon, lat, a_axis=6378137.0, flat=1.0/298.257223563):
    lat = np.radians(lat)
    return np.degrees(np.arctan2((1 - flat)**2*np.sin(lat), np.cos(lat)))


def writer(fmt):
    def save_grid(output, attributes, filename, data_type=None, **kwargs):
        WRITTEN.append((fmt, {k: np.ma.copy(v) for k, v in output.items()},
            attributes, pathlib.Path(filename), data_type))
        pathlib.Path(filename).write_bytes(b'grid')
    return save_grid


P26.geoid.spatial = types.SimpleNamespace(
    geocentric_latitude=geocentric_latitude, to_netCDF4=writer('netCDF4'),
    to_HDF5=writer('HDF5'))

STERE = '+proj=stere +lat_0=-90 +lat_ts=-71 +lon_0=30 +datum=WGS84'
LAEA = '+proj=laea +lat_0=10 +lon_0=-40 +ellps=GRS80'
FLAT = '+proj=longlat +a=6378000 +b=6256000 +no_defs'
# projection, west, east, south, north
REGIONS = [('4326', -180, 180, -90, 90), ('4326', 0, 360, -60, 60), ('4326',
    -30, 60, 0, 90), ('3031', -3e6, 3e6, -3e6, 3e6), ('3413', -4e6, 2e6, -1e6,
    3e6), (STERE, 0, 4e6, -2e6, 2e6), (LAEA, -5e6, 5e6, -3e6, 5e6), (FLAT,
    -180, 180, -90, 90)]
# number of columns and rows
SHAPES = [(8, 6), (5, 5), (1, 4), (6, 1), (2, 3)]


def cases(tier):
    base = dict(fmt='netCDF4', span=(13, 15), lmax=5, mmax=None, lmin=None,
        units=1, love=0, frame='CF', radius=0, destripe=False, region=0,
        shape=(8, 6), gia=None, mean=None, remove=None, mask=False,
        prefix=None, one=False)

    def case(**kw):
        d = dict(base)
        d.update(kw)
        return d
    for region, shape, fmt, radius in itertools.product(range(len(REGIONS)),
            SHAPES, ('netCDF4', 'HDF5'), (0, 400)):
        yield case(region=region, shape=shape, fmt=fmt, radius=radius)
    # the same spacing in both directions
    for region, n in itertools.product(range(len(REGIONS)), (2, 3, 4, 6)):
        p, w, e, s, t = REGIONS[region]
        d = min(e - w, t - s)/n
        if (max(e - w, t - s)/d) % 1:
            continue
        yield case(region=region, shape=(round((e - w)/d), round((t - s)/d)),
            one=True)
    for span, lmax, mmax, lmin, region in itertools.product(((13, 17), (15,
            15), (12, 30)), (5, 3, 14), (None, 2, 0), (None, 0, 2), (0, 3)):
        if tier == 'thorough' or lmax != 14 or lmin is None:
            yield case(span=span, lmax=lmax, mmax=mmax, lmin=lmin,
                region=region, shape=(6, 4))
    for units, love, frame, radius, destripe, region in itertools.product(
            range(1, 6), range(5), ('CF', 'CM', 'CE'), (0, 1500.5), (False,
            True), (0, 6)):
        # the mask is evaluated in units of mass
        if frame == 'CM':
            continue
        if tier == 'thorough' or love in (0, 2) and not region:
            yield case(units=units, love=love, frame=frame, radius=radius,
                destripe=destripe, lmax=11 if destripe else 5, shape=(4, 3),
                span=(13, 14), region=region)
    kinds = (None, 'IJ05-R2', 'Caron', 'netCDF4')
    means = (None, 'ascii', 'netCDF4', 'gfc')
    removes = (None, ('netCDF4',), ('index-ascii',), ('netCDF4', 'HDF5'),
        ('index-HDF5', 'index-HDF5'), ('ascii',))
    for gia, mean, remove, mask, destripe, mmax in itertools.product(kinds,
            means, removes, (False, True), (False, True), (None, 4)):
        n = (gia is not None) + (mean is not None) + (remove is not None)
        if (n == 1 or (tier == 'thorough' and n and not (destripe and mmax))
                or (n == 3 and not destripe and mask and mmax)) and not (mask
                and not remove):
            yield case(gia=gia, mean=mean, remove=remove, mask=mask,
                destripe=destripe, mmax=mmax, lmax=11 if destripe else 6,
                shape=(4, 3), fmt='HDF5' if mmax else 'netCDF4')
    for gia in (None, 'IJ05-R2'):
        yield case(prefix='other_', gia=gia, mmax=3)


def field(c, s, lon, lat):
    """series at scattered points"""
    out = np.zeros(lon.size)
    l = c.shape[0] - 1
    for k, (x, y) in enumerate(zip(lon.ravel(), lat.ravel())):
        p = ref.plm_fast(l, np.array([np.sin(np.radians(y))]))[:, :c.shape[1],
            0]
        m = np.radians(x)*np.arange(c.shape[1])
        out[k] = (p*(c*np.cos(m) + s*np.sin(m))).sum()
    return out.reshape(lon.shape)


def projection(name):
    return pyproj.CRS.from_epsg(int(name)) if name.isdigit() else \
        pyproj.CRS.from_string(name)


NPART = 16


@CHECK.block('rasters', params=lambda tier: [(k, tier) for k in range(NPART)],
    timeout=900)
def rasters(rec, arg):
    """every cell of every month"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    ar = Archive(tmp/'data', [13, 14, 15, 17, 30, 33])
    write_mask(tmp/'mask.nc', CODES, MLON, MLAT)
    land = {}
    for n, c in enumerate(itertools.islice(cases(tier), part, None, NPART)):
        key = ':'.join(f'{v}' for v in c.values())
        rec.case(key)
        if c['remove'] == ('ascii',):
            c['span'] = (15, 15)
            c['mean'] = c['mean'] or 'netCDF4'
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        out = tmp/f'out{n}'/'new'
        proj, w, e, s, t = REGIONS[c['region']]
        nx, ny = c['shape']
        dx, dy = (e - w)/nx, (t - s)/ny
        with rec.guard(key):
            argv = ar.options(*c['span']) + ['-O', out, '-l', L, '-n',
                c['love'], '--reference', c['frame'], '-U', c['units'], '-F',
                c['fmt'], '--projection', proj, '--bounds', w, e, s, t,
                '--spacing', dx] + ([] if c['one'] else [dy])
            if c['mmax'] is not None:
                argv += ['-m', M]
            if c['lmin'] is not None:
                argv += ['--lmin', c['lmin']]
            if c['radius']:
                argv += ['-R', c['radius']]
            if c['destripe']:
                argv += ['-d']
            if c['prefix']:
                argv += ['-P', c['prefix']]
            have = prepare(tmp, ar, c, n, argv)
            if '--mask' not in argv:
                argv += ['--mask', tmp/'mask.nc']
            WRITTEN.clear()
            before = prog.listing(out)
            err = prog.run('grace_raster_grids', *argv)
            rec.eq(prog.said(before, out), [], f'{key}:said')
            cl, sl, tt, months, _, _ = anomalies(ar, c, have)
            fac = degree_factor(c['units'], L, c['love'], c['frame'],
                c['radius'])
            fac[:1 if c['lmin'] is None else c['lmin']] = 0
            title = have['gia'][0] if c['gia'] else ''
            got = sorted(p.name for p in out.glob('*'))
            tail = (f'{UNITS[c["units"]]}_L{L}{tail_of(c, L, M)}_'
                f'{c["span"][0]:03d}-{c["span"][1]:03d}.{SUFFIX[c["fmt"]]}')
            if c['prefix']:
                name = c['prefix'] + tail
            elif title is not None:
                name = f'CSR_RL06_GSM{title}_{tail}'
            else:       # reformatted rates carry a title of their own
                name = got[0].split('_cmwe')[0] + '_' + tail if got else ''
            if not rec.eq(got, [name], key + ':files ' + err[-300:]):
                continue
            rec.eq(len(WRITTEN), 1, key + ':written')
            fmt, o, att, path, kind = WRITTEN[0]
            rec.eq((fmt, path, kind), (c['fmt'], out/name, 'grid'), key +
                ':call')
            x, y = w + dx*(np.arange(nx) + 0.5), s + dy*(np.arange(ny) + 0.5)
            if not (rec.close(o['x'], x, key + ':x', rtol=1e-12, atol=1e-9*dx)
                    and rec.close(o['y'], y, key + ':y', rtol=1e-12,
                    atol=1e-9*dy)):
                continue
            rec.close(o['time'], tt, key + ':time', rtol=0, atol=1e-6)
            rec.eq(att['z']['units'], gt.units.get_attributes(UNITS[c[
                'units']])[0], key + ':units')
            crs = projection(proj)
            gx, gy = np.meshgrid(x, y)
            lon, lat = pyproj.Transformer.from_crs(crs,
                pyproj.CRS.from_epsg(4326), always_xy=True).transform(gx, gy)
            lat = geocentric_latitude(lon, lat, flat=1/
                crs.ellipsoid.inverse_flattening)
            k = (L, M, c['love'], c['frame'])
            if k not in land:
                land[k] = expect((CODES == 1) | (CODES == 2) | (CODES == 3),
                    MLON, MLAT, L, M, love_of(L, c['love'], c['frame']))[0][0]
            f = degree_factor(1, L, c['love'], c['frame'], 2*c['radius'])
            mask = field(land[k][0]*f[:, None], land[k][1]*f[:, None], lon,
                lat)
            sure = abs(mask - 0.025) > 1e-7
            inside = mask > 0.025
            z = np.ma.array(o['z'])
            if not rec.eq(z.shape, (ny, nx, len(months)), key + ':shape'):
                continue
            zm = np.ma.getmaskarray(z)
            rec.check((zm == ~inside[..., None])[sure].all(), key + ':mask')
            rec.check((z.data[zm] == -9999.0).all(), key + ':fill')
            for i, g in enumerate(months):
                want = field(cl[..., i]*fac[:, None], sl[..., i]*fac[:, None],
                    lon, lat)
                use = inside & sure
                d = abs(z.data[..., i] - want)[use]
                rec.check((d <= 2e-9*max(abs(want).max(), 1e-12)).all(),
                    f'{key}:{g}', lambda: f'{d.max()} of {abs(want).max()}')
    rec.sample({'rasters': part})
