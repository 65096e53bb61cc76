"""P39: the conversion programs evaluate and analyse the requested field"""
import itertools
import pathlib
import numpy as np
import netCDF4
import h5py
import mc
import ref
import prog
import hmodel
import gravity_toolkit as gt
from checks.P15 import quadrature
from checks.P25 import expect, write as write_mask

CHECK = mc.Check('P39', level='bounded_exhaustive',
    rule='distinct (program, options, file format, truncation, dates) runs; '
    'every output cell or coefficient is compared with the defining sums',
    assumptions=['ascii files hold a single field', 'the destriping filter is '
        'that of its own property', 'rows of an ascii grid hold at least one '
        'valid cell'])

SUFFIX = {'ascii': 'txt', 'netCDF4': 'nc', 'HDF5': 'H5'}
UNITS = {0: 'norm', 1: 'cmwe', 2: 'mmGH', 3: 'mmCU', 4: 'microGal', 5: 'mbar'}


def sh(lmax, mmax, nt, seed=0, scale=1e-10):
    """coefficients of every degree and order with dates"""
    md = hmodel.make(lmax, mmax, nt, seed)
    l = np.arange(lmax + 1.0).reshape((-1, 1) + (1,)*(md.c.ndim - 2))
    md.c, md.s = md.c*scale/(1 + l), md.s*scale/(1 + l)
    return md


def save(md, path, fmt, date):
    h = gt.harmonics(lmax=md.lmax, mmax=md.mmax)
    h.clm, h.slm = md.c.copy(), md.s.copy()
    h.time, h.month = md.t, md.mo
    h.to_file(path, format=fmt, date=date)


def grid_of(interval, spacing, bounds):
    dx, dy = spacing if len(spacing) == 2 else spacing*2
    if interval == 1:
        return (dx*np.arange(round(360/dx) + 1), 90 -
            dy*np.arange(round(180/dy) + 1))
    w, e, s, n = (0, 360, -90, 90) if interval == 2 else bounds
    return (w + dx*(np.arange(round((e - w)/dx)) + 0.5), n - dy*(np.arange(
        round((n - s)/dy)) + 0.5))


def load_grid(path, fmt, lon, lat, date):
    """values of a grid file: (field[lat, lon, date], dates)"""
    if fmt == 'ascii':
        rows = np.loadtxt(path, ndmin=2)
        out = np.full((len(lat), len(lon), 1), np.nan)
        for r in rows:
            j = int(np.argmin(abs(lon - r[0])))
            i = int(np.argmin(abs(lat - r[1])))
            assert abs(lon[j] - r[0]) < 1e-4 and abs(lat[i] - r[1]) < 1e-4
            out[i, j, 0] = r[2]
        assert rows.shape[1] == (4 if date else 3)
        return out, rows[:1, 3] if date else None
    with (netCDF4.Dataset(path) if fmt == 'netCDF4' else h5py.File(path,
            'r')) as f:
        v = f.variables if fmt == 'netCDF4' else f
        z, x, y = (np.array(v[n][...]) for n in ('z', 'lon', 'lat'))
        t = np.atleast_1d(v['time'][...]) if date else None
    assert np.allclose(x, lon, rtol=0, atol=1e-9), (x, lon)
    assert np.allclose(y, lat, rtol=0, atol=1e-9), (y, lat)
    assert z.shape[:2] == (len(lat), len(lon)), z.shape
    return z.reshape(len(lat), len(lon), -1), t


def combine_cases(tier):
    """options of the synthesis program: full products of related options"""
    base = dict(fmt='netCDF4', date=True, nt=2, F=(6, 6), lmax=6, mmax=None,
        units=1, love=0, frame='CF', radius=0, destripe=False, interval=2,
        spacing=(60.0, 45.0), bounds=None, mask=False, mean=None)

    def case(**kw):
        d = dict(base)
        d.update(kw)
        return d
    # formats, dates and truncation
    for fmt, (date, nt), lmax, mmax, F in itertools.product(SUFFIX, ((True, 1),
            (True, 3), (False, None)), (6, 4, 1, 0), (None, 2, 0), ((6, 6), (6,
            3), (9, 9))):
        if fmt == 'ascii' and nt == 3 or mmax is not None and mmax > lmax:
            continue
        yield case(fmt=fmt, date=date, nt=nt, lmax=lmax, mmax=mmax, F=F)
    for fmt, nt, lmax in itertools.product(SUFFIX, (1, 3), (6, 3)):
        if fmt != 'ascii' or nt == 1:
            yield case(fmt='index-' + fmt, nt=nt, lmax=lmax)
    # units, Love numbers, smoothing
    for units, love, frame, radius, destripe in itertools.product(UNITS,
            range(5), ('CF', 'CM', 'CE'), (0, 300, 1500.5), (False, True)):
        if frame == 'CM' and units in (1, 3, 5):
            continue            # no elastic loads of degree one
        if tier == 'thorough' or (love in (0, 1) and radius != 300) or \
                (units, radius) == (1, 300):
            yield case(units=units, love=love, frame=frame, radius=radius,
                destripe=destripe, lmax=12 if destripe else 5, F=(12, 12),
                spacing=(90.0,))
    # grids
    for interval, spacing, bounds in itertools.product((1, 2, 3), ((30.0,),
            (30.0, 15.0), (22.5,), (0.9, 60.0), (36.0, 0.45)), ((0.0, 360.0,
            -90.0, 90.0), (-180.0, 180.0, -90.0, 90.0), (-180.0, -36.0, 0.0,
            60.0), (90.0, 198.0, -60.0, -30.0))):
        if interval != 3 and bounds[1:] != (360.0, -90.0, 90.0):
            continue
        if interval == 3 and any(abs(v/s - round(v/s)) > 1e-9 for v, s in (((
                bounds[1] - bounds[0]), spacing[0]), ((bounds[3] - bounds[2]),
                spacing[-1]))):
            continue
        for fmt in SUFFIX:
            if interval == 3 and bounds[3] - bounds[2] == spacing[-1]:
                continue        # a single row
            yield case(interval=interval, spacing=spacing, bounds=bounds if
                interval == 3 else None, fmt=fmt, nt=1 if fmt == 'ascii' else
                2, F=(3, 3), lmax=3)
    # ocean redistribution and mean fields
    for mask, mean, fmt, mmax, nt, radius in itertools.product((False, True), (
            None, 'same', 'smaller', 'larger'), tuple(SUFFIX) + (
            'index-netCDF4', 'index-ascii', 'index-HDF5'), (None, 2), (1, 2),
            (0, 800)):
        if (mask or mean) and not (fmt.endswith('ascii') and nt == 2):
            yield case(mask=mask, mean=mean, fmt=fmt, mmax=mmax, nt=nt,
                radius=radius)
    # every combination of the processing steps
    for mask, mean, destripe, radius, units, mmax in itertools.product((False,
            True), (None, 'same'), (False, True), (0, 500), (1, 4), (None, 7)):
        yield case(mask=mask, mean=mean, destripe=destripe, radius=radius,
            units=units, mmax=mmax, lmax=10, F=(10, 10), spacing=(90.0,))


LOVES = {}


def love_of(lmax, love, frame):
    """gravitational, vertical and horizontal Love numbers"""
    if (lmax, love, frame) not in LOVES:
        LOVES[lmax, love, frame] = gt.load_love_numbers(lmax,
            LOVE_NUMBERS=love, REFERENCE=frame, FORMAT='tuple')
    return LOVES[lmax, love, frame]


@CHECK.block('combine', params=lambda tier: [(k, tier) for k in range(16)],
    timeout=900)
def combine(rec, arg):
    """harmonic files to grid files"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    codes = np.array([[1, 0, 0, 0, 1, 1, 0, 0], [0, 1, 0, 0, 0, 1, 1, 0], [0,
        2, 0, 0, 0, 0, 1, 0], [0]*8])
    mlon, mlat = 45.0*np.arange(8), np.array([67.5, 22.5, -22.5, -67.5])
    write_mask(tmp/'mask.nc', codes, mlon, mlat)
    for n, c in enumerate(itertools.islice(combine_cases(tier), part, None,
            16)):
        key = ':'.join(f'{v}' for v in c.values())
        rec.case(key)
        fmt = c['fmt'].split('-')[-1]
        md = sh(*c['F'], c['nt'], n)
        inp = tmp/f'in{n}.{SUFFIX[fmt]}'
        if c['fmt'].startswith('index'):
            names = []
            for k in range(c['nt']):
                one = hmodel.M(md.c[..., k], md.s[..., k], md.t[k], md.mo[k])
                f = tmp/f'in{n}_{k}.{SUFFIX[fmt]}'
                save(one, f, fmt, True)
                names.append(str(f))
            inp = tmp/f'index{n}.txt'
            inp.write_text('# files\n' + '\n'.join(names[::-1]) + '\n')
        elif fmt == 'ascii' and c['nt']:
            save(hmodel.M(md.c[..., 0], md.s[..., 0], md.t[0], md.mo[0]),
                inp, fmt, c['date'])
        else:
            save(md, inp, fmt, c['date'])
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        out = tmp/'new'/f'out{n}.{SUFFIX[fmt]}'
        argv = [inp, out, '-l', L, '-U', c['units'], '-n', c['love'],
            '--reference', c['frame'], '-I', c['interval'], '-F', c['fmt'],
            '-S', *c['spacing']]
        if c['mmax'] is not None:
            argv += ['-m', M]
        if c['radius']:
            argv += ['-R', c['radius']]
        if c['destripe']:
            argv += ['-d']
        if c['date']:
            argv += ['-D']
        if c['bounds']:
            argv += ['-B', *c['bounds']]
        if c['mask']:
            argv += ['--redistribute-mass', '--mask', tmp/'mask.nc']
        mean = None
        if c['mean']:
            k = {'same': 0, 'smaller': -2, 'larger': 3}[c['mean']]
            mean = sh(c['F'][0] + k, c['F'][1] + k, None, 7)
            save(mean, tmp/f'mean{n}.{SUFFIX[fmt]}', fmt, False)
            argv += ['--mean', tmp/f'mean{n}.{SUFFIX[fmt]}']
        err = ''
        with rec.guard(key):
            err = prog.run('combine_harmonics', *argv)
            lon, lat = grid_of(c['interval'], c['spacing'], c['bounds'])
            nt = c['nt'] or 1
            full = lambda a: np.reshape(a, a.shape[:2] + (-1,))
            kl = love_of(L, c['love'], c['frame'])
            hl, kl, ll = kl
            fac = ref.unit_factor(UNITS[c['units']], L, hl, kl, ll)
            if c['radius']:
                fac = fac*ref.gauss(c['radius'], L)
            want = np.zeros((len(lat), len(lon), nt))
            for k in range(nt):
                cl, sl = np.zeros((2, L + 1, M + 1))
                a, b = min(L, c['F'][0]) + 1, min(M, c['F'][1]) + 1
                cl[:a, :b] = full(md.c)[:a, :b, k]
                sl[:a, :b] = full(md.s)[:a, :b, k]
                if mean is not None:
                    a = min(L, mean.lmax) + 1
                    b = min(M, mean.mmax) + 1
                    cl[:a, :b] -= mean.c[:a, :b]
                    sl[:a, :b] -= mean.s[:a, :b]
                if c['mask']:
                    oc, os_ = expect((codes == 1) | (codes == 2) | (codes ==
                        3), mlon, mlat, L, M, (hl, kl, ll))[0][1]
                    ratio = cl[0, 0]/oc[0, 0]
                    cl, sl = cl - ratio*oc, sl - ratio*os_
                if c['destripe']:
                    h = gt.harmonics(lmax=L, mmax=M)
                    h.clm, h.slm = cl, sl
                    h = h.destripe()
                    cl, sl = h.clm, h.slm
                want[:, :, k] = ref.synth(cl*fac[:, None], sl*fac[:, None],
                    lon, lat)
            if not out.exists():
                rec.fail(key, 'no output ' + err[-200:])
                continue
            got, t = load_grid(out, fmt, lon, lat, c['date'])
            top = abs(want).max()
            tol = 6e-5 if fmt == 'ascii' else 1e-9*top
            rec.check(got.shape == want.shape and (abs(got - want) <=
                tol + 1e-9*top).all(), key, lambda: f'{got.shape} '
                f'{np.nanmax(abs(got - want)) if got.shape == want.shape else 0} of {top}')
            if c['date']:
                rec.close(t, md.t, key + ':time', rtol=0, atol=6e-5 if fmt ==
                    'ascii' or c['fmt'] == 'index-ascii' else 1e-6)
            if fmt != 'ascii':
                u = gt.units.bycode(c['units'])
                with (netCDF4.Dataset(out) if fmt == 'netCDF4' else h5py.File(
                        out, 'r')) as f:
                    v = f['z'].units if fmt == 'netCDF4' else \
                        f['z'].attrs['units']
                rec.check(v == gt.units.get_attributes(u)[0], key + ':units')
        for f in tmp.glob(f'*{n}*.*'):
            if f.name != 'mask.nc':
                f.unlink()
    rec.sample({'combine': part})


# ------------------------------------------------------------------ analysis
def convert_cases(tier):
    base = dict(fmt='netCDF4', date=True, nt=2, lmax=4, mmax=None, units=1,
        love=0, frame='CF', interval=2, spacing=(30.0, 30.0), invalid=False,
        header=0)

    def case(**kw):
        d = dict(base)
        d.update(kw)
        return d
    for fmt, (date, nt), lmax, mmax, invalid in itertools.product(SUFFIX, ((
            True, 1), (True, 3), (False, None)), (5, 3, 1, 0), (None, 1, 0),
            (False, True)):
        if not (fmt == 'ascii' and nt == 3 or mmax is not None and mmax >
                lmax):
            yield case(fmt=fmt, date=date, nt=nt, lmax=lmax, mmax=mmax,
                invalid=invalid)
    for units, love, frame, lmax in itertools.product((1, 2, 3), range(5), (
            'CF', 'CM', 'CE'), (2, 4)):
        yield case(units=units, love=love, frame=frame, lmax=lmax)
    for interval, spacing, fmt, invalid, header in itertools.product((1, 2), ((
            30.0,), (30.0, 15.0), (22.5, 22.5), (15.0, 36.0), (0.9, 60.0),
            (60.0, 0.9)), SUFFIX, (False, True), (0, 3)):
        if fmt == 'ascii' or header == 0:
            yield case(interval=interval, spacing=spacing, fmt=fmt,
                nt=1, invalid=invalid, header=header, lmax=2)


@CHECK.block('convert', params=lambda tier: [(k, tier) for k in range(8)],
    timeout=900)
def convert(rec, arg):
    """grid files to harmonic files"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    for n, c in enumerate(itertools.islice(convert_cases(tier), part, None,
            8)):
        key = ':'.join(f'{v}' for v in c.values())
        rec.case(key)
        fmt = c['fmt']
        lon, lat = grid_of(c['interval'], c['spacing'], None)
        nt = c['nt'] or 1
        y, x, k = np.mgrid[:len(lat), :len(lon), :nt]
        field = np.round(8*np.cos(1.0 + 2.3*y + 3.7*x + 1.3*k), 2)
        bad = (x*3 + y*5 + k) % 7 == 3 if c['invalid'] else np.zeros_like(
            field, dtype=bool)
        s = gt.spatial(fill_value=-9999.0)
        s.lon, s.lat = lon, lat
        s.data, s.mask = np.where(bad, -9999.0, field), bad
        t = np.array([2003.0 + (2*q + 1)/24 for q in range(nt)])
        one = c['nt'] is None or fmt == 'ascii'
        if one:
            s.data, s.mask = s.data[:, :, 0], s.mask[:, :, 0]
        s.time, s.month = (t[0], 13) if one else (t, 13 + np.arange(nt))
        inp = tmp/f'in{n}.{SUFFIX[fmt]}'
        out = tmp/'new'/f'out{n}.{SUFFIX[fmt]}'
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        argv = [inp, out, '-l', L, '-U', c['units'], '-n', c['love'],
            '--reference', c['frame'], '-I', c['interval'], '-F', fmt, '-S',
            *c['spacing']]
        if c['mmax'] is not None:
            argv += ['-m', M]
        if c['date']:
            argv += ['-D']
        err = ''
        with rec.guard(key):
            s.to_file(inp, format=fmt, date=c['date'])
            if c['invalid'] and fmt == 'ascii' and n % 2:
                # invalid cells as fill values in the file
                with open(inp, 'a') as f:
                    for i, j in np.argwhere(bad[:, :, 0]):
                        f.write(f'{lon[j]:10.4f} {lat[i]:10.4f} -9999.0' + (
                            f' {t[0]:10.4f}\n' if c['date'] else '\n'))
                argv += ['-f', '-9999.0']
            if c['header']:
                inp.write_text('12 34 56\n'*c['header'] + inp.read_text())
                argv += ['--header', c['header']]
            err = prog.run('convert_harmonics', *argv)
            th = np.radians(90 - lat)
            w = np.sin(th)*np.radians(lon[1] - lon[0])*np.radians(lat[0] -
                lat[1])/(4*np.pi)
            hl, kl, ll = love_of(L, c['love'], c['frame'])
            E = ref.Earth
            cm = 3*(1 + kl)/(2*np.arange(L + 1) + 1)/(E.R*E.rho)
            wc, ws = np.zeros((2, L + 1, M + 1, nt))
            for q in range(nt):
                f = np.where(bad[:, :, q], 0.0, field[:, :, q])
                if c['units'] == 2:     # gigatonnes: no area weighting
                    a, b = quadrature(f, lon, lat, L, M, np.ones(len(lat))*
                        1e15/(4*np.pi*E.R**2))
                else:
                    a, b = quadrature(f, lon, lat, L, M, w*(0.1 if c['units']
                        == 3 else 1.0))
                wc[:, :, q], ws[:, :, q] = a*cm[:, None], b*cm[:, None]
            if not out.exists():
                rec.fail(key, 'no output ' + err[-200:])
                continue
            h = gt.harmonics().from_file(out, format=fmt, date=c['date'])
            h = h.expand_dims()
            top = abs(wc).max()
            rec.check(h.clm.shape == wc.shape and (abs(h.clm - wc) <=
                1e-9*top).all() and (abs(h.slm - ws) <= 1e-9*top).all(), key,
                lambda: f'{h.clm.shape} {wc.shape} {h.clm[:3, :2, 0]} '
                f'{wc[:3, :2, 0]}')
            if c['date']:
                rec.close(h.time, t, key + ':time', rtol=0, atol=6e-5 if fmt
                    == 'ascii' else 1e-6)
                rec.check(list(h.month) == list(13 + np.arange(nt)), key +
                    ':month', lambda: str(h.month))
        for f in tmp.glob(f'*{n}*.*'):
            f.unlink()
    rec.sample({'convert': part})
