"""P47: the sea level program solves every field of the file it is given"""
import itertools
import pathlib
import numpy as np
import netCDF4
import h5py
import mc
import prog
from checks import P24
from checks.P15 import regular
from checks.P25 import write as write_mask
from checks.P39 import SUFFIX, love_of, save, sh
import hmodel
import gravity_toolkit as gt

CHECK = mc.Check('P47', level='bounded_exhaustive',
    rule='distinct (format, dates, truncation, mask, Earth options, iteration '
    'limit) runs of the programs; every ocean cell written is compared with '
    'the defining iteration on the fields of the input file',
    assumptions=['ascii files hold a single field',
        'loads are not given in the frame of the whole system, where degree '
        'one has no potential',
        'the iteration may stop once successive solutions agree to the '
        'published tolerance'])


def mask_codes(n):
    """mask codes: 0 ocean, 1 land, 2 lake, 3 small island, 4 ice shelf"""
    lon, lat = regular(6, 12, 0, 0, 0.0) if n < 3 else regular(6, 12, 0, 0,
        -180.0)
    y, x = np.mgrid[:6, :12]
    if n % 3 == 0:
        codes = (x*5 + y*3 + x*y) % 5
    elif n % 3 == 1:
        codes = np.where((x > 2) & (x < 7) & (y > 1), 1, 0) + np.where((x ==
            4) & (y == 3), 3, 0)
    else:
        codes = np.where(y == 0, 4, 0) + np.where(y == 5, 2, 0)
    return lon, lat, codes


def cases(tier):
    base = dict(fmt='netCDF4', nt=2, date=True, F=(4, 4), L=4, mask=0, love=0,
        frame='CF', body=0, fluid=0, its=None, polar=False)

    def case(**kw):
        d = dict(base)
        d.update(kw)
        return d
    for fmt, (nt, date), F, L, mask in itertools.product(SUFFIX, ((None,
            False), (1, True), (2, True), (4, True)), ((4, 4), (6, 6), (6, 3),
            (2, 2)), (4, 2, 1), range(6)):
        if fmt == 'ascii' and (nt or 1) > 1:
            continue
        if tier == 'quick' and mask not in (0, 1, 3) or nt == 4 and F != (4,
                4):
            continue
        yield case(fmt=fmt, nt=nt, date=date, F=F, L=L, mask=mask)
    for love, frame, body, fl, its, polar in itertools.product(range(5), (
            'CF', 'CE'), (0, 1), range(4), (None, 1, 3, 30), (False,
            True)):
        if tier == 'quick' and (love and (body or fl) or (not polar and (body
                or fl)) or its == 3 and love):
            continue
        yield case(love=love, frame=frame, body=body, fluid=fl, its=its,
            polar=polar, mask=1 + 2*polar, L=3, nt=2)


def read(path, fmt, lon, lat, date):
    """(values, filled cells, dates) of a file of sea level"""
    shape = (len(lat), len(lon))
    if fmt == 'ascii':
        rows = np.loadtxt(path, ndmin=2)
        assert rows.shape[1] == (4 if date else 3), rows.shape
        out = np.full(shape + (1,), np.nan)
        for r in rows:
            j, i = int(np.argmin(abs(lon - r[0]))), int(np.argmin(abs(lat -
                r[1])))
            assert abs(lon[j] - r[0]) < 1e-4 and abs(lat[i] - r[1]) < 1e-4
            out[i, j, 0] = r[2]
        return out, np.isnan(out), rows[:1, 3] if date else None
    if fmt == 'netCDF4':
        with netCDF4.Dataset(path) as f:
            f.set_auto_mask(False)
            v = {n: f[n][...] for n in f.variables}
            u = f['z'].units
            fill = getattr(f['z'], '_FillValue', None)
    else:
        with h5py.File(path, 'r') as f:
            v = {n: f[n][...] for n in f}
            u = f['z'].attrs['units']
            fill = f['z'].attrs.get('_FillValue')
    assert u == 'centimeters', u
    assert np.allclose(v['lon'], lon, rtol=0, atol=1e-9)
    assert np.allclose(v['lat'], lat, rtol=0, atol=1e-9)
    z = np.asarray(v['z']).reshape(shape + (-1,))
    gone = np.zeros(z.shape, bool) if fill is None else z == fill
    return z, gone, np.atleast_1d(v['time']) if date else None


@CHECK.block('programs', params=lambda tier: [(k, tier) for k in range(16)],
    timeout=900)
def programs(rec, arg):
    """harmonic loads to files of relative sea level"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    masks = [mask_codes(n) for n in range(6)]
    for n, (lon, lat, codes) in enumerate(masks):
        write_mask(tmp/f'mask{n}.nc', codes, lon, lat)
    solvers = {}
    for n, c in enumerate(itertools.islice(cases(tier), part, None, 16)):
        key = ':'.join(f'{v}' for v in c.values())
        rec.case(key)
        md = sh(*c['F'], c['nt'], n)
        inp = tmp/f'in{n}.{SUFFIX[c["fmt"]]}'
        if c['fmt'] == 'ascii' and c['nt']:
            save(hmodel.M(md.c[..., 0], md.s[..., 0], md.t[0], md.mo[0]),
                inp, c['fmt'], True)
        else:
            save(md, inp, c['fmt'], c['date'])
        out = tmp/f'out{n}.{SUFFIX[c["fmt"]]}'
        L = c['L']
        lon, lat, codes = masks[c['mask']]
        argv = [inp, out, '-l', L, '--mask', tmp/f'mask{c["mask"]}.nc', '-n',
            c['love'], '-b', c['body'], '-f', c['fluid'], '--reference',
            c['frame'], '-F', c['fmt']]
        if c['date']:
            argv.append('-D')
        if c['polar']:
            argv.append('--polar-feedback')
        if c['its']:
            argv += ['-I', c['its']]
        err = ''
        with rec.guard(key):
            with np.errstate(all='ignore'):
                err = prog.run('run_sea_level_equation', *argv)
            z, gone, dates = read(out, c['fmt'], lon, lat, c['date'])
            nt = c['nt'] or 1
            rec.eq(z.shape[2], nt, key + ':dates')
            if c['date']:
                rec.close(dates, np.atleast_1d(md.t), key + ':time',
                    rtol=0, atol=1e-4)
            land = ((codes >= 1) & (codes <= 3))
            if (c['mask'], L) not in solvers:
                solvers[c['mask'], L] = P24.Solver(lon, lat, L)
            S = solvers[c['mask'], L]
            love = love_of(L, c['love'], c['frame'])
            lim = c['its'] or 6
            for k in range(nt):
                cl, sl = np.zeros((2, L + 1, L + 1))
                a, b = min(L, c['F'][0]) + 1, min(L, c['F'][1]) + 1
                cl[:a, :b] = md.c.reshape(md.c.shape[:2] + (-1,))[:a, :b, k]
                sl[:a, :b] = md.s.reshape(md.s.shape[:2] + (-1,))[:a, :b, k]
                want, mass = S.iterates(cl, sl, land.T.astype(float), love,
                    c['polar'], P24.K2B[c['body']], P24.fluid(c['fluid']), lim)
                stop = next((i for i, x in enumerate(want) if not x[1] >
                    1e-4), lim - 1)
                ok = [i for i in range(lim) if i >= stop or abs(want[i][1] -
                    1e-4) < 1e-9]
                got = z[:, :, k]
                g = np.where(gone[:, :, k] | land, 0, got)
                scale = max(np.abs(want[stop][0]).max(), abs(mass), 1e-9)
                tol = 1e-9 if c['fmt'] != 'ascii' else 6e-5/scale
                e = [np.abs(g - want[i][0].T).max()/scale for i in ok]
                rec.check(min(e) < tol, f'{key}:{k}:solution',
                    lambda: f'{min(e)}: {g} {want[stop][0].T}')
                # land is left out of the file or zero
                rec.check(np.all((got == 0)[land] | gone[:, :, k][land]),
                    f'{key}:{k}:land')
                rec.check(not np.any(gone[:, :, k] & ~land) or c['fmt'] ==
                    'ascii', f'{key}:{k}:ocean')
        rec.check(not err, key + ':log', lambda: err[-600:])
        for f in (inp, out):
            f.unlink(missing_ok=True)
    rec.sample({'part': part})


@CHECK.block('resolution', params=lambda tier: [tier])
def resolution(rec, tier):
    """shortest wavelengths of a truncation"""
    degrees = list(range(1, 361 if tier == 'quick' else 2200))
    for radius, cap in itertools.product((None, 6371.0008, 6378.1366, 1737.4,
            1.0), (False, True)):
        key = f'{radius}:{cap}'
        rec.case(key)
        argv = ['-l', *degrees] + (['-R', radius] if radius else []) + (['-C']
            if cap else [])
        with rec.guard(key):
            err = prog.run('calc_harmonic_resolution', *argv)
            rec.check(not err, key + ':log', err)
            rows = [r.split() for r in prog.OUTPUT[0].splitlines()]
            rec.eq([int(r[0].rstrip(':')) for r in rows], degrees,
                key + ':degrees')
            R = radius or 6371.0008
            l = np.array(degrees, dtype=float)
            want = 4*R*np.arcsin(1/(l + 1)) if cap else np.pi*R/l
            rec.close([float(r[1]) for r in rows], want, key + ':values',
                rtol=0, atol=5.1e-5)
            rec.eq({r[2] for r in rows}, {'km'}, key + ':units')
    rec.sample({'degrees': len(degrees)})
