"""P43: the mascon programs solve the stated least squares problem"""
import itertools
import pathlib
import numpy as np
import mc
import ref
import prog
from checks import P26, P28, P29    # stand-in of the geoid package first
import gravity_toolkit as gt
from gravity_toolkit.grace_input_months import grace_input_months
from checks.P25 import write as write_mask
from checks.P39 import SUFFIX, load_grid
from checks.P41 import (Archive, CODES, FLAGS, MLAT, MLON, PICKS, anomalies,
    TEN, degree_factor, deltas, map_grid, ocean, order_of, prepare, ten_days,
    trim)

CHECK = mc.Check('P43', level='bounded_exhaustive',
    rule='distinct (program, mascons, truncation, fit, solver, corrections, '
    'format) runs; every mass, error, area, kernel coefficient and grid cell '
    'is compared with the pseudo-inverse of the defining problem',
    assumptions=['mascon files reach the degree and order of the solution',
        'mascons have different names and a mass of their own',
        'reconstructed fields are those of the months of the solution',
        'series of the mascon program span at least 13 months',
        'the "inv" solver is used with as many mascons as harmonics'])

F = 12
AREA = 4*np.pi*ref.Earth.R**2         # cm^2
NAMES = ('basin_a_L12', 'Mas_02', 'x9_L14M6', 'GRIS-n_l', 'EAIS_L3_b')
PLAIN = ('BASIN_A', 'MAS_02', 'X9', 'GRIS-N_L', 'EAIS_B')


def mascon(k, n=F):
    """coefficients of a mascon of one cm of water"""
    l, m = np.mgrid[:n + 1, :n + 1]
    low = m <= l
    c = 2e-12*np.cos(0.4 + 2.1*k + 1.7*l + (2.9 + 0.3*k)*m)/(1 + 0.3*l)*low
    s = 2e-12*np.sin(1.3 + 1.9*k + 0.9*l + (1.1 + 0.7*k)*m)/(1 + 0.3*l)*low*(
        m > 0)
    c[0, 0] = (1 + 0.4*k)*1e-12
    q = np.vectorize(lambda x: float(f'{x:.12e}'))
    return q(c), q(s)


def put_mascons(tmp, fmt, n, tag=''):
    """files of the mascons and their index (with comments)"""
    lines = ['# mascons', '']
    d = tmp/f'mascons{tag}'
    d.mkdir(exist_ok=True)
    for k in range(n):
        h = gt.harmonics(lmax=F, mmax=F)
        h.clm, h.slm = mascon(k)
        f = d/f'{NAMES[k]}.{SUFFIX[fmt]}'
        h.to_file(f, format=fmt, date=False)
        lines += [str(f), f'# {f}', '%' + str(f), '']
    path = d/'index.txt'
    path.write_text('\n'.join(lines) + '\n')
    return path


def solution(c, n):
    """(area [cm^2], sensitivity [mascon, coefficient], l, m, cs)"""
    L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
    mass = degree_factor(1, L, c['love'], c['frame'], 0)
    fac = degree_factor(1, L, c['love'], c['frame'], c['radius'])
    if c['fit'] == 2:
        fac = fac/mass
    idx = [(cs, l, m) for cs in (0, 1) for l in range(c['lmin'], L + 1) for m
        in range(cs, min(l, M) + 1)]
    cols, area = [], []
    for k in range(n):
        h = [trim(x, L, M) for x in mascon(k)]
        area.append(AREA*h[0][0, 0]*degree_factor(1, L, c['love'],
            c['frame'], 0)[0])
        if c['ocean']:
            o = ocean(L, M, c['love'], c['frame'])
            r = h[0][0, 0]/o[0][0, 0]
            h = [h[0] - r*o[0], h[1] - r*o[1]]
        cols.append([h[cs][l, m]*fac[l] for cs, l, m in idx])
    A = np.array(cols).T
    w = np.array([fac[l] for _, l, _ in idx])
    s = abs(A).max()
    kern = np.linalg.pinv(A/s)/s*w
    return np.array(area), kern*np.array(area)[:, None], idx, \
        np.linalg.cond(A/s)


BASE = dict(n=3, lmax=4, mmax=None, lmin=1, love=0, frame='CF', radius=0,
    fit=1, solver='lstsq', ocean=False, fmt='netCDF4')


def case(**kw):
    d = dict(BASE)
    d.update(kw)
    return d


def kernels(tier):
    """shared options of the solutions"""
    solvers = ('lstsq', 'gelsd', 'gelsy', 'gelss')
    for n, (lmax, mmax), lmin, fit, solver in itertools.product((1, 2, 5), ((
            4, None), (4, 2), (3, 0), (1, None), (12, None), (6, 6)), (0, 1,
            2, 3), (1, 2), solvers):
        if lmin <= lmax and (tier == 'thorough' or solver == 'lstsq' or n ==
                2):
            yield case(n=n, lmax=lmax, mmax=mmax, lmin=lmin, fit=fit,
                solver=solver)
    for (lmax, mmax, lmin, n), fit in itertools.product(((1, None, 1, 3), (2,
            0, 0, 3), (4, 0, 1, 4), (3, 1, 3, 3), (2, 2, 2, 5)), (1, 2)):
        yield case(lmax=lmax, mmax=mmax, lmin=lmin, n=n, fit=fit,
            solver='inv')
    for love, frame, radius, fit, oc in itertools.product(range(5), ('CF',
            'CM', 'CE'), (0, 300, 1500.5), (1, 2), (False, True)):
        lmin = 2 if frame == 'CM' else 1
        if frame != 'CM' or not oc:
            yield case(love=love, frame=frame, radius=radius, fit=fit,
                ocean=oc, lmin=lmin)


def shared(c, index):
    argv = ['-l', c['lmax'], '--lmin', c['lmin'], '-n', c['love'],
        '--reference', c['frame'], '-F', c['fmt'], '--mascon-file', index,
        '--fit-method', c['fit'], '-s', c['solver']]
    if c['mmax'] is not None:
        argv += ['-m', c['mmax']]
    if c['radius']:
        argv += ['-R', c['radius']]
    return argv


def name_of(c):
    M = c['lmax'] if c['mmax'] is None else c['mmax']
    return f'_L{c["lmax"]}{order_of(c["lmax"], M)}' + (
        f'_r{c["radius"]:.0f}km' if c['radius'] else '')


def key_of(c, base=BASE):
    return ':'.join(f'{k}={v}' for k, v in c.items() if base.get(k) != v) or \
        'base'


NPART = 8


def sensitivity_cases(tier):
    for c in kernels(tier):
        yield c, None
    for fmt, (interval, spacing, bounds), mmax, oc in itertools.product(
            SUFFIX, ((1, (60.0,), None), (1, (45.0, 30.0), None), (2, (60.0,),
            None), (2, (45.0, 90.0), None), (3, (30.0, 20.0), (-60.0, 60.0,
            0.0, 60.0)), (3, (12.0,), (150.0, 210.0, -60.0, 0.0))), (None, 2),
            (False, True)):
        yield case(fmt=fmt, mmax=mmax, ocean=oc), (interval, spacing, bounds)
    for fmt, fit, lmin in itertools.product(SUFFIX, (1, 2), (0, 2)):
        yield case(fmt=fmt, fit=fit, lmin=lmin), (2, (90.0,), None)


@CHECK.block('sensitivity', params=lambda t: [(t, i) for i in range(NPART)],
    timeout=800)
def sensitivity(rec, arg):
    tier, part = arg
    tmp = pathlib.Path(rec.mkdir())
    write_mask(tmp/'mask.nc', CODES, MLON, MLAT)
    for q, (c, grid) in enumerate(itertools.islice(sensitivity_cases(tier),
            part, None, NPART)):
        key = key_of(c) + (f':{grid}' if grid else '')
        rec.case(key)
        out = tmp/f'out{q}'
        L = c['lmax']
        with rec.guard(key):
            index = put_mascons(tmp, c['fmt'], c['n'], q)
            argv = shared(c, index) + ['-O', out]
            if c['ocean']:
                argv += ['--redistribute-mascons', '--mask', tmp/'mask.nc']
            if grid:
                argv += ['-o', '-S', *grid[1], '-I', grid[0]]
                argv += ['-B', *grid[2]] if grid[2] else []
            before = prog.listing(out)
            err = prog.run('calc_sensitivity_kernel', *argv)
            rec.eq(prog.said(before, out), [], f'{key}:said')
            area, kern, idx, cond = solution(c, c['n'])
            end = f'{"_OCN"*c["ocean"]}{name_of(c)}.{SUFFIX[c["fmt"]]}'
            names = [f'{p}_SKERNEL_CLM{end}' for p in PLAIN[:c['n']]]
            more = [f'{p}_SKERNEL{end}' for p in PLAIN[:c['n']]] if grid else \
                []
            if not rec.eq(sorted(p.name for p in out.glob('*')), sorted(names
                    + more), key + ':files ' + err[-300:]):
                continue
            mass = degree_factor(1, L, c['love'], c['frame'], 0)
            tol = dict(rtol=0, atol=(6e-5 if c['fmt'] == 'ascii' else 0))
            for k, name in enumerate(names):
                h = gt.harmonics().from_file(out/name, format=c['fmt'],
                    date=False)
                want = np.zeros((2, L + 1, L + 1))
                for v, (cs, l, m) in zip(kern[k], idx):
                    want[cs, l, m] = v/(mass[l]*AREA)
                got = np.array([trim(h.clm, L, L), trim(h.slm, L, L)])
                if c['fit'] == 2:
                    # coefficients of the geoid or of the mass
                    alt = want*np.where(np.isfinite(mass), mass,
                        0)[:, None]*AREA
                    if abs(got).max() > 1e3*abs(want).max():
                        want = alt
                top = abs(want).max()
                rec.close(got, want, f'{key}:{k}', rtol=0,
                    atol=(1e-11*cond**2 + 1e-11)*top)
                if grid:
                    lon, lat = map_grid(*grid)
                    g, _ = load_grid(out/more[k], c['fmt'], lon, lat, False)
                    w = ref.synth(want[0], want[1], lon, lat)
                    rec.close(g[..., 0], w, f'{key}:{k}:grid', rtol=0,
                        atol=tol['atol'] + 1e-9*cond*abs(w).max())
        for f in out.glob('*'):
            f.unlink()
    rec.sample({'sensitivity': key})


# ------------------------------------------------------------------ series
MONTHS = [13, 14, 15, 17, 18, 19, 20, 21, 22, 24, 25, 26, 27, 28, 29, 30, 32,
    33]


def series_cases(tier):
    base = dict(span=(13, 30), destripe=False, gia=None, mean=None,
        remove=None, mask=False, form=None, again=False)

    def one(**kw):
        d = dict(BASE, **base)
        d.update(kw)
        return d
    for i, c in enumerate(kernels(tier)):
        if c['lmax'] <= 6 and (tier == 'thorough' or i % 3 == 0):
            yield one(**c)
    for fmt, form, span, mmax in itertools.product(SUFFIX, SUFFIX, ((13, 30),
            (13, 27), (14, 33)), (None, 2)):
        yield one(fmt=fmt, form=form, span=span, mmax=mmax, again=True)
    for lmax, mmax, oc in ((12, None, False), (11, 5, True)):
        yield one(lmax=lmax, mmax=mmax, destripe=True, ocean=oc, again=True)
    for gia, mean, remove, mask, oc, mmax in itertools.product((None,
            'IJ05-R2', 'ICE6G', 'Caron', 'netCDF4'), (None, 'ascii',
            'netCDF4', 'HDF5', 'gfc'), (None, ('netCDF4',), ('index-ascii',
            'HDF5'), ('index-netCDF4', 'index-netCDF4')), (False, True), (
            False, True), (None, 2)):
        n = (gia is not None) + (mean is not None) + (remove is not None)
        if mask and not remove or n == 0:
            continue
        if tier == 'thorough' or n == 1 or (n == 3 and mmax and (mask or
                oc)):
            yield one(gia=gia, mean=mean, remove=remove, mask=mask, ocean=oc,
                mmax=mmax, lmax=3)
    yield one(destripe=True, lmax=12, gia='IJ05-R2', remove=('netCDF4',),
        mask=True)
    # ten day solutions: twice the window
    for ten, span, lmax, fmt in itertools.product(('RL01', 'RL02'), ((1, 45),
            (3, 44)), (2, 3), SUFFIX):
        yield one(ten=ten, span=span, lmax=lmax, fmt=fmt, again=True)


def read_series(path):
    return np.atleast_2d(np.loadtxt(path))


@CHECK.block('series', params=lambda t: [(t, i) for i in range(2*NPART)],
    timeout=800)
def series(rec, arg):
    """masses, errors and areas of the mascons, and their reconstruction"""
    tier, part = arg
    tmp = pathlib.Path(rec.mkdir())
    write_mask(tmp/'mask.nc', CODES, MLON, MLAT)
    monthly = Archive(tmp/'data', MONTHS)
    others = {}
    for q, c in enumerate(itertools.islice(series_cases(tier), part, None,
            2*NPART)):
        ten = c.pop('ten', None)
        if ten and ten not in others:
            others[ten] = ten_days(tmp/'ten', ten, TEN)
        ar = others[ten] if ten else monthly
        key = key_of(c) + (f':{ten}' if ten else '')
        rec.case(key)
        out = tmp/f'out{q}'
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        n = c['n']
        with rec.guard(key):
            form = c['form'] or c['fmt']
            index = put_mascons(tmp, form, n, q)
            argv = ar.options(*c['span']) + shared(c, index) + ['-O', out,
                '--mascon-format', form]
            argv += ['-d']*c['destripe']
            have = prepare(tmp, ar, c, q, argv)
            if c['ocean']:
                argv += ['--redistribute-mascons']
                argv += [] if c['mask'] else ['--mask', tmp/'mask.nc']
            cl, sl, t, ms, c0, s0 = anomalies(ar, c, have)
            d = deltas(c0, s0, t, 19 if ten else 6)
            area, kern, idx, cond = solution(c, n)
            y = np.array([(cl, sl)[cs][l, m] for cs, l, m in idx])
            e = np.array([d[cs, l, m] for cs, l, m in idx])
            want = kern @ y/1e15
            delta = np.sqrt(((kern*e)**2).sum(axis=1))/1e15
            title = have['gia'][0] if c['gia'] else ''
            oc = '_OCN'*(c['ocean'] or c['mask'])
            tail = f'{oc}{name_of(c)}{"_FL"*c["destripe"]}'
            for run in ('new', 'old')[:1 + c['again']]:
                before = prog.listing(out, ar.dir)
                err = prog.run('calc_mascon', *argv)
                rec.eq(prog.said(before, out, ar.dir), [], f'{key}:said')
                names = sorted(p.name for p in out.glob('*'))
                if title is None:   # rates with a title of their own
                    rec.eq(len(names), n, key + ':number')
                    paths = [next((x for x in names if x.startswith(p +
                        '_')), 'none') for p in PLAIN[:n]]
                else:
                    paths = [f'{p}{title.upper()}{tail}.txt' for p in
                        PLAIN[:n]]
                if not rec.eq(names, sorted(paths), f'{key}:{run}:files ' +
                        err[-300:]):
                    break
                for k, p in enumerate(paths):
                    a = read_series(out/p)
                    rec.eq(list(a[:, 0].astype(int)), ms, f'{key}:{k}:months')
                    rec.close(a[:, 1], t, f'{key}:{k}:time', rtol=0,
                        atol=6e-5)
                    tol = 1e-10 + (1e-11*cond**2 + 1e-9)*abs(want[k]).max()
                    rec.close(a[:, 2], want[k], f'{key}:{run}:{k}:mass',
                        rtol=0, atol=tol)
                    rec.close(a[:, 3], np.full(len(ms), delta[k]),
                        f'{key}:{run}:{k}:error', rtol=1e-6 + 1e-11*cond**2,
                        atol=1e-10)
                    rec.close(a[:, 4], np.full(len(ms), area[k]/1e10),
                        f'{key}:{run}:{k}:area', rtol=1e-10, atol=6e-6)
        for f in list(out.glob('*')) + list(ar.dir.glob('*DELTA*')):
            f.unlink()
    rec.sample({'series': key})


def leak_cases(tier):
    base = dict(span=(13, 30), destripe=False, gia=None, mean=None,
        remove=None, mask=False, part=1)

    def one(**kw):
        d = dict(BASE, **base)
        d.update(kw)
        return d
    for fmt, (lmax, mmax), oc, radius, gia in itertools.product(('netCDF4',
            'HDF5'), ((4, None), (4, 2), (3, 0)), (False, True), (0, 300), (
            None, 'IJ05-R2')):
        yield one(fmt=fmt, lmax=lmax, mmax=mmax, ocean=oc, radius=radius,
            gia=gia)
    for n, love, frame in itertools.product((2, 5), (0, 2, 4), ('CF', 'CE')):
        yield one(n=n, love=love, frame=frame)
    for oc in (False, True):
        yield one(destripe=True, lmax=12, ocean=oc)
        for gia in ('ICE6G', 'Caron', 'W12a', 'SM09', 'Wu10', 'AW13-ICE6G'):
            yield one(gia=gia, ocean=oc)


@CHECK.block('leakage', params=lambda t: [(t, i) for i in range(NPART)],
    timeout=800)
def leakage(rec, arg):
    """solutions are reconstructed and removed from another solution"""
    tier, part = arg
    tmp = pathlib.Path(rec.mkdir())
    write_mask(tmp/'mask.nc', CODES, MLON, MLAT)
    ar = Archive(tmp/'data', MONTHS)
    for q, c in enumerate(itertools.islice(leak_cases(tier), part, None,
            NPART)):
        key = key_of(c)
        rec.case(key)
        out = tmp/f'out{q}'
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        n = c['n']
        with rec.guard(key):
            index = put_mascons(tmp, c['fmt'], n, q)
            argv = ar.options(*c['span']) + shared(c, index) + ['-O', out,
                '--mascon-format', c['fmt']]
            argv += ['-d']*c['destripe']
            have = prepare(tmp, ar, c, q, argv)
            gia = argv[argv.index('-G'):argv.index('-G') + 4] if c['gia'] \
                else []
            oc = ['--redistribute-mascons', '--mask', tmp/'mask.nc'] if \
                c['ocean'] else []
            err = prog.run('calc_mascon', *argv, *oc)
            title = have['gia'][0].upper() if c['gia'] else ''
            tail = (f'{title}{"_OCN"*c["ocean"]}{name_of(c)}'
                f'{"_FL"*c["destripe"]}')
            paths = [out/f'{p}{tail}.txt' for p in PLAIN[:n]]
            if not rec.check(all(p.exists() for p in paths), key + ':series',
                    err[-300:]):
                continue
            data = [read_series(p) for p in paths]
            # fields of the mascons
            recon = tmp/f'recon{q}.txt'
            more = ['-l', L, '-n', c['love'], '--reference', c['frame'], '-F',
                c['fmt'], '--mascon-file', index, '-S', c['span'][0], '-E',
                c['span'][1], '-O', out, '--reconstruct-file', recon] + gia
            more += ['-m', c['mmax']] if c['mmax'] is not None else []
            more += ['-R', c['radius']] if c['radius'] else []
            more += ['-d']*c['destripe']
            err = prog.run('mascon_reconstruct', *more, *oc)
            names = [f'{p}{tail}_{c["span"][0]:03d}-{c["span"][1]:03d}.'
                f'{SUFFIX[c["fmt"]]}' for p in PLAIN[:n]]
            if not rec.check(all((out/x).exists() for x in names), key +
                    ':fields', lambda: err[-300:] + str(list(out.glob('*')))):
                continue
            rec.eq([pathlib.Path(x).expanduser() for x in
                recon.read_text().split()], [out/x for x in names], key +
                ':index')
            total = np.zeros((2, L + 1, M + 1, len(data[0])))
            o = ocean(L, M, c['love'], c['frame']) if c['ocean'] else None
            for k, x in enumerate(names):
                h = [trim(v, L, M) for v in mascon(k)]
                area = AREA*h[0][0, 0]*degree_factor(1, L, c['love'],
                    c['frame'], 0)[0]
                if o is not None:
                    r = h[0][0, 0]/o[0][0, 0]
                    h = [h[0] - r*o[0], h[1] - r*o[1]]
                w = np.array(h)[..., None]*(1e15*data[k][:, 2]/area)
                f = gt.harmonics().from_file(out/x, format=c['fmt'])
                top = abs(w).max()
                rec.close(f.clm, w[0], f'{key}:{k}:clm', rtol=0,
                    atol=1e-10*top)
                rec.close(f.slm, w[1], f'{key}:{k}:slm', rtol=0,
                    atol=1e-10*top)
                rec.close(f.time, data[k][:, 1], f'{key}:{k}:time', rtol=0,
                    atol=1e-9)
                rec.eq(list(f.month), list(data[k][:, 0].astype(int)),
                    f'{key}:{k}:months')
                total += w
            # what is left
            err = prog.run('calc_mascon', *argv, *oc, '--remove-reconstruct',
                '--reconstruct-file', recon)
            cl, sl, t, ms, c0, s0 = anomalies(ar, c, have)
            if c['destripe']:
                from checks.P41 import filtered
                total = filtered(*total)
            area, kern, idx, cond = solution(c, n)
            y = np.array([((cl, sl)[cs] - total[cs])[l, m] for cs, l, m in
                idx])
            want = kern @ y/1e15
            full = abs(kern @ np.array([(cl, sl)[cs][l, m] for cs, l, m in
                idx])/1e15).max()
            for k in range(n):
                p = out/f'{PLAIN[k]}{tail}_LEAKAGE.txt'
                if rec.check(p.exists(), f'{key}:{k}:leakage', err[-300:]):
                    a = read_series(p)
                    rec.close(a[:, 2], want[k], f'{key}:{k}:left', rtol=0,
                        atol=2e-9 + (1e-11*cond**2 + 1e-9)*full)
        for f in list(out.glob('*')) + list(ar.dir.glob('*DELTA*')):
            f.unlink()
    rec.sample({'leakage': key})


@CHECK.block('options', params=lambda tier: list(range(4)), timeout=900)
def options(rec, part):
    """every choice for the low degrees reaches the solution"""
    tmp = pathlib.Path(rec.mkdir())
    months = list(range(170, 187))
    ar = Archive(tmp/'data', months, 'CSR', 'RL05')
    P29.Series(ar.root, 'CSR', 'RL05', mons=months)
    P29.atmosphere(ar.root)
    index = put_mascons(tmp, 'netCDF4', 3)
    c = case(lmax=6, destripe=False, mask=False)
    area, kern, idx, cond = solution(c, 3)
    cases = [(p, atm, pt, None, False) for p in PICKS for atm, pt in ((False,
        False),) + (((True, True), (True, False), (False, True)) if len(p) !=
        1 else ())]
    for who in P29.CHOICES['DEG1']:
        if who != 'SLR':
            cases += [({'DEG1': who}, False, False, 'file', False)]
        cases += [({'DEG1': who}, False, False, 'fit', True)]
    for n, (pick, atm, pt, how, fit) in enumerate(cases):
        if n % 4 != part:
            continue
        key = f'options:{P29.title(pick)}:{atm}:{pt}:{how}'
        rec.case(key)
        if how == 'fit':
            for f in (ar.root/'geocenter').glob('*'):
                f.unlink()
            P29.DEG1[pick['DEG1']][0](ar.root, 'CSR', 'RL05', [g for g in
                range(150, 200) if g not in (174, 184)])
        kw = {f'SLR_{o}': pick.get(o) for o in ('21', '22', 'C30', 'C40',
            'C50')}
        argv = ar.options(170, 186) + shared(c, index) + ['-O', tmp/'out']
        for o, w in pick.items():
            argv += [FLAGS[o], w]
        argv += ['--atm-correction']*atm + ['--pole-tide']*pt
        argv += ['--interpolate-geocenter']*fit
        with rec.guard(key):
            if how == 'file':
                name = P29.DEG1[pick['DEG1']][0](ar.root, 'CSR', 'RL05', [g
                    for g in range(150, 200)])[0]
                path = ar.root/'geocenter'/name
                kw['DEG1_FILE'] = tmp/f'other_{name}'
                path.replace(kw['DEG1_FILE'])
                argv += ['--geocenter-file', kw['DEG1_FILE']]
            Y = grace_input_months(ar.root, *ar.args, 6, 170, 186, [],
                pick.get('C20'), pick.get('DEG1'), ATM=atm, POLE_TIDE=pt,
                MODEL_DEG1=fit, **kw)
            cl, sl, t, ms, _, _ = anomalies(ar, c, {}, (Y['clm'], Y['slm'],
                Y['time'], list(Y['month'])))
            y = np.array([(cl, sl)[cs][l, m] for cs, l, m in idx])
            want = kern @ y/1e15
            err = prog.run('calc_mascon', *argv)
            names = [f'{p}{"_wATM"*atm}_L6.txt' for p in PLAIN[:3]]
            if rec.eq(sorted(p.name for p in (tmp/'out').glob('*')),
                    sorted(names), key + ':files ' + err[-300:]):
                for k, p in enumerate(names):
                    a = read_series(tmp/'out'/p)
                    rec.eq(list(a[:, 0].astype(int)), ms, f'{key}:months')
                    rec.close(a[:, 2], want[k], f'{key}:{k}', rtol=0,
                        atol=1e-9 + 1e-9*abs(want[k]).max())
        for f in list((tmp/'out').glob('*')) + list(ar.dir.glob('*DELTA*')):
            f.unlink()
        if how:
            for f in (ar.root/'geocenter').glob('*'):
                f.unlink()
            P29.Series(ar.root, 'CSR', 'RL05', mons=months)
    rec.sample({'options': part})
