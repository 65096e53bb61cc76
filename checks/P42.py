"""P42: the regression programs fit every grid cell of the monthly maps"""
import itertools
import pathlib
import numpy as np
import netCDF4
import h5py
import scipy.stats
import mc
import prog
import gravity_toolkit as gt
from checks import P29
from checks.P39 import SUFFIX, UNITS, grid_of

CHECK = mc.Check('P42', level='bounded_exhaustive',
    rule='distinct (program, months, order, periods, grid, format, options) '
    'runs; every cell of every output file is compared with the normal '
    'equations of the series of that cell',
    assumptions=['the months of both missions are included where tidal '
        'aliasing periods are requested', 'no period is given twice',
        'polynomials are expressed about the mean date of the months'])

ALIAS = {'Q1': 9.1, 'O1': 13.6, 'P1': 171.2, 'S1': 322.1, 'K1': 2725.4,
    'J1': 27.8, 'M2': 13.5, 'S2': 161.0, 'K2': 1362.7}
EDGE = {8: 2002.579, 19: 2003.497, 9: 2002.661, 16: 2003.336, 30: 2004.412, 119: 2011.835, 160: 2015.336,
    163: 2015.496, 185: 2017.412, 202: 2018.83}
LABEL = {0.5: ('SEMI', 'S'), 1.0: ('ANN', 'A')}


def qr(X, Y):
    """least squares through a column-scaled orthogonal factorisation"""
    s = np.sqrt((X**2).sum(axis=0))
    Q, R = np.linalg.qr(X/s)
    Ri = np.linalg.inv(R)
    return (Ri @ (Q.T @ Y))/s[:, None], (Ri @ Ri.T)/np.outer(s, s), \
        np.linalg.cond(R)


def date(g):
    if g in EDGE:   # mean dates within the neighbouring calendar months
        return EDGE[g]
    y, m = 2002 + (g - 1)//12, (g - 1) % 12
    return round(y + (m + 0.5 + 0.17*np.sin(g))/12, 6)


def series(months, lat, lon, noise=True):
    """values [lat, lon, month] with a different signal in every cell"""
    t = np.array([date(g) for g in months])
    i, j = np.mgrid[:len(lat), :len(lon)]
    i, j = i[..., None], j[..., None]
    k = np.arange(len(t))
    x = t - 2012
    z = 3 + i - 0.5*j + (0.7*i - 0.2*j)*x + 0.02*(j - i)*x**2 + (1 + i)*np.sin(
        2*np.pi*t + j) + (0.5 + 0.1*j)*np.cos(4*np.pi*t + 0.3*i) + 0.8*np.cos(
        2*np.pi*t*365.25/161 + i + j)*np.where(t < 2018, 1, -1.5)
    if noise:
        z = z + np.sin(7.1*k**2 + 3*i + 5.3*j)
    return t, np.round(z, 6)


def write(path, fmt, lon, lat, z, t, month):
    if fmt == 'ascii':
        with path.open('w') as f:
            for i, y in enumerate(lat):
                for j, x in enumerate(lon):
                    f.write(f'{x:10.4f} {y:10.4f} {z[i, j]:14.6f} {t:12.6f}\n')
        return
    g = gt.spatial()
    g.data, g.lon, g.lat = z.copy(), lon.copy(), lat.copy()
    g.mask = np.zeros(z.shape, dtype=bool)
    g.time, g.month = t, month
    g.to_file(path, format=fmt, date=True)


def stem(o):
    ds = '_FL' if o['destripe'] else ''
    gw = f'_r{o["radius"]:0.0f}km' if o['radius'] else ''
    order = f'M{o["mmax"]}' if o['mmax'] is not None and o['mmax'] != \
        o['lmax'] else ''
    return (f'{o["prefix"]}{UNITS[o["units"]]}_L{o["lmax"]}{order}{gw}{ds}')


BASE = dict(fmt='netCDF4', start=4, end=40, missing=(6, 7, 18), order=1,
    cycles=(0.5, 1.0), interval=2, spacing=(120.0, 90.0), bounds=None,
    units=1, lmax=60, mmax=None, radius=0, destripe=False,
    prefix='GSM_', brk=None)


def case(**kw):
    d = dict(BASE)
    d.update(kw)
    return d


LONG = dict(start=150, end=225, missing=tuple(range(187, 202)) + (153, 162,
    209))


def cases(tier, program):
    orders = (0, 1, 2, 3) if program == 'regress' else (None,)
    S2 = 161.0/365.25
    for fmt, order, cyc in itertools.product(SUFFIX, orders, ((0.5, 1.0),
            (1.0, 0.5), (1.0,), (0.5,), (0.25, 1.0), (1.0, 0.25), (3.7, 0.5,
            1.0))):
        if tier == 'quick' and fmt != 'netCDF4' and order in (0, 3) and \
                cyc != (0.5, 1.0):
            continue
        yield case(fmt=fmt, order=order, cycles=cyc)
    # the tidal aliasing periods at every place among the others
    sets = [p for n in (0, 1, 2) for c in itertools.combinations((0.5, 1.0,
        0.3), n) for p in itertools.permutations((S2,) + c)]
    for fmt, order, cyc in itertools.product(SUFFIX, orders[1:3] or orders,
            sets):
        if tier == 'thorough' or fmt == 'netCDF4':
            yield case(fmt=fmt, order=order, cycles=cyc, **LONG)
    for name, p in ALIAS.items():
        span = dict(start=4, end=300, missing=LONG['missing'], spacing=(180.0,
            90.0)) if name in ('K1', 'K2') else LONG
        for cyc in ((p/365.25, 0.5), (1.0, p/365.25)):
            yield case(order=orders[-1] and 1, cycles=cyc, **span)
    # more periods than the two of the default
    for cyc in itertools.permutations((0.5, 1.0, 0.3, 3.7)):
        yield case(order=orders[-1] and 1, cycles=cyc, spacing=(180.0, 90.0))
    yield case(order=orders[-1] and 2, cycles=(1.0, S2, 0.5, ALIAS['P1']/365.25,
        0.25), **LONG)
    for a, b in itertools.permutations(('P1', 'S2', 'S1'), 2):
        yield case(order=orders[-1] and 1, cycles=(ALIAS[a]/365.25, 1.0,
            ALIAS[b]/365.25), **LONG)
    # grids
    for fmt, (interval, spacing, bounds) in itertools.product(SUFFIX, ((1, (
            60.0,), None), (1, (90.0, 45.0), None), (2, (90.0, 60.0), None), (
            2, (72.0, 36.0), None), (3, (30.0, 20.0), (-60.0, 60.0, 0.0,
            60.0)), (3, (10.0,), (200.0, 230.0, -40.0, -10.0)), (3, (0.5,
            0.25), (10.0, 11.5, 5.0, 5.75)))):
        yield case(fmt=fmt, interval=interval, spacing=spacing, bounds=bounds)
    # names of the products
    for units, (lmax, mmax), radius, ds, pre in itertools.product(range(1, 6),
            ((60, None), (40, 12), (60, 60), (30, 0)), (0, 250.0), (0, 1), (
            'GSM_', 'CSR_RL06_L2_')):
        if tier == 'thorough' or units == 1 or (radius, ds, mmax) == (0, 0,
                None):
            yield case(units=units, lmax=lmax, mmax=mmax, radius=radius,
                destripe=bool(ds), prefix=pre, spacing=(180.0, 90.0))
    # spans and gaps
    for start, end, missing in itertools.product((4, 13, 22), (36, 41, 48), (
            (), (6, 7, 18), (24,), tuple(range(10, 14)), (1, 300))):
        yield case(start=start, end=end, missing=missing, spacing=(180.0,
            90.0), order=orders[-1] and 1 + (end % 2))
    if program == 'piecewise':
        months = sorted(set(range(4, 41)) - {6, 7, 18})
        for fmt, b in itertools.product(SUFFIX, months[2:-3]):
            if tier == 'thorough' or fmt == 'netCDF4' or b % 6 == 0:
                yield case(fmt=fmt, brk=b, spacing=(180.0, 90.0))


def reference(o, program, t, z, months):
    """expected maps by file label"""
    order = o['order']
    n = len(t)
    cyc = [c for c in o['cycles'] if not any(np.isclose(c, p/365.25)
        for p in ALIAS.values())]
    al = [(k, c) for c in o['cycles'] for k, p in ALIAS.items()
        if np.isclose(c, p/365.25)]
    if program == 'regress':
        cols = [(t - t.mean())**k for k in range(order + 1)]
        names = [f'x{k}' for k in range(order + 1)]
    else:
        tb = t[list(months).index(o['brk'])]
        cols = [np.ones(n), t, np.maximum(t - tb, 0)]
        names = ['x0', 'px1-', 'px1+']
    pairs = {}
    for c in cyc:
        if c in LABEL:
            pairs[LABEL[c][0]] = len(names)
            names += [LABEL[c][1] + 'S', LABEL[c][1] + 'C']
        else:
            names += [None, None]
        cols += [np.sin(2*np.pi*t/c), np.cos(2*np.pi*t/c)]
    for k, c in al:
        for flag, era in (('GRC', t < 2018), ('GFO', t >= 2018)):
            pairs[k + flag] = len(names)
            names += [f'{k}S{flag}', f'{k}C{flag}']
            w = 2*np.pi*t*365.25/ALIAS[k]
            cols += [np.where(era, np.sin(w), 0), np.where(era, np.cos(w), 0)]
    X = np.column_stack(cols)
    k = X.shape[1]
    Y = z.reshape(-1, n).T
    beta, cov, cond = qr(X, Y)
    Xs = X.copy()
    if program != 'regress':
        Xs[:, 1] -= t.mean()
    cond = qr(Xs, Y)[2]
    r = Y - X @ beta
    sse, nu = (r**2).sum(axis=0), n - k
    sst = ((Y - Y.mean(axis=0))**2).sum(axis=0)
    err = np.sqrt(np.outer(np.diag(cov), sse/nu))*scipy.stats.t.ppf(0.975, nu)
    if program != 'regress':
        beta[2] += beta[1]
        err[2] = np.hypot(err[1], err[2])
    K = k + 1.0
    ll = -0.5*n*(np.log(2*np.pi) + 1 - np.log(n) + np.log(sse))
    aic = -2*ll + 2*K
    if program == 'regress':
        aic = aic + 2*K*(K + 1)/(n - K - 1)
    shape = z.shape[:2]
    out = {nm: (b.reshape(shape), e.reshape(shape)) for nm, b, e in zip(names,
        beta, err) if nm}
    for flag, i in pairs.items():
        a, b, ea, eb = beta[i], beta[i + 1], err[i], err[i + 1]
        amp = np.hypot(a, b)
        out[flag + '_AMPL'] = (amp.reshape(shape), (np.hypot(ea*a,
            eb*b)/amp).reshape(shape))
        out[flag + '_PHASE'] = ((np.degrees(np.arctan2(b, a)) % 360).reshape(
            shape), np.degrees(np.hypot(ea*b, eb*a)/amp**2).reshape(shape))
    sig = {'SSE': sse, 'AIC': aic, 'BIC': -2*ll + K*np.log(n), 'R2Adj':
        1 - (sse/nu)/(sst/(n - 1))}
    top = f'x{order}' if program == 'regress' else 'px1'
    out.update({f'{s}_{top}': (v.reshape(shape), None) for s, v in
        sig.items()})
    return out, cond


def load(path, fmt, lon, lat):
    """values and errors of a grid file"""
    if fmt == 'ascii':
        r = np.loadtxt(path, ndmin=2)
        out = np.full((r.shape[1] - 2, len(lat), len(lon)), np.nan)
        for row in r:
            i, j = np.argmin(abs(lat - row[1])), np.argmin(abs(lon - row[0]))
            assert abs(lat[i] - row[1]) + abs(lon[j] - row[0]) < 2e-4
            out[:, i, j] = row[2:]
        return out[0], out[1] if len(out) > 1 else None
    with (netCDF4.Dataset(path) if fmt == 'netCDF4' else h5py.File(path,
            'r')) as f:
        v = f.variables if fmt == 'netCDF4' else f
        assert np.allclose(v['lon'][...], lon, rtol=0, atol=1e-9)
        assert np.allclose(v['lat'][...], lat, rtol=0, atol=1e-9)
        return np.array(v['data'][...]), (np.array(v['error'][...]) if
            'error' in v else None)


def compare(rec, key, path, o, lon, lat, want, cond):
    if not path.exists():
        rec.fail(key + ':missing', path.name)
        return
    data, err = want
    fmt = o['fmt']
    # dates are not centred by the piecewise program
    tol = dict(rtol=max(1e-6 if key.startswith("piece") else 1e-7,
        1e-13*cond**2), atol=1e-7)
    if fmt == 'ascii':
        tol['atol'] = 6e-5
    z, e = load(path, fmt, lon, lat)
    if key.endswith('_PHASE'):
        d = (z - data + 180) % 360 - 180
        rec.check(np.all(np.abs(d) <= 1e-5 + tol['atol']) and np.all((z >= 0) &
            (z <= 360)), key, lambda: f'{z} {data}')
    else:
        rec.close(z, data, key, **tol)
    if err is not None:
        rec.check(e is not None, key + ':error missing')
        if e is not None:
            rec.close(e, err, key + ':error', **tol)


def run(rec, program, o):
    key = ':'.join(f'{k}={v}' for k, v in o.items() if BASE[k] != v) or 'base'
    key = f'{program}:{key}'
    rec.case(key)
    months = sorted(set(range(o['start'], o['end'] + 1)) - set(o['missing']))
    if program == 'piecewise' and o['brk'] is None:
        o = dict(o, brk=months[len(months)//2 + 1])
    lon, lat = grid_of(o['interval'], o['spacing'], o['bounds'])
    t, z = series(months, lat, lon)
    want, cond = reference(o, program, t, z, months)
    if True:
        d = pathlib.Path(rec.mkdir())
        for k, g in enumerate(months):
            write(d/f'{stem(o)}_{g:03d}.'
                f'{SUFFIX[o["fmt"]]}', o['fmt'], lon, lat, z[:, :, k], t[k],
                g)
        inputs = {p.name: p.read_bytes() for p in d.iterdir()}
        argv = ['-O', d, '-P', o['prefix'], '-l', o['lmax'], '-S', o['start'],
            '-E', o['end'], '-U', o['units'], '-F', o['fmt'], '--interval',
            o['interval'], '--spacing', *o['spacing'], '--cycles',
            *o['cycles'], '-N', *(o['missing'] or [999])]
        if o['mmax'] is not None:
            argv += ['-m', o['mmax']]
        if o['radius']:
            argv += ['-R', o['radius']]
        if o['destripe']:
            argv += ['-d']
        if o['bounds']:
            argv += ['--bounds', *o['bounds']]
        if program == 'regress':
            argv += ['--order', o['order']]
        else:
            argv += ['-B', o['brk']]
        before = prog.listing(d)
        log = prog.run(f'{program}_grace_maps', *argv)
        rec.eq(prog.said(before, d), [], key + ':said')
        rec.check(not log, key + ':log', lambda: log[-600:])
        if log:
            return
        sfx = SUFFIX[o['fmt']]
        seen = set(inputs)
        for label, w in want.items():
            a, b, name = o['start'], o['end'], label
            if label == 'px1-':
                b, name = o['brk'], 'px1'
            elif label == 'px1+':
                a, name = o['brk'], 'px1'
            names = [name]
            if program == 'piecewise' and name.endswith('_AMPL'):
                names.append(name[:-5])
            paths = [d/f'{stem(o)}_{n}_{a:03d}-{b:03d}.{sfx}' for n in names]
            path = next((p for p in paths if p.exists()), paths[0])
            seen.add(path.name)
            compare(rec, f'{key}:{label}', path, o, lon, lat, w, cond)
        rec.eq(sorted({p.name for p in d.iterdir()} - seen), [],
            key + ':other files')
        rec.eq({n: (d/n).read_bytes() for n in inputs} == inputs, True,
            key + ':inputs')


@CHECK.block('maps', params=lambda t: [(t, p, i) for p in ('regress',
    'piecewise') for i in range(8)], timeout=800)
def maps(rec, arg):
    tier, program, part = arg
    for i, o in enumerate(cases(tier, program)):
        if i % 8 == part:
            run(rec, program, o)
    rec.sample({'program': program, 'options': o})


@CHECK.block('refuse', params=lambda t: [t])
def refuse(rec, tier):
    """a missing month is reported and nothing is written"""
    for program, gone in itertools.product(('regress', 'piecewise'), (4, 20,
            40, 'break')):
        o = case(brk=19, spacing=(180.0, 90.0))
        key = f'{program}:{gone}'
        rec.case(key)
        months = sorted(set(range(4, 41)) - {6, 7, 18})
        lon, lat = grid_of(2, o['spacing'], None)
        t, z = series(months, lat, lon)
        if True:
            d = pathlib.Path(rec.mkdir())
            for k, g in enumerate(months):
                if g != gone:
                    write(d/f'{stem(o)}_{g:03d}.nc', 'netCDF4', lon, lat,
                        z[:, :, k], t[k], g)
            before = sorted(p.name for p in d.iterdir())
            argv = ['-O', d, '-P', 'GSM_', '-E', 40, '--spacing', 180, 90,
                '-N', 6, 7, 18]
            if gone == 'break' and program == 'regress':
                continue
            if program == 'piecewise':
                argv += ['-B', 18 if gone == 'break' else 19]
            log = prog.run(f'{program}_grace_maps', *argv)
            rec.check(bool(log), key + ':reported')
            rec.eq(sorted(p.name for p in d.iterdir()), before,
                key + ':written')
