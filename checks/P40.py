"""P40: the dealiasing programs keep every value, hour and day of the products"""
import gzip
import io
import itertools
import os
import pathlib
import tarfile
import numpy as np
import netCDF4
import h5py
import mc
import ref
import prog
import gravity_toolkit as gt

CHECK = mc.Check('P40', level='bounded_exhaustive',
    rule='distinct (program, release, product, layout of the daily files, '
    'days, options) runs; every output value is compared',
    assumptions=['daily files hold every hour of the release', 'the tar '
        'files are named after their month'])

PRODUCTS = ('atm', 'ocn', 'glo', 'oba')
NAMES = {'GAA': 'atm', 'GAB': 'ocn', 'GAC': 'glo', 'GAD': 'oba'}
HOURS = {'RL05': (0, 6, 12, 18), 'RL06': (0, 3, 6, 9, 12, 15, 18, 21)}
DEGREE = {'RL05': 100, 'RL06': 180}
LM = {}
for _r, _n in DEGREE.items():
    _lm = [(l, m) for l in range(_n + 1) for m in range(l + 1)]
    LM[_r] = np.array(_lm)


def fields(release):
    """two patterns of coefficients"""
    l, m = LM[release].T
    z = m > 0
    a = (1.0 + 0.5*m - 0.125*l)*1e-12/(1 + l)
    b = (2.0 - 0.25*m + 0.0625*l)*1e-12/(1 + l)
    return (a, np.where(z, -0.75*b, 0)), (b, np.where(z, 0.5*a, 0))


def amount(product, day, hour):
    """amounts of the two patterns; day since the epoch"""
    p = PRODUCTS.index(product)
    return (np.cos(1.3*p + 0.7*day + 0.11*hour), 3 + p + np.sin(day*1.1 +
        hour*0.37))


TEXT = {}


def text(release, days, order):
    """daily file with every product and hour"""
    if (release, days, order) not in TEXT:
        (a, sa), (b, sb) = fields(release)
        out = ['PRODUCER AGENCY               : GFZ\n', 'PRODUCT             '
            '          : atm ocn glo oba\n', 'END OF HEADER\n']
        sets = list(itertools.product(HOURS[release], PRODUCTS))
        if order == 'product':
            sets.sort(key=lambda v: PRODUCTS.index(v[1]))
        elif order == 'only':
            sets = [v for v in sets if v[1] in ('glo', 'oba')]
        d = np.datetime64('1970-01-01') + days
        n = len(LM[release])
        line = '%4d%4d %17.10e %17.10e\n'*n
        for k, (h, p) in enumerate(sets):
            u, v = amount(p, days, h)
            out.append(f'DATA SET {k + 1:2d}: {n} COEFFICIENTS FOR {d} '
                f'{h:02d}:00:00 OF TYPE {p}\n')
            vals = np.empty((n, 4), dtype=object)
            vals[:, :2] = LM[release]
            vals[:, 2], vals[:, 3] = u*a + v*b, u*sa + v*sb
            out.append(line % tuple(vals.ravel()))
        TEXT[release, days, order] = ''.join(out).encode()
    return TEXT[release, days, order]


def days_of(y, m):
    a = ref.days_from_civil(y, m, 1)
    return list(range(a, ref.days_from_civil(y + m//12, m % 12 + 1, 1)))


def tar(path, release, days, order='hour', packed=False, mtime=1.0e9,
        swap=False):
    """monthly archive of daily files"""
    with tarfile.open(path, 'w:gz', compresslevel=1) as t:
        for d in (days[::-1] if swap else days):
            name = f'AOD1B_{np.datetime64("1970-01-01") + d}_X_{release[2:]}' \
                '.asc' + ('.gz' if packed else '')
            raw = text(release, d, order)
            if packed:
                raw = gzip.compress(raw, 1)
            info = tarfile.TarInfo(name)
            info.size, info.mtime = len(raw), mtime
            t.addfile(info, io.BytesIO(raw))
    os.utime(path, (mtime, mtime))


def months(days):
    """days by calendar month"""
    out = {}
    for d in days:
        c = str(np.datetime64('1970-01-01') + d)
        out.setdefault(c[:7], []).append(d)
    return out


def archive(root, release, days, ending='tar.gz', **kw):
    p = root/'AOD1B'/release
    p.mkdir(parents=True, exist_ok=True)
    for name, lst in months(days).items():
        tar(p/f'AOD1B_{name}_{release[2:]}.{ending}', release, lst, **kw)
    return p


# ------------------------------------------------------ geocenter, oblateness
def series_cases(tier):
    for release, packed, ending, order in itertools.product(HOURS, (False,
            True), ('tar.gz', 'tgz'), ('hour', 'product')):
        if tier == 'quick' and (packed != (ending == 'tgz') or release ==
                'RL06' and packed != (order == 'hour')):
            continue
        yield release, packed, ending, order


@CHECK.block('series', params=lambda tier: list(series_cases(tier)),
    timeout=600)
def series(rec, arg):
    """six or three hourly series of degree one and two"""
    release, packed, ending, order = arg
    root = pathlib.Path(rec.mkdir())
    first = ref.days_from_civil(2003, 12, 30)
    days = list(range(first, first + (4 if release == 'RL05' else 3)))
    aod = archive(root, release, days, ending, packed=packed, order=order)
    (aod/'README').write_text('notes')
    (a, sa), (b, sb) = fields(release)
    at = {tuple(v): k for k, v in enumerate(LM[release])}
    R = 1000.0*6378137.0*(1 - 1/298.257223563)**(1/3)*np.sqrt(3.0)
    for name, kind in (('aod1b_geocenter', 'geocenter'), ('aod1b_oblateness',
            'oblateness')):
        err = prog.run(name, '-D', root, '-r', release, '-p', *PRODUCTS)
        rec.check(not err, f'{name}:log', err[-300:])
        for p in PRODUCTS:
            for mon, lst in months(days).items():
                key = f'{arg}:{name}:{p}:{mon}'
                rec.case(key)
                with rec.guard(key):
                    f = aod/kind/f'AOD1B_{release}_{p}_{mon[:4]}_{mon[5:]}.txt'
                    rows = [l.split() for l in f.read_text().splitlines() if
                        l.strip() and not l.startswith('#')]
                    want = []
                    for d, h in itertools.product(lst, HOURS[release]):
                        u, v = amount(p, d, h)
                        c = lambda l, m: u*a[at[l, m]] + v*b[at[l, m]]
                        s = u*sa[at[1, 1]] + v*sb[at[1, 1]]
                        day = np.datetime64('1970-01-01') + d
                        want.append((f'{day}T{h:02d}:00:00', [R*c(1, 1), R*s,
                            R*c(1, 0)] if kind == 'geocenter' else [c(2, 0)]))
                    rec.check([r[0] for r in rows] == [w[0] for w in want],
                        key + ':dates', lambda: f'{len(rows)} {len(want)}')
                    got = np.array([[float(x) for x in r[1:]] for r in rows])
                    tol = 6e-9 if kind == 'geocenter' else 1e-19
                    w = np.array([w[1] for w in want])
                    rec.check(got.shape == w.shape and (abs(got - w) <= tol +
                        2e-7*abs(w)*(kind == 'geocenter')).all(), key,
                        lambda: f'{got[:2]} {w[:2]}')
    rec.sample({'series': arg})


# ------------------------------------------------------------ keeping outputs
@CHECK.block('current')
def current(rec, arg):
    """existing outputs are rewritten when and only when they are older"""
    release = 'RL05'
    first = ref.days_from_civil(2004, 2, 28)
    old = list(range(first, first + 1))
    for name, kind in (('aod1b_geocenter', 'geocenter'), ('aod1b_oblateness',
            'oblateness')):
        for age, clobber, change in itertools.product((-1, -0.02,
                0, 0.02, 1, None), (
                False, True), (False, True)):
            key = f'{name}:{age}:{clobber}:{change}'
            rec.case(key)
            with rec.guard(key):
                root = pathlib.Path(rec.mkdir())
                aod = archive(root, release, old, mtime=1.0e9, order='only')
                out = aod/kind/'AOD1B_RL05_glo_2004_02.txt'
                assert not prog.run(name, '-D', root, '-r', release, '-p',
                    'glo')
                good = out.read_text()
                out.write_text('mine\n')
                if age is None:
                    out.unlink()
                else:
                    os.utime(out, (1.0e9 - 100*age, 1.0e9 - 100*age))
                prog.run(name, '-D', root, '-r', release, '-p', 'glo', *(
                    ['-C'] if clobber else []))
                new = age is None or age > 0 or clobber
                rec.check(out.read_text() == (good if new else 'mine\n'), key)
    rec.sample({'kept': 'mine'})


# -------------------------------------------------------------- monthly means
SPANS = {       # month: first and last day (year, day of the year)
    5: ((2002, 122), (2002, 125)), 6: ((2002, 155), (2002, 156)),
    13: ((2002, 364), (2003, 2)), 26: ((2004, 58), (2004, 61)),
    27: ((2004, 91), (2004, 91)), 36: ((2004, 366), (2005, 1)),
    187: ((2018, 165), (2018, 166)), 217: ((2020, 366), (2021, 1))}


def span(gm):
    (ya, da), (yb, db) = SPANS[gm]
    return list(range(ref.days_from_civil(ya, 1, 1) + da - 1,
        ref.days_from_civil(yb, 1, 1) + db))


def mean_cases(tier):
    """(release, center, product, format, lmax, missing, packed, ending,
    order, swapped)"""
    out = []
    quick = tier == 'quick'
    for k, (c, (p, f)) in enumerate(itertools.product(('CSR', 'GFZ', 'JPL',
            'COSTG'), itertools.product(NAMES, ('ascii', 'netCDF4', 'HDF5',
            'SHM')))):
        if quick and (k//16 + k//4 + k) % 4:
            continue
        out.append(('RL05', c, p, f, (100, 12, 60, 1)[k % 4], None, k % 2 == 1,
            ('tar.gz', 'tgz')[k//2 % 2], ('hour', 'product')[k//3 % 2],
            k % 3 == 1))
    for j, miss in enumerate(list(range(4)) + ['tar', 'all']):
        for f in (('ascii', 'SHM')[j % 2:j % 2 + 1] if quick else ('ascii',
                'SHM')):
            out.append(('RL05', 'CSR', 'GAC', f, 8, miss, False, 'tar.gz',
                'only', False))
    for p, f in (('GAC', 'netCDF4'), ('GAD', 'SHM')) + ((('GAA', 'ascii'), (
            'GAB', 'HDF5')) if tier == 'thorough' else ()):
        out.append(('RL06', 'JPL', p, f, 180, None, True, 'tgz', 'hour',
            False))
    return out


@CHECK.block('mean', params=lambda tier: [(k, tier) for k in range(len(
    mean_cases(tier)))], timeout=600)
def mean(rec, arg):
    """monthly means of every month with all of its days"""
    k, tier = arg
    release, center, product, fmt, L, miss, packed, ending, order, swap = \
        mean_cases(tier)[k]
    root = pathlib.Path(rec.mkdir())
    use = [217] if release == 'RL06' and tier == 'quick' else [13, 26, 217] if release == 'RL06' else list(SPANS)
    if release == 'RL05' and tier == 'quick' and miss is None:
        use = [[5, 13, 26, 187], [6, 27, 36, 217]][k % 2]
    gone = set()
    if miss == 'all':
        gone = {d for gm in use for d in span(gm)[:1]}
    elif miss == 'tar':
        gone = set(days_of(2003, 1)) | set(days_of(2005, 1))
    elif miss is not None:
        gone = {span(gm)[miss % len(span(gm))] for gm in use[::2]}
    days = sorted({d for gm in use for d in span(gm)} - gone)
    archive(root, release, days, ending, packed=packed, order=order,
        swap=swap)
    gsm = root/center/release/'GSM'
    gsm.mkdir(parents=True)
    lines = ['Mid-date     Month  Start_Day  End_Day  Total_Days']
    for gm in use:
        (ya, da), (yb, db) = SPANS[gm]
        n = len(span(gm))
        lines.append(f'{2000 + gm/12:13.8f} {gm:03d} {ya:8d} {da:03d} {yb:8d} '
            f'{db:03d} {n:8d}')
    (gsm/f'{center}_{release}_DATES.txt').write_text('\n'.join(lines) + '\n')
    err = prog.run('dealiasing_monthly_mean', '-D', root, '-c', center, '-r',
        release, '-p', product, '-l', L, '-F', fmt)
    rec.check(not err, 'log', err[-300:])
    out = root/center/release/product
    (a, sa), (b, sb) = fields(release)
    l, m = LM[release].T
    keep = l <= L
    A, SA, B, SB = np.zeros((4, L + 1, L + 1))
    for w, v in ((A, a), (SA, sa), (B, b), (SB, sb)):
        w[l[keep], m[keep]] = v[keep]
    expected, listed = set(), []
    for gm in use:
        key = f'{arg}:{gm}'
        rec.case(key)
        complete = not set(span(gm)) & gone
        (ya, da), (yb, db) = SPANS[gm]
        mission, name = 'GRAC' if gm <= 186 else 'GRFO', {'CSR': 'UTCSR',
            'JPL': 'JPLEM'}.get(center, {'RL05': 'EIGEN', 'RL06': 'GFZOP'}[
            release])
        if fmt == 'SHM':
            f = out/(f'{product}-2_{ya}{da:03d}-{yb}{db:03d}_{mission}_{name}_'
                f'BC01_{release[2:]}00.gz')
        else:
            f = out/(f'{center}_{release}_{product}_CLM_L{L}_{gm:03d}.' + {
                'ascii': 'txt', 'netCDF4': 'nc', 'HDF5': 'H5'}[fmt])
        rec.check(f.exists() == complete, key + ':file', f.name)
        if not complete or not f.exists():
            continue
        expected.add(f.name)
        listed.append([gm, ya, da, yb, db, len(span(gm))])
        with rec.guard(key):
            am = [amount(NAMES[product], d, h) for d in span(gm) for h in
                HOURS[release]]
            u, v = np.mean(am, axis=0)
            C, S = u*A + v*B, u*SA + v*SB
            dates = [ref.decimal_year(*[int(x) for x in str(np.datetime64(
                '1970-01-01') + d).split('-')], h) for d in span(gm) for h in
                HOURS[release]]
            if fmt == 'SHM':
                h = gt.read_GRACE_harmonics(f, L)
                c, s = h['clm'], h['slm']
                ends = [np.datetime64('1970-01-01') + d for d in (span(gm)[0],
                    span(gm)[-1])]
                import gzip as gz
                body = gz.decompress(f.read_bytes()).decode()
                stamp = [str(e).replace('-', '') + '.0000' for e in ends]
                rows = [r for r in body.splitlines() if
                    r.startswith('GRCOF2')]
                rec.check(len(rows) == (L + 1)*(L + 2)//2 and all(r.split()[
                    7:9] == stamp for r in rows), key + ':records')
                rec.check(all(f'time_coverage_{n:6}'.strip() in body and
                    f': {e}' in body for n, e in zip(('start', 'end'), ends)),
                    key + ':coverage')
            else:
                h = gt.harmonics().from_file(f, format=fmt)
                h.squeeze()
                c, s = h.clm, h.slm
                mid = (np.mean(dates) - 2002)*12
                if gm - 0.99 < mid < gm - 0.01:
                    rec.check(int(h.month) == gm, key + ':month', str(
                        h.month))
                rec.check(abs(float(h.time) - np.mean(dates)) < (6e-5 if fmt ==
                    'ascii' else 1e-7), key + ':time', lambda:
                    f'{h.time} {np.mean(dates)}')
            top = abs(C).max()
            ok = c.shape == C.shape and (abs(c - C) <= 2e-9*top).all() and (
                abs(s - S) <= 2e-9*top).all()
            rec.check(ok, key + ':mean', lambda: f'{c.shape} {c[:2, :2]} '
                f'{C[:2, :2]}')
    with rec.guard('dates'):
        rows = np.loadtxt(out/f'{center}_{release}_DATES.txt', skiprows=1,
            ndmin=2)
        rec.check(rows[:, 1:].astype(int).tolist() == listed if listed else
            rows.size == 0, 'dates', lambda: f'{rows} {listed}')
    names = {f.name for f in out.iterdir()}
    extra = {f'{center}_{release}_DATES.txt'} | ({'index.txt'} if fmt == 'SHM'
        else set())
    rec.check(names == expected | extra, 'files', str(names ^ expected))
    if fmt == 'SHM':
        rec.check((out/'index.txt').read_text().split() == sorted(expected),
            'index')
    # outputs are kept while they are newer than the archives
    if k % 4 == 0 or miss is not None:
        new = span(use[0])[0]
        state = {}
        for f in out.iterdir():
            if f.name in expected:
                f.write_bytes(b'mine')
                os.utime(f, (1.5e9, 1.5e9))
        argv = ['-D', root, '-c', center, '-r', release, '-p', product, '-l',
            L, '-F', fmt]
        prog.run('dealiasing_monthly_mean', *argv)
        rec.check(all((out/n).read_bytes() == b'mine' for n in expected),
            'kept')
        # one archive is newer
        mon = months([new])
        for name in mon:
            lst = [d for d in days if d in days_of(int(name[:4]), int(
                name[5:]))]
            tar(root/'AOD1B'/release/f'AOD1B_{name}_{release[2:]}.{ending}',
                release, lst, packed=packed, order=order, mtime=1.6e9)
            prog.run('dealiasing_monthly_mean', *argv)
            for gm in use:
                (ya, da), (yb, db) = SPANS[gm]
                again = bool(set(lst) & set(span(gm)))
                for n in expected:
                    if f'_{gm:03d}.' in n or f'_{ya}{da:03d}-' in n:
                        rec.check(((out/n).read_bytes() != b'mine') == again,
                            f'rewritten:{gm}', n)
        prog.run('dealiasing_monthly_mean', *argv, '-C')
        rec.check(all((out/n).read_bytes() != b'mine' for n in expected),
            'clobber')
    rec.sample({'mean': mean_cases(tier)[k]})


# ------------------------------------------------------------- crustal uplift
def uplift_cases(tier):
    yield 'RL05', 2003, 2, 'netCDF4', 'glo', 0, 'CF', (60.0, 45.0), 2, None
    yield 'RL05', 2004, 2, 'HDF5', 'atm', 1, 'CE', (90.0,), 1, None
    yield 'RL05', 2002, 6, 'HDF5', 'ocn', 2, 'CF', (60.0, 30.0), 3, (0, 120,
        -60, 0)
    yield 'RL06', 2003, 2, 'netCDF4', 'glo', 0, 'CF', (90.0,), 2, None
    if tier == 'thorough':
        yield 'RL05', 2001, 12, 'netCDF4', 'oba', 3, 'CE', (30.0,), 3, (-90,
            90, 30, 90)
        yield 'RL06', 2004, 2, 'HDF5', 'oba', 4, 'CF', (90.0,), 1, None


@CHECK.block('uplift', params=lambda tier: list(uplift_cases(tier)),
    timeout=900)
def uplift(rec, arg):
    """elastic uplift at every hour of a month"""
    from checks.P39 import grid_of, load_grid, love_of
    release, y, mo, fmt, p, love, frame, spacing, interval, bounds = arg
    root = pathlib.Path(rec.mkdir())
    days = days_of(y, mo)
    aod = archive(root, release, days, order='only' if p in ('glo', 'oba')
        else 'hour', packed=mo == 2, swap=y % 2 == 0)
    tar(aod/f'AOD1B_1999-01_{release[2:]}.tar.gz', release, days[:0])
    key = str(arg)
    rec.case(key)
    argv = ['-D', root, '-O', root/'out'/'new', '-r', release, '-p', p, '-n',
        love, '--reference', frame, '-S', *spacing, '-I', interval, '-F', fmt]
    if bounds:
        argv += ['-B', *bounds]
    before = prog.listing(root)
    err = prog.run('dealiasing_global_uplift', *argv)
    rec.check(not err, 'log', err[-300:])
    rec.eq(prog.said(before, root), [], 'said')
    with rec.guard(key):
        out = root/'out'/'new'
        f = out/(f'AOD1B_{release}_{p}_mmCU_{y}_{mo:02d}.' + {'netCDF4': 'nc',
            'HDF5': 'H5'}[fmt])
        assert [q.name for q in out.iterdir()] == [f.name]
        lon, lat = grid_of(interval, spacing, bounds)
        got, t = load_grid(f, fmt, lon, lat, True)
        L = DEGREE[release]
        hl, kl, ll = love_of(L, love, frame)
        fac = ref.unit_factor('mmCU', L, hl, kl, ll)
        parts = []
        l, m = LM[release].T
        for c, s in fields(release):
            C, S = np.zeros((2, L + 1, L + 1))
            C[l, m], S[l, m] = c, s
            parts.append(ref.synth(C*fac[:, None], S*fac[:, None], lon, lat))
        want = np.stack([u*parts[0] + v*parts[1] for u, v in (amount(p, d, h)
            for d in days for h in HOURS[release])], axis=2)
        rec.check(list(t) == [24*k + h for k in range(len(days)) for h in
            HOURS[release]], key + ':hours', str(t[:5]))
        with (netCDF4.Dataset(f) if fmt == 'netCDF4' else h5py.File(f,
                'r')) as q:
            u = q['time'].units if fmt == 'netCDF4' else q['time'].attrs[
                'units']
        rec.check(u == f'hours since {y}-{mo:02d}-01T00:00:00', key +
            ':units', str(u))
        rec.check(got.shape == want.shape and (abs(got - want) <=
            1e-8*abs(want).max()).all(), key, lambda: f'{got.shape} '
            f'{want.shape} {abs(got - want).max()}')
    rec.sample({'uplift': arg})


@CHECK.block('uplift_current', params=lambda tier: ['HDF5', 'netCDF4'],
    timeout=900)
def uplift_current(rec, fmt):
    """only months that are asked for and newer than their grid are made"""
    root = pathlib.Path(rec.mkdir())
    ends = {(2003, 2): 'tar.gz', (2005, 2): 'tgz'}
    for (y, mo), end in ends.items():
        aod = archive(root, 'RL05', days_of(y, mo), order='only', ending=end)
    out = root/'out'
    argv = ['-D', root, '-O', out, '-r', 'RL05', '-p', 'oba', '-S', 90, '-I',
        1, '-F', fmt]
    old = {}
    for k, (extra, made, newer) in enumerate([(['-Y', 2003, 2004], [2003],
            None), ([], [2005], None), ([], [], None), ([], [2003], 2003), ([
            '-Y', 2005], [], 2003), (['-Y', 2005], [2005], 2005)]):
        key = f'{fmt}:{k}'
        rec.case(key)
        for (y, mo), end in ends.items():
            g = out/(f'AOD1B_RL05_oba_mmCU_{y}_{mo:02d}.' + {'netCDF4': 'nc',
                'HDF5': 'H5'}[fmt])
            t = aod/f'AOD1B_{y}-{mo:02d}_05.{end}'
            if g.exists():
                # grids are as old as their archive, or older
                g.write_bytes(b'mine')
                os.utime(g, (1.1e9, 1.1e9))
            v = 1.1e9 + (2.0 if y == newer else 0.0 if k % 2 else -2.0)
            os.utime(t, (v, v))
        err = prog.run('dealiasing_global_uplift', *argv, *extra)
        rec.check(not err, key + ':log', err[-300:])
        got = []
        for g in sorted(out.glob('*')):
            y = int(g.name.split('_')[4])
            if g.read_bytes() != b'mine':
                got.append(y)
        rec.eq(got, made, key)
        rec.eq(len(prog.RETURNED[0]), len(made), key + ':said')
    rec.sample({'current': fmt})
