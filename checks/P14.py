"""P14: all synthesis routines evaluate the same spherical harmonic series"""
import itertools
import numpy as np
import mc
import ref
import gravity_toolkit as gt

CHECK = mc.Check('P14', level='bounded_exhaustive',
    rule='distinct (routine, truncation, position grid, filter, unit, basis '
    'coefficient) evaluations against the defining sum',
    assumptions=['point summation takes square coefficient arrays (it has no '
        'order truncation); transforms take longitudes 0 to 360 inclusive'])

LATS = [np.array([90.0, 60.0, 1.0, 0.0, -33.3, -89.0, -90.0]),
    np.linspace(-90, 90, 5), np.array([12.5, 12.5])]
LONS = [np.array([0.0, 30.0, 90.0, 179.0, 180.0, 359.0, 360.0]),
    np.array([-180.0, -179.5, -90.0, 0.0, 45.0, 180.0]),
    np.array([200.0, 100.0, 200.0])]
UNITS = ['norm', 'cmwe', 'mmwe', 'mmGH', 'mmCU', 'mmCH', 'cmVCU', 'mVCU',
    'microGal', 'mbar', 'Pa']
CODES = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU']


def basis(L, M):
    """every unit coefficient and a dense combination of all of them"""
    for l in range(L + 1):
        for m in range(min(l, M) + 1):
            for cs in (0, 1):
                if m == 0 and cs == 1:
                    continue
                c, s = np.zeros((2, L + 1, M + 1))
                (c, s)[cs][l, m] = 1.0
                yield (l, m, 'cs'[cs]), c, s
    yield 'dense', *dense(L, M)


def dense(L, M):
    l, m = np.mgrid[:L+1, :M+1]
    c = np.where(m <= l, np.sin(1.0 + 3.1*l + 1.7*m), 0.0)
    s = np.where((m <= l) & (m > 0), np.cos(0.3 + 2.3*l + 5.1*m), 0.0)
    return c, s


def sizes(tier):
    top = 6 if tier == 'quick' else 9
    out = [(L, M) for L in range(1, top + 1) for M in range(0, L + 1)]
    return [out[i::8] for i in range(8)]


def oracle(c, s, lon, lat, lmin, L, M, f=None):
    c, s = c[:L+1, :M+1].copy(), s[:L+1, :M+1].copy()
    c[:lmin] = s[:lmin] = 0
    if f is not None:
        c *= f[:L+1, None]
        s *= f[:L+1, None]
    return ref.synth(c, s, lon, lat).T


@CHECK.block('grid', params=sizes)
def grids(rec, lst):
    """harmonic_summation: every basis, grid, truncation and lower bound"""
    for L, M in lst:
        for (i, lat), (j, lon) in itertools.product(enumerate(LATS),
                enumerate(LONS)):
            plm = gt.plm_holmes(L, np.cos(np.radians(90 - lat)))[0]
            for name, c, s in basis(L, L):
                args = (c.copy(), s.copy(), lon.copy(), lat.copy())
                key = f'{L}:{M}:{i}{j}:{name}'
                rec.case(key)
                for lmin in ((0, 1, L) if name == 'dense' else (0,)):
                    w = oracle(c, s, lon, lat, lmin, L, M)
                    with rec.guard(key):
                        g = gt.harmonic_summation(*args, LMIN=lmin, LMAX=L,
                            MMAX=M)
                        rec.close(g, w, f'{key}:{lmin}', rtol=1e-11, atol=1e-11)
                        g = gt.harmonic_summation(*args, LMIN=lmin, LMAX=L,
                            MMAX=M, PLM=plm)
                        rec.close(g, w, f'{key}:{lmin}:plm', rtol=1e-11,
                            atol=1e-11)
                        if M == L and lmin == 0:
                            g = gt.harmonic_summation(*args, LMAX=L)
                            rec.close(g, w, key + ':default', rtol=1e-11,
                                atol=1e-11)
                            g = gt.harmonic_summation(*args, LMAX=0)
                            rec.close(g, w, key + ':size', rtol=1e-11,
                                atol=1e-11)
                for a, b in zip(args, (c, s, lon, lat)):
                    rec.eq(a, b, key + ':argument')
            # coefficients beyond the truncation are not used
            c, s = dense(L + 2, L + 2)
            w = oracle(c, s, lon, lat, 0, L, M)
            with rec.guard(f'{L}:{M}:{i}{j}:larger'):
                rec.close(gt.harmonic_summation(c, s, lon, lat, LMAX=L,
                    MMAX=M), w, f'{L}:{M}:{i}{j}:larger', rtol=1e-11,
                    atol=1e-11)
                c, s = dense(L, M)
                rec.close(gt.harmonic_summation(c, s, lon, lat, LMAX=L,
                    MMAX=M), w, f'{L}:{M}:{i}{j}:rectangular', rtol=1e-11,
                    atol=1e-11)
    rec.sample({'truncations': lst[:3]})


@CHECK.block('single')
def single(rec, _):
    """grids of one longitude or one latitude"""
    for L in (1, 3):
        c, s = dense(L, L)
        for lat in ([90.0], [-12.0], [5.0, -5.0]):
            for lon in ([0.0], [123.0], [5.0, 50.0]):
                key = f'{L}:{lat}:{lon}'
                rec.case(key)
                with rec.guard(key):
                    g = gt.harmonic_summation(c, s, np.array(lon),
                        np.array(lat), LMAX=L)
                    rec.close(g, oracle(c, s, np.array(lon), np.array(lat), 0,
                        L, L), key, rtol=1e-11, atol=1e-11)


@CHECK.block('transform', params=sizes)
def transform(rec, lst):
    """fast transform: every basis, every number of longitudes"""
    for L, M in lst:
        for i, lat in enumerate(LATS):
            plm = gt.plm_holmes(L, np.cos(np.radians(90 - lat)))[0]
            for n in (2, 3, 4, 7, 12, 36):
                lon = np.linspace(0.0, 360.0, n + 1)
                for name, c, s in basis(L, L):
                    key = f'{L}:{M}:{i}:{n}:{name}'
                    rec.case(key)
                    args = (c.copy(), s.copy(), lon.copy(), lat.copy())
                    for lmin in ((0, 1, L) if name == 'dense' else (0,)):
                        w = oracle(c, s, lon, lat, lmin, L, M)
                        with rec.guard(key):
                            g = gt.harmonic_transform(*args, LMIN=lmin, LMAX=L,
                                MMAX=M)
                            rec.close(g, w, f'{key}:{lmin}', rtol=1e-11,
                                atol=1e-11)
                            g = gt.harmonic_transform(*args, LMIN=lmin, LMAX=L,
                                MMAX=M, PLM=plm)
                            rec.close(g, w, f'{key}:{lmin}:plm', rtol=1e-11,
                                atol=1e-11)
                    if M == L:
                        with rec.guard(key):
                            w = oracle(c, s, lon, lat, 0, L, M)
                            rec.close(gt.harmonic_transform(*args, LMAX=0), w,
                                key + ':size', rtol=1e-11, atol=1e-11)
                    for a, b in zip(args, (c, s, lon, lat)):
                        rec.eq(a, b, key + ':argument')
    # the transform is only defined for longitudes around the whole sphere
    c, s = dense(2, 2)
    for lon in (np.linspace(-180, 180, 7), np.linspace(0, 350, 36),
            np.linspace(10, 360, 36)):
        rec.raises(lambda: gt.harmonic_transform(c, s, lon, LATS[0], LMAX=2),
            f'refuses:{lon[0]}:{lon[-1]}')


def factor_cases(L):
    """every way of asking for a unit, with its degree dependent factors"""
    hl, kl, ll = ref.love(L)
    for u in UNITS:
        yield u, ref.unit_factor(u, L, hl, kl, ll)
    for i, u in enumerate(CODES):
        yield i, ref.unit_factor(u, L, hl, kl, ll)
    f = 2.0 + np.sin(np.arange(L + 1.0))
    yield f, f
    yield [float(v) for v in f], f


def unit_sizes(tier):
    return [(L, r) for L in ((2, 5) if tier == 'quick' else (2, 5, 9, 14))
        for r in (0, 250, 1000.75, 3000)]


@CHECK.block('units', params=unit_sizes)
def units(rec, par):
    """grid and point summation with units and filters"""
    L, rad = par
    hl, kl, ll = ref.love(L)
    LOVE = (hl, kl, ll)
    w_l = np.ones(L + 1) if rad == 0 else np.maximum(ref.gauss(rad, L), 0)
    lat, lon = LATS[0], LONS[0]
    plon = np.array([0.0, -180.0, 180.0, 33.0, 359.9, 90.0, 0.0])
    plat = np.array([90.0, 0.0, 12.0, -45.0, -89.9, 60.0, -90.0])
    for unit, f in factor_cases(L):
        uname = unit if isinstance(unit, (str, int)) else type(unit).__name__
        size = np.abs(f).max()
        for M in range(L + 1):
            for name, c, s in basis(L, L):
                if M < L and name != 'dense':
                    continue
                for lmin in ((0, 1, L) if name == 'dense' else (0,)):
                    key = f'{L}:{rad}:{uname}:{M}:{name}:{lmin}'
                    rec.case(key)
                    w = oracle(c, s, lon, lat, lmin, L, M, f*w_l)
                    tol = dict(rtol=1e-9, atol=1e-9*size)
                    with rec.guard(key + ':stokes'):
                        a = (c.copy(), s.copy())
                        g = gt.stokes_summation(*a, lon, lat, LMIN=lmin,
                            LMAX=L, MMAX=M, RAD=rad, UNITS=unit, LOVE=LOVE)
                        rec.close(g, w, key + ':stokes', **tol)
                        rec.eq(a[0], c, key + ':arg')
                        rec.eq(a[1], s, key + ':arg')
                    if M < L or lmin:
                        continue
                    want = np.diag(oracle(c, s, plon, plat, 0, L, L, f*w_l))
                    with rec.guard(key + ':points'):
                        g = gt.clenshaw_summation(*a, plon, plat, RAD=rad,
                            UNITS=unit, LMAX=L, LOVE=LOVE)
                        rec.close(g, want, key + ':points', **tol)
                        rec.eq(a[0], c, key + ':points:arg')
                        rec.eq(a[1], s, key + ':points:arg')
    for bad in ('furlongs', 99, None, 1.5):
        c, s = dense(L, L)
        rec.raises(lambda: gt.stokes_summation(c, s, lon, lat, LMAX=L,
            UNITS=bad, LOVE=LOVE), f'{L}:{rad}:unknown:{bad}')
        rec.raises(lambda: gt.clenshaw_summation(c, s, plon, plat, LMAX=L,
            UNITS=bad, LOVE=LOVE), f'{L}:{rad}:unknown points:{bad}')


def point_sizes(tier):
    return [0, 1, 2, 3, 4, 6, 8] if tier == 'quick' else \
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16]


@CHECK.block('points', params=point_sizes)
def points(rec, L):
    """scattered points: every basis, position, precision and truncation"""
    lat, lon = np.meshgrid(np.array([90.0, 89.9, 45.0, 0.0, -0.1, -60.0,
        -90.0]), np.array([-180.0, -90.0, 0.0, 1.0, 180.0, 270.0, 360.0]))
    lat, lon = lat.ravel(), lon.ravel()
    one = np.ones(L + 1)
    LOVE = ref.love(L)
    for name, c, s in basis(L, L):
        w = ref.synth(c, s, lon, lat)
        w = np.diag(w)
        key = f'{L}:{name}'
        rec.case(key)
        for t in (np.longdouble, np.float64):
            with rec.guard(f'{key}:{t.__name__}'):
                g = gt.clenshaw_summation(c, s, lon, lat, LMAX=L, LOVE=LOVE,
                    ASTYPE=t)
                rec.close(g, w, f'{key}:{t.__name__}', rtol=1e-10, atol=1e-10)
        with rec.guard(key + ':scale'):
            g = gt.clenshaw_summation(c, s, lon, lat, LMAX=L, UNITS=one,
                SCALE=1.0)
            rec.close(g, w, key + ':scale', rtol=1e-10, atol=1e-10)
        with rec.guard(key + ':size'):
            # an unspecified degree is that of the coefficients
            g = gt.clenshaw_summation(c, s, lon, lat, UNITS=one)
            rec.close(g, w, key + ':size', rtol=1e-10, atol=1e-10)
        with rec.guard(key + ':one'):
            for i in range(0, len(lat), 5):
                g = gt.clenshaw_summation(c, s, lon[i:i+1], lat[i:i+1],
                    LMAX=L, UNITS=one)
                rec.close(g, w[i:i+1], f'{key}:one', rtol=1e-10, atol=1e-10)
    with rec.guard(f'{L}:larger'):
        c, s = dense(L + 2, L + 2)
        if L:
            g = gt.clenshaw_summation(c, s, lon, lat, LMAX=L, UNITS=one)
            rec.close(g, np.diag(ref.synth(c[:L+1, :L+1], s[:L+1, :L+1], lon,
                lat)), f'{L}:larger', rtol=1e-10, atol=1e-10)
    for M in range(L):
        # coefficients truncated in order
        with rec.guard(f'{L}:{M}:orders'):
            c, s = dense(L, M)
            g = gt.clenshaw_summation(c[:, :M + 1], s[:, :M + 1], lon, lat,
                LMAX=L, UNITS=one)
            rec.close(g, np.diag(ref.synth(c[:, :M + 1], s[:, :M + 1], lon,
                lat)), f'{L}:{M}:orders', rtol=1e-10, atol=1e-10)
    c, s = dense(L, L)
    rec.raises(lambda: gt.clenshaw_summation(c, s, lon, lat[:-1], LMAX=L,
        UNITS=one), f'{L}:mismatch')
    rec.sample({'degree': L, 'points': len(lat)})


@CHECK.block('agreement', params=lambda tier: [20, 40] if tier == 'quick'
    else [20, 40, 60, 90, 120])
def agreement(rec, L):
    """the routines agree at larger degrees, including close to the poles"""
    lat = np.array([90.0, 89.99, 60.5, 0.0, -15.0, -89.5, -90.0])
    lon = np.linspace(0, 360, 25)
    c, s = dense(L, L)
    for M in (0, 1, L//2, L - 1, L):
        key = f'{L}:{M}'
        rec.case(key)
        a, b = c[:, :M+1], s[:, :M+1]
        w = ref.synth(a, b, lon, lat).T
        tol = dict(rtol=1e-9, atol=1e-9*L)
        with rec.guard(key):
            rec.close(gt.harmonic_summation(c, s, lon, lat, LMAX=L, MMAX=M), w,
                key + ':sum', **tol)
            rec.close(gt.harmonic_transform(c, s, lon, lat, LMAX=L, MMAX=M), w,
                key + ':fft', **tol)
            full_c, full_s = np.zeros((2, L+1, L+1))
            full_c[:, :M+1], full_s[:, :M+1] = a, b
            for i, v in enumerate(lon):
                g = gt.clenshaw_summation(full_c, full_s, np.full(len(lat), v),
                    lat, LMAX=L, UNITS=np.ones(L + 1))
                rec.close(g, w[i], key + ':points', **tol)
