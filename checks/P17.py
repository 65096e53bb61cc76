"""P17: point, disc and cap loads carry their mass to the right place"""
import itertools
import numpy as np
import mc
import ref
import gravity_toolkit as gt

CHECK = mc.Check('P17', level='bounded_exhaustive',
    rule='distinct (load type, position, size, truncation, unit) expansions '
    'compared with the rotated zonal expansion in textbook form',
    assumptions=['a cap given by its area, or loaded with a mass, uses the '
        'planar area pi r^2 of the documented reference; discs use the '
        'spherical area', 'Love numbers are given up to the maximum degree'])

LON = (-180.0, -97.5, 0.0, 30.0, 180.0, 359.0)
LAT = (90.0, 61.0, 0.0, -7.25, -89.5, -90.0)
E = ref.Earth


def sizes(tier):
    top = 6 if tier == 'quick' else 14
    out = [(tier, L, M) for L in range(0, top + 1) for M in range(0, L + 1)]
    out += [(tier, 30, 30), (tier, 40, 7)]
    if tier != 'quick':
        out += [(tier, 60, 60), (tier, 90, 45)]
    return [out[i::14] for i in range(14)]


def ylm(L, M, lon, lat):
    """cosine and sine harmonics at one position"""
    p = ref.plm_fast(L, np.sin(np.radians(lat)))[:, :M+1, 0]
    # exactly zero at the poles
    if abs(lat) == 90:
        p[:, 1:] = 0
    m = np.arange(M + 1)
    return p*np.cos(m*np.radians(lon)), p*np.sin(m*np.radians(lon))


def load_factor(L, kl):
    """coefficients of surface density (g/cm^2) to dimensionless"""
    l = np.arange(L + 1)
    return 3*(1 + kl)/((2*l + 1)*E.R*E.rho)


def result(rec, key, Y, c, s, L, M, noise=0.0):
    size = max(np.abs(c).max(), np.abs(s).max(), noise*1e-3)
    rec.check(Y.lmax == L and Y.mmax == M and Y.clm.shape == (L+1, M+1),
        key + ':truncation')
    rec.close(Y.clm, c, key + ':clm', rtol=0, atol=1e-11*size)
    rec.close(Y.slm, s, key + ':slm', rtol=0, atol=1e-11*size)


def units(L, kl):
    custom = 0.5 + np.arange(L + 1)**2/7.0
    return (1, 2, list(custom), custom)


@CHECK.block('points', params=sizes)
def points(rec, lst):
    for tier, L, M in lst:
        hl, kl, ll = ref.love(L)
        fac = load_factor(L, kl)/(4*np.pi*E.R**2)
        every = list(itertools.product(LON, LAT))
        sets = [[p] for p in every]
        sets += [[every[i], every[(7*i + 5) % len(every)]] for i in
            range(len(every))]
        sets += [every[i::6] for i in range(6)]
        # six different longitudes and latitudes
        sets += [[every[(i + 7*j) % 36] for j in range(6)] for i in range(6)]
        for k, pts in enumerate(sets):
            lon, lat = np.array(pts).T
            d = 1.0 + np.arange(len(pts))**2*np.where(k % 2, -0.7, 1.3)
            for u, unit in enumerate(units(L, kl)):
                if u > 1 and k % 5:
                    continue
                w = np.array(unit) if u > 1 else fac*(1e15 if u else 1)
                c, s = np.zeros((2, L + 1, M + 1))
                for x, y, v in zip(lon, lat, d):
                    a, b = ylm(L, M, x, y)
                    c += v*w[:, None]*a
                    s += v*w[:, None]*b
                key = f'{L}:{M}:{k}:{u}'
                rec.case(key)
                D, X, Y = d.copy(), lon.copy(), lat.copy()
                if len(pts) == 6:
                    # any shape of the points
                    D, X, Y = (v.reshape(2, 3) for v in (D, X, Y))
                keep = [v.copy() for v in (D, X, Y)]
                with rec.guard(key):
                    kw = {} if (M == L and k % 2) else dict(MMAX=M)
                    r = gt.gen_point_load(D, X, Y, LMAX=L, UNITS=unit,
                        LOVE=(hl, kl, ll), **kw)
                    result(rec, key, r, c, s, L, M)
                    if u == 0:
                        mass = E.rho*4/3*np.pi*E.R**3
                        rec.close(r.clm[0, 0]*mass/(1 + kl[0]), d.sum(),
                            key + ':mass', rtol=1e-12)
                rec.check(all(np.array_equal(v, w) for v, w in
                    zip((D, X, Y), keep)), key + ':inputs')
        for bad in (0, 3, 'g', None):
            rec.raises(lambda: gt.gen_point_load(d, lon, lat, LMAX=L,
                UNITS=bad, LOVE=(hl, kl, ll)), f'{L}:{M}:unknown unit {bad}')
    rec.sample({'truncation': (L, M), 'points': sets[-1]})


def window(L, x):
    """mean of the Legendre polynomials over a cap with cos(radius) x"""
    p = ref.plm_fast(L + 1, x)[:, 0, 0]/np.sqrt(2*np.arange(L + 2) + 1)
    g = np.zeros(L + 1)
    g[0] = (1 - x)/2
    for l in range(1, L + 1):
        g[l] = (p[l-1] - p[l+1])/(2*(2*l + 1))
    return g


def kinds(L, kl, area):
    """unit options with the surface density per unit of data"""
    l = np.arange(L + 1)
    f = load_factor(L, kl)
    custom = 0.5 + l**2/7.0
    yield 1, f
    yield 2, f*1e15/area
    yield 3, f/10
    yield custom, custom*(2*l + 1)
    yield list(custom), custom*(2*l + 1)


def positions(tier, L):
    every = list(itertools.product(LON, LAT))
    return every if L <= 4 else every[::5]


@CHECK.block('discs', params=sizes)
def discs(rec, lst):
    half = 2*np.pi*E.R**2/1e10
    for tier, L, M in lst:
        hl, kl, ll = ref.love(L)
        for lon, lat in positions(tier, L):
            a, b = ylm(L, M, lon, lat)
            plm = gt.plm_holmes(L, np.sin(np.radians(lat)))[0]
            for area in (1e4, 9e5, half*0.3, half, half*1.5, half*2):
                g = window(L, 1 - area/half)[:, None]
                for u, (unit, w) in enumerate(kinds(L, kl, area*1e10)):
                    for data in (1.0, -3.5):
                        key = f'{L}:{M}:{lon}:{lat}:{area:.4g}:{u}:{data}'
                        rec.case(key)
                        c, s = (data*w[:, None]*g*v for v in (a, b))
                        # windows are differences of Legendre polynomials
                        noise = np.abs(data*w).max()
                        kw = dict(UNITS=unit, LOVE=(hl, kl, ll))
                        if M < L or u:
                            kw['MMAX'] = M
                        with rec.guard(key):
                            result(rec, key, gt.gen_disc_load(data, lon, lat,
                                area, LMAX=L, **kw), c, s, L, M, noise)
                            if data < 0:
                                result(rec, key + ':plm', gt.gen_disc_load(
                                    data, lon, lat, area, LMAX=L,
                                    PLM=plm[:, :, 0] if plm.ndim == 3 else
                                    plm, **kw), c, s, L, M, noise)
                                arr = [np.array([v]) for v in (data, lon,
                                    lat)]
                                result(rec, key + ':array', gt.gen_disc_load(
                                    *arr, area, LMAX=L, **kw), c, s, L, M, noise)
                            if u == 1 and data > 0:
                                Y = gt.gen_disc_load(data, lon, lat, area,
                                    LMAX=L, MMAX=M, LOVE=(hl, kl, ll))
                                result(rec, key + ':default', Y, c, s, L, M, noise)
                                mass = E.rho*4/3*np.pi*E.R**3
                                rec.close(Y.clm[0, 0]*mass/(1 + kl[0]), 1e15,
                                    key + ':mass', rtol=1e-9)
        for bad in (0, 4, 'cmwe', None):
            rec.raises(lambda: gt.gen_disc_load(1.0, lon, lat, area, LMAX=L,
                UNITS=bad, LOVE=(hl, kl, ll)), f'{L}:{M}:unknown unit {bad}')


@CHECK.block('caps', params=sizes)
def caps(rec, lst):
    for tier, L, M in lst:
        hl, kl, ll = ref.love(L)
        for lon, lat in positions(tier, L):
            a, b = ylm(L, M, lon, lat)
            plm = gt.plm_holmes(L, np.sin(np.radians(lat)))[0]
            for deg in (0.1, 1.0, 10.0, 90.0, 150.0):
                al = np.radians(deg)
                g = window(L, np.cos(al))[:, None]
                area = np.pi*(al*E.R)**2
                for u, (unit, w) in enumerate(kinds(L, kl, area)):
                    for k, size in enumerate((dict(RAD_CAP=deg),
                            dict(AREA=area), dict(RAD_KM=al*E.R/1e5))):
                        data = (1.0, -3.5, 0.25)[k]
                        key = f'{L}:{M}:{lon}:{lat}:{deg}:{u}:{k}'
                        rec.case(key)
                        c, s = (data*w[:, None]*g*v for v in (a, b))
                        # windows are differences of Legendre polynomials
                        noise = np.abs(data*w).max()
                        kw = dict(LOVE=(hl, kl, ll), **size)
                        if u:
                            kw['UNITS'] = unit
                        if M < L or u:
                            kw['MMAX'] = M
                        with rec.guard(key):
                            result(rec, key, gt.gen_spherical_cap(data, lon,
                                lat, LMAX=L, **kw), c, s, L, M, noise)
                            if k == 1:
                                result(rec, key + ':plm',
                                    gt.gen_spherical_cap(data, lon, lat,
                                    LMAX=L, PLM=plm[:, :, 0] if plm.ndim == 3
                                    else plm, **kw), c, s, L, M, noise)
                                arr = [np.array([v]) for v in (data, lon,
                                    lat)]
                                result(rec, key + ':array',
                                    gt.gen_spherical_cap(*arr, LMAX=L, **kw),
                                    c, s, L, M, noise)
        for bad in (0, 4, 'cmwe', None):
            rec.raises(lambda: gt.gen_spherical_cap(1.0, lon, lat, LMAX=L,
                RAD_CAP=1.0, UNITS=bad, LOVE=(hl, kl, ll)),
                f'{L}:{M}:unknown unit {bad}')
        rec.raises(lambda: gt.gen_spherical_cap(1.0, lon, lat, LMAX=L,
            LOVE=(hl, kl, ll)), f'{L}:{M}:no size')


@CHECK.block('limits', params=lambda t: [4, 12] if t == 'quick' else
    [4, 12, 30, 60])
def limits(rec, L):
    """vanishing discs and caps tend to the point load of the same mass"""
    love = ref.love(L)
    for lon, lat in itertools.product(LON, LAT):
        P = gt.gen_point_load(np.array([1.0]), np.array([lon]),
            np.array([lat]), LMAX=L, UNITS=2, LOVE=love)
        size = max(np.abs(P.clm).max(), np.abs(P.slm).max())
        rec.case((lon, lat))
        with rec.guard(f'{L}:{lon}:{lat}'):
            last = None
            for km in (300.0, 30.0, 3.0):
                D = gt.gen_disc_load(1.0, lon, lat, np.pi*km**2, LMAX=L,
                    LOVE=love)
                C = gt.gen_spherical_cap(1.0, lon, lat, RAD_KM=km, UNITS=2,
                    LMAX=L, LOVE=love)
                tol = 3*((L + 1)*km/6371.0)**2 + 1e-6
                for n, Y in (('disc', D), ('cap', C)):
                    key = f'{L}:{lon}:{lat}:{km}:{n}'
                    rec.close(Y.clm, P.clm, key + ':clm', rtol=0,
                        atol=tol*size)
                    rec.close(Y.slm, P.slm, key + ':slm', rtol=0,
                        atol=tol*size)
