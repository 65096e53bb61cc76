"""P15: analysis of a synthesised field returns the original coefficients"""
import itertools
import numpy as np
import mc
import ref
import gravity_toolkit as gt
from checks.P14 import basis, dense

CHECK = mc.Check('P15', level='bounded_exhaustive',
    rule='distinct (method, grid, orientation, truncation, unit, basis '
    'coefficient) analyses against exact recovery or the defining quadrature',
    assumptions=['grids are regular, cover each longitude once and resolve '
        'the field; a square array is latitude by longitude',
        'the quadrature methods are compared with their defining sum, which '
        'converges to the coefficients'])


def regular(nlat, nlon, poles, south, lon0):
    """regular global grid: cell centred or including the poles"""
    if poles:
        lat = np.linspace(90.0, -90.0, nlat)
    else:
        d = 180.0/nlat
        lat = 90.0 - d/2 - d*np.arange(nlat)
    lon = lon0 + 360.0/nlon*np.arange(nlon)
    return lon, (lat[::-1].copy() if south else lat)


def grids(L, tier):
    out = []
    for poles, south, lon0 in itertools.product((0, 1), (0, 1), (0.0, -180.0)):
        n = L + 1 + poles
        for nlat, nlon in ((max(n, 2), 2*L + 2), (n + 3, 2*L + 5)):
            if poles and nlat < 3:
                continue
            out.append((nlat, nlon, poles, south, lon0))
    if tier != 'quick':
        out += [(n + 8, 3*L + 7, p, s, 7.5) for n in (L + 1,) for p in (0, 1)
            for s in (0, 1)]
    return out


def sizes(tier):
    top = 6 if tier == 'quick' else 10
    out = [(tier, L, M) for L in range(1, top + 1) for M in range(0, L + 1)]
    return [out[i::12] for i in range(12)]


def result(rec, key, Y, c, s, L, M, **tol):
    rec.check(Y.lmax == L and Y.mmax == M, key + ':truncation',
        lambda: f'{Y.lmax} {Y.mmax}')
    rec.close(Y.clm, c[:L+1, :M+1], key + ':clm', **tol)
    rec.close(Y.slm, s[:L+1, :M+1], key + ':slm', **tol)


@CHECK.block('fourier', params=sizes)
def fourier(rec, lst):
    """Fourier analysis is exact for fields it resolves"""
    tol = dict(rtol=0, atol=1e-10)
    for tier, L, M in lst:
        plm = gt.fourier_legendre(L, M)
        for gi, g in enumerate(grids(L, tier)):
            lon, lat = regular(*g)
            for name, c, s in basis(L, M):
                # the field may hold orders that are not asked for
                field = ref.synth(c, s, lon, lat)
                for turned in (False, True):
                    if turned and len(lon) == len(lat):
                        continue
                    d = field.T.copy() if turned else field.copy()
                    keep = d.copy()
                    key = f'{L}:{M}:{g}:{turned}:{name}'
                    rec.case(key)
                    a, b = lon.copy(), lat.copy()
                    with rec.guard(key):
                        Y = gt.gen_harmonics(d, a, b, LMAX=L, MMAX=M,
                            METHOD='fourier')
                        result(rec, key, Y, c, s, L, M, **tol)
                        if name == 'dense':
                            Y = gt.gen_harmonics(d, a, b, LMAX=L, MMAX=M,
                                METHOD='Fourier', PLM=plm)
                            result(rec, key + ':plm', Y, c, s, L, M, **tol)
                            if M == L:
                                Y = gt.gen_harmonics(d, a, b, LMAX=L,
                                    METHOD='fourier')
                                result(rec, key + ':default', Y, c, s, L, M,
                                    **tol)
                    rec.eq(d, keep, key + ':data')
                    rec.eq(a, lon, key + ':lon')
                    rec.eq(b, lat, key + ':lat')
    rec.sample({'truncation': lst[0][1:], 'grid': g})


@CHECK.block('orders', params=sizes)
def orders(rec, lst):
    """orders above the truncation do not leak into the others"""
    for tier, L, M in lst:
        if M == L:
            continue
        c, s = dense(L, L)
        for g in grids(L, tier):
            lon, lat = regular(*g)
            key = f'{L}:{M}:{g}'
            rec.case(key)
            with rec.guard(key):
                Y = gt.gen_harmonics(ref.synth(c, s, lon, lat), lon, lat,
                    LMAX=L, MMAX=M, METHOD='fourier')
                result(rec, key, Y, c, s, L, M, rtol=0, atol=1e-10)


def quadrature(field, lon, lat, L, M, weight):
    """coefficient sums of field[lat, lon] with one weight per latitude"""
    p = ref.plm_fast(L, np.sin(np.radians(lat)))
    ph = np.radians(lon)
    c, s = np.zeros((2, L + 1, M + 1))
    for m in range(M + 1):
        fc = (field*np.cos(m*ph)).sum(axis=1)*weight
        fs = (field*np.sin(m*ph)).sum(axis=1)*weight
        for l in range(m, L + 1):
            c[l, m] = (p[l, m]*fc).sum()
            s[l, m] = (p[l, m]*fs).sum()
    return c, s


def cells(L):
    """every single cell of small grids, rows, and dense fields"""
    for g in ((4, 7, 0, 0, 0.0), (5, 6, 1, 0, -180.0), (4, 9, 0, 1, 10.0),
            (3, 4, 1, 1, 0.0), (6, 5, 0, 0, -170.0), (5, 5, 0, 0, 0.0)):
        lon, lat = regular(*g)
        for i in range(len(lat)):
            for j in range(len(lon)):
                f = np.zeros((len(lat), len(lon)))
                f[i, j] = 1.0
                yield g, (i, j), lon, lat, f
        y, x = np.mgrid[:len(lat), :len(lon)]
        yield g, 'dense', lon, lat, np.cos(1.0 + 2.3*y + 3.7*x)


@CHECK.block('integration', params=sizes)
def integration(rec, lst):
    for tier, L, M in lst:
        for g, pos, lon, lat, f in cells(L):
            th = np.radians(90 - lat)
            dl, dt = np.radians(abs(lon[1] - lon[0])), abs(th[1] - th[0])
            c, s = quadrature(f, lon, lat, L, M, np.sin(th)*dl*dt/(4*np.pi))
            plm = gt.plm_holmes(L, np.cos(th))[0]
            for turned in (False, True):
                if turned and len(lon) == len(lat):
                    continue
                key = f'{L}:{M}:{g}:{pos}:{turned}'
                rec.case(key)
                d = f.T.copy() if turned else f.copy()
                keep, a, b = d.copy(), lon.copy(), lat.copy()
                with rec.guard(key):
                    for kw in ({}, dict(METHOD='integration', PLM=plm)):
                        Y = gt.gen_harmonics(d, a, b, LMAX=L, MMAX=M, **kw)
                        result(rec, f'{key}:{len(kw)}', Y, c, s, L, M,
                            rtol=1e-10, atol=1e-13)
                    if M == L:
                        Y = gt.gen_harmonics(d, a, b, LMAX=L)
                        result(rec, key + ':default', Y, c, s, L, M,
                            rtol=1e-10, atol=1e-13)
                rec.eq(d, keep, key + ':data')
                rec.eq(a, lon, key + ':lon')
                rec.eq(b, lat, key + ':lat')
    rec.raises(lambda: gt.gen_harmonics(f, lon, lat, LMAX=2, METHOD='other'),
        'unknown method')


@CHECK.block('stokes', params=sizes)
def stokes(rec, lst):
    """unit factors, lower bounds and orientation of gen_stokes"""
    E = ref.Earth
    for tier, L, M in lst:
        hl, kl, ll = ref.love(L)
        l = np.arange(L + 1)
        cm = 3*(1 + kl)/(2*l + 1)/(4*np.pi*E.R*E.rho)
        custom = 0.5 + l**2/7.0
        for g, pos, lon, lat, f in cells(L):
            th = np.radians(90 - lat)
            area = np.sin(th)*np.radians(abs(lon[1]-lon[0]))*abs(th[1]-th[0])
            plm = gt.plm_holmes(L, np.cos(th))[0]
            for unit, fac, w in ((1, cm, area), (3, cm/10, area),
                    (2, cm, np.full(len(lat), 1e15/E.R**2)),
                    (custom, custom, area), (list(custom), custom, area)):
                if pos != 'dense' and not isinstance(unit, int):
                    continue
                c0, s0 = quadrature(f, lon, lat, L, M, w)
                for lmin in ((0, 1, L) if pos == 'dense' else (0,)):
                    c, s = c0*fac[:, None], s0*fac[:, None]
                    c[:lmin] = s[:lmin] = 0
                    for turned in (False, True):
                        if turned and len(lon) == len(lat):
                            continue
                        uk = unit if isinstance(unit, int) else \
                            type(unit).__name__
                        key = f'{L}:{M}:{g}:{pos}:{uk}:{lmin}:{turned}'
                        rec.case(key)
                        d = f.T.copy() if turned else f.copy()
                        keep, a, b = d.copy(), lon.copy(), lat.copy()
                        tol = dict(rtol=1e-10, atol=1e-13*np.abs(c0).max()*
                            np.abs(fac).max())
                        with rec.guard(key):
                            Y = gt.gen_stokes(d, a, b, LMIN=lmin, LMAX=L,
                                MMAX=M, UNITS=unit, LOVE=(hl, kl, ll))
                            result(rec, key, Y, c, s, L, M, **tol)
                            if pos == 'dense':
                                Y = gt.gen_stokes(d, a, b, LMIN=lmin, LMAX=L,
                                    MMAX=M, UNITS=unit, LOVE=(hl, kl, ll),
                                    PLM=plm)
                                result(rec, key + ':plm', Y, c, s, L, M, **tol)
                        rec.eq(d, keep, key + ':data')
                        rec.eq(a, lon, key + ':lon')
                        rec.eq(b, lat, key + ':lat')
        for bad in (0, 4, 'cmwe', None):
            rec.raises(lambda: gt.gen_stokes(f, lon, lat, LMAX=L, UNITS=bad,
                LOVE=(hl, kl, ll)), f'{L}:{M}:unknown unit {bad}')
    rec.sample({'truncation': lst[0][1:], 'unit': 'gigatonnes', 'grid': g})


@CHECK.block('loop', params=lambda t: [2, 4] if t == 'quick' else [2, 4, 8])
def loop(rec, L):
    """synthesis then analysis converges to the original coefficients"""
    hl, kl, ll = ref.love(L)
    lon, lat = regular(360, 720, 0, 0, 0.25)
    fac = ref.unit_factor('cmwe', L, hl, kl, ll)
    for name, c, s in basis(L, L):
        rec.case(name)
        with rec.guard(f'{L}:{name}'):
            f = gt.stokes_summation(c, s, lon, lat, LMAX=L, UNITS=1,
                LOVE=(hl, kl, ll))
            Y = gt.gen_stokes(f, lon, lat, LMAX=L, UNITS=1, LOVE=(hl, kl, ll))
            result(rec, f'{L}:{name}:stokes', Y, c, s, L, L, rtol=0,
                atol=3e-4*(1 + L))
            f = gt.harmonic_summation(c, s, lon, lat, LMAX=L)
            for m in ('integration', 'fourier'):
                Y = gt.gen_harmonics(f, lon, lat, LMAX=L, METHOD=m)
                result(rec, f'{L}:{name}:{m}', Y, c, s, L, L, rtol=0,
                    atol=3e-4*(1 + L) if m == 'integration' else 1e-10)
