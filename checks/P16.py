"""P16: gradients are the derivatives of the synthesised field"""
import numpy as np
import mc
import ref
import gravity_toolkit as gt
from checks.P14 import basis, dense

CHECK = mc.Check('P16', level='bounded_exhaustive',
    rule='distinct (truncation, basis coefficient, position grid, option) '
    'gradient or current fields compared with the analytic derivatives',
    assumptions=['gradients are per radian, zonal to the east (with the '
        'sine of colatitude) and meridional to the north',
        'the currents follow the series of Wahr et al. (2002) as documented: '
        'no degree-zero term, the field truncated at the maximum degree, '
        'zonal to the east and meridional to the south',
        'positions at the poles and, for currents, at the equator are '
        'singular and excluded'])

LON = (np.arange(-180.0, 181.0, 40.0), np.arange(0.0, 360.0, 60.0),
    np.array([17.0]))
LAT = (np.array([85.0, 62.0, 31.0, 5.0, -12.0, -45.0, -70.0, -88.0]),
    np.array([-75.0, -33.0, 12.0, 50.0]), np.array([-28.0]))


def gradient(c, s, lon, lat):
    """(east, north) derivatives of the series: two (nlon, nlat) fields"""
    L = c.shape[0] - 1
    th = np.radians(90 - lat)
    p, d = ref.plm_fast(L, np.cos(th)), ref.dplm_theta(L, np.cos(th))
    ph = np.radians(lon)
    east, north = np.zeros((2, len(lon), len(lat)))
    for m in range(c.shape[1]):
        C, S = np.cos(m*ph)[:, None], np.sin(m*ph)[:, None]
        for l in range(m, L + 1):
            east += m*(s[l, m]*C - c[l, m]*S)*p[l, m]/np.sin(th)
            north -= (c[l, m]*C + s[l, m]*S)*d[l, m]
    return east, north


def sizes(tier):
    top = 6 if tier == 'quick' else 12
    out = [(L, M) for L in range(1, top + 1) for M in range(0, L + 1)]
    if tier != 'quick':
        out += [(20, 20), (21, 8), (30, 30)]
    return [out[i::12] for i in range(12)]


def fields(L, M):
    yield from basis(L, M)


@CHECK.block('gradients', params=sizes)
def gradients(rec, lst):
    for L, M in lst:
        for name, c, s in fields(L, M):
            for i, lon in enumerate(LON):
                for j, lat in enumerate(LAT):
                    if L > 12 and (name != 'dense' and (i or j)):
                        continue
                    key = f'{L}:{M}:{name}:{i}:{j}'
                    rec.case(key)
                    e, n = gradient(c, s, lon, lat)
                    a, b = lon.copy(), lat.copy()
                    c1, s1 = c.copy(), s.copy()
                    with rec.guard(key):
                        g = gt.harmonic_gradients(c1, s1, a, b, LMAX=L,
                            MMAX=M)
                        rec.check(g.shape == e.shape + (2,), key + ':shape')
                        rec.close(g[:, :, 0], e, key + ':zonal', rtol=0,
                            atol=1e-9*L*L)
                        rec.close(g[:, :, 1], n, key + ':meridional', rtol=0,
                            atol=1e-9*L*L)
                    rec.check(np.array_equal(a, lon) and np.array_equal(b, lat)
                        and np.array_equal(c1, c) and np.array_equal(s1, s),
                        key + ':inputs')
    rec.sample({'truncation': (L, M), 'coefficient': name})


@CHECK.block('truncation', params=sizes)
def truncation(rec, lst):
    """degrees and orders outside the bounds do not contribute"""
    lon, lat = LON[0], LAT[0]
    for L, M in lst:
        c, s = dense(L + 2, L + 2)
        for lmin in range(0, L + 1):
            key = f'{L}:{M}:{lmin}'
            rec.case(key)
            c1, s1 = c[:L+1, :M+1].copy(), s[:L+1, :M+1].copy()
            c1[:lmin] = s1[:lmin] = 0
            e, n = gradient(c1, s1, lon, lat)
            tol = dict(rtol=0, atol=1e-8*L*L)
            with rec.guard(key):
                g = gt.harmonic_gradients(c, s, lon, lat, LMIN=lmin, LMAX=L,
                    MMAX=M)
                rec.close(g, np.stack([e, n], -1), key, **tol)
                if M == L:
                    g = gt.harmonic_gradients(c, s, lon, lat, LMIN=lmin,
                        LMAX=L)
                    rec.close(g, np.stack([e, n], -1), key + ':mmax', **tol)
                    g = gt.harmonic_gradients(c[:L+1, :L+1], s[:L+1, :L+1],
                        lon, lat, LMIN=lmin, LMAX=0)
                    rec.close(g, np.stack([e, n], -1), key + ':lmax', **tol)


def flow(c, s, lon, lat, L, M, kl, rad, rho, lmin):
    """the documented series, each degree of the pressure field separately"""
    E = ref.Earth
    th = np.radians(90 - lat)
    x, y = np.cos(th), np.sin(th)
    p = ref.plm_fast(L + 1, x)
    ph = np.radians(lon)
    w = ref.gauss(rad, L) if rad else np.ones(L + 1)
    k0 = E.g*E.rho/(6*E.omega*rho)
    u, v = np.zeros((2, len(lon), len(lat)))
    for n in range(L + 1):
        for m in range(min(n, M) + 1):
            C, S = np.cos(m*ph)[:, None], np.sin(m*ph)[:, None]
            f = k0*(2*n + 1)/(1 + kl[n])
            # sin(theta) d/dtheta as neighbouring degrees
            up = n*np.sqrt(((n+1)**2 - m*m)/((2*n+1)*(2*n+3.0)))
            dn = -(n+1)*np.sqrt((n*n - m*m)/((2*n+1)*(2*n-1.0))) if n else 0
            for l, q in ((n + 1, up), (n - 1, dn)):
                if max(lmin, 1, m) <= l <= L:
                    u += f*q*w[l]*p[l, m]*(c[n, m]*C + s[n, m]*S)/(x*y)
            if n >= lmin:
                v += f*m*w[n]*p[n, m]*(c[n, m]*S - s[n, m]*C)/(x*y)
    return u, v


@CHECK.block('currents', params=sizes)
def currents(rec, lst):
    for L, M in lst:
        hl, kl, ll = ref.love(L)
        for name, c, s in fields(L, M):
            for i, lon in enumerate(LON):
                for j, lat in enumerate(LAT):
                    if L > 6 and name != 'dense' and (i or j):
                        continue
                    opts = [(0, 1.035, 0, 0)]
                    if i == j == 0:
                        opts += [(500, 1.035, 0, 0), (0, 1.02, 1, 1),
                            (300.5, 0.98, L, 0)]
                    for rad, rho, lmin, form in opts:
                        key = f'{L}:{M}:{name}:{i}:{j}:{rad}:{rho}:{lmin}'
                        rec.case(key)
                        u, v = flow(c, s, lon, lat, L, M, kl, rad, rho, lmin)
                        love = (hl, kl, ll)
                        if form:
                            love = gt.love_numbers().from_dict(
                                dict(hl=hl, kl=kl, ll=ll))
                        kw = dict(LMAX=L, MMAX=M, RAD=rad, DENSITY=rho,
                            LMIN=lmin, LOVE=love)
                        c1, s1 = c.copy(), s.copy()
                        size = max(1.0, np.abs(u).max(), np.abs(v).max())
                        with rec.guard(key):
                            q = gt.geostrophic_currents(c1, s1, lon, lat, **kw)
                            rec.check(q.shape == u.shape + (2,),
                                key + ':shape')
                            rec.close(q[:, :, 0], u, key + ':zonal', rtol=0,
                                atol=1e-9*size)
                            rec.close(q[:, :, 1], v, key + ':meridional',
                                rtol=0, atol=1e-9*size)
                            if name == 'dense':
                                P = gt.plm_holmes(L,
                                    np.sin(np.radians(lat)))[0]
                                q2 = gt.geostrophic_currents(c1, s1, lon, lat,
                                    PLM=P, **kw)
                                rec.close(q2, q, key + ':plm', rtol=1e-10,
                                    atol=1e-9*size)
                        rec.check(np.array_equal(c1, c) and
                            np.array_equal(s1, s), key + ':inputs')


@CHECK.block('geostrophy', params=sizes)
def geostrophy(rec, lst):
    """flow of fields within the truncation is the rotated gradient"""
    E = ref.Earth
    lon, lat = LON[0], LAT[0]
    for L, M in lst:
        hl, kl, ll = ref.love(L)
        f = E.g*E.rho*(2*np.arange(L + 1) + 1)/(6*E.omega*1.035*(1 + kl))
        for name, c, s in fields(L, M):
            c1, s1 = c.copy(), s.copy()
            # degree one reaches degree zero and the last degree the next one
            c1[:2] = s1[:2] = 0
            c1[L:] = s1[L:] = 0
            e, n = gradient(c1*f[:, None], s1*f[:, None], lon, lat)
            key = f'{L}:{M}:{name}'
            rec.case(key)
            with rec.guard(key):
                q = gt.geostrophic_currents(c1, s1, lon, lat, LMAX=L, MMAX=M,
                    LOVE=(hl, kl, ll))
                x = np.sin(np.radians(lat))
                size = max(1.0, np.abs(e).max(), np.abs(n).max())/0.08
                rec.close(q[:, :, 0], -n/x, key + ':zonal', rtol=0,
                    atol=1e-9*size)
                rec.close(np.abs(q[:, :, 1]), np.abs(e/x), key + ':speed',
                    rtol=0, atol=1e-9*size)
