"""P25: land and ocean functions are complementary"""
import itertools
import os
import pathlib
import numpy as np
import netCDF4
import mc
import ref
import gravity_toolkit as gt
from checks.P15 import quadrature, regular

CHECK = mc.Check('P25', level='bounded_exhaustive',
    rule='distinct (mask pattern, grid, truncation, simplification) land and '
    'ocean functions compared with the defining sums',
    assumptions=['masks are global latitude by longitude grids',
        'rows next to the poles are reflected when searching isolated points'])


def write(path, data, lon, lat, name='LSMASK', dtype='i1'):
    with netCDF4.Dataset(path, 'w') as f:
        f.createDimension('lat', len(lat))
        f.createDimension('lon', len(lon))
        for n, v in (('lat', lat), ('lon', lon)):
            f.createVariable(n, 'f8', (n,))[:] = v
        f.createVariable(name, dtype, ('lat', 'lon'))[:] = data


def isolated(land):
    """land cells with at most one land neighbour"""
    n, m = land.shape
    out = np.zeros((n, m), dtype=bool)
    for i, j in np.argwhere(land):
        nb = [(i, (j + 1) % m), (i, (j - 1) % m),
            (i - 1 if i else 1, j), (i + 1 if i < n - 1 else n - 2, j)]
        out[i, j] = sum(bool(land[p]) for p in nb) <= 1
    return out


def expect(land, lon, lat, L, M, love):
    th = np.radians(90 - lat)
    w = np.sin(th)*np.radians(abs(lon[1] - lon[0]))*abs(th[1] - th[0])
    hl, kl, ll = love
    fac = 3*(1 + kl)/(2*np.arange(L + 1) + 1)/(4*np.pi*ref.Earth.R*
        ref.Earth.rho)
    out = []
    for f in (land, 1.0 - land):
        c, s = quadrature(f, lon, lat, L, M, w)
        out.append((c*fac[:, None], s*fac[:, None]))
    return out, w.sum()*len(lon)/(4*np.pi), fac


def judge(rec, key, path, codes, lon, lat, L, M, simple, love, **kw):
    land = ((codes >= 1) & (codes <= 3)).astype(float)
    if simple:
        land[isolated(land)] = 0
    (wl, wo), total, fac = expect(land, lon, lat, L, M, love)
    tol = dict(rtol=1e-10, atol=1e-13*fac.max()*4*np.pi)
    with rec.guard(key):
        opt = dict(LOVE=love, **kw)
        if M < L:
            opt['MMAX'] = M
        if simple:
            opt['SIMPLIFY'] = True
        A = gt.land_stokes(path, L, **opt)
        B = gt.ocean_stokes(path, L, **opt)
        for Y, (c, s), n in ((A, wl, 'land'), (B, wo, 'ocean')):
            rec.check(Y.lmax == L and Y.mmax == M and
                Y.clm.shape == (L + 1, M + 1), f'{key}:{n}:truncation')
            rec.close(Y.clm, c, f'{key}:{n}:clm', **tol)
            rec.close(Y.slm, s, f'{key}:{n}:slm', **tol)
        # both together cover the Earth
        E = ref.Earth
        unit = (A.clm[0, 0] + B.clm[0, 0])*E.R*E.rho/3/(1 + love[1][0])
        rec.close(unit, total, key + ':unit', rtol=1e-12)


@CHECK.block('patterns', params=lambda t: [(t, i) for i in range(16)],
    timeout=600)
def patterns(rec, arg):
    """every land pattern of a small grid"""
    tier, part = arg
    d = rec.mkdir()
    path = os.path.join(d, 'mask.nc')
    shapes = ((2, 5), (3, 3), (3, 4)) if tier != 'quick' else ((2, 4),
        (3, 3), (3, 4))
    for shape in shapes:
        n = shape[0]*shape[1]
        lon, lat = regular(shape[0], shape[1], 0, 0, 0.0)
        step = 1 if tier != 'quick' or n < 10 else 4
        for k in range(part, 2**n, 16*step):
            codes = np.array([(k >> i) & 1 for i in range(n)]).reshape(shape)
            write(path, codes, lon, lat)
            for simple in (False, True):
                key = f'{shape}:{k}:{simple}'
                rec.case(key)
                judge(rec, key, path, codes, lon, lat, 2, 2, simple,
                    ref.love(2))
    rec.sample({'shape': shape, 'pattern': codes.tolist()})


@CHECK.block('codes', params=lambda t: [(t, i) for i in range(7)])
def codes(rec, arg):
    """every mask value in every cell, grids, names and truncations"""
    tier, part = arg
    d = rec.mkdir()
    grids = [(4, 7, 0, 0, 0.0), (5, 6, 1, 0, -180.0), (4, 9, 0, 1, 10.0),
        (3, 4, 1, 1, 0.0), (6, 5, 0, 0, -170.0), (8, 16, 0, 1, -180.0),
        (6, 6, 0, 0, 0.0)]
    g = grids[part]
    lon, lat = regular(*g)
    i, j = np.mgrid[:len(lat), :len(lon)]
    trunc = [(3, 3), (3, 1), (1, 0)]
    if tier != 'quick':
        trunc += [(L, M) for L in range(0, 8) for M in range(L + 1)]
    for v in range(5):
        cells = list(np.ndindex(len(lat), len(lon)))
        fields = [(c, None) for c in cells[::3 if tier == 'quick' else 1]]
        fields += [('dense', (i*3 + j*5 + v) % 5), ('full',
            np.full(i.shape, v)), ('rows', np.where(i % 2, v, 0)),
            ('columns', np.where(j % 3, v, 4))]
        for name, f in fields:
            if f is None:
                f = np.zeros(i.shape, dtype=int)
                f[name] = v
            for t, (L, M) in enumerate(trunc):
                if isinstance(name, tuple) and t > 2:
                    continue
                kw = {}
                var = 'LSMASK'
                if t == 1:
                    kw['VARNAME'] = var = 'land'
                path = os.path.join(d, 'm.nc')
                write(path, f, lon, lat, var, 'i1' if t else 'f8')
                for simple in (False, True):
                    key = f'{g}:{v}:{name}:{L}:{M}:{simple}'
                    rec.case(key)
                    p = pathlib.Path(path) if t % 2 else path
                    judge(rec, key, p, f, lon, lat, L, M, simple,
                        ref.love(L), **kw)
    for fn in (gt.ocean_stokes, gt.land_stokes):
        rec.raises(lambda: fn(os.path.join(d, 'none.nc'), 2,
            LOVE=ref.love(2)), 'missing file')
    rec.sample({'grid': g, 'codes': f.tolist()})


@CHECK.block('isolated', params=lambda t: [(t, s) for s in ((2, 3), (3, 3),
    (3, 4), (4, 3), (2, 6)) + (() if t == 'quick' else ((4, 4), (3, 5),
    (5, 3)))])
def isolated_points(rec, arg):
    """every pattern of small masks"""
    from gravity_toolkit.ocean_stokes import find_isolated_points
    tier, shape = arg
    n = shape[0]*shape[1]
    for k in range(2**n):
        m = np.array([float((k >> i) & 1) for i in range(n)]).reshape(shape)
        rec.case((shape, k))
        a = m.copy()
        with rec.guard(f'{shape}:{k}'):
            rec.eq(np.asarray(find_isolated_points(a)).astype(bool),
                isolated(m), f'{shape}:{k}')
        rec.eq(a, m, f'{shape}:{k}:input')
