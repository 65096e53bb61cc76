"""P08: scaling factors minimise the misfit and carry their own errors"""
import copy
import gzip
import io
import itertools
import math
import pathlib
import zipfile
from fractions import Fraction
import numpy as np
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P08', level='bounded_exhaustive',
    rule='distinct (pair of series, mask pattern, class, number of dates) '
    'combinations; each factor, error and magnitude is compared with the '
    'least squares solution in exact rational arithmetic',
    assumptions=['a factor that is exactly zero cannot be told from an '
    'invalid cell (the fill value of scaling factors is zero)'])

VALUES = (-2, 0, 1, 3)


def series(n):
    return [s for s in itertools.product(VALUES, repeat=n) if any(s)]


def oracle(x, y):
    """exact least squares factor of y on x, rms misfit, root sum square"""
    x, y = [Fraction(v) for v in x], [Fraction(v) for v in y]
    k = sum(a*b for a, b in zip(x, y))/sum(a*a for a in x)
    e = sum((k*a - b)**2 for a, b in zip(x, y))/len(x)
    m = sum(b*b for b in y)
    return float(k), math.sqrt(e), math.sqrt(m)


def grid(cls, data, mask, fill):
    g = cls(fill_value=fill)
    g.data = np.where(mask, fill, data).astype(np.float64)
    g.mask = mask.copy()
    ny, nx, nt = data.shape
    g.lon, g.lat = 3.0*np.arange(nx), 60.0 - 2.0*np.arange(ny)
    g.time, g.month = 2003.0 + np.arange(nt), 13 + 12*np.arange(nt)
    return g


def snap(g):
    return {k: copy.deepcopy(getattr(g, k)) for k in ('data', 'mask', 'lon',
        'lat', 'time', 'month', 'fill_value')}


def unchanged(rec, g, s, key):
    for k, v in s.items():
        rec.eq(getattr(g, k), v, f'{key}:input changed {k}')


@CHECK.block('factor', params=lambda tier: [(n, c1, c2) for n in
    ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))
    for c1 in ('scaling_factors',)
    for c2 in ('spatial', 'scaling_factors')])
def factor(rec, p):
    """every pair of small integer series at once, one pair per cell"""
    n, c1, c2 = p
    pairs = [(x, y) for x in series(n) for y in series(n)
        if sum(a*b for a, b in zip(x, y)) != 0]
    nx = 8
    ny = -(-len(pairs)//nx)
    X, Y = np.ones((ny, nx, n)), np.ones((ny, nx, n))
    for i, (x, y) in enumerate(pairs):
        X[i//nx, i % nx], Y[i//nx, i % nx] = x, y
    want = np.array([[oracle(X[i, j], Y[i, j]) for j in range(nx)]
        for i in range(ny)])
    for fill, pat in itertools.product((-9999.0, np.nan),
            ('none', 'first', 'second', 'both', 'onedate')):
        i, j = np.indices((ny, nx))
        m1 = np.zeros(X.shape, bool)
        m2 = np.zeros(X.shape, bool)
        if pat in ('first', 'both'):
            m1 |= ((i + j) % 3 == 0)[..., None]
        if pat in ('second', 'both'):
            m2 |= ((i + 2*j) % 5 == 0)[..., None]
        if pat == 'onedate':
            m1[..., 0] |= (i + j) % 3 == 1
            m2[..., -1] |= (i + j) % 4 == 2
        key = f'{n}:{c1}:{c2}:{fill}:{pat}'
        with rec.guard(key):
            A = grid(getattr(gt, c1), X, m1, fill)
            B = grid(getattr(gt, c2), Y, m2, fill)
            sa, sb = snap(A), snap(B)
            K = A.kfactor(B)
            rec.case(key, n=len(pairs))
            unchanged(rec, A, sa, key + ':1')
            unchanged(rec, B, sb, key + ':2')
            bad = np.any(m1 | m2, axis=2)
            rec.eq(np.asarray(K.mask, bool), bad, key + ':mask')
            for q, name in enumerate(('data', 'error', 'magnitude')):
                v = np.where(bad, K.fill_value, want[..., q])
                rec.close(getattr(K, name), v, f'{key}:{name}', rtol=1e-12,
                    atol=3e-8 if name == 'error' else 1e-13)
            rec.check(isinstance(K, gt.scaling_factors), key + ':class')
            rec.eq(K.lon, A.lon, key + ':lon')
            rec.eq(K.lat, A.lat, key + ':lat')
            # a spatially uniform factor is recovered without error
            C = grid(gt.spatial, 2.5*X, m2, fill)
            K2 = A.kfactor(C)
            rec.close(K2.data, np.where(bad, K2.fill_value, 2.5), key + ':exact')
            rec.close(K2.error, np.zeros(bad.shape), key + ':exact:error',
                atol=1e-12)
            # perturbing a factor never improves the misfit
            for d in (-1e-3, 1e-3):
                e = np.sqrt(np.sum(((K.data + d)[..., None]*X - Y)**2,
                    axis=2)/n)
                rec.check(np.all((e >= K.error - 1e-9)[~bad]), key + ':minimum')


def sample(fill=0.0, pat=True):
    k = gt.scaling_factors(fill_value=fill)
    ny, nx = 4, 5
    i, j = np.indices((ny, nx))
    k.mask = ((i + 2*j) % 5 == 1) if pat else np.zeros((ny, nx), bool)
    k.data = np.where(k.mask, fill, 1.0 + 0.25*i - 0.125*j)
    k.error = np.where(k.mask, fill, 0.5 + 0.125*i + 0.0625*j)
    k.magnitude = np.where(k.mask, fill, 10.0 + i*j)
    k.lon, k.lat = 10.0 + 2.0*np.arange(nx), 40.0 - 2.0*np.arange(ny)
    return k


ATTR = ('data', 'error', 'magnitude', 'mask', 'lon', 'lat')


def compare(rec, G, k, key, atol=0.0):
    rec.check(isinstance(G, gt.scaling_factors), key + ':class',
        lambda: type(G).__name__)
    for a in ATTR:
        if not rec.check(getattr(G, a, None) is not None, f'{key}:no {a}'):
            continue
        v, w = getattr(G, a), getattr(k, a)
        if a in ('data', 'error', 'magnitude'):
            v, w = np.where(k.mask, 0, v), np.where(k.mask, 0, w)
        rec.close(v, w, f'{key}:{a}', rtol=0, atol=atol)


@CHECK.block('files')
def files(rec, param):
    tmp = pathlib.Path(rec.mkdir())
    for fill, pat, fmt in itertools.product((0.0, -9999.0, np.nan),
            (True, False), ('ascii', 'netCDF4', 'HDF5')):
        key = f'{fmt}:{fill}:{pat}'
        k = sample(fill, pat)
        keep = copy.deepcopy(k)
        f = tmp / f'k_{fill}_{pat}.{fmt}'
        kw = dict(date=False, field_mapping=dict(lon='lon', lat='lat',
            data='kfactor', error='error', magnitude='power'))
        with rec.guard(key):
            if fmt == 'ascii':
                k.to_ascii(f)
                ways = (dict(extent=[10.0, 18.0, 34.0, 40.0], nlat=4, nlon=5),
                    dict(extent=[10.0, 18.0, 34.0, 40.0], spacing=[2.0, 2.0]))
            else:
                at = {v: dict(units='1') for v in kw['field_mapping'].values()}
                at['ROOT'] = {}
                getattr(k, f'to_{fmt}')(f, attributes=at, **kw)
                ways = (kw,)
            compare(rec, k, keep, key + ':written')
            for i, w in enumerate(ways):
                G = getattr(gt.scaling_factors(fill_value=fill),
                    f'from_{fmt}')(f, **copy.deepcopy(w))
                compare(rec, G, k, f'{key}:{i}', 5.1e-5 if fmt == 'ascii'
                    else 0.0)
                rec.case((key, i))


@CHECK.block('copies')
def copies(rec, param):
    for fill, pat in itertools.product((0.0, -9999.0, np.nan), (True, False)):
        key = f'copy:{fill}:{pat}'
        k = sample(fill, pat)
        keep = copy.deepcopy(k)
        with rec.guard(key):
            c = k.copy()
            compare(rec, c, keep, key)
            for a in ATTR:
                x, y = getattr(c, a, None), getattr(k, a)
                if x is not None:
                    rec.check(not np.shares_memory(x, y), f'{key}:shared {a}')
            c2 = c.copy()
            c.data[0, 0] = c.error[0, 0] = c.magnitude[0, 0] = 77.0
            c.mask[0, 0] = True
            compare(rec, k, keep, key + ':source')
            compare(rec, c2, keep, key + ':second')
            rec.case(key)
        with rec.guard(key + ':mask'):
            # cells that become invalid lose factor, error and magnitude
            k.data[2, 2] = np.nan
            k.update_mask()
            for a in ('data', 'error', 'magnitude'):
                v = getattr(k, a)[2, 2]
                rec.check(v == fill or (v != v and fill != fill), f'{key}:{a}')
            rec.check(bool(k.mask[2, 2]), key + ':nan')
            rec.case(key + ':mask')
        with rec.guard(key + ':empty'):
            e = gt.scaling_factors(fill_value=fill)
            e.data, e.mask = k.data.copy(), k.mask.copy()
            e.lon, e.lat = k.lon.copy(), k.lat.copy()
            e2 = e.copy()
            rec.check(isinstance(e2, gt.scaling_factors), key + ':empty')
            rec.close(e2.data, e.data, key + ':empty:data')


@CHECK.block('apply')
def apply(rec, param):
    """scaled grids: the factor times the field, cell by cell"""
    k = sample(0.0)
    for nt in (None, 1, 3):
        g = gt.spatial(fill_value=-9999.0)
        shape = (4, 5) if nt is None else (4, 5, nt)
        g.data = np.arange(np.prod(shape), dtype=float).reshape(shape) - 7.5
        g.mask = np.zeros(shape, bool)
        g.mask[3, 4] = True
        g.data[g.mask] = -9999.0
        g.lon, g.lat = k.lon.copy(), k.lat.copy()
        g.time = np.float64(2003.0) if nt is None else 2003.0 + np.arange(nt)
        g.month = np.int64(13) if nt is None else 13 + np.arange(nt)
        with rec.guard(f'apply:{nt}'):
            s = g.scale(k.data)
            s.replace_invalid(-9999.0, mask=k.mask)
            m = np.broadcast_to(k.mask if nt is None else k.mask[..., None],
                shape) | g.mask
            f = k.data if nt is None else k.data[..., None]
            rec.eq(np.asarray(s.mask, bool), m, f'apply:{nt}:mask')
            rec.close(s.data, np.where(m, -9999.0, g.data*f), f'apply:{nt}')
            rec.case(nt)


AREAS = {'global': (0.0, 60.0, 7, 90.0, 60.0, 4), 'tenths': (0.0, 0.1, 31,
    90.0, 0.1, 12), 'thirds': (0.0, 1.0/3.0, 10, 90.0, 1.0/3.0, 5), 'west':
    (-180.0, 90.0, 5, 90.0, 45.0, 5), 'centred': (22.5, 45.0, 8, 67.5, 45.0,
    4), 'sixteenths': (0.0, 0.0625, 9, 90.0, 0.125, 5)}


@CHECK.block('text', params=lambda tier: list(AREAS))
def text(rec, area):
    """text files of every grid, description of the grid and container"""
    lon0, dlon, nlon, lat0, dlat, nlat = AREAS[area]
    tmp = pathlib.Path(rec.mkdir())
    i, j = np.indices((nlat, nlon))
    for mask, fill in itertools.product(('none', 'corner', 'scatter', 'row'),
            (0.0, -9999.0, np.nan)):
        k = gt.scaling_factors(fill_value=fill)
        k.mask = {'none': i < 0, 'corner': (i == 0) & (j == 0), 'scatter':
            (i + 2*j) % 4 == 1, 'row': i == 1}[mask]
        for n, v in (('data', 0.25 + (i*nlon + j)/7.0), ('error', (1.0 + i +
                j)/3.0), ('magnitude', 1e3/(1.0 + i*j))):
            setattr(k, n, np.where(k.mask, fill, v*(-1.0)**(i if n == 'data'
                else 0)))
        k.lon, k.lat = lon0 + dlon*np.arange(nlon), lat0 - dlat*np.arange(nlat)
        f = tmp/'k.txt'
        key = f'{area}:{mask}:{fill}'
        with rec.guard(key + ':write'):
            k.to_ascii(f)
        ext = [lon0, lon0 + dlon*(nlon-1), lat0 - dlat*(nlat-1), lat0]
        for how, w in (('n', dict(extent=ext, nlat=nlat, nlon=nlon)), ('s',
                dict(extent=ext, spacing=[dlon, dlat])), ('all', dict(extent=ext,
                nlat=nlat, nlon=nlon, spacing=[dlon, dlat])), ('global', dict(
                nlat=nlat, nlon=nlon, spacing=[dlon, dlat]))):
            if how == 'global' and (lon0 != 0.0 or mask == 'row'):
                continue
            for cont in (None, 'gzip', 'zip', 'bytes'):
                kk = f'{key}:{how}:{cont}'
                with rec.guard(kk):
                    G = gt.scaling_factors(fill_value=fill).from_ascii(package(
                        f, cont), compression=cont, **copy.deepcopy(w))
                    compare(rec, G, k, kk, 5.1e-5)
                    rec.eq(np.asarray(G.mask, bool), k.mask, kk + ':mask')
                rec.case(kk)
        # columns in any order below lines of a header
        cols = ('lon', 'lat', 'kfactor', 'error', 'magnitude')
        if mask == 'scatter':
            for perm in itertools.permutations(cols):
                with open(f, 'w') as fid:
                    fid.write('head 1\nhead 2\n')
                    for y, x in zip(*np.nonzero(~k.mask)):
                        v = dict(lon=k.lon[x], lat=k.lat[y], kfactor=k.data[y,
                            x], error=k.error[y, x], magnitude=k.magnitude[y, x])
                        fid.write(' '.join(f'{v[c]:.6f}' for c in perm) + '\n')
                kk = f'{key}:{perm}'
                with rec.guard(kk):
                    G = gt.scaling_factors(fill_value=fill).from_ascii(f,
                        extent=ext, nlat=nlat, nlon=nlon, header=2,
                        columns=list(perm))
                    compare(rec, G, k, kk, 5.1e-7)
                rec.case(kk)


def package(path, container):
    if container == 'gzip':
        out = path.with_name(path.name + '.gz')
        out.write_bytes(gzip.compress(path.read_bytes()))
        return out
    if container == 'zip':
        out = path.with_name(path.name + '.zip')
        with zipfile.ZipFile(out, 'w') as z:
            z.write(path, path.name)
        return out
    return io.BytesIO(path.read_bytes()) if container else path
