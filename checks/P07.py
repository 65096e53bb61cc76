"""P07: spatial grids written to any format read back unchanged"""
import gzip
import io
import itertools
import pathlib
import zipfile
import numpy as np
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P07', level='bounded_exhaustive',
    rule='distinct (format, container, grid, dates, mask pattern, fill value, '
    'entry point) combinations written by the real writer, read by the real '
    'reader and compared cell by cell with the object that was written',
    assumptions=['no valid value equals the fill value',
    'text keeps 4 decimals; months are those of mid-month dates',
    'grids have at least two rows and columns'])

SUFFIX = {'ascii': 'txt', 'netCDF4': 'nc', 'HDF5': 'H5'}
MONTHS = {1: [14], 2: [15, 14], 3: [4, 118, 259]}

# name: (lon0, dlon, nlon, lat0, dlat, nlat)
GRIDS = {
    'global': (0.0, 60.0, 7, 90.0, 60.0, 4),
    'square': (0.0, 120.0, 4, 90.0, 60.0, 4),
    'tall': (0.0, 180.0, 3, 90.0, 30.0, 7),
    'region': (10.0, 0.1, 5, 60.0, 0.3, 4),
    'west': (-180.0, 90.0, 5, 90.0, 45.0, 5),
    'centred': (22.5, 45.0, 8, 67.5, 45.0, 4),
    'tenths': (0.0, 0.1, 31, 90.0, 0.1, 12),
    'thirds': (0.0, 1.0/3.0, 10, 90.0, 1.0/3.0, 5),
}


def pattern(shape, name):
    i, j = np.indices(shape[:2])
    n = shape[2] if len(shape) == 3 else 1
    k = np.arange(n)
    m = {'none': np.zeros(shape[:2] + (n,), bool),
        'corner': ((i == 0) & (j == 0))[..., None] & (k >= 0),
        'scatter': ((i + 2*j)[..., None] + k) % 4 == 1,
        'row': (i == 1)[..., None] & (k >= 0)}[name]
    return m if len(shape) == 3 else m[..., 0]


def build(grid, nt, mask, fill, date, decimals=None):
    lon0, dlon, nlon, lat0, dlat, nlat = GRIDS[grid]
    shape = (nlat, nlon) if nt is None else (nlat, nlon, nt)
    g = gt.spatial(fill_value=fill)
    n = int(np.prod(shape))
    d = ((np.arange(n) + 1.0)/7.0*(-1.0)**np.arange(n)).reshape(shape)
    if decimals is not None:
        d = np.round(d, decimals)
    g.mask = pattern(shape, mask)
    g.data = np.where(g.mask, fill, d) if fill is not None else d
    g.lon = lon0 + dlon*np.arange(nlon)
    g.lat = lat0 - dlat*np.arange(nlat)
    if date:
        mo = np.array(MONTHS[nt or 1])
        g.time = 2002.0 + (mo - 0.5)/12.0
        g.month = mo
        if nt is None:
            g.time, g.month = g.time[0], mo[0]
    return g


def snapshot(g):
    return {k: None if getattr(g, k, None) is None else np.array(getattr(g, k))
        for k in ('data', 'mask', 'lon', 'lat', 'time', 'month', 'error')}


def same(rec, g, snap, key):
    for k, v in snap.items():
        w = getattr(g, k, None)
        rec.eq(None if w is None else np.array(w), v,
            f'{key}:writer changed {k}')


def compare(rec, G, want, key, date, text=False, mask=True):
    if not rec.check(G is not None and getattr(G, 'data', None) is not None,
            key + ':none'):
        return
    wd, wm = want['data'], want['mask']
    if wd.ndim == 3 and wd.shape[2] == 1:
        wd, wm = wd[..., 0], wm[..., 0]
    gd, gm = np.asarray(G.data), np.asarray(G.mask, dtype=bool)
    if gd.ndim == 3 and gd.shape[2] == 1:
        gd, gm = gd[..., 0], gm[..., 0]
    if not rec.check(gd.shape == wd.shape, key + ':shape',
            lambda: f'{gd.shape} expected {wd.shape}'):
        return
    if mask:
        rec.eq(gm, wm, key + ':mask')
    rec.close(np.where(wm, 0.0, gd), np.where(wm, 0.0, wd), key + ':data',
        rtol=0, atol=5.1e-5 if text else 0)
    tol = 5.1e-5 if text else 0.0
    rec.close(np.asarray(G.lon), want['lon'], key + ':lon', rtol=0, atol=tol)
    rec.close(np.asarray(G.lat), want['lat'], key + ':lat', rtol=0, atol=tol)
    if date:
        rec.close(np.squeeze(G.time), np.squeeze(want['time']), key + ':time',
            rtol=0, atol=tol)
        rec.eq(np.squeeze(np.asarray(G.month)), np.squeeze(want['month']),
            key + ':month')


def package(path, container):
    path = pathlib.Path(path)
    if container == 'gzip':
        out = path.with_name(path.name + '.gz')
        with gzip.open(out, 'wb') as f:
            f.write(path.read_bytes())
        return out
    if container == 'zip':
        out = path.with_name(path.name + '.zip')
        with zipfile.ZipFile(out, 'w') as z:
            z.write(path, path.name)
        return out
    if container == 'bytes':
        return io.BytesIO(path.read_bytes())
    return path


def geometry(grid, how):
    lon0, dlon, nlon, lat0, dlat, nlat = GRIDS[grid]
    ext = [lon0, lon0 + dlon*(nlon-1), lat0 - dlat*(nlat-1), lat0]
    if how == 'extent+n':
        return dict(extent=ext, nlat=nlat, nlon=nlon)
    if how == 'extent+spacing':
        return dict(extent=ext, spacing=[dlon, dlat])
    if how == 'n+spacing':
        return dict(nlat=nlat, nlon=nlon, spacing=[dlon, dlat])
    return dict(extent=ext, nlat=nlat, nlon=nlon, spacing=[dlon, dlat])


def hows(grid):
    out = ['extent+n', 'extent+spacing', 'all']
    if grid not in ('region', 'west'):
        # the spacing alone describes a global grid
        out.append('n+spacing')
    return out


@CHECK.block('ascii', params=lambda tier: list(GRIDS))
def ascii_(rec, grid):
    tmp = pathlib.Path(rec.mkdir())
    i = 0
    for mask, fill, date in itertools.product(
            ('none', 'corner', 'scatter', 'row'), (-9999.0, np.nan, None),
            (True, False)):
        if fill is None and mask != 'none':
            pass
        g = build(grid, None, mask, fill, date)
        want = snapshot(g)
        i += 1
        f = tmp / f'a{i}.txt'
        key = f'{grid}:{mask}:{fill}:{date}'
        with rec.guard(key + ':write'):
            g.to_ascii(f, date=date)
            same(rec, g, want, key)
        for how, cont in itertools.product(hows(grid), (None, 'gzip', 'zip',
                'bytes')):
            if cont and how != 'extent+n':
                continue
            k = f'{key}:{how}:{cont}'
            rec.case(k)
            with rec.guard(k):
                G = gt.spatial(fill_value=fill).from_ascii(package(f, cont),
                    date=date, compression=cont, **geometry(grid, how))
                w = dict(want)
                if how == 'n+spacing':
                    # coordinates come from the listed cells alone
                    lon = np.where(wm_all(want['mask'], 0), 0.0, want['lon'])
                    lat = np.where(wm_all(want['mask'], 1), 0.0, want['lat'])
                    w.update(lon=lon, lat=lat)
                compare(rec, G, w, k, date, True)
        # lines in any order, header lines, fortran exponents
        with rec.guard(key + ':lines'):
            lines = f.read_text().splitlines()
            h = tmp / f'h{i}.txt'
            h.write_text('head 1\nhead 2\n' + '\n'.join(lines[::-1]) + '\n')
            G = gt.spatial(fill_value=fill).from_ascii(h, date=date, header=2,
                **geometry(grid, 'extent+n'))
            compare(rec, G, want, key + ':lines', date, True)
            rec.case(key + ':lines')
        if date:
            with rec.guard(key + ':nodate'):
                G = gt.spatial(fill_value=fill).from_ascii(f, date=False,
                    **geometry(grid, 'extent+n'))
                compare(rec, G, want, key + ':nodate', False, True)
                rec.case(key + ':nodate')
    # columns in another order
    g = build(grid, None, 'scatter', -9999.0, True)
    want = snapshot(g)
    for cols in itertools.permutations(('lon', 'lat', 'data', 'time')):
        key = f'{grid}:{cols}'
        with rec.guard(key):
            f = tmp / 'cols.txt'
            with open(f, 'w') as fid:
                for y, x in zip(*np.nonzero(~g.mask)):
                    v = dict(lon=g.lon[x], lat=g.lat[y], data=g.data[y, x],
                        time=g.time)
                    fid.write(' '.join(f'{v[c]:.6f}' for c in cols) + '\n')
            for date in (True, False):
                G = gt.spatial(fill_value=-9999.0).from_ascii(f, date=date,
                    columns=list(cols), **geometry(grid, 'extent+n'))
                compare(rec, G, want, f'{key}:{date}', date, True)
                rec.case((key, date))


def wm_all(mask, axis):
    return np.all(mask, axis=axis)


@CHECK.block('binary', params=lambda tier: [(f, g) for f in ('netCDF4', 'HDF5')
    for g in GRIDS])
def binary(rec, p):
    fmt, grid = p
    tmp = pathlib.Path(rec.mkdir())
    i = 0
    for nt, mask, fill, date in itertools.product((None, 1, 2, 3),
            ('none', 'corner', 'scatter', 'row'), (-9999.0, np.nan, None),
            (True, False)):
        if fill is None and mask != 'none':
            continue
        if fmt == 'netCDF4' and nt and not date:
            # several dates need a dimension for them
            continue
        if fmt == 'HDF5' and nt and not date:
            continue
        g = build(grid, nt, mask, fill, date)
        want = snapshot(g)
        key = f'{fmt}:{grid}:{nt}:{mask}:{fill}:{date}'
        for entry in ('direct', 'file'):
            i += 1
            f = tmp / f'b{i}.{SUFFIX[fmt]}'
            with rec.guard(key + ':write'):
                if entry == 'direct':
                    getattr(g, f'to_{fmt}')(f, date=date)
                else:
                    g.to_file(f, format=fmt, date=date, varname='data')
                same(rec, g, want, key)
            for cont in (None, 'gzip', 'zip', 'bytes'):
                k = f'{key}:{entry}:{cont}'
                rec.case(k)
                with rec.guard(k):
                    src = package(f, cont)
                    if entry == 'direct':
                        G = getattr(gt.spatial(), f'from_{fmt}')(src,
                            date=date, compression=cont)
                    else:
                        G = gt.spatial().from_file(src, format=fmt,
                            date=date, compression=cont, varname='data')
                    compare(rec, G, want, k, date)
                    if fill is not None:
                        rec.check(G.fill_value == fill or (fill != fill and
                            G.fill_value != G.fill_value), k + ':fill')
                    rec.check(G.ndim == np.ndim(G.data), k + ':ndim')


@CHECK.block('mapping', params=lambda tier: ['netCDF4', 'HDF5'])
def mapping(rec, fmt):
    """named variables, errors and metadata"""
    tmp = pathlib.Path(rec.mkdir())
    for grid, nt in itertools.product(('global', 'square', 'tall'),
            (None, 1, 2)):
        key = f'{fmt}:{grid}:{nt}'
        g = build(grid, nt, 'scatter', -9999.0, True)
        g.error = np.where(g.mask, -9999.0, np.abs(g.data)/3.0)
        want = snapshot(g)
        f = tmp / f'{grid}{nt}.{SUFFIX[fmt]}'
        fm = dict(lon='longitude', lat='latitude', data='ewh', error='sigma',
            time='epoch')
        at = {v: dict(units=v + '_units', long_name=v + ' name')
            for v in fm.values()}
        at['ROOT'] = dict(title='a title')
        with rec.guard(key):
            getattr(g, f'to_{fmt}')(f, field_mapping=dict(fm), attributes=at,
                date=True)
            same(rec, g, want, key)
            G = getattr(gt.spatial(), f'from_{fmt}')(f, field_mapping=dict(fm),
                date=True)
            compare(rec, G, want, key, True)
            rec.close(np.squeeze(G.error), np.squeeze(want['error']),
                key + ':error', rtol=0)
            rec.check(G.attributes['ROOT'].get('title') == 'a title' and
                G.attributes['data'].get('units') == 'ewh_units', key + ':attr')
            rec.case(key)
        with rec.guard(key + ':names'):
            f2 = tmp / f'n{grid}{nt}.{SUFFIX[fmt]}'
            nm = dict(varname='zz', lonname='xx', latname='yy', timename='tt')
            getattr(g, f'to_{fmt}')(f2, units='cm', longname='height',
                title='t2', **nm)
            G = getattr(gt.spatial(), f'from_{fmt}')(f2, **nm)
            compare(rec, G, want, key + ':names', True)
            rec.check(G.attributes['data'].get('units') == 'cm' and
                G.attributes['data'].get('long_name') == 'height' and
                G.attributes['ROOT'].get('title') == 't2', key + ':names:attr')
            rec.case(key + ':names')


@CHECK.block('index', params=lambda tier: list(SUFFIX))
def index(rec, fmt):
    """archives of one file per month"""
    for grid, nt, mask, date in itertools.product(('global', 'square',
            'region'), (2, 3), ('none', 'corner', 'scatter'), (True, False)):
        g = build(grid, nt, mask, -9999.0, True)
        want = snapshot(g)
        kw = geometry(grid, 'extent+n') if fmt == 'ascii' else {}
        for order in itertools.permutations(range(nt)):
            for sort in (True, False):
                key = f'{fmt}:{grid}:{nt}:{mask}:{date}:{order}:{sort}'
                tmp = pathlib.Path(rec.mkdir())
                files = [tmp / f'm{i}.{SUFFIX[fmt]}' for i in range(nt)]
                idx = tmp / 'index.txt'
                rec.case(key)
                with rec.guard(key):
                    g.to_index(idx, files, format=fmt, date=date)
                    same(rec, g, want, key)
                    lines = idx.read_text().splitlines()
                    rec.check(len(lines) == nt, key + ':lines')
                    idx.write_text('# a comment\n' + '\n\n'.join(
                        lines[i] for i in order) + f'\n%{lines[0]}\n')
                    G = gt.spatial().from_index(idx, format=fmt, date=date,
                        sort=sort, **kw)
                    sel = list(order)
                    if date and sort:
                        sel = list(np.argsort(want['time']))
                    w = dict(want, data=want['data'][..., sel],
                        mask=want['mask'][..., sel], time=want['time'][sel],
                        month=want['month'][sel])
                    compare(rec, G, w, key, date, fmt == 'ascii')


@CHECK.block('dict')
def dictionary(rec, param):
    for grid, nt, fill in itertools.product(GRIDS, (None, 2), (-9999.0, np.nan)):
        key = f'dict:{grid}:{nt}:{fill}'
        g = build(grid, nt, 'scatter', fill, True)
        want = snapshot(g)
        with rec.guard(key):
            d = {k: getattr(g, k) for k in ('lon', 'lat', 'data', 'time',
                'month')}
            G = gt.spatial(fill_value=fill).from_dict(d)
            compare(rec, G, want, key, True)
            G.data[0, 0] = 1e5
            G.lon[0] = 1e5
            same(rec, g, want, key)
            rec.case(key)


@CHECK.block('clobber')
def clobber(rec, param):
    tmp = pathlib.Path(rec.mkdir())
    for fmt in SUFFIX:
        for first, second in (('tall', 'square'), ('square', 'tall')):
            key = f'{fmt}:{first}'
            f = tmp / f'c_{first}.{SUFFIX[fmt]}'
            a = build(first, None, 'scatter', -9999.0, True)
            b = build(second, None, 'corner', -9999.0, True)
            kw = geometry(second, 'extent+n') if fmt == 'ascii' else {}
            with rec.guard(key):
                getattr(a, f'to_{fmt}')(f)
                getattr(b, f'to_{fmt}')(f)
                G = getattr(gt.spatial(), f'from_{fmt}')(f, **kw)
                compare(rec, G, snapshot(b), key, True, fmt == 'ascii')
                rec.case(key)
            if fmt == 'ascii':
                continue
            rec.raises(lambda: getattr(a, f'to_{fmt}')(f, clobber=False),
                key + ':noclobber')
            with rec.guard(key + ':kept'):
                G = getattr(gt.spatial(), f'from_{fmt}')(f)
                compare(rec, G, snapshot(b), key + ':kept', True)


@CHECK.block('bundles', params=lambda tier: list(SUFFIX))
def bundled(rec, fmt):
    """zipped archives with members of other names"""
    from checks.P04 import bundle, bundles
    tmp = pathlib.Path(rec.mkdir())
    for n, name in enumerate(('grid_042', 'grid+2_042', 'grid.v1(2)[a]',
            'a b')):
        name = f'{name}.{SUFFIX[fmt]}'
        g = build('region', None, 'scatter', -9999.0, True)
        want = snapshot(g)
        f = tmp/'plain'
        g.to_file(f, format=fmt)
        for label, (members, back) in bundles(name, fmt).items():
            key = f'{fmt}:{name}:{label}'
            rec.case(key)
            d = tmp/f'{n}{label}'
            d.mkdir()
            with rec.guard(key):
                p = bundle(d, name, f.read_bytes(), members, back)
                kw = geometry('region', 'extent+n') if fmt == 'ascii' else {}
                G = gt.spatial().from_file(p, format=fmt, compression='zip',
                    **kw)
                compare(rec, G, want, key, True, fmt == 'ascii')


@CHECK.block('foreign', params=lambda tier: [(f, g) for f in ('netCDF4',
    'HDF5') for g in GRIDS])
def foreign(rec, arg):
    """files of other programs: values by longitude and latitude, other names,
    single precision, packed dates"""
    import h5py
    import netCDF4
    fmt, grid = arg
    tmp = pathlib.Path(rec.mkdir())
    for n, (mask, turned, kind, date, fill) in enumerate(itertools.product((
            'none', 'scatter'), (False, True), ('f8', 'f4', 'i2'), (False,
            True), (True, False))):
        g = build(grid, None, mask, -9999.0, date, decimals=0)
        if turned and g.data.shape[0] == g.data.shape[1]:
            continue
        if mask != 'none' and not fill:
            continue
        want = snapshot(g)
        key = f'{fmt}:{grid}:{mask}:{turned}:{kind}:{date}:{fill}'
        rec.case(key)
        f = tmp/f'{n}.{SUFFIX[fmt]}'
        v = (g.data.T if turned else g.data).astype(kind)
        dims = ('lon', 'lat') if turned else ('lat', 'lon')
        if fmt == 'netCDF4':
            with netCDF4.Dataset(f, 'w') as fid:
                for k in ('lon', 'lat'):
                    fid.createDimension(k, len(want[k]))
                    fid.createVariable(k, 'f8', (k,))[:] = want[k]
                x = fid.createVariable('z', kind, dims, fill_value=-9999 if
                    fill else None)
                x.set_auto_mask(False)
                x[:] = v
                x.units = 'cm'
                if date:
                    fid.createDimension('time', 1)
                    fid.createVariable('time', 'f8', ('time',))[:] = want[
                        'time']
        else:
            with h5py.File(f, 'w') as fid:
                for k in ('lon', 'lat'):
                    fid[k] = want[k]
                fid['z'] = v
                fid['z'].attrs['units'] = 'cm'
                if fill:
                    fid['z'].attrs['_FillValue'] = v.dtype.type(-9999)
                if date:
                    fid['time'] = [want['time']]
        with rec.guard(key):
            G = gt.spatial().from_file(f, format=fmt, date=date)
            compare(rec, G, want, key, date)
            rec.eq(G.attributes['data'].get('units'), 'cm', key + ':units')


@CHECK.block('names')
def names(rec, _):
    """requested names, upper and lower case, home folders"""
    import os
    tmp = pathlib.Path(rec.mkdir())
    old = os.environ.get('HOME')
    os.environ['HOME'] = str(tmp)
    try:
        for fmt, have, ask, home in itertools.product(SUFFIX, ('Grid_A.v1.',
                'grid_a.v1.', 'GRID_A.V1.'), ('Grid_A.v1.', 'grid_a.v1.',
                'GRID_A.V1.', 'grid_aXv1.', 'rid_a.v1.', 'grid_a.v1.x'),
                (False, True)):
            key = f'{fmt}:{have}:{ask}:{home}'
            rec.case(key)
            d = tmp/key.replace(':', '_')
            d.mkdir()
            g = build('region', None, 'scatter', -9999.0, True)
            want = snapshot(g)
            kw = geometry('region', 'extent+n') if fmt == 'ascii' else {}
            g.to_file(d/(have + SUFFIX[fmt]), format=fmt)
            # a file whose name fits where a dot stands for any character
            b = build('region', None, 'row', -9999.0, True)
            b.to_file(d/('grid_a-v1.' + SUFFIX[fmt]), format=fmt)
            p = d/(ask + SUFFIX[fmt])
            if home:
                p = '~/' + str(p.relative_to(tmp))
            if ask.lower() != have.lower():
                rec.raises(lambda: gt.spatial().from_file(p, format=fmt, **kw),
                    key, FileNotFoundError)
                continue
            with rec.guard(key):
                G = gt.spatial().from_file(p, format=fmt, **kw)
                compare(rec, G, want, key, True, fmt == 'ascii')
                rec.eq(pathlib.Path(G.filename).name, have + SUFFIX[fmt], key +
                    ':name')
                for cls in (gt.spatial, gt.harmonics):
                    x = cls()
                    rec.eq(str(x.compressuser(p)), '~/' + str((d/(ask + SUFFIX[
                        fmt])).relative_to(tmp)), key + ':home')
                    rec.eq(str(x.compressuser('/else/where')), '/else/where',
                        key + ':elsewhere')
                    x.case_insensitive_filename(p)
                    rec.eq(str(x.compressuser()), '~/' + str((d/(have + SUFFIX[
                        fmt])).relative_to(tmp)), key + ':own')
                    x.case_insensitive_filename(None)
                    rec.eq(x.filename, None, key + ':none')
    finally:
        os.environ['HOME'] = old


@CHECK.block('text errors', params=lambda tier: list(GRIDS))
def text_errors(rec, grid):
    """text files of values with their errors"""
    tmp = pathlib.Path(rec.mkdir())
    for mask, date in itertools.product(('none', 'corner', 'scatter', 'row'),
            (True, False)):
        g = build(grid, None, mask, -9999.0, date)
        g.error = np.where(g.mask, -9999.0, np.abs(g.data)/3.0 + 0.25)
        want = snapshot(g)
        key = f'{grid}:{mask}:{date}'
        rec.case(key)
        f = tmp/f'{mask}{date}.txt'
        with rec.guard(key):
            g.to_ascii(f, date=date)
            same(rec, g, want, key)
            rows = [[float(x) for x in ln.split()] for ln in
                f.read_text().splitlines()]
            exp = [[g.lon[x], g.lat[y], g.data[y, x], g.error[y, x]] + [
                g.time]*date for y, x in zip(*np.nonzero(~g.mask))]
            rec.eq([len(r) for r in rows], [len(r) for r in exp], key +
                ':columns')
            rec.close(np.array(sorted(rows)), np.round(sorted(exp), 4), key +
                ':rows', rtol=0, atol=5.1e-5)
            G = gt.spatial().from_ascii(f, date=date, columns=['lon', 'lat',
                'data', 'error'] + ['time']*date, **geometry(grid,
                'extent+n'))
            compare(rec, G, want, key, date, True)
