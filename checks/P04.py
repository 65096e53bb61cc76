"""P04: spherical harmonics written to any format read back unchanged"""
import gzip
import io
import itertools
import pathlib
import zipfile
import numpy as np
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P04', level='bounded_exhaustive',
    rule='distinct (format, container, truncation, dates, coefficient '
    'pattern, entry point) combinations written by the real writer, read by '
    'the real reader and compared with the object that was written',
    assumptions=['ascii files hold one date; its month is that of the date, '
    'so dates are mid-month', 'text keeps 12 decimals of a coefficient and 4 '
    'of a date'])

TRUNC = [(0, 0), (1, 0), (1, 1), (2, 1), (3, 3), (5, 2), (4, 0)]
# months of the archive: mid-month dates, including special numbers
DATES = {0: None, 1: [14], 2: [15, 14], 3: [4, 118, 259]}


def build(lmax, mmax, nt, pattern, date=True):
    """nt None: one undated or dated 2-D object; nt = n: 3-D with n dates"""
    h = gt.harmonics(lmax=lmax, mmax=mmax)
    n = nt or 1
    c = np.zeros((lmax+1, mmax+1, n))
    s = np.zeros((lmax+1, mmax+1, n))
    for t in range(n):
        for l in range(lmax+1):
            for m in range(min(l, mmax)+1):
                k = 1 + l*l + 2*m + 31*t
                if pattern == 'distinct':
                    c[l, m, t] = (k + 0.125)*(-1)**(l+m+t)
                    s[l, m, t] = -(k + 0.375)*(-1)**m if m else 0.0
                elif pattern == 'tiny':
                    c[l, m, t] = k*1.0e-12/7.0
                    s[l, m, t] = -k*1.0e-13/3.0 if m else 0.0
                elif pattern == 'huge':
                    c[l, m, t] = k*3.0e99
                    s[l, m, t] = -k*7.0e101 if m else 0.0
    h.clm, h.slm = (c, s) if nt else (c[..., 0], s[..., 0])
    if date:
        mo = np.array(DATES[n], dtype=np.int64)
        h.time = 2002.0 + (mo - 0.5)/12.0
        h.month = mo
        if not nt:
            h.time, h.month = np.float64(h.time[0]), np.int64(mo[0])
    h.update_dimensions()
    return h


def snapshot(h):
    return {k: None if getattr(h, k) is None else np.array(getattr(h, k))
        for k in ('clm', 'slm', 'time', 'month', 'l', 'm', 'lmax', 'mmax')}


def same(rec, h, snap, key):
    for k, v in snap.items():
        rec.eq(None if getattr(h, k) is None else np.array(getattr(h, k)), v,
            f'{key}:writer changed {k}')


def compare(rec, G, want, key, date, text=False):
    """the object read back against the arrays written"""
    if not rec.check(G is not None and G.clm is not None, key + ':none'):
        return
    w = {k: (None if v is None else np.squeeze(v) if k in ('time', 'month')
        else v) for k, v in want.items()}
    wc, ws = w['clm'], w['slm']
    if wc.ndim == 3 and wc.shape[2] == 1:
        wc, ws = wc[..., 0], ws[..., 0]
    gc, gs = np.asarray(G.clm), np.asarray(G.slm)
    if gc.ndim == 3 and gc.shape[2] == 1:
        gc, gs = gc[..., 0], gs[..., 0]
    tol = dict(rtol=2e-12, atol=0) if text else dict(rtol=0, atol=0)
    rec.close(gc, wc, key + ':clm', **tol)
    rec.close(gs, ws, key + ':slm', **tol)
    rec.check(int(G.lmax) == int(want['lmax']) and int(G.mmax) ==
        int(want['mmax']), key + ':degree', lambda: f'{G.lmax} {G.mmax}')
    rec.eq(np.asarray(G.l), want['l'], key + ':l')
    rec.eq(np.asarray(G.m), want['m'], key + ':m')
    if date:
        rec.close(np.squeeze(G.time), w['time'], key + ':time', rtol=0,
            atol=5.1e-5 if text else 0)
        rec.eq(np.squeeze(np.asarray(G.month)), w['month'], key + ':month')
    # a usable object: derived quantities agree
    rec.check(G.ndim == np.ndim(G.clm) and tuple(G.shape) == np.shape(G.clm),
        key + ':dims')


def package(path, container):
    """put a written file in a container; returns what to open"""
    path = pathlib.Path(path)
    if container == 'gzip':
        out = path.with_name(path.name + '.gz')
        with gzip.open(out, 'wb') as f:
            f.write(path.read_bytes())
        return out
    if container == 'zip':
        out = path.with_name(path.name + '.zip')
        with zipfile.ZipFile(out, 'w') as z:
            z.write(path, path.name)
        return out
    if container == 'bytes':
        return io.BytesIO(path.read_bytes())
    return path


SUFFIX = {'ascii': 'txt', 'netCDF4': 'nc', 'HDF5': 'H5'}


def single(tier):
    trunc = TRUNC if tier == 'quick' else TRUNC + [(8, 8), (9, 4), (20, 20),
        (30, 1), (60, 60)]
    return [(f, t) for f in SUFFIX for t in trunc]


@CHECK.block('roundtrip', params=single)
def roundtrip(rec, p):
    fmt, (L, M) = p
    tmp = pathlib.Path(rec.mkdir())
    nts = (None, 1) if fmt == 'ascii' else (None, 1, 2, 3)
    for nt, pat, date in itertools.product(nts, ('distinct', 'tiny', 'huge'),
            (True, False)):
        if fmt == 'ascii' and nt or fmt == 'netCDF4' and nt and not date:
            # several dates need a format (and a dimension) for them
            continue
        h = build(L, M, nt, pat, date)
        want = snapshot(h)
        key = f'{fmt}:{L}:{M}:{nt}:{pat}:{date}'
        for entry in ('direct', 'file'):
            f = tmp / f'a_{entry}_{nt}_{pat}_{date}.{SUFFIX[fmt]}'
            with rec.guard(f'{key}:{entry}:write'):
                if entry == 'direct':
                    getattr(h, f'to_{fmt}')(f, date=date)
                else:
                    h.to_file(f, format=fmt, date=date)
                same(rec, h, want, f'{key}:{entry}')
            if not f.exists():
                rec.fail(f'{key}:{entry}:nofile')
                continue
            for cont in (None, 'gzip', 'zip', 'bytes'):
                src = package(f, cont)
                before = f.read_bytes()
                k = f'{key}:{entry}:{cont}'
                rec.case(k)
                with rec.guard(k):
                    if entry == 'direct':
                        G = getattr(gt.harmonics(), f'from_{fmt}')(src,
                            date=date, compression=cont)
                    else:
                        G = gt.harmonics().from_file(src, format=fmt,
                            date=date, compression=cont)
                    compare(rec, G, want, k, date, fmt == 'ascii')
                rec.check(f.read_bytes() == before, k + ':file changed')
        # a dated file read without its dates
        if date and nt in (None, 1) and pat == 'distinct':
            k = f'{key}:nodate'
            rec.case(k)
            with rec.guard(k):
                f = tmp / f'a_direct_{nt}_{pat}_{date}.{SUFFIX[fmt]}'
                G = getattr(gt.harmonics(), f'from_{fmt}')(f, date=False)
                compare(rec, G, want, k, False, fmt == 'ascii')
        # writing what was read gives the same file contents again
        k = f'{key}:again'
        with rec.guard(k):
            f = tmp / f'a_direct_{nt}_{pat}_{date}.{SUFFIX[fmt]}'
            G = getattr(gt.harmonics(), f'from_{fmt}')(f, date=date)
            g = tmp / ('again.' + SUFFIX[fmt])
            getattr(G, f'to_{fmt}')(g, date=date)
            G2 = getattr(gt.harmonics(), f'from_{fmt}')(g, date=date)
            rec.eq(G2.clm, G.clm, k + ':clm')
            rec.eq(G2.slm, G.slm, k + ':slm')
            if date:
                rec.close(G2.time, G.time, k + ':time', atol=5e-5)
                rec.eq(np.squeeze(G2.month), np.squeeze(G.month), k + ':month')
            rec.case(k)


@CHECK.block('index', params=lambda tier: [(f, t) for f in SUFFIX
    for t in TRUNC])
def index(rec, p):
    """archives of one file per month"""
    fmt, (L, M) = p
    for nt, date in itertools.product((2, 3), (True, False)):
        h = build(L, M, nt, 'distinct', date)
        if not date:
            h.time = np.full(nt, np.nan)
            h.month = np.zeros(nt, dtype=np.int64)
        want = snapshot(h)
        for order in itertools.permutations(range(nt)):
            for sort in (True, False):
                key = f'{fmt}:{L}:{M}:{nt}:{date}:{order}:{sort}'
                tmp = pathlib.Path(rec.mkdir())
                files = [tmp / f'm{i}.{SUFFIX[fmt]}' for i in range(nt)]
                idx = tmp / 'index.txt'
                rec.case(key)
                with rec.guard(key):
                    h.to_index(idx, files, format=fmt, date=date)
                    same(rec, h, want, key)
                    # the user reorders, comments out and spaces the index
                    lines = idx.read_text().splitlines()
                    rec.check(len(lines) == nt, key + ':lines')
                    idx.write_text('# a comment\n' + '\n\n'.join(
                        str(lines[i]) for i in order) + f'\n%{lines[0]}\n')
                    G = gt.harmonics().from_index(idx, format=fmt, date=date,
                        sort=sort)
                    sel = list(order)
                    if date and sort:
                        sel = list(np.argsort(want['time']))
                    w = dict(want, clm=want['clm'][..., sel],
                        slm=want['slm'][..., sel])
                    if date:
                        w.update(time=want['time'][sel],
                            month=want['month'][sel])
                    compare(rec, G, w, key, date, fmt == 'ascii')


@CHECK.block('home-index')
def home(rec, param):
    """index files abbreviate the home directory"""
    for fmt in SUFFIX:
        tmp = pathlib.Path.home() / f'arch_{fmt}'
        tmp.mkdir()
        h = build(3, 3, 2, 'distinct', True)
        want = snapshot(h)
        files = [tmp / f'm{i}.{SUFFIX[fmt]}' for i in range(2)]
        with rec.guard(fmt):
            h.to_index(tmp / 'index.txt', files, format=fmt)
            G = gt.harmonics().from_index(tmp / 'index.txt', format=fmt,
                sort=False)
            compare(rec, G, want, fmt, True, fmt == 'ascii')
        rec.case(fmt)


@CHECK.block('dict')
def dictionary(rec, param):
    for (L, M), nt, date in itertools.product(TRUNC, (None, 1, 2, 3),
            (True, False)):
        key = f'dict:{L}:{M}:{nt}:{date}'
        h = build(L, M, nt, 'distinct', date)
        want = snapshot(h)
        with rec.guard(key):
            d = h.to_dict()
            G = gt.harmonics().from_dict(d)
            rec.case(key)
            for k in ('clm', 'slm', 'time', 'month', 'l', 'm'):
                a = getattr(G, k)
                rec.eq(None if a is None else np.array(a), want[k], f'{key}:{k}')
            rec.check(int(G.lmax) == L and int(G.mmax) == M, key + ':degree')
            G.clm[0, 0] = 5e5
            G.slm[-1, -1] = 5e5
            same(rec, h, want, key)


def names():
    """(files present, requested name, expected file or None)"""
    return [
        (['a.txt', 'A.TXT.gz'], 'a.txt', 'a.txt'),
        (['a.txt'], 'A.TXT', 'a.txt'),
        (['A.TXT'], 'a.txt', 'A.TXT'),
        (['a.txt.old', 'a.txt'], 'A.txt', 'a.txt'),
        (['a.txt', 'a.txt.old'], 'A.txt', 'a.txt'),
        (['axtxt'], 'a.txt', None),
        (['axtxt', 'A.TXT'], 'a.txt', 'A.TXT'),
        (['a.txt2'], 'a.txt', None),
        (['b(1)+c.txt'], 'B(1)+C.TXT', 'b(1)+c.txt'),
        (['b1cc.txt'], 'b(1)+c.txt', None),
        (['prefix_a.txt'], 'a.txt', None),
        (['a.txt'], 'a.tx', None),
        ([], 'a.txt', None),
    ]


@CHECK.block('names')
def filenames(rec, param):
    """which file of a directory is opened"""
    h = build(2, 2, None, 'distinct', False)
    for cls, reader in (('harmonics', 'from_ascii'), ('spatial', 'from_ascii'),
            ('geocenter', 'from_UCI')):
        for i, (present, want, expected) in enumerate(names()):
            for perm in itertools.permutations(present):
                tmp = pathlib.Path(rec.mkdir())
                for n in perm:
                    (tmp / n).write_text(n)
                key = f'{cls}:{i}:{perm}'
                rec.case(key)
                obj = getattr(gt, cls)()
                try:
                    got = obj.case_insensitive_filename(tmp / want)
                    got = pathlib.Path(got.filename).name
                except FileNotFoundError:
                    got = None
                except Exception as exc:
                    got = repr(exc)
                rec.check(got == expected, key, f'{want}: opened {got}, '
                    f'expected {expected}')
    # an open file stays the one that was given
    for cls in ('harmonics', 'spatial', 'geocenter'):
        with rec.guard(cls + ':io'):
            b = io.BytesIO(b'abc')
            o = getattr(gt, cls)().case_insensitive_filename(b)
            rec.eq(o.filename.read(), b'abc', cls + ':io')


@CHECK.block('attributes')
def attributes(rec, param):
    """metadata of the writer options"""
    tmp = pathlib.Path(rec.mkdir())
    for fmt in ('netCDF4', 'HDF5'):
        h = build(3, 2, 2, 'distinct', True)
        want = snapshot(h)
        f = tmp / f'at.{SUFFIX[fmt]}'
        with rec.guard(fmt):
            getattr(h, f'to_{fmt}')(f, units='cmwe', time_units='years',
                title='a title', reference='a reference', source='somewhere')
            G = getattr(gt.harmonics(), f'from_{fmt}')(f)
            compare(rec, G, want, fmt, True)
            rec.case(fmt)
            root = G.attributes['ROOT']
            for k, v in (('title', 'a title'), ('reference', 'a reference'),
                    ('source', 'somewhere')):
                rec.check(root.get(k) == v, f'{fmt}:{k}', lambda: repr(root))
            rec.check(list(G.attributes['clm'])[0] == 'cmwe' and
                list(G.attributes['time'])[0] == 'years', fmt + ':units')
            # a second object written with defaults is not affected
            h2 = build(1, 1, None, 'tiny', True)
            g = tmp / f'at2.{SUFFIX[fmt]}'
            getattr(h2, f'to_{fmt}')(g)
            G2 = getattr(gt.harmonics(), f'from_{fmt}')(g)
            rec.check('title' not in G2.attributes['ROOT'] or
                G2.attributes['ROOT']['title'] != 'a title', fmt + ':leak')
            compare(rec, G2, snapshot(h2), fmt + ':second', True)


@CHECK.block('clobber')
def clobber(rec, param):
    """overwriting replaces the earlier file completely; refusing keeps it"""
    tmp = pathlib.Path(rec.mkdir())
    for fmt in SUFFIX:
        for first, second in (((4, 4), (2, 1)), ((2, 1), (4, 4))):
            key = f'{fmt}:{first}'
            f = tmp / f'c{first[0]}.{SUFFIX[fmt]}'
            a = build(*first, None, 'distinct', True)
            b = build(*second, None, 'tiny', True)
            with rec.guard(key):
                getattr(a, f'to_{fmt}')(f)
                getattr(b, f'to_{fmt}')(f)
                G = getattr(gt.harmonics(), f'from_{fmt}')(f)
                compare(rec, G, snapshot(b), key, True, fmt == 'ascii')
                rec.case(key)
            if fmt == 'ascii':
                continue
            rec.raises(lambda: getattr(a, f'to_{fmt}')(f, clobber=False),
                key + ':noclobber')
            with rec.guard(key + ':kept'):
                G = getattr(gt.harmonics(), f'from_{fmt}')(f)
                compare(rec, G, snapshot(b), key + ':kept', True)


def bundles(name, fmt):
    """members of archives that hold one data file: {label: [names]} with the
    data file first"""
    sfx = SUFFIX[fmt]
    out = {'same': [name], 'with text': [name, 'readme.md'], 'text first': [
        'A_readme.md', name]}
    if fmt == 'netCDF4':
        out.update(other=['x1.nc'], four=['y.nc4', 'notes.txt'], below=[
            'folder/z.nc', 'folder/'], twin=[name, name + '.xml'])
    if fmt == 'HDF5':
        out.update(other=['x1.H5'], lower=['y.h5', 'notes.txt'], long=[
            'q.HDF5'], below=['folder/z.hdf5', 'folder/'], twin=[name, name +
            '.xml'])
    if fmt != 'ascii':
        out['case'] = [name.upper()]
    return {k: (v if k != 'text first' else v[::-1], k == 'text first') for
        k, v in out.items()} if sfx else {}


def bundle(folder, name, data, members, backwards):
    """archive of a data file among others"""
    path = folder/f'{name}.zip'
    names = list(enumerate(members))
    with zipfile.ZipFile(path, 'w') as z:
        for i, m in names[::-1] if backwards else names:
            z.writestr(m, b'' if m.endswith('/') else data if i == 0 else
                b'some other contents')
    return path


@CHECK.block('bundles', params=lambda tier: list(SUFFIX))
def bundled(rec, fmt):
    """zipped archives with members of other names"""
    tmp = pathlib.Path(rec.mkdir())
    for n, name in enumerate(('GSM_042', 'GSM+2_042', 'GSM.v1(2)[a]', 'a b')):
        name = f'{name}.{SUFFIX[fmt]}'
        h = build(4, 3, None, 'distinct')
        want = snapshot(h)
        f = tmp/'plain'
        h.to_file(f, format=fmt)
        for label, (members, back) in bundles(name, fmt).items():
            key = f'{fmt}:{name}:{label}'
            rec.case(key)
            d = tmp/f'{n}{label}'
            d.mkdir()
            with rec.guard(key):
                p = bundle(d, name, f.read_bytes(), members, back)
                G = gt.harmonics().from_file(p, format=fmt,
                    compression='zip')
                compare(rec, G, want, key, True, fmt == 'ascii')
