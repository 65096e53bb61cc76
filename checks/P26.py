"""P26: solution files are read into the right coefficient, date and frame"""
import gzip
import io
import itertools
import os
import pathlib
import sys
import types
import zipfile
import numpy as np
import mc
import ref

# the optional geoid package is replaced by a parser that records requests
geoid = types.ModuleType('geoid_toolkit')
CALLS = []


def read_ICGEM_harmonics(filename, **kw):
    CALLS.append((str(filename), dict(kw)))
    if kw.get('ZIP'):
        with zipfile.ZipFile(filename) as z:
            text = z.read(z.namelist()[0]).decode()
    else:
        text = pathlib.Path(filename).read_text()
    head, rows = {}, []
    for line in text.splitlines():
        w = line.split()
        if w and w[0] == kw.get('FLAG', 'gfc'):
            rows.append((int(w[1]), int(w[2])) + tuple(map(float, w[3:7])))
        elif len(w) > 1:
            head[w[0]] = w[1]
    L = int(head['max_degree'])
    head.setdefault('tide_system', 'zero_tide')
    out = dict(head, l=np.arange(L + 1), m=np.arange(L + 1))
    for i, k in enumerate(('clm', 'slm', 'eclm', 'eslm')):
        a = np.zeros((L + 1, L + 1))
        for r in rows:
            a[r[0], r[1]] = r[2 + i]
        out[k] = a
    if kw.get('TIDE'):
        out['tide_system'] = kw['TIDE']
    return out


geoid.read_ICGEM_harmonics = read_ICGEM_harmonics
sys.modules['geoid_toolkit'] = geoid
import gravity_toolkit as gt  # noqa: E402

CHECK = mc.Check('P26', level='bounded_exhaustive',
    rule='distinct (product, date range, layout, truncation, option, record '
    'arrangement) files read and compared with their records',
    assumptions=['file names follow the naming of the distributing centres',
        'pole tide corrections are requested for solutions that hold degree '
        'two, order one',
        'the optional geoid package that parses gfc models is a stand-in that '
        'records what it is asked'])

# (prefix, satellite or number, centre, code, release, suffix, flag)
PRODUCTS = {
    'CSR4': ('GSM', '0024', 'UTCSR', '0060', '0004', '.gz', 'GRCOF2'),
    'CSR4x': ('GAC', '0024', 'UTCSR', '0000', '0004', '.gz', 'GRCOF2'),
    'CSR5': ('GSM', '0024', 'UTCSR', '0060', '0005', '.gz', 'GRCOF2'),
    'CSR6': ('GSM', 'GRAC', 'UTCSR', 'BB01', '0600', '.gz', 'GRCOF2'),
    'CSRFO': ('GSM', 'GRFO', 'UTCSR', 'BA01', '0601', '.gz', 'GRCOF2'),
    'CSR6txt': ('GAD', 'GRAC', 'UTCSR', 'BC01', '0600', '', 'GRCOF2'),
    'GFZ4': ('GSM', '0024', 'EIGEN', 'G---', '0004', '.txt', 'GRCOF2'),
    'GFZ5': ('GSM', '0024', 'EIGEN', 'G---', '005a', '.gz', 'GRCOF2'),
    'GFZ6': ('GSM', 'GRAC', 'GFZOP', 'BA01', '0600', '.gz', 'GRCOF2'),
    'GFZ6b': ('GAA', 'GRFO', 'GFZOP', 'BC01', '0601', '.gz', 'GRCOF2'),
    'JPL5': ('GSM', '0018', 'JPLEM', '0001', '0005', '.gz', 'GRCOF2'),
    'JPL6': ('GAB', 'GRFO', 'JPLEM', 'BC01', '0600', '.gz', 'GRCOF2'),
    'JPLFO': ('GSM', 'GRFO', 'JPLEM', 'BA01', '0603', '.gz', 'GRCOF2'),
    'JPLMSC': ('GSM', 'GRAC', 'JPLMSC', '0001', '0600', '.txt', 'GRCOF2'),
    'COSTG': ('GSM', 'GRAC', 'COSTG', 'BF01', '0100', '.gfc', 'gfc'),
    'COSTGgz': ('GSM', 'GRFO', 'COSTG', 'BF01', '0100', '.gz', 'gfc'),
    'GRGS': ('GSM', 'GRAC', 'GRGS', 'BA01', '0500', '.gfc', 'gfc'),
    'GRGS4': ('GSM', '0028', 'GRGS', 'CH3V', '0004', '.txt', 'GRCOF2'),
    'GRGS3': ('GAC', '0010', 'GRGS', 'ABCD', '0003', '.gz', 'GRCOF2'),
    'ICGEM': ('GSM', '0024', 'UTCSR', '0096', '0005', '.gfc', 'gfc'),
    'DDK': ('kfilter_DDK5_GSM', '0024', 'UTCSR', '0060', '0005', '.gfc',
        'gfc'),
}
RANGES = [(2003, 32, 2003, 59), (2004, 335, 2005, 5), (2005, 350, 2006, 15),
    (2012, 60, 2012, 60), (2008, 366, 2009, 31), (2011, 290, 2011, 334),
    (2009, 350, 2010, 14), (2018, 152, 2018, 181)]


def values(L, M):
    """every coefficient distinct"""
    l, m = np.mgrid[:L + 1, :M + 1]
    t = m <= l
    c = np.where(t, 1e-7*(1 + l*1.25 + m*37.5)*(-1.0)**m, 0)
    s = np.where(t & (m > 0), 1e-8*(3 + l*2.5 - m*0.375), 0)
    return c, s, np.where(t, 1e-12*(1 + l + 100*m), 0), \
        np.where(t & (m > 0), 1e-13*(5 + l + 50*m), 0)


def name_of(p, r):
    return '{0}-2_{5}{6:03d}-{7}{8:03d}_{1}_{2}_{3}_{4}{9}'.format(*p[:5], *r,
        p[5])


def yaml_header(title):
    return ['header:', '  dimensions:', '    degree: 6', '    order: 6',
        '  global_attributes:', f'    title: "{title}: monthly"',
        '    acknowledgement: GRACE', '    time_coverage_start: 2003-02-01',
        '  non-standard_attributes:', '    mean_equator_radius:',
        '      value: 6.3781363E+06', '    format: records of GRCOF2 2 0 4.0',
        '    institution: "CNES Universit\xe9"', '# End of YAML header']


def head_lines(p):
    if p[6] == 'gfc' and p[5] == '.gfc':
        return ['product_type gravity_field', 'modelname   MODEL-1',
            'earth_gravity_constant  3.986004415E+14',
            'radius                  6378136.46', 'max_degree  6',
            'errors  formal', 'norm  fully_normalized',
            'tide_system  zero_tide', 'end_of_head =====']
    if p[1] == 'GRFO' or (p[1] == 'GRAC' and int(p[4][:4]) >= 6):
        return yaml_header('solution')
    return ['FIRST  GEOPOTENTIAL', 'CMMNT comment: text \xe9',
        'CMMNT records GRCOF2 1 0 3.0 4.0 5.0 6.0', 'EARTH 0.3986E+15',
        'SHM 6 6 1.00 fully normalized']


def records(flag, c, s, ec, es, order, skip=(), repeat=False):
    L, M = c.shape[0] - 1, c.shape[1] - 1
    lm = [(l, m) for l in range(L + 1) for m in range(min(l, M) + 1)]
    if order == 'order':
        lm.sort(key=lambda x: (x[1], x[0]))
    elif order == 'reverse':
        lm.reverse()
    elif order == 'shuffled':
        lm.sort(key=lambda x: (x[0]*7 + x[1]*5) % 11)
    out = []
    for l, m in lm:
        if (l, m) in skip:
            continue
        row = (f'{flag} {l:4d} {m:4d} {c[l, m]:19.12e} {s[l, m]:19.12e} '
            f'{ec[l, m]:10.4e} {es[l, m]:10.4e}')
        row += ' 20030201.0000 20030228.2359 yynn' if flag == 'GRCOF2' else ''
        out.append(row)
    if repeat:
        out.extend(out[2:4])
    return out


def drift_lines(which):
    """drift rates of some harmonics, at degrees within and beyond the rest"""
    out = {(2, 0): (1.162755e-11, 0.0), (3, 0): (4.9e-12, 0.0),
        (4, 0): (4.7e-12, 0.0), (2, 1): (-0.337e-11, 1.606e-11)}
    if which == 'more':
        out[5, 5] = (2e-12, -3e-12)
        out[6, 2] = (-7e-12, 1e-12)
    return out


def write(path, lines):
    text = ('\n'.join(lines) + '\n').encode('latin-1')
    if path.suffix == '.gz':
        with gzip.open(path, 'wb') as f:
            f.write(text)
    else:
        path.write_bytes(text)
    return text


def dates(r):
    sy, sd, ey, ed = r
    dpy = 366 if ref.is_leap(sy) else 365
    t = sy + (sd + ed + (ey - sy)*dpy)/2/dpy
    return t, ref.julian_day(sy, 1, 1) + sd - 1, \
        ref.julian_day(ey, 1, 1) + ed - 1


def pole_tide(centre, t):
    """drift of the mean pole left in the solutions (Wahr et al., 2015)"""
    d = t - 2000
    if centre in ('UTCSR', 'JPLEM', 'JPLMSC'):
        # IERS conventions (2010), milliarcseconds
        if t < 2010:
            x = 55.974 + 1.8243*d + 0.18413*d**2 + 0.007024*d**3
            y = 346.346 + 1.7896*d - 0.10729*d**2 - 0.000908*d**3
        else:
            x = 23.513 + 7.6141*d
            y = 358.891 - 0.6287*d
        m1, m2 = x/1e3, -y/1e3
    elif centre in ('EIGEN', 'GFZOP'):
        m1 = m2 = 0.0
    else:
        return 0.0, 0.0
    a, b = m1 - 0.62e-3*d, m2 + 3.48e-3*d
    return -1.551e-9*a - 0.012e-9*b, 0.021e-9*a - 1.505e-9*b


def want(c, s, ec, es, L, M, skip=()):
    out = []
    for i, a in enumerate((c, s, ec, es)):
        a = a.copy()
        for l, m in skip:
            a[l, m] = 1.0 if (i, l, m) == (0, 0, 0) else 0.0
        b = np.zeros((L + 1, M + 1))
        n, k = min(L + 1, a.shape[0]), min(M + 1, a.shape[1])
        b[:n, :k] = a[:n, :k]
        out.append(b)
    return out


def judge(rec, key, Y, exp, r):
    t, start, end = dates(r)
    rec.close(Y['time'], t, key + ':time', rtol=0, atol=1e-9)
    rec.close(np.squeeze(Y['start']), start, key + ':start', rtol=0,
        atol=1e-6)
    rec.close(np.squeeze(Y['end']), end, key + ':end', rtol=0, atol=1e-6)
    L, M = exp[0].shape[0] - 1, exp[0].shape[1] - 1
    rec.eq(Y['l'], np.arange(L + 1), key + ':l')
    rec.eq(Y['m'], np.arange(M + 1), key + ':m')
    for n, e in zip(('clm', 'slm', 'eclm', 'eslm'), exp):
        rec.close(Y[n], e, f'{key}:{n}', rtol=1e-11 if n[0] != 'e' else 1e-3,
            atol=1e-24)


@CHECK.block('products', params=lambda t: [(t, n) for n in PRODUCTS],
    timeout=800)
def products(rec, arg):
    """every product, date range, truncation and pole tide option"""
    tier, pn = arg
    p = PRODUCTS[pn]
    d = pathlib.Path(rec.mkdir())
    F = 6
    drel = int(p[4][:4]) if p[4][:4].isdigit() else int(p[4][:3])
    gsm = p[0].endswith('GSM')
    for r in RANGES if tier != 'quick' else RANGES[:7]:
        c, s, ec, es = values(F, F)
        path = d/name_of(p, r)
        lines = head_lines(p)
        drift = {}
        if drel == 4 and gsm:
            drift = drift_lines('more')
            lines += [f'GRDOTA {l} {m} {a:19.12e} {b:19.12e} 0 0 2000.0'
                for (l, m), (a, b) in drift.items()]
        write(path, lines + records(p[6], c, s, ec, es, 'degree'))
        t = dates(r)[0]
        for L, M, pt in itertools.product((1, 2, 3, 5, 6, 9), (None, 0, 1, 2,
            4, 6), (None, False, True)):
            if M is not None and M > L:
                continue
            if pt and (L < 2 or M == 0):
                continue
            mm = L if M is None else M
            key = f'{pn}:{r}:{L}:{M}:{pt}'
            rec.case(key)
            e = want(c, s, ec, es, L, mm)
            for (l, m), (a, b) in drift.items():
                if l <= L and m <= mm:
                    e[0][l, m] += a*(t - 2003.3)
                    e[1][l, m] += b*(t - 2003.3)
            if pt and gsm:
                x, y = pole_tide(p[2], t)
                e[0][2, 1] -= x
                e[1][2, 1] -= y
            kw = {}
            if M is not None:
                kw['MMAX'] = M
            if pt is not None:
                kw['POLE_TIDE'] = pt
            with rec.guard(key):
                Y = gt.read_GRACE_harmonics(str(path) if L % 2 else path, L,
                    **kw)
                judge(rec, key, Y, e, r)
                h = Y['header']
                if p[6] == 'gfc' and p[5] == '.gfc':
                    rec.check(h['radius'].strip() == '6378136.46' and
                        h['tide_system'].strip() == 'zero_tide' and
                        h['modelname'].strip() == 'MODEL-1',
                        key + ':header', lambda: repr(h))
                elif head_lines(p)[0] == 'header:':
                    rec.check(h['dimensions']['degree'] == '6' and
                        h['global_attributes']['title'] ==
                        'solution, monthly', key + ':header',
                        lambda: repr(h))
                else:
                    rec.check(list(h)[:5] == head_lines(p), key + ':header',
                        lambda: repr(h))
    rec.sample({'product': path.name})


@CHECK.block('records', params=lambda t: [(t, n) for n in ('CSR5', 'CSR4',
    'CSRFO', 'COSTG', 'DDK')])
def arrangements(rec, arg):
    """record order, absent and repeated records, file truncations"""
    tier, pn = arg
    p = PRODUCTS[pn]
    d = pathlib.Path(rec.mkdir())
    r = RANGES[0]
    t = dates(r)[0]
    path = d/name_of(p, r)
    drel = int(p[4])
    top = 4 if tier == 'quick' else 5
    for F, G in itertools.product(range(1, top + 1), repeat=2):
        if G > F:
            continue
        c, s, ec, es = values(F, G)
        every = [(l, m) for l in range(F + 1) for m in range(min(l, G) + 1)]
        skips = [()] + [(x,) for x in every] + [tuple(every[:3]),
            tuple(every[2::2]), tuple(every)]
        for skip, order, rep in itertools.product(skips, ('degree', 'order',
            'reverse', 'shuffled'), (False, True)):
            if len(skip) == 1 and tier == 'quick' and \
                    order in ('order', 'shuffled'):
                continue
            lines = head_lines(p)
            drift = {}
            if drel == 4:
                drift = drift_lines('few' if rep else 'more')
            dl = [f'GRDOTA {l} {m} {a:19.12e} {b:19.12e} 0 0 2000.0'
                for (l, m), (a, b) in drift.items()]
            rows = records(p[6], c, s, ec, es, order, skip, rep)
            # drift records may come anywhere in the body
            k = len(rows)//2 if order == 'reverse' else 0
            write(path, lines + rows[:k] + dl + rows[k:])
            for L, M in ((F, F), (F + 1, 1), (1, 1), (max(F - 1, 1), 1)):
                key = f'{pn}:{F}:{G}:{skip}:{order}:{rep}:{L}:{M}'
                rec.case(key)
                e = want(c, s, ec, es, L, M, skip)
                for (l, m), (a, b) in drift.items():
                    if l <= L and m <= M:
                        e[0][l, m] += a*(t - 2003.3)
                        e[1][l, m] += b*(t - 2003.3)
                with rec.guard(key):
                    Y = gt.read_GRACE_harmonics(path, L, MMAX=M)
                    judge(rec, key, Y, e, r)
    rec.sample({'product': pn, 'absent': [list(x) for x in skip][:4]})


@CHECK.block('objects', params=lambda t: [(t, n) for n in PRODUCTS])
def objects(rec, arg):
    """file objects and harmonics objects"""
    tier, pn = arg
    p = PRODUCTS[pn]
    d = pathlib.Path(rec.mkdir())
    c, s, ec, es = values(4, 4)
    for r in RANGES:
        path = d/name_of(p, r)
        write(path, head_lines(p) + records(p[6], c, s, ec, es, 'degree'))
        t = dates(r)[0]
        for L, M in ((4, None), (3, 2), (6, 6), (2, 0)):
            mm = L if M is None else M
            e = want(c, s, ec, es, L, mm)
            kw = {} if M is None else dict(MMAX=M)
            key = f'{pn}:{r}:{L}:{M}'
            rec.case(key)
            with rec.guard(key + ':stream'):
                f = io.BytesIO(path.read_bytes())
                f.filename = path.name
                judge(rec, key + ':stream', gt.read_GRACE_harmonics(f, L,
                    **kw), e, r)
            for how in ('from_SHM', 'from_file', 'new'):
                with rec.guard(f'{key}:{how}'):
                    if how == 'from_SHM':
                        Y = gt.harmonics(lmax=L, mmax=mm).from_SHM(path, **kw)
                    elif how == 'new':
                        Y = gt.harmonics(lmax=L).from_SHM(str(path), **kw)
                    else:
                        Y = gt.harmonics(lmax=L).from_file(path, format='SHM',
                            **kw)
                    rec.close(Y.clm, e[0], f'{key}:{how}:clm', rtol=1e-11)
                    rec.close(Y.slm, e[1], f'{key}:{how}:slm', rtol=1e-11)
                    rec.close(Y.time, t, f'{key}:{how}:time', rtol=0,
                        atol=1e-9)
                    rec.eq(int(Y.month), int((t - 2002)*12) + 1,
                        f'{key}:{how}:month')
                    rec.check(Y.lmax == L and Y.mmax == mm and
                        list(Y.l) == list(range(L + 1)) and
                        list(Y.m) == list(range(mm + 1)),
                        f'{key}:{how}:truncation')
                    rec.check(bool(Y.header), f'{key}:{how}:header')
    for fn in (lambda: gt.read_GRACE_harmonics(d/name_of(p, (2002, 1, 2002,
        31)), 4), lambda: gt.harmonics(lmax=4).from_SHM(d/name_of(p, (2002, 1,
        2002, 31)))):
        rec.case((pn, 'missing'))
        rec.raises(fn, f'{pn}:missing', FileNotFoundError)


def gfc_names(tier):
    years = (2003, 2004, 2012, 2018) if tier == 'quick' else \
        range(2002, 2025)
    for y, m in itertools.product(years, range(1, 13)):
        dm = [31, 29 if ref.is_leap(y) else 28, 31, 30, 31, 30, 31, 31, 30,
            31, 30, 31][m - 1]
        a, b = (y, m, 1, 0, 0, 0), (y, m, dm, 23, 59, 59)
        for pre, prd in (('ITSG', 'Grace2014'), ('ITSG', 'Grace2016'),
            ('ITSG', 'Grace2018'), ('ITSG', 'Grace_operational'),
            ('AOD1B_RL06', 'atmosphere'), ('AOD1B_RL05', 'dealiasing'),
            ('model', 'oceanBottomPressure'), ('model', 'ocean')):
            if (y + m + len(prd)) % 3 and tier == 'quick':
                continue
            trunc = '_n60' if pre == 'ITSG' else ('_n180' if m % 2 else '')
            sep = '-' if pre == 'ITSG' else '_'
            yield f'{pre}{sep}{prd}{trunc}_{y}-{m:02d}.gfc', a, b
        for sfx in ('.gfc', '.ZIP'):
            yield f'GAA_Swarm_40_{m:02d}_{y}{sfx}', a, b
            yield (f'SW_OPER_EGF_SHA_2__{y}{m:02d}01T000000_{y}{m:02d}{dm}'
                f'T235959_0101{sfx}'), a, b
    for a, b in (((2013, 12, 15, 0, 0, 0), (2014, 1, 14, 23, 59, 59)),
        ((2016, 12, 1, 12, 0, 0), (2017, 1, 31, 12, 30, 30)), ((2015, 12, 20,
        0, 0, 0), (2016, 1, 20, 23, 59, 59))):
        yield ('SW_OPER_EGF_SHA_2__{:04d}{:02d}{:02d}T{:02d}{:02d}{:02d}_'
            '{:04d}{:02d}{:02d}T{:02d}{:02d}{:02d}_0101.gfc').format(*a,
            *b), a, b


@CHECK.block('models', params=lambda t: [(t, i) for i in range(4)])
def models(rec, arg):
    """gravity models named by month: dates and forwarded options"""
    tier, part = arg
    d = pathlib.Path(rec.mkdir())
    c, s, ec, es = values(3, 3)
    p = PRODUCTS['COSTG']
    lines = [x.replace('max_degree  6', 'max_degree  3')
        for x in head_lines(p)] + records('gfc', c, s, ec, es, 'degree')
    for name, a, b in list(gfc_names(tier))[part::4]:
        path = d/name
        if name.endswith('.ZIP'):
            with zipfile.ZipFile(path, 'w') as z:
                z.writestr(name.replace('.ZIP', '.gfc'), '\n'.join(lines))
        else:
            write(path, lines)
        ja, jb = ref.julian_day(*a), ref.julian_day(*b)
        j0 = ref.julian_day(a[0], 1, 1)
        dpy = 366 if ref.is_leap(a[0]) else 365
        t = a[0] + ((ja + jb)/2 - j0 + 1)/dpy
        for tide in (None, 'tide_free', 'mean_tide'):
            key = f'{name}:{tide}'
            rec.case(key)
            CALLS.clear()
            with rec.guard(key):
                kw = {} if tide is None else dict(TIDE=tide)
                Y = gt.read_gfc_harmonics(path if tide else str(path), **kw)
                rec.close(Y['time'], t, key + ':time', rtol=0, atol=1e-8)
                rec.close(np.squeeze(Y['start']), ja, key + ':start', rtol=0,
                    atol=1e-5)
                rec.close(np.squeeze(Y['end']), jb, key + ':end', rtol=0,
                    atol=1e-5)
                for n, v in zip(('clm', 'slm', 'eclm', 'eslm'), (c, s, ec,
                    es)):
                    rec.close(Y[n], v, f'{key}:{n}', rtol=1e-3)
                rec.check(len(CALLS) == 1 and
                    CALLS[0][1].get('TIDE') == tide, key + ':tide')
            if name.endswith('.ZIP'):
                continue
            if tide is None:
                # records of another type of the same file
                c2, s2, ec2, es2 = values(3, 2)
                write(path, lines + records('gfct', 2*c2, 3*s2, ec2, es2,
                    'order'))
                rec.case((key, 'flag'))
                with rec.guard(key + ':flag'):
                    Y = gt.read_gfc_harmonics(path, FLAG='gfct')
                    rec.close(Y['clm'][:, :3], 2*c2, f'{key}:flag', rtol=1e-11)
                    rec.close(Y['slm'][:, :3], 3*s2, f'{key}:flag', rtol=1e-11)
            for dated in (False, True):
                with rec.guard(f'{key}:object:{dated}'):
                    kw = {} if tide is None else dict(tide=tide)
                    Y = gt.harmonics().from_gfc(path, date=dated, **kw)
                    rec.close(Y.clm, c, f'{key}:object:clm', rtol=1e-11)
                    rec.close(Y.slm, s, f'{key}:object:slm', rtol=1e-11)
                    rec.check(Y.lmax == 3 and Y.mmax == 3 and Y.GM ==
                        3.986004415e14 and Y.R == 6378136.46 and Y.tide ==
                        (tide or 'zero_tide'), f'{key}:object:parameters')
                    if dated:
                        rec.close(Y.time, t, f'{key}:object:time', rtol=0,
                            atol=1e-8)
                        rec.eq(int(Y.month), int((t - 2002)*12) + 1,
                            f'{key}:object:month')
        path.unlink()
    rec.sample({'name': name})
