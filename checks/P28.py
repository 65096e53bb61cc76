"""P28: glacial isostatic adjustment models are read rate for rate"""
import itertools
import os
import pathlib
import h5py
import netCDF4
import numpy as np
import mc
import gravity_toolkit as gt
from gravity_toolkit.read_GIA_model import read_GIA_model, gia

CHECK = mc.Check('P28', level='bounded_exhaustive',
    rule='distinct (model layout, file degree, record arrangement, '
    'truncation, output) combinations read and compared with the file',
    assumptions=['header text of the layouts without a fixed header length '
        'holds no digits', 'sequential layouts without degree columns may '
        'refuse a truncation beyond the degree of the file'])

ORDERS = ('degree', 'reverse', 'order')
NAMES = {
    'IJ05-R2': [('Stokes.R2_65_.2_1.5_L120', 'IJ05_R2_65_.2_1.5'),
        ('Stokes.R2_115_.2_3.2_L120', 'IJ05_R2_115_.2_3.2')],
    'W12a': [('grate_B.clm', 'W12a_Best'), ('grate_L.clm', 'W12a_Lower'),
        ('grate_U.clm', 'W12a_Upper')],
    'SM09': [('grate_120p51.clm', 'SM09_Huy2_120_.5_1'),
        ('grate_96p310.clm', 'SM09_Huy2_96_.3_10')],
    'ICE6G': [('Stokes_G_Rot_60_I6_A_VM5a', 'ICE6G_VM5a'),
        ('Stokes_G_Rot_60_I6_A_VM2', 'ICE6G_VM2')],
    'Wu10': [('WuGIA.txt', 'Wu_2010')],
    'AW13-ICE6G': [('stokes.ice6g.compressible', 'AW13_ice6g_compressible'),
        ('stokes.ice6g_VM5a.txt', 'AW13_ice6g_VM5a')],
    'AW13-IJ05': [('stokes.R2_65_.2_1.5_ANT', 'AW13_IJ05_R2_65_.2_1.5'),
        ('stokes.R2_115_.2_3.2', 'AW13_IJ05_R2_115_.2_3.2')],
    'Caron': [('GIA_maps_Caron_et_al_2018.txt', 'Caron_expt')],
    'ICE6G-D': [('ICE-6G_High_Res_Stokes_trend.txt', 'ICE6G-D_High_Res'),
        ('Stokes_trend_High_Res.txt', 'ICE6G-D_High_Res'),
        ('ICE-6G_D_VM5a_Stokes_trend_x.txt', 'ICE6G-D_D_VM5ax')],
}
DEFAULT = {'IJ05-R2': 120, 'ICE6G': 60, 'W12a': 120, 'SM09': 120, 'Wu10': 60,
    'Caron': 89, 'ICE6G-D': 256, 'AW13-ICE6G': 100, 'AW13-IJ05': 256}
CITE = {'IJ05-R2': ('Ivins', '2013', '10.1002/jgrb.50208'),
    'ICE6G': ('Peltier', '2015', '10.1002/2014JB011176'),
    'W12a': ('Whitehouse', '2012', '10.1111/j.1365-246X.2012.05557.x'),
    'SM09': ('Simpson', '2009', '10.1016/j.quascirev.2009.03.004'),
    'Wu10': ('Wu', '2010', '10.1038/ngeo938'),
    'Caron': ('Caron', '2018', '10.1002/2017GL076644'),
    'ICE6G-D': ('Peltier', '2018', '10.1002/2016JB013844'),
    'AW13-ICE6G': ('A', '2013', '10.1093/gji/ggs030'),
    'AW13-IJ05': ('A', '2013', '10.1093/gji/ggs030')}
TABLE = ('IJ05-R2', 'W12a', 'SM09', 'AW13-ICE6G', 'AW13-IJ05')


def coef(L):
    """coefficients with the mark of their degree, order and kind"""
    C, S = np.zeros((L + 1, L + 1)), np.zeros((L + 1, L + 1))
    for l in range(L + 1):
        for m in range(l + 1):
            C[l, m] = (-1)**l*(1 + 0.01*l + 0.0007*m)
            S[l, m] = (-1)**m*(2 + 0.01*l + 0.0007*m)*(m > 0)
    return C, S


def lms(L, order, lmin=0):
    out = [(l, m) for l in range(lmin, L + 1) for m in range(l + 1)]
    if order == 'reverse':
        out = out[::-1]
    elif order == 'order':
        out.sort(key=lambda a: (a[1], a[0]))
    return out


def model(kind, L, order, expo='E', hd=0):
    """text of a model file and its rates"""
    C, S = coef(L)
    if kind in TABLE:
        f = lambda x: f'{x*(1e-2 if kind != "IJ05-R2" else 10):.10E}' \
            .replace('E', expo)
        sc = 10*1e-11 if kind == 'IJ05-R2' else 1e-2
        ls = ['# geodesy normalized rates', ''][:hd] + [
            f'{l:5d} {m:5d} {f(C[l, m])} {f(S[l, m])}'
            for l, m in lms(L, order)]
        if hd:
            ls.append('')
        return '\n'.join(ls) + '\n', C*sc, S*sc
    if kind == 'ICE6G':
        ls = []
        for l in range(L + 1):
            for m in range(0, l + 1, 2):
                w = [f'{l:4d}'] if m == 0 else []
                for k in (m, m + 1):
                    if k <= l:
                        w += [f'{10*C[l, k]:.10E}', f'{10*S[l, k]:.10E}']
                ls.append(' '.join(w))
        return '\n'.join(ls) + '\n', C*1e-10, S*1e-10
    if kind == 'Wu10':
        ls = ['mm of geoid']
        for l in range(1, L + 1):
            for m in range(l + 1):
                ls.append(f'{C[l, m]:.10E}')
                if m:
                    ls.append(f'{S[l, m]:.10E}')
        C[0, 0] = 0
        return '\n'.join(ls) + '\n', C/6.371e9, S/6.371e9
    if kind == 'Caron':
        rec = []
        for l in range(L + 1):
            rec += [(l, -m, S[l, m]) for m in range(l, 0, -1)]
            rec += [(l, m, C[l, m]) for m in range(l + 1)]
        if order == 'reverse':
            rec = rec[::-1]
        elif order == 'order':
            rec.sort(key=lambda a: (a[1], a[0]))
        ls = ['header 1 2 3.0']*4 + [f'{l} {m} {x*1e-11:.10E}'
            for l, m, x in rec]
        return '\n'.join(ls) + '\n', C*1e-11, S*1e-11
    if kind == 'ICE6G-D':
        f = lambda x: f'{x*1e-11:.10E}'.replace('E', expo)
        ls = ['ICE-6G_D (VM5a) 2018', 'more text 1.0 2.0 3.0 4.0'][:1 + hd]
        ls += ['Absolute Sea-level Values for degrees 0 to 2'] + [
            f'{l} {m} 9.0E+00 9.0E+00' for l, m in lms(2, 'degree')]
        ls += ['GRACE Approximation for degrees 0 to 2'] + [
            f'{l} {m} {f(C[l, m])} {f(S[l, m])}' for l, m in
            lms(min(L, 2), order)]
        ls += ['GRACE Approximation/Absolute Sea-level Values for degrees > 2']
        ls += [f'{l} {m} {f(C[l, m])} {f(S[l, m])}' for l, m in
            lms(L, order, 3)]
        return '\n'.join(ls) + '\n', C*1e-11, S*1e-11


def fit(A, L, M):
    """truncate or pad to a degree and order"""
    out = np.zeros((L + 1, M + 1))
    l, m = min(L + 1, A.shape[0]), min(M + 1, A.shape[1])
    out[:l, :m] = A[:l, :m]
    return out


def verify(rec, key, got, C, S, L, M):
    rec.close(got['clm'], fit(C, L, M), f'{key}:clm', rtol=1e-9)
    rec.close(got['slm'], fit(S, L, M), f'{key}:slm', rtol=1e-9)
    rec.eq(np.asarray(got['l']), np.arange(L + 1), f'{key}:l')
    rec.eq(np.asarray(got['m']), np.arange(M + 1), f'{key}:m')


def cited(rec, key, kind, got, title):
    rec.eq(got['title'], title, f'{key}:title')
    a, y, doi = CITE[kind]
    rec.check(str(got['citation']).startswith(a + '_') and y in
        str(got['citation']), f'{key}:citation', str(got['citation']))
    rec.check(doi in str(got['reference']), f'{key}:reference',
        str(got['reference']))
    rec.check(str(got['url']).endswith(doi), f'{key}:url', str(got['url']))


def sizes(tier):
    return (2, 3, 5) if tier == 'quick' else (2, 3, 4, 5, 6, 8)


@CHECK.block('layouts', params=lambda tier: [(k, L, tier) for k in NAMES
    for L in sizes(tier)], timeout=600)
def layouts(rec, par):
    """every layout, truncation and arrangement of records"""
    kind, L, tier = par
    folder = pathlib.Path(rec.mkdir())
    seq = kind in ('ICE6G', 'Wu10')
    orders = ('degree',) if seq else ORDERS
    expos = ('E', 'D') if kind in TABLE + ('ICE6G-D',) else ('E',)
    heads = (0, 1, 2) if kind in TABLE else (0, 1)
    for (name, title), order, e, hd in itertools.product(NAMES[kind], orders,
            expos, heads):
        text, C, S = model(kind, L, order, e, hd)
        p = folder/name
        p.write_text(text)
        for lmax in [None] + list(range(1, L + 3)):
            if lmax is None and (seq or (hd or order != 'degree')):
                continue
            lm = DEFAULT[kind] if lmax is None else lmax
            for mmax in [None] + list(range(0, lm + 1) if lmax else (1, 7)):
                key = f'{name}:{order}:{e}:{hd}:{lmax}:{mmax}'
                rec.case(key)
                M = lm if mmax is None else mmax
                with rec.guard(key):
                    try:
                        got = read_GIA_model(p if hd else str(p), GIA=kind,
                            LMAX=lmax, MMAX=mmax)
                    except (IndexError, ValueError):
                        # no record of such a degree
                        if seq and lm > L:
                            continue
                        raise
                    verify(rec, key, got, C, S, lm, M)
                    cited(rec, key, kind, got, title)
        p.unlink()
    rec.sample({'layout': kind, 'degree': L, 'file': name, 'order': order})


@CHECK.block('defaults', params=lambda tier: ['ICE6G', 'Wu10'])
def defaults(rec, kind):
    """full models of the sequential layouts"""
    folder = pathlib.Path(rec.mkdir())
    name, title = NAMES[kind][0]
    text, C, S = model(kind, DEFAULT[kind], 'degree')
    (folder/name).write_text(text)
    for lmax in (None, 60, 40, 13):
        for mmax in (None, 0, 12, 40):
            lm = lmax or 60
            key = f'{kind}:{lmax}:{mmax}'
            rec.case(key)
            with rec.guard(key):
                got = read_GIA_model(folder/name, GIA=kind, LMAX=lmax,
                    MMAX=mmax)
                verify(rec, key, got, C, S, lm, min(lm, lm if mmax is None
                    else mmax))
                cited(rec, key, kind, got, title)
    rec.sample({'layout': kind})


@CHECK.block('reformatted', params=lambda tier: [(k, L, tier) for k in NAMES
    for L in sizes(tier)], timeout=600)
def reformatted(rec, par):
    """models written to another format and read again"""
    kind, L, tier = par
    name, title = NAMES[kind][0]
    text, C, S = model(kind, L, 'degree')
    for form, suf in (('ascii', 'txt'), ('netCDF4', 'nc'), ('HDF5', 'H5')):
        for lmax, mmax in itertools.product(range(1, L + 1), (None, 1)):
            folder = pathlib.Path(rec.mkdir())
            (folder/name).write_text(text)
            key = f'{kind}:{form}:{lmax}:{mmax}'
            rec.case(key)
            with rec.guard(key):
                got = read_GIA_model(folder/name, GIA=kind, LMAX=lmax,
                    MMAX=mmax, DATAFORM=form, MODE=0o640)
                M = lmax if mmax is None else mmax
                verify(rec, key, got, C, S, lmax, M)
                cited(rec, key, kind, got, title)
                out = folder/f'stokes_{title}_L{lmax}.{suf}'
                if not rec.check(out.exists(), f'{key}:file',
                        str(os.listdir(folder))):
                    continue
                rec.eq(out.stat().st_mode & 0o777, 0o640, f'{key}:mode')
                rec.eq((folder/name).read_text(), text, f'{key}:source')
                for l2, m2 in itertools.product((1, lmax, lmax + 2),
                        (None, 0, 1)):
                    k2 = f'{key}:{l2}:{m2}'
                    rec.case(k2)
                    back = read_GIA_model(out, GIA=form, LMAX=l2, MMAX=m2)
                    verify(rec, k2, back, fit(C, lmax, lmax),
                        fit(S, lmax, lmax), l2, l2 if m2 is None else m2)
                    if form == 'ascii':
                        rec.eq(back['title'], out.stem, f'{k2}:title')
                    else:
                        rec.eq(back['title'], title, f'{k2}:title')
                        rec.eq(back['reference'], got['reference'],
                            f'{k2}:reference')
                # converted once more between the reformatted layouts
                for again, suf2 in (('ascii', 'txt'), ('netCDF4', 'nc'),
                        ('HDF5', 'H5')):
                    k2 = f'{key}:{again}'
                    rec.case(k2)
                    back = read_GIA_model(out, GIA=form, LMAX=lmax,
                        DATAFORM=again)
                    f2 = folder/f"stokes_{back['title']}_L{lmax}.{suf2}"
                    last = read_GIA_model(f2, GIA=again, LMAX=lmax)
                    verify(rec, k2, last, fit(C, lmax, lmax),
                        fit(S, lmax, lmax), lmax, lmax)
    rec.sample({'layout': kind, 'degree': L, 'format': form})


@CHECK.block('large', params=lambda tier: [k for k in NAMES if k not in
    ('ICE6G', 'Wu10')])
def large(rec, kind):
    """models of high degree in every format, with attributes in any case"""
    folder = pathlib.Path(rec.mkdir())
    name, title = NAMES[kind][0]
    text, C, S = model(kind, 75, 'degree')
    (folder/name).write_text(text)
    for form, suf in (('ascii', 'txt'), ('netCDF4', 'nc'), ('HDF5', 'H5')):
        for lmax in (None, 75, 61):
            key = f'{kind}:{form}:{lmax}'
            rec.case(key)
            lm = lmax or DEFAULT[kind]
            with rec.guard(key):
                got = read_GIA_model(folder/name, GIA=kind, LMAX=lmax,
                    DATAFORM=form)
                verify(rec, key, got, C, S, lm, lm)
                out = folder/f'stokes_{title}_L{lm}.{suf}'
                back = read_GIA_model(out, GIA=form, LMAX=lm)
                verify(rec, f'{key}:again', back, fit(C, lm, lm),
                    fit(S, lm, lm), lm, lm)
                for q in (None, 60, 64):
                    back = read_GIA_model(out, GIA=form, LMAX=q)
                    verify(rec, f'{key}:again:{q}', back, fit(C, lm, lm),
                        fit(S, lm, lm), q or 60, q or 60)
                if form == 'ascii':
                    continue
                for case in (str.upper, str.capitalize):
                    rec.case((key, case('title')))
                    if form == 'netCDF4':
                        with netCDF4.Dataset(out, 'r+') as f:
                            for a in ('title', 'reference'):
                                n, = [x for x in f.ncattrs()
                                    if x.lower() == a]
                                f.renameAttribute(n, case(a))
                    else:
                        with h5py.File(out, 'r+') as f:
                            for a in ('title', 'reference'):
                                n, = [x for x in f.attrs if x.lower() == a]
                                v = f.attrs[n]
                                del f.attrs[n]
                                f.attrs[case(a)] = v
                    back = read_GIA_model(out, GIA=form, LMAX=4)
                    k2 = f"{key}:{case('title')}"
                    rec.eq(back['title'], title, f'{k2}:title')
                    rec.eq(back['reference'], got['reference'],
                        f'{k2}:reference')
    rec.sample({'layout': kind, 'degree': 75})


@CHECK.block('objects', params=lambda tier: [(k, L, tier) for k in NAMES
    for L in sizes(tier)], timeout=600)
def objects(rec, par):
    """model objects and the drifts built from them"""
    kind, L, tier = par
    folder = pathlib.Path(rec.mkdir())
    name, title = NAMES[kind][0]
    text, C, S = model(kind, L, 'degree')
    (folder/name).write_text(text)
    times = [[2003.3], [2002.29, 2010.5], [1999.0, 2003.3, 2020.04],
        list(2002 + (np.arange(36) + 0.5)/12)]
    for lmax in range(1, L + 1):
        for opt in ({}, {'mmax': 1}, {'MMAX': 1}, {'mmax': lmax},
                {'MMAX': 0}, {'mmax': 0}, {'MMAX': None}):
            M = list(opt.values())[0] if opt else None
            M = lmax if M is None else M
            key = f'{kind}:{lmax}:{opt}'
            rec.case(key)
            with rec.guard(key):
                for ask in (name, name.upper()):
                    g = gia(lmax=lmax).from_GIA(folder/ask, GIA=kind, **opt)
                    verify(rec, key, dict(clm=g.clm, slm=g.slm, l=g.l, m=g.m),
                        C, S, lmax, M)
                rec.eq((int(g.lmax), int(g.mmax)), (lmax, M), f'{key}:limits')
                cited(rec, key, kind, dict(title=g.title, citation=g.citation,
                    reference=g.reference, url=g.url), title)
                for t in times:
                    for ep in (None, 2003.3, 2010.0, 0.0):
                        k2 = f'{key}:{len(t)}:{ep}'
                        rec.case(k2)
                        kw = {} if ep is None else {'epoch': ep}
                        ep = 2003.3 if ep is None else ep
                        d = g.drift(np.array(t), **kw)
                        dt = np.array(t) - ep
                        rec.close(d.clm, fit(C, lmax, M)[:, :, None]*dt,
                            f'{k2}:clm', rtol=1e-9, atol=1e-30)
                        rec.close(d.slm, fit(S, lmax, M)[:, :, None]*dt,
                            f'{k2}:slm', rtol=1e-9, atol=1e-30)
                        rec.eq(np.asarray(d.time), np.array(t), f'{k2}:time')
                        rec.eq(np.asarray(d.month), np.array([int(np.floor(
                            12*(x - 2002))) + 1 for x in t]), f'{k2}:month')
                # the model itself is not changed
                verify(rec, f'{key}:after', dict(clm=g.clm, slm=g.slm, l=g.l,
                    m=g.m), C, S, lmax, M)
    rec.sample({'layout': kind, 'degree': L})


@CHECK.block('empty', params=lambda tier: ['none', 'absent'])
def empty(rec, kind):
    """without a model the rates are zero; an absent file is refused"""
    folder = pathlib.Path(rec.mkdir())
    if kind == 'absent':
        for k in list(NAMES) + ['ascii', 'netCDF4', 'HDF5']:
            rec.case(k)
            rec.raises(lambda: read_GIA_model(folder/'none.txt', GIA=k,
                LMAX=3), k, FileNotFoundError)
            rec.raises(lambda: gia(lmax=3).from_GIA(folder/'none.txt', GIA=k),
                f'{k}:object', FileNotFoundError)
        return
    for lmax in (None, 1, 2, 5):
        for mmax in (None, 0, 1, 3):
            rec.case((lmax, mmax))
            with rec.guard(f'{lmax}:{mmax}'):
                got = read_GIA_model(None, GIA=None, LMAX=lmax, MMAX=mmax)
                L = lmax or 60
                M = L if mmax is None else min(L, mmax)
                verify(rec, f'{lmax}:{mmax}', got, np.zeros((1, 1)),
                    np.zeros((1, 1)), L, M)
                rec.eq([got[k] for k in ('title', 'citation', 'reference',
                    'url')], [None]*4, f'{lmax}:{mmax}:text')
                g = gia(lmax=lmax).from_GIA(None, GIA=None, mmax=mmax)
                verify(rec, f'{lmax}:{mmax}:object', dict(clm=g.clm,
                    slm=g.slm, l=g.l, m=g.m), np.zeros((1, 1)),
                    np.zeros((1, 1)), L, M)
    rec.sample({'layout': None})
