"""P27: low-degree and geocenter series keep value, date and month"""
import gzip
import io
import itertools
import os
import pathlib
import numpy as np
import netCDF4
import mc
import ref
import gravity_toolkit as gt
import gravity_toolkit.SLR as SLR
from gravity_toolkit.geocenter import geocenter

CHECK = mc.Check('P27', level='bounded_exhaustive',
    rule='distinct (product, header, layout, series of months, option) files '
    'read and compared with their records',
    assumptions=['file names follow the naming of the distributing centres',
        'series are in date order and hold a special month only together with '
        'the month it is centred in',
        'the standard deviation columns of the combined low-degree product of '
        'GFZ may be scaled by 1e-10 or by 1e-12'])

MONTHS = list(range(4, 230))
# (months of the series, months in which their dates lie)
SPECIAL = [([118, 119], [118, 118]), ([120, 121], [121, 121]),
    ([160, 161], [160, 160]), ([202, 203], [203, 203]),
    ([117, 118, 119, 120], [117, 118, 118, 120]),
    ([119, 120, 121, 122], [119, 121, 121, 122]),
    ([159, 160, 161, 162], [159, 160, 160, 162]),
    ([201, 202, 203, 204], [201, 203, 203, 204])]


def series(tier):
    out = [([m], [m]) for m in MONTHS]
    out += [([m, m + 1], [m, m + 1]) for m in range(4, 230, 1 if
        tier == 'thorough' else 5)]
    out += [([m, m + 1, m + 3], [m, m + 1, m + 3]) for m in range(4, 226, 1 if
        tier == 'thorough' else 5)]
    if tier == 'thorough':
        out += [(list(range(m, m + 12)), list(range(m, m + 12)))
            for m in range(4, 215)]
    return out + SPECIAL


def ym(g):
    return 2002 + (g - 1)//12, (g - 1) % 12 + 1


def when(dates, start):
    """(year, month, day) of each record: the span starts on the first day,
    or is centred in the month; two records of one month are days apart"""
    out = []
    for i, g in enumerate(dates):
        y, m = ym(g)
        twin = i > 0 and dates[i - 1] == g
        d = (1, 6) if start else (12, 20)
        out.append((y, m, d[twin]))
    return out


def val(col, rec):
    """a number with the mark of its column and record"""
    return (-1)**(col + rec)*(1 + 0.0137*col + 0.000731*rec)


def mjd(y, m, d):
    return float(ref.julian_day(y, m, d)) - 2400000.5


def write(folder, name, text):
    p = pathlib.Path(folder)/name
    p.write_text(text)
    return p


HEADS = {'none': None, 'one': ['PRODUCT:'],
    'long': ['TITLE: a series 2002.5 -4.8E-04', '', ' Column 1: MJD 1.0',
        '=====', 'PRODUCT: 1.0 2.0']}


def head(kind, word):
    if HEADS[kind] is None:
        return []
    return [l.replace('PRODUCT:', word) for l in HEADS[kind]]


def verify(rec, key, got, want):
    """compare the variables of a series"""
    for k, (w, tol, absolute) in want.items():
        if k not in got:
            rec.fail(f'{key}:{k}', 'absent')
            continue
        if isinstance(w, dict):
            w = w['any']
            ok = any(not mc._notclose(np.asarray(got[k]), np.asarray(v), tol,
                absolute, True) for v in w)
            rec.check(ok, f'{key}:{k}', lambda: f'got {got[k]} want {w}')
        elif tol == 0:
            rec.check(np.shape(got[k]) == np.shape(w) and
                np.array_equal(got[k], w), f'{key}:{k}',
                lambda: f'got {got[k]} want {w}')
        else:
            rec.close(np.asarray(got[k]), np.asarray(w), f'{key}:{k}',
                rtol=tol, atol=absolute)


T64 = 1e-9
F32 = 3e-7


# ---------------------------------------------------------------- columns
def rows(dates, start, ncol, noon=0.0):
    w = when(dates, start)
    return [(mjd(*d) + noon, ref.decimal_year(*d) + noon/(365 + (d[0] % 4
        == 0)), [val(c, i) for c in range(ncol)]) for i, d in enumerate(w)]


def fmt(x):
    return f'{x:.13E}'


def line_tn(r, n, tail=''):
    """beginning date, columns of value, anomaly and deviation"""
    out = f'{r[0]:.1f} {r[1]:.8f}'
    for k in range(n):
        out += f'  {r[2][3*k]*1e-4:.13E} {r[2][3*k+1]:9.6f} ' \
            f'{abs(r[2][3*k+2]):9.6f}'
    return out + tail


BLANKS = ('no', 'before', 'between', 'after')


def text_of(lines, hd, blanks):
    body = list(lines)
    if blanks == 'before':
        body = [''] + body
    elif blanks == 'between':
        body = [x for l in body for x in (l, '')]
    elif blanks == 'after':
        body = body + ['', '']
    return '\n'.join(hd + body) + '\n'


def zonal(k, r):
    return np.array([x[2][3*k]*1e-4 for x in r])


def sigma(k, r, scale=1e-10):
    return np.array([abs(x[2][3*k + 2])*scale for x in r])


def either(k, r):
    return {'any': [sigma(k, r), sigma(k, r, 1e-12)]}


@CHECK.block('techniques', params=lambda tier: [(p, h, tier) for p in
    ('TN-14', 'TN-11', 'TN-07', 'TN-05', 'GFZ', 'GRAVIS', 'GSFC')
    for h in HEADS], timeout=600)
def tn(rec, par):
    """replacement series distributed with the mission data"""
    prod, hk, tier = par
    folder = rec.mkdir()
    for si, (mons, dates) in enumerate(series(tier)):
        for bl in (BLANKS if si % 7 == 0 or si > 225 else ('no',)):
            key = f'{prod}:{hk}:{bl}:{",".join(map(str, mons))}'
            r = rows(dates, True, 15, (0.0, 0.5)[si % 3 == 1])
            mon = np.array(mons)
            tfile = np.array([float(f'{x[1]:.8f}') for x in r])
            tmjd = np.array([x[1] for x in r])
            kw = {} if HEADS[hk] else {'HEADER': False}
            want = {'month': (mon, 0, 0)}
            jobs = []
            if prod == 'TN-14':
                # text of months without the second coefficient
                hd = head(hk, 'Product:')
                nan = [i % 3 == 1 and len(mons) == 3 for i in range(len(r))]
                ls = []
                for x, n in zip(r, nan):
                    end = f'  {x[0]+30:.1f} {x[1]+0.08:.4f}'
                    ls.append(line_tn(x, 1, '   NaN   NaN   NaN' + end) if n
                        else line_tn(x, 2, end))
                keep = [not n for n in nan]
                jobs.append(('C20', {}, dict(want, time=(tmjd, T64, 0),
                    data=(zonal(0, r), 1e-11, 0),
                    error=(sigma(0, r), 1e-9, 0))))
                sub = [x for x, q in zip(r, keep) if q]
                jobs.append(('C30', {}, dict(month=(mon[keep], 0, 0),
                    time=(tmjd[keep], T64, 0), data=(zonal(1, sub), 1e-11, 0),
                    error=(sigma(1, sub), 1e-9, 0))))
                name = 'TN-14_C30_C20_GSFC_SLR.txt'
            elif prod in ('TN-11', 'TN-07', 'TN-05'):
                hd = head(hk, 'PRODUCT:')
                twin = [i > 0 and dates[i] == dates[i - 1]
                    for i in range(len(r))]
                if prod != 'TN-11' and any(twin):
                    continue
                ls = [line_tn(x, 1) for x in r]
                name = f'{prod}_C20_SLR.txt'
                jobs.append(('C20', {}, dict(want, time=(tmjd, T64, 0),
                    data=(zonal(0, r), 1e-11, 0),
                    error=(sigma(0, r), 1e-9, 0))))
            elif prod == 'GFZ':
                hd = head(hk, 'PRODUCT:')
                flag = [('  G*', '  Gm')[i % 2] for i in range(len(r))]
                # unflagged records are not replacements
                ls = []
                for i, (x, f) in enumerate(zip(r, flag)):
                    ls.append(line_tn(x, 1, f))
                    if i == 0 and len(mons) > 1:
                        ls.append(line_tn((x[0] + 9, x[1] + 0.02,
                            [9.0]*15), 1, '  --'))
                name = 'GFZ_RL06_C20_SLR.dat'
                jobs.append(('C20', {}, dict(want, time=(tfile, T64, 0),
                    data=(zonal(0, r), 1e-11, 0),
                    error=(sigma(0, r), 1e-9, 0))))
            elif prod == 'GRAVIS':
                hd = head(hk, 'PRODUCT:')
                ls = [line_tn(x, 4, f' {x[0]+30:.1f}') for x in r]
                name = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0002.dat'
                for k, c in enumerate(('C20', 'C30')):
                    jobs.append((c, {}, dict(want, time=(tfile, T64, 0),
                        data=(zonal(k, r), 1e-11, 0),
                        error=(either(k, r), 1e-9, 0))))
                jobs.append(('CS2', {}, dict(want, time=(tfile, T64, 0),
                    C2m=(zonal(2, r), 1e-11, 0), S2m=(zonal(3, r), 1e-11, 0),
                    eC2m=(either(2, r), 1e-9, 0),
                    eS2m=(either(3, r), 1e-9, 0))))
            else:
                hd = head(hk, 'Product:')
                ls = []
                gone = [i == 1 and len(mons) == 3 for i in range(len(r))]
                for x, n in zip(r, gone):
                    end = f'  {x[0]+30:.1f} {x[1]+0.08:.4f} '
                    if n:
                        ls.append(line_tn(x, 1, '  NaN NaN NaN' + end
                            + ' NaN NaN NaN'))
                    else:
                        c50 = f'{x[2][9]*1e-4:.13E} {x[2][10]:9.6f} ' \
                            f'{abs(x[2][11]):9.6f}'
                        ls.append(line_tn(x, 2, end + c50))
                keep = [not n for n in gone]
                sub = [x for x, q in zip(r, keep) if q]
                name = 'GSFC_SLR_C20_C30_C50_GSM_replacement.txt'
                jobs.append(('C50', {}, dict(month=(mon[keep], 0, 0),
                    time=(tmjd[keep], T64, 0), data=(zonal(3, sub), 1e-11, 0),
                    error=(sigma(3, sub), 1e-9, 0))))
            p = write(folder, name, text_of(ls, hd, bl))
            for fn, extra, wanted in jobs:
                rec.case((key, fn))
                with rec.guard(f'{key}:{fn}'):
                    got = getattr(SLR, fn)(p if si % 2 else str(p), **kw,
                        **extra)
                    verify(rec, f'{key}:{fn}', got, wanted)
    rec.sample({'product': prod, 'header': hk, 'months': mons})


@CHECK.block('overlaps', params=lambda tier: ['TN-07', 'TN-05'], timeout=300)
def overlaps(rec, prod):
    """months solved twice use the solution flagged for the mission span"""
    folder = rec.mkdir()
    for base in MONTHS[:-3:1]:
        for pos in range(3):
            for flagged in (0, 1):
                mons = [base, base + 1, base + 2]
                r, keep = [], []
                for i, g in enumerate(mons):
                    y, m = ym(g)
                    for q in range(2 if i == pos else 1):
                        f = i == pos and q == flagged
                        d = (1, 3)[q]
                        r.append(((mjd(y, m, d), ref.decimal_year(y, m, d),
                            [val(c, 2*i + q) for c in range(3)]), f))
                        keep.append(f or i != pos)
                ls = [line_tn(x, 1, ('  *', '  * ', '*')[base % 3] if f else '')
                    for x, f in r]
                p = write(folder, f'{prod}_C20_SLR.txt',
                    text_of(ls, ['PRODUCT:'], 'no'))
                key = f'{prod}:{base}:{pos}:{flagged}'
                rec.case(key)
                with rec.guard(key):
                    got = SLR.C20(p)
                    sub = [x for (x, f), k in zip(r, keep) if k]
                    verify(rec, key, got, dict(month=(np.array(mons), 0, 0),
                        time=(np.array([x[1] for x in sub]), T64, 0),
                        data=(zonal(0, sub), 1e-11, 0),
                        error=(sigma(0, sub), 1e-9, 0)))
    rec.sample({'product': prod, 'month': base, 'flagged': flagged})


@CHECK.block('columns', params=lambda tier: [(p, tier) for p in
    ('C20_RL', 'C21_RL', 'C22_RL', 'C30_LARES', 'C40_LARES', 'C50_LARES')],
    timeout=600)
def columns(rec, par):
    """plain column files of the processing centres"""
    prod, tier = par
    folder = rec.mkdir()
    for si, (mons, dates) in enumerate(series(tier)):
        for ncom in (0, 1, 3):
            w = when(dates, False)
            t = np.array([ref.decimal_year(*d) for d in w])
            v = np.array([[val(c, i) for c in range(8)]
                for i in range(len(w))])
            key = f'{prod}:{ncom}:{",".join(map(str, mons))}'
            com = ['# C20 2002.1 3.0 text']*ncom
            mon = (np.array(mons), 0, 0)
            time = (t, F32, 0)
            if prod == 'C20_RL':
                ls = [f'{a:.4f} {fmt(x[0]*1e-4)} {x[1]:.4f} {abs(x[2]):.4f} '
                    f'{x[3]:.4f} {a-0.04:.4f} {a+0.04:.4f}'
                    for a, x in zip(t, v)]
                p = write(folder, 'C20_RL06.txt', text_of(ls, com, 'no'))
                for aod in (True, False, None):
                    rec.case((key, aod))
                    with rec.guard(f'{key}:{aod}'):
                        got = SLR.C20(p) if aod is None else SLR.C20(p,
                            AOD=aod)
                        a = 0.0 if aod is False else 1e-10
                        verify(rec, f'{key}:{aod}', got, dict(month=mon,
                            time=time, data=(v[:, 0]*1e-4 - np.round(
                            v[:, 3], 4)*a, 1e-11, 2e-17), error=(np.round(abs(v[:, 2]), 4)*1e-10,
                            F32, 0)))
            elif prod in ('C21_RL', 'C22_RL'):
                ls = [f'{a:.4f} {fmt(x[0]*1e-6)} {fmt(x[1]*1e-6)} '
                    f'{abs(x[2]):.4f} {abs(x[3]):.4f} {x[4]:.4f} {x[5]:.4f} '
                    f'{a-0.04:.4f} {a+0.04:.4f}' for a, x in zip(t, v)]
                n = prod[2]
                p = write(folder, f'C2{n}_S2{n}_RL06.txt',
                    text_of(ls, com, 'no'))
                rec.case(key)
                with rec.guard(key):
                    got = SLR.CS2(p, ORDER=int(n))
                    q = np.round(v, 4)
                    verify(rec, key, got, dict(month=mon, time=time,
                        C2m=(v[:, 0]*1e-6 - q[:, 4]*1e-10, 1e-9, 0),
                        S2m=(v[:, 1]*1e-6 - q[:, 5]*1e-10, 1e-9, 0),
                        eC2m=(abs(q[:, 2])*1e-10, F32, 0),
                        eS2m=(abs(q[:, 3])*1e-10, F32, 0)))
            else:
                c = prod[:3]
                ls = [f'{a:.8f} {x[0]:.6f}' for a, x in zip(t, v)]
                p = write(folder, f'{c}_LARES_filtered.txt',
                    text_of(ls, ['time anomaly'], 'no'))
                for mean in (None, 0.0, 9.5e-7):
                    rec.case((key, mean))
                    with rec.guard(f'{key}:{mean}'):
                        kw = {} if mean is None else {f'{c}_MEAN': mean}
                        got = getattr(SLR, c)(p, **kw)
                        if mean is None:
                            mean = 9.5717395773300e-07 if c == 'C30' else 0.0
                        verify(rec, f'{key}:{mean}', got, dict(month=mon,
                            time=(t, T64, 0), data=(1e-10*np.round(v[:, 0], 6)
                            + mean, 1e-11, 0), error=(np.zeros(len(t)), 1e-12,
                            0)))
                break
    rec.sample({'product': prod, 'months': mons})


# ------------------------------------------------------- monthly 5x5 fields
LM = [(l, m) for l in range(2, 6) for m in range(l + 1)] + [(6, 1)]
ORDERS = {'degree': LM, 'reverse': LM[::-1],
    'order': sorted(LM, key=lambda a: (a[1], a[0]))}


def monthly(dates, order='degree', nhead=3):
    mean = {k: (1e-4*val(3*i, 1), 1e-4*val(3*i + 1, 2)*(k[1] > 0),
        1e-12*abs(val(i, 3)), 2e-12*abs(val(i, 4))) for i, k in enumerate(LM)}
    out = ['text of the header 2002.5 4.0']*nhead + ['='*80]*(1 + (nhead
        == 3)) + ['text']*(nhead == 3) + ['='*80]*(nhead == 3)
    lst = ORDERS[order]
    for l, m in lst:
        a = mean[l, m]
        out.append(f'{l} {m} ' + ' '.join(fmt(x).replace('E', 'D')
            for x in a))
    out += ['more text', 'end of header']
    full = []
    for i, (y, m, d) in enumerate(when(dates, False)):
        y, m = ym(dates[i])
        t0 = mjd(y, m, 1)
        t1 = mjd(y + (m == 12), m % 12 + 1, 1)
        out.append(f'{i+1} 30 1 {y} {m} {t0:.2f} {t1:.2f}')
        f = np.zeros((4, 7, 7))
        for j, (l, q) in enumerate(lst):
            x = [val(7*j, i) + l, (val(7*j + 1, i) + q)*(q > 0), 5.0, 6.0,
                abs(val(7*j + 2, i)), abs(val(7*j + 3, i))]
            x = [round(z, 7) for z in x]
            out.append(f'{l} {q} ' + ' '.join(f'{z:.7f}' for z in x))
            a = mean[l, q]
            g = [float(fmt(z)) for z in a]
            f[0, l, q] = x[0]
            f[1, l, q] = x[1]
            f[2, l, q] = x[4]
            f[3, l, q] = x[5]
        full.append((f, (t0 + t1)/2, ref.decimal_year(y, m, 1) + 0.5*(
            ref.decimal_year(y + (m == 12), m % 12 + 1, 1)
            - ref.decimal_year(y, m, 1))))
    mu = np.zeros((4, 7, 7))
    for (l, q), a in mean.items():
        mu[:, l, q] = [float(fmt(z)) for z in a]
    return '\n'.join(out) + '\n', full, mu


def combine(full, mu, scale=1e-10):
    c = np.stack([mu[0] + scale*f[0][0] for f in full], axis=-1)
    s = np.stack([mu[1] + scale*f[0][1] for f in full], axis=-1)
    ec = np.stack([np.sqrt(mu[2]**2 + (scale*f[0][2])**2) for f in full],
        axis=-1)
    es = np.stack([np.sqrt(mu[3]**2 + (scale*f[0][3])**2) for f in full],
        axis=-1)
    return c, s, ec, es


@CHECK.block('monthly', params=lambda tier: [(o, n, tier) for o in ORDERS
    for n in (0, 1, 3)], timeout=600)
def monthly_fields(rec, par):
    """monthly fields of degree five with the (6,1) coefficient"""
    order, nh, tier = par
    folder = rec.mkdir()
    runs = [s for i, s in enumerate(series(tier)) if s[0] == s[1] and
        (tier == 'thorough' or i % 4 == 0 or len(s[0]) == 3)]
    for mons, dates in runs:
        key = f'{order}:{nh}:{",".join(map(str, mons))}'
        text, full, mu = monthly(dates, order, nh)
        p = write(folder, 'CSR_Monthly_5x5_Gravity_Harmonics.txt', text)
        c, s, ec, es = combine(full, mu)
        rec.case(key)
        tm = np.array([f[2] for f in full])
        with rec.guard(key):
            Y = gt.read_SLR_harmonics(p, HEADER=True)
            for k, g, w in (('clm', Y['clm'], c), ('slm', Y['slm'], s),
                    ('eclm', Y['error']['clm'], ec),
                    ('eslm', Y['error']['slm'], es)):
                rec.close(g, w, f'{key}:{k}', rtol=1e-10, atol=1e-22)
            rec.close(Y['MJD'], np.array([f[1] for f in full]), f'{key}:MJD')
            # the day inside the month is not given by the file
            rec.check(np.shape(Y['time']) == tm.shape and np.all(
                abs(Y['time'] - tm) < 1.1/366), f'{key}:time',
                lambda: f"got {Y['time']} want {tm}")
            Z = gt.read_SLR_harmonics(p, SCALE=3e-10)
            rec.close(Z['clm'], combine(full, mu, 3e-10)[0], f'{key}:scaled',
                rtol=1e-10, atol=1e-22)
        for fn, l in (('C30', 3), ('C40', 4), ('C50', 5)):
            rec.case((key, fn))
            with rec.guard(f'{key}:{fn}'):
                got = getattr(SLR, fn)(p)
                verify(rec, f'{key}:{fn}', got, dict(
                    month=(np.array(mons), 0, 0),
                    data=(c[l, 0], 1e-10, 0), error=(ec[l, 0], 1e-10, 0),
                    time=(tm, 1.5e-6, 0)))
    rec.sample({'order': order, 'header lines': nh, 'months': mons})


# ---------------------------------------------------------- weekly solutions
def weekly(n, t0):
    t = np.array([round(t0 + 7*i/365.25, 6) for i in range(n)])
    f = np.zeros((2, 7, 7, n))
    for j, (l, m) in enumerate(LM):
        for i in range(n):
            f[0, l, m, i] = round(val(5*j, i) + l, 8)*1e-6
            f[1, l, m, i] = round(val(5*j + 1, i) + m, 8)*1e-6*(m > 0)
    return t, f


def weekly_text(t, f, order='degree', hd=('a', 'Product: b')):
    out = list(hd)
    for i, a in enumerate(t):
        out.append(f'{52000+7*i:.1f} {a:.6f}')
        for l, m in ORDERS[order]:
            out.append(f'{l} {m} {fmt(f[0, l, m, i])} {fmt(f[1, l, m, i])}')
    return '\n'.join(out) + '\n'


def windows(t, x, D, n, tol):
    """every run of n consecutive daily values centred close to a date"""
    day = np.arange(7*len(t))
    out = []
    for s in range(0, 7*len(t) - n + 1):
        k = day[s:s + n]
        mid = np.mean(t[k//7] + (k % 7 - 3.0)/365.25)
        if abs(mid - D) <= tol/365.25:
            out.append((mid, np.mean(x[k//7])))
    return out


@CHECK.block('weekly', params=lambda tier: [(l, o) for l in
    ('C40', 'C50', 'CS2:1', 'CS2:2', 'GSFC:1', 'GSFC:2', 'read', 'direct')
    for o in ORDERS], timeout=600)
def weekly_series(rec, par):
    """seven day solutions averaged over the 28 days around each date"""
    kind, order = par
    folder = rec.mkdir()
    for n in (1, 2, 3, 6, 12, 20):
        for t0 in (2002.3, 2011.8, 2015.3, 2018.75):
            t, f = weekly(n, t0)
            key = f'{kind}:{order}:{n}:{t0}'
            p = write(folder, 'gsfc_slr_5x5c61s61.txt',
                weekly_text(t, f, order))
            if kind == 'read':
                for scale in (None, 2.0):
                    for hd in (True, False):
                        rec.case((key, scale, hd))
                        if not hd:
                            p = write(folder, 'gsfc_slr_5x5c61s61.txt',
                                weekly_text(t, f, order, ()))
                        with rec.guard(f'{key}:{scale}:{hd}'):
                            kw = {} if scale is None else {'SCALE': scale}
                            Y = gt.read_SLR_harmonics(p, HEADER=hd, **kw)
                            a = scale or 1.0
                            rec.close(Y['clm'], a*f[0], f'{key}:{scale}:clm')
                            rec.close(Y['slm'], a*f[1], f'{key}:{scale}:slm')
                            rec.close(Y['time'], t, f'{key}:{scale}:time')
                            rec.close(Y['MJD'], 52000.0 + 7*np.arange(n),
                                f'{key}:{scale}:MJD')
                    p = write(folder, 'gsfc_slr_5x5c61s61.txt',
                        weekly_text(t, f, order))
                continue
            if n < 6:
                continue
            # dates far enough from the ends for complete averages
            lo, hi = t[0] + 16/365.25, t[-1] - 16/365.25
            for dd in ([lo], [lo, hi], list(np.arange(lo, hi, 5.3/365.25))):
                D = np.array(dd)
                rec.case((key, len(dd)))
                k2 = f'{key}:{len(dd)}'
                with rec.guard(k2):
                    if kind in ('C40', 'C50'):
                        got = getattr(SLR, kind)(p, DATE=D)
                        pairs = [('data', f[0, int(kind[1]), 0], 0)]
                        zero = ['error']
                    elif kind == 'direct':
                        got = gt.convert_weekly(t, f[0, 2, 0], DATE=D)
                        pairs, zero = [('data', f[0, 2, 0], 0)], []
                    else:
                        o = int(kind[-1])
                        if kind[:4] == 'GSFC':
                            ls = [f'{a:.6f} {fmt(x)} {fmt(y)}' for a, x, y in
                                zip(t, f[0, 2, o], f[1, 2, o])]
                            p = write(folder, f'GSFC_C2{o}_S2{o}.txt',
                                '\n'.join(['# text'] + ls) + '\n')
                        got = SLR.CS2(p, ORDER=o, DATE=D)
                        pairs = [('C2m', f[0, 2, o], 0), ('S2m', f[1, 2, o],
                            0)]
                        zero = ['eC2m', 'eS2m']
                    for z in zero:
                        rec.check(np.shape(got[z]) == D.shape and
                            not np.any(got[z]), f'{k2}:{z}', str(got[z]))
                    rec.check(np.shape(got['month']) == D.shape,
                        f'{k2}:months', str(got['month']))
                    for name, x, _ in pairs:
                        rec.check(np.shape(got[name]) == D.shape,
                            f'{k2}:{name}:shape', str(np.shape(got[name])))
                        for i, d in enumerate(D):
                            w = windows(t, x, d, 28, 1.6)
                            ok = any(abs(a - got['time'][i]) < 0.8/365.25 and
                                abs(b - got[name][i]) < 1e-11*abs(b)
                                for a, b in w)
                            rec.check(ok, f'{k2}:{name}:{i}', lambda:
                                f"got {got['time'][i]} {got[name][i]} "
                                f"allowed {w}")
                    raw = 12*(np.asarray(got['time'], float) - 2002)
                    raw = np.floor(raw).astype(int) + 1
                    if len(set(raw)) == len(raw):
                        rec.check(np.array_equal(got['month'], raw),
                            f'{k2}:month', f"{got['month']} {raw}")
    rec.sample({'kind': kind, 'weeks': n, 'order': order})


# ------------------------------------------------------------------ geocenter
def table(dates, start=False):
    return [(d, ref.decimal_year(*d), [val(c, i) for c in range(12)])
        for i, d in enumerate(when(dates, start))]


def pick(t, c, scale=1.0, nd=9, absolute=False):
    x = np.array([float(f'{r[2][c]:.{nd}f}') for r in t])*scale
    return abs(x) if absolute else x


def fields(gc):
    return {k: getattr(gc, k, None) for k in ('time', 'month', 'C10', 'C11',
        'S11', 'eC10', 'eC11', 'eS11')}


RAD = 1000*6378137.0*(1 - 1/298.257223563)**(1/3)


@CHECK.block('geocenter', params=lambda tier: [(p, tier) for p in
    ('gravis', 'swenson', 'swenson-months', 'tellus', 'tellus-CSR', 'UCI',
    'netCDF4', 'netCDF4:group', 'netCDF4:gzip', 'netCDF4:bytes')],
    timeout=800)
def gc_files(rec, par):
    """degree one series of the different centres"""
    kind, tier = par
    folder = rec.mkdir()
    for si, (mons, dates) in enumerate(series(tier)):
        for nh in ((0, 2) if si % 5 == 0 else (2,)):
            key = f'{kind}:{nh}:{",".join(map(str, mons))}'
            start = kind == 'gravis'
            t = table(dates, start)
            tm = np.array([x[1] for x in t])
            mon = (np.array(mons), 0, 0)
            text = ['header 1.0 2.0 3.0']*nh
            rec.case(key)
            if kind == 'gravis':
                ls = []
                for d, a, v in t:
                    ls.append(f'{mjd(*d):.1f} {a:.8f}' + ''.join(
                        f' {fmt(v[3*k]*1e-10)} {v[3*k+1]:.6f} '
                        f'{abs(v[3*k+2]):.6f}' for k in range(3)))
                for bl in BLANKS:
                    p = write(folder, 'GRAVIS-2B_GFZOP_GEOCENTER_0002.dat',
                        text_of(ls, text + ['PRODUCT:'], bl))
                    with rec.guard(f'{key}:{bl}'):
                        got = fields(geocenter().from_gravis(p))
                        w = dict(month=mon, time=(tm, T64, 0))
                        for k, c in enumerate(('C10', 'C11', 'S11')):
                            w[c] = (np.array([x[2][3*k]*1e-10 for x in t]),
                                1e-11, 0)
                            w['e' + c] = (pick(t, 3*k + 2, 1e-10, 6, True),
                                1e-9, 0)
                        verify(rec, f'{key}:{bl}', got, w)
            elif kind.startswith('swenson'):
                ls = [f'{a:.8f} {v[0]:.9f} {v[1]:.9f} {v[2]:.9f}' + (
                    f' {m}' if kind.endswith('months') else '')
                    for (d, a, v), m in zip(t, mons)]
                p = write(folder, 'gad_gsm.rl05.txt', text_of(ls, text +
                    ['Time C10 C11 S11'], 'no'))
                with rec.guard(key):
                    got = fields(geocenter().from_swenson(p))
                    a = 0.1/(5.517*6.371e8)
                    verify(rec, key, got, dict(month=mon, time=(tm, T64, 0),
                        C10=(pick(t, 0, a), 1e-9, 0),
                        C11=(pick(t, 1, a), 1e-9, 0),
                        S11=(pick(t, 2, a), 1e-9, 0)))
                    if nh == 0:
                        q = write(folder, 'nohead.txt', text_of(ls, [], 'no'))
                        got = fields(geocenter().from_swenson(q,
                            header=False))
                        rec.close(got['C11'], pick(t, 1, a), f'{key}:plain',
                            rtol=1e-9)
            elif kind.startswith('tellus'):
                jpl = kind == 'tellus'
                ls, tw = [], []
                for i, (d, a, v) in enumerate(t):
                    y, m = d[:2]
                    if jpl:
                        # spans of solutions around the middle date
                        c = ref.days_from_civil(*d)
                        b, e = civil(c - 9), civil(c + 9)
                        tw.append((ref.decimal_year(*b)
                            + ref.decimal_year(*e))/2)
                        end = f' {b[0]:04d}{b[1]:02d}{b[2]:02d}.0000 ' \
                            f'{e[0]:04d}{e[1]:02d}{e[2]:02d}.0000'
                        lead = 'GRCOF2 1'
                    else:
                        end = ''
                        lead = f'{y:04d}{m:02d} 1'
                        tw.append(ref.decimal_year(y, m, 1) + 0.5*(
                            ref.decimal_year(y + (m == 12), m % 12 + 1, 1)
                            - ref.decimal_year(y, m, 1)))
                    ls.append(f'{lead} 0 {fmt(v[0]*1e-10)} {0:.4f} '
                        f'{fmt(abs(v[1])*1e-11)} {0:.4f}' + end)
                    ls.append(f'{lead} 1 {fmt(v[2]*1e-10)} '
                        f'{fmt(v[3]*1e-10)} {fmt(abs(v[4])*1e-11)} '
                        f'{fmt(abs(v[5])*1e-11)}' + end)
                p = write(folder, 'TN-13_GEOC_CSR_RL06.txt', text_of(ls,
                    text + ['end of header ====' if jpl else
                    "'(a6,1x,i1)'"], 'no'))
                with rec.guard(key):
                    got = fields(geocenter().from_tellus(p, JPL=jpl))
                    g = lambda c, s: np.array([float(fmt(s*x[2][c]*1e-10))
                        for x in t])
                    e = lambda c: np.array([abs(x[2][c])*1e-11 for x in t])
                    verify(rec, key, got, dict(month=mon,
                        time=(np.array(tw), T64 if jpl else 1.5e-6, 0),
                        C10=(g(0, 1), 1e-11, 0), C11=(g(2, 1), 1e-11, 0),
                        S11=(g(3, 1), 1e-11, 0), eC10=(e(1), 1e-11, 0),
                        eC11=(e(4), 1e-11, 0), eS11=(e(5), 1e-11, 0)))
            elif kind == 'UCI':
                cols = ['C10', 'C11', 'S11', 'eC10', 'eC11', 'eS11']
                for perm in ((0, 1, 2, 3, 4, 5), (3, 4, 5, 0, 1, 2),
                        (2, 5, 1, 4, 0, 3), (0, 1, 2)):
                    use = [cols[i] for i in perm]
                    yam = ['header:', '  title: geocenter', '  variables:',
                        '    mid-epoch_time:', '      comment: 1st column']
                    for i, c in enumerate(use):
                        suf = {2: 'nd', 3: 'rd'}.get(i + 2, 'th')
                        yam += [f'    {c}:', f'      comment: {i+2}{suf} '
                            'column', '      units: fully-normalized']
                    yam += ['    month:', '      comment: last column'] + [
                        f'  note{i}: text' for i in range(nh)] + \
                        ['# End of YAML header']
                    ls = [f'{a:.8f} ' + ' '.join(fmt(v[i]*1e-10)
                        for i in perm) + f' {m:03d}' for (d, a, v), m in
                        zip(t, mons)]
                    p = write(folder, 'CSR_SLF_iter.txt', '\n'.join(yam + ls)
                        + '\n')
                    k2 = f'{key}:{perm}'
                    with rec.guard(k2):
                        got = fields(geocenter().from_UCI(p))
                        w = {c: (np.array([x[2][i]*1e-10 for x in t]), 1e-11,
                            0) for c, i in zip(use, perm)}
                        verify(rec, k2, got, dict(w, month=mon,
                            time=(tm, T64, 0)))
            else:
                opt = kind.partition(':')[2]
                p = pathlib.Path(folder)/'geocenter.nc'
                with netCDF4.Dataset(p, 'w') as nc:
                    g = nc.createGroup('CSR') if opt == 'group' else nc
                    g.createDimension('time', len(t))
                    for c, a in [('time', tm), ('month', np.array(mons))] + [
                            (c, np.array([x[2][i]*1e-10 for x in t])) for i, c
                            in enumerate(('C10', 'C11', 'S11', 'eC10', 'eC11',
                            'eS11'))]:
                        q = g.createVariable(c, a.dtype, ('time',))
                        q[:] = a
                with rec.guard(key):
                    o = geocenter()
                    if opt == 'group':
                        o.from_netCDF4(p, group='CSR')
                    elif opt == 'gzip':
                        z = p.with_suffix('.nc.gz')
                        z.write_bytes(gzip.compress(p.read_bytes()))
                        o.from_netCDF4(z, compression='gzip')
                    elif opt == 'bytes':
                        o.from_netCDF4(Bytes(p.read_bytes()),
                            compression='bytes')
                    else:
                        o.from_netCDF4(p)
                    w = {c: (np.array([x[2][i]*1e-10 for x in t]), 1e-14, 0)
                        for i, c in enumerate(('C10', 'C11', 'S11', 'eC10',
                        'eC11', 'eS11'))}
                    verify(rec, key, fields(o), dict(w, month=mon,
                        time=(tm, 1e-14, 0)))
    rec.sample({'kind': kind, 'months': mons})


class Bytes(io.BytesIO):
    """in-memory file that can be shared as the readers do"""
    def __copy__(self):
        return Bytes(self.getvalue())


def civil(n):
    """calendar date of a day number"""
    for y in range(1970 + n//366 - 1, 1970 + n//365 + 2):
        for m in range(1, 13):
            a = n - ref.days_from_civil(y, m, 1)
            b = ref.days_from_civil(y + (m == 12), m % 12 + 1, 1) - n
            if a >= 0 and b > 0:
                return y, m, a + 1


COLS = ['time', 'X', 'Y', 'Z', 'X_sigma', 'Y_sigma', 'Z_sigma']


@CHECK.block('ranging', params=lambda tier: [(a, p, tier) for a in
    (False, True) for p in range(4)], timeout=800)
def gc_slr(rec, par):
    """Cartesian geocenter series, with dealiasing removed on request"""
    aod, pi, tier = par
    perm = [(0, 1, 2, 3, 4, 5, 6), (0, 6, 5, 4, 3, 2, 1),
        (3, 1, 0, 5, 2, 6, 4), (0, 4, 1, 5, 2, 6, 3)][pi]
    root = pathlib.Path(rec.mkdir())
    (root/'geocenter').mkdir()
    ad = root/'AOD1B'/'RL06'/'geocenter'
    if aod:
        ad.mkdir(parents=True)
        means = {}
        for g in range(1, 240):
            y, m = ym(g)
            n = 2 + g % 3
            xyz = np.array([[round(val(c, g + i) + c, 4) for c in range(3)]
                for i in range(n)])
            means[g] = xyz.mean(axis=0)
            (ad/f'AOD1B_RL06 glo_{y:04d}_{m:02d}.txt').write_text(
                '# header\n# 1.0\n' + ''.join(
                f'{y:04d}-{m:02d}-{i+1:02d}T{6*i:02d}:00:00 {x[0]:.4f} '
                f'{x[1]:.4f} {x[2]:.4f}\n' for i, x in enumerate(xyz)))
    for si, (mons, dates) in enumerate(series(tier)):
        if tier == 'quick' and pi and si % 4:
            continue
        for nh in (0, 2):
            for radius in (None, 6371.0e6):
                key = f'{aod}:{pi}:{nh}:{radius}:{",".join(map(str, mons))}'
                rec.case(key)
                t = table(dates)
                ls = []
                for d, a, v in t:
                    w = [f'{a:.8f}'] + [fmt(x).replace('E', 'D') for x in
                        v[:3]] + [fmt(abs(x)) for x in v[3:6]]
                    ls.append('  '.join(w[i] for i in perm))
                p = write(root/'geocenter', 'GCN_RL06.txt',
                    '\n'.join(['head 1.0']*nh + ls) + '\n')
                with rec.guard(key):
                    kw = {} if radius is None else {'radius': radius}
                    g = geocenter(**kw)
                    opt = {'AOD': True, 'release': 'RL06'} if aod else {}
                    g.from_SLR(p, columns=[COLS[i] for i in perm], header=nh,
                        **opt)
                    R = radius or RAD
                    w = {}
                    for k, c in ((2, 'C10'), (0, 'C11'), (1, 'S11')):
                        x = np.array([r[2][k] for r in t])
                        if aod:
                            x = x - np.array([means[d][k] for d in dates])
                        w[c] = (x/(R*3**0.5), 1e-6 if aod else 1e-11,
                            1e-15 if aod else 0)
                        w['e' + c] = (np.array([abs(r[2][3 + k]) for r in t])
                            / (R*3**0.5), 1e-11, 0)
                    verify(rec, key, fields(g), dict(w, month=(np.array(mons),
                        0, 0), time=(np.array([x[1] for x in t]), T64, 0)))
    rec.sample({'aod': aod, 'columns': [COLS[i] for i in perm]})


# ------------------------------------------------------------------- refusals
@CHECK.block('files', params=lambda tier: ['names', 'absent'])
def files(rec, kind):
    """the file asked for is the one read"""
    folder = pathlib.Path(rec.mkdir())
    if kind == 'absent':
        for fn in ('C20', 'C30', 'C40', 'C50', 'CS2'):
            for name in ('TN-14_x.txt', 'C20_RL06.txt', 'C30_LARES.txt',
                    'gsfc_slr_5x5c61s61.txt', 'GRAVIS-2B_GFZOP.dat'):
                rec.case((fn, name))
                rec.raises(lambda: getattr(SLR, fn)(folder/name),
                    f'{fn}:{name}')
        for fn in ('from_gravis', 'from_SLR', 'from_UCI', 'from_swenson',
                'from_tellus', 'from_netCDF4'):
            rec.case(fn)
            rec.raises(lambda: getattr(geocenter(), fn)(folder/'no.txt'),
                f'geocenter:{fn}', FileNotFoundError)
        p = write(folder, 'something.txt', '1 2 3\n')
        rec.case('unknown')
        rec.raises(lambda: gt.read_SLR_harmonics(p), 'unknown')
        rec.case('swenson')
        rec.raises(lambda: geocenter().from_swenson(p), 'swenson')
        rec.case('UCI')
        rec.raises(lambda: geocenter().from_UCI(p), 'UCI')
        for fn, name in (('C30', 'TN-14_C30.txt'), ('C50',
                'GSFC_SLR_C20_C30_C50_x.txt')):
            q = write(folder, name, 'Product:\n52400.0 2002.3 -4.8E-4 1.0 2.0 '
                'NaN NaN NaN 52430.0 2002.4\n')
            rec.case((fn, 'no data'))
            rec.raises(lambda: getattr(SLR, fn)(q), f'{fn}:no data')
        return
    names = ['TN-13_GEOC.txt', 'TN+13_GEOC.txt', 'a.b', 'axb', 'GEOC.txt',
        'geoc.TXT', 'GEOC.txt.old', 'xGEOC.txt', 'GEOC_txt']
    for k in (1, 2):
        for have in itertools.permutations(names, k):
            d = folder/'_'.join(map(str, (k, hash(have) % 10**9)))
            d.mkdir(exist_ok=True)
            for h in have:
                (d/h).write_text(h)
            listing = set(os.listdir(d))
            for ask in names:
                rec.case((have, ask))
                same = [h for h in listing if h.lower() == ask.lower()]
                key = f'{"+".join(have)}:{ask}'
                if ask in listing:
                    same = [ask]
                if same:
                    with rec.guard(key):
                        g = geocenter().case_insensitive_filename(d/ask)
                        rec.check(g.filename.name in same, key,
                            str(g.filename))
                else:
                    rec.raises(lambda: geocenter().case_insensitive_filename(
                        d/ask), key, FileNotFoundError)
            for h in listing:
                (d/h).unlink()
            d.rmdir()
    rec.sample({'files': list(have), 'asked': ask})
