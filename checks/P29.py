"""P29: low-degree replacement changes only the selected coefficients"""
import gzip
import itertools
import pathlib
import numpy as np
import mc
import ref
from checks import P26, P27
from checks.P27 import fmt, mjd, ym
import gravity_toolkit as gt
from gravity_toolkit.grace_input_months import grace_input_months

CHECK = mc.Check('P29', level='bounded_exhaustive',
    rule='distinct (product, months, truncation, replacement choice, records '
    'available) archives combined and compared coefficient by coefficient',
    assumptions=['the archive lists one solution per month and holds no '
        'solution for the two months between the last with two and the first '
        'with one accelerometer, as the mission',
        'uncertainties of the degree one coefficients are not compared',
        'file names follow the naming of the distributing centres'])

L = 6
MONTHS = [172, 174, 175, 176, 179, 180, 198, 199]
# centre, releases: satellite, centre name, code, number, suffix, flag
CENTRES = {
    ('CSR', 'RL04'): ('0024', 'UTCSR', '0060', '0004', '.gz', 'GRCOF2'),
    ('CSR', 'RL05'): ('0024', 'UTCSR', '0060', '0005', '.gz', 'GRCOF2'),
    ('CSR', 'RL06'): ('GRAC', 'UTCSR', 'BB01', '0600', '.gz', 'GRCOF2'),
    ('GFZ', 'RL05'): ('0024', 'EIGEN', 'G---', '005a', '.gz', 'GRCOF2'),
    ('GFZ', 'RL06'): ('GRAC', 'GFZOP', 'BB01', '0600', '.gz', 'GRCOF2'),
    ('JPL', 'RL05'): ('0024', 'JPLEM', '0001', '0005', '.gz', 'GRCOF2'),
    ('JPL', 'RL06'): ('GRFO', 'JPLEM', 'BA01', '0600', '.gz', 'GRCOF2'),
    ('CNES', 'RL05'): ('GRAC', 'GRGS', 'BA01', '0500', '.gfc', 'gfc'),
    ('COSTG', 'RL01'): ('GRAC', 'COSTG', 'BF01', '0100', '.gfc', 'gfc'),
    ('GRAZ', 'RL18'): None, ('Swarm', 'RL01'): None,
}
KEYS = ('clm', 'slm', 'eclm', 'eslm')


def coefficients(g):
    c, s, ec, es = P26.values(L, L)
    a = 1 + g/1000
    return [np.vectorize(lambda x: float(f'{x:19.12e}'))(c*a),
        np.vectorize(lambda x: float(f'{x:19.12e}'))(s*a),
        np.vectorize(lambda x: float(f'{x:10.4e}'))(ec*a),
        np.vectorize(lambda x: float(f'{x:10.4e}'))(es*a)]


def month_span(g):
    y, m = ym(g)
    d0 = ref.days_from_civil(y, m, 1) - ref.days_from_civil(y, 1, 1) + 1
    d1 = ref.days_from_civil(y + (m == 12), m % 12 + 1, 1) \
        - ref.days_from_civil(y, 1, 1)
    return y, d0, y, d1


def solution(root, proc, drel, dset, g, F=L):
    """write the solution of one month, returning (name, fields, time)"""
    folder = root/proc/drel/dset
    folder.mkdir(parents=True, exist_ok=True)
    f = [a[:F + 1, :F + 1] for a in coefficients(g)]
    span = month_span(g)
    y, m = ym(g)
    if proc == 'GRAZ':
        name = {'GSM': f'ITSG-Grace2018_n60_{y}-{m:02d}.gfc',
            'GAD': f'model_oceanBottomPressure_{y}-{m:02d}.gfc'}[dset]
    elif proc == 'Swarm':
        dm = span[3] - span[1] + 1
        name = (f'SW_OPER_EGF_SHA_2__{y}{m:02d}01T000000_{y}{m:02d}{dm}'
            'T235959_0101.gfc')
    else:
        p = CENTRES[proc, drel]
        p = (dset,) + p
        name = P26.name_of(p, span)
    if proc in ('GRAZ', 'Swarm'):
        p = P26.PRODUCTS['COSTG']
    head = [x.replace('max_degree  6', f'max_degree  {F}')
        for x in P26.head_lines(p)]
    P26.write(folder/name, head + P26.records(p[6], *f, 'degree'))
    if proc in ('GRAZ', 'Swarm'):
        dpy = 366 if ref.is_leap(y) else 365
        # half way between midnight and the last second of the month
        end = 1.0 if proc == 'Swarm' else 1.0
        t = y + ((span[1] + span[3] + end - 1/86400)/2)/dpy
    else:
        t = P26.dates(span)[0]
    return name, f, t


class Archive:
    def __init__(self, root, proc='CSR', drel='RL06', dset='GSM',
            months=MONTHS, order=1, F=L):
        self.root, self.args = root, (proc, drel, dset)
        self.months = list(months)
        self.f, self.t, self.name = {}, {}, {}
        for g in months:
            self.name[g], self.f[g], self.t[g] = solution(root, proc, drel,
                dset, g, F)
        names = [self.name[g] for g in sorted(months)]
        names = names[::-1] if order < 0 else names[order % 3:] + \
            names[:order % 3]
        (root/proc/drel/dset/'index.txt').write_text('\n'.join(names) + '\n')

    def run(self, lo, hi, missing, c20=None, deg1=None, lmax=L, **kw):
        return grace_input_months(self.root, *self.args, lmax, lo, hi,
            missing, c20, deg1, **kw)

    def expect(self, months, lmax=L, mmax=None):
        mmax = lmax if mmax is None else mmax
        out = {k: np.zeros((lmax + 1, mmax + 1, len(months))) for k in KEYS}
        for i, g in enumerate(months):
            for k, a in zip(KEYS, self.f[g]):
                n = min(lmax + 1, a.shape[0])
                q = min(mmax + 1, a.shape[1])
                out[k][:n, :q, i] = a[:n, :q]
        return out


# ---------------------------------------------------------------- series
def v(o, c, g):
    """number with the mark of its series, column and month"""
    return round((-1)**(c + g)*(1 + 0.0137*c + 0.000731*g + 0.11*o), 6)


def rows(mons, mid=False):
    return [(g,) + ((ym(g) + (16 if mid else 1,)),) for g in mons]


def tn(o, mons, n, flag=''):
    """lines of begin date and columns of value, anomaly, deviation"""
    out = []
    for g, d in rows(mons):
        l = f'{mjd(*d):.1f} {ref.decimal_year(*d):.8f}'
        for k in range(n):
            l += f' {fmt(v(o, 3*k, g)*1e-4)} {v(o, 3*k+1, g):.6f} ' \
                f'{abs(v(o, 3*k+2, g)):.6f}'
        out.append(l + flag + (f' {mjd(*d)+30:.1f}' if n > 1 else ''))
    return out


def tnval(o, k, g):
    return v(o, 3*k, g)*1e-4, abs(v(o, 3*k + 2, g))*1e-10


def w_c20_csr(root, drel, mons):
    """replacement oblateness of CSR"""
    if drel in ('RL04', 'RL05'):
        n = 'TN-05' if drel == 'RL04' else 'TN-07'
        name = f'{n}_C20_SLR.txt'
        (root/name).write_text('\n'.join(['PRODUCT:'] + tn(1, mons, 1)) + '\n')
        return name, {g: tnval(1, 0, g) for g in mons}
    ls = []
    for g, d in rows(mons, True):
        t = ref.decimal_year(*d)
        ls.append(f'{t:.4f} {fmt(v(1, 0, g)*1e-4)} {v(1, 1, g):.4f} '
            f'{abs(v(1, 2, g)):.4f} {v(1, 3, g):.4f} {t-.04:.4f} {t+.04:.4f}')
    (root/'C20_RL06.txt').write_text('\n'.join(['# x'] + ls) + '\n')
    return 'C20_RL06.txt', {g: (v(1, 0, g)*1e-4 - round(v(1, 3, g), 4)*1e-10,
        abs(round(v(1, 2, g), 4))*1e-10) for g in mons}


def w_gfz(root, drel, mons):
    name = f'GFZ_{drel}_C20_SLR.dat'
    (root/name).write_text('\n'.join(['PRODUCT:'] + tn(2, mons, 1, '  G*'))
        + '\n')
    return name, {g: tnval(2, 0, g) for g in mons}


def w_tn14(root, drel, mons, o=3):
    name = 'TN-14_C30_C20_GSFC_SLR.txt'
    (root/name).write_text('\n'.join(['Product:'] + [x + ' 2020.1' for x in
        tn(3, mons, 2)]) + '\n')
    return name, {g: (tnval(3, 0, g), tnval(3, 1, g)) for g in mons}


def w_gravis(root, drel, mons):
    name = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat'
    (root/name).write_text('\n'.join(['PRODUCT:'] + tn(4, mons, 4)) + '\n')
    return name, {g: [tnval(4, k, g) for k in range(4)] for g in mons}


def w_csr2(root, drel, mons, m):
    name = f'C2{m}_S2{m}_{drel}.txt'
    o = 4 + m
    ls = []
    for g, d in rows(mons, True):
        t = ref.decimal_year(*d)
        ls.append(f'{t:.4f} {fmt(v(o, 0, g)*1e-6)} {fmt(v(o, 1, g)*1e-6)} '
            f'{abs(v(o, 2, g)):.4f} {abs(v(o, 3, g)):.4f} {v(o, 4, g):.4f} '
            f'{v(o, 5, g):.4f} {t-.04:.4f} {t+.04:.4f}')
    (root/name).write_text('\n'.join(['# x'] + ls) + '\n')
    r = lambda c, g: round(v(o, c, g), 4)*1e-10
    return name, {g: ((v(o, 0, g)*1e-6 - r(4, g), abs(r(2, g))),
        (v(o, 1, g)*1e-6 - r(5, g), abs(r(3, g)))) for g in mons}


def w_monthly(root, drel, mons):
    name = 'CSR_Monthly_5x5_Gravity_Harmonics.txt'
    text, full, mu = P27.monthly(mons)
    (root/name).write_text(text)
    c, s, ec, es = P27.combine(full, mu)
    return name, {g: {l: (c[l, 0, i], ec[l, 0, i]) for l in (3, 4, 5)}
        for i, g in enumerate(mons)}


def w_lares(root, drel, mons, l):
    name = f'C{l}0_LARES_filtered.txt'
    ls = [f'{ref.decimal_year(*d):.8f} {v(5 + l, 0, g):.6f}'
        for g, d in rows(mons, True)]
    (root/name).write_text('\n'.join(['time anomaly'] + ls) + '\n')
    mean = 9.5717395773300e-07 if l == 3 else 0.0
    return name, {g: (v(5 + l, 0, g)*1e-10 + mean, 0.0) for g in mons}


WEEK = {}


def w_weekly(root, drel, mons):
    """seven day solutions over the span of the archive"""
    name = 'gsfc_slr_5x5c61s61.txt'
    t0, t1 = (ref.decimal_year(*ym(g), 1) for g in (min(MONTHS) - 1,
        max(MONTHS) + 3))
    t, f = P27.weekly(int((t1 - t0)*52.18), t0)
    (root/name).write_text(P27.weekly_text(t, f))
    WEEK['t'], WEEK['f'] = t, f
    return name, None


class Near:
    """values of the weekly series allowed around a date"""
    def __init__(self, l, m, k):
        self.a = (k, l, m)

    def allowed(self, t):
        return [x for _, x in P27.windows(WEEK['t'], WEEK['f'][self.a], t, 28,
            1.6)]


def geo(o, mons, mid=True):
    return [(g, d, [v(o, c, g) for c in range(6)]) for g, d in rows(mons,
        mid)]


def w_tellus(root, proc, drel, mons):
    folder = root/'geocenter'
    folder.mkdir(exist_ok=True)
    jpl = drel not in ('RL04', 'RL05')
    name = f'TN-13_GEOC_{proc}_{drel}.txt' if jpl else f'deg1_coef_{drel}.txt'
    ls, out, tm = [], {}, {}
    for g, d, x in geo(11, mons):
        y, m = ym(g)
        lead, end = f'{y:04d}{m:02d} 1', ''
        if jpl:
            lead, end = 'GRCOF2 1', f' {y:04d}{m:02d}05.0000 ' \
                f'{y:04d}{m:02d}25.0000'
            tm[g] = (ref.decimal_year(y, m, 5) + ref.decimal_year(y, m, 25))/2
        ls.append(f'{lead} 0 {fmt(x[0]*1e-10)} 0.0 {fmt(abs(x[1])*1e-11)} 0.0'
            + end)
        ls.append(f'{lead} 1 {fmt(x[2]*1e-10)} {fmt(x[3]*1e-10)} '
            f'{fmt(abs(x[4])*1e-11)} {fmt(abs(x[5])*1e-11)}' + end)
        out[g] = (x[0]*1e-10, x[2]*1e-10, x[3]*1e-10)
    (folder/name).write_text('\n'.join(['end of header ====' if jpl else
        "'(a6,1x,i1)'"] + ls) + '\n')
    return name, out, tm


def w_slr1(root, proc, drel, mons):
    folder = root/'geocenter'
    folder.mkdir(exist_ok=True)
    ad = root/'AOD1B'/drel/'geocenter'
    ad.mkdir(parents=True, exist_ok=True)
    ls, out, tm = [], {}, {}
    R = 6.378136e9
    for g, d, x in geo(12, mons):
        y, m = ym(g)
        a = [[v(13, c, g + i) + c for c in range(3)] for i in range(3)]
        (ad/f'AOD1B_{drel} glo_{y:04d}_{m:02d}.txt').write_text('# h\n' + ''
            .join(f'{y:04d}-{m:02d}-{i+1:02d}T00:00:00 {q[0]:.6f} {q[1]:.6f} '
            f'{q[2]:.6f}\n' for i, q in enumerate(a)))
        a = np.mean(a, axis=0)
        t = ref.decimal_year(*d)
        cols = [mjd(*d), t] + x[:3] + [v(14, c, g) for c in range(3)] + \
            [abs(q) for q in x[3:]] + [abs(v(14, c, g)) for c in (3, 4, 5)]
        ls.append(' '.join(f'{q:.9f}' for q in cols))
        # dealiasing files are in the default radius
        out[g] = tuple((x[k]/R - a[k]/P27.RAD)/3**0.5 for k in (2, 0, 1))
        tm[g] = t
    name = 'gct2est.220_5s'
    (folder/name).write_text('\n'.join(['head 1.0']*15 + ls) + '\n')
    return name, out, tm


def w_uci(root, proc, drel, mons):
    folder = root/'geocenter'
    folder.mkdir(exist_ok=True)
    name = f'{proc}_{drel}_MPIOM_SLF_iter.txt'
    yam = ['header:', '  title: geocenter', '  variables:',
        '    mid-epoch_time:', '      comment: 1st column']
    for i, c in enumerate(('C10', 'C11', 'S11')):
        yam += [f'    {c}:', f'      comment: {i+2}{("nd","rd","th")[i]} '
            'column']
    yam += ['    month:', '      comment: 5th column', '# End of YAML header']
    ls, out, tm = [], {}, {}
    for g, d, x in geo(15, mons):
        tm[g] = ref.decimal_year(*d)
        ls.append(f'{tm[g]:.8f} ' + ' '.join(fmt(q*1e-10) for q in x[:3])
            + f' {g:03d}')
        out[g] = tuple(q*1e-10 for q in x[:3])
    (folder/name).write_text('\n'.join(yam + ls) + '\n')
    return name, out, tm


def w_swenson(root, proc, drel, mons):
    folder = root/'geocenter'
    folder.mkdir(exist_ok=True)
    name = f'gad_gsm.{drel}.txt'
    ls, out, tm = [], {}, {}
    a = 0.1/(5.517*6.371e8)
    for g, d, x in geo(16, mons):
        tm[g] = ref.decimal_year(*d)
        ls.append(f'{tm[g]:.8f} {x[0]:.9f} {x[1]:.9f} {x[2]:.9f} {g}')
        out[g] = tuple(q*a for q in x[:3])
    (folder/name).write_text('\n'.join(['Time C10 C11 S11'] + ls) + '\n')
    return name, out, tm


def w_gfz1(root, proc, drel, mons):
    folder = root/'geocenter'
    folder.mkdir(exist_ok=True)
    name = 'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat'
    ls, out, tm = [], {}, {}
    for g, d, x in geo(17, mons, False):
        tm[g] = ref.decimal_year(*d)
        ls.append(f'{mjd(*d):.1f} {tm[g]:.8f}' + ''.join(
            f' {fmt(x[k]*1e-10)} {x[5]:.6f} {abs(x[3+k]):.6f}'
            for k in range(3)))
        out[g] = tuple(q*1e-10 for q in x[:3])
    (folder/name).write_text('\n'.join(['PRODUCT:'] + ls) + '\n')
    return name, out, tm


DEG1 = {'Tellus': (w_tellus, 'JPL Tellus'), 'SLR': (w_slr1, 'CSR SLR'),
    'UCI': (w_uci, 'UCI'), 'SLF': (w_uci, 'UCI'), 'Swenson': (w_swenson,
    'Swenson'), 'GFZ': (w_gfz1, 'GFZ GravIS')}


class Series:
    """every replacement file of an archive, with the values they hold"""
    def __init__(self, root, proc, drel, gone=None, mons=MONTHS):
        gone = gone or {}
        keep = lambda k: [g for g in mons if g not in gone.get(k, ())]
        self.vals, self.file, self.label, self.tm = {}, {}, {}, {}

        def put(opt, who, name, vals, label):
            self.vals[opt, who], self.file[opt, who] = vals, name
            self.label[opt, who] = label
        n, x = w_c20_csr(root, drel, keep('C20:CSR'))
        put('C20', 'CSR', n, {g: {(2, 0): (a, None)} for g, a in x.items()},
            'CSR')
        n, x = w_gfz(root, drel, keep('C20:GFZ'))
        put('C20', 'GFZ', n, {g: {(2, 0): (a, None)} for g, a in x.items()},
            'GFZ')
        n, x = w_tn14(root, drel, keep('TN-14'))
        put('C20', 'GSFC', n, {g: {(2, 0): (a[0], None)}
            for g, a in x.items()}, 'GSFC')
        put('C30', 'GSFC', n, {g: {(3, 0): (a[1], None)}
            for g, a in x.items()}, 'GSFC')
        n, x = w_gravis(root, drel, keep('GRAVIS'))
        put('C30', 'GFZ', n, {g: {(3, 0): (a[1], None)}
            for g, a in x.items()}, 'GFZ GravIS')
        put('21', 'GFZ', n, {g: {(2, 1): (a[2], a[3])}
            for g, a in x.items()}, 'GFZ GravIS')
        for m in (1, 2):
            n, x = w_csr2(root, drel, keep(f'2{m}:CSR'), m)
            put(f'2{m}', 'CSR', n, {g: {(2, m): a} for g, a in x.items()},
                'CSR')
        n, x = w_monthly(root, drel, keep('monthly'))
        for l in (3, 4, 5):
            put(f'C{l}0', 'CSR', n, {g: {(l, 0): (a[l], None)}
                for g, a in x.items()}, 'CSR')
            n2, y = w_lares(root, drel, keep(f'C{l}0:LARES'), l)
            put(f'C{l}0', 'LARES', n2, {g: {(l, 0): (a, None)}
                for g, a in y.items()}, 'CSR LARES')
        n, _ = w_weekly(root, drel, mons)
        for l in (4, 5):
            put(f'C{l}0', 'GSFC', n, {g: {(l, 0): ((Near(l, 0, 0), 0.0),
                None)} for g in mons}, 'GSFC')
        for m in (1, 2):
            put(f'2{m}', 'GSFC', n, {g: {(2, m): ((Near(2, m, 0), 0.0),
                (Near(2, m, 1), 0.0))} for g in mons}, 'GSFC')
        for who, (fn, label) in DEG1.items():
            n, x, tm = fn(root, proc, drel, keep(SHARED.get(('DEG1', who),
                f'DEG1:{who}')))
            put('DEG1', who, n, x, label)
            self.tm[who] = tm


CHOICES = {'C20': ('CSR', 'GFZ', 'GSFC'), '21': ('CSR', 'GFZ', 'GSFC'),
    '22': ('CSR', 'GSFC'), 'C30': ('CSR', 'LARES', 'GFZ', 'GSFC'),
    'C40': ('CSR', 'LARES', 'GSFC'), 'C50': ('CSR', 'LARES', 'GSFC'),
    'DEG1': tuple(DEG1)}
ORDER = ('C20', '21', '22', 'C30', 'C40', 'C50', 'DEG1')


def keywords(pick):
    """arguments of a choice of replacements"""
    kw = {'SLR_21': '', 'SLR_22': '', 'SLR_C30': '', 'SLR_C40': '',
        'SLR_C50': ''}
    for o, w in pick.items():
        if o not in ('C20', 'DEG1'):
            kw[f'SLR_{o}'] = w
    return dict(kw, c20=pick.get('C20'), deg1=pick.get('DEG1'))


def title(pick):
    return ''.join(f'_w{pick[o]}_{o}' for o in ORDER if o in pick)


def compare(rec, key, ar, se, Y, months, pick, lmax=L, mmax=None, extra=None,
        suffix='', deg1=None):
    """every coefficient of every month"""
    mm = lmax if mmax is None else mmax
    rec.eq(list(Y['month']), list(months), key + ':month')
    rec.close(Y['time'], [ar.t[g] for g in months], key + ':time', rtol=0,
        atol=2e-8)
    rec.eq(list(Y['l']), list(range(lmax + 1)), key + ':l')
    rec.eq(list(Y['m']), list(range(mm + 1)), key + ':m')
    rec.eq(Y['title'], title(pick) + suffix, key + ':title')
    rec.eq(str(Y['directory']), str(ar.root.joinpath(*ar.args)),
        key + ':directory')
    W = ar.expect(months, lmax, mmax)
    at = Y['attributes']
    rec.eq([str(x).split('.')[0] for x in at['lineage'][:len(months)]],
        [ar.name[g].split('.')[0] for g in months], key + ':lineage')
    skip = {k: np.zeros(W[k].shape, bool) for k in KEYS}
    tol = {k: (1e-11 if k[0] != 'e' else 1e-9) for k in KEYS}
    for o, who in pick.items():
        name = 'geocenter' if o == 'DEG1' else f'SLR {o}'
        rec.eq(tuple(at.get(name, ())), (se.label[o, who], se.file[o, who]),
            f'{key}:{name}')
        for i, g in enumerate(months):
            if o == 'DEG1':
                x = se.vals[o, who].get(g) if deg1 is None else deg1[g]
                W['clm'][1, 0, i] = x[0]
                W['clm'][1, 1, i], W['slm'][1, 1, i] = x[1:]
                for q in ((1, 0), (1, 1)):
                    skip['eclm'][q + (i,)] = skip['eslm'][q + (i,)] = True
                continue
            if o != 'C20' and g <= 176:
                continue
            for (l, m), pair in se.vals[o, who][g].items():
                for ab, p in zip('cs', pair):
                    if p is None:
                        continue
                    a, e = ab + 'lm', 'e' + ab + 'lm'
                    x = p[0]
                    if isinstance(x, Near):
                        ok = x.allowed(ar.t[g])
                        got = Y[a][l, m, i]
                        if extra is not None:
                            got = got - extra[a][l, m, i]
                        rec.check(any(abs(got - z) < 1e-11*abs(z)
                            for z in ok), f'{key}:{o}:{g}',
                            lambda: f'got {got} allowed {ok[:4]}')
                        skip[a][l, m, i] = True
                    else:
                        W[a][l, m, i] = x
                    W[e][l, m, i] = p[1]
                    if who == 'GFZ' and o != 'C20':
                        # deviations in either scale
                        got = Y[e][l, m, i]
                        rec.check(any(abs(got - s*p[1]) < 1e-6*p[1] for s in
                            (1.0, 0.01)), f'{key}:{o}:{g}:deviation',
                            lambda: f'got {got} want {p[1]}')
                        skip[e][l, m, i] = True
    for k in KEYS:
        a = np.array(Y[k], float)
        if rec.check(a.shape == W[k].shape, f'{key}:{k}:shape', str(a.shape)):
            if extra is not None and k in extra:
                W[k] = W[k] + extra[k]
            a[skip[k]] = W[k][skip[k]] = 0
            loose = W[k].copy()
            # precision to which the files themselves give the numbers
            t = np.full(a.shape, tol[k])
            t[1] = 1e-6
            if k[0] == 'e':
                t[2:6, :3] = 1e-6
            floor = np.full(a.shape, 1e-24)
            floor[1] = 1e-16 if 'DEG1' in pick else 1e-24
            bad = np.abs(a - loose) > t*np.abs(loose) + floor
            rec.check(not bad.any(), f'{key}:{k}', lambda: 'at (l,m,month) '
                + str([(int(p), int(q), int(months[r]), float(a[p, q, r]),
                float(loose[p, q, r])) for p, q, r in np.argwhere(bad)[:4]]))


# ------------------------------------------------------------ plain solutions
@CHECK.block('solutions', params=lambda tier: [(p, d, tier) for p, d in
    CENTRES], timeout=600)
def solutions(rec, arg):
    """months, truncations and listings without replacements"""
    proc, drel, tier = arg
    nd = 1
    sets = {'GRAZ': ('GSM', 'GAD'), 'Swarm': ('GSM',)}.get(proc, ('GSM',
        'GAA', 'GAC', 'GAD'))
    for dset in sets:
        mons = [4, 5, 8, 13, 50, 97, 98]
        for order in (1, -1, 2):
            ar = Archive(pathlib.Path(rec.mkdir()), proc, drel, dset, mons,
                order)
            for lo, hi in ((4, 98), (5, 13), (8, 8), (13, 98)):
                have = [g for g in mons if lo <= g <= hi]
                gaps = [g for g in range(lo, hi + 1) if g not in mons]
                for drop in [()] + [(g,) for g in have] + ([tuple(x) for x in
                        itertools.combinations(have, 2)] if lo == 5 else []):
                    use = [g for g in have if g not in drop]
                    for lm, mm in (((6, None), (4, None), (4, 2), (1, 1), (3,
                            0)) if order == 1 or tier == 'thorough' else
                            ((5, None),)):
                        nd += 1
                        key = f'{proc}:{drel}:{dset}:{order}:{lo}-{hi}:' \
                            f'{drop}:{lm}:{mm}'
                        rec.case(key)
                        kw = {} if mm is None else {'MMAX': mm}
                        if nd % 2:
                            kw['MMAX'] = mm
                        with rec.guard(key):
                            miss = gaps + list(drop)
                            miss = [miss, np.array(miss), miss + [300, 1]][
                                nd % 3]
                            Y = ar.run(lo, hi, miss, [None, ''][nd % 2],
                                ['', None][nd % 2], lm, **kw)
                            compare(rec, key, ar, None, Y, use, {}, lm, mm)
                            if use and nd % 5 == 0:
                                H = gt.harmonics().from_dict(Y)
                                rec.check(np.array_equal(H.clm, Y['clm'])
                                    and np.array_equal(H.month, Y['month']),
                                    key + ':object')
                # months that the archive does not hold are reported
                for g in gaps[:1] + gaps[-1:]:
                    rec.case((proc, dset, order, lo, hi, 'gap', g))
                    rec.raises(lambda: ar.run(lo, hi, [x for x in gaps if x
                        != g]), f'{proc}:{drel}:{dset}:{lo}-{hi}:gap:{g}')
    rec.case('no product')
    rec.raises(lambda: grace_input_months(ar.root, proc, drel, 'GXX', 4, 4, 5,
        [], '', ''), f'{proc}:{drel}:none', FileNotFoundError)
    rec.sample({'product': [proc, drel, dset], 'months': mons})


# ------------------------------------------------------------ replacements
def picks(k):
    for opts in itertools.combinations(ORDER, k):
        for who in itertools.product(*(CHOICES[o] for o in opts)):
            yield dict(zip(opts, who))


def products():
    """every choice, the original values included"""
    for who in itertools.product(*((None,) + CHOICES[o] for o in ORDER)):
        yield {o: w for o, w in zip(ORDER, who) if w}


COMBO = [('CSR', 'RL06'), ('CSR', 'RL05'), ('CSR', 'RL04'), ('GFZ', 'RL06'),
    ('JPL', 'RL06')]


@CHECK.block('choices', params=lambda tier: [(p, d, i, tier) for p, d in COMBO
    for i in range(4)] + ([('CSR', 'RL06', i, 'full') for i in range(64)] if
    tier == 'thorough' else []), timeout=900)
def choices(rec, arg):
    """choices of replacements"""
    proc, drel, part, tier = arg
    root = pathlib.Path(rec.mkdir())
    if tier == 'full':
        mons = [176, 179, 198]
        ar = Archive(root, proc, drel, 'GSM', mons)
        se = Series(root, proc, drel, mons=mons)
        for pick in itertools.islice(products(), part, None, 64):
            key = f'{proc}:{drel}:all:{title(pick)}'
            rec.case(key)
            with rec.guard(key):
                Y = ar.run(176, 198, [g for g in range(176, 199) if g not in
                    mons], **keywords(pick))
                compare(rec, key, ar, se, Y, mons, pick)
        return
    ar = Archive(root, proc, drel, 'GSM')
    se = Series(root, proc, drel)
    top = 2 if (proc, drel) == ('CSR', 'RL06') else 1
    top += tier == 'thorough'
    everything = [p for k in range(top + 1) for p in picks(k)]
    gaps = [g for g in range(172, 200) if g not in MONTHS]
    for pick in everything[part::4]:
        for lm, mm in ((6, None), (5, 2)):
            key = f'{proc}:{drel}:{lm}:{mm}:{title(pick)}'
            rec.case(key)
            kw = keywords(pick)
            if mm is not None:
                kw['MMAX'] = mm
            with rec.guard(key):
                Y = ar.run(172, 199, gaps, lmax=lm, **kw)
                compare(rec, key, ar, se, Y, MONTHS, pick, lm, mm)
    rec.sample({'choice': pick, 'months': MONTHS})


@CHECK.block('windows', params=lambda tier: [(o, tier) for o in ORDER],
    timeout=600)
def spans(rec, arg):
    """replacements over every set of months of the archive"""
    o, tier = arg
    root = pathlib.Path(rec.mkdir())
    ar = Archive(root)
    se = Series(root, 'CSR', 'RL06')
    for who in CHOICES[o]:
        pick = {o: who}
        for n in range(1, 9 if tier == 'thorough' else 3):
            for use in itertools.combinations(MONTHS, n):
                key = f'{title(pick)}:{use}'
                rec.case(key)
                lo, hi = use[0], use[-1]
                with rec.guard(key):
                    Y = ar.run(lo, hi, [g for g in range(lo, hi + 1) if g not
                        in use], **keywords(pick))
                    compare(rec, key, ar, se, Y, list(use), pick)
    rec.sample({'choice': pick, 'months': list(use)})


def orders(mons, tier):
    """other orders of the records of a series"""
    n = len(mons)
    yield 'reversed', mons[::-1]
    for k in range(1, n) if tier == 'thorough' else (1, n//2, n - 1):
        yield f'from {k}', mons[k:] + mons[:k]
    for k in range(n - 1) if tier == 'thorough' else (0, n//2, n - 2):
        yield f'swap {k}', mons[:k] + [mons[k + 1], mons[k]] + mons[k + 2:]


@CHECK.block('records', params=lambda tier: [(o, tier) for o in ORDER],
    timeout=600)
def records(rec, arg):
    """series whose records are not in order of their dates"""
    o, tier = arg
    mons = list(MONTHS)
    gaps = [g for g in range(mons[0], mons[-1] + 1) if g not in mons]
    for name, seq in orders(mons, tier):
        root = pathlib.Path(rec.mkdir())
        ar = Archive(root)
        se = Series(root, 'CSR', 'RL06', mons=seq)
        for who in CHOICES[o]:
            pick = {o: who}
            for use in [mons] + [[g] for g in mons]:
                key = f'{title(pick)}:{name}:{use}'
                rec.case(key)
                lo, hi = use[0], use[-1]
                with rec.guard(key):
                    Y = ar.run(lo, hi, [g for g in range(lo, hi + 1) if g not
                        in use], **keywords(pick))
                    compare(rec, key, ar, se, Y, list(use), pick)
    rec.sample({'choice': pick, 'order': name, 'records': list(seq)})


SHARED = {('C20', 'GSFC'): 'TN-14', ('C30', 'GSFC'): 'TN-14',
    ('DEG1', 'SLF'): 'UCI', ('DEG1', 'UCI'): 'UCI',
    ('C30', 'GFZ'): 'GRAVIS', ('21', 'GFZ'): 'GRAVIS', ('C30', 'CSR'):
    'monthly', ('C40', 'CSR'): 'monthly', ('C50', 'CSR'): 'monthly'}


@CHECK.block('unavailable', params=lambda tier: [(o, w, tier) for o in ORDER
    for w in CHOICES[o] if not (w == 'GSFC' and o in ('21', '22', 'C40',
    'C50'))], timeout=600)
def unavailable(rec, arg):
    """months that the series does not hold are reported"""
    o, who, tier = arg
    mons = [175, 176, 179, 180, 198]
    name = SHARED.get((o, who), f'{o}:{who}')
    pick = {o: who}
    gaps = [g for g in range(175, 199) if g not in mons]
    for k in range(0, 5):
        for gone in itertools.combinations(mons, k):
            root = pathlib.Path(rec.mkdir())
            ar = Archive(root, 'CSR', 'RL06', 'GSM', mons)
            others = [g + 2 for g in mons if g != 198] + [150, 212]
            se = Series(root, 'CSR', 'RL06', {name: gone}, sorted(mons
                + others))
            needed = [g for g in gone if g > 176 or o in ('C20', 'DEG1')]
            for drop in [()] + [(g,) for g in gone]:
                key = f'{title(pick)}:{gone}:{drop}'
                rec.case(key)
                use = [g for g in mons if g not in drop]
                need = [g for g in needed if g not in drop]
                run = lambda: ar.run(175, 198, gaps + list(drop),
                    **keywords(pick))
                if need:
                    try:
                        run()
                    except IOError as e:
                        rec.check(all(f'{g:03d}' in str(e) for g in need) and
                            not any(f'{g:03d}' in str(e) for g in use
                            if g not in need), key + ':reported', str(e))
                    except Exception as e:
                        rec.fail(key, repr(e))
                    else:
                        rec.fail(key, 'nothing reported')
                else:
                    with rec.guard(key):
                        compare(rec, key, ar, se, run(), use, pick)
    rec.sample({'series': [o, who], 'unavailable': list(gone)})


def fitted(t, x, at):
    """annual, semiannual and quadratic terms fitted to a series"""
    def design(q):
        q = np.asarray(q)
        u = q - 2018.0
        return np.stack([u**0, u, u**2] + [f(2*np.pi*q/c) for c in (0.5, 1.0)
            for f in (np.sin, np.cos)], axis=1)
    return design(at) @ np.linalg.lstsq(design(t), x, rcond=None)[0]


@CHECK.block('modelled', params=lambda tier: [(w, tier) for w in DEG1],
    timeout=600)
def modelled(rec, arg):
    """months without geocenter from a fit to the rest of the series"""
    who, tier = arg
    mons = [180, 181, 186, 198, 199]
    span = list(range(160, 215))
    for k in range(0, 3 if tier == 'quick' else 6):
        for gone in itertools.combinations(mons, k):
            root = pathlib.Path(rec.mkdir())
            ar = Archive(root, 'CSR', 'RL06', 'GSM', mons)
            folder = root/'geocenter'
            have = [g for g in span if g not in gone]
            name, x, tm = DEG1[who][0](root, 'CSR', 'RL06', have)
            se = Series.__new__(Series)
            se.file = {('DEG1', who): name}
            se.label = {('DEG1', who): DEG1[who][1]}
            se.vals = {('DEG1', who): x}
            t = [tm[g] for g in have]
            fit = [fitted(t, np.array([x[g][c] for g in have]),
                [ar.t[g] for g in mons]) for c in range(3)]
            deg1 = {g: x.get(g, tuple(f[i] for f in fit))
                for i, g in enumerate(mons)}
            other = folder/'other.txt'
            for how in ('default', 'path', 'str'):
                if how != 'default':
                    if who == 'SLR':
                        continue
                    (folder/name).replace(other)
                    other.replace(folder/('alt_' + name))
                    se.file = {('DEG1', who): 'alt_' + name}
                for fit_missing in ((True,) if gone else (True, False)):
                    key = f'{who}:{gone}:{how}:{fit_missing}'
                    rec.case(key)
                    kw = {'MODEL_DEG1': fit_missing}
                    if how != 'default':
                        kw['DEG1_FILE'] = folder/('alt_' + name)
                        if how == 'str':
                            kw['DEG1_FILE'] = str(kw['DEG1_FILE'])
                    with rec.guard(key):
                        Y = ar.run(180, 199, [g for g in range(180, 200) if g
                            not in mons], None, who, **kw)
                        compare(rec, key, ar, se, Y, mons, {'DEG1': who},
                            deg1=deg1)
                if how != 'default':
                    (folder/('alt_' + name)).replace(folder/name)
    rec.sample({'series': who, 'modelled months': list(gone)})


# --------------------------------------------------------- other corrections
ATM = {'GAE': 'TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz',
    'GAF': 'TN-09_GAF-2_2010032-2015131_0000_EIGEN_G---_0005.gz',
    'GAG': 'TN-10_GAG-2_2015132-2099001_0000_EIGEN_G---_0005.gz'}


def atmosphere(root):
    out = {}
    for k, (key, name) in enumerate(ATM.items()):
        l, m = np.mgrid[:8, :8]
        c = np.round(np.where(m <= l, (1 + k)*(1 + l + 10*m), 0))*1e-11
        s = np.round(np.where((m <= l) & (m > 0), -(1 + k)*(3 + l + 7*m), 0)
            )*1e-12
        ls = ['FIRST', 'CMMNT GRCOF2 text'] + [f'GRCOF2 {a} {b} '
            f'{c[a, b]:.12e} {s[a, b]:.12e} 0.0 0.0 20060201.0 20100131.0 nn'
            for a in range(8) for b in range(a + 1)]
        with gzip.open(root/name, 'wb') as f:
            f.write(('\n'.join(ls) + '\n').encode())
        out[key] = c, s
    return out


@CHECK.block('jumps', params=lambda tier: [(p, d, s) for p, d in (('CSR',
    'RL05'), ('GFZ', 'RL05')) for s in ('GSM', 'GAA', 'GAC', 'GAB', 'GAD')])
def jumps(rec, arg):
    """steps of the atmosphere removed from solutions, added to models"""
    proc, drel, dset = arg
    root = pathlib.Path(rec.mkdir())
    mons = [20, 49, 50, 51, 96, 97, 98, 99, 159, 162, 163, 176, 180]
    ar = Archive(root, proc, drel, dset, mons)
    steps = atmosphere(root)
    sign = {'GSM': -1, 'GAA': 1, 'GAC': 1}.get(dset, 0)
    gaps = [g for g in range(20, 181) if g not in mons]
    se = Series(root, proc, drel, mons=mons)
    for drop in [()] + [(g,) for g in mons]:
        for (lm, mm), pt, pick in itertools.product(((6, None), (4, None), (4,
                2), (2, 1), (5, 0)), (False, True), ({}, {'C20': 'GSFC'},
                {'C20': 'CSR', 'DEG1': 'Swenson'})):
            if pt and (mm == 0) or (pick and mm == 0):
                continue
            use = [g for g in mons if g not in drop]
            key = f'{proc}:{dset}:{drop}:{lm}:{mm}:{pt}:{title(pick)}'
            rec.case(key)
            M = lm if mm is None else mm
            ex = {k: np.zeros((lm + 1, M + 1, len(use))) for k in ('clm',
                'slm')}
            for i, g in enumerate(use):
                if g >= 50 and sign:
                    c, s = steps['GAE' if g <= 97 else 'GAF' if g <= 161
                        else 'GAG']
                    ex['clm'][:, :, i] += sign*c[:lm + 1, :M + 1]
                    ex['slm'][:, :, i] += sign*s[:lm + 1, :M + 1]
                if pt and dset == 'GSM':
                    x, y = P26.pole_tide(P26_NAME[proc], ar.t[g])
                    ex['clm'][2, 1, i] -= x
                    ex['slm'][2, 1, i] -= y
            kw = keywords(pick)
            if mm is not None:
                kw['MMAX'] = mm
            with rec.guard(key):
                Y = ar.run(20, 180, gaps + list(drop), lmax=lm, ATM=True,
                    POLE_TIDE=pt, **kw)
                compare(rec, key, ar, se, Y, use, pick, lm, mm, ex, '_wATM'
                    + '_wPT'*pt)
                rec.eq(sorted(Y['attributes']['lineage'][len(use):]),
                    sorted(ATM.values()), key + ':files')
    rec.sample({'product': arg, 'months': mons})


P26_NAME = {'CSR': 'UTCSR', 'GFZ': 'EIGEN', 'JPL': 'JPLEM'}


@CHECK.block('poles', params=lambda tier: [('CSR', 'RL06'), ('CSR', 'RL05'),
    ('GFZ', 'RL05'), ('GFZ', 'RL06'), ('JPL', 'RL06'), ('JPL', 'RL05')])
def poles(rec, arg):
    """pole tide drift removed before replacement"""
    proc, drel = arg
    root = pathlib.Path(rec.mkdir())
    ar = Archive(root, proc, drel)
    se = Series(root, proc, drel)
    gaps = [g for g in range(172, 200) if g not in MONTHS]
    name = {('CSR'): 'UTCSR', 'JPL': 'JPLEM', 'GFZ': 'GFZOP'}[proc]
    for pt, pick in itertools.product((False, True), ({}, {'21': 'CSR'}, {'21':
            'GFZ'}, {'22': 'CSR'}, {'C20': 'GSFC', '21': 'GSFC'})):
        key = f'{proc}:{drel}:{pt}:{title(pick)}'
        rec.case(key)
        ex = {k: np.zeros((L + 1, L + 1, len(MONTHS))) for k in ('clm',
            'slm')}
        for i, g in enumerate(MONTHS):
            if pt and not ('21' in pick and g > 176):
                x, y = P26.pole_tide(name, ar.t[g])
                ex['clm'][2, 1, i], ex['slm'][2, 1, i] = -x, -y
        with rec.guard(key):
            Y = ar.run(172, 199, gaps, POLE_TIDE=pt, **keywords(pick))
            compare(rec, key, ar, se, Y, MONTHS, pick, extra=ex,
                suffix='_wPT'*pt)
    rec.sample({'product': arg})
