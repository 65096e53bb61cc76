"""P48: the series programs report and draw every month of the series"""
import itertools
import os
import pathlib
import re
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import matplotlib.pyplot as plt
import netCDF4
import numpy as np
import scipy.stats
import mc
import prog
from checks.P27 import RAD
from checks.P42 import ALIAS, LABEL, date, qr
import gravity_toolkit as gt

CHECK = mc.Check('P48', level='bounded_exhaustive',
    rule='distinct (program, months available, months asked, options) runs; '
    'every number of a summary and every vertex of a drawn curve is compared '
    'with the series of the input files',
    assumptions=['drawings are taken from the figure when it is saved (the '
        'renderer of the plotting library is not judged)',
        'drawn series hold the last month before and the first month after '
        'the gap between the missions', 'fitted periods are resolved by the '
        'span of the series'])

GAP = tuple(range(187, 198))


# ------------------------------------------------------------- recorded plots
class Recorder:
    """figures as they were when saved or shown"""
    def __enter__(self):
        self.figures = []
        self.old = (matplotlib.figure.Figure.savefig, plt.show)
        rec = self

        def savefig(fig, fname, *args, **kw):
            rec.figures.append((pathlib.Path(fname), kw, look(fig)))
            pathlib.Path(fname).write_bytes(b'figure')

        def show(*args, **kw):
            for n in plt.get_fignums():
                rec.figures.append((None, kw, look(plt.figure(n))))
        matplotlib.figure.Figure.savefig = savefig
        plt.show = show
        return self

    def __exit__(self, *exc):
        matplotlib.figure.Figure.savefig, plt.show = self.old
        plt.close('all')


def look(fig):
    out = []
    for ax in fig.axes:
        lines = [(np.array(l.get_xdata(), float), np.array(l.get_ydata(),
            float), l.get_label(), l.get_color(), l.get_marker(),
            l.get_zorder()) for l in ax.get_lines()]
        spans = []
        for p in ax.patches:
            b = p.get_extents().transformed(ax.transData.inverted())
            spans.append((b.x0, b.x1))
        leg = ax.get_legend()
        notes = []
        for a in ax.artists:
            if hasattr(a, 'txt'):
                notes.append(a.txt.get_text())
        out.append(dict(lines=lines, spans=spans, title=ax.get_title(),
            xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
            xlim=ax.get_xlim(), notes=notes, legend=[t.get_text() for t in
            leg.get_texts()] if leg else None, bands=[np.vstack([p.vertices
            for p in c.get_paths()]) for c in ax.collections]))
    return out


def curves(axes):
    """curves of the axes without the marks of single dates"""
    return [l for l in axes['lines'] if len(l[0]) != 2 or l[0][0] != l[0][1]]


def same_curve(rec, key, line, t, y, tol):
    rec.check(line[0].shape == t.shape and line[1].shape == y.shape,
        key + ':length', f'{line[0].shape} {t.shape}')
    if line[0].shape != t.shape or line[1].shape != y.shape:
        return
    ok = np.isnan(t) | np.isnan(y)
    rec.check(np.array_equal(np.isnan(line[0]) | np.isnan(line[1]), ok),
        key + ':breaks', lambda: f'{line[1]} {y}')
    d = ~ok & ~np.isnan(line[0]) & ~np.isnan(line[1])
    rec.close(line[0][d], t[d], key + ':dates', rtol=0, atol=1e-8)
    rec.close(line[1][d], y[d], key + ':values', rtol=0, atol=tol)


# ------------------------------------------------------------------ summaries
def mass(months, noise=True):
    t = np.array([date(g) for g in months])
    k = np.arange(len(t))
    z = 3 - 24*(t - 2012) + 0.6*(t - 2012)**2 + 11*np.sin(2*np.pi*t + 1) + \
        4*np.cos(4*np.pi*t) + 6*np.cos(2*np.pi*t*365.25/161)*np.where(t < 2018,
        1, -1.5)
    if noise:
        z = z + 5*np.sin(7.1*k**2)
    return t, np.round(z, 4)


def table(path, months, t, z, header=0, err=None):
    with open(path, 'w') as f:
        f.write('header line\n'*header)
        for i, (g, a, b) in enumerate(zip(months, t, z)):
            f.write(f'{g:03d} {a:12.6f} {b:16.8f}' + (
                f' {err[i]:16.8f} 1.0' if err is not None else '') + '\n')


def fit(order, brk, cycles, months, t, z):
    """expected rows, amplitudes and statistics"""
    al = [(k, c) for c in cycles for k, p in ALIAS.items() if np.isclose(c, p/
        365.25)]
    n = len(t)
    if brk is None:
        cols = [(t - t.mean())**k for k in range(order + 1)]
        rows = [f'x{k}' for k in range(order + 1)]
        units = [f' yr^{-k}' if k else '' for k in range(order + 1)]
    else:
        tb = t[list(months).index(brk)]
        cols = [np.ones(n), t, np.maximum(t - tb, 0)]
        rows, units = ['x0', 'px1', 'px1'], ['', ' yr^-1', ' yr^-1']
    pairs = {}
    for c in cycles:
        if any(np.isclose(c, p/365.25) for p in ALIAS.values()):
            continue
        flag, lab = LABEL.get(c, (f'{c}', None))
        pairs[flag if c in LABEL else None, c] = len(rows)
        rows += [lab + 'S', lab + 'C'] if lab else [None, None]
        units += ['', '']
        cols += [np.sin(2*np.pi*t/c), np.cos(2*np.pi*t/c)]
    for k, c in al:
        for flag, era in (('GRC', t < 2018), ('GFO', t >= 2018)):
            pairs[k + flag, c] = len(rows)
            rows += [f'{k}S{flag}', f'{k}C{flag}']
            units += ['', '']
            w = 2*np.pi*t*365.25/ALIAS[k]
            cols += [np.where(era, np.sin(w), 0), np.where(era, np.cos(w), 0)]
    X = np.column_stack(cols)
    beta, cov, _ = qr(X, z[:, None])
    beta = beta[:, 0]
    cond = np.linalg.cond(X/np.sqrt((X**2).sum(axis=0)))
    k = X.shape[1]
    r = z - X @ beta
    sse, nu = r @ r, n - k
    sst = ((z - z.mean())**2).sum()
    std = np.sqrt(np.diag(cov)*sse/nu)
    if brk is not None:
        beta[2] += beta[1]
        std[2] = np.hypot(std[1], std[2])
    q = scipy.stats.t.ppf(0.975, nu)
    K = k + 1.0
    ll = -0.5*n*(np.log(2*np.pi) + 1 - np.log(n) + np.log(sse))
    small = 2*K*(K + 1)/(n - K - 1)
    stat = dict(DOF=nu, AIC=-2*ll + 2*K, BIC=-2*ll + K*np.log(n), LOGLIK=ll,
        MSE=sse/nu, NRMSE=np.sqrt(sse/nu)/np.ptp(z), R2=1 - sse/sst,
        R2Adj=1 - (sse/nu)/(sst/(n - 1)))
    waves = []
    for (flag, c), i in pairs.items():
        a, b = beta[i], beta[i + 1]
        amp = np.hypot(a, b)
        row = [flag, amp, np.degrees(np.arctan2(b, a)) % 360]
        for e in (std, q*std):
            ea, eb = e[i], e[i + 1]
            row += [np.hypot(ea*a, eb*b)/amp, np.degrees(np.hypot(ea*b, eb*
                a)/amp**2)]
        waves.append(row)
    return rows, units, beta, std, q*std, waves, stat, small, cond


def parse(text):
    """sections of a summary: formula, [(label, numbers, units)], statistics"""
    sections = {}
    current = None
    for line in text.splitlines():
        w = [x.strip() for x in line.split('\t')]
        if w[0] in ('Coef.', 'Ampl.', 'Phase') and len(w) > 2:
            current = sections.setdefault(w[0], [])
            assert [x for x in w[1:]] == ['Estimate', 'Std. Error',
                '95% Conf.', 'Units'], w
        elif w[0] == 'Fit Criterion':
            current = None
            sections['fit'] = {}
        elif len(w) == 5 and current is not None:
            current.append((w[0], [float(x) for x in w[1:4]], w[4]))
        elif ':' in line:
            a, _, b = line.partition(':')
            if 'fit' in sections:
                sections['fit'][a.strip()] = float(b)
            else:
                sections[a.strip()] = b.strip()
    return sections


def summary_cases(tier):
    S2 = 161.0/365.25
    spans = {'short': [g for g in range(4, 61) if g not in (6, 7, 18)],
        'long': [g for g in range(150, 240) if g not in GAP + (153, 162, 200,
        201)]}
    cyc = [(0.5, 1.0, S2), (0.5, 1.0), (1.0, 0.5), (1.0,), (0.5,), (S2, 0.5,
        1.0), (1.0, S2), (S2, 1.0), (0.5, S2, 1.0), (S2,), (0.3, 1.0), (1.0,
        3.7), (0.3,), (0.3, S2, 1.0)] + [(p/365.25, 1.0) for k, p in
        ALIAS.items() if k not in ('K1', 'K2', 'S2')] + [(ALIAS['P1']/365.25,
        1.0, S2), (S2, ALIAS['S1']/365.25)]
    for c, (order, brk), header, stream in itertools.product(cyc, ((0, None), (
            1, None), (2, None), (3, None), (None, 0), (None, 1)), (0, 3), (
            False, True)):
        alias = any(np.isclose(x, p/365.25) for x in c for p in
            ALIAS.values())
        if alias or tier == 'thorough' or header == 0:
            m = spans['long' if alias else 'short']
            yield (m, c, order, brk if brk is None else m[len(m)//3 if brk else
                len(m)//2], header, stream)
    for k in ('K1', 'K2'):      # periods of years
        yield ([g for g in range(4, 420) if g not in GAP], (0.5, 1.0,
            ALIAS[k]/365.25), 1, None, 0, False)


@CHECK.block('summary', params=lambda t: [(t, i) for i in range(8)])
def summary(rec, arg):
    """regression summaries of mass series"""
    tier, part = arg
    tmp = pathlib.Path(rec.mkdir())
    for n, (months, cyc, order, brk, header, stream) in enumerate(
            itertools.islice(summary_cases(tier), part, None, 8)):
        key = f'{cyc}:{order}:{brk}:{header}:{stream}'
        rec.case(key)
        t, z = mass(months)
        d = tmp/f'd{n}'
        d.mkdir()
        names = ['a.basin.txt', 'b.txt']
        table(d/names[0], months, t, z, header)
        table(d/names[1], months, t, -2*z, header, np.ones(len(t)))
        before = {f: (d/f).read_bytes() for f in names}
        argv = [d/f for f in names] + ['--cycles', *cyc, '-H', header]
        argv += ['--order', order] if brk is None else ['--breakpoint', brk]
        if n % 2:
            argv += ['-U', 'cmwe']
        if stream:
            argv += ['-S']
        with rec.guard(key):
            log = prog.run('quick_mascon_regress', *argv)
            rec.check(not log, key + ':log', log)
            tag = f'x{order}' if brk is None else f'px1_{brk:d}'
            paths = [d/f'{f[:-4]}_{tag}_SUMMARY.txt' for f in names]
            if stream:
                rec.eq(sorted(p.name for p in d.iterdir()), names,
                    key + ':files')
                texts = ['Input File' + x for x in
                    prog.OUTPUT[0].split('Input File')[1:]]
            else:
                rec.eq(sorted(p.name for p in d.iterdir()), sorted(names + [
                    p.name for p in paths]), key + ':files')
                texts = [p.read_text() for p in paths]
            rec.eq({f: (d/f).read_bytes() for f in names} == before, True,
                key + ':inputs')
            rec.eq(len(texts), 2, key + ':summaries')
            for k, (text, y) in enumerate(zip(texts, (z, -2*z))):
                one(rec, f'{key}:{k}', parse(text), names[k], fit(order, brk,
                    cyc, months, t, np.round(y, 8)), 'cmwe' if n % 2 else 'Gt')
    rec.sample({'cycles': cyc, 'order': order, 'breakpoint': brk})


def one(rec, key, got, name, want, unit):
    rows, units, beta, std, err, waves, stat, small, cond = want
    rec.eq(got['Input File'], name, key + ':name')
    tol = dict(rtol=1e-7, atol=5.1e-5 + 1e-13*cond**2)
    lab = [r[0] for r in got['Coef.']]
    rec.check(len(lab) == len(rows) and all(b is None or a == b for a, b in
        zip(lab, rows)), key + ':labels', f'{lab} {rows}')
    form = got['Regression Formula'].split('+')
    rec.eq(form, lab, key + ':formula')
    rec.eq([r[2] for r in got['Coef.']], [unit + u for u in units],
        key + ':units')
    rec.close([r[1] for r in got['Coef.']], np.transpose([beta, std, err]),
        key + ':coefficients', **tol)
    rec.eq(len(got['Ampl.']), len(waves), key + ':amplitudes')
    for a, p, w in zip(got['Ampl.'], got['Phase'], waves):
        flag, amp, ph, sa, sp, ea, ep = w
        rec.check(a[0] == p[0] and flag in (None, a[0]), key + ':wave',
            f'{a} {p} {w}')
        rec.eq((a[2], p[2]), (unit, 'Degree'), key + ':wave units')
        rec.close(a[1], [amp, sa, ea], key + f':{flag}:amplitude', **tol)
        rec.close(p[1][1:], [sp, ep], key + f':{flag}:phase errors', **tol)
        rec.check(abs((p[1][0] - ph + 180) % 360 - 180) < 1e-4,
            key + f':{flag}:phase', f'{p[1][0]} {ph}')
    f = dict(got['fit'])
    # with or without the correction for small samples
    aic = f.pop('AIC', np.nan)
    rec.check(abs(aic - stat['AIC']) < 1e-5 or abs(aic - stat['AIC'] - small) <
        1e-5, key + ':AIC', f"{aic} {stat['AIC']} {small}")
    w = {k: v for k, v in stat.items() if k != 'AIC'}
    rec.eq(sorted(f), sorted(w), key + ':criteria')
    rec.close([f[k] for k in sorted(w) if k in f], [w[k] for k in sorted(w) if
        k in f], key + ':fit', rtol=1e-8, atol=1e-6)


# ---------------------------------------------------------------- mass series
def available(i):
    """months of a series that spans the gap"""
    gone = ((), (6, 7, 18, 200, 201), (170, 171, 203, 210), tuple(range(150,
        180)))[i % 4]
    lo = (150, 4, 176, 140)[i % 4]
    return [g for g in range(lo, 232 if i < 4 else 215) if g not in GAP + gone]


def plot_cases(tier):
    for m, error, every, indiv, nfile, out in itertools.product(range(8 if
            tier == 'thorough' else 3), (False, True), (False, True), (False,
            True), (1, 2, 3), ('pdf', 'png', None)):
        if tier == 'quick' and nfile == 3 and out == 'png':
            continue
        yield dict(m=m, error=error, every=every, indiv=indiv, nfile=nfile,
            out=out)


def broken(months, t, y):
    """dates and values with empty entries in the gap between the missions"""
    both = sorted(set(months) | {g for g in GAP if months[0] <= g <=
        months[-1]})
    a, b = np.full((2, len(both)), np.nan)
    for g, x, v in zip(months, t, y):
        a[both.index(g)], b[both.index(g)] = x, v
    return a, b


@CHECK.block('plots', params=lambda t: [(t, i) for i in range(6)])
def plots(rec, arg):
    """curves of mass series"""
    tier, part = arg
    tmp = pathlib.Path(rec.mkdir())
    for n, c in enumerate(itertools.islice(plot_cases(tier), part, None, 6)):
        key = ':'.join(f'{v}' for v in c.values())
        rec.case(key)
        d = tmp/f'd{n}'
        d.mkdir()
        argv, data = [], []
        header = n % 3
        for k in range(c['nfile']):
            months = available(c['m'] + k)
            t, z = mass(months)
            z = np.round(z*(1 - 2*k) + 5*k, 8)
            e = np.round(1 + np.abs(np.sin(np.arange(len(t)))), 8)
            table(d/f'f{k}.txt', months, t, z, header, e)
            data.append((months, t, z, e))
            argv.append(d/f'f{k}.txt')
        argv += ['-H', header, '-m', 'os'[n % 2], '-t', 'Mass_of_ice', '-T',
            'Date', '-U', 'Mass']
        labels = [f'series {k}' for k in range(c['nfile'])]
        if n % 4 < 2:
            argv += ['-L', *labels]
            argv += ['-z', *range(11, 11 + c['nfile'])]
        for flag, opt in (('error', '-E'), ('every', '-A'), ('indiv', '-I')):
            if c[flag]:
                argv.append(opt)
        base = d/f'figure.{c["out"]}'
        if c['out']:
            argv += ['-O', base, '-f', c['out'], '-d', 90]
        before = {p.name for p in d.iterdir()}
        # programs may write relative to the working directory
        cwd = os.getcwd()
        with rec.guard(key), Recorder() as R:
            os.chdir(rec.mkdir())
            try:
                log = prog.run('quick_mascon_plot', *argv)
                stray = os.listdir('.')
            finally:
                os.chdir(cwd)
            rec.check(not log, key + ':log', log)
            rec.eq(stray, [], key + ':stray files')
            lines = prog.OUTPUT[0].splitlines()
            many = c['indiv'] and c['nfile'] > 1
            figs = c['nfile'] if c['indiv'] else 1
            rec.eq(len(R.figures), figs, key + ':figures')
            made = sorted({p.name for p in d.iterdir()} - before)
            if c['out']:
                rec.eq(made, [f'figure_{k+1}.{c["out"]}' for k in range(figs)]
                    if many else [base.name], key + ':files')
            else:
                rec.eq(made, [], key + ':files')
            for path, kw, axes in R.figures:
                if path is not None:
                    rec.eq((kw.get('format'), kw.get('dpi')), (c['out'], 90),
                        key + ':format')
                rec.eq(len(axes), 1, key + ':axes')
            for k, (months, t, z, e) in enumerate(data):
                kk = f'{key}:{k}'
                ax = R.figures[k if c['indiv'] else 0][2][0]
                cur = curves(ax)
                rec.eq(len(cur), 1 if c['indiv'] else c['nfile'],
                    kk + ':curves')
                l = cur[0 if c['indiv'] else k]
                y = z - z[0]
                if c['every']:
                    x, v = t, y
                else:
                    x, v = broken(months, t, y)
                same_curve(rec, kk, l, x, v, 1e-8)
                rec.eq(l[4], 'os'[n % 2], kk + ':marker')
                if n % 4 < 2:
                    rec.eq((l[2], l[5]), (labels[k], 11 + k), kk + ':label')
                rec.eq((ax['title'], ax['xlabel'], ax['ylabel']), (
                    'Mass of ice', 'Date', 'Mass'), kk + ':text')
                if c['error']:
                    band = ax['bands'][0 if c['indiv'] else k]
                    rec.check(set(np.round(np.concatenate([y - e, y + e]), 5))
                        <= set(np.round(band[:, 1], 5)), kk + ':band')
                    rec.close([band[:, 1].min(), band[:, 1].max()], [(y -
                        e).min(), (y + e).max()], kk + ':range', rtol=0,
                        atol=1e-6)
                else:
                    rec.eq(len(ax['bands']), 0, kk + ':bands')
                # the gap between the missions is shaded
                first = data[k if c['indiv'] else 0]
                a = first[1][first[0].index(186)]
                b = first[1][first[0].index(198)]
                if c['every']:
                    rec.eq(ax['spans'], [], kk + ':gap')
                else:
                    rec.close(ax['spans'], [(a, b)], kk + ':gap', rtol=0,
                        atol=1e-6)
                # rates and acceleration
                rows = lines[4*k:4*k + 4]
                rec.eq(rows[0], f'f{k}.txt', kk + ':name')
                got = [[float(x) for x in re.findall(r'(?<![a-z])-?\d+\.\d+|'
                    r'-?nan', r)] for r in rows[1:]]
                S2 = ALIAS['S2']/365.25
                f1 = fit(1, None, (0.5, 1.0, S2), months, t, z)
                f2 = fit(2, None, (0.5, 1.0, S2), months, t, z)
                want = [f1[2][1], f1[4][1], 2*f2[2][2], 2*f2[4][2],
                    f2[6]['AIC'] + f2[7] - f1[6]['AIC'] - f1[7]]
                rec.close(sum(got, []), want, kk + ':rates', rtol=1e-7,
                    atol=5.2e-5)
            if n % 4 < 2:
                rec.eq(R.figures[-1][2][0]['legend'], labels if not c['indiv']
                    else labels[-1:], key + ':legend')
    rec.sample({'options': c})


# ----------------------------------------------------------- geocenter series
def degree1(months, k):
    """dates and (C10, C11, S11) of a series"""
    t = np.array([date(g) for g in months])
    g = np.array(months)
    f = [np.array([float(f'{x:.9e}') for x in 3e-10*np.sin(2*np.pi*t + j + k) +
        1e-10*np.cos(1.7*g*(k + 1) + j) + 1e-11*(g - 100)/(j + 1)]) for j in
        range(3)]
    return t, f


def uci(path, months, k):
    t, f = degree1(months, k)
    head = ['header:', '  title: geocenter', '  variables:',
        '    mid-epoch_time:', '      comment: 1st column']
    for i, c in enumerate(('C10', 'C11', 'S11')):
        head += [f'    {c}:', f'      comment: {i+2}th column',
            '      units: fully-normalized']
    head += ['    month:', '      comment: 5th column',
        '# End of YAML header']
    path.write_text('\n'.join(head + [f'{a:12.6f} {x:.9e} {y:.9e} {z:.9e} '
        f'{m:03d}' for a, x, y, z, m in zip(t, *f, months)]) + '\n')
    return t, f


def tn13(path, months, k):
    t, f = degree1(months, k)
    rows = ['title', 'end of header =====']
    tt = []
    for g, x, y, z in zip(months, *f):
        yr, m = 2002 + (g - 1)//12, (g - 1) % 12 + 1
        a = f'{yr:04d}{m:02d}03.0000 {yr:04d}{m:02d}27.0000'
        rows.append(f'GRCOF2 1 0 {x:.9e} {0:.4f} 1e-11 0.0 {a}')
        rows.append(f'GRCOF2 1 1 {y:.9e} {z:.9e} 1e-11 1e-11 {a}')
        p, q = (gt.time.convert_calendar_decimal(yr, m, day=dd)[0] for dd in
            (3, 27))
        tt.append((p + q)/2)
    path.write_text('\n'.join(rows) + '\n')
    return np.array(tt), f


def anomaly(months, t, f, lo, asked, base=True):
    """curves (x, y, z) over the months asked"""
    out = []
    ref = [i for i, g in enumerate(months) if lo <= g <= 176]
    for j in (1, 2, 0):
        v = np.array(f[j], float)
        if base:
            v = v - v[ref].mean()
        v = v*RAD*np.sqrt(3)/1.021
        a, b = np.full((2, len(asked)), np.nan)
        for i, g in enumerate(asked):
            if g in months:
                a[i], b[i] = t[months.index(g)], v[months.index(g)]
        out.append((a, b))
    return out


MISS = (6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156, 162, 166,
    167, 172, 177, 178, 182, 200, 201)


def months_of(kind):
    if kind == 'all':
        return [g for g in range(4, 240) if g not in GAP]
    if kind == 'published':
        return [g for g in range(4, 233) if g not in GAP + MISS]
    if kind == 'late':
        return [g for g in range(150, 220) if g not in GAP + (170,)]
    return [g for g in range(2, 236) if g not in GAP and g % 5]     # sparse


def spans(tier):
    for kind, start, end, miss in itertools.product(('all', 'published',
            'late', 'sparse'), (4, 60, 150), (230, 205, 198), (None, (), (160,
            161, 199))):
        if tier == 'thorough' or (start == 4) + (end == 230) + (miss is
                None) >= 2:
            yield kind, start, end, miss


def base_args(d, rel, start, end, miss):
    out = ['-D', d, '-r', rel, '-S', start, '-E', end]
    if miss is not None:
        out += ['-M', *(miss or [999])]
    asked = [g for g in range(start, end + 1) if g not in (MISS if miss is None
        else miss)]
    return out, asked


def frame(rec, key, axes, gap, start, end, accel=True):
    """what the three panels have in common"""
    rec.eq([a['title'] for a in axes], ['x', 'y', 'z'], key + ':panels')
    for a in axes:
        rec.close(a['spans'], [gap], key + ':gap', rtol=0, atol=1e-6)
        rec.close(a['xlim'], [2002 + (start + 1)//12, 2002 + (end + 1)/12],
            key + ':range', rtol=0, atol=1e-9)
        marks = [l for l in a['lines'] if len(l[0]) == 2 and l[0][0] ==
            l[0][1]]
        if accel:
            # the accelerometer was switched off on 3 September 2016
            rec.close([np.ravel(m[0])[0] for m in marks], [2016 + (246 + (12 + 12/60)/
                24)/366], key + ':switch', rtol=0, atol=1e-8)
        else:
            rec.eq(len(marks), 0, key + ':marks')


FLAG = {'GFZwPT': ('GFZ', 'SLF_iter_wSLR21'), 'GFZ+CS21': ('GFZ',
    'SLF_iter_wSLR21'), 'GFZ+CS21+CS22': ('GFZ', 'SLF_iter_wSLR21_wSLR22')}


@CHECK.block('centers', params=lambda t: [(t, i) for i in range(4)])
def centers(rec, arg):
    """series of the processing centres"""
    tier, part = arg
    tmp = pathlib.Path(rec.mkdir())
    lists = [None, ('CSR',), ('JPL', 'CSR'), ('GFZ', 'GFZ+CS21',
        'GFZ+CS21+CS22'), ('GFZwPT', 'JPL')]
    n = -1
    for (kind, start, end, miss), rel, lst in itertools.product(spans(tier), (
            'RL06', 'RL05'), lists):
        n += 1
        if n % 4 != part or (tier == 'quick' and rel == 'RL05' and (start, end)
                != (4, 230)):
            continue
        key = f'{kind}:{start}:{end}:{miss}:{rel}:{lst}'
        rec.case(key)
        d = tmp/f'd{n}'
        d.mkdir()
        argv, asked = base_args(d, rel, start, end, miss)
        model = 'OMCT' if rel == 'RL05' else 'MPIOM'
        months = months_of(kind)
        series = {}
        for k, pr in enumerate(lst or ('CSR', 'GFZ', 'GFZwPT', 'JPL')):
            p, flag = FLAG.get(pr, (pr, 'SLF_iter'))
            # a month less for every following centre
            mm = [g for g in months if g != 180 - k]
            series[pr] = (mm,) + uci(d/f'{p}_{rel}_{model}_{flag}.txt', mm, k)
        if lst:
            argv += ['-c', *lst]
        with rec.guard(key), Recorder() as R:
            log = prog.run('geocenter_processing_centers', *argv)
            rec.check(not log, key + ':log', log)
            rec.eq([f[0] for f in R.figures], [d/f'SV19_{rel}_centers.pdf'],
                key + ':figures')
            axes = R.figures[0][2]
            last = series[list(series)[-1]]
            gap = [last[1][last[0].index(g)] for g in (186, 198)]
            frame(rec, key, axes, gap, start, end)
            for k, (pr, (mm, t, f)) in enumerate(series.items()):
                want = anomaly(mm, t, f, start, asked)
                for j in range(3):
                    c = curves(axes[j])
                    rec.eq([x[2] for x in c], list(series), key + ':labels')
                    same_curve(rec, f'{key}:{pr}:{j}', c[k], *want[j], 1e-7)
            rec.eq(axes[0]['legend'], list(series), key + ':legend')
    rec.sample({'centres': lst, 'months': kind})


@CHECK.block('tellus', params=lambda t: [(t, i) for i in range(4)])
def tellus(rec, arg):
    """comparison with the published series"""
    tier, part = arg
    tmp = pathlib.Path(rec.mkdir())
    for n, ((kind, start, end, miss), rel) in enumerate(itertools.product(
            spans(tier), ('RL06', 'RL05'))):
        if n % 4 != part:
            continue
        key = f'{kind}:{start}:{end}:{miss}:{rel}'
        rec.case(key)
        d = tmp/f'd{n}'
        d.mkdir()
        argv, asked = base_args(d, rel, start, end, miss)
        model = 'OMCT' if rel == 'RL05' else 'MPIOM'
        months = months_of(kind)
        other = [g for g in months if g % 7]
        other = sorted(set(other) | {186, 198})
        series = {}
        for k, pr in enumerate(('CSR', 'GFZ', 'JPL')):
            series[pr] = ((months,) + uci(d/f'{pr}_{rel}_{model}_SLF_iter.txt',
                months, k), (other,) + tn13(d/f'TN-13_GEOC_{pr}_{rel}.txt',
                other, k + 3))
        with rec.guard(key), Recorder() as R:
            log = prog.run('geocenter_compare_tellus', *argv)
            rec.check(not log, key + ':log', log)
            rec.eq([f[0] for f in R.figures], [d/f'TN13_SV19_{pr}_{rel}.pdf'
                for pr in series], key + ':figures')
            for (_, _, axes), (pr, two) in zip(R.figures, series.items()):
                last = two[1]
                gap = [last[1][last[0].index(g)] for g in (186, 198)]
                frame(rec, f'{key}:{pr}', axes, gap, start, end)
                for k, (mm, t, f) in enumerate(two):
                    want = anomaly(mm, t, f, start, asked)
                    for j in range(3):
                        c = curves(axes[j])
                        rec.eq([x[2] for x in c], ['Iterated SLF',
                            'JPL Tellus'], key + ':labels')
                        same_curve(rec, f'{key}:{pr}:{k}:{j}', c[k],
                            *want[j], 1e-7)
                rec.eq(axes[0]['legend'], ['Iterated SLF', 'JPL Tellus'],
                    key + ':legend')
    rec.sample({'months': kind})


@CHECK.block('ocean', params=lambda t: [(t, i) for i in range(4)])
def ocean(rec, arg):
    """series of the ocean models"""
    tier, part = arg
    tmp = pathlib.Path(rec.mkdir())
    for n, ((kind, start, end, miss), rel, models, lst) in enumerate(
            itertools.product(spans(tier), ('RL06', 'RL05'), (('ECCO',), (
            'ECCO_V4r4', 'own'), ('A', 'B', 'C', 'own', 'ECCO_kf080i')), (
            None, ('CSR',), ('JPL', 'GFZ')))):
        if n % 4 != part or (tier == 'quick' and (rel == 'RL05' or lst and
                len(lst) == 2) and (start, end) != (4, 230)):
            continue
        key = f'{kind}:{start}:{end}:{miss}:{rel}:{models}:{lst}'
        rec.case(key)
        d = tmp/f'd{n}'
        d.mkdir()
        argv, asked = base_args(d, rel, start, end, miss)
        own = 'OMCT' if rel == 'RL05' else 'MPIOM'
        use = [own if m == 'own' else m for m in models]
        months = months_of(kind)
        series = {}
        for k, pr in enumerate(lst or ('CSR', 'GFZ', 'JPL')):
            for i, m in enumerate(use + [own]):
                if (pr, m) not in series:
                    mm = [g for g in months if g != 180 - i]
                    series[pr, m] = (mm,) + uci(d/
                        f'{pr}_{rel}_{m}_SLF_iter.txt', mm, k + 2*i)
        argv += ['-O', *use] + (['-c', *lst] if lst else [])
        with rec.guard(key), Recorder() as R:
            log = prog.run('geocenter_ocean_models', *argv)
            rec.check(not log, key + ':log', log)
            rec.eq([f[0] for f in R.figures], [d/
                f'SV19_{pr}_{rel}_ocean_models.pdf' for pr in (lst or ('CSR',
                'GFZ', 'JPL'))], key + ':figures')
            for (_, _, axes), pr in zip(R.figures, lst or ('CSR', 'GFZ',
                    'JPL')):
                last = series[pr, own]
                gap = [last[1][last[0].index(g)] for g in (186, 198)]
                frame(rec, f'{key}:{pr}', axes, gap, start, end, False)
                for k, m in enumerate(use):
                    mm, t, f = series[pr, m]
                    want = anomaly(mm, t, f, start, asked)
                    for j in range(3):
                        c = curves(axes[j])
                        rec.eq([x[2] for x in c], [x.replace('_', '-') for x in
                            use], key + ':labels')
                        same_curve(rec, f'{key}:{pr}:{m}:{j}', c[k], *want[j],
                            1e-7)
                rec.eq(axes[0]['legend'], [x.replace('_', '-') for x in use],
                    key + ':legend')
    rec.sample({'models': models})


@CHECK.block('montecarlo', params=lambda t: [(t, i) for i in range(4)])
def montecarlo(rec, arg):
    """series of the runs of a monte carlo solution"""
    tier, part = arg
    tmp = pathlib.Path(rec.mkdir())
    for n, ((kind, start, end, miss), rel, runs, pr) in enumerate(
            itertools.product(spans(tier), ('RL06', 'RL05'), (2, 5), ('CSR',
            'GFZ'))):
        if n % 4 != part:
            continue
        key = f'{kind}:{start}:{end}:{miss}:{rel}:{runs}:{pr}'
        rec.case(key)
        d = tmp/f'd{n}'
        d.mkdir()
        argv, asked = base_args(d, rel, start, end, miss)
        model = 'OMCT' if rel == 'RL05' else 'MPIOM'
        months = months_of(kind)
        all_runs = [degree1(months, k) for k in range(runs)]
        t = all_runs[0][0]
        with netCDF4.Dataset(d/f'{pr}_{rel}_{model}_SLF_AW13_ice6g_GA_monte_'
                'carlo_FL.nc', 'w') as f:
            f.createDimension('time', len(t))
            f.createDimension('run', runs)
            for name, v in (('time', t), ('month', np.array(months))):
                f.createVariable(name, v.dtype, ('time',))[:] = v
            for j, name in enumerate(('C10', 'C11', 'S11')):
                f.createVariable(name, 'f8', ('time', 'run'))[:] = np.array([
                    r[1][j] for r in all_runs]).T
        with rec.guard(key), Recorder() as R:
            log = prog.run('geocenter_monte_carlo', *argv, '-c', pr)
            rec.check(not log, key + ':log', log)
            rec.eq([f[0] for f in R.figures], [d/
                f'SV19_{pr}_{rel}_monte_carlo.pdf'], key + ':figures')
            axes = R.figures[0][2]
            gap = [t[months.index(g)] for g in (186, 198)]
            frame(rec, key, axes, gap, start, end)
            want = [anomaly(months, *r, start, asked, False) for r in all_runs]
            for j in range(3):
                c = curves(axes[j])
                rec.eq(len(c), runs + 1, key + ':curves')
                v = np.array([w[j][1] for w in want])
                for k in range(runs):
                    same_curve(rec, f'{key}:{k}:{j}', c[k], *want[k][j], 1e-7)
                mean = v.mean(axis=0)
                same_curve(rec, f'{key}:mean:{j}', c[-1], want[0][j][0], mean,
                    1e-7)
                dv = v - mean
                rms = np.sqrt(np.nanmean(dv**2, axis=1)).mean()
                note = [float(x) for x in re.findall(r'= (-?[\d.]+) mm',
                    ''.join(axes[j]['notes']))]
                rec.close(note, [rms, np.nanmax(abs(dv))], f'{key}:{j}:spread',
                    rtol=0, atol=0.00501)
            rec.eq(axes[0]['ylabel'], f'{pr} Geocenter Variation [mm]',
                key + ':label')
    rec.sample({'runs': runs, 'months': kind})
