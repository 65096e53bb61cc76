"""P41: the map programs grid the requested anomalies of the archive"""
import datetime
import itertools
import pathlib
import numpy as np
import netCDF4
import h5py
import mc
import ref
import prog
from checks import P26, P28, P29    # stand-in of the geoid package first
import hmodel
import gravity_toolkit as gt
from gravity_toolkit.grace_input_months import grace_input_months
from checks.P23 import loess
from checks.P25 import expect, write as write_mask
from checks.P39 import SUFFIX, UNITS, load_grid, love_of, save

CHECK = mc.Check('P41', level='bounded_exhaustive',
    rule='distinct (program, months, truncation, field corrections, units, '
    'smoothing, grid, format) runs; every coefficient and grid cell written '
    'is compared with the defining sums over the archive',
    assumptions=['low degree replacements are those of their own property',
        'the destriping filter is that of its own property',
        'removed files hold every month of the archive',
        'series of the error programs span at least 13 months'])

F = 12


def ym(g):
    return P29.ym(g)


def values(g, n=F):
    """coefficients of a month as they are written"""
    l, m = np.mgrid[:n + 1, :n + 1]
    low = (m <= l)
    a = 1e-9/(1 + l)
    c = a*(np.cos(1 + 2.3*l + 3.7*m) + 0.3*np.cos(1.3*g + 0.7*l*m + l) +
        0.01*g)*low
    s = a*(np.sin(2 + 1.9*l + 0.7*m) + 0.3*np.sin(1.7*g + 0.3*l*m + m) -
        0.02*g)*low*(m > 0)
    q = np.vectorize(lambda x: float(f'{x:19.12e}'))
    e = np.vectorize(lambda x: float(f'{x:10.4e}'))
    return [q(c), q(s), e(1e-12*(2 + l + m + g % 5)*low), e(1e-12*(3 + l + g %
        3)*low*(m > 0))]


class Archive:
    """monthly solutions of a centre"""
    def __init__(self, root, months, proc='CSR', drel='RL06', dset='GSM',
            spans=None):
        self.root, self.args = pathlib.Path(root), (proc, drel, dset)
        self.dir = self.root.joinpath(proc, drel, dset)
        self.dir.mkdir(parents=True)
        self.months = sorted(months)
        names = []
        self.t, self.f = {}, {}
        for g in self.months:
            span = (spans or {}).get(g) or P29.month_span(g)
            p = (dset,) + P29.CENTRES[proc, drel]
            name = P26.name_of(p, span)
            self.f[g] = values(g)
            P26.write(self.dir/name, P26.head_lines(p) + P26.records(p[6],
                *self.f[g], 'degree'))
            self.t[g] = P26.dates(span)[0]
            names.append(name)
        # lists are by date where months are not told apart by their dates
        names = names if spans else names[::-1]
        (self.dir/'index.txt').write_text('\n'.join(names) + '\n')

    def options(self, lo, hi):
        a = ['-D', self.root, '-c', self.args[0], '-r', self.args[1], '-p',
            self.args[2], '-S', lo, '-E', hi, '-N']
        gone = [g for g in range(lo, hi + 1) if g not in self.months]
        return a + (gone or [0])

    def select(self, lo, hi, L, M):
        """fields of the months: (clm, slm, eclm, eslm) and dates"""
        ms = [g for g in self.months if lo <= g <= hi]
        out = []
        for k in range(4):
            a = np.zeros((L + 1, M + 1, len(ms)))
            i, j = min(L, F) + 1, min(M, F) + 1
            for n, g in enumerate(ms):
                a[:i, :j, n] = self.f[g][k][:i, :j]
            out.append(a)
        return out, np.array([self.t[g] for g in ms]), ms


def trim(a, L, M):
    out = np.zeros((L + 1, M + 1) + a.shape[2:])
    i, j = min(L + 1, a.shape[0]), min(M + 1, a.shape[1])
    out[:i, :j] = a[:i, :j]
    return out


def filtered(c, s):
    h = gt.harmonics(lmax=c.shape[0] - 1, mmax=c.shape[1] - 1)
    h.clm, h.slm = c.copy(), s.copy()
    h.time, h.month = np.arange(c.shape[2]) + 2003.0, np.arange(c.shape[2])
    h = h.destripe()
    return h.clm, h.slm


def map_grid(interval, spacing, bounds):
    dx, dy = spacing if len(spacing) == 2 else spacing*2
    if interval == 1:
        return (-180 + dx*np.arange(round(360/dx) + 1), 90 -
            dy*np.arange(round(180/dy) + 1))
    w, e, s, n = (-180, 180, -90, 90) if interval == 2 else bounds
    return (w + dx*(np.arange(round((e - w)/dx)) + 0.5), n - dy*(np.arange(
        round((n - s)/dy)) + 0.5))


def degree_factor(units, L, love, frame, radius):
    hl, kl, ll = love_of(L, love, frame)
    fac = ref.unit_factor(UNITS[units], L, hl, kl, ll)
    return fac*ref.gauss(radius, L) if radius else fac


def order_of(L, M):
    return f'M{M}' if M != L else ''


def attribute_units(path, fmt):
    with (netCDF4.Dataset(path) if fmt == 'netCDF4' else h5py.File(path,
            'r')) as f:
        return f['z'].units if fmt == 'netCDF4' else f['z'].attrs['units']


CODES = np.array([[1, 0, 0, 0, 1, 1, 0, 0], [0, 1, 0, 0, 0, 1, 1, 0], [0, 2,
    0, 0, 0, 0, 1, 0], [0]*8])
MLON, MLAT = 45.0*np.arange(8), np.array([67.5, 22.5, -22.5, -67.5])
OCEAN = {}


def ocean(L, M, love, frame):
    if (L, M, love, frame) not in OCEAN:
        OCEAN[L, M, love, frame] = expect((CODES == 1) | (CODES == 2) | (
            CODES == 3), MLON, MLAT, L, M, love_of(L, love, frame))[0][1]
    return OCEAN[L, M, love, frame]


def removal(months, k, L=F, M=F, extra=True):
    """a series of fields to be removed (in any order of months)"""
    ms = list(months) + ([months[-1] + 5, months[0] - 3] if extra else [])
    out = np.zeros((2, L + 1, M + 1, len(ms)))
    for n, g in enumerate(ms):
        c, s = values(g*(k + 2) % 89 + k, max(L, M))[:2]
        out[:, :, :, n] = 0.5*c[:L + 1, :M + 1], 0.5*s[:L + 1, :M + 1]
    t = np.array([ref.decimal_year(*ym(g), 15.0) for g in ms])
    return hmodel.M(out[0], out[1], t, np.array(ms))


# ---------------------------------------------------------------- spatial maps
def map_cases(tier):
    base = dict(fmt='netCDF4', span=(13, 17), lmax=5, mmax=None, lmin=None,
        units=1, love=0, frame='CF', radius=0, destripe=False, interval=2,
        spacing=(60.0, 45.0), bounds=None, gia=None, mean=None, remove=None,
        mask=False, prefix=None)

    def case(**kw):
        d = dict(base)
        d.update(kw)
        return d
    # months and truncation
    for fmt, span, lmax, mmax, lmin in itertools.product(SUFFIX, ((13, 17), (
            15, 15), (14, 15), (12, 30)), (5, 4, 1, 14), (None, 2, 0), (None,
            0, 2)):
        if not (mmax is not None and mmax > lmax or lmin and lmin > lmax):
            yield case(fmt=fmt, span=span, lmax=lmax, mmax=mmax, lmin=lmin)
    # units, Love numbers, smoothing
    for units, love, frame, radius, destripe in itertools.product(range(1, 6),
            range(5), ('CF', 'CM', 'CE'), (0, 300, 1500.5), (False, True)):
        if frame == 'CM' and units in (1, 3, 5):
            continue
        if tier == 'thorough' or (love in (0, 2) and radius != 300) or \
                (units, radius) == (1, 300):
            yield case(units=units, love=love, frame=frame, radius=radius,
                destripe=destripe, lmax=12 if destripe else 5,
                spacing=(90.0,), span=(13, 14))
    # grids
    for interval, spacing, bounds, fmt in itertools.product((1, 2, 3), ((
            30.0,), (30.0, 15.0), (22.5,), (0.9, 60.0), (36.0, 0.45)), ((0.0,
            360.0, -90.0, 90.0), (-180.0, 180.0, -90.0, 90.0), (-180.0, -36.0,
            0.0, 60.0), (90.0, 198.0, -60.0, -30.0)), SUFFIX):
        if interval != 3 and bounds[1:] != (360.0, -90.0, 90.0):
            continue
        if interval == 3 and (any(abs(v/s - round(v/s)) > 1e-9 for v, s in ((
                bounds[1] - bounds[0], spacing[0]), (bounds[3] - bounds[2],
                spacing[-1]))) or bounds[3] - bounds[2] == spacing[-1]):
            continue
        yield case(interval=interval, spacing=spacing, bounds=bounds if
            interval == 3 else None, fmt=fmt, span=(13, 14), lmax=3)
    # corrections
    kinds = (None, 'IJ05-R2', 'ICE6G', 'Caron', 'netCDF4', 'ascii', 'HDF5')
    means = (None, 'ascii', 'netCDF4', 'HDF5', 'gfc')
    removes = (None, ('netCDF4',), ('index-ascii',), ('netCDF4', 'HDF5'), (
        'ascii', 'index-netCDF4', 'HDF5'), ('index-HDF5', 'index-HDF5'))
    for gia, mean, remove, mask, destripe, mmax in itertools.product(kinds,
            means, removes, (False, True), (False, True), (None, 4)):
        n = (gia is not None) + (mean is not None) + (remove is not None)
        if (n == 1 or (tier == 'thorough' and n and not (destripe and mmax))
                or (n == 3 and not destripe and mask and mmax)) and not (mask
                and not remove):
            yield case(gia=gia, mean=mean, remove=remove, mask=mask,
                destripe=destripe, mmax=mmax, lmax=11 if destripe else 6,
                spacing=(90.0,))
    for prefix in ('other_', 'a'):
        for gia in (None, 'IJ05-R2'):
            yield case(prefix=prefix, gia=gia, mmax=3)


def put_gia(tmp, kind, tag):
    """write a file of rates: (path, title, clm, slm)"""
    if kind in SUFFIX:
        c, s = values(11)[:2]
        c, s = 0.01*c, 0.01*s
        c[0, 0] = 0
        path = tmp/f'gia{tag}.{SUFFIX[kind]}'
        h = gt.harmonics(lmax=F, mmax=F)
        h.clm, h.slm = c, s
        h.to_file(path, format=kind, date=False)
        if kind != 'ascii':
            with (netCDF4.Dataset(path, 'a') if kind == 'netCDF4' else
                    h5py.File(path, 'a')) as f:
                if kind == 'netCDF4':
                    f.title = 'rates'
                else:
                    f.attrs['title'] = 'rates'
            return path, None, c, s
        return path, None, c, s
    name, title = P28.NAMES[kind][0]
    d = tmp/f'gia{tag}'
    d.mkdir()
    text, c, s = P28.model(kind, F, 'degree')
    (d/name).write_text(text)
    return d/name, '_' + title, c, s


def put_mean(tmp, ar, fmt, tag):
    """mean of other months by its program: (path, clm, slm)"""
    path = tmp/f'mean{tag}.{dict(SUFFIX, gfc="gfc")[fmt]}'
    err = prog.run('grace_mean_harmonics', *ar.options(13, 40), '-l', F,
        '--mean-file', path, '--mean-format', fmt)
    assert path.exists(), err
    f, _, _ = ar.select(13, 40, F, F)
    return path, f[0].mean(axis=2), f[1].mean(axis=2)


def put_removal(tmp, md, form, tag):
    fmt = form.split('-')[-1]
    if form.startswith('index') or fmt == 'ascii':
        names = []
        for k in range(md.c.shape[2]):
            one = hmodel.M(md.c[..., k], md.s[..., k], md.t[k], md.mo[k])
            f = tmp/f'rem{tag}_{k}.{SUFFIX[fmt]}'
            save(one, f, fmt, True)
            names.append(str(f))
        if not form.startswith('index'):
            return pathlib.Path(names[0])
        path = tmp/f'remindex{tag}.txt'
        path.write_text('\n'.join(names[::-1]) + '\n')
        return path
    path = tmp/f'rem{tag}.{SUFFIX[fmt]}'
    save(md, path, fmt, True)
    return path


def prepare(tmp, ar, c, n, argv):
    """write the auxiliary files of a case; returns what they hold"""
    have = {}
    if c['gia']:
        path, title, gc, gs = put_gia(tmp, c['gia'], n)
        argv += ['-G', c['gia'], '--gia-file', path]
        have['gia'] = (title, gc, gs)
    if c['mean']:
        path, mc_, ms_ = put_mean(tmp, ar, c['mean'], n)
        argv += ['--mean-file', path, '--mean-format', c['mean']]
        have['mean'] = (mc_, ms_)
    if c['remove']:
        have['remove'] = []
        paths = []
        months = [g for g in ar.months if c['span'][0] <= g <= c['span'][1]]
        for k, form in enumerate(c['remove']):
            md = removal(months, k, F - k, F - k, extra=form != 'ascii')
            if form == 'ascii':     # a single month
                md = hmodel.M(md.c[..., :1], md.s[..., :1], md.t[:1],
                    md.mo[:1])
            paths.append(put_removal(tmp, md, form, f'{n}_{k}'))
            have['remove'].append(md)
        argv += ['--remove-file', *paths, '--remove-format']
        argv += [c['remove'][0]] if len(set(c['remove'])) == 1 else list(
            c['remove'])
        if c['mask']:
            argv += ['--redistribute-removed', '--mask', tmp/'mask.nc']
    return have


def anomalies(ar, c, have, fields=None):
    """anomalies of the months after every correction, and the part of them
    taken from the archive alone"""
    L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
    if fields is None:
        f, t, months = ar.select(*c['span'], L, M)
        cl, sl = f[:2]
    else:
        cl, sl, t, months = fields
    if 'mean' in have:
        a, b = have['mean']
        cl, sl = cl - trim(a, L, M)[..., None], sl - trim(b, L, M)[..., None]
    else:
        cl, sl = cl - cl.mean(axis=2, keepdims=True), sl - sl.mean(axis=2,
            keepdims=True)
    if c['destripe']:
        cl, sl = filtered(cl, sl)
    c0, s0 = cl, sl
    if 'gia' in have:
        _, a, b = have['gia']
        cl = cl - trim(a, L, M)[..., None]*(t - 2003.3)
        sl = sl - trim(b, L, M)[..., None]*(t - 2003.3)
    for md in have.get('remove', []):
        at = [list(md.mo).index(g) for g in months]
        a, b = trim(md.c[..., at], L, M), trim(md.s[..., at], L, M)
        if c['mask']:
            oc, os_ = ocean(L, M, c['love'], c['frame'])
            r = a[0, 0]/oc[0, 0]
            a, b = a - r*oc[..., None], b - r*os_[..., None]
        if c['destripe']:
            a, b = filtered(a, b)
        cl, sl = cl - a, sl - b
    return cl, sl, t, months, c0, s0


def common(c, L, M, with_units=True):
    argv = ['-l', L, '-n', c['love'], '--reference', c['frame']]
    argv += ['--interval', c['interval'], '-F', c['fmt'], '--spacing',
        *c['spacing']]
    if with_units:
        argv += ['-U', c['units']]
    if c['mmax'] is not None:
        argv += ['-m', M]
    if c['lmin'] is not None:
        argv += ['--lmin', c['lmin']]
    if c['radius']:
        argv += ['-R', c['radius']]
    if c['destripe']:
        argv += ['-d']
    if c['bounds']:
        argv += ['--bounds', *c['bounds']]
    if c.get('prefix'):
        argv += ['-P', c['prefix']]
    return argv


def tail_of(c, L, M):
    return order_of(L, M) + (f'_r{c["radius"]:.0f}km' if c['radius'] else ''
        ) + ('_FL' if c['destripe'] else '')


NPART = 16


@CHECK.block('maps', params=lambda tier: [(k, tier) for k in range(NPART)],
    timeout=900)
def maps(rec, arg):
    """monthly grids of the archive"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    ar = Archive(tmp/'data', [13, 14, 15, 17, 30, 33])
    write_mask(tmp/'mask.nc', CODES, MLON, MLAT)
    for n, c in enumerate(itertools.islice(map_cases(tier), part, None,
            NPART)):
        key = ':'.join(f'{v}' for v in c.values())
        rec.case(key)
        if c['remove'] and 'ascii' in c['remove']:
            c['span'] = (15, 15)
            c['mean'] = c['mean'] or 'netCDF4'
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        fmt = c['fmt']
        out = tmp/f'out{n}'/'new'
        with rec.guard(key):
            argv = ar.options(*c['span']) + common(c, L, M) + ['-O', out]
            have = prepare(tmp, ar, c, n, argv)
            before = prog.listing(out, ar.dir)
            err = prog.run('grace_spatial_maps', *argv)
            rec.eq(prog.said(before, out, ar.dir), [], f'{key}:said')
            cl, sl, t, months, _, _ = anomalies(ar, c, have)
            fac = degree_factor(c['units'], L, c['love'], c['frame'],
                c['radius'])
            fac[:1 if c['lmin'] is None else c['lmin']] = 0
            lon, lat = map_grid(c['interval'], c['spacing'], c['bounds'])
            title = have['gia'][0] if c['gia'] else ''
            names = [f'{UNITS[c["units"]]}_L{L}{tail_of(c, L, M)}_{g:03d}.'
                f'{SUFFIX[fmt]}' for g in months]
            got = sorted(p.name for p in out.glob('*'))
            if c['prefix']:
                names = [c['prefix'] + x for x in names]
            elif title is not None:
                names = [f'CSR_RL06_GSM{title}_{x}' for x in names]
            else:       # reformatted rates carry a title of their own
                pre = got[0].split('_cmwe')[0] + '_' if got else ''
                rec.check(pre.startswith('CSR_RL06_GSM'), key + ':prefix')
                names = [pre + x for x in names]
            if not rec.eq(got, sorted(names), key + ':files ' + err[-160:]):
                continue
            for k, name in enumerate(names):
                want = ref.synth(cl[..., k]*fac[:, None], sl[..., k]*fac[:,
                    None], lon, lat)
                g, gt_ = load_grid(out/name, fmt, lon, lat, True)
                top = abs(want).max()
                tol = (6e-5 if fmt == 'ascii' else 0) + 2e-9*top
                rec.check(g.shape == want.shape + (1,) and (abs(g[..., 0] -
                    want) <= tol).all(), f'{key}:{months[k]}', lambda:
                    f'{np.nanmax(abs(g[..., 0] - want))} of {top}')
                rec.close(gt_, t[k:k + 1], f'{key}:{months[k]}:time', rtol=0,
                    atol=6e-5 if fmt == 'ascii' else 1e-6)
                if fmt != 'ascii':
                    u = gt.units.get_attributes(UNITS[c['units']])[0]
                    rec.eq(attribute_units(out/name, fmt), u, key + ':units')
        for f in out.glob('*'):
            f.unlink()
    rec.sample({'maps': part})


# months that are centred in the month before
SPECIAL = {118: (2011, 274, 2011, 301), 119: (2011, 290, 2011, 318), 160: (
    2015, 91, 2015, 106), 161: (2015, 107, 2015, 131)}


@CHECK.block('special', params=lambda tier: [(k, tier) for k in range(4)],
    timeout=600)
def special(rec, arg):
    """months whose solutions are centred in another month, and files to be
    removed that hold exactly these months or lack one"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    n = -1
    for months, span, fmt, order, rfmt in itertools.product((list(range(115,
            124)), list(range(157, 165)), [118, 119], [160, 161], [116, 118,
            119, 121, 159, 160, 161]), ((115, 164), (118, 161), (119, 160)),
            ('netCDF4', 'ascii'), (0, 1, 2), ('netCDF4', 'HDF5')):
        n += 1
        if n % 4 != part or order == 0 and rfmt == 'HDF5':
            continue
        key = f'{months}:{span}:{fmt}:{order}:{rfmt}'
        ar = Archive(tmp/f'data{n}', months, spans=SPECIAL)
        use = [g for g in months if span[0] <= g <= span[1]]
        if not use:
            continue
        rec.case(key)
        out = tmp/f'out{n}'
        with rec.guard(key):
            argv = ar.options(*span) + ['-l', 4, '--spacing', 60, 45,
                '--interval', 2, '-U', 1, '-F', fmt, '-O', out, '-P', 'X_']
            f, t, ms = ar.select(*span, 4, 4)
            c, s = f[0] - f[0].mean(axis=2)[..., None], f[1] - f[1].mean(
                axis=2)[..., None]
            if order:
                # the months of the run and no others
                md = removal(use, 1, 4, 4, extra=False)
                if order == 2:
                    md.mo[-1] += 1
                save(md, tmp/f'rm{n}', rfmt, True)
                argv += ['--remove-file', tmp/f'rm{n}', '--remove-format',
                    rfmt]
                c, s = c - md.c, s - md.s
            before = prog.listing(out, ar.dir)
            err = prog.run('grace_spatial_maps', *argv)
            if order < 2:
                rec.eq(prog.said(before, out, ar.dir), [], f'{key}:said')
            names = [f'X_cmwe_L4_{g:03d}.{SUFFIX[fmt]}' for g in use]
            if order == 2:
                rec.check(err, key + ':missing month reported')
                rec.eq(list(out.glob('*')), [], key + ':nothing written')
                continue
            if not rec.eq(sorted(p.name for p in out.glob('*')), names,
                    key + ':files ' + err[-300:]):
                continue
            fac = degree_factor(1, 4, 0, 'CF', 0)
            fac[0] = 0
            lon, lat = map_grid(2, (60.0, 45.0), None)
            for k, name in enumerate(names):
                want = ref.synth(c[..., k]*fac[:, None], s[..., k]*fac[:,
                    None], lon, lat)
                g, gt_ = load_grid(out/name, fmt, lon, lat, True)
                rec.close(g[..., 0], want, f'{key}:{use[k]}', rtol=0,
                    atol=(6e-5 if fmt == 'ascii' else 0) + 2e-9*abs(
                    want).max())
                rec.close(gt_, t[k:k + 1], f'{key}:{use[k]}:time', rtol=0,
                    atol=6e-5 if fmt == 'ascii' else 1e-6)
    rec.sample({'months': months})


# ---------------------------------------------------------------- means
@CHECK.block('means', params=lambda tier: ['ascii', 'netCDF4', 'HDF5',
    'gfc'], timeout=600)
def means(rec, fmt):
    """mean fields and their errors"""
    tmp = pathlib.Path(rec.mkdir())
    ar = Archive(tmp/'data', [4, 5, 8, 13, 14, 15, 17])
    suffix = dict(SUFFIX, gfc='gfc')[fmt]
    for span, lmax, mmax, named in itertools.product(((4, 17), (5, 13), (14,
            15), (8, 8)), (12, 6, 4, 1, 14), (None, 3, 0), (False, True)):
        if mmax is not None and mmax > lmax:
            continue
        key = f'{fmt}:{span}:{lmax}:{mmax}:{named}'
        rec.case(key)
        L, M = lmax, lmax if mmax is None else mmax
        with rec.guard(key):
            argv = ar.options(*span) + ['-l', L, '--mean-format', fmt]
            argv += ['-m', M] if mmax is not None else []
            path = ar.dir/(f'CSR_RL06_GSM_MEAN_CLM_L{L}{order_of(L, M)}_'
                f'{span[0]:03d}-{span[1]:03d}.{suffix}')
            if named:
                path = tmp/'some'/'where'/f'mean.{suffix}'
                argv += ['--mean-file', path]
            before = prog.listing(tmp)
            err = prog.run('grace_mean_harmonics', *argv)
            rec.eq(prog.said(before, tmp), [], f'{key}:said')
            if not rec.check(path.exists(), key, 'no file ' + err[-200:]):
                continue
            f, t, months = ar.select(*span, L, M)
            c, s = f[0].mean(axis=2), f[1].mean(axis=2)
            ec, es = (np.sqrt((x**2).mean(axis=2)) for x in f[2:])
            if fmt == 'gfc':
                lines = path.read_text().splitlines()
                k = [i for i, x in enumerate(lines) if x.startswith(
                    'end_of_head')]
                rows = [x.split() for x in lines[k[0] + 1:]]
                rec.check(len(rows) == sum(min(l, M) + 1 for l in range(L +
                    1)) and len({(r[1], r[2]) for r in rows}) == len(rows),
                    key + ':rows')
                for r in rows:
                    l, m = int(r[1]), int(r[2])
                    rec.close([float(x) for x in r[3:]], [c[l, m], s[l, m],
                        ec[l, m], es[l, m]], f'{key}:{l}:{m}', rtol=6e-6,
                        atol=1e-24)
                    rec.close([float(x) for x in r[3:5]], [c[l, m], s[l, m]],
                        f'{key}:{l}:{m}', rtol=1e-11, atol=1e-24)
                head = dict(x.split(None, 1) for x in lines[:k[0]] if
                    len(x.split()) > 1)
                for a, b in (('max_degree', L), ('max_order', M),
                        ('generating_institute', 'CSR'), ('product_release',
                        'RL06'), ('product_name', 'GSM')):
                    rec.eq(head[a].strip(), str(b), f'{key}:{a}')
            else:
                h = gt.harmonics().from_file(path, format=fmt, date=True)
                rec.close(h.clm, c, key + ':clm', rtol=1e-9, atol=1e-24)
                rec.close(h.slm, s, key + ':slm', rtol=1e-9, atol=1e-24)
                rec.close(np.squeeze(h.time), t.mean(), key + ':time',
                    rtol=0, atol=6e-5 if fmt == 'ascii' else 1e-6)
            path.unlink()
            rec.eq(sorted(p.suffix for p in ar.dir.glob(f'*.{suffix}') if
                'MEAN' in p.name), [], key + ':others')
    rec.sample({'means': fmt})


# ---------------------------------------------------------------- errors
def noise(t, y, h=6):
    """root mean square noise of a smoothed series"""
    out = []
    for i in range(len(t) - 2*h):
        w = slice(i, i + 2*h + 1)
        B, X, _, _ = loess(t[w], y[w])
        out.append(y[i + h] - B[0] - X[h, 2:] @ B[2:])
    return np.sqrt(np.mean(np.square(out)))


def deltas(c, s, t, h=6):
    out = np.zeros((2,) + c.shape[:2])
    for k, a in enumerate((c, s)):
        for l, m in itertools.product(*map(range, c.shape[:2])):
            if m <= l:
                out[k, l, m] = noise(t, a[l, m], h)
    return out


def error_map(d, nsmth, fac, lon, lat):
    """root sum square of independent coefficient errors"""
    L, M = d.shape[1] - 1, d.shape[2] - 1
    out = np.zeros((len(lat), len(lon)))
    P = ref.plm_fast(L, np.cos(np.radians(90 - lat)))
    m = np.arange(M + 1)
    ph = np.radians(lon)
    for i in range(len(lat)):
        a = ((P[:, :M + 1, i]*d[0]*fac[:, None])**2).sum(axis=0)
        b = ((P[:, :M + 1, i]*d[1]*fac[:, None])**2).sum(axis=0)
        out[i] = a @ np.cos(np.outer(m, ph))**2 + b @ np.sin(np.outer(m,
            ph))**2
    return np.sqrt(out/nsmth)


def error_cases(tier):
    base = dict(fmt='netCDF4', span=(13, 30), lmax=5, mmax=None, lmin=None,
        units=1, love=0, frame='CF', radius=0, destripe=False, interval=2,
        spacing=(60.0, 45.0), bounds=None, mean=None, gia=None, remove=None,
        mask=False, prefix=None, again=True)

    def case(**kw):
        d = dict(base)
        d.update(kw)
        return d
    for fmt, span, (lmax, mmax), lmin, destripe in itertools.product(SUFFIX, (
            (13, 30), (13, 27), (14, 33)), ((4, None), (4, 2), (3, 0), (13,
            3)), (None, 0, 2), (False, True)):
        if not destripe or lmax == 13:
            yield case(fmt=fmt, span=span, lmax=lmax, mmax=mmax, lmin=lmin,
                destripe=destripe)
    for units, love, frame, radius in itertools.product(range(1, 6), (0, 1, 2,
            3, 4), ('CF', 'CM', 'CE'), (0, 400)):
        if not (frame == 'CM' and units in (1, 3, 5)) and (tier == 'thorough'
                or love == 2 or frame == 'CE'):
            yield case(units=units, love=love, frame=frame, radius=radius,
                lmax=3)
    for (interval, bounds), spacing, fmt in itertools.product(((1, None), (2,
            None), (3, (-180.0, 0.0, -30.0, 60.0))), ((45.0,), (45.0, 30.0),
            (0.9, 30.0)), SUFFIX):
        yield case(interval=interval, bounds=bounds, spacing=spacing, fmt=fmt,
            lmax=2) if not (interval == 3 and spacing == (45.0,) and False) \
            else None
    for mean, mmax, prefix in itertools.product((None, 'ascii', 'netCDF4',
            'HDF5', 'gfc'), (None, 2), (None, 'p_')):
        yield case(mean=mean, mmax=mmax, prefix=prefix, lmax=3)
    # the first and last months of the range are missing
    for fmt, span, mean in itertools.product(SUFFIX, ((12, 31), (16, 34), (10,
            33)), (None, 'netCDF4')):
        yield case(fmt=fmt, span=span, mean=mean, lmax=3)


@CHECK.block('errors', params=lambda tier: [(k, tier) for k in range(NPART)],
    timeout=900)
def errors(rec, arg):
    """error maps from the noise of the series, computed and read back"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    months = [13, 14, 15, 17, 18, 19, 20, 21, 22, 24, 25, 26, 27, 28, 29, 30,
        32, 33]
    ar = Archive(tmp/'data', months)
    for n, c in enumerate(itertools.islice(error_cases(tier), part, None,
            NPART)):
        key = ':'.join(f'{v}' for v in c.values())
        rec.case(key)
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        fmt = c['fmt']
        out = tmp/f'out{n}'
        with rec.guard(key):
            argv = ar.options(*c['span']) + common(c, L, M) + ['-O', out]
            have = prepare(tmp, ar, c, n, argv)
            cl, sl, t, ms, _, _ = anomalies(ar, c, have)
            d = deltas(cl, sl, t)
            fac = degree_factor(c['units'], L, c['love'], c['frame'],
                c['radius'])
            fac[:1 if c['lmin'] is None else c['lmin']] = 0
            lon, lat = map_grid(c['interval'], c['spacing'], c['bounds'])
            want = error_map(d, len(t) - 12, fac, lon, lat)
            name = (c['prefix'] or 'CSR_RL06_GSM_') + (f'{UNITS[c["units"]]}_'
                f'L{L}{tail_of(c, L, M)}_ERR_{ms[0]:03d}-{ms[-1]:03d}.'
                f'{SUFFIX[fmt]}')
            delta = ar.dir/(f'CSR_RL06_GSM_DELTA_CLM_L{L}{order_of(L, M)}'
                f'{"_FL" if c["destripe"] else ""}_{ms[0]:03d}-{ms[-1]:03d}.'
                f'{SUFFIX[fmt]}')
            top = abs(want).max()
            for run in ('new', 'old'):
                before = prog.listing(out, ar.dir)
                err = prog.run('grace_spatial_error', *argv)
                rec.eq(prog.said(before, out, ar.dir), [], f'{key}:said')
                if not rec.eq(sorted(p.name for p in out.glob('*')), [name],
                        f'{key}:{run}:files ' + err[-160:]):
                    break
                rec.eq([p.name for p in ar.dir.glob('*DELTA*')], [delta.name],
                    f'{key}:{run}:delta')
                g, _ = load_grid(out/name, fmt, lon, lat, False)
                tol = (6e-5 if fmt == 'ascii' else 0) + 1e-7*top
                rec.check(g.shape == want.shape + (1,) and (abs(g[..., 0] -
                    want) <= tol).all(), f'{key}:{run}', lambda:
                    f'{np.nanmax(abs(g[..., 0] - want))} of {top}')
                (out/name).unlink()
                if run == 'new' and delta.exists():
                    h = gt.harmonics().from_file(delta, format=fmt)
                    rec.close(h.clm, d[0], f'{key}:clm', rtol=1e-6,
                        atol=1e-18)
                    rec.close(h.slm, d[1], f'{key}:slm', rtol=1e-6,
                        atol=1e-18)
        for p in ar.dir.glob('*DELTA*'):
            p.unlink()
    rec.sample({'errors': part})


# ---------------------------------------------------------------- scaling
def put_scale(path, fmt, lon, lat):
    """factors, their errors and magnitudes with invalid cells"""
    i, j = np.indices((len(lat), len(lon)))
    bad = (2*i + 3*j) % 7 == 3
    k = np.round(1 + 0.5*np.cos(i + 2.3*j), 4)
    e = np.round(2 + np.sin(3*i + j), 4)
    p = np.round(30 + 10*np.cos(2*i - j), 4)
    # no leakage errors where the model has no variations
    p[(i + 2*j) % 5 == 1] = 0.0
    fields = [(n, np.where(bad, -9999.0, x)) for n, x in (('kfactor', k), (
        'error', e), ('power', p))]
    if fmt == 'netCDF4':
        with netCDF4.Dataset(path, 'w') as f:
            for n, x in (('lat', lat), ('lon', lon)):
                f.createDimension(n, len(x))
                f.createVariable(n, 'f8', (n,))[:] = x
            for n, x in fields:
                f.createVariable(n, 'f8', ('lat', 'lon'),
                    fill_value=-9999.0)[:] = x
    else:
        with h5py.File(path, 'w') as f:
            for n, x in [('lat', lat), ('lon', lon)] + fields:
                f[n] = x
                f[n].attrs['_FillValue'] = np.array([-9999.0])
    return k, e, p, bad


def scale_cases(tier):
    base = dict(fmt='netCDF4', span=(13, 30), lmax=4, mmax=None, lmin=None,
        units=1, love=0, frame='CF', radius=0, destripe=False, interval=2,
        spacing=(60.0, 45.0), bounds=None, mean=None, gia=None, remove=None,
        mask=False, prefix=None)

    def case(**kw):
        d = dict(base)
        d.update(kw)
        return d
    for fmt, span, (lmax, mmax), lmin, destripe in itertools.product((
            'netCDF4', 'HDF5'), ((13, 30), (14, 33)), ((4, None), (4, 2), (3,
            0), (13, 3)), (None, 0, 2), (False, True)):
        if not destripe or lmax == 13:
            yield case(fmt=fmt, span=span, lmax=lmax, mmax=mmax, lmin=lmin,
                destripe=destripe)
    for fmt, love, frame, radius, interval, spacing in itertools.product((
            'netCDF4', 'HDF5'), (0, 2, 4), ('CF', 'CE'), (0, 400.0), (1, 2), (
            (45.0,), (45.0, 30.0))):
        yield case(fmt=fmt, love=love, frame=frame, radius=radius, lmax=3,
            interval=interval, spacing=spacing)
    for gia, mean, remove, mask, mmax in itertools.product((None, 'IJ05-R2',
            'Caron'), (None, 'ascii', 'gfc', 'HDF5'), (None, ('netCDF4',), (
            'index-ascii', 'HDF5')), (False, True), (None, 2)):
        if not mask or remove:
            yield case(gia=gia, mean=mean, remove=remove, mask=mask,
                mmax=mmax, lmax=3, prefix='p_' if mmax and gia else None)
    # the first and last months of the range are missing
    for fmt, span, mean in itertools.product(('netCDF4', 'HDF5'), ((12, 31), (
            16, 34), (10, 33)), (None, 'netCDF4')):
        yield case(fmt=fmt, span=span, mean=mean, lmax=3)


@CHECK.block('scaled', params=lambda tier: [(k, tier) for k in range(NPART)],
    timeout=900)
def scaled(rec, arg):
    """scaled maps, leakage errors and scaled error maps"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    months = [13, 14, 15, 17, 18, 19, 20, 21, 22, 24, 25, 26, 27, 28, 29, 30,
        32, 33]
    ar = Archive(tmp/'data', months)
    write_mask(tmp/'mask.nc', CODES, MLON, MLAT)
    for n, c in enumerate(itertools.islice(scale_cases(tier), part, None,
            NPART)):
        key = ':'.join(f'{v}' for v in c.values())
        rec.case(key)
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        fmt = c['fmt']
        out = tmp/f'out{n}'
        with rec.guard(key):
            lon, lat = map_grid(c['interval'], c['spacing'], None)
            lon = lon + 180
            k, e, p, bad = put_scale(tmp/f'k{n}', fmt, lon, lat)
            argv = ar.options(*c['span']) + common(c, L, M, False) + ['-O',
                out, '--scale-file', tmp/f'k{n}']
            have = prepare(tmp, ar, c, n, argv)
            cl, sl, t, ms, c0, s0 = anomalies(ar, c, have)
            d = deltas(c0, s0, t)
            fac = degree_factor(1, L, c['love'], c['frame'], c['radius'])
            fac[:1 if c['lmin'] is None else c['lmin']] = 0
            field = np.stack([k*ref.synth(cl[..., q]*fac[:, None], sl[...,
                q]*fac[:, None], lon, lat) for q in range(len(t))], axis=2)
            want = {'': field, 'ERROR_': (e*np.sqrt((field**2).sum(axis=2))*
                np.divide(1.0, p, where=p > 0, out=np.zeros_like(p)))[...,
                None], 'DELTA_': (k*error_map(d, len(t) - 12, fac, lon,
                lat))[..., None]}
            title = have['gia'][0] if c['gia'] else ''
            pre = c['prefix'] or f'CSR_RL06_GSM{title}_'
            name = {x: f'{pre}{x}cmwe_L{L}{tail_of(c, L, M)}_{ms[0]:03d}-'
                f'{ms[-1]:03d}.{SUFFIX[fmt]}' for x in want}
            for run in ('new', 'old'):
                before = prog.listing(out, ar.dir)
                err = prog.run('scale_grace_maps', *argv)
                rec.eq(prog.said(before, out, ar.dir), [], f'{key}:said')
                if not rec.eq(sorted(q.name for q in out.glob('*')), sorted(
                        name.values()), f'{key}:{run}:files ' + err[-160:]):
                    break
                for x, w in want.items():
                    date = x != 'ERROR_'
                    g, tg = load_grid(out/name[x], fmt, lon, lat, date)
                    w = np.where(bad[..., None], -9999.0, w)
                    top = abs(w[~bad]).max()
                    rec.check(g.shape == w.shape and (abs(g - w) <= (1e-7 if
                        x == 'DELTA_' else 2e-9)*top).all(), f'{key}:{run}:'
                        f'{x}', lambda: f'{np.nanmax(abs(g - w))} of {top}')
                    if x == '':
                        rec.close(tg, t, f'{key}:{run}:time', rtol=0,
                            atol=1e-6)
                    (out/name[x]).unlink()
        for q in ar.dir.glob('*DELTA*'):
            q.unlink()
    rec.sample({'scaled': part})


# ---------------------------------------------------------- ten day series
def ten_days(root, drel, numbers, start=(2002, 7, 29)):
    """archive of ten day solutions numbered from the first of them"""
    P29.CENTRES.setdefault(('CNES', drel), ('0010', 'GRGS', 'ABCD',
        f'00{drel[2:]}', '.gz', 'GRCOF2'))
    a = datetime.date(*start)
    spans = {}
    for g in numbers:
        p, q = (a + datetime.timedelta(days=10*(g - 1) + i) for i in (0, 9))
        spans[g] = (p.year, p.timetuple().tm_yday, q.year,
            q.timetuple().tm_yday)
    return Archive(root, numbers, 'CNES', drel, spans=spans)


TEN = [g for g in range(1, 46) if g not in (7, 30)]


@CHECK.block('ten days', params=lambda tier: list(itertools.product(('RL01',
    'RL02'), SUFFIX)), timeout=600)
def ten_day_errors(rec, arg):
    """the window of a year holds more ten day solutions than months"""
    drel, fmt = arg
    tmp = pathlib.Path(rec.mkdir())
    ar = ten_days(tmp/'data', drel, TEN)
    lon, lat = map_grid(2, (60.0, 45.0), None)
    for n, (span, lmax, mmax) in enumerate(itertools.product(((1, 45), (2,
            44)), (2, 3), (None, 1))):
        L, M = lmax, lmax if mmax is None else mmax
        key = f'{drel}:{fmt}:{span}:{L}:{M}'
        rec.case(key)
        with rec.guard(key):
            f, t, ms = ar.select(*span, L, M)
            cl, sl = (a - a.mean(axis=2, keepdims=True) for a in f[:2])
            d = deltas(cl, sl, t, 19)
            fac = degree_factor(1, L, 2, 'CF', 0)
            fac[0] = 0
            want = error_map(d, len(t) - 38, fac, lon, lat)
            argv = ar.options(*span) + ['-l', L, '-n', 2, '-F', fmt, '-R', 0]
            argv += ['-m', M] if mmax is not None else []
            # both programs estimate the same errors
            out = tmp/f'out{n}'
            err = prog.run('grace_spatial_error', *argv, '-O', out, '-S',
                span[0], '-E', span[1], '-U', 1, '--spacing', 60.0, 45.0,
                '--interval', 2)
            name = (f'CNES_{drel}_GSM_cmwe_L{L}{order_of(L, M)}_ERR_'
                f'{ms[0]:03d}-{ms[-1]:03d}.{SUFFIX[fmt]}')
            if not rec.eq([p.name for p in out.glob('*')], [name],
                    f'{key}:files ' + err[-160:]):
                continue
            g, _ = load_grid(out/name, fmt, lon, lat, False)
            tol = (6e-5 if fmt == 'ascii' else 0) + 1e-7*abs(want).max()
            rec.check(g.shape == want.shape + (1,) and (abs(g[..., 0] - want)
                <= tol).all(), key, lambda: f'{np.nanmax(abs(g[..., 0] - want))}'
                f' of {abs(want).max()}')
            for p in ar.dir.glob('*DELTA*'):
                p.unlink()
            if fmt == 'ascii':
                continue
            out = tmp/f'scaled{n}'
            k, _, _, bad = put_scale(tmp/f'k{n}', fmt, lon + 180, lat)
            want = np.where(bad, -9999.0, k*error_map(d, len(t) - 38, fac,
                lon + 180, lat))
            err = prog.run('scale_grace_maps', *argv, '-O', out,
                '--scale-file', tmp/f'k{n}')
            name = (f'CNES_{drel}_GSM_DELTA_cmwe_L{L}{order_of(L, M)}_'
                f'{ms[0]:03d}-{ms[-1]:03d}.{SUFFIX[fmt]}')
            if not rec.check((out/name).exists(), f'{key}:scaled files ' +
                    err[-160:], lambda: repr(list(out.glob('*')))):
                continue
            g, _ = load_grid(out/name, fmt, lon + 180, lat, True)
            rec.check(g.shape == want.shape + (1,) and (abs(g[..., 0] - want)
                <= 1e-7*abs(want[~bad]).max()).all(), key + ':scaled', lambda:
                f'{np.nanmax(abs(g[..., 0] - want))}')
            for p in ar.dir.glob('*DELTA*'):
                p.unlink()
    rec.sample({'solutions': TEN})


# ------------------------------------------------- options of the archive
FLAGS = {'C20': '--slr-c20', '21': '--slr-21', '22': '--slr-22', 'C30':
    '--slr-c30', 'C40': '--slr-c40', 'C50': '--slr-c50', 'DEG1':
    '--geocenter'}
PICKS = [{o: w} for o in P29.ORDER for w in P29.CHOICES[o]] + [{}, {'C20':
    'GSFC', '21': 'CSR', '22': 'GSFC', 'C30': 'LARES', 'C40': 'GSFC', 'C50':
    'CSR', 'DEG1': 'SLF'}, {'C20': 'CSR', '21': 'GFZ', '22': 'CSR', 'C30':
    'GFZ', 'C40': 'LARES', 'C50': 'LARES', 'DEG1': 'UCI'}, {'C20': 'GFZ', '21':
    'GSFC', 'C30': 'CSR', 'C40': 'CSR', 'C50': 'GSFC', 'DEG1': 'Tellus'}]
PROGRAMS = ('grace_mean_harmonics', 'grace_spatial_maps',
    'grace_spatial_error', 'scale_grace_maps')


@CHECK.block('options', params=lambda tier: [(p, k) for p in PROGRAMS for k
    in range(4)], timeout=900)
def options(rec, arg):
    """every choice for the low degrees reaches the fields"""
    prog_, part = arg
    tmp = pathlib.Path(rec.mkdir())
    months = list(range(170, 187))
    ar = Archive(tmp/'data', months, 'CSR', 'RL05')
    P29.Series(ar.root, 'CSR', 'RL05', mons=months)
    P29.atmosphere(ar.root)
    lon, lat = map_grid(2, (90.0,), None)
    L = 6
    cases = [(p, atm, pt, None, False) for p in PICKS for atm, pt in ((False,
        False),) + (((True, True), (True, False), (False, True)) if len(p) !=
        1 else ())]
    for who in P29.CHOICES['DEG1']:
        if who != 'SLR':
            cases += [({'DEG1': who}, False, False, 'file', False)]
        cases += [({'DEG1': who}, False, False, 'fit', True)]
    k_, e_, p_, bad = put_scale(tmp/'k', 'netCDF4', lon + 180, lat)
    for n, (pick, atm, pt, how, fit) in enumerate(cases):
        if n % 4 != part:
            continue
        key = f'{prog_}:{P29.title(pick)}:{atm}:{pt}:{how}'
        rec.case(key)
        # a series without the last months
        if how == 'fit':
            for f in (ar.root/'geocenter').glob('*'):
                f.unlink()
            P29.DEG1[pick['DEG1']][0](ar.root, 'CSR', 'RL05', [g for g in
                range(150, 200) if g not in (174, 184)])
        kw = {f'SLR_{o}': pick.get(o) for o in ('21', '22', 'C30', 'C40',
            'C50')}
        argv = ar.options(170, 186) + ['-l', L]
        for o, w in pick.items():
            argv += [FLAGS[o], w]
        argv += ['--atm-correction']*atm + ['--pole-tide']*pt
        argv += ['--interpolate-geocenter']*fit
        out = tmp/f'out{n}'
        with rec.guard(key):
            if how == 'file':
                name = P29.DEG1[pick['DEG1']][0](ar.root, 'CSR', 'RL05', [g
                    for g in range(150, 200)])[0]
                path = ar.root/'geocenter'/name
                kw['DEG1_FILE'] = tmp/f'other_{name}'
                path.replace(kw['DEG1_FILE'])
                argv += ['--geocenter-file', kw['DEG1_FILE']]
            Y = grace_input_months(ar.root, *ar.args, L, 170, 186, [],
                pick.get('C20'), pick.get('DEG1'), ATM=atm, POLE_TIDE=pt,
                MODEL_DEG1=fit, **kw)
            title = P29.title(pick) + '_wATM'*atm + '_wPT'*pt
            rec.eq(Y['title'], title, key + ':title')
            c = dict(lmax=L, mmax=None, destripe=False, mask=False)
            cl, sl, t, ms, c0, s0 = anomalies(ar, c, {}, (Y['clm'], Y['slm'],
                Y['time'], list(Y['month'])))
            fac = degree_factor(1, L, 0, 'CF', 0)
            fac[0] = 0
            grids = np.stack([ref.synth(cl[..., q]*fac[:, None], sl[...,
                q]*fac[:, None], lon, lat) for q in range(len(t))], axis=2)
            if prog_ != 'grace_mean_harmonics':
                argv += ['-O', out, '--spacing', 90]
            if prog_ == 'scale_grace_maps':
                argv += ['--scale-file', tmp/'k']
            err = prog.run(prog_, *argv)
            pre = f'CSR_RL05_GSM{title}_'
            top = abs(grids).max()
            if prog_ == 'grace_mean_harmonics':
                path = ar.dir/f'CSR_RL05_GSM_MEAN_CLM{title}_L6_170-186.nc'
                if rec.check(path.exists(), key, 'no file ' + err[-200:]):
                    with netCDF4.Dataset(path) as f:
                        lm = np.ravel(f['l'][:]), np.ravel(f['m'][:])
                        for v, w in (('clm', Y['clm']), ('slm', Y['slm'])):
                            rec.close(np.ravel(f[v][:]), np.mean(w, axis=2)[lm],
                                f'{key}:{v}', rtol=1e-11, atol=1e-24)
                    path.unlink()
            elif prog_ == 'grace_spatial_maps':
                names = [f'{pre}cmwe_L6_{g:03d}.nc' for g in ms]
                if rec.eq(sorted(q.name for q in out.glob('*')), names, key +
                        ':files ' + err[-160:]):
                    for q, name in enumerate(names):
                        g, _ = load_grid(out/name, 'netCDF4', lon, lat, True)
                        rec.check((abs(g[..., 0] - grids[..., q]) <=
                            2e-9*top).all(), f'{key}:{ms[q]}')
            else:
                want = error_map(deltas(c0, s0, t), len(t) - 12, fac, lon,
                    lat)
                rec.eq([q.name for q in ar.dir.glob('*DELTA*')], [
                    f'CSR_RL05_GSM_DELTA_CLM_L6{"_wATM"*atm}_170-186.nc'],
                    key + ':delta ' + err[-160:])
                if prog_ == 'scale_grace_maps':
                    lon_, want = lon + 180, k_*error_map(deltas(c0, s0, t),
                        len(t) - 12, fac, lon + 180, lat)
                    grids = np.stack([k_*ref.synth(cl[..., q]*fac[:, None],
                        sl[..., q]*fac[:, None], lon_, lat) for q in
                        range(len(t))], axis=2)
                    g, _ = load_grid(out/f'{pre}cmwe_L6_170-186.nc',
                        'netCDF4', lon_, lat, True)
                    rec.check((abs(g - grids) <= 2e-9*top)[~bad].all(), key)
                    name = f'{pre}DELTA_cmwe_L6_170-186.nc'
                else:
                    lon_, name = lon, f'{pre}cmwe_L6_ERR_170-186.nc'
                g, _ = load_grid(out/name, 'netCDF4', lon_, lat, prog_ ==
                    'scale_grace_maps')
                top = abs(want).max()
                rec.check((abs(g[..., 0] - want) <= 1e-7*top)[~bad | (prog_
                    != 'scale_grace_maps')].all(), key + ':error')
        for f in list(out.glob('*')) + list(ar.dir.glob('*DELTA*')):
            f.unlink()
        if how:
            for f in (ar.root/'geocenter').glob('*'):
                f.unlink()
            P29.Series(ar.root, 'CSR', 'RL05', mons=months)
    rec.sample({'options': list(arg)})


@CHECK.block('text', params=lambda tier: [0])
def text(rec, _):
    """scaled maps in the text format"""
    tmp = pathlib.Path(rec.mkdir())
    ar = Archive(tmp/'data', list(range(13, 27)))
    lon, lat = map_grid(2, (90.0,), None)
    rec.case('ascii')
    put_scale(tmp/'k', 'netCDF4', lon + 180, lat)
    g = gt.scaling_factors(fill_value=-9999.0)
    g.lon, g.lat = lon + 180, lat
    g.data, g.error, g.magnitude = np.ones((3, 2, 4))
    g.mask = np.zeros((2, 4), bool)
    g.to_ascii(tmp/'k.txt')
    err = prog.run('scale_grace_maps', *ar.options(13, 26), '-l', 3,
        '--spacing', 90, '-F', 'ascii', '--scale-file', tmp/'k.txt', '-O',
        tmp/'out')
    rec.check(len(list((tmp/'out').glob('*.txt'))) == 3, 'scaled:ascii',
        'no output ' + err[-200:])
    rec.sample({'text': 0})
