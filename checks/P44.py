"""P44: the degree one programs solve the stated balance of ocean mass"""
import itertools
import pathlib
import re
import numpy as np
import netCDF4
import mc
import ref
import prog
from checks import P26, P28, P29    # stand-in of the geoid package first
import gravity_toolkit as gt
from checks.P25 import write as write_mask
from checks.P29 import atmosphere
from checks.P39 import SUFFIX, love_of, save
from checks.P48 import Recorder, same_curve
from checks.P41 import (F, deltas, filtered, order_of, put_gia, put_mean,
    trim, values)
import hmodel

CHECK = mc.Check('P44', level='bounded_exhaustive',
    rule='distinct (program, months, truncation, corrections, ocean model, '
    'mask, solver, iteration, sea level) runs; every monthly coefficient and '
    'component written is compared with a solution of the defining sums',
    assumptions=['the expansion reaches the degree of the solution and both '
        'programs use harmonics of at least order one',
        'low degree replacements are those of their own property',
        'the destriping filter and the sea level equation are those of their '
        'own properties',
        'masks have a different number of latitudes and longitudes',
        'every draw of the error program can be read from the random numbers '
        'of numpy'])

MONTHS = [13, 14, 15, 17, 18, 19, 20, 21, 22, 24, 25, 26, 27, 28, 29, 30]
SHIFT = {'GSM': 0, 'GAD': 1000, 'GAC': 3001}


class Archive:
    """solutions and both models of a centre"""
    def __init__(self, root, months, proc='CSR', drel='RL06', dsets=SHIFT):
        self.root, self.args = pathlib.Path(root), (proc, drel)
        self.months = sorted(months)
        self.t, self.f = {}, {}
        for dset in dsets:
            d = self.root.joinpath(proc, drel, dset)
            d.mkdir(parents=True)
            names = []
            for g in self.months:
                span = P29.month_span(g)
                p = (dset,) + P29.CENTRES[proc, drel]
                name = P26.name_of(p, span)
                self.f[dset, g] = values(g + SHIFT[dset])
                P26.write(d/name, P26.head_lines(p) + P26.records(p[6],
                    *self.f[dset, g], 'degree'))
                self.t[g] = P26.dates(span)[0]
                names.append(name)
            (d/'index.txt').write_text('\n'.join(names[::-1]) + '\n')

    def options(self, lo, hi):
        a = ['-D', self.root, '-c', self.args[0], '-r', self.args[1], '-S',
            lo, '-E', hi, '-N']
        gone = [g for g in range(lo, hi + 1) if g not in self.months]
        return a + (gone or [0])

    def select(self, lo, hi, L, M, dset='GSM'):
        ms = [g for g in self.months if lo <= g <= hi]
        out = [trim(np.stack([self.f[dset, g][k] for g in ms], axis=-1), L,
            M) for k in range(4)]
        return out, np.array([self.t[g] for g in ms]), ms


class MeanArchive(Archive):
    """options of the program of means, which names the product"""
    def __init__(self, ar):
        self.__dict__ = ar.__dict__

    def options(self, lo, hi):
        return Archive.options(self, lo, hi) + ['-p', 'GSM']


# masks: codes (0 and 4 are ocean), longitudes, latitudes
def mask_of(kind):
    dx, dy = {'a': (20.0, 20.0), 'b': (24.0, 15.0), 'c': (15.0, 22.5), 'd': (
        20.0, 20.0), 'e': (30.0, 18.0)}[kind]
    lon, lat = dx*(np.arange(round(360/dx)) + 0.5), 90 - dy*(np.arange(round(
        180/dy)) + 0.5)
    if kind in 'bd':
        lat = lat[::-1]
    if kind in 'ce':
        lon = lon - 180
    x, y = np.meshgrid(lon, lat)
    z = np.sin(np.radians(x + 40)) + np.cos(np.radians(2*x - 3*y)) + 0.8*np.sin(
        np.radians(y))
    codes = np.where(z > 0.9, 1, 0)
    codes[z > 1.3], codes[z > 1.6], codes[z < -1.5] = 2, 3, 4
    return codes, lon, lat


def seasonal(t):
    """coefficients of the a priori motion"""
    par = ((1.28, 44.0, 0.15, 331.0), (0.52, 182.0, 0.56, 312.0), (3.30, 43.0,
        0.50, 75.0))
    w = 2*np.pi*t
    xyz = [a*np.sin(w + np.radians(p)) + b*np.sin(2*w + np.radians(q)) for a,
        p, b, q in par]
    x, y, z = [(v - v.mean())/(np.sqrt(3.0)*ref.Earth.R*10) for v in xyz]
    return np.array([z, x, y])


def pack(d):
    """degree one coefficients of fields (clm, slm)"""
    return np.array([d[0][1, 0], d[0][1, 1], d[1][1, 1]])


class Sphere:
    def __init__(self, kind, L, love, radius):
        codes, self.lon, self.lat = mask_of(kind)
        self.land = ((codes >= 1) & (codes <= 3)).astype(float)
        self.sea = 1 - self.land
        dl = abs(self.lon[1] - self.lon[0])
        dt = abs(self.lat[1] - self.lat[0])
        self.w = (np.sin(np.radians(90 - self.lat))*np.radians(dl)*np.radians(
            dt))[:, None]/(4*np.pi)
        self.mass = ref.unit_factor('cmwe', L, *love)
        self.fac = self.mass*(ref.gauss(radius, L) if radius else 1)
        z = np.zeros((2, 2, 2, 3))
        z[0, 1, 0, 0] = z[0, 1, 1, 1] = z[1, 1, 1, 2] = 1
        self.basis = [ref.synth(z[0, ..., k], z[1, ..., k], self.lon,
            self.lat) for k in range(3)]
        self.imat = np.array([self.project(b) for b in self.basis]).T
        self.love = love

    def project(self, f):
        return np.array([(self.w*self.sea*b*f).sum() for b in self.basis])

    def field(self, c, s, lmin):
        c, s = c*self.fac[:, None], s*self.fac[:, None]
        c[:lmin], s[:lmin] = 0, 0
        return ref.synth(c, s, self.lon, self.lat)

    def eustatic(self, f, expansion, love, finger):
        if finger:
            lon, lat = self.lon, self.lat
            h = gt.gen_stokes((f*self.land).T, lon, lat, UNITS=1, LMIN=0,
                LMAX=expansion, LOVE=love)
            sl = gt.sea_level_equation(h.clm, h.slm, lon, lat,
                self.land.T, LMAX=expansion, LOVE=love, BODY_TIDE_LOVE=0,
                FLUID_LOVE=0, ITERATIONS=3, POLAR=True, FILL_VALUE=0)
            return np.array([(self.w*sl.T*b).sum() for b in self.basis])
        ratio = -(self.w*self.land*f).sum()/(self.w*self.sea).sum()
        return ratio*self.project(np.ones_like(f))


BASE = dict(lmax=4, mmax=None, span=(13, 20), love=0, k1=0.021, radius=0,
    destripe=False, gia=None, atm=False, mean=None, model='MPIOM', fmt=None,
    iterative=False, solver='lstsq', finger=False, expansion=None, mask='a')


def case(**kw):
    d = dict(BASE)
    d.update(kw)
    return d


def key_of(c, base=BASE):
    return ':'.join(f'{k}={v}' for k, v in c.items() if base.get(k) != v) or \
        'base'


def love_numbers(c):
    e = c['expansion'] or c['lmax']
    hl, kl, ll = [np.copy(x) for x in love_of(e, c['love'], 'CF')]
    if c['k1'] is not None:
        kl[1] = c['k1']
    return hl, kl, ll


def demean(x):
    return x - x.mean(axis=-1, keepdims=True)


def problem(ar, c, have):
    """months and reduced fields of the problem"""
    L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
    (cl, sl), t, months = (lambda a: (a[0][:2], a[1], a[2]))(ar.select(
        *c['span'], L, M))
    if 'mean' in have:
        cl, sl = cl - trim(have['mean'][0], L, M)[..., None], sl - trim(have[
            'mean'][1], L, M)[..., None]
    else:
        cl, sl = demean(cl), demean(sl)
    if c['destripe']:
        cl, sl = filtered(cl, sl)
    back = np.zeros((2, L + 1, M + 1, len(t)))
    if 'gia' in have:
        for k in (0, 1):
            back[k] += trim(have['gia'][1 + k], L, M)[..., None]*(t - 2003.3)
    if c['atm']:
        for k in (0, 1):
            a = np.zeros((L + 1, M + 1, len(t)))
            for i, g in enumerate(months):
                if g >= 50:
                    a[..., i] = trim(have['atm']['GAE' if g <= 97 else 'GAF'
                        if g <= 161 else 'GAG'][k], L, M)
            back[k] += demean(a)
    return (cl, sl), back, t, months


def parts(ar, c, t, months, have):
    """dealiasing, its ocean part and the ocean model (degree one)"""
    L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
    out = {}
    for d in ('GAC', 'GAD'):
        x = [demean(v) for v in ar.select(*c['span'], L, L, d)[0][:2]]
        if d == 'GAD' and c['destripe']:
            x = filtered(*x)
        out[d] = demean(pack(x))
    if 'obp' in have:
        md = have['obp']
        at = [list(md.mo).index(g) for g in months]
        x = trim(md.c[..., at], L, M), trim(md.s[..., at], L, M)
        if c['destripe']:
            x = filtered(*x)
        out['OBP'] = demean(pack(x))
    return out


def solve(c, field, back, t, extra, noise=None):
    """solutions of the iterations and components, as mass"""
    love = love_numbers(c)
    S = Sphere(c['mask'], c['lmax'], [x[:c['lmax'] + 1] for x in love],
        c['radius'])
    k = S.mass[1]
    cl, sl = [np.array(v) for v in field]
    n = len(t)
    e = np.zeros_like(back) if noise is None else noise
    G = np.array([S.project(S.field(cl[..., i] - back[0][..., i] + e[0][...,
        i], sl[..., i] - back[1][..., i] + e[1][..., i], 2)) for i in
        range(n)]).T
    x = seasonal(t)
    out = []
    while len(out) < (15 if c['iterative'] else 1):
        cl[1, 0], cl[1, 1], sl[1, 1] = x
        E = np.array([S.eustatic(S.field(cl[..., i] - back[0][..., i] + e[0][
            ..., i], sl[..., i] - back[1][..., i] + e[1][..., i], 1), c[
            'expansion'] or c['lmax'], love, c['finger']) for i in
            range(n)]).T
        C = E + extra
        y = demean(np.linalg.solve(S.imat, C - G)/k + pack(back))
        out.append(y)
        eps = np.sqrt(((x - y)**2).sum()/(x**2).sum())
        x = y
        if eps <= 1e-6:
            break
    return out, dict(OWM=G, ESL=E), k, eps


def degree_one_cases(tier):
    solvers = ('inv', 'lstsq', 'gelsd', 'gelsy', 'gelss')
    for (lmax, mmax), radius, it, fi, mask in itertools.product(((4, None), (4,
            2), (6, None), (2, 1), (3, 3)), (0, 500), (False, True), (False,
            True), 'abcde'):
        if tier == 'thorough' or (lmax == 4 and not radius) or mask == 'abcde'[
                (lmax + it + 2*fi) % 5]:
            yield case(lmax=lmax, mmax=mmax, radius=radius, iterative=it,
                finger=fi, mask=mask)
    for solver, it, model, mmax in itertools.product(solvers, (False, True), (
            'MPIOM', 'OMCT', 'ECCO_V4r4'), (None, 2)):
        yield case(solver=solver, iterative=it, model=model, mmax=mmax,
            fmt='netCDF4' if model[0] == 'E' else None)
    for love, k1, expansion, fi in itertools.product(range(5), (None, 0.0,
            0.021, -0.5), (None, 7), (False, True)):
        if tier == 'thorough' or love == 0 or (fi and expansion):
            yield case(love=love, k1=k1, expansion=expansion, finger=fi)
    for model, fmt, mmax, destripe, span in itertools.product(('ECCO_kf080i',
            'ECCO_V5alpha'), SUFFIX, (None, 2), (False, True), ((13, 20), (15,
            30), (18, 19))):
        yield case(model=model, fmt=fmt, mmax=mmax, span=span,
            destripe=destripe, lmax=11 if destripe else 4)
    for gia, mean, atm, mmax, it, destripe in itertools.product((None,
            'IJ05-R2', 'ICE6G', 'Caron', 'netCDF4'), (None, 'ascii',
            'netCDF4', 'HDF5', 'gfc'), (False, True), (None, 2), (False,
            True), (False, True)):
        k = (gia is not None) + (mean is not None) + atm
        if k == 0 and (not destripe or it):
            continue
        if tier == 'thorough' or (k <= 1 and not it) or (k >= 2 and it and
                mmax and destripe):
            yield case(gia=gia, mean=mean, atm=atm, mmax=mmax, iterative=it,
                destripe=destripe, lmax=11 if destripe else 3,
                span=(45, 54) if atm else (14, 21))


def argv_of(tmp, c, have, n, ar):
    argv = ar.options(*c['span']) + ['-l', c['lmax'], '-n', c['love'], '-e',
        c['expansion'] or c['lmax'], '--mask', tmp/f'mask_{c["mask"]}.nc',
        '-s', c['solver']]
    argv += ['-k'] if c['k1'] is None else [f'--kl={c["k1"]}']
    if c['mmax'] is not None:
        argv += ['-m', c['mmax']]
    if c['radius']:
        argv += ['-R', c['radius']]
    if c['destripe']:
        argv += ['-d']
    if c['gia']:
        path, title, gc, gs = put_gia(tmp, c['gia'], n)
        argv += ['-G', c['gia'], '--gia-file', path]
        have['gia'] = title, gc, gs
    if c['mean']:
        path, a, b = put_mean(tmp, MeanArchive(ar), c['mean'], n)
        argv += ['--mean-file', path, '--mean-format', c['mean']]
        have['mean'] = a, b
    if c['atm']:
        argv += ['--atm-correction']
    if c['finger']:
        argv += ['--fingerprint']
    return argv


def put_model(tmp, ar, c, n):
    """monthly files of an ocean model, listed in reverse"""
    ms = [g for g in ar.months if c['span'][0] <= g <= c['span'][1]]
    ms = [ms[0] - 2] + ms + [ms[-1] + 3]
    f = [values(7000 + g*g)[:2] for g in ms]
    md = hmodel.M(np.stack([x[0] for x in f], -1), np.stack([x[1] for x in f],
        -1), np.array([ref.decimal_year(*P29.ym(g), 15.0) for g in ms]),
        np.array(ms))
    names = []
    for k in range(len(ms)):
        path = tmp/f'obp{n}_{k}.{SUFFIX[c["fmt"]]}'
        save(hmodel.M(md.c[..., k], md.s[..., k], md.t[k], md.mo[k]), path,
            c['fmt'], True)
        names.append(str(path))
    path = tmp/f'obp{n}.txt'
    path.write_text('\n'.join(names[::-1]) + '\n')
    return path, md


def read_text(rec, path, key, t, months):
    """columns of a degree one file through its reader"""
    g = gt.geocenter().from_UCI(path)
    rec.eq(list(map(int, g.month)), list(map(int, months)), key + ':months')
    rec.close(g.time, t, key + ':time', rtol=0, atol=6e-5)
    rows = np.loadtxt([l for l in path.read_text().split(
        '# End of YAML header')[1].splitlines() if l.strip()], ndmin=2)
    rec.close([g.C10, g.C11, g.S11], rows[:, 1:4].T, key + ':reader')
    return rows


def archives(rec):
    """archives with and without the steps of the atmosphere"""
    tmp = pathlib.Path(rec.mkdir())
    for k in 'abcde':
        write_mask(tmp/f'mask_{k}.nc', *mask_of(k))
    ar = Archive(tmp/'a', MONTHS)
    old = Archive(tmp/'b', list(range(13, 55)))
    steps = atmosphere(tmp/'b')
    return tmp, ar, old, steps


def close(rec, got, want, key, rtol, scale=1.0):
    """values within the rounding of the file"""
    top = abs(np.asarray(want)).max()
    rec.close(np.asarray(got)*scale, np.asarray(want)*scale, key, rtol=rtol,
        atol=(rtol*top + 1e-300)*abs(scale))


NPART = 16


@CHECK.block('degree_one', params=lambda t: [(t, i) for i in range(NPART)],
    timeout=850)
def degree_one(rec, arg):
    """monthly coefficients, iterations and components"""
    tier, part = arg
    tmp, new, old, steps = archives(rec)
    for n, c in enumerate(itertools.islice(degree_one_cases(tier), part, None,
            NPART)):
        key = key_of(c)
        rec.case(key)
        ar = old if c['atm'] or c['mean'] else new
        have = {'atm': steps}
        with rec.guard(key):
            argv = argv_of(tmp, c, have, n, ar) + ['--ocean-model', c[
                'model']]
            if c['fmt']:
                path, have['obp'] = put_model(tmp, ar, c, n)
                argv += ['--ocean-file', path, '-F', c['fmt']]
            if c['iterative']:
                argv += ['--iterative']
            out = ar.root/'geocenter'
            before = prog.listing(out)
            err = prog.run('calc_degree_one', *argv)
            rec.eq(prog.said(before, out), [], f'{key}:said')
            p, d = ar.args
            head = f'{p}_{d}_{c["model"]}' + '_SLF'*c['finger'] + \
                '_iter'*c['iterative']
            gia = have['gia'][0] if 'gia' in have else ''
            gia = '_rates' if gia is None else gia
            tail = '_FL' if c['destripe'] else ''
            want = [f'{head}{gia}{tail}.txt', f'{head}{gia}_wAOD{tail}.txt',
                f'{head}{gia}{tail}.nc']
            if not rec.eq(sorted(f.name for f in out.glob('*')), sorted(want),
                    f'{key}:files {err[-400:]}'):
                continue
            field, back, t, months = problem(ar, c, have)
            parts_ = parts(ar, c, t, months, have)
            k = ref.unit_factor('cmwe', 1, *[x[:2] for x in love_numbers(
                c)])[1]
            aod = parts_['GAD']*ref.Earth.R*ref.Earth.rho
            extra = parts_['OBP']*k - aod if 'OBP' in parts_ else 0
            runs, comp, k, eps = solve(c, field, back, t, extra)
            tol = 1e-8 if not c['iterative'] else 1e-7
            with netCDF4.Dataset(out/want[2]) as f:
                f.set_auto_mask(False)
                rec.eq(list(map(int, f['month'][:])), months, key + ':months')
                rec.close(f['time'][:], t, key + ':time', rtol=1e-14)
                got = np.array([f[v][:] for v in ('C10', 'C11', 'S11')])
                m = min(got.shape[2], len(runs))
                # the number of iterations may differ at the tolerance
                rec.check(abs(got.shape[2] - len(runs)) <= (c['iterative'] and
                    0.9e-6 < eps < 1.1e-6), key + ':iterations',
                    f'{got.shape[2]} {len(runs)}')
                for i in range(m):
                    close(rec, got[..., i], runs[i], f'{key}:iteration {i}',
                        tol, 1e9)
                show = dict(OWM=comp['OWM']/k, ESL=comp['ESL']/k,
                    AOD=parts_['GAC'], OBP=parts_.get('OBP', aod/k))
                for name, w in show.items():
                    g = np.array([f[name][v][:] for v in ('C10', 'C11',
                        'S11')])
                    close(rec, g, w, f'{key}:{name}', 1e-6 if c['iterative']
                        else tol, 1e9)
            for i, name in enumerate(want[:2]):
                rows = read_text(rec, out/name, f'{key}:{name}', t, months)
                w = got[..., -1] + i*parts_['GAC']
                rec.close(rows[:, 1:4], w.T, f'{key}:{i}:text', rtol=5.1e-7,
                    atol=1e-18)
        for f in out.glob('*'):
            f.unlink()
    rec.sample({'degree one': key})


# ------------------------------------------------------------- uncertainties
class Draws:
    """random numbers held to a table of (run, month)"""
    def __init__(self, table, calls=None):
        self.table, self.calls, self.n = np.ravel(table), calls, 0

    def __call__(self, *shape):
        k = 0 if self.calls is None else self.n*self.table.size//self.calls
        self.n += 1
        return np.full(shape, self.table[min(k, self.table.size - 1)])


def monte_cases(tier):
    for (lmax, mmax), fi, mask, runs, files in itertools.product(((4, None),
            (4, 2), (2, 1)), (False, True), 'ab', (1, 3), (0, 2)):
        if tier == 'thorough' or mask == 'ab'[(lmax + fi + files//2) % 2]:
            yield mcase(lmax=lmax, mmax=mmax, finger=fi, mask=mask, runs=runs,
                files=files)
    for solver, k1, love in itertools.product(('inv', 'lstsq', 'gelsd',
            'gelsy', 'gelss'), (None, 0.0, 0.021), (0, 3)):
        yield mcase(solver=solver, k1=k1, love=love)
    for fmt, files, radius, expansion, again in itertools.product(SUFFIX, (0,
            1), (0, 500), (None, 7), (False, True)):
        yield mcase(fmt=fmt, files=files, radius=radius, expansion=expansion,
            again=again)
    for gia, mean, atm, destripe, mmax in itertools.product((None, 'IJ05-R2',
            'Caron', 'netCDF4'), (None, 'netCDF4', 'gfc'), (False, True), (
            False, True), (None, 2)):
        k = (gia is not None) + (mean is not None) + atm + destripe
        if tier == 'thorough' or k == 1 or k == 4:
            yield mcase(gia=gia, mean=mean, atm=atm, destripe=destripe,
                mmax=mmax, lmax=11 if destripe else 3, span=(40, 54) if atm
                else (13, 30))


MBASE = dict(BASE, runs=3, files=0, again=False, span=(13, 30), fmt='netCDF4')


def mcase(**kw):
    d = dict(MBASE)
    d.update(kw)
    return d


@CHECK.block('uncertainty', params=lambda t: [(t, i) for i in range(NPART)],
    timeout=850)
def uncertainty(rec, arg):
    """mean and scatter of the solutions of perturbed months"""
    tier, part = arg
    tmp, new, old, steps = archives(rec)
    real = {k: getattr(np.random, k) for k in ('rand', 'random',
        'random_sample')}
    for n, c in enumerate(itertools.islice(monte_cases(tier), part, None,
            NPART)):
        key = key_of(c, MBASE)
        rec.case(key)
        ar = old if c['atm'] or c['mean'] else new
        have = {'atm': steps}
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        with rec.guard(key):
            argv = argv_of(tmp, c, have, n, ar) + ['--runs', c['runs'], '-F',
                c['fmt']]
            more = []
            if c['files']:
                argv += ['--error-file']
                for k in range(c['files']):
                    v = [1e-2*x for x in values(500 + k)[:2]]
                    path = tmp/f'error{n}_{k}.{SUFFIX[c["fmt"]]}'
                    save(hmodel.M(v[0], v[1], 2004.5, 30), path, c['fmt'],
                        True)
                    argv.append(path)
                    more.append([trim(x, L, M) for x in v])
            field, back, t, months = problem(ar, c, have)
            table = np.array([[0.5 + 0.5*np.cos(1.0 + 2.7*r + 1.9*i + r*i) for
                i in range(len(t))] for r in range(c['runs'])])
            table[0, :3] = 0.0, 1.0, 0.5
            out, gsm = ar.root/'geocenter', ar.root.joinpath(*ar.args, 'GSM')
            before = {f.name for f in gsm.glob('*')}
            calls = None
            try:
                for turn in range(2 + c['again']):
                    draws = Draws(table, calls)
                    for name in real:
                        setattr(np.random, name, draws)
                    there = prog.listing(out, gsm)
                    err = prog.run('monte_carlo_degree_one', *argv)
                    rec.eq(prog.said(there, out, gsm), [], f'{key}:said')
                    calls = draws.n
            finally:
                for name, f in real.items():
                    setattr(np.random, name, f)
            p, d = ar.args
            head = f'{p}_{d}_MPIOM' + '_SLF'*c['finger']
            gia = have['gia'][0] if 'gia' in have else ''
            gia = '_rates' if gia is None else gia
            tail = '_monte_carlo' + ('_FL' if c['destripe'] else '')
            want = [f'{head}{gia}{tail}.{e}' for e in ('txt', 'nc')]
            if not rec.eq(sorted(f.name for f in out.glob('*')) if
                    out.exists() else [], sorted(want),
                    f'{key}:files {err[-400:]}'):
                continue
            delta = (f'{p}_{d}_GSM_DELTA_CLM_L{L}{order_of(L, M)}' +
                '_FL'*c['destripe'] + '_wATM'*c['atm'] +
                f'_{months[0]:03d}-{months[-1]:03d}.{SUFFIX[c["fmt"]]}')
            rec.eq(sorted({f.name for f in gsm.glob('*')} - before), [delta],
                key + ':errors')
            dc, ds = deltas(*field, t)
            h = gt.harmonics().from_file(gsm/delta, format=c['fmt'])
            close(rec, trim(h.clm, L, M), dc, key + ':delta clm', 1e-6, 1e9)
            close(rec, trim(h.slm, L, M), ds, key + ':delta slm', 1e-6, 1e9)
            ys = []
            for r in range(c['runs']):
                amp = 1 - 2*table[r]
                e = np.array([dc + sum(x[0] for x in more), ds + sum(x[1] for
                    x in more)])[..., None]*amp
                (y,), _, k, _ = solve(c, field, back, t, 0, noise=e)
                ys.append(y)
            ys = np.array(ys)
            tol = 1e-6
            with netCDF4.Dataset(out/want[1]) as f:
                f.set_auto_mask(False)
                rec.eq(list(map(int, f['month'][:])), months, key + ':months')
                rec.close(f['time'][:], t, key + ':time', rtol=1e-14)
                got = np.array([f[v][:] for v in ('C10', 'C11', 'S11')])
                close(rec, got, np.moveaxis(ys, 0, -1), key + ':runs', tol,
                    1e9)
            mean = ys.mean(axis=0)
            rms = np.sqrt(((ys - mean)**2).mean(axis=0))
            rows = read_text(rec, out/want[0], key, t, months)
            close(rec, rows[:, 1:4], mean.T, key + ':mean', 2e-6, 1e9)
            close(rec, rows[:, 4:7], rms.T, key + ':rms', 1e-5, 1e9)
        for f in [*out.glob('*'), *gsm.glob('*DELTA*')]:
            f.unlink()
    rec.sample({'uncertainty': key})



# --------------------------------------------- choices for the low degrees
LOW = ('C20', '21', '22', 'C30', 'C40', 'C50')
OPTION = {'C20': '--slr-c20', '21': '--slr-21', '22': '--slr-22', 'C30':
    '--slr-c30', 'C40': '--slr-c40', 'C50': '--slr-c50'}
PICKS = [{o: w} for o in LOW for w in P29.CHOICES[o]] + [{}, {'C20': 'GSFC',
    '21': 'CSR', '22': 'GSFC', 'C30': 'LARES', 'C40': 'GSFC', 'C50': 'CSR'},
    {'C20': 'CSR', '21': 'GFZ', '22': 'CSR', 'C30': 'GFZ', 'C40': 'LARES',
    'C50': 'LARES'}, {'C20': 'GFZ', '21': 'GSFC', 'C30': 'CSR', 'C40': 'CSR',
    'C50': 'GSFC'}]


@CHECK.block('choices', params=lambda t: [(p, k) for p in ('calc_degree_one',
    'monte_carlo_degree_one') for k in range(4)], timeout=850)
def choices(rec, arg):
    """low degree replacements, pole tide and copies of the results"""
    prog_, part = arg
    tmp = pathlib.Path(rec.mkdir())
    write_mask(tmp/'mask.nc', *mask_of('a'))
    months = list(range(170, 187))
    ar = Archive(tmp/'data', months, 'CSR', 'RL05')
    P29.Series(ar.root, 'CSR', 'RL05', mons=months)
    for f in (ar.root/'geocenter').glob('*'):
        f.unlink()
    steps = P29.atmosphere(ar.root)
    one = prog_ == 'calc_degree_one'
    cases = [(p, pt, atm, copy, mmax) for p in PICKS for pt, atm, copy, mmax
        in itertools.product((False, True), (False, True), (False, True), (
        None, 3)) if (len(p) != 1 or not (pt or atm or copy)) and (one or not
        copy)]
    real = np.random.rand
    for n, (pick, pt, atm, copy, mmax) in enumerate(cases):
        if n % 4 != part:
            continue
        key = f'{prog_}:{P29.title(pick)}:{pt}:{atm}:{copy}:{mmax}'
        rec.case(key)
        c = case(lmax=6, mmax=mmax, atm=atm, span=(170, 186))
        argv = ar.options(170, 186) + ['-l', 6, '-e', 6, '--mask', tmp/
            'mask.nc']
        for o, w in pick.items():
            argv += [OPTION[o], w]
        argv += ['--atm-correction']*atm + ['--pole-tide']*pt + ['--copy'
            ]*copy + (['-m', mmax] if mmax else [])
        kw = {f'SLR_{o}': pick.get(o) for o in LOW[1:]}
        out = ar.root/'geocenter'
        with rec.guard(key):
            Y = gt.grace_input_months(ar.root, 'CSR', 'RL05', 'GSM', 6, 170,
                186, [], pick.get('C20'), None, MMAX=mmax, POLE_TIDE=pt, **kw)
            field = demean(Y['clm']), demean(Y['slm'])
            _, back, t, ms = problem(ar, c, {'atm': steps})
            names = ''.join(f'_w{pick[o]}_{o}' for o in LOW[1:] if o in pick
                and (o, pick[o]) != ('C30', 'GSFC'))
            argv += ['--ocean-model', 'OMCT'] if one else ['--runs', 1, '-F',
                'netCDF4']
            np.random.rand = Draws(np.array([0.5]))
            try:
                err = prog.run(prog_, *argv)
            finally:
                np.random.rand = real
            files = sorted(f.name for f in out.glob('*')) if out.exists() \
                else []
            pre = 'CSR_RL05_OMCT'
            if one:
                want = [pre + names + '.nc'] + [f'{pre}{names}{a}.txt' for a
                    in ('', '_wAOD')]
                dated = [f for f in files if f not in want]
                if copy:
                    link = [pre + a + '.txt' for a in ('', '_wAOD')]
                    day = [f for f in dated if f not in link]
                    rec.eq(sorted(re.sub(r'_\d{4}-\d\d-\d\d\.txt$', '.txt',
                        f) for f in day), sorted(link), key + ':dated')
                    for f in link + day:
                        src = pre + names + ('_wAOD' if '_wAOD' in f else ''
                            ) + '.txt'
                        rec.check((out/f).read_text() == (out/src).read_text(
                            ), f'{key}:copy:{f}')
                    rec.check(all(f in files for f in want + link), key +
                        ':files', f'{files} {err[-300:]}')
                else:
                    rec.eq(files, sorted(want), f'{key}:files {err[-300:]}')
            else:
                want = [f'{pre}_monte_carlo.{e}' for e in ('nc', 'txt')]
                rec.eq(files, want, f'{key}:files {err[-300:]}')
            runs, comp, k, eps = solve(c, field, back, t, 0)
            with netCDF4.Dataset(out/want[0]) as f:
                f.set_auto_mask(False)
                got = np.array([f[v][:, 0] for v in ('C10', 'C11', 'S11')])
            close(rec, got, runs[0], key, 1e-8, 1e9)
            for name in [x for x in want if x.endswith('.txt')]:
                read_text(rec, out/name, f'{key}:{name}', t, months)
        for f in [*out.glob('*'), *ar.root.joinpath('CSR', 'RL05', 'GSM'
                ).glob('*DELTA*')]:
            f.unlink()
    rec.sample({'choices': list(arg)})


# ------------------------------------------------------------------ figures
@CHECK.block('figures', params=lambda t: [(t, i) for i in range(8)],
    timeout=850)
def figures(rec, arg):
    """components, iterations and runs as drawn"""
    tier, part = arg
    tmp, new, old, steps = archives(rec)
    cases = [dict(model=m, iterative=it, gia=gia, finger=fi, destripe=ds,
        lmax=11 if ds else 4, span=span, fmt='netCDF4' if m[0] == 'E' else
        None) for m, it, gia, fi, ds, span in itertools.product(('MPIOM',
        'OMCT', 'ECCO_kf080i'), (False, True), (None, 'ICE6G', 'Caron'),
        (False, True), (False, True), ((13, 30), (17, 22), (13, 14)))]
    if tier == 'quick':
        cases = cases[::3] + cases[1::12]
    more = [mcase(runs=r, span=span, finger=fi, mask=m) for r in (1, 2, 5)
        for span in ((13, 30), (14, 29)) for fi in (False, True) for m in
        'ab']
    p, d = new.args
    out, gsm = new.root/'geocenter', new.root.joinpath(*new.args, 'GSM')
    fields = ('C10', 'C11', 'S11')

    def drawn(name, argv, ext):
        there = prog.listing(out, gsm)
        with Recorder() as R:
            err = prog.run(name, *argv, '--plot')
        rec.eq(prog.said(there, out, gsm), [], f'{key}:said')
        pdf = sorted(str(f.name) for f, _, _ in R.figures)
        rec.eq(sorted(f.name for f in out.glob('*.pdf')), pdf, key +
            f':figures {err[-400:]}')
        return {f.name: ax for f, _, ax in R.figures}, sorted(out.glob(
            f'*.{ext}'))

    def frame(axes, where, ms):
        rec.eq([a['notes'] for a in axes], [[v] for v in fields], f'{where}:'
            'names')
        if ms is not None:
            lo, hi = axes[2]['xlim']
            rec.check(lo <= ms[0] and hi >= ms[-1], f'{where}:limits',
                f'{lo} {hi}')

    for n, kw in enumerate(cases):
        if n % 8 != part:
            continue
        c = case(**kw)
        key = key_of(c)
        rec.case(key)
        have = {}
        with rec.guard(key):
            argv = argv_of(tmp, c, have, n, new) + ['--ocean-model', c[
                'model']] + ['--iterative']*c['iterative']
            if c['fmt']:
                path, have['obp'] = put_model(tmp, new, c, n)
                argv += ['--ocean-file', path, '-F', c['fmt']]
            plots, files = drawn('calc_degree_one', argv, 'nc')
            tag = f'{p}_{d}_{c["model"]}'
            want = [f for f in plots if f.startswith('Swenson_Figure_1_' +
                tag)] + [f for f in plots if f.startswith(
                'Geocenter_Iterative_' + tag)]
            if not rec.eq((len(want), len(files), len(plots)), (1 + c[
                    'iterative'], 1, 1 + c['iterative']), f'{key}:files '
                    f'{list(plots)}'):
                continue
            _, _, t, months = problem(new, c, have)
            k = ref.unit_factor('cmwe', 1, *[x[:2] for x in love_numbers(
                c)])[1]
            with netCDF4.Dataset(files[0]) as f:
                f.set_auto_mask(False)
                parts_ = parts(new, c, t, months, have)
                comp = {g: np.array([f[g][v][:] for v in fields]) for g in
                    ('OBP', 'OWM', 'ESL')}
                runs = np.array([f[v][:] for v in fields])
            aod = parts_['GAD']*ref.Earth.R*ref.Earth.rho
            ii = (t >= 2003.0) & (t < 2008.0)
            rows = ([comp['OBP']*k] if c['fmt'] else []) + [comp['OWM']*k,
                aod, comp['ESL']*k]
            axes = plots[want[0]]
            frame(axes, f'{key}:components', None)
            for i, a in enumerate(axes):
                rec.eq(len(a['lines']), len(rows), f'{key}:components:{i}')
                for j, (l, r) in enumerate(zip(a['lines'], rows)):
                    y = 10.0*(r[i] - r[i][ii].mean())
                    same_curve(rec, f'{key}:components:{i}:{j}', l, t, y,
                        1e-7*abs(y).max() + 1e-12)
                rec.eq(len({str(l[3]) for l in a['lines']}), len(rows), key +
                    ':colours')
            if c['iterative']:
                axes = plots[want[1]]
                frame(axes, f'{key}:iterations', months)
                for i, a in enumerate(axes):
                    rec.eq(len(a['lines']), runs.shape[2], f'{key}:'
                        f'iterations:{i}')
                    for j, l in enumerate(a['lines']):
                        y = 10.0*k*runs[i, :, j]
                        same_curve(rec, f'{key}:iterations:{i}:{j}', l,
                            np.array(months, float), y, 1e-7*abs(y).max())
        for f in out.glob('*'):
            f.unlink()
    real = np.random.rand
    for n, c in enumerate(more):
        if n % 8 != part:
            continue
        key = key_of(c, MBASE)
        rec.case(key)
        with rec.guard(key):
            argv = argv_of(tmp, c, {}, n, new) + ['--runs', c['runs'], '-F',
                'netCDF4']
            plots, files = drawn('monte_carlo_degree_one', argv, 'nc')
            rec.eq((len(files), [f.startswith(f'Geocenter_Monte_Carlo_{p}_{d}'
                '_MPIOM') for f in plots]), (1, [True]), f'{key}:files '
                f'{list(plots)}')
            k = ref.unit_factor('cmwe', 1, *[x[:2] for x in love_numbers(
                c)])[1]
            with netCDF4.Dataset(files[0]) as f:
                f.set_auto_mask(False)
                runs = k*np.array([f[v][:] for v in fields])
                months = np.array(f['month'][:], float)
            (axes,) = plots.values()
            frame(axes, f'{key}:runs', months)
            for i, a in enumerate(axes):
                ys = [*runs[i].T, runs[i].mean(axis=1)]
                if not rec.eq(len(a['lines']), len(ys), f'{key}:runs:{i}'):
                    continue
                for j, (l, y) in enumerate(zip(a['lines'], ys)):
                    same_curve(rec, f'{key}:runs:{i}:{j}', l, months, 10.0*y,
                        1e-6*abs(10.0*y).max())
        for f in [*out.glob('*'), *gsm.glob('*DELTA*')]:
            f.unlink()
    rec.sample({'figures': list(arg)})
