"""P52: products say truthfully how they were made"""
import itertools
import pathlib
import numpy as np
import netCDF4
import h5py
import mc
import ref
import prog
from checks import P26, P28, P29    # stand-in of the geoid package first
import gravity_toolkit as gt
from checks import P41, P44, P47
from checks.P25 import write as write_mask
from checks.P39 import SUFFIX, UNITS, save, sh
import hmodel

CHECK = mc.Check('P52', level='bounded_exhaustive',
    rule='distinct (program, options, format) runs and (container, operations) '
    'histories; every statement a product makes of its own making, and every '
    'file name a month carries, is compared with the options and files it was '
    'made from',
    assumptions=['ascii and raster products state nothing that is checked',
        'a product may leave a statement out except where it is how products '
        'of that program are told apart (smoothing, filtering, rates)'])

MODEL = {0: ('PREM', 'Han and Wahr (1995)'), 1: ('PREM',
    'Gegout et al. (2010)'), 2: ('PREM', 'Wang et al. (2012)'), 3: (
    'PREMhard', 'Wang et al. (2012)'), 4: ('PREMsoft', 'Wang et al. (2012)')}


def plain(v):
    """value of an attribute as text or a list of text"""
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, (np.ndarray, list, tuple)):
        out = [plain(x) for x in np.ravel(np.array(v, dtype=object))]
        return out[0] if len(out) == 1 else out
    if isinstance(v, (np.integer, np.floating)):
        return v.item()
    return v


def said(path, group=None):
    """statements of a file: (of the file, of its variables)"""
    if path.suffix == '.nc':
        with netCDF4.Dataset(path) as f:
            return ({k: plain(f.getncattr(k)) for k in f.ncattrs()}, {n: {k:
                plain(v.getncattr(k)) for k in v.ncattrs()} for n, v in
                f.variables.items()})
    with h5py.File(path, 'r') as f:
        return ({k: plain(v) for k, v in f.attrs.items()}, {n: {k: plain(x)
            for k, x in v.attrs.items() if k in ('units', 'long_name',
            'description', 'confidence')} for n, v in f.items()})


def listed(v):
    return [v] if isinstance(v, str) else list(v or [])


def earth(rec, key, att, love, frame):
    model, cite = MODEL[love]
    rec.eq(att.get('earth_model', model), model, key + ':earth')
    rec.eq(att.get('earth_love_numbers', cite), cite, key + ':love')
    rec.eq(att.get('reference_frame', frame), frame, key + ':frame')
    for name, want in (('earth_radius', ref.Earth.R), ('earth_density',
            ref.Earth.rho)):
        if name in att:
            rec.close(float(att[name].split()[0]), want, f'{key}:{name}',
                rtol=1e-3)


def steps(rec, key, att, c):
    """smoothing and filtering, which are stated if and only if applied"""
    rec.eq(att.get('smoothing_radius'), f'{c["radius"]:.0f} km' if c['radius']
        else None, key + ':smoothing')
    rec.eq(att.get('filtering'), 'Destriped' if c['destripe'] else None,
        key + ':filtering')


def truncation(rec, key, att, L, M):
    rec.eq(att.get('max_degree', L), L, key + ':degree')
    rec.eq(att.get('max_order', M), M, key + ':order')


def archive(rec, key, att, args, prog_name=None):
    names = ('generating_institute', 'product_release', 'product_name')
    rec.eq([att.get(n) for n in names], list(args), key + ':product')
    if prog_name:
        said_ = att.get('reference', '')
        rec.check(not said_ or prog_name in said_, key + ':program', said_)


def stems(ar, months, dset):
    """names of the solutions without their suffix"""
    p = (dset,) + P29.CENTRES[ar.args[0], ar.args[1]]
    return [P26.name_of(p, P29.month_span(g)).split('.')[0] for g in months]


def lineage(rec, key, att, want):
    got = [x.split('.gz')[0] for x in listed(att.get('lineage'))]
    rec.eq(sorted(got), sorted(want), key + ':lineage')


def rates(rec, key, att, argv, gia):
    """the file of rates is named if and only if it is used"""
    if not gia:
        return rec.check('GIA' not in att, key + ':rates', str(att.get('GIA')))
    path = argv[argv.index('--gia-file') + 1]
    rec.check(any(path.name in x for x in listed(att.get('GIA'))),
        key + ':rates', f'{att.get("GIA")} {path.name}')


def removed(tmp, c, n):
    """names of the removed files"""
    out = []
    for k, form in enumerate(c['remove'] or ()):
        s = SUFFIX[form.split('-')[-1]]
        if form.startswith('index'):
            out += sorted(p.name for p in tmp.glob(f'rem{n}_{k}_*.{s}'))
        else:
            out += [f'rem{n}_{k}.{s}']
    return out


# ---------------------------------------------------------------- map programs
def map_cases(tier):
    base = dict(fmt='netCDF4', span=(13, 17), lmax=5, mmax=None, lmin=None,
        units=1, love=0, frame='CF', radius=0, destripe=False, interval=2,
        spacing=(90.0,), bounds=None, gia=None, mean=None, remove=None,
        mask=False, prefix=None, pick=0)

    def case(**kw):
        d = dict(base)
        d.update(kw)
        return d
    for love, frame, units, fmt, mmax in itertools.product(MODEL, ('CF', 'CM',
            'CE'), range(1, 6), ('netCDF4', 'HDF5'), (None, 2)):
        if frame == 'CM' and units in (1, 3, 5):
            continue
        yield case(love=love, frame=frame, units=units, fmt=fmt, mmax=mmax)
    for radius, destripe, gia, mean, remove, fmt, mmax in itertools.product((
            0, 300, 1500.5), (False, True), (None, 'ICE6G', 'netCDF4'), (None,
            'netCDF4', 'gfc'), (None, ('netCDF4',), ('index-HDF5', 'HDF5')), (
            'netCDF4', 'HDF5'), (None, 4)):
        n = bool(radius) + destripe + (gia is not None) + (mean is not None
            ) + (remove is not None)
        if tier == 'thorough' or n <= 2 and not (destripe and n > 1 and mmax):
            yield case(radius=radius, destripe=destripe, gia=gia, mean=mean,
                remove=remove, fmt=fmt, mmax=mmax, lmax=11 if destripe else 5)
    for pick, fmt, mean in itertools.product(range(1, len(PICKS)), ('netCDF4',
            'HDF5'), (None, 'netCDF4')):
        yield case(pick=pick, fmt=fmt, mean=mean)


PICKS = [{}, {'C20': 'GSFC', '21': 'CSR', '22': 'GSFC', 'C30': 'LARES', 'C40':
    'GSFC', 'C50': 'CSR', 'DEG1': 'SLF'}, {'C20': 'CSR', '21': 'GFZ', '22':
    'CSR', 'C30': 'GFZ', 'C40': 'LARES', 'C50': 'LARES', 'DEG1': 'Tellus'},
    {'C20': 'GFZ'}, {'DEG1': 'GFZ'}, {'C30': 'GSFC'}, {'pole': 1}]


def options(pick):
    out = []
    for o, w in pick.items():
        out += ['--pole-tide'] if o == 'pole' else [P41.FLAGS[o], w]
    return out


def corrections(rec, key, att, pick, se):
    """replaced coefficients name the series and file they are from"""
    names = {o: f'SLR {o}' for o in P29.ORDER}
    names['DEG1'] = 'geocenter'
    for o, name in names.items():
        want = [se.label[o, pick[o]], se.file[o, pick[o]]] if o in pick else \
            None
        got = att.get(name)
        rec.eq(None if got is None else listed(got), want, f'{key}:{name}')
    rec.eq('pole_tide_correction' in att, 'pole' in pick, key + ':pole tide')
    rec.check('atmospheric_correction' not in att, key + ':atmosphere')


@CHECK.block('maps', params=lambda tier: [(k, tier) for k in range(16)],
    timeout=850)
def maps(rec, arg):
    """grids of the archive and of its errors"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    months = [13, 14, 15] + list(range(17, 34))
    ar = P41.Archive(tmp/'data', months)
    se = P29.Series(tmp/'data', 'CSR', 'RL06', mons=list(range(12, 40)))
    todo = ((p, c) for c in map_cases(tier) for p in ('grace_spatial_maps',
        'grace_spatial_error', 'grace_mean_harmonics'))
    for n, (program, c) in enumerate(itertools.islice(todo, part, None, 16)):
        key = f'{program}:' + ':'.join(f'{v}' for v in c.values())
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        pick = PICKS[c['pick']]
        if program != 'grace_spatial_maps':
            if c['gia'] or c['remove']:
                continue
            c['span'] = (13, 30)
        if program == 'grace_mean_harmonics' and (c['mean'] or c['radius'] or
                c['destripe'] or c['love'] or c['frame'] != 'CF' or c['units']
                != 1):
            continue
        rec.case(key)
        out = tmp/f'out{n}'
        with rec.guard(key):
            if program == 'grace_mean_harmonics':
                argv = ar.options(*c['span']) + ['-l', L, '--mean-file',
                    out/f'mean.{SUFFIX[c["fmt"]]}', '--mean-format', c['fmt']]
                argv += ['-m', M] if c['mmax'] is not None else []
            else:
                argv = ar.options(*c['span']) + P41.common(c, L, M) + ['-O',
                    out]
                P41.prepare(tmp, ar, c, n, argv)
            argv += options(pick)
            err = prog.run(program, *argv)
            files = sorted(out.glob('*')) if out.exists() else []
            used = [g for g in months if c['span'][0] <= g <= c['span'][1]]
            if not rec.check(len(files) == (len(used) if program ==
                    'grace_spatial_maps' else 1), f'{key}:files',
                    lambda: err[-900:]):
                continue
            for p in files:
                att, var = said(p)
                archive(rec, key, att, ar.args, program)
                truncation(rec, key, att, L, M)
                corrections(rec, key, att, pick, se)
                want = stems(ar, used, 'GSM')
                if c['mean']:
                    want.append(argv[argv.index('--mean-file') + 1].name)
                lineage(rec, key, att, want + removed(tmp, c, n))
                if program == 'grace_mean_harmonics':
                    continue
                earth(rec, key, att, c['love'], c['frame'])
                steps(rec, key, att, c)
                rates(rec, key, att, argv, c['gia'])
                u = gt.units.get_attributes(UNITS[c['units']])
                rec.eq([var['z'].get('units'), var['z'].get('long_name')],
                    list(u[:2]), key + ':units')
        for p in list(tmp.glob('rem*')) + list(tmp.glob('mean*')):
            p.unlink()
    rec.sample({'maps': part})


# ----------------------------------------------------------- harmonic programs
def harmonic_cases(tier):
    base = dict(program='combine_harmonics', fmt='netCDF4', nt=2, date=True,
        lmax=4, mmax=None, love=0, frame='CF', units=1, radius=0,
        destripe=False, mask=False, mean=False)

    def case(**kw):
        d = dict(base)
        d.update(kw)
        return d
    for program, love, frame, fmt, mmax, units in itertools.product((
            'combine_harmonics', 'convert_harmonics'), MODEL, ('CF', 'CM',
            'CE'), ('netCDF4', 'HDF5'), (None, 2, 0), range(1, 6)):
        if (frame == 'CM' and units in (1, 3, 5)) or (program[:3] == 'con' and (units > 3 or
                mmax == 0)):
            continue
        if tier == 'thorough' or units in (1, 2, 4) or mmax is None:
            yield case(program=program, love=love, frame=frame, fmt=fmt,
                mmax=mmax, units=units)
    for fmt, nt, radius, destripe, mask, mean in itertools.product(('netCDF4',
            'HDF5', 'index-netCDF4', 'index-HDF5', 'index-ascii'), (1, 2, 3),
            (0, 300), (False, True), (False, True), (False, True)):
        yield case(fmt=fmt, nt=nt, radius=radius, destripe=destripe,
            lmax=11 if destripe else 4, mask=mask, mean=mean)
    for program, fmt, lmax in itertools.product(('combine_harmonics',
            'convert_harmonics'), ('netCDF4', 'HDF5'), (1, 3, 6, 9)):
        yield case(program=program, fmt=fmt, lmax=lmax, nt=None, date=False)


@CHECK.block('harmonics', params=lambda tier: [(k, tier) for k in range(8)],
    timeout=850)
def harmonics(rec, arg):
    """programs between harmonics and grids"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    write_mask(tmp/'mask.nc', P41.CODES, P41.MLON, P41.MLAT)
    for n, c in enumerate(itertools.islice(harmonic_cases(tier), part, None,
            8)):
        key = ':'.join(f'{v}' for v in c.values())
        rec.case(key)
        fmt = c['fmt'].split('-')[-1]
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        with rec.guard(key):
            inp = tmp/f'in{n}.{SUFFIX[fmt]}'
            names = [inp.name]
            if c['program'] == 'convert_harmonics':
                g = gt.spatial()
                g.lon = 45.0*np.arange(8) + 22.5
                g.lat = 67.5 - 45.0*np.arange(4)
                g.data = np.cos(np.arange(32.0*(c['nt'] or 1))).reshape(4, 8,
                    -1)
                if c['date']:
                    g.time = 2003.0 + np.arange(c['nt'])/12
                    g.month = np.arange(c['nt']) + 13
                else:
                    g.data = g.data[..., 0]
                g.mask = np.zeros(g.data.shape, bool)
                g.to_file(inp, format=fmt, date=c['date'])
            else:
                md = sh(L, L, c['nt'], n)
                if c['fmt'].startswith('index'):
                    names = [f'in{n}_{k}.{SUFFIX[fmt]}' for k in range(
                        c['nt'])]
                    for k, name in enumerate(names):
                        save(hmodel.M(md.c[..., k], md.s[..., k], md.t[k],
                            md.mo[k]), tmp/name, fmt, True)
                    inp = tmp/f'index{n}.txt'
                    inp.write_text('\n'.join(str(tmp/x) for x in names[::-1])
                        + '\n')
                else:
                    save(md, inp, fmt, c['date'])
            out = tmp/f'out{n}.{"nc" if fmt == "ascii" else SUFFIX[fmt]}'
            argv = [inp, out, '-l', L, '-U', c['units'], '-n', c['love'],
                '--reference', c['frame'], '-I', 2, '-F', c['fmt'], '-S', 45]
            argv += ['-m', M] if c['mmax'] is not None else []
            argv += ['-R', c['radius']] if c['radius'] else []
            argv += ['-d'] if c['destripe'] else []
            argv += ['-D'] if c['date'] else []
            if c['mask']:
                argv += ['--redistribute-mass', '--mask', tmp/'mask.nc']
            if c['mean']:
                mean = tmp/f'mean{n}.{SUFFIX[fmt]}'
                save(sh(L, L, None, 7), mean, fmt, False)
                argv += ['--mean', mean]
            err = prog.run(c['program'], *argv)
            if not rec.check(out.exists(), key + ':file', lambda: err[-900:]):
                continue
            if fmt == 'ascii':
                continue        # an ascii grid states nothing
            att, var = said(out)
            truncation(rec, key, att, L, M)
            earth(rec, key, att, c['love'], c['frame'])
            rec.eq(sorted(listed(att.get('lineage')))[:len(names)], names,
                key + ':lineage')
            rec.check(not att.get('reference') or c['program'] in att[
                'reference'], key + ':program', str(att.get('reference')))
            for name, want in (('smoothing_radius', c['radius']), ('filtering',
                    c['destripe'])):
                rec.check(bool(want) or name not in att, f'{key}:{name}')
            if c['program'] == 'combine_harmonics':
                u = gt.units.get_attributes(UNITS[c['units']])
                rec.eq([var['z'].get('units'), var['z'].get('long_name')],
                    list(u[:2]), key + ':units')
            else:
                rec.eq({v['units'] for k, v in var.items() if k in ('clm',
                    'slm')}, {'Geodesy_Normalization'}, key + ':units')
        for p in tmp.glob(f'*{n}*.*'):
            if p.name != 'mask.nc':
                p.unlink()
    rec.sample({'harmonics': part})


# ------------------------------------------------------------------- sea level
TIDE = {0: '1981', 1: 'Farrell'}
FLUID = {0: 'Han', 1: 'Munk', 2: 'Munk', 3: 'Lambeck'}


@CHECK.block('sea_level', params=lambda tier: [(k, tier) for k in range(4)])
def sea_level(rec, arg):
    """fingerprints"""
    part, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    lon, lat, codes = P47.mask_codes(0)
    for name in ('mask.nc', 'sea.nc'):
        write_mask(tmp/name, codes, lon, lat)
    todo = itertools.product(MODEL, ('CF', 'CE'), TIDE, FLUID, (None, 1, 3), (
        False, True), ('netCDF4', 'HDF5'), (2, 3))
    todo = [x for x in todo if tier == 'thorough' or (x[0] + x[2] + x[3] + (
        x[4] or 0) + x[5] + x[7]) % 4 == part]
    for n, (love, frame, body, fl, its, polar, fmt, L) in enumerate(todo):
        if tier == 'thorough' and n % 4 != part:
            continue
        key = f'{love}:{frame}:{body}:{fl}:{its}:{polar}:{fmt}:{L}'
        rec.case(key)
        inp, out = tmp/f'in{n}.{SUFFIX[fmt]}', tmp/f'out{n}.{SUFFIX[fmt]}'
        mask = ('mask.nc', 'sea.nc')[n % 2]
        with rec.guard(key):
            save(sh(3, 3, 1, n), inp, fmt, True)
            argv = [inp, out, '-l', L, '--mask', tmp/mask, '-n', love, '-b',
                body, '-f', fl, '--reference', frame, '-F', fmt, '-D']
            argv += ['--polar-feedback'] if polar else []
            argv += ['-I', its] if its else []
            with np.errstate(all='ignore'):
                err = prog.run('run_sea_level_equation', *argv)
            if not rec.check(out.exists(), key + ':file', lambda: err[-900:]):
                continue
            att, var = said(out)
            earth(rec, key, att, love, frame)
            truncation(rec, key, att, L, L)
            rec.eq(listed(att.get('lineage')), [inp.name], key + ':lineage')
            rec.eq(att.get('land_sea_mask'), mask, key + ':mask')
            rec.eq(att.get('iterations'), its or 6, key + ':iterations')
            rec.check(TIDE[body] in att.get('earth_body_tide', ''), key +
                ':body tide', str(att))
            rec.check(FLUID[fl] in att.get('earth_fluid_love', ''), key +
                ':fluid', str(att))
            rec.eq('polar_motion_feedback' in att, polar, key + ':polar')
            rec.check('run_sea_level_equation' in att.get('reference',
                'run_sea_level_equation'), key + ':program')
            rec.eq(var['z'].get('units'), 'centimeters', key + ':units')
        for p in (inp, out):
            p.unlink(missing_ok=True)
    rec.sample({'sea level': part})


# ------------------------------------------------------------------ degree one
def one_cases(tier):
    for solver, it, fi in itertools.product(('inv', 'lstsq', 'gelsd', 'gelsy',
            'gelss'), (False, True), (False, True)):
        yield P44.mcase(solver=solver, iterative=it, finger=fi)
    for love, radius, mmax in itertools.product(MODEL, (0, 300, 1500.5), (None,
            2)):
        yield P44.mcase(love=love, radius=radius, mmax=mmax)
    for gia, mean, destripe, model in itertools.product((None, 'ICE6G',
            'netCDF4'), (None, 'netCDF4', 'gfc'), (False, True), ('MPIOM',
            'ECCO_V5alpha')):
        yield P44.mcase(gia=gia, mean=mean, destripe=destripe, model=model,
            lmax=11 if destripe else 3)


@CHECK.block('degree_one', params=lambda tier: [(k, tier) for k in range(8)],
    timeout=850)
def degree_one(rec, arg):
    """coefficients of degree one and their uncertainty"""
    part, tier = arg
    tmp, ar, _, _ = P44.archives(rec)
    todo = ((p, c) for c in one_cases(tier) for p in ('calc_degree_one',
        'monte_carlo_degree_one'))
    for n, (program, c) in enumerate(itertools.islice(todo, part, None, 8)):
        key = f'{program}:{P44.key_of(c, P44.MBASE)}'
        if program[0] == 'm' and (c['iterative'] or c['model'] != 'MPIOM'):
            continue
        c['span'] = (13, 20) if program[0] == 'c' else (13, 30)
        rec.case(key)
        out = ar.root/'geocenter'
        for p in list(out.glob('*')) + list(tmp.glob('obp*')):
            p.unlink()
        L, M = c['lmax'], c['lmax'] if c['mmax'] is None else c['mmax']
        have, obp = {'atm': None}, []
        with rec.guard(key):
            argv = P44.argv_of(tmp, c, have, n, ar)
            if program[0] == 'c':
                argv += ['--ocean-model', c['model']]
                if c['model'] != 'MPIOM':
                    path, have['obp'] = P44.put_model(tmp, ar, c, n)
                    argv += ['--ocean-file', path, '-F', c['fmt']]
                    obp = [pathlib.Path(x).name for x in
                        path.read_text().split()]
                argv += ['--iterative'] if c['iterative'] else []
            else:
                argv += ['--runs', 2, '-F', 'netCDF4']
            err = prog.run(program, *argv)
            files = [p for p in out.glob('*.nc')]
            if not rec.eq(len(files), 1, f'{key}:file {err[-300:]}'):
                continue
            att, _ = said(files[0])
            if program[0] == 'm' and 'product_name' not in att:
                continue        # states nothing
            archive(rec, key, att, ar.args + ('GSM',), program)
            truncation(rec, key, att, L, M)
            earth(rec, key, att, c['love'], 'CF')
            steps(rec, key, att, c)
            rates(rec, key, att, argv, c['gia'])
            rec.eq(att.get('solver'), c['solver'], key + ':solver')
            want = stems(ar, [g for g in ar.months if c['span'][0] <= g <= c[
                'span'][1]], 'GSM') + obp
            if c['mean']:
                want.append(argv[argv.index('--mean-file') + 1].name)
            lineage(rec, key, att, want)
            if program[0] == 'c':
                rec.eq(att.get('solution_type'), 'iterative' if c['iterative']
                    else 'single', key + ':iterations')
            rec.check(att.get('eustatic_sea_level', 'self' if c['finger'] else
                'uniform')[:4] == ('self' if c['finger'] else 'unif'), key +
                ':sea level', str(att.get('eustatic_sea_level')))
    rec.sample({'degree one': part})


# ------------------------------------------------------------ files of a month
def named(h, k):
    """file name carried by month k of a container"""
    f = h.filename
    if f is None or (isinstance(f, list) and not f):
        return None
    if isinstance(f, (list, tuple, np.ndarray)):
        return pathlib.Path(str(f[k])).name
    return pathlib.Path(str(f)).name


OPS = ('copy', 'index', 'subset', 'iterate', 'add', 'scale', 'truncate',
    'expand', 'zeros')


@CHECK.block('files', params=lambda tier: [(k, n, tier) for k in ('harmonics',
    'spatial') for n in (1, 2, 3)])
def files(rec, arg):
    """histories of containers made from files and from memory"""
    kind, n, tier = arg
    tmp = pathlib.Path(rec.mkdir())
    new = getattr(gt, kind)

    def value(g):
        return 1.0 + g
    def single(g):
        if kind == 'harmonics':
            h = new(lmax=2, mmax=2)
            h.clm, h.slm = np.full((3, 3), value(g)), np.zeros((3, 3))
        else:
            h = new()
            h.lon, h.lat = np.arange(3.0), np.arange(2.0)
            h.data, h.mask = np.full((2, 3), value(g)), np.zeros((2, 3), bool)
        h.time, h.month = ref.decimal_year(*P29.ym(g), 15), g
        return h

    def which(h):
        """months held, as told by the values"""
        a = h.clm[2, 0] if kind == 'harmonics' else h.data[0, 0]
        return [round(float(x) - 1) for x in np.atleast_1d(a)]

    def look(h, key, source):
        """every named month is from the file of that name"""
        try:
            held = which(h)
            for k, g in enumerate(held):
                name = named(h, k)
                rec.check(name in (None, source.get(g)), f'{key}:{g}',
                    f'{name} {source.get(g)}')
        except Exception as e:
            rec.fail(key, f'{type(e).__name__}: {e}')
    months = [13 + 2*k for k in range(n)]
    for order in itertools.permutations(months):
        for disk in itertools.product((False, True), repeat=n):
            for sort in (True, False):
                for via in ('list', 'index', 'netCDF4', 'HDF5'):
                    if via != 'list' and not all(disk):
                        continue
                    key = f'{kind}:{order}:{disk}:{sort}:{via}'
                    rec.case(key)
                    source, objs = {}, []
                    for g, d in zip(order, disk):
                        h = single(g)
                        if d:
                            path = tmp/f'm{g:03d}.nc'
                            h.to_file(path, format='netCDF4', date=True)
                            h = new().from_file(path, format='netCDF4')
                            source[g] = path.name
                        objs.append(h)
                    with rec.guard(key):
                        if via == 'list':
                            h = new().from_list(objs, sort=sort)
                        elif via == 'index':
                            (tmp/'i.txt').write_text('\n'.join(str(tmp/
                                source[g]) for g in order) + '\n')
                            h = new().from_index(tmp/'i.txt', sort=sort,
                                format='netCDF4')
                        else:
                            w = tmp/f'w.{SUFFIX[via]}'
                            new().from_list(objs, sort=sort).to_file(w,
                                format=via, date=True)
                            h = new().from_file(w, format=via)
                            source = {g: w.name for g in order}
                            h.expand_dims()
                            rec.eq(which(h), sorted(order) if sort else list(
                                order), key + ':held')
                        look(h, key, source)
                        if via in ('list', 'index') and all(disk):
                            rec.eq([named(h, k) for k in range(n)], [source[
                                g] for g in which(h)], key + ':names')
                        walk(rec, key, kind, h, source, look, which, 2 if
                            tier == 'quick' else 3)
    rec.sample({kind: n})


def moves(kind, h, which):
    """containers one operation away"""
    held = which(h)
    one = np.ndim(h.clm if kind == 'harmonics' else h.data) == 2
    yield 'copy', lambda: h.copy()
    if not one:
        for k in range(len(held)):
            yield f'index {k}', lambda k=k: h.index(k)
        for r in range(1, len(held) + 1):
            for s in itertools.combinations(held, r):
                yield f'subset {s}', lambda s=s: h.subset(list(s))
        yield 'iterate', lambda: [x for x in h]
    else:
        yield 'expand', lambda: h.copy().expand_dims()
    yield 'scale', lambda: h.scale(1.0)
    if kind == 'harmonics' and not one:
        yield 'truncate', lambda: h.copy().truncate(2, mmax=2)


def walk(rec, key, kind, h, source, look, which, depth):
    if depth == 0:
        return
    for name, op in moves(kind, h, which):
        at = f'{key}:{name}'
        rec.case(at)
        try:
            got = op()
        except Exception as e:
            rec.fail(at, f'{type(e).__name__}: {e}')
            continue
        for x in got if isinstance(got, list) else [got]:
            look(x, at, source)
            walk(rec, at, kind, x, source, look, which, depth - 1)
