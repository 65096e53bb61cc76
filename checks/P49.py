"""P49: every sequence of choices in the notebook widgets is consistent"""
import itertools
import os
import pathlib
import ipyw
ipyw.install()
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P49', level='bounded_exhaustive',
    rule='distinct states of the widgets reached by sequences of choices '
    '(explored breadth first to closure) and distinct sequences of dialogs',
    assumptions=['ipywidgets, IPython and tkinter are stand-ins following '
        'their documented behaviour (lib/ipyw.py): none is installed',
        'file names hold no commas; data sets with an index have files'])

STANDARD = ['RL04', 'RL05', 'RL06']
RELEASES = {'CSR': STANDARD, 'GFZ': STANDARD, 'JPL': STANDARD,
    'CNES': ['RL01', 'RL02', 'RL03', 'RL04', 'RL05']}
PRODUCTS = {'CSR': ['GAC', 'GAD', 'GSM'],
    'GFZ': ['GAA', 'GAB', 'GAC', 'GAD', 'GSM'],
    'JPL': ['GAA', 'GAB', 'GAC', 'GAD', 'GSM'],
    ('CNES', 'RL01'): ['GAC', 'GSM'],
    ('CNES', 'RL02'): ['GAA', 'GAB', 'GSM'],
    ('CNES', 'RL03'): ['GAA', 'GAB', 'GSM'],
    ('CNES', 'RL04'): ['GSM'],
    ('CNES', 'RL05'): ['GAA', 'GAB', 'GSM']}
DEGREE = {'CSR': dict.fromkeys(STANDARD, 60),
    'JPL': dict.fromkeys(STANDARD, 60),
    'GFZ': dict(RL04=90, RL05=90, RL06=60),
    'CNES': dict(RL01=50, RL02=50, RL03=80, RL04=90, RL05=90)}


def products(c, r):
    return PRODUCTS.get((c, r), PRODUCTS.get(c))


def datasets():
    return [(c, r, p) for c in RELEASES for r in RELEASES[c]
        for p in products(c, r)]


def archive(base, k):
    """different months in every data set, some of which are missing"""
    have = {}
    for i, d in enumerate(datasets()):
        # every third data set is not there (another third in archive k)
        if k < 3 and i % 3 == k:
            continue
        months = [4 + i, 5 + i, 100 + 2*i] if i % 2 else [8, 9 + i]
        have[d] = months
        p = base.joinpath(*d)
        p.mkdir(parents=True)
        with open(p/f'{d[0]}_{d[1]}_DATES.txt', 'w') as f:
            f.write('Mid-date  GRACE/GRACE-FO month\n')
            for m in months:
                y = 2002 + (m - 1)//12
                f.write(f'{2002 + (m - 0.5)/12:13.8f} {m:03d} {y:8d} 1 {y:8d}'
                    ' 28 28\n')
    return have


def view(w):
    return dict(center=w.center.value, release=w.release.value,
        product=w.product.value, releases=tuple(w.release.options),
        products=tuple(w.product.options),
        options=tuple(w.months.options), months=tuple(w.months.value),
        lmax=w.lmax.value, lmax_max=w.lmax.max, mmax=w.mmax.value,
        mmax_max=w.mmax.max, pole_tide=w.pole_tide.value, atm=w.atm.value)


def events(s, full):
    """what the user may do in a state"""
    for c in RELEASES:
        yield 'center', c
    for r in s['releases']:
        yield 'release', r
    for p in s['products']:
        yield 'product', p
    if full in ('degree', 'all'):
        for v in (10, 45, 999):
            yield 'lmax', v
        for v in (5, 999):
            yield 'mmax', v
    if full in ('flags', 'all'):
        yield 'pole_tide', not s['pole_tide']
        yield 'atm', not s['atm']
    if full in ('months', 'all') and s['options']:
        yield 'months', s['options'][:1]
        yield 'months', s['options']


def build(base, default):
    w = gt.tools.widgets(directory=str(base), defaults=list(default))
    w.select_product()
    w.select_options()
    return w


def valid(rec, s, have, key):
    """what holds in every state"""
    c, r, p = s['center'], s['release'], s['product']
    rec.check(list(s['releases']) == RELEASES[c], key + ':releases',
        lambda: repr(s))
    rec.check(r in RELEASES[c], key + ':release', lambda: repr(s))
    rec.check(list(s['products']) == list(products(c, r) or ()),
        key + ':products', lambda: repr(s))
    rec.check(p in (products(c, r) or ()), key + ':product', lambda: repr(s))
    rec.check(list(s['options']) == [f'{m:03d}' for m in have.get((c, r, p),
        [])], key + ':available months', lambda: repr(s))
    rec.check(set(s['months']) <= set(s['options']), key + ':months',
        lambda: repr(s))
    rec.check(s['lmax_max'] == DEGREE[c][r], key + ':maximum degree',
        lambda: repr(s))
    rec.check(0 <= s['lmax'] <= s['lmax_max'], key + ':degree',
        lambda: repr(s))
    rec.check(s['mmax_max'] == s['lmax'], key + ':maximum order',
        lambda: repr(s))
    rec.check(0 <= s['mmax'] <= s['lmax'], key + ':order', lambda: repr(s))


def step(rec, a, ev, b, default, key):
    """what a choice does"""
    kind, v = ev
    data = ('center', 'release', 'product')
    if kind in data:
        rec.check(b[kind] == v, key + ':chosen', lambda: f'{a} {b}')
        if a[kind] == v:
            rec.check(a == b, key + ':nothing changes', lambda: f'{a} {b}')
            return
        if kind == 'center':
            rec.check(b['release'] == RELEASES[v][-1], key + ':latest release',
                lambda: f'{a} {b}')
        else:
            rec.check(b['center'] == a['center'], key + ':center kept')
        if kind == 'product':
            rec.check(b['release'] == a['release'], key + ':release kept')
        else:
            want = default[2] if default[2] in products(b['center'],
                b['release']) else 'GSM'
            rec.check(b['product'] == want, key + ':default product',
                lambda: f'{a} {b}')
        rec.check(b['months'] == b['options'], key + ':all months',
            lambda: f'{a} {b}')
        pole = (b['release'] == 'RL05') and (b['product'] == 'GSM')
        same = (a['release'], a['product']) == (b['release'], b['product'])
        rec.check(b['pole_tide'] == pole or (same and b['pole_tide'] ==
            a['pole_tide']), key + ':pole tide', lambda: f'{a} {b}')
        rec.check(b['atm'] == (b['release'] == 'RL05') or (a['release'] ==
            b['release'] and a['atm'] == b['atm']), key + ':atm',
            lambda: f'{a} {b}')
        if (a['center'], a['release']) != (b['center'], b['release']) and \
                a['lmax_max'] != b['lmax_max']:
            rec.check(b['lmax'] == b['lmax_max'] == b['mmax'],
                key + ':full degree', lambda: f'{a} {b}')
        return
    want = dict(a)
    if kind == 'lmax':
        want['lmax'] = min(v, a['lmax_max'])
        if want['lmax'] != a['lmax']:
            want['mmax'] = want['mmax_max'] = want['lmax']
    elif kind == 'mmax':
        want['mmax'] = min(v, a['lmax'])
    else:
        want[kind] = v
    rec.check(b == want, key + ':only the choice', lambda: f'{b} {want}')


DEFAULTS = [('CSR', 'RL06', 'GSM', 60), ('CSR', 'RL05', 'GAC', 60),
    ('CSR', 'RL04', 'GAD', 60), ('GFZ', 'RL05', 'GSM', 90),
    ('GFZ', 'RL06', 'GAA', 60), ('GFZ', 'RL04', 'GAB', 90),
    ('JPL', 'RL05', 'GAD', 60), ('JPL', 'RL06', 'GAC', 60),
    ('CNES', 'RL05', 'GSM', 90), ('CNES', 'RL01', 'GAC', 50),
    ('CNES', 'RL03', 'GAB', 80), ('CNES', 'RL04', 'GSM', 90)]


def explore_params(tier):
    out = []
    for i, d in enumerate(DEFAULTS):
        out.append((i, i % 3, 'months'))
        if i in (0, 3, 9):
            out.append((i, 3, 'flags'))
        if i in (0, 3) or tier == 'thorough':
            out.append((i, 3, 'degree'))
        if tier == 'thorough':
            for k in range(3):
                out.append((i, k, 'months'))
            out.append((i, 3, 'flags'))
            if i in (0, 3, 8):
                out.append((i, 3, 'all'))
    return sorted(set(out))


@CHECK.block('explore', params=explore_params, timeout=800)
def explore(rec, par):
    i, k, full = par
    default = DEFAULTS[i]
    base = pathlib.Path(rec.mkdir())
    have = archive(base, k)
    name = f'{":".join(map(str, default))}:{k}:{full}'

    def run(path):
        w = build(base, default)
        for kind, v in path:
            getattr(w, kind).value = v
        return w
    with rec.guard(f'{name}:start'):
        s = view(run(()))
        valid(rec, s, have, f'{name}:start')
        rec.eq((s['center'], s['release'], s['product'], s['lmax']), default,
            f'{name}:defaults')
        rec.eq(s['months'], s['options'], f'{name}:default months')
        rec.eq(s['pole_tide'], s['release'] == 'RL05' and s['product'] ==
            'GSM', f'{name}:default pole tide')
        rec.eq(s['atm'], s['release'] == 'RL05', f'{name}:default atm')
        seen = {repr(s)}
        rec.case((name, repr(s)))
        todo = [((), s)]
        while todo:
            path, s = todo.pop(0)
            for ev in events(s, full):
                key = f'{name}:{[*path, ev]}'
                rec.transitions += 1
                with rec.guard(key):
                    w = run((*path, ev))
                    t = view(w)
                    valid(rec, t, have, key)
                    step(rec, s, ev, t, default, key)
                    if repr(t) not in seen:
                        seen.add(repr(t))
                        rec.case((name, repr(t)))
                        todo.append(((*path, ev), t))
            if len(rec.fails) > 40:
                break
        rec.states += len(seen)
        # every data set is reachable
        got = {(s['center'], s['release'], s['product']) for s in
            map(eval, seen)}
        rec.eq(sorted(got), sorted(datasets()), f'{name}:reachable')


@CHECK.block('replacements', params=lambda tier: range(len(DEFAULTS)))
def replacements(rec, i):
    """initial choices of the replacement products"""
    base = pathlib.Path(rec.mkdir())
    archive(base, 3)
    default = list(DEFAULTS[i])
    keep = list(default)
    for style in ({}, {'description_width': '120px'}):
        key = f'{default}:{len(style)}'
        rec.case(key)
        with rec.guard(key):
            w = gt.tools.widgets(directory=base, defaults=default,
                style=style)
            w.select_product()
            w.select_options()
            gsm = default[2] == 'GSM'
            rec.eq(w.geocenter.value, 'UCI' if gsm else '[none]', key + ':d1')
            rec.eq(w.C20.value, 'GSFC' if gsm else '[none]', key + ':c20')
            rec.eq(w.C30.value, 'GSFC' if gsm else '[none]', key + ':c30')
            for n in ('CS21', 'CS22', 'C40', 'C50'):
                rec.eq(getattr(w, n).value, '[none]', f'{key}:{n}')
            for n, o in (('geocenter', ['[none]', 'Tellus', 'SLR', 'UCI']),
                    ('C20', ['[none]', 'CSR', 'GSFC']),
                    ('CS21', ['[none]', 'CSR']), ('CS22', ['[none]', 'CSR']),
                    ('C30', ['[none]', 'CSR', 'GSFC']),
                    ('C40', ['[none]', 'CSR', 'GSFC']),
                    ('C50', ['[none]', 'CSR', 'GSFC'])):
                rec.eq(list(getattr(w, n).options), o, f'{key}:{n} options')
                # independent of each other
                for v in o:
                    getattr(w, n).value = v
                    rec.eq(getattr(w, n).value, v, f'{key}:{n} {v}')
            # the arguments stay as they were
            rec.eq(default, keep, key + ':defaults')
            w.style['x'] = 1
            rec.check('x' not in style, key + ':style')


# -- files and directories -------------------------------------------------
TYPED = ['', 'a.nc', 'a.nc,b.h5', '/data/x y.txt']
ANSWERS = [('c.nc',), ('d.txt', 'e.h5'), ()]


def file_events():
    for t in TYPED:
        yield 'type', t
    for a in ANSWERS:
        yield 'select', a


@CHECK.block('removed', params=lambda tier: [(d, i, 2 + (tier ==
    'thorough')) for d in (False, True) for i in range(len(TYPED) +
    len(ANSWERS))])
def removed(rec, par):
    """the files to remove are the files of the label"""
    display, first, depth = par
    ev = list(file_events())
    display and os.environ.__setitem__('DISPLAY', ':9')
    display or os.environ.pop('DISPLAY', None)
    for n in range(depth + 1):
        for rest in itertools.product(ev, repeat=n):
            seq = (ev[first], *rest)
            key = f'{display}:{seq}'
            rec.case(key)
            with rec.guard(key):
                w = gt.tools.widgets(directory='.')
                w.select_corrections()
                rec.check(isinstance(w.remove_file, ipyw.HBox) == display,
                    key + ':box')
                rec.eq(w.remove_files, [], key + ':start')
                files = []
                for kind, x in seq:
                    if kind == 'type':
                        w.remove_label.value = x
                        files = x.split(',') if x else []
                    else:
                        ipyw.dialogs.answers[:] = [x]
                        w.remove_button.click()
                        rec.eq(ipyw.dialogs.answers, [], key + ':asked')
                        rec.eq(ipyw.dialogs.asked[-1], ('file', True),
                            key + ':multiple')
                        files = files + list(x)
                    rec.eq(list(w.remove_files), files, key + ':files')
                    rec.eq(w.remove_label.value, ','.join(files),
                        key + ':label')


PATHS = ['/data/a', 'b/c.nc', '~/d.nc', './e', '/f/../g']


@CHECK.block('paths', params=lambda tier: list(itertools.product((False,
    True), ('directory', 'GIA', 'mask'))))
def paths(rec, par):
    display, what = par
    display and os.environ.__setitem__('DISPLAY', ':9')
    display or os.environ.pop('DISPLAY', None)
    home = rec.mkdir()
    os.environ['HOME'] = home
    here = os.getcwd()
    label, button, prop, box = dict(
        directory=('directory_label', 'directory_button', 'base_directory',
            'directory'),
        GIA=('GIA_label', 'GIA_button', 'GIA_model', 'GIA_file'),
        mask=('mask_label', 'mask_button', 'landmask', 'mask'))[what]
    for seq in itertools.product(itertools.product(('type', 'select'), PATHS),
            repeat=2):
        key = f'{display}:{what}:{seq}'
        rec.case(key)
        with rec.guard(key):
            w = gt.tools.widgets(directory=home)
            w.select_corrections()
            rec.check(isinstance(getattr(w, box), ipyw.HBox) == display,
                key + ':box')
            rec.eq(w.base_directory, pathlib.Path(home), key + ':start')
            others = ('base_directory', 'GIA_model', 'landmask')
            before = {o: getattr(w, o) for o in others}
            for kind, p in seq:
                if kind == 'type':
                    getattr(w, label).value = p
                else:
                    ipyw.dialogs.answers[:] = [p]
                    getattr(w, button).click()
                    rec.eq(ipyw.dialogs.asked[-1], ('directory' if what ==
                        'directory' else 'file', False), key + ':asked')
                q = p.replace('~', home)
                want = pathlib.Path(q if q[0] == '/' else f'{here}/{q}')
                rec.eq(getattr(w, label).value, p, key + ':label')
                rec.eq(getattr(w, prop), want, key + ':path')
                for o in others:
                    if o != prop:
                        rec.eq(getattr(w, o), before[o], f'{key}:{o}')


@CHECK.block('output')
def output(rec, par):
    """units, grids and formats mean what the programs mean by them"""
    units = ['cmwe', 'mmGH', 'mmCU', '\u03BCGal', 'mbar']
    for given in (None, units[:1], units[:3], units):
        for n in range(len(given or units)):
            key = f'units:{given}:{n}'
            rec.case(key)
            with rec.guard(key):
                w = gt.tools.widgets()
                w.select_corrections(**({} if given is None else
                    {'units': given}))
                w.select_output()
                rec.eq(w.base_directory, pathlib.Path.cwd(), key + ':cwd')
                rec.eq(list(w.units.options), given or units, key + ':options')
                rec.eq((w.units.value, w.unit_index), ('cmwe', 1),
                    key + ':start')
                w.units.value = (given or units)[n]
                # 1: cm w.e., 2: mm geoid, 3: mm uplift, 4: microGal, 5: mbar
                rec.eq(w.unit_index, n + 1, key + ':index')
                for f in ('[None]', 'netCDF4', 'HDF5'):
                    w.output_format.value = f
                    rec.eq(w.format, f, f'{key}:{f}')
                rec.eq(list(w.output_format.options), ['[None]', 'netCDF4',
                    'HDF5'], key + ':formats')
                rec.eq(list(w.remove_format.options), ['[None]', 'netCDF4',
                    'HDF5', 'index (ascii)', 'index (netCDF4)',
                    'index (HDF5)'], key + ':remove formats')
                # grids: 1 includes the poles, 2 is centred in the cells
                rec.eq(list(w.interval.options).index('(-180:180,90:-90)'), 0,
                    key + ':interval 1')
                rec.eq(list(w.interval.options).index('(Degree spacing)/2'),
                    1, key + ':interval 2')
                rec.eq((w.interval.value, w.spacing.value, w.gaussian.value,
                    w.destripe.value, w.redistribute_removed.value,
                    w.remove_format.value, w.GIA.value, w.update.value,
                    w.endpoint.value), ('(Degree spacing)/2', 1.0, 300.0,
                    True, False, '[None]', '[None]', True, 'data'),
                    key + ':defaults')
                for g in w.GIA.options:
                    w.GIA.value = g
                    rec.check(g in ('[None]', 'ascii', 'netCDF4', 'HDF5') or
                        gia_knows(g), f'{key}:GIA {g}')


def gia_knows(g):
    """model names gt.gia reads"""
    return g in ('IJ05-R2', 'W12a', 'SM09', 'ICE6G', 'Wu10', 'AW13-ICE6G',
        'AW13-IJ05', 'Caron', 'ICE6G-D')


# -- controls of the colour bars -------------------------------------------
LIMITS = [(-10, 10), (0, 5), (0, 1), (-100, 50), (3, 103), (0, 30)]


@CHECK.block('colorbar', params=lambda tier: list(itertools.product(
    range(len(LIMITS)), (None, 1, 4, 10, 25))))
def colorbar(rec, par):
    n, steps = par
    vmin, vmax = LIMITS[n]
    kw = {} if steps is None else {'steps': steps}
    span = vmax - vmin
    inner = sorted({(vmin, vmax), (vmin + span//4, vmax), (vmin, vmax -
        span//2), (vmin + span//3, vmax - span//3)})
    inner = [(a, b) for a, b in inner if a < b]
    for (a, b), st, rev, nm in itertools.product(inner, (None, 0, 1, 3,
            span), (False, True), ('viridis', 'coolwarm', 'twilight')):
        key = f'{vmin}:{vmax}:{steps}:{a}:{b}:{st}:{rev}:{nm}'
        rec.case(key)
        with rec.guard(key):
            c = gt.tools.colormap(vmin=vmin, vmax=vmax, **kw)
            rec.eq(tuple(c.range.value), (vmin, vmax), key + ':start')
            rec.eq((c.range.min, c.range.max, c.step.max), (vmin, vmax, span),
                key + ':limits')
            step = max(span//(steps or 10), 1)
            rec.eq(c.step.value, step, key + ':step')
            rec.eq((c.name.value, c.reverse.value), ('viridis', False),
                key + ':name')
            rec.check(list(c.name.options) == sorted(c.name.options),
                key + ':sorted')
            c.range.value = (a, b)
            if st is not None:
                c.step.value = st
                step = min(max(st, 1), span)
            c.reverse.value = rev
            c.name.value = nm
            lev = list(c.levels)
            rec.check(lev[0] == a and all(y - x == step for x, y in
                zip(lev, lev[1:])), key + ':levels', lambda: repr(lev))
            rec.check(b <= lev[-1] < b + step, key + ':last level',
                lambda: repr(lev))
            rec.eq(list(c.label), [str(i) for i in lev], key + ':labels')
            rec.eq((c.norm.vmin, c.norm.vmax), (a, b), key + ':norm')
            m = c.value
            rec.eq(m.name, nm + ('_r' if rev else ''), key + ':map')
            import matplotlib
            want = matplotlib.colormaps[nm]
            rec.eq(m.N, want.N, key + ':N')
            for i in (0, 1, 100, m.N - 1):
                rec.close(m(i), want(m.N - 1 - i if rev else i),
                    f'{key}:{i}', atol=1e-12)
            rec.check(m is not c.value, key + ':copies')

