"""P50: colour tables read from files are the tables of the files"""
import colorsys
import itertools
import os
import numpy as np
import matplotlib
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P50', level='bounded_exhaustive',
    rule='distinct colour tables (colour model, slices, colours at both ends, '
    'flags, layout of the file) and custom maps; every entry of the lookup '
    'table is compared with the interval of the file it falls in',
    assumptions=['slices join up and give numbers for both ends; colours of '
        'hue tables are interpolated as red, green and blue'])

RGB = [(255, 0, 0), (0, 128, 64), (12.5, 200, 255), (0, 0, 0)]
HSV = [(0, 1, 1), (120, 0.5, 0.75), (300, 0.25, 1.0), (60, 0, 0.5)]
EDGES = [(0, 1), (-10, 10), (0, 2, 10), (-3.5, -1, 0, 40), (1e-3, 5e-1, 1e1)]
FLAGS = ['', 'B', 'F', 'N', 'BF', 'BFN']
LAYOUT = ['plain', 'tabs', 'slashes', 'blank', 'comments', 'lower']


def rgb(model, c):
    if model == 'HSV':
        return colorsys.hsv_to_rgb(c[0]/360.0, c[1], c[2])
    return tuple(i/255.0 for i in c)


def text(model, edges, cols, flags, layout):
    """a colour table in the layout of the generic mapping tools"""
    name = {'lower': model.lower(), 'tabs': '+' + model}.get(layout, model)
    sep = '\t' if layout == 'tabs' else ' '
    mid = '/' if layout == 'slashes' else sep
    out = ['# table', f'# COLOR_MODEL = {name}']
    if layout == 'blank':
        out.append('')
    if layout == 'comments':
        out += ['#  z0 r g b z1 r g b', '#-----']
    for (a, b), (c, d) in zip(zip(edges, edges[1:]), cols):
        out.append(sep.join([f'{a:g}', mid.join(f'{i:g}' for i in c),
            f'{b:g}', mid.join(f'{i:g}' for i in d)]))
    for k, f in enumerate(flags):
        key = f.lower() if layout == 'lower' else f
        out.append(sep.join([key, mid.join(f'{i:g}' for i in
            (RGB if model == 'RGB' else HSV)[k])]))
    if layout == 'blank':
        out.append('   ')
    return '\n'.join(out) + '\n'


def pieces(n, cols):
    """colours at the ends of n slices: continuous and in steps"""
    for c in itertools.product(cols, repeat=n + 1):
        if n > 1 and len(set(c)) < 2:
            continue
        yield list(zip(c, c[1:]))
    for c in itertools.product(cols, repeat=n):
        yield [(i, i) for i in c]
    if n == 2:
        for c in itertools.permutations(cols, 4):
            yield [c[:2], c[2:]]


def tables(tier):
    """(model, edges, flags, layout)"""
    out = []
    for model in ('RGB', 'HSV'):
        for e in range(len(EDGES)):
            for k, (f, lay) in enumerate(itertools.product(FLAGS, LAYOUT)):
                if tier == 'thorough' or (k + e) % 5 == 0 or \
                        f in ('', 'BFN') and e in (0, 2):
                    out.append((model, e, f, lay))
    return out


def compare(rec, cmap, edges, cols, model, key):
    n = cmap.N
    x0, x1 = edges[0], edges[-1]
    pos = x0 + (x1 - x0)*np.arange(n)/(n - 1.0)
    got = np.array([cmap(i) for i in range(n)])
    rec.check(got.shape == (n, 4), key + ':shape')
    for (a, b), (c, d) in zip(zip(edges, edges[1:]), cols):
        eps = 1e-9*(x1 - x0)
        # entries at the edge of two slices may belong to either of them
        ind = np.nonzero((pos > a + eps) & (pos < b - eps))[0]
        if a == x0:
            ind = np.union1d(ind, [0])
        if b == x1:
            ind = np.union1d(ind, [n - 1])
        c, d = np.array(rgb(model, c)), np.array(rgb(model, d))
        w = ((pos[ind] - a)/(b - a))[:, None]
        rec.close(got[ind, :3], (1 - w)*c + w*d, f'{key}:{a}', rtol=0,
            atol=1e-9)
    rec.close(got[:, 3], np.ones(n), key + ':alpha')


@CHECK.block('tables', params=tables)
def read_tables(rec, par):
    model, e, flags, layout = par
    base = rec.mkdir()
    edges = EDGES[e]
    colours = RGB if model == 'RGB' else HSV
    if len(edges) > 3:
        colours = colours[:3]
    for k, cols in enumerate(pieces(len(edges) - 1, colours)):
        key = f'{model}:{edges}:{flags}:{layout}:{cols}'
        rec.case(key)
        name = f'map{k}' + ('' if k % 3 else '.v1')
        f = os.path.join(base, name + ('.cpt' if k % 2 else '.CPT'))
        with open(f, 'w') as fid:
            fid.write(text(model, edges, cols, flags, layout))
        extremes = bool(k % 4)
        kw = {} if k % 5 else {'N': (16, 101)[k % 2]}
        with rec.guard(key):
            cmap = gt.tools.from_cpt(f, **({} if extremes else
                {'use_extremes': False}), **kw)
            rec.eq(cmap.name, name, key + ':name')
            rec.eq(cmap.N, kw.get('N', 256), key + ':N')
            compare(rec, cmap, edges, cols, model, key)
            plain = matplotlib.colors.LinearSegmentedColormap(name,
                dict(red=[(0, 0, 0), (1, 1, 1)], green=[(0, 0, 0), (1, 1, 1)],
                blue=[(0, 0, 0), (1, 1, 1)]))
            for i, (fl, get) in enumerate((('B', 'under'), ('F', 'over'),
                    ('N', 'bad'))):
                got = getattr(cmap, f'get_{get}')()
                if extremes and fl in flags:
                    c = (RGB if model == 'RGB' else HSV)[flags.index(fl)]
                    want = (*rgb(model, c), 1.0)
                elif get == 'bad':
                    want = plain.get_bad()
                else:
                    want = cmap(0 if get == 'under' else cmap.N - 1)
                rec.close(np.array(got), np.array(want), f'{key}:{get}',
                    atol=1e-9)
            # the map is found by the name of its file
            reg = matplotlib.colormaps[name]
            rec.eq([reg(i) for i in (0, 100)], [cmap(i) for i in (0, 100)],
                key + ':registered')
            matplotlib.colormaps.unregister(name)


@CHECK.block('custom', params=lambda tier: ['Joughin', 'Rignot', 'Seroussi'])
def custom(rec, kind):
    # colours of the slices from their definitions
    for n, spell, cols in itertools.product((5, 6, 10, 33, 100), (str.lower,
            str.upper, str), (None, 1.0)):
        name = spell(kind)
        key = f'{name}:{n}:{cols}'
        rec.case(key)
        with rec.guard(key):
            if kind in matplotlib.colormaps:
                matplotlib.colormaps.unregister(kind)
            cmap = gt.tools.custom_colormap(n, name, **({} if cols is None
                else {'gamma': cols}))
            t = [i/(n - 1.0) for i in range(n)]
            if kind == 'Joughin':
                want = [colorsys.hsv_to_rgb(0.1 + 0.9*i, 1, 1) for i in t]
            elif kind == 'Rignot':
                want = [colorsys.hsv_to_rgb(i, min(0.1 + i, 1), 1) for i in t]
            else:
                want = []
                for i in t[::-1][1:int(0.7*n + 1e-9)]:
                    h, s, v = colorsys.rgb_to_hsv(*colorsys.hsv_to_rgb(i, 1,
                        1))
                    want.append(colorsys.hsv_to_rgb(h, min(0.1 + h, 1), v))
            m = len(want)
            compare(rec, cmap, [float(i) for i in range(m)], [tuple(
                tuple(255*j for j in c) for c in p) for p in zip(want,
                want[1:])], 'RGB', key)
            rec.eq((cmap.name, cmap.N), (kind, 256), key + ':name')
            reg = matplotlib.colormaps[kind]
            rec.eq([reg(i) for i in range(64)], [cmap(i) for i in range(64)],
                key + ':registered')
    for bad in ('', 'viridis', 'Joughin2'):
        rec.case(bad)
        rec.raises(lambda: gt.tools.custom_colormap(10, bad), 'bad:' + bad,
            ValueError)
