"""P19: Love numbers are read and transformed consistently"""
import io
import itertools
import os
import pathlib
import re
import numpy as np
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P19', level='bounded_exhaustive',
    rule='distinct (file, layout, maximum degree, frame, output format) reads '
    'and chains of frame changes',
    assumptions=['files hold the numbers of the centre of mass of the solid '
        'Earth, with a zero potential number of degree one, in order of '
        'degree and from degree two at the latest',
        'degrees below the first one of a file are not specified'])

FRAMES = ('CE', 'CM', 'CF', 'CL', 'CH')
DATA = os.path.join(os.environ['VMC_REPO'], 'gravity_toolkit', 'data')
SHIPPED = (('love_numbers', 2, ['l', 'hl', 'kl', 'll']),
    ('Load_Love2_CE.dat', 3, ['l', 'hl', 'll', 'kl']),
    ('PREM-LLNs-truncated.dat', 1, ['l', 'hl', 'll', 'kl', 'nl', 'nk']),
    ('PREMhard-LLNs-truncated.dat', 1, ['l', 'hl', 'll', 'kl', 'nl', 'nk']),
    ('PREMsoft-LLNs-truncated.dat', 1, ['l', 'hl', 'll', 'kl', 'nl', 'nk']))


def parse(name, header, columns):
    """{degree: {name: value}} of a shipped file"""
    out = {}
    for line in open(os.path.join(DATA, name)).read().splitlines()[header:]:
        v = line.replace('D', 'E').split()
        out[int(v[columns.index('l')])] = {n: float(v[columns.index(n)])
            for n in ('hl', 'kl', 'll')}
    return out


def shift(h, k, l, frame):
    """degree one numbers (in CE) in another frame"""
    a = dict(CE=0.0, CM=1.0, CF=(h + 2*l)/3, CL=l, CH=h)[frame]
    return h - a, k - a, l - a


def expect(table, L, frame):
    """dict of arrays from the numbers of the file"""
    n = np.array(sorted(table))
    out = {}
    for key in ('hl', 'kl', 'll'):
        y = np.array([table[i][key] for i in n])
        v = np.full(L + 1, np.nan)
        for l in range(n[0], L + 1):
            if l <= n[-1]:
                j = np.searchsorted(n, l)
                if n[j] == l:
                    v[l] = y[j]
                else:
                    t = (l - n[j-1])/(n[j] - n[j-1])
                    v[l] = y[j-1] + t*(y[j] - y[j-1])
            else:
                v[l] = 2*v[l-1] - v[l-2]
        out[key] = v
    if L >= 1:
        out['hl'][1], out['kl'][1], out['ll'][1] = shift(out['hl'][1],
            out['kl'][1], out['ll'][1], frame)
    return out


def same(rec, key, got, want):
    for n in ('hl', 'kl', 'll'):
        ok = np.isfinite(want[n])
        g = np.asarray(got[n])
        if rec.check(g.shape == want[n].shape, f'{key}:{n}:shape',
                str(g.shape)):
            rec.close(g[ok], want[n][ok], f'{key}:{n}', rtol=1e-10,
                atol=1e-13)


def as_dict(out, form):
    if form == 'tuple':
        return dict(zip(('hl', 'kl', 'll'), out))
    if form == 'zip':
        return dict(zip(('hl', 'kl', 'll'), np.array(list(out)).T))
    if form == 'class':
        return {n: getattr(out, n) for n in ('hl', 'kl', 'll')}
    return out


def shipped(tier):
    return [(i, tier) for i in range(len(SHIPPED))]


@CHECK.block('shipped', params=shipped)
def files(rec, arg):
    """every packaged set around the interesting degrees"""
    i, tier = arg
    name, header, columns = SHIPPED[i]
    table = parse(name, header, columns)
    end = max(table)
    degrees = [1, 2, 3, 10, 60, end - 1, end, end + 1, end + 5]
    if tier != 'quick':
        degrees += list(range(4, 100, 5)) + [end//2, end - 2, end + 2,
            end + 50]
    for L in degrees:
        for frame in FRAMES:
            want = expect(table, L, frame)
            for form in ('tuple', 'dict', 'zip', 'class'):
                if form != 'tuple' and L > 60 and end > 2000:
                    continue
                key = f'{name}:{L}:{frame}:{form}'
                rec.case(key)
                with rec.guard(key):
                    out = gt.load_love_numbers(L, LOVE_NUMBERS=i,
                        REFERENCE=frame, FORMAT=form)
                    same(rec, key, as_dict(out, form), want)
                    if form == 'class':
                        rec.check(out.reference == frame and out.lmax == L
                            and out.filename == name and len(out) == L + 1,
                            key + ':attributes', str(out))
                        rec.eq(out.l, np.arange(L + 1), key + ':degrees')
                    out = gt.read_love_numbers(os.path.join(DATA, name),
                        LMAX=L, HEADER=header, COLUMNS=columns,
                        REFERENCE=frame.lower(), FORMAT=form)
                    same(rec, key + ':direct', as_dict(out, form), want)
                    if form == 'dict':
                        rec.eq(out['l'], np.arange(L + 1), key + ':degrees')
    with rec.guard(f'{name}:all'):
        out = gt.read_love_numbers(os.path.join(DATA, name), HEADER=header,
            COLUMNS=columns)
        same(rec, f'{name}:all', as_dict(out, 'tuple'),
            expect(table, end, 'CE'))
    rec.raises(lambda: gt.load_love_numbers(4, LOVE_NUMBERS=i, REFERENCE='XX'),
        f'{name}:unknown frame')
    for bad in (-1, 5, 17):
        rec.raises(lambda: gt.load_love_numbers(4, LOVE_NUMBERS=bad),
            f'unknown set {bad}')
    rec.sample({'file': name, 'degrees': degrees, 'frames': FRAMES})


def layouts():
    """column orders, header lines and number formats"""
    for order in itertools.permutations(('hl', 'kl', 'll')):
        for extra in ((), ('nl',), ('nl', 'nk')):
            yield ['l', *order, *extra]
    yield ['hl', 'l', 'kl', 'll']
    yield ['hl', 'kl', 'll', 'l']


STYLES = ('plain', 'fortran', 'exp', 'signed')


def number(v, style):
    return {'plain': f'{v:.12f}', 'fortran': f'{v:.12E}'.replace('E', 'D'),
        'exp': f'{v:.12e}', 'signed': f'{v:+.12f}'}[style]


def text(table, columns, header, style, seps=' '):
    lines = [f'# header {i} with 12.5 numbers' for i in range(header)]
    for l in sorted(table):
        row = []
        for c in columns:
            if c == 'l':
                row.append(f'{l:6d}')
            else:
                row.append(number(table[l].get(c, 7.25 + l), style))
        lines.append('  '.join(row))
    return '\n'.join(lines) + '\n'


def table_for(degrees):
    return {l: dict(hl=-0.13 - 0.1*l + 0.01*l*l, ll=0.003*l**3 + 0.1*l - 0.05,
        kl=0.0 if l == 1 else -0.3/(l + 1)) for l in degrees}


def patterns(tier):
    """every set of degrees up to 6 (7) that starts at 0 or 1 and has 1, 2"""
    top = 6 if tier == 'quick' else 8
    out = []
    for r in range(0, top - 1):
        for extra in itertools.combinations(range(3, top + 1), r):
            out.append((1, 2) + extra)
            out.append((0, 1, 2) + extra)
    return [(tier, out[i::8]) for i in range(8)]


@CHECK.block('generated', params=patterns)
def generated(rec, arg):
    tier, lst = arg
    d = rec.mkdir()
    lay = list(layouts())
    for n, degrees in enumerate(lst):
        t = table_for(degrees)
        combos = [(c, h, s) for c in lay for h in (0, 1, 3) for s in STYLES]
        if tier == 'quick':
            combos = combos[n % 3::3]
        for columns, header, style in combos:
            body = text(t, columns, header, style)
            path = os.path.join(d, 'f.dat')
            with open(path, 'w') as f:
                f.write(body)
            # what the file says
            rt = {l: {k: float(number(v, style).replace('D', 'E'))
                for k, v in row.items()} for l, row in t.items()}
            for L in list(range(1, max(degrees) + 4)) + [None]:
                LL = max(degrees) if L is None else L
                frames = FRAMES if style == 'plain' else FRAMES[:2]
                for k, frame in enumerate(frames):
                    key = f'{degrees}:{columns}:{header}:{style}:{L}:{frame}'
                    rec.case(key)
                    want = expect(rt, LL, frame)
                    src = (path, pathlib.Path(path),
                        io.BytesIO(body.encode()))[(k + LL) % 3]
                    with rec.guard(key):
                        out = gt.read_love_numbers(src, LMAX=L, HEADER=header,
                            COLUMNS=columns, REFERENCE=frame)
                        same(rec, key, as_dict(out, 'tuple'), want)
    # degree zero only
    with rec.guard('zero'):
        t = table_for((0, 1, 2, 3))
        body = text(t, ['l', 'hl', 'kl', 'll'], 2, 'plain')
        out = gt.read_love_numbers(io.BytesIO(body.encode()), LMAX=0)
        same(rec, 'zero', as_dict(out, 'tuple'), expect(t, 0, 'CE'))
    rec.raises(lambda: gt.read_love_numbers(os.path.join(d, 'missing')),
        'missing file')
    rec.raises(lambda: gt.read_love_numbers(5), 'not a file')
    rec.sample({'degrees': degrees, 'columns': columns, 'style': style})


@CHECK.block('infinite')
def infinite(rec, _):
    """a last line of infinite degree"""
    t = table_for((1, 2, 3, 5, 100000))
    for cols in (['l', 'hl', 'kl', 'll'], ['l', 'hl', 'll', 'kl']):
        body = re.sub(r'(?m)^100000\b', 'inf',
            text(t, cols, 1, 'plain'))
        rt = {l: {k: float(f'{v:.12f}') for k, v in row.items()}
            for l, row in t.items()}
        for L in (2, 3, 4, 5):
            for frame in FRAMES:
                rec.case((cols, L, frame))
                key = f'{cols}:{L}:{frame}'
                with rec.guard(key):
                    out = gt.read_love_numbers(io.BytesIO(body.encode()),
                        LMAX=L, HEADER=1, COLUMNS=cols, REFERENCE=frame)
                    same(rec, key, as_dict(out, 'tuple'),
                        expect(rt, L, frame))
        with rec.guard('all'):
            out = gt.read_love_numbers(io.BytesIO(body.encode()), HEADER=1,
                COLUMNS=cols)
            rec.check(len(out[0]) == 100001, f'{cols}:length')
            for j, n in enumerate(('hl', 'kl', 'll')):
                rec.close(out[j][[1, 2, 3, 5, 100000]], [rt[l][n] for l in
                    (1, 2, 3, 5, 100000)], f'{cols}:{n}', rtol=1e-10)


@CHECK.block('frames', params=lambda t: [3] if t == 'quick' else [5])
def frames(rec, depth):
    """every chain of frame changes"""
    sets = [gt.load_love_numbers(6, LOVE_NUMBERS=i, REFERENCE='CE',
        FORMAT='tuple') for i in range(5)]
    sets.append(tuple(np.array(v) for v in ([0, -0.3, -1, -1.1],
        [0, 0, -0.3, -0.2], [0, 0.1, 0.02, 0.07])))
    for i, base in enumerate(sets):
        for start in FRAMES:
            for n in range(1, depth + 1):
                for chain in itertools.product(FRAMES, repeat=n):
                    key = f'{i}:{start}:{"-".join(chain)}'
                    rec.case(key)
                    h, k, l = (v.copy() for v in base)
                    h[1], k[1], l[1] = shift(h[1], k[1], l[1], start)
                    with rec.guard(key):
                        x = gt.love_numbers().from_dict(dict(hl=h, kl=k, ll=l))
                        for c in chain:
                            y = x.transform(c)
                            rec.check(y.reference == c, key + ':reference')
                            x = y
                        want = dict(hl=base[0].copy(), kl=base[1].copy(),
                            ll=base[2].copy())
                        want['hl'][1], want['kl'][1], want['ll'][1] = shift(
                            base[0][1], base[1][1], base[2][1], chain[-1])
                        same(rec, key, x.to_dict(), want)
                        same(rec, key + ':tuple', as_dict(x.to_tuple(),
                            'tuple'), want)
                        same(rec, key + ':iter', as_dict(tuple(x), 'tuple'),
                            want)
        x = gt.love_numbers().from_dict(dict(hl=base[0].copy(),
            kl=base[1].copy(), ll=base[2].copy()))
        rec.raises(lambda: x.transform('XX'), f'{i}:unknown frame')
    rec.sample({'chain': chain, 'start': start})
