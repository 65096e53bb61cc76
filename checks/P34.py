"""P34: mascon gridding and averaging preserve mascon values"""
import itertools
import math
import warnings
from fractions import Fraction as F
import numpy as np
import mc
import gravity_toolkit.mascons as M

CHECK = mc.Check('P34', level='bounded_exhaustive',
    rule='distinct (mascon layout, missing mascons, grid, value) conversions',
    assumptions=['mascons are latitude-longitude cells, closed at the '
        'southern and western edge, at most 180 degrees wide except for '
        'polar caps', 'grid cells outside of all mascons are zero',
        'mascons without grid points have no average'])

BANDS = [(-90, -60, 0, 60, 90), (-90, -45, 45, 90), (-90, -80, -10, 10, 80,
    90), (-90, -30, 30, 90), (-90, -75, -60, -45, -30, -15, 0, 15, 30, 45, 60,
    75, 90)]
CELLS = (2, 3, 4, 6, 12, 36)


class Mascon:
    """one cell: bounds in latitude, western edge and width"""
    def __init__(self, south, north, west, width, cap=False):
        self.south, self.north = F(south), F(north)
        self.west, self.width, self.cap = F(west), F(width), cap

    def has(self, lat, lon):
        return self.south <= lat < self.north and (lon - self.west) % 360 < \
            self.width


def layouts(tier, caps):
    """cells of every band, with every shift of their edges"""
    for bands in BANDS[:4 if tier == 'quick' else 5]:
        for n, shift in itertools.product(CELLS, (F(0), F(1, 2), F(1, 4),
                F(1, 3))):
            width = F(360, n)
            if (shift*width).denominator > 4:
                continue
            out = []
            for i, (a, b) in enumerate(zip(bands, bands[1:])):
                if caps and i in (0, len(bands) - 2):
                    out.append(Mascon(a if i else a - (b - a), b if not i else
                        b + (b - a), 0, 360, True))
                    continue
                # fewer cells in the first band
                m = max(2, n//2) if i == 0 else n
                w = F(360, m)
                for j in range(m):
                    out.append(Mascon(a, b, (j + shift)*w, w))
            yield f'{bands}:{n}:{shift}', out


def arrays(mascons, west):
    """centers and spans with longitudes from -180 or from 0"""
    lon = []
    for m in mascons:
        c = F(0) if m.cap else m.west + m.width/2
        c = c % 360
        if west and c > 180:
            c -= 360
        if west == 2 and c == 180:
            c = F(-180)
        lon.append(float(c))
    lat = [90.0*(1 if m.south > 0 else -1) if m.cap else float((m.south +
        m.north)/2) for m in mascons]
    dlon = [float(m.width) for m in mascons]
    dlat = [float((m.north - m.south)/(2 if m.cap else 1)) for m in mascons]
    return [np.array(x) for x in (lon, lat, dlon, dlat)]


def bounds(mascons):
    """corner longitudes and latitudes of cells from 0 to 360"""
    lon = np.array([[float(x) for x in (m.west, m.west, m.west + m.width,
        m.west + m.width)] for m in mascons])
    lat = np.array([[float(x) for x in (m.north, m.south, m.south, m.north)]
        for m in mascons])
    return lon, lat


def kept(rec, key, before, after):
    rec.check(all(a.shape == b.shape and (a == b).all() for a, b in
        zip(before, after)), key + ':inputs kept')


def subsets(n):
    """all cells, single ones and all but one"""
    yield tuple(range(n))
    for k in {0, 1, n//2, n - 2, n - 1}:
        yield (k,)
        yield tuple(j for j in range(n) if j != k)
    yield tuple(range(n))[::-1]
    yield tuple(range(0, n, 2))


SPACING = {'quick': (F(30), F(15), F(10), F(5)), 'thorough': (F(30), F(15),
    F(10), F(5), F(5, 2), F(1))}


@CHECK.block('to grids', params=lambda tier: [(k, s, tier) for k in ('gsfc',
    'jpl') for s in SPACING[tier]], timeout=800)
def to_grids(rec, arg):
    """every cell of a grid has the value of its mascon"""
    kind, d, tier = arg
    nlat, nlon = int(F(180)/d), int(F(360)/d)
    if kind == 'gsfc':
        lats = [90 - d/2 - i*d for i in range(nlat)]
        lons = [-180 + d/2 + j*d for j in range(nlon)]
    else:
        lats = [-90 + d/2 + i*d for i in range(nlat)]
        lons = [d/2 + j*d for j in range(nlon)]
    for name, cells in layouts(tier, kind == 'gsfc'):
        if kind == 'jpl':
            cells = [m for m in cells if m.west + m.width <= 360]
        which = np.full((nlat, nlon), -1)
        for k, m in enumerate(cells):
            i = [i for i, x in enumerate(lats) if m.south <= x < m.north]
            j = [j for j, x in enumerate(lons) if (x - m.west) % 360 <
                m.width]
            which[np.ix_(i, j)] = k
        for sel in subsets(len(cells)):
            for west, scale in itertools.product((0, 1, 2) if kind == 'gsfc'
                    else (0,), (1.0, -2.5e-9)):
                val = np.array([scale*(k + 1.5) for k in sel])
                inv = {k: v for k, v in zip(sel, val)}
                want = np.array([[inv.get(k, 0.0) for k in row] for row in
                    which])
                if kind == 'gsfc':
                    geo = arrays([cells[k] for k in sel], west)
                else:
                    geo = list(bounds([cells[k] for k in sel]))
                for transpose in (None, False, True):
                    if transpose is False and west:
                        continue
                    key = f'{name}:{sel[:3]}{len(sel)}:{west}:{scale}:' \
                        f'{transpose}'
                    rec.case(key)
                    kw = {} if transpose is None else dict(transpose=transpose)
                    mine = [g.copy() for g in geo]
                    v = val.copy()
                    with rec.guard(key):
                        fn = M.from_gsfc if kind == 'gsfc' else M.from_jpl
                        got = fn(v, float(d), *mine, **kw)
                        rec.check(got.shape == (want.T if transpose else
                            want).shape and (got == (want.T if transpose else
                            want)).all(), key, lambda: f'{got.shape} '
                            f'{(got != want).sum() if got.shape == want.shape else ""}')
                        kept(rec, key, geo + [val], mine + [v])
                if len(sel) == len(cells) and sel[0] == 0:
                    key = f'{name}:{west}:{scale}:back'
                    rec.case(key)
                    if set(which.ravel()) >= set(sel):
                        with rec.guard(key):
                            back(rec, key, kind, want, lats, lons, geo, val)
    rec.sample({'kind': kind, 'spacing': float(d)})


def back(rec, key, kind, grid, lats, lons, geo, val):
    """the averages of a gridded mascon field are the mascons"""
    lat, lon = (np.array([float(x) for x in c]) for c in (lats, lons))
    fn = M.to_gsfc if kind == 'gsfc' else M.to_jpl
    got = fn(grid, lon, lat, *[g.copy() for g in geo])
    rec.close(got['data'], val, key, rtol=1e-12, atol=1e-300)
    if kind == 'jpl':
        rec.check(not got['mask'].any(), key + ':mask')


def grids(d, tier):
    """cell centers and nodes, from -180 or 0, in either direction"""
    n = int(F(360)/d)
    for first, half, flip in itertools.product((-180, 0), (True, False),
            (False, True)):
        off = d/2 if half else F(0)
        lats = [-90 + off + i*d for i in range(n//2 + (not half))]
        lons = [first + off + j*d for j in range(n)]
        if flip:
            lats = lats[::-1]
        yield f'{first}:{half}:{flip}', lats, lons
    # regional grids
    yield 'north', [F(x) for x in range(31, 90, 6)], [F(x) for x in
        range(-170, -20, 7)]
    yield 'south', [F(x) for x in range(-83, -50, 4)], [F(x) for x in range(3,
        170, 9)]
    if d == 30:
        # next to every edge of the layouts
        e = F(1, 8)
        lats = {x for b in BANDS for x in b}
        lons = {(m.west + q*m.width + 180) % 360 - 180 for _, c in layouts(
            'quick', False) for m in c for q in (0, 1)}
        for w in (0, 180):
            yield f'edges{w}', sorted({F(x + k) for x in lats for k in (-e, 0,
                e) if abs(x + k) <= 90}), sorted({(x + k + w) % 360 - w for x
                in lons for k in ((-e, 0, e) if x.denominator != 3 else (-e,
                e))})


@CHECK.block('averages', params=lambda tier: [(k, s, tier) for k in ('gsfc',
    'jpl') for s in SPACING[tier]], timeout=800)
def averages(rec, arg):
    """averages of fields weighted with the area of each grid cell"""
    kind, d, tier = arg
    warnings.simplefilter('ignore')
    for what, lats, lons in grids(d, tier):
        lat, lon = (np.array([float(x) for x in c]) for c in (lats, lons))
        if kind == 'jpl' and min(lons) < 0:
            continue
        i, j = np.indices((len(lat), len(lon)))
        fields = [3e-3*i*i - 0.1*i*j + j*0.7 + 2, np.cos(1.7*i + 0.3*j*j),
            np.ones(i.shape), (i + j) % 2 - 0.5]
        for name, cells in layouts(tier, kind == 'gsfc'):
            if kind == 'jpl':
                cells = [m for m in cells if m.west + m.width <= 360]
            points = []
            for m in cells:
                p = [i for i, x in enumerate(lats) if m.south <= x < m.north]
                q = [j for j, x in enumerate(lons) if (x - m.west) % 360 <
                    m.width]
                points.append((p, q))
            for west in ((0, 1, 2) if kind == 'gsfc' else (0,)):
                geo = arrays(cells, west) if kind == 'gsfc' else list(bounds(
                    cells))
                for f, column in itertools.product(range(len(fields)), (False,
                        True)):
                    if column and f:
                        continue
                    key = f'{what}:{name}:{west}:{f}:{column}'
                    rec.case(key)
                    g = fields[f].copy()
                    a = (lon[:, None], lat[:, None]) if column else (lon, lat)
                    a = [x.copy() for x in a]
                    mine = [x.copy() for x in geo]
                    with rec.guard(key):
                        fn = M.to_gsfc if kind == 'gsfc' else M.to_jpl
                        got = fn(g, *a, *mine)
                        kept(rec, key, [fields[f], lon.reshape(a[0].shape),
                            lat.reshape(a[1].shape)] + geo, [g] + a + mine)
                        bad = []
                        for k, (p, q) in enumerate(points):
                            if not p or not q:
                                if kind == 'jpl' and (got['data'][k] != 0 or
                                        not got['mask'][k]):
                                    bad.append(k)
                                continue
                            w = np.cos(np.radians(lat[p]))
                            if w.sum() < 1e-12:
                                continue
                            want = (w[:, None]*fields[f][np.ix_(p, q)]).sum()/\
                                w.sum()/len(q)
                            top = abs(fields[f][np.ix_(p, q)]).max()
                            if not abs(got['data'][k] - want) <= 1e-11*top:
                                bad.append((k, got['data'][k], want))
                            if kind == 'jpl' and got['mask'][k]:
                                bad.append((k, 'mask'))
                        rec.check(not bad, key, lambda: str(bad[:3]))
                        centers(rec, key, kind, cells, geo, got)
    rec.sample({'kind': kind, 'spacing': float(d)})


def centers(rec, key, kind, cells, geo, got):
    """centers of the mascons"""
    if kind == 'gsfc':
        rec.check((got['lat_center'] == geo[1]).all() and (abs((got[
            'lon_center'] - geo[0] + 180) % 360 - 180) < 1e-12).all() and
            (got['lon_center'] <= 180).all(), key + ':centers')
        return
    for k, m in enumerate(cells):
        if m.north == 90 or m.south == -90:
            want = (0.0, 90.0 if m.north == 90 else -90.0)
        else:
            want = (float(m.west + m.width/2), float((m.north + m.south)/2))
        if not max(abs(got['lon'][k] - want[0]), abs(got['lat'][k] -
                want[1])) < 1e-11:
            rec.fail(f'{key}:center {k}', f'{got["lon"][k]} {got["lat"][k]} '
                f'{want}')
            return


@CHECK.block('points', params=lambda tier: [(k, tier) for k in ('gsfc',
    'jpl')], timeout=800)
def points(rec, arg):
    """single grid cells count for one mascon only, with their area"""
    kind, tier = arg
    warnings.simplefilter('ignore')
    d = F(30) if tier == 'quick' else F(15)
    for what, lats, lons in grids(d, tier):
        if what in ('north', 'south', 'edges0', 'edges180') or kind == 'jpl' and min(lons) < 0:
            continue
        lat, lon = (np.array([float(x) for x in c]) for c in (lats, lons))
        for name, cells in layouts('quick', kind == 'gsfc'):
            if kind == 'jpl':
                cells = [m for m in cells if m.west + m.width <= 360]
            if len(cells) > 30 and tier == 'quick':
                continue
            geo = arrays(cells, 0) if kind == 'gsfc' else list(bounds(cells))
            fn = M.to_gsfc if kind == 'gsfc' else M.to_jpl
            for i, j in itertools.product(range(len(lat)), range(len(lon))):
                key = f'{what}:{name}:{i}:{j}'
                rec.case(key)
                g = np.zeros((len(lat), len(lon)))
                g[i, j] = 1.0
                with rec.guard(key):
                    got = fn(g, lon, lat, *[x.copy() for x in geo])['data']
                    hit = [k for k in range(len(cells)) if abs(got[k]) >
                        1e-15]
                    want = [k for k, m in enumerate(cells) if m.has(lats[i],
                        lons[j])]
                    if abs(lats[i]) == 90:
                        # without area
                        rec.check(set(hit) <= set(want), key, f'{hit} {want}')
                    else:
                        rec.check(hit == want, key, f'{hit} {want}')
    rec.sample({'kind': kind})


@CHECK.block('options', params=lambda tier: ['all'])
def options(rec, arg):
    """number types and earlier option names"""
    for name, cells in layouts('quick', True):
        geo = arrays(cells, 0)
        val = np.arange(len(cells)) + 1
        base = M.from_gsfc(val.astype(float), 10.0, *[g.copy() for g in geo])
        rec.case(name)
        for what, run in (('int values', lambda: M.from_gsfc(val, 10, *[
                g.copy() for g in geo])), ('column', lambda: M.from_gsfc(
                val[:, None], 10.0, *[g.copy() for g in geo])), ('single',
                lambda: M.from_gsfc(val.astype(np.float32), 10.0, *[g.copy()
                for g in geo])), ('old name', lambda: M.from_gsfc(val, 10.0,
                *[g.copy() for g in geo], TRANSPOSE=True).T)):
            with rec.guard(f'{name}:{what}'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = run()
                rec.check(got.shape == base.shape and (got == base).all(),
                    f'{name}:{what}')
    rec.sample({'layouts': 'all'})
