"""P35: grid helpers move data without changing the field they describe"""
import itertools
import pathlib
import warnings
from fractions import Fraction as F
import numpy as np
import mc
import gravity_toolkit as gt
import gravity_toolkit.tools as T

CHECK = mc.Check('P35', level='bounded_exhaustive',
    rule='distinct (grid, origin or output position, data kind) cases; every '
    'grid point holds its own number',
    assumptions=['origins lie within the longitudes of the grid',
        'positions of nearest neighbors may lie outside of the grid, those '
        'of splines inside', 'coordinates are strictly monotonic',
        'splines take no masked data'])

warnings.simplefilter('ignore')


# ------------------------------------------------------------------- shift
def axes(tier):
    """longitudes over one revolution, with and without the cyclic point"""
    top = 13 if tier == 'thorough' else 9
    for n in range(1, top):
        for first in (F(0), F(-180), F(1, 2), F(360, 2*n), F(-360, 2*n)):
            lon = [first + F(360*k, n) for k in range(n)]
            yield f'even {n} {first}', lon, False
            yield f'even {n} {first} cyclic', lon + [first + 360], True
    # parts of a revolution, irregular spacing
    for lon in ([0, 90, 180], [10, 20, 30, 40], [0, 1, 3, 7, 15, 31, 63, 127,
            255], [-170, -40, 5, 100, 179], [0, 120, 359]):
        yield f'{lon}', [F(x) for x in lon], False
        if lon[-1] - lon[0] < 359:
            yield f'{lon} cyclic', [F(x) for x in lon] + [F(lon[0] + 360)], True


def fields(n):
    """kinds of data with their own number in every cell"""
    a = np.arange(3*n).reshape(3, n)
    yield 'float', a + 0.5
    yield 'int', a.copy()
    yield 'single', a.astype(np.float32)
    yield 'bool', (a*7 % 3 == 0)
    yield 'masked', np.ma.array(a + 0.25, mask=(a*5 % 4 == 1))
    yield 'one row', a[:1] + 0.125
    yield 'dates', np.arange(6*n).reshape(3, n, 2)*1.0


@CHECK.block('shift', params=lambda tier: [(k, tier) for k in range(8)])
def shift(rec, arg):
    """every origin of every grid"""
    part, tier = arg
    for name, lon, cyclic in itertools.islice(axes(tier), part, None, 8):
        n = len(lon)
        x = np.array([float(v) for v in lon])
        starts = set(lon) | {(a + b)/2 for a, b in zip(lon, lon[1:])} | {
            a + (b - a)/3 for a, b in zip(lon, lon[1:])} | {
            a + 2*(b - a)/3 for a, b in zip(lon, lon[1:])}
        for lon0 in sorted(starts):
            dist = [abs(v - lon0) for v in lon]
            near = [k for k in range(n) if dist[k] == min(dist)]
            for kind, data in fields(n):
                for how in ('float', 'masked') if kind in ('float',
                        'masked') else ('float',):
                    key = f'{name}:{lon0}:{kind}:{how}'
                    rec.case(key)
                    a, b = data.copy(), x.copy()
                    if how == 'masked':
                        b = np.ma.array(b, mask=np.zeros(n, bool))
                    with rec.guard(key):
                        g, l = T.shift_grid(float(lon0), a, b)
                        rec.check(np.array_equal(np.ma.getdata(a),
                            np.ma.getdata(data)) and np.array_equal(
                            np.ma.getmaskarray(a), np.ma.getmaskarray(data))
                            and np.array_equal(np.asarray(b), x),
                            key + ':arguments')
                        rec.check(np.ma.isMA(g) == np.ma.isMA(data) and
                            np.ma.isMA(l) == (how == 'masked') and g.dtype ==
                            data.dtype and g.shape == data.shape, key +
                            ':type')
                        judge(rec, key, x, data, g, np.asarray(l), near,
                            cyclic)
    # other periods
    for period in (1.0, 2*np.pi, 24.0):
        for n in range(1, 7):
            for cyclic in (False, True):
                x = np.arange(n + cyclic)*period/n
                data = np.arange(2*len(x)).reshape(2, -1)*1.0
                for k in range(len(x)):
                    key = f'{period}:{n}:{cyclic}:{k}'
                    rec.case(key)
                    with rec.guard(key):
                        g, l = T.shift_grid(x[k], data.copy(), x.copy(),
                            CYCLIC=period)
                        judge(rec, key, x, data, g, l, [k], cyclic, period)
    rec.sample({'grid': name})


def judge(rec, key, x, data, g, l, near, cyclic, period=360.0):
    """the shifted grid holds every column once, from the nearest origin"""
    n = len(x)
    rec.check(l.shape == x.shape, key + ':length')
    rec.check(any(abs(l[0] - (x[k] - period)) < 1e-9*period for k in near),
        key + ':origin', lambda: f'{l} from {x[near]}')
    rec.check((np.diff(l) > 0).all() and l[-1] - l[0] < period*(1 + 1e-9),
        key + ':order', lambda: str(l))
    used = []
    for j in range(n):
        d = (x - l[j])/period
        c = [k for k in range(n) if abs(d[k] - round(d[k])) < 1e-9]
        # the two ends of a cyclic grid are the same place
        ok = [k for k in c if np.array_equal(np.ma.getdata(g)[:, j],
            np.ma.getdata(data)[:, k]) and np.array_equal(np.ma.getmaskarray(
            g)[:, j], np.ma.getmaskarray(data)[:, k])]
        if not ok:
            rec.fail(key + ':column', f'{l[j]} of {x}')
            return
        used += ok[:1] if len(ok) == 1 or not used else [k for k in ok
            if k not in used][:1] or ok[:1]
    places = set(np.round((x % period)/period, 9) % 1)
    got = set(np.round((l % period)/period, 9) % 1)
    rec.check(places == got, key + ':places', lambda: f'{l} {x}')


# ------------------------------------------------------------- longitudes
@CHECK.block('wrap')
def wrap(rec, arg):
    """longitudes over six revolutions"""
    for den in (1, 3, 4, 7):
        v = [F(k, den) for k in range(-1080*den, 1080*den + 1)]
        x = np.array([float(q) for q in v])
        keep = x.copy()
        for name, arr in (('array', x), ('grid', x[:-1].reshape(2, -1)),
                ('column', x[:, None])):
            with rec.guard(f'{den}:{name}'):
                got = T.wrap_longitudes(arr)
                rec.check(got.shape == arr.shape, f'{den}:{name}:shape')
                got = np.ravel(got)
                rec.case((den, name), n=len(got))
                for q, w in zip(v, got):
                    want = (q + 180) % 360 - 180
                    ok = abs(w - float(want)) < 1e-9 or want == -180 and \
                        abs(abs(w) - 180) < 1e-9
                    if not (ok and -180 - 1e-9 <= w <= 180 + 1e-9):
                        rec.fail(f'{den}:{name}:{q}', f'{w} {float(want)}')
        rec.eq(x, keep, f'{den}:argument')
    for k in range(-720, 721, 15):
        for t in (int, float, np.float64, np.int64):
            with rec.guard(f'scalar:{t.__name__}:{k}'):
                w = T.wrap_longitudes(t(k))
                d = (float(w) - k)/360
                rec.check(abs(d - round(d)) < 1e-11 and abs(w) <= 180 + 1e-9,
                    f'scalar:{t.__name__}:{k}')
    rec.sample({'longitudes': [-1080, 1080]})


# ----------------------------------------------------------- interpolation
COORDS = [[0, 1], [0, 1, 2], [-2, -1, 0, 1], [0, 10, 20, 30, 40], [0, 1, 3],
    [-5, 0, 1, 10], [0, 3, 4, 5, 9]]


def at(c):
    """positions on, between and outside of grid points"""
    c = sorted(F(v) for v in c)
    out = list(c)
    for a, b in zip(c, c[1:]):
        out += [a + (b - a)*f for f in (F(1, 4), F(1, 2), F(2, 3), F(9, 10))]
    return sorted(out)


def nearest(c, v):
    d = [abs(F(q) - v) for q in c]
    return [k for k in range(len(c)) if d[k] == min(d)]


@CHECK.block('nearest', params=lambda tier: list(range(len(COORDS))))
def nearest_block(rec, i):
    """the value of the nearest grid point in either direction of the axes"""
    for j, fx, fy in itertools.product(range(len(COORDS)), (1, -1), (1, -1)):
        cx, cy = COORDS[i][::fx], COORDS[j][::fy]
        px = at(cx)
        py = at(cy)
        px = [min(px) - 7, min(px) - F(1, 3)] + px + [max(px) + F(1, 3),
            max(px) + 50]
        py = [min(py) - 7] + py + [max(py) + 5]
        X, Y = np.meshgrid([float(v) for v in px], [float(v) for v in py])
        nx = [nearest(cx, v) for v in px]
        ny = [nearest(cy, v) for v in py]
        x, y = np.array(cx, float), np.array(cy, float)
        a = np.arange(len(cy)*len(cx)).reshape(len(cy), len(cx))
        for kind, data in (('float', a + 0.5), ('int', a), ('bool', a*7 % 3
                == 0), ('masked', np.ma.array(a*1.0, mask=a*5 % 4 == 1))):
            key = f'{cx}:{cy}:{kind}'
            rec.case(key, n=X.size)
            with rec.guard(key):
                args = [v.copy() for v in (data, x, y, X, Y)]
                got = T.interp_grid(*args, order=0)
                rec.check(all(np.array_equal(p, q) for p, q in zip(args[1:],
                    (x, y, X, Y))) and np.array_equal(np.ma.getdata(args[0]),
                    np.ma.getdata(data)), key + ':arguments')
                rec.check(got.shape == X.shape and got.dtype == data.dtype,
                    key + ':shape')
                for r, q in itertools.product(range(len(py)), range(len(px))):
                    opts = [(np.ma.getdata(data)[m, n], np.ma.getmaskarray(
                        data)[m, n]) for m in ny[r] for n in nx[q]]
                    if (np.ma.getdata(got)[r, q], np.ma.getmaskarray(got)[r,
                            q]) not in opts:
                        rec.fail(key, f'at {float(px[q])},{float(py[r])}: '
                            f'{got[r, q]} of {opts}')
                        break
                # list of points
                one = T.interp_grid(data, x, y, X.ravel(), Y.ravel(), 0)
                rec.check(np.array_equal(np.ma.getdata(one), np.ma.getdata(
                    got).ravel()), key + ':points')
    rec.sample({'x': cx, 'y': cy})


@CHECK.block('spline', params=lambda tier: [(i, k) for i in
    range(len(COORDS)) for k in range(1, 6)])
def spline(rec, arg):
    """splines reproduce polynomials of their order and the grid points"""
    i, k = arg
    for j in range(len(COORDS)):
        cx, cy = COORDS[i], COORDS[j]
        if min(len(cx), len(cy)) <= k:
            continue
        px, py = at(cx), at(cy)
        X, Y = np.meshgrid([float(v) for v in px], [float(v) for v in py])
        x, y = np.array(cx, float), np.array(cy, float)
        gx, gy = np.meshgrid(x, y)
        for p, q in itertools.product(range(k + 1), range(k + 1)):
            key = f'{cx}:{cy}:{k}:x{p}y{q}'
            rec.case(key, n=X.size)
            f = lambda u, v: (u - 1.5)**p*(v + 0.5)**q
            with rec.guard(key):
                data = f(gx, gy)
                args = [v.copy() for v in (data, x, y, X, Y)]
                got = T.interp_grid(*args, order=k)
                rec.check(all(np.array_equal(u, v) for u, v in zip(args,
                    (data, x, y, X, Y))), key + ':arguments')
                want = f(X, Y)
                rec.close(got, want, key, rtol=1e-9, atol=1e-9*max(1, abs(
                    want).max()))
        # every single grid point
        for m, n in itertools.product(range(len(cy)), range(len(cx))):
            key = f'{cx}:{cy}:{k}:point {m} {n}'
            rec.case(key, n=gx.size)
            data = np.zeros(gx.shape)
            data[m, n] = 1.0
            with rec.guard(key):
                got = T.interp_grid(data, x, y, gx, gy, order=k)
                rec.close(got, data, key, rtol=0, atol=1e-9)
                if k == 1:
                    # bilinear weights of the four corners
                    wx = hat(cx, n, px)
                    wy = hat(cy, m, py)
                    got = T.interp_grid(data, x, y, X, Y, order=1)
                    rec.close(got, np.outer(wy, wx), key + ':bilinear',
                        rtol=0, atol=1e-9)
    rec.sample({'order': k})


def hat(c, n, pos):
    out = []
    for v in pos:
        w = F(0)
        if v == c[n]:
            w = F(1)
        elif n and c[n-1] < v < c[n]:
            w = (v - c[n-1])/(c[n] - c[n-1])
        elif n + 1 < len(c) and c[n] < v < c[n+1]:
            w = (c[n+1] - v)/(c[n+1] - c[n])
        out.append(float(w))
    return np.array(out)


# --------------------------------------------------------------- land masks
def stand_in(root):
    """masks of the package replaced by those in a scratch directory"""
    import gravity_toolkit.utilities as U
    real = U.get_data_path

    def path(rel):
        rel = [rel] if isinstance(rel, (str, pathlib.Path)) else list(rel)
        if 'landsea' in str(rel[-1]):
            return pathlib.Path(root)/str(rel[-1])
        return real(rel)
    saved = []
    for mod in (U, T):
        if hasattr(mod, 'get_data_path'):
            saved.append((mod, mod.get_data_path))
            mod.get_data_path = path
    return saved


def write_mask(path, classes, lon, lat):
    import netCDF4
    with netCDF4.Dataset(path, 'w') as f:
        f.createDimension('lon', len(lon))
        f.createDimension('lat', len(lat))
        for n, v in (('lon', lon), ('lat', lat)):
            f.createVariable(n, 'f8', (n,))[:] = v
        f.createVariable('LSMASK', 'i1', ('lat', 'lon'))[:] = classes


@CHECK.block('ocean', params=lambda tier: [(k, tier) for k in range(8)],
    timeout=600)
def ocean(rec, arg):
    """every class of surface at every place of the mask"""
    part, tier = arg
    root = pathlib.Path(rec.mkdir())
    saved = stand_in(root)
    lon, lat = np.array([5.0, 15.0]), np.array([-10.0, 10.0])
    if tier == 'thorough':
        grids = itertools.product(range(5), repeat=6)
        lat = np.array([-21.0, 0.0, 19.0])
    else:
        grids = itertools.product(range(5), repeat=4)
    xin, yin = np.meshgrid([0.0, 5.0, 9.0, 11.0, 15.0, 30.0], [-12.0, -10.0,
        0.5, 9.0, 10.0, 40.0])
    try:
        for num, cls in enumerate(itertools.islice(grids, part, None, 8)):
            grid = np.array(cls).reshape(len(lat), 2)
            res = ('1d', 'hd', 'qd')[num % 3]
            for r in ('1d', 'hd', 'qd'):
                if r != res and num < 3:
                    write_mask(root/f'landsea_{r}.nc', (grid + 1) % 5, lon,
                        lat)
            write_mask(root/f'landsea_{res}.nc', grid, lon, lat)
            where = grid[np.array([[int(np.argmin(abs(lat - v))) for v in
                row] for row in yin]), np.array([[int(np.argmin(abs(lon - v)))
                for v in row] for row in xin])]
            for lakes, shelves in itertools.product((False, True), repeat=2):
                want = (where == 0) | (where == 2) & lakes | (where == 4) & \
                    shelves
                key = f'{cls}:{res}:{lakes}:{shelves}'
                rec.case(key)
                kw = dict(lakes=lakes, iceshelves=shelves)
                if res != 'qd' or num % 2:
                    kw['resolution'] = res
                if (lakes, shelves) == (False, True) and num % 2:
                    kw = {'resolution': res}
                with rec.guard(key):
                    m = T.mask_oceans(xin.copy(), yin.copy(), **kw)
                    rec.check(m.dtype == bool and np.array_equal(m, want),
                        key, lambda: f'{m.astype(int)} {want.astype(int)}')
                    # applied to data that are partly invalid
                    before = (np.arange(36).reshape(6, 6) % 5 == 0)
                    vals = np.arange(36.0).reshape(6, 6) + 1
                    s = gt.spatial(fill_value=-9999.0)
                    s.lon, s.lat = xin[0], yin[:, 0]
                    s.data, s.mask = vals.copy(), before.copy()
                    s.update_mask()
                    out = T.mask_oceans(xin, yin, data=s, **kw)
                    gone = want | before
                    rec.check(np.array_equal(out.mask, gone) and (out.data[
                        gone] == -9999.0).all() and np.array_equal(out.data[
                        ~gone], vals[~gone]), key + ':data')
                    a = np.ma.array(vals.copy(), mask=before.copy(),
                        fill_value=-1.0)
                    out = T.mask_oceans(xin, yin, data=a, **kw)
                    rec.check(np.array_equal(np.ma.getmaskarray(out), gone)
                        and np.array_equal(np.ma.getdata(out)[~gone],
                        vals[~gone]) and (np.ma.getdata(out)[gone] ==
                        -1.0).all(), key + ':array')
    finally:
        for mod, fn in saved:
            mod.get_data_path = fn
    rec.sample({'mask': list(cls)})
