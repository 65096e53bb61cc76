"""P06: grid arithmetic respects the data mask, every history up to a depth"""
import copy
import itertools
import numpy as np
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P06', level='model_checking',
    rule='transitions: every enabled operation from every reachable pair of '
    'grids up to the depth; states: distinct pairs of (values, mask, '
    'coordinates, dates, fill value); every transition runs on real objects '
    'and on a numpy model with an explicit validity mask',
    assumptions=['no valid value collides with the fill value',
    'grids have at least two rows and columns'])


class M:
    def __init__(self, d, m, lon, lat, t=None, mo=None, fill=-9999.0, e=None):
        self.d, self.m, self.lon, self.lat = d, m, lon, lat
        self.t, self.mo, self.fill, self.e = t, mo, fill, e

    def copy(self):
        return copy.deepcopy(self)

    def key(self):
        return (np.where(self.m, 0.0, self.d), self.m, self.lon, self.lat,
            self.t, self.mo, self.fill,
            None if self.e is None else np.where(self.m, 0, self.e))

    def filled(self, a=None):
        a = self.d if a is None else a
        return np.where(self.m, self.fill, a)


def make(nt, pattern, fill, seed=0, error=False):
    ny, nx = 2, 3
    i = np.arange(ny)[:, None, None]
    j = np.arange(nx)[None, :, None]
    k = np.arange(nt or 1)[None, None, :]
    d = (1.0 + i + 0.5*j + 0.25*k + 0.125*seed)*np.where((i + j + k) % 2, -1.0, 1.0)
    m = {'none': np.zeros(d.shape, bool),
        'one': (i == 0) & (j == 1) & (k >= 0),
        'partial': ((i + 2*j + k) % 4 == 0),
        'all': np.ones(d.shape, bool)}[pattern].copy()
    e = 0.1*np.abs(d) if error else None
    lon, lat = 10.0 + 3.0*np.arange(nx), 60.0 - 2.0*np.arange(ny)
    if nt is None:
        md = M(d[..., 0], m[..., 0], lon, lat, np.float64(2003.125), np.int64(14),
            fill, None if e is None else e[..., 0])
    else:
        md = M(d, m, lon, lat, 2003.125 + np.arange(nt)/12.0,
            14 + np.arange(nt), fill, e)
    return md


def real(md):
    G = gt.spatial(fill_value=md.fill)
    G.data, G.mask = md.filled().copy(), md.m.copy()
    if md.e is not None:
        G.error = md.filled(md.e).copy()
    G.lon, G.lat = md.lon.copy(), md.lat.copy()
    G.time, G.month = np.copy(md.t), np.copy(md.mo)
    return G


class S:
    def __init__(self, X, Y, x, y):
        self.X, self.Y, self.x, self.y = X, Y, x, y


def compare(rec, G, md, key):
    if not rec.check(np.shape(G.data) == md.d.shape, key + ':shape',
            lambda: f'{np.shape(G.data)} expected {md.d.shape}'):
        return
    rec.check(np.shape(G.mask) == md.m.shape and np.array_equal(
        np.asarray(G.mask, bool), md.m), key + ':mask')
    rec.check(G.fill_value == md.fill or (G.fill_value != G.fill_value and
        md.fill != md.fill), key + ':fill', lambda: repr(G.fill_value))
    rec.close(G.data, md.filled(), key + ':data', rtol=1e-12, atol=1e-13)
    if md.e is not None:
        rec.close(G.error, md.filled(md.e), key + ':error', rtol=1e-12)
    rec.eq(np.asarray(G.lon), md.lon, key + ':lon')
    rec.eq(np.asarray(G.lat), md.lat, key + ':lat')
    if md.t is not None:
        rec.close(G.time, md.t, key + ':time', rtol=1e-12)
    if md.mo is not None:
        rec.close(G.month, md.mo, key + ':month')
    rec.check(G.ndim == md.d.ndim and tuple(G.shape) == md.d.shape, key + ':dims')
    rec.eq(list(G.extent), [md.lon.min(), md.lon.max(), md.lat.min(),
        md.lat.max()], key + ':extent')
    rec.eq(tuple(G.spacing), (abs(md.lon[1]-md.lon[0]), abs(md.lat[1]-md.lat[0])),
        key + ':spacing')
    A = G.to_masked_array()
    rec.check(np.array_equal(np.ma.getmaskarray(A), md.m), key + ':ma')


def shared(A, B):
    at = ('data', 'mask', 'error', 'lon', 'lat', 'time', 'month')
    for a, b in itertools.product(at, at):
        u, v = getattr(A, a, None), getattr(B, b, None)
        if isinstance(u, np.ndarray) and isinstance(v, np.ndarray) and u.size \
                and v.size and np.shares_memory(u, v):
            return f'{a}/{b}'
    return ''


def observe(rec, st, hist):
    key = '>'.join(hist)
    compare(rec, st.X, st.x, key + ':X')
    compare(rec, st.Y, st.y, key + ':Y')
    if st.X is not st.Y:
        s = shared(st.X, st.Y)
        rec.check(not s, key + ':shared', s)
    return mc.digest(st.x.key(), st.y.key())


def big(x):
    v = np.where(x.m, 0, x.d)
    return not np.all(np.isfinite(v)) or np.max(np.abs(v), initial=0) > 1e3


def alphabet():
    ops = []

    def arith(kind, dim):
        f = (lambda a, b: a + b) if kind == 'offset' else (lambda a, b: a*b)

        def step(st):
            x = st.x
            if big(x) or (hasattr(st.X, 'error') and dim):
                return mc.SKIP
            nd = x.d.ndim
            if dim in (2, 3) and nd == 3 and np.ndim(x.t) == 0:
                # no dates to iterate over
                return mc.SKIP
            if dim == 0:
                v = 1.75
                r = f(x.d, v)
                m = x.m.copy()
            elif dim == 1:
                v = 0.5 + np.arange(2 if nd == 2 else x.d.shape[2])
                r = f(x.d[..., None] if nd == 2 else x.d, v)
                m = np.repeat(x.m[..., None], 2, axis=2) if nd == 2 else x.m.copy()
            elif dim == 2:
                v = 0.25 + np.arange(x.d.shape[0]*x.d.shape[1], dtype=float
                    ).reshape(x.d.shape[:2])
                r = f(x.d, v if nd == 2 else v[..., None])
                m = x.m.copy()
            else:
                if nd != 3:
                    return mc.SKIP
                v = 0.25 + np.arange(x.d.size, dtype=float).reshape(x.d.shape)
                r = f(x.d, v)
                m = x.m.copy()
            keep = np.copy(v)
            st.Y = getattr(st.X, kind)(v)
            assert np.array_equal(v, keep), 'argument modified'
            y = x.copy()
            y.d, y.m = r, m
            if dim == 1 and nd == 2:
                y.t = y.mo = None
            if kind in ('offset', 'scale') and y.e is not None:
                y.e = None      # error of a transformed field: not specified
            st.y = y
        return step
    for kind in ('offset', 'scale'):
        for dim in range(4):
            ops.append((f'Y={kind}{dim}', arith(kind, dim)))

    def power(st):
        if big(st.x) or st.x.e is not None:
            return mc.SKIP
        st.Y = st.X.power(2)
        st.y = st.x.copy()
        st.y.d = st.y.d**2
    ops.append(('Y=power2', power))

    for name, fn in (('sum', np.sum), ('max', np.max), ('min', np.min)):
        def red(st, name=name, fn=fn):
            x = st.x
            if x.d.ndim != 3:
                return mc.SKIP
            st.Y = getattr(st.X, name)()
            st.y = M(fn(x.d, axis=2), np.any(x.m, axis=2), x.lon.copy(),
                x.lat.copy(), None, None, x.fill)
        ops.append((f'Y={name}', red))

    def sum2(st):
        x = st.x
        if x.d.ndim != 3 or big(x):
            return mc.SKIP
        st.Y = st.X.sum(power=2)
        st.y = M(np.sum(x.d**2, axis=2), np.any(x.m, axis=2), x.lon.copy(),
            x.lat.copy(), None, None, x.fill)
    ops.append(('Y=sum(power=2)', sum2))

    for apply in (False, True):
        for sel in (None, [0], [1, 0]):
            def mean(st, apply=apply, sel=sel):
                x = st.x
                if x.d.ndim != 3 or (sel and max(sel) >= x.d.shape[2]) or \
                        x.t is None:
                    return mc.SKIP
                kw = {} if sel is None else dict(indices=list(sel))
                st.Y = st.X.mean(apply=apply, **kw)
                s = np.arange(x.d.shape[2]) if sel is None else np.array(sel)
                y = M(np.mean(x.d[..., s], axis=2), np.any(x.m[..., s], axis=2),
                    x.lon.copy(), x.lat.copy(), np.mean(x.t[s]), None, x.fill)
                if apply:
                    x.d = x.d - y.d[..., None]
                    x.m = x.m | y.m[..., None]
                st.y = y
            ops.append((f'Y=mean({apply},{sel})', mean))

    for ax in (0, 1, 2):
        def flip(st, ax=ax):
            x = st.x
            if ax == 2 and (x.d.ndim != 3 or x.t is None or np.ndim(x.t) == 0):
                return mc.SKIP
            st.Y = st.X.flip(axis=ax)
            y = x.copy()
            y.d, y.m = np.flip(x.d, ax).copy(), np.flip(x.m, ax).copy()
            if y.e is not None:
                y.e = np.flip(x.e, ax).copy()
            if ax == 0:
                y.lat = y.lat[::-1].copy()
            elif ax == 1:
                y.lon = y.lon[::-1].copy()
            else:
                y.t, y.mo = y.t[::-1].copy(), y.mo[::-1].copy()
            st.y = y
        ops.append((f'Y=flip{ax}', flip))

    def transpose(st):
        x = st.x
        axes = (1, 0) if x.d.ndim == 2 else (1, 0, 2)
        st.Y = st.X.transpose(axes=axes)
        y = x.copy()
        y.d, y.m = np.transpose(x.d, axes).copy(), np.transpose(x.m, axes).copy()
        if y.e is not None:
            y.e = np.transpose(x.e, axes).copy()
        st.y = y
    ops.append(('Y=transpose', transpose))

    def swap(st):
        st.X, st.Y, st.x, st.y = st.Y, st.X, st.y, st.x
    ops.append(('swap', swap))

    def cp(st):
        st.Y, st.y = st.X.copy(), st.x.copy()
    ops.append(('Y=copy', cp))

    def zl(st):
        st.Y = st.X.zeros_like()
        y = st.x.copy()
        y.d, y.m = np.zeros_like(y.d), np.zeros_like(y.m)
        if y.e is not None:
            y.e = np.zeros_like(y.e)
        y.t = None if y.t is None else np.zeros_like(y.t)
        y.mo = None if y.mo is None else np.zeros_like(y.mo)
        st.y = y
    ops.append(('Y=zeros_like', zl))

    for fill in (-1e20, np.nan):
        def ri(st, fill=fill):
            R = st.X.replace_invalid(fill)
            assert R is st.X
            st.x.fill = fill
        ops.append((f'replace_invalid({fill})', ri))

    for name in ('2-D', 'full'):
        def rm(st, name=name):
            x = st.x
            shp = x.d.shape[:2] if name == '2-D' else x.d.shape
            mask = (np.arange(int(np.prod(shp))).reshape(shp) % 3 == 1)
            keep = mask.copy()
            st.X.replace_invalid(x.fill, mask=mask)
            assert np.array_equal(mask, keep), 'argument modified'
            x.m = x.m | (mask[..., None] if mask.ndim < x.d.ndim else mask)
        ops.append((f'mask-{name}', rm))

    for name in ('replace_masked', 'update_mask'):
        def um(st, name=name):
            R = getattr(st.X, name)()
            assert R is st.X
        ops.append((name, um))

    def maskcell(st):
        """the user marks a cell invalid and asks for the fill value"""
        x = st.x
        st.X.mask[(1, 0) + (0,)*(x.d.ndim-2)] = True
        st.X.replace_masked()
        x.m = x.m.copy()
        x.m[(1, 0) + (0,)*(x.d.ndim-2)] = True
    ops.append(('mask-cell', maskcell))

    def nancell(st):
        """a computation leaves a NaN in a valid cell"""
        x = st.x
        i = (0, 0) + (0,)*(x.d.ndim-2)
        st.X.data[i] = np.nan
        st.X.update_mask()
        x.m = x.m.copy()
        x.m[i] = True
    ops.append(('nan-cell', nancell))

    def ed(st):
        x = st.x
        if x.t is None:
            return mc.SKIP
        R = st.X.expand_dims()
        assert R is st.X
        x.t = np.atleast_1d(x.t)
        x.mo = None if x.mo is None else np.atleast_1d(x.mo)
        if x.d.ndim == 2:
            x.d, x.m = x.d[..., None], x.m[..., None]
            x.e = None if x.e is None else x.e[..., None]
    ops.append(('expand_dims', ed))

    def sq(st):
        x = st.x
        if x.t is None or x.mo is None:
            return mc.SKIP
        st.X.squeeze()
        x.t, x.mo = np.squeeze(x.t), np.squeeze(x.mo)
        x.d, x.m = np.squeeze(x.d), np.squeeze(x.m)
        x.e = None if x.e is None else np.squeeze(x.e)
    ops.append(('squeeze', sq))

    def extend(st):
        x = st.x
        if len(x.lon) > 4 or x.d.shape[1] != len(x.lon):
            return mc.SKIP
        if np.any(np.diff(x.lon) < 0):
            return mc.SKIP
        st.Y = st.X.extend_matrix()
        y = x.copy()
        w = lambda a: np.concatenate([a[:, -1:], a, a[:, :1]], axis=1)
        y.d, y.m = w(x.d), w(x.m)
        y.e = None if x.e is None else w(x.e)
        s = x.lon[1] - x.lon[0]
        y.lon = np.concatenate([[x.lon[0]-s], x.lon, [x.lon[-1]+s]])
        st.y = y
    ops.append(('Y=extend_matrix', extend))
    for i in (0, -1):
        def ix(st, i=i):
            x = st.x
            if x.d.ndim != 3 or x.t is None or x.mo is None:
                return mc.SKIP
            st.Y = st.X.index(i)
            st.y = M(x.d[..., i].copy(), x.m[..., i].copy(), x.lon.copy(),
                x.lat.copy(), x.t[i], x.mo[i], x.fill,
                None if x.e is None else x.e[..., i].copy())
        ops.append((f'Y=index({i})', ix))
    return ops


def configs():
    out = []
    for nt in (None, 1, 2, 3):
        for pat in ('none', 'one', 'partial', 'all'):
            for fill in (-9999.0, np.nan):
                for err in (False, True):
                    if nt == 1 and pat != 'partial' or (fill != fill and
                            pat == 'none'):
                        continue
                    out.append((f't{nt}:{pat}:{fill}:{err}',
                        make(nt, pat, fill, 0, err)))
    return out


@CHECK.block('histories', params=lambda tier: [(i, 2 if tier == 'quick' else 3)
    for i in range(len(configs()))])
def histories(rec, p):
    label, x = configs()[p[0]]
    y = x.copy()
    ops = alphabet()
    st = S(real(x), real(y), x, y)
    mc.bfs(rec, [(label, st)], lambda s: ops, p[1], observe)


@CHECK.block('no-fill')
def nofill(rec, param):
    """without a fill value the arithmetic is plain"""
    for nt in (None, 2):
        x = make(nt, 'none', None)
        for name, fn in (('offset', lambda a: a + 2.5), ('scale', lambda a: a*2.5)):
            with rec.guard(name):
                G = real(x)
                out = getattr(G, name)(2.5)
                rec.close(out.data, fn(x.d), f'{name}:{nt}')
                rec.close(G.data, x.d, f'{name}:{nt}:source')
                rec.case((name, nt))
        with rec.guard(f'{nt}:misc'):
            G = real(x)
            rec.close(G.copy().data, x.d, f'copy:{nt}')
            rec.close(G.power(3).data, x.d**3, f'power:{nt}')
            rec.close(G.flip(axis=0).data, x.d[::-1], f'flip:{nt}')
            G.update_mask()
            G.replace_masked()
            rec.close(G.data, x.d, f'mask:{nt}')
            rec.case(('misc', nt))


FILLS = (-9999.0, 9999.0, 1e20, np.nan, 0.0)


def dated(fill, nt=3, months=None, error=True):
    """every pattern of invalid dates in one row of cells"""
    pats = np.array(list(itertools.product((False, True), repeat=nt)))
    nx = len(pats)
    j = np.arange(nx)[:, None]
    k = np.arange(nt)[None, :]
    row = (1.25 + 0.5*j + 0.125*k)*np.where((j + k) % 3 == 0, -1.0, 1.0)
    d = np.stack([row, -2.0*row + 0.25])
    m = np.stack([pats, pats[::-1]])
    mo = np.arange(14, 14 + nt) if months is None else np.array(months)
    return M(d, m, 10.0 + 3.0*np.arange(nx), np.array([60.0, 58.0]), 2002.0 +
        (mo - 0.5)/12.0, mo, fill, 0.1*np.abs(d) if error else None)


@CHECK.block('reductions', params=lambda tier: list(range(4)))
def reductions(rec, p):
    """every pattern of invalid dates, for fill values of either sign"""
    fill = FILLS[p]
    for nt in (1, 2, 3, 4):
        x = dated(fill, nt)
        calls = [(f'sum({q})', lambda G, q=q: G.sum(power=q), lambda s, q=q:
            np.sum(s**q, axis=2)) for q in (1, 2, 3, 5)]
        calls += [('sum', lambda G: G.sum(), lambda s: np.sum(s, axis=2)),
            ('max', lambda G: G.max(), lambda s: np.max(s, axis=2)),
            ('min', lambda G: G.min(), lambda s: np.min(s, axis=2)),
            ('mean', lambda G: G.mean(), lambda s: np.mean(s, axis=2))]
        for name, f, want in calls:
            key = f'{fill}:{nt}:{name}'
            G = real(x)
            with rec.guard(key):
                Y = f(G)
                y = M(want(x.d), np.any(x.m, axis=2), x.lon, x.lat, None, None,
                    fill)
                compare(rec, Y, y, key)
                compare(rec, G, x, key + ':operand')
            rec.case(key)
        for sel in [s for n in range(1, nt + 1) for s in
                itertools.combinations(range(nt), n)]:
            for apply in (False, True):
                key = f'{fill}:{nt}:mean:{sel}:{apply}'
                G = real(x)
                s = list(sel)
                with rec.guard(key):
                    Y = G.mean(apply=apply, indices=s)
                    y = M(np.mean(x.d[..., s], axis=2), np.any(x.m[..., s],
                        axis=2), x.lon, x.lat, np.mean(x.t[s]), None, fill)
                    compare(rec, Y, y, key)
                    z = x.copy()
                    if apply:
                        z.d = z.d - y.d[..., None]
                        z.m = z.m | y.m[..., None]
                    compare(rec, G, z, key + ':operand')
                rec.case(key)
        for q in (1, 2, 3, -1, 4):
            key = f'{fill}:{nt}:power:{q}'
            G = real(dated(fill, nt, error=False))
            with rec.guard(key):
                y = dated(fill, nt, error=False)
                y.d = y.d**float(q)
                compare(rec, G.power(q), y, key)
            rec.case(key)


@CHECK.block('order')
def order(rec, param):
    """dates in any order are reversed with their fields"""
    for mo in itertools.permutations((14, 16, 20)):
        for fill in FILLS[:4]:
            x = dated(fill, 3, mo)
            G = real(x)
            key = f'{mo}:{fill}'
            with rec.guard(key):
                Y = G.flip(axis=2)
                y = x.copy()
                y.d, y.m, y.e = y.d[..., ::-1], y.m[..., ::-1], y.e[..., ::-1]
                y.t, y.mo = y.t[::-1], y.mo[::-1]
                compare(rec, Y, y, key)
                compare(rec, Y.flip(axis=2), x, key + ':twice')
                for i in range(3):
                    compare(rec, Y.index(i), M(y.d[..., i], y.m[..., i], y.lon,
                        y.lat, y.t[i], y.mo[i], fill, y.e[..., i]),
                        f'{key}:index{i}')
            rec.case(key)


@CHECK.block('invalid')
def invalid(rec, param):
    """replacing invalid points from any fill value to any other"""
    for old in FILLS + (None,):
        for new in FILLS:
            for err, how in itertools.product((False, True), ('none', '2-D',
                    'full')):
                key = f'{old}:{new}:{err}:{how}'
                x = dated(old, 2, error=err)
                shp = x.d.shape[:2] if how == '2-D' else x.d.shape
                mask = np.arange(int(np.prod(shp))).reshape(shp) % 3 == 1
                G = gt.spatial(fill_value=old)
                G.data = x.d.copy() if old is None else x.filled().copy()
                G.mask = x.m.copy()
                if err:
                    G.error = x.e.copy() if old is None else x.filled(x.e)
                G.lon, G.lat = x.lon.copy(), x.lat.copy()
                G.time, G.month = x.t.copy(), x.mo.copy()
                keep = mask.copy()
                with rec.guard(key):
                    if how == 'none':
                        G.replace_invalid(new)
                    else:
                        G.replace_invalid(new, mask=mask)
                        x.m = x.m | (mask[..., None] if how == '2-D' else mask)
                    x.fill = new
                    compare(rec, G, x, key)
                    rec.check(np.array_equal(mask, keep) and not
                        np.shares_memory(mask, G.mask), key + ':argument')
                rec.case(key)
