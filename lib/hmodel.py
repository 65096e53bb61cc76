"""reference model of a spherical harmonic object and the operation alphabet
used by the explicit-state searches (P01, P02)"""
import copy
import numpy as np
import mc
import gravity_toolkit as gt


class M:
    """plain numpy reference: coefficients c,s [l,m] or [l,m,t], dates t,mo"""
    def __init__(self, c, s, t=None, mo=None):
        self.c, self.s, self.t, self.mo = c, s, t, mo

    @property
    def lmax(self):
        return self.c.shape[0]-1

    @property
    def mmax(self):
        return self.c.shape[1]-1

    def copy(self):
        return copy.deepcopy(self)

    def key(self):
        return (self.c, self.s, self.t, self.mo)


def tri(lmax, mmax):
    l = np.arange(lmax+1)[:, None]
    m = np.arange(mmax+1)[None, :]
    return m <= l


def make(lmax, mmax, nt, seed=0, months=None):
    """distinct non-zero coefficients; nt None: static field"""
    shp = (lmax+1, mmax+1) + (() if nt is None else (nt,))
    l = np.arange(lmax+1).reshape((-1, 1) + (1,)*(len(shp)-2))
    m = np.arange(mmax+1).reshape((1, -1) + (1,)*(len(shp)-2))
    k = 0 if nt is None else np.arange(nt).reshape(1, 1, -1)
    c = 1.5 + 0.5*l + 0.125*m + 0.75*k + 0.0625*seed + 0*m
    s = -(0.5 + 0.25*l + 0.0625*m + 1.25*k - 0.03125*seed) + 0*m
    if seed % 2:
        s = -s
    T = tri(lmax, mmax).reshape((lmax+1, mmax+1) + (1,)*(len(shp)-2))
    Z = (np.arange(mmax+1) > 0).reshape((1, -1) + (1,)*(len(shp)-2))
    c = np.where(T, c, 0.0)
    s = np.where(T & Z, s, 0.0)
    if nt is None:
        return M(c, s)
    if months is None:
        months = [4, 5, 8, 9][:nt]
    mo = np.array(months, dtype=np.int64)
    t = 2002.0 + (mo - 0.5)/12.0
    return M(c, s, t, mo)


def real(md):
    H = gt.harmonics(lmax=md.lmax, mmax=md.mmax)
    H.clm, H.slm = md.c.copy(), md.s.copy()
    H.time = None if md.t is None else np.copy(md.t)
    H.month = None if md.mo is None else np.copy(md.mo)
    H.update_dimensions()
    return H


def compare(rec, H, md, key):
    """the real object shows what the model says"""
    T = tri(md.lmax, md.mmax)
    ok = rec.check(np.shape(H.clm) == md.c.shape and
        np.shape(H.slm) == md.s.shape, key + ':shape',
        lambda: f'{np.shape(H.clm)} expected {md.c.shape}')
    if not ok:
        return
    rec.close(H.clm[T], md.c[T], key + ':clm', rtol=1e-12)
    rec.close(H.slm[T], md.s[T], key + ':slm', rtol=1e-12)
    rec.check(int(H.lmax) == md.lmax and int(H.mmax) == md.mmax, key + ':lmax',
        lambda: f'{H.lmax},{H.mmax} expected {md.lmax},{md.mmax}')
    rec.check(H.ndim == md.c.ndim and tuple(H.shape) == md.c.shape, key + ':dims')
    rec.eq(np.asarray(H.l), np.arange(md.lmax+1), key + ':l')
    rec.eq(np.asarray(H.m), np.arange(md.mmax+1), key + ':m')
    for a, b, n in ((H.time, md.t, 'time'), (H.month, md.mo, 'month')):
        if b is None:
            rec.check(a is None or np.asarray(a).dtype == object or
                np.size(a) == 0, f'{key}:{n}', lambda: f'{a!r} expected none')
        else:
            rec.close(a, b, f'{key}:{n}', rtol=1e-12)


def overlap(x, y):
    return min(x.lmax, y.lmax)+1, min(x.mmax, y.mmax)+1


def model_binary(x, y, op):
    l1, m1 = overlap(x, y)
    T = tri(l1-1, m1-1)
    for a, n in ((x.c, 'c'), (x.s, 's')):
        b = getattr(y, n)
        sub = a[:l1, :m1]
        other = b[:l1, :m1]
        if a.ndim == 3 and b.ndim == 2:
            other = other[..., None]
        with np.errstate(all='ignore'):
            if op == 'add':
                r = sub + other
            elif op == 'subtract':
                r = sub - other
            elif op == 'multiply':
                r = sub*other
            else:
                r = sub/other
                if n == 's':        # zonal sine terms are not defined
                    r[:, 0] = sub[:, 0]
        W = T.reshape(T.shape + (1,)*(a.ndim-2))
        a[:l1, :m1] = np.where(W, r, sub)


def compatible(x, y):
    if x.c.ndim == 2:
        return y.c.ndim == 2
    return y.c.ndim == 2 or y.c.shape[-1] == x.c.shape[-1]


class S:
    """state: two registers, each a real object with its model"""
    def __init__(self, X, Y, x, y):
        self.X, self.Y, self.x, self.y = X, Y, x, y


def nonzero_divisor(x, y):
    l1, m1 = overlap(x, y)
    T = tri(l1-1, m1-1)
    U = T.copy()
    U[:, 0] = False
    return bool(np.all(y.c[:l1, :m1][T] != 0) and np.all(y.s[:l1, :m1][U] != 0))


def small(x):
    v = max(np.max(np.abs(x.c), initial=0), np.max(np.abs(x.s), initial=0))
    return bool(np.isfinite(v) and v < 1e6)


def operations(deg=True, truncations=((1, 0, None), (4, 0, None), (3, 0, 1),
        (3, 1, None), (2, 2, 1), (2, 0, 2), (2, 0, 0))):
    """alphabet: list of (label, step)"""
    ops = []

    def op(label):
        def deco(fn):
            ops.append((label, fn))
            return fn
        return deco

    for name in ('add', 'subtract', 'multiply', 'divide'):
        def binop(st, name=name):
            if not compatible(st.x, st.y) or not small(st.x):
                return mc.SKIP
            if name == 'divide' and not nonzero_divisor(st.x, st.y):
                return mc.SKIP
            R = getattr(st.X, name)(st.Y)
            assert R is st.X, 'in-place operation returned another object'
            model_binary(st.x, st.y, name)
        ops.append((name, binop))

        def selfop(st, name=name):
            """operand is the object itself"""
            if not small(st.x):
                return mc.SKIP
            if name == 'divide' and not nonzero_divisor(st.x, st.x):
                return mc.SKIP
            getattr(st.X, name)(st.X)
            model_binary(st.x, st.x.copy(), name)
        if name in ('add', 'multiply'):
            ops.append((name + '_self', selfop))

    @op('swap')
    def swap(st):
        st.X, st.Y, st.x, st.y = st.Y, st.X, st.y, st.x

    @op('Y=copy')
    def cp(st):
        st.Y, st.y = st.X.copy(), st.x.copy()

    @op('Y=zeros_like')
    def zl(st):
        st.Y = st.X.zeros_like()
        st.y = st.x.copy()
        st.y.c[:] = 0
        st.y.s[:] = 0
        if st.y.t is not None:
            st.y.t = np.zeros_like(st.y.t)
            st.y.mo = np.zeros_like(st.y.mo)

    for v in (-2.0, 0.5):
        def sc(st, v=v):
            st.Y = st.X.scale(v)
            st.y = st.x.copy()
            st.y.c *= v
            st.y.s *= v
        ops.append((f'Y=scale({v})', sc))

    @op('Y=scale(vector)')
    def scv(st):
        if st.x.c.ndim != 3:
            return mc.SKIP
        v = (0.25 + np.arange(st.x.c.shape[-1]))[::-1]*(-1)**np.arange(
            st.x.c.shape[-1])
        keep = v.copy()
        st.Y = st.X.scale(v)
        assert np.array_equal(v, keep), 'argument modified'
        st.y = st.x.copy()
        st.y.c = st.y.c*v
        st.y.s = st.y.s*v

    for p in (2, 3):
        def pw(st, p=p):
            if not small(st.x):
                return mc.SKIP
            st.Y = st.X.power(p)
            st.y = st.x.copy()
            st.y.c = st.y.c**p
            st.y.s = st.y.s**p
        ops.append((f'Y=power({p})', pw))

    @op('convolve')
    def cv(st):
        w = 1.0/(1.0 + np.arange(st.x.lmax+1))
        keep = w.copy()
        R = st.X.convolve(w)
        assert R is st.X
        assert np.array_equal(w, keep), 'argument modified'
        sh = (-1,) + (1,)*(st.x.c.ndim-1)
        st.x.c = st.x.c*w.reshape(sh)
        st.x.s = st.x.s*w.reshape(sh)

    for apply in (False, True):
        for ind in (None, 'first', 'pair'):
            def mean(st, apply=apply, ind=ind):
                x = st.x
                if x.c.ndim != 3:
                    return mc.SKIP
                n = x.c.shape[-1]
                if ind == 'pair' and n < 3:
                    return mc.SKIP
                sel = {None: np.arange(n), 'first': np.array([0]),
                    'pair': np.array([2, 0])}[ind]
                kw = {} if ind is None else dict(indices=sel.copy())
                st.Y = st.X.mean(apply=apply, **kw)
                c = np.mean(x.c[..., sel], axis=-1)
                s = np.mean(x.s[..., sel], axis=-1)
                T = tri(x.lmax, x.mmax)
                c, s = np.where(T, c, 0), np.where(T, s, 0)
                y = M(c, s)
                if x.t is not None:
                    y.t = np.mean(x.t[sel])
                    y.mo = np.mean(x.mo[sel])
                if apply:
                    x.c = x.c - c[..., None]
                    x.s = x.s - s[..., None]
                st.y = y
            ops.append((f'Y=mean({apply},{ind})', mean))

    for lm, l0, mm in truncations:
        def tr(st, lm=lm, l0=l0, mm=mm):
            R = st.X.truncate(lm, lmin=l0, mmax=mm)
            assert R is st.X
            st.x = truncated(st.x, lm, l0, mm)
        ops.append((f'truncate({lm},{l0},{mm})', tr))

    @op('flatten-expand')
    def fe(st):
        F = st.X.flatten(date=st.x.t is not None)
        flatcheck(F, st.x)
        st.Y = F.expand(date=st.x.t is not None)
        st.y = st.x.copy()

    @op('expand_dims')
    def ed(st):
        if st.x.c.ndim != 2 or st.x.t is None:
            return mc.SKIP
        R = st.X.expand_dims()
        assert R is st.X
        st.x.c = st.x.c[..., None]
        st.x.s = st.x.s[..., None]
        st.x.t = np.atleast_1d(st.x.t)
        st.x.mo = np.atleast_1d(st.x.mo)

    @op('squeeze')
    def sq(st):
        R = st.X.squeeze()
        assert R is st.X
        if st.x.c.ndim == 3 and st.x.c.shape[-1] == 1:
            st.x.c = st.x.c[..., 0]
            st.x.s = st.x.s[..., 0]
            st.x.t = st.x.t[0]
            st.x.mo = st.x.mo[0]

    @op('squeeze(dims kept)')
    def sq2(st):
        st.X.squeeze(update_dimensions=False)
        if st.x.c.ndim == 3 and st.x.c.shape[-1] == 1:
            st.x.c = st.x.c[..., 0]
            st.x.s = st.x.s[..., 0]
            st.x.t = st.x.t[0]
            st.x.mo = st.x.mo[0]

    for i in (0, -1):
        def ix(st, i=i):
            if st.x.c.ndim != 3:
                return mc.SKIP
            st.Y = st.X.index(i)
            x = st.x
            st.y = M(x.c[..., i].copy(), x.s[..., i].copy(), x.t[i], x.mo[i])
        ops.append((f'Y=index({i})', ix))

    @op('Y=from_dict(to_dict)')
    def dd(st):
        st.Y = gt.harmonics().from_dict(st.X.to_dict())
        st.y = st.x.copy()

    @op('Y=drift')
    def dr(st):
        if st.x.c.ndim != 2:
            return mc.SKIP
        t = np.array([2003.0417, 2005.2917])
        keep = t.copy()
        st.Y = st.X.drift(t, epoch=2004.0)
        assert np.array_equal(t, keep), 'argument modified'
        w = t - 2004.0
        st.y = M(st.x.c[..., None]*w, st.x.s[..., None]*w, t.copy(),
            np.array([13, 40]))
    return ops


def truncated(x, lm, l0, mm):
    mm = lm if mm is None else mm
    shp = (lm+1, mm+1) + x.c.shape[2:]
    c, s = np.zeros(shp), np.zeros(shp)
    l1, m1 = min(lm, x.lmax)+1, min(mm, x.mmax)+1
    c[l0:l1, :m1] = x.c[l0:l1, :m1]
    s[l0:l1, :m1] = x.s[l0:l1, :m1]
    return M(c, s, x.t, x.mo)


def flatcheck(F, x):
    """a flattened object lists every coefficient exactly once"""
    want = {(l, m) for m in range(x.mmax+1) for l in range(m, x.lmax+1)}
    got = list(zip(np.asarray(F.l).tolist(), np.asarray(F.m).tolist()))
    assert len(got) == len(want) and set(got) == want, 'flattened index'
    for i, (l, m) in enumerate(got):
        assert np.allclose(F.clm[i], x.c[l, m], rtol=1e-12), 'flattened clm'
        assert np.allclose(F.slm[i], x.s[l, m], rtol=1e-12), 'flattened slm'


def shared(A, B):
    for a in ('clm', 'slm', 'time', 'month'):
        for b in ('clm', 'slm', 'time', 'month'):
            u, v = getattr(A, a), getattr(B, b)
            if isinstance(u, np.ndarray) and isinstance(v, np.ndarray) and \
                    u.size and v.size and np.shares_memory(u, v):
                return f'{a}/{b}'
    return ''


def configs():
    """starting pairs: (label, x, y)"""
    out = []
    dims = {'2x2': (2, 2), '3x1': (3, 1), '1x0': (1, 0)}
    for (a, da) in dims.items():
        for (b, db) in dims.items():
            for na, nb in ((None, None), (1, None), (2, None), (2, 2), (3, 3)):
                if na == 3 and a != b:
                    continue
                out.append((f'{a}t{na}:{b}t{nb}', make(*da, na, 0),
                    make(*db, nb, 1)))
    return out
