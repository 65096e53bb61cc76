"""P36: geocenter vectors and degree-one harmonics describe the same motion"""
import itertools
import numpy as np
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P36', level='model_checking',
    rule='transitions: every enabled operation from every reachable pair of '
    'geocenter objects up to the stated depth; states: distinct pairs of '
    'objects; each transition runs on the real objects and on a model of '
    'three components, and both objects are compared',
    assumptions=['dates are dropped by the matrix form', 'errors of sums, '
        'products, means and powers are not specified', 'Cartesian '
        'coordinates are specified after conversions and in copies only'])

C = ('C10', 'C11', 'S11')
E = ('eC10', 'eC11', 'eS11')
X = ('Z', 'X', 'Y')             # the axes of C10, C11 and S11
XE = ('Z_sigma', 'X_sigma', 'Y_sigma')
R0 = 1000.0*6378137.0*(1 - 1/298.257223563)**(1/3)
RHO, RAD = 5.517, 6.371e8       # of water equivalents


class M:
    """components of degree one, errors and coordinates (None: unspecified)"""
    def __init__(self, c, e=None, x=None, xe=None, t=None, mo=None, r=R0):
        self.c, self.e, self.x, self.xe = c, e, x, xe
        self.t, self.mo, self.r = t, mo, r

    def copy(self):
        cp = lambda a: None if a is None else [np.copy(v) for v in a]
        one = lambda v: None if v is None else np.copy(v)
        return M(cp(self.c), cp(self.e), cp(self.x), cp(self.xe),
            one(self.t), one(self.mo), self.r)

    def key(self):
        return (self.c, self.e, self.x, self.xe, self.t, self.mo, self.r)


class S:
    def __init__(self, A, B, a, b):
        self.A, self.B, self.a, self.b = A, B, a, b


def make(n, r, dated, errors, k):
    """model with different numbers in every component and date"""
    shape = () if n is None else (n,)
    size = 1 if n is None else n
    val = lambda q: np.array([(-1)**(q + i)*(1 + q + 0.5*i + 0.25*k)
        for i in range(size)]).reshape(shape)
    t = np.array([2003 + (4*i + 1 + k)/8 for i in range(size)]).reshape(
        shape) if dated else None
    mo = np.array([14 + 6*i + k for i in range(size)]).reshape(shape) if \
        dated else None
    return M([val(q) for q in range(3)], [abs(val(q + 3)) for q in range(3)]
        if errors else None, t=t, mo=mo, r=r)


def real(m):
    g = gt.geocenter(radius=m.r) if m.r != R0 else gt.geocenter()
    for n, v in zip(C, m.c):
        setattr(g, n, np.copy(v))
    for n, v in zip(E, m.e or ()):
        setattr(g, n, np.copy(v))
    if m.t is not None:
        g.time, g.month = np.copy(m.t), np.copy(m.mo)
    return g


def compare(rec, g, m, key):
    for names, want in ((C, m.c), (E, m.e), (X, m.x), (XE, m.xe)):
        for n, w in zip(names, want or ()):
            v = getattr(g, n, None)
            ok = v is not None and np.shape(v) == np.shape(w)
            if ok:
                top = max(float(np.max(np.abs(w), initial=0.0)), 1e-300)
                ok = np.all(np.abs(np.asarray(v) - w) <= 1e-6*abs(w) +
                    1e-12*top)
            if not ok:
                rec.fail(f'{key}:{n}', f'{v} {w}')
                return
    for n, w in (('time', m.t), ('month', m.mo)):
        v = getattr(g, n, None)
        if w is None:
            none = v is None or np.ndim(v) == 0 and np.asarray(v).item() is \
                None
            rec.check(none, f'{key}:{n}', str(v))
        else:
            rec.check(v is not None and np.shape(v) == np.shape(w) and
                np.allclose(np.asarray(v, float), w, rtol=1e-12),
                f'{key}:{n}', lambda: f'{v} {w}')
    rec.check(abs(g.radius - m.r) < 1e-6*m.r, key + ':radius', str(g.radius))
    rec.check(list(g.fields) == list(C), key + ':fields')
    if m.mo is not None:
        rec.check(len(g) == np.size(m.mo), key + ':months')
        s = str(g)
        if float(np.min(m.mo)) == int(np.min(m.mo)):
            rec.check(str(int(np.min(m.mo))) in s and (np.max(m.mo) !=
                int(np.max(m.mo)) or str(int(np.max(m.mo))) in s), key +
                ':text', s)


def shared(A, B):
    for a, b in itertools.product(C + E + X + XE + ('time', 'month'),
            repeat=2):
        u, v = getattr(A, a, None), getattr(B, b, None)
        if isinstance(u, np.ndarray) and isinstance(v, np.ndarray) and \
                np.shares_memory(u, v):
            return f'{a}/{b}'
    return ''


def observe(rec, st, hist):
    key = '>'.join(hist)
    compare(rec, st.A, st.a, key + ':A')
    compare(rec, st.B, st.b, key + ':B')
    if st.A is not st.B:
        rec.check(not shared(st.A, st.B), key + ':shared', shared(st.A, st.B))
    rd = lambda v: None if v is None else np.array([float(f'{q:.9e}') for q in
        np.ravel(v)]).tolist() + [list(np.shape(v))]
    flat = lambda m: [None if p is None else [rd(q) for q in p] for p in
        m.key()[:4]] + [rd(m.t), rd(m.mo), m.r]
    return mc.digest(str(flat(st.a)), str(flat(st.b)))


OPS = []


def op(name):
    def deco(fn):
        OPS.append((name, fn))
        return fn
    return deco


def fits(a, b):
    """in-place arithmetic keeps the shape of the first object"""
    try:
        return np.broadcast_shapes(a.c[0].shape, b.c[0].shape) == \
            a.c[0].shape
    except ValueError:
        return False


def large(m):
    v = [np.max(np.abs(q)) for q in m.c]
    return max(v) > 1e60 or 0 < min(v) < 1e-60


for _n, _f in (('add', np.add), ('subtract', np.subtract), ('multiply',
        np.multiply), ('divide', np.divide)):
    def arith(st, n=_n, f=_f):
        if not fits(st.a, st.b) or large(st.a) or large(st.b):
            return mc.SKIP
        if n == 'divide' and any((np.abs(q) <= max(1e-60, 1e-9*max(
                np.max(np.abs(v)) for v in st.b.c))).any() for q in st.b.c):
            return mc.SKIP
        R = getattr(st.A, n)(st.B)
        assert R is st.A
        st.a.c = [f(p, q) for p, q in zip(st.a.c, st.b.c)]
        st.a.e = st.a.x = st.a.xe = None
    OPS.append((_n, arith))


@op('swap')
def swap(st):
    st.A, st.B, st.a, st.b = st.B, st.A, st.b, st.a


@op('B=copy')
def cp(st):
    st.B, st.b = st.A.copy(), st.a.copy()


@op('B=to_dict')
def dd(st):
    d = st.A.to_dict()
    assert set(C) <= set(d)
    g = gt.geocenter(radius=st.A.radius)
    R = g.from_dict(d)
    assert R is g
    for v in d.values():        # neither object lives in the dictionary
        if isinstance(v, np.ndarray) and v.dtype.kind in 'fi':
            v += 3 if v.dtype.kind == 'i' else 3.5
    st.B, st.b = g, st.a.copy()


for _v in (-2.0, 0.5, 'per date'):
    def scale(st, v=_v):
        n = np.shape(st.a.c[0])
        if v == 'per date':
            if not n:
                return mc.SKIP
            v = np.arange(1.0, n[0] + 1)
        st.B = st.A.scale(v)
        st.b = M([v*q for q in st.a.c], t=st.a.t, mo=st.a.mo,
            r=st.a.r).copy()
    OPS.append((f'B=scale({_v})', scale))

for _p in (2, 0.5):
    def power(st, p=_p):
        if p == 0.5 and any((q < 0).any() for q in st.a.c) or large(st.a):
            return mc.SKIP
        st.B = st.A.power(p)
        st.b = M([q**p for q in st.a.c], t=st.a.t, mo=st.a.mo,
            r=st.a.r).copy()
    OPS.append((f'B=power({_p})', power))

for _a, _i in ((False, None), (True, None), (False, [0, -1]), (True, [0])):
    def mean(st, apply=_a, ind=_i):
        if not np.shape(st.a.c[0]):
            return mc.SKIP
        kw = {} if ind is None else {'indices': ind}
        sel = slice(None) if ind is None else ind
        if any(abs(np.mean(q[sel])) < 1e-9*np.max(np.abs(q)) for q in st.a.c):
            return mc.SKIP      # only rounding errors are left
        st.B = st.A.mean(apply=apply, **kw)
        mu = [np.mean(q[sel]) for q in st.a.c]
        st.b = M(mu, r=st.a.r)
        if st.a.t is not None:
            st.b.t, st.b.mo = np.mean(st.a.t[sel]), np.mean(st.a.mo[sel])
        if apply:
            st.a.c = [q - w for q, w in zip(st.a.c, mu)]
            st.a.x = st.a.xe = None
    OPS.append((f'B=mean({_a},{_i})', mean))

for _k in (0.0, 0.021, -0.4):
    for _u, _f in (('cmwe', 1.0), ('mmwe', 10.0)):
        def to(st, u=_u, f=_f, k=_k):
            if large(st.a):
                return mc.SKIP
            assert (getattr(st.A, f'to_{u}')(kl=k) if k else
                getattr(st.A, f'to_{u}')()) is st.A
            w = f*RHO*RAD/(1 + k)
            st.a.c = [q*w for q in st.a.c]
            st.a.e = None if st.a.e is None else [q*w for q in st.a.e]

        def back(st, u=_u, f=_f, k=_k):
            if large(st.a):
                return mc.SKIP
            assert (getattr(st.A, f'from_{u}')(kl=k) if k else
                getattr(st.A, f'from_{u}')()) is st.A
            w = f*RHO*RAD/(1 + k)
            st.a.c = [q/w for q in st.a.c]
            st.a.e = None if st.a.e is None else [q/w for q in st.a.e]
        if _k != -0.4 or _u == 'mmwe':
            OPS.append((f'to_{_u}({_k})', to))
            OPS.append((f'from_{_u}({_k})', back))

    def cart(st, k=_k):
        if large(st.a):
            return mc.SKIP
        R = st.A.to_cartesian(kl=k) if k else st.A.to_cartesian()
        assert R is st.A
        w = st.a.r*np.sqrt(3.0)/(1 + k)
        st.a.x = [q*w for q in st.a.c]
        st.a.xe = None if st.a.e is None else [q*w for q in st.a.e]
    OPS.append((f'to_cartesian({_k})', cart))

    def sph(st, k=_k):
        if st.a.x is None:
            return mc.SKIP
        R = st.A.from_cartesian(kl=k) if k else st.A.from_cartesian()
        assert R is st.A
        w = st.a.r*np.sqrt(3.0)/(1 + k)
        st.a.c = [q/w for q in st.a.x]
        st.a.e = None if st.a.xe is None else [q/w for q in st.a.xe]
    OPS.append((f'from_cartesian({_k})', sph))


@op('B=from_matrix')
def matrix(st):
    d = st.A.to_matrix()
    assert set(d) == {'clm', 'slm'}
    n = np.size(st.a.c[0])
    for v in d.values():
        assert v.shape == (2, 2, n)
    w = {'clm': np.zeros((2, 2, n)), 'slm': np.zeros((2, 2, n))}
    w['clm'][1, 0], w['clm'][1, 1], w['slm'][1, 1] = st.a.c
    for q in w:
        top = max(np.max(np.abs(w[q])), 1e-300)
        assert (abs(d[q] - w[q]) <= 1e-6*abs(w[q]) + 1e-12*top).all(), q
    st.B = gt.geocenter(radius=st.A.radius).from_matrix(**d)
    st.b = M([np.atleast_1d(q).copy() for q in st.a.c], r=st.a.r)


@op('B=from_harmonics')
def harm(st):
    y = gt.harmonics(lmax=2, mmax=2)
    shape = (3, 3) + np.shape(st.a.c[0])
    y.clm = np.arange(np.prod(shape), dtype=float).reshape(shape) + 99
    y.slm = -y.clm
    y.clm[1, 0], y.clm[1, 1], y.slm[1, 1] = [getattr(st.A, n) for n in C]
    if st.a.t is not None:
        y.time, y.month = np.copy(st.a.t), np.copy(st.a.mo)
    keep = y.clm.copy(), y.slm.copy()
    st.B = gt.geocenter(radius=st.A.radius).from_harmonics(y)
    assert (y.clm == keep[0]).all() and (y.slm == keep[1]).all()
    assert not any(np.shares_memory(getattr(st.B, n), v) for n in C for v in
        (y.clm, y.slm)), 'storage of the harmonics'
    st.b = M(st.a.c, t=st.a.t, mo=st.a.mo, r=st.a.r).copy()


for _j in (0, 1):
    def nxt(st, j=_j):
        if st.a.t is None or np.ndim(st.a.t) != 1 or np.shape(st.a.t) != \
                np.shape(st.a.c[0]):
            return mc.SKIP
        items = [g for g in st.A]
        assert len(items) == len(st.a.t), 'number of dates'
        if j >= len(items):
            return mc.SKIP
        st.B = items[j]
        st.b = M([q[j].copy() for q in st.a.c], t=st.a.t[j].copy(),
            mo=st.a.mo[j].copy(), r=st.a.r)
    OPS.append((f'B=date {_j}', nxt))


@op('get')
def get(st):
    for n, q in zip(C, st.a.c):
        v = st.A.get(n)
        assert not (isinstance(v, np.ndarray) and v.size and
            np.shares_memory(v, getattr(st.A, n))), 'storage'
        assert np.allclose(v, q, rtol=1e-6, atol=1e-12*np.max(np.abs(q)))
        assert st.A[n] is getattr(st.A, n)
    return mc.SKIP


def configs():
    out = []
    for n, m in ((None, None), (1, 1), (2, 2), (3, 3), (2, None), (3, 1)):
        for r, q in ((R0, R0), (6.371e9, R0), (6.4e9, 6.371e9)):
            for dated, errors in ((True, False), (True, True), (False,
                    True)):
                out.append((f'{n}:{m}:{r:.4g}:{q:.4g}:{dated}:{errors}',
                    make(n, r, dated, errors, 0), make(m, q, dated, errors,
                    1)))
    return out


@CHECK.block('histories', params=lambda tier: [(i, 2 if tier == 'quick' else
    3) for i in range(len(configs()))], timeout=900)
def histories(rec, arg):
    i, depth = arg
    label, a, b = configs()[i]
    st = S(real(a), real(b), a, b)
    mc.bfs(rec, [(label, st)], lambda s: OPS, depth, observe, name=label)
    rec.notes['max_depth'] = depth


DEEP = ({'add', 'B=copy', 'swap', 'B=scale(-2.0)', 'to_cartesian(0.021)',
    'from_cartesian(0.021)', 'B=mean(True,None)'}, {'subtract', 'swap',
    'B=from_matrix', 'B=from_harmonics', 'B=date 1', 'to_mmwe(0.021)',
    'B=to_dict'}, {'divide', 'multiply', 'swap', 'B=power(2)', 'B=copy',
    'from_mmwe(0.0)', 'B=mean(True,[0])', 'to_cartesian(0.0)'})


@CHECK.block('deep', params=lambda tier: [(i, k, 4 if tier == 'quick' else 5)
    for i in (1, 10, 19, 23, 28, 39) for k in range(len(DEEP))], timeout=900)
def deep(rec, arg):
    """fewer operations, longer histories"""
    i, k, depth = arg
    label, a, b = configs()[i]
    ops = [o for o in OPS if o[0] in DEEP[k]]
    st = S(real(a), real(b), a, b)
    mc.bfs(rec, [(label, st)], lambda s: ops, depth, observe, name='deep:' +
        label)


@CHECK.block('axes')
def axes(rec, arg):
    """each component moves along its own axis, for any radius"""
    for r in (1.0, 6.371e9, 6.378137e9, None):
        for kl in (0.0, 0.021, 0.02601378180, -0.2, 0.5):
            for n in (None, 1, 2, 5):
                for k in range(3):
                    key = f'{r}:{kl}:{n}:{k}'
                    rec.case(key)
                    shape = () if n is None else (n,)
                    v = [np.zeros(shape) for _ in range(3)]
                    v[k] = np.full(shape, 2.0) if n is None else \
                        np.arange(1.0, n + 1)
                    R = R0 if r is None else r
                    kw = {} if r is None else {'radius': r}
                    with rec.guard(key):
                        g = gt.geocenter(**kw, **dict(zip(X, [q.copy() for q
                            in v])))
                        g.from_cartesian(kl=kl)
                        for n2, q in zip(C, v):
                            rec.close(getattr(g, n2), (1 + kl)*q/(R*3**0.5),
                                f'{key}:{n2}', rtol=1e-9, atol=0)
                        for n2 in X:
                            setattr(g, n2, None)
                        g.to_cartesian(kl=kl)
                        for n2, q in zip(X, v):
                            rec.close(getattr(g, n2), q, f'{key}:{n2}',
                                rtol=1e-12, atol=0)
    rec.sample({'axes': list(X)})
