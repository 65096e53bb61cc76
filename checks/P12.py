"""P12: Legendre functions of every provided method are the 4-pi normalised
associated Legendre functions, truncated as requested"""
import numpy as np
import mc, ref
import gravity_toolkit as gt
from gravity_toolkit.legendre import legendre
from gravity_toolkit.legendre_polynomials import legendre_polynomials

CHECK = mc.Check('P12', level='exploration',
    rule='every (routine, maximum degree, maximum order, argument set, dtype, '
    'input shape) in the listed ranges; a case is non-trivial when the '
    'function value is not identically zero; oracle: exact rational arithmetic',
    assumptions=['derivatives at the two poles themselves are not specified '
    '(the routines divide by sin(theta))',
    'arguments outside the listed grid are not covered'])

METHODS = ['colombo', 'holmes', 'mohlenkamp']
XS = [-1.0, -0.999, -0.75, -0.5, -1/3, -1e-3, 0.0, 1e-9, 0.1, 0.5,
    np.cos(np.radians(30.25)), 0.9, 0.9999, 1.0]


def lmaxes(tier):
    return list(range(0, 13)) + [20, 30] + ([45, 60] if tier == 'thorough' else [])


@CHECK.block('plm', params=lambda tier: [(m, l) for m in METHODS
    for l in lmaxes(tier)])
def plm_block(rec, param):
    method, lmax = param
    x = np.array(XS)
    want = ref.plm(lmax, x)
    dwant = ref.dplm_theta(lmax, x)
    inner = np.abs(x) < 1
    mmaxes = [None] + (list(range(0, lmax+1)) if lmax <= 12 else [0, 1, 2, 7, lmax])
    for mmax in mmaxes:
        mm = lmax if mmax is None else mmax
        key = f'{method}:L{lmax}:M{mmax}'
        with rec.guard(key):
            p, dp = gt.associated_legendre(lmax, x, method=method, MMAX=mmax)
            rec.close(p, want[:, :mm+1], key + ':plm', rtol=1e-9, atol=1e-11)
            rec.check(np.shape(dp) == np.shape(p), key + ':dshape',
                f'derivative shape {np.shape(dp)} values {np.shape(p)}')
            rec.close(np.asarray(dp)[:, :mm+1][..., inner],
                dwant[:, :mm+1][..., inner], key + ':dplm',
                rtol=1e-7, atol=3e-8*max(lmax, 1))
            rec.case(key)
        # the method's own routine and the generic interface agree
        fn = dict(colombo=gt.associated_legendre, holmes=gt.plm_holmes,
            mohlenkamp=gt.plm_mohlenkamp)[method]
        with rec.guard(key + ':own'):
            kw = {} if mmax is None else dict(MMAX=mmax)
            if method == 'colombo':
                kw['method'] = 'colombo'
            q, dq = fn(lmax, x, **kw)
            rec.eq(q, p, key + ':own')
            rec.case(key + ':own')
    # one argument at a time, scalars, columns and other precisions
    for i, v in enumerate(XS):
        for form in ('scalar', 'row', 'column'):
            key = f'{method}:L{lmax}:x{i}:{form}'
            arg = {'scalar': v, 'row': [[v]], 'column': np.array([[v], [v]])}[form]
            with rec.guard(key):
                p, dp = gt.associated_legendre(lmax, np.array(arg), method=method)
                n = np.size(arg)
                rec.close(p, np.repeat(want[:, :, i:i+1], n, axis=2), key,
                    rtol=1e-9, atol=1e-11)
                rec.case(key)
    key = f'{method}:L{lmax}:f128'
    with rec.guard(key):
        p, dp = gt.associated_legendre(lmax, x, method=method, astype=np.longdouble)
        rec.close(p, want, key, rtol=1e-9, atol=1e-11)
        rec.case(key)
    rec.sample({'method': method, 'lmax': lmax, 'x': XS})


@CHECK.block('default')
def default_block(rec, param):
    x = np.array(XS)
    for lmax in (2, 5, 9):
        with rec.guard(f'default:{lmax}'):
            p, dp = gt.associated_legendre(lmax, x)
            rec.close(p, ref.plm(lmax, x), f'default:{lmax}', rtol=1e-9, atol=1e-11)
            rec.case(lmax)
    for name in METHODS:
        for form in (name.upper(), name.title()):
            with rec.guard(f'case:{form}'):
                p, dp = gt.associated_legendre(4, x, method=form)
                rec.close(p, ref.plm(4, x), f'case:{form}', rtol=1e-9, atol=1e-11)
                rec.case(form)
    for bad in ('', 'holme', 'unknown', 'plm_holmes'):
        rec.raises(lambda: gt.associated_legendre(3, x, method=bad),
            f'unknown:{bad}', (ValueError, KeyError, AttributeError))
        rec.case(('bad', bad))


@CHECK.block('inputs')
def inputs_block(rec, param):
    """arguments are left as they were given"""
    for method in METHODS:
        for dt in (np.float64, np.float32, np.longdouble):
            x = np.array(XS, dtype=dt)
            keep = x.copy()
            key = f'{method}:{np.dtype(dt).name}'
            with rec.guard(key):
                p, dp = gt.associated_legendre(6, x, method=method)
                rec.eq(x, keep, key + ':mutated')
                rec.close(p, ref.plm(6, keep.astype(float)), key, rtol=1e-5, atol=1e-5)
                rec.case(key)


@CHECK.block('high', params=lambda tier: [(m, L) for m in METHODS
    for L in ([60, 120] if tier == 'quick' else [60, 90, 120, 180])])
def high_block(rec, param):
    """orthonormality of every pair of degrees by exact quadrature"""
    method, L = param
    n = L + 1
    x, w = ref.gauss_quadrature(n)
    with rec.guard(f'{method}:{L}'):
        p, dp = gt.associated_legendre(L, x, method=method)
        for m in range(L+1):
            g = np.einsum('in,jn,n->ij', p[m:, m], p[m:, m], w)
            want = np.eye(L+1-m)*(2.0 if m == 0 else 4.0)
            rec.close(g, want, f'{method}:{L}:orthonormal:m{m}', atol=3e-9)
            rec.case((method, L, m), n=(L+1-m)*(L+2-m)//2)
        # derivative against the ladder formula
        d = ref.dplm_theta(L, x)
        rec.close(dp, d, f'{method}:{L}:derivative', rtol=1e-6, atol=1e-6*L)
        # zero above the diagonal
        up = np.triu(np.ones((L+1, L+1)), 1).astype(bool)
        rec.check(not np.any(p[up]), f'{method}:{L}:upper')


@CHECK.block('poly', params=lambda tier: list(range(0, 31)) +
    ([40, 60, 90] if tier == 'thorough' else [40]))
def poly_block(rec, lmax):
    x = np.array(XS)
    want = np.stack([ref.plm_exact(lmax, float(v), 0)[:, 0] for v in x], axis=-1)
    inner = np.abs(x) < 1
    key = f'pl:{lmax}'
    with rec.guard(key):
        keep = x.copy()
        pl, dpl = legendre_polynomials(lmax, x)
        rec.eq(x, keep, key + ':mutated')
        rec.close(pl, want, key, rtol=1e-9, atol=1e-11)
        d = np.zeros_like(want)
        for i, v in enumerate(x):
            p1 = ref.plm_exact(lmax, float(v), 1)[:, 1] if lmax else np.zeros(1)
            l = np.arange(lmax+1)
            d[:, i] = -np.sqrt(l*(l+1)/2.0)*p1
        rec.close(dpl[:, inner], d[:, inner], key + ':d', rtol=1e-7,
            atol=3e-8*max(lmax, 1))
        rec.case(key)
    with rec.guard(key + ':f128'):
        # the requested precision is the one of the result
        xl = np.array([np.longdouble(k)/10 for k in (-9, -3, 1, 7)])
        pl, dpl = legendre_polynomials(lmax, xl, ASTYPE=np.longdouble)
        q = [np.ones(4, np.longdouble), xl.copy()]
        for l in range(2, lmax + 1):
            q.append(((2*l - 1)*xl*q[-1] - (l - 1)*q[-2])/np.longdouble(l))
        w = np.array([v*np.sqrt(np.longdouble(2*l + 1)) for l, v in
            enumerate(q[:lmax + 1])])
        rec.check(pl.dtype == np.longdouble, key + ':f128:type')
        rec.check(pl.shape == w.shape and np.all(np.abs(pl/
            np.sqrt(2*np.arange(lmax + 1) + 1.0)[:, None] - np.array(q[:lmax + 1]))
            < 1e-13), key + ':f128')
        rec.case(key + ':f128')
    for i, v in enumerate(XS):
        with rec.guard(f'{key}:x{i}'):
            pl, dpl = legendre_polynomials(lmax, v)
            rec.close(pl, want[:, i:i+1], f'{key}:x{i}', rtol=1e-9, atol=1e-11)
            rec.case((key, i))


@CHECK.block('degree', params=lambda tier: list(range(0, 21)) + [30, 50, 80] +
    ([60, 100, 140] if tier == 'thorough' else []))
def degree_block(rec, l):
    """single-degree routine: normalised and unnormalised"""
    import math
    grids = {'grid': np.array(XS), 'colat': np.cos(np.radians(np.arange(0, 181, 7.5))),
        'polar': np.cos(np.radians([0.01, 0.1, 0.5, 1.0, 2.0, 5.0, 175.0, 178.0,
            179.0, 179.5, 179.9, 179.99]))}
    for gname, x in grids.items():
        want = np.stack([ref.plm_exact(l, float(v))[l] for v in x], axis=-1) \
            if l <= 50 else ref.plm_fast(l, x)[l]
        m = np.arange(l+1)
        key = f'l{l}:{gname}'
        with rec.guard(key + ':norm'):
            keep = x.copy()
            P = legendre(l, x, NORMALIZE=True)
            rec.eq(x, keep, key + ':mutated')
            rec.close(P, want, key + ':norm', rtol=1e-7, atol=1e-9*np.sqrt(2*l+1))
            rec.case(key + ':norm')
        if l <= 80:
            with rec.guard(key + ':raw'):
                P = legendre(l, x)
                sc = np.array([(-1)**k*math.sqrt(math.factorial(l+k)
                    // math.factorial(l-k))/math.sqrt((1 if k == 0 else 2)
                    * (2*l+1)) for k in m])
                rec.check(P.shape == want.shape, key + ':raw:shape')
                rec.close(P/sc[:, None], want, key + ':raw', rtol=1e-7,
                    atol=1e-9*np.sqrt(2*l+1))
                rec.case(key + ':raw')
        for i in range(len(x)):
            with rec.guard(f'{key}:scalar{i}'):
                P = legendre(l, x[i], NORMALIZE=True)
                rec.close(P, want[:, i:i+1], f'{key}:scalar{i}', rtol=1e-7,
                    atol=1e-9*np.sqrt(2*l+1))
                rec.case((key, 's', i))
