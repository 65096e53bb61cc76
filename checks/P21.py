"""P21: destriping is linear and removes only correlated high-order errors"""
import itertools
import numpy as np
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P21', level='bounded_exhaustive',
    rule='distinct (truncation, rounding, short-series option, basis or '
    'polynomial pattern) filters compared with a direct moving quadratic fit',
    assumptions=['the lower degree option does not exceed the first filtered '
        'order', 'series shorter than the window are set to zero, and kept '
        'with the narrow option, as described in the header of the module '
        '(the docstring can be read the other way around)'])


def half(m, rnd):
    w = 15.0*np.exp(-m/10.0)
    return max(2, int(np.rint(w)) if rnd else int(w))


def smoother(N, n):
    """N x N matrix: moving quadratic fit over 2n+1 points, ends included"""
    x = np.arange(-n, n + 1.0)
    # orthogonal polynomials on the window
    q, _ = np.linalg.qr(np.stack([np.ones(2*n + 1), x, x*x], axis=1))
    P = q @ q.T
    S = np.zeros((N, N))
    for i in range(n, N - n):
        S[i, i-n:i+n+1] = P[n]
    S[:n, :2*n+1] = P[:n]
    S[N-n:, N-2*n-1:] = P[n+1:]
    return S


def series(L, m):
    """degrees of each parity"""
    for par in (0, 1):
        l = np.arange(m, L + 1)
        yield l[l % 2 == par]


def expected(c, L, M, rnd, short):
    out = c.copy()
    for m in range(5, M + 1):
        n = half(m, rnd)
        for l in series(L, m):
            if len(l) >= 2*n + 1:
                y = c[l, m]
                out[l, m] = y - smoother(len(l), n) @ y
            else:
                out[l, m] = short*c[l, m]
    return out


def run(rec, key, c, s, L, M, rnd, narrow, short):
    a, b = c.copy(), s.copy()
    with rec.guard(key):
        kw = dict(LMAX=L)
        if M < L:
            kw['MMAX'] = M
        if not rnd:
            kw['ROUND'] = False
        if narrow:
            kw['NARROW'] = True
        out = gt.destripe_harmonics(a, b, **kw)
        rec.check(sorted(out) == ['clm', 'slm'], key + ':keys')
        size = max(np.abs(c).max(), np.abs(s).max())
        rec.close(out['clm'], expected(c, L, M, rnd, short), key + ':clm',
            rtol=0, atol=1e-11*size)
        rec.close(out['slm'], expected(s, L, M, rnd, short), key + ':slm',
            rtol=0, atol=1e-11*size)
        rec.check(not np.shares_memory(out['clm'], a), key + ':storage')
    rec.check(np.array_equal(a, c) and np.array_equal(b, s), key + ':inputs')


def short_factor(narrow):
    """what happens to series shorter than the window"""
    return 1.0 if narrow else 0.0


def sizes(tier):
    Ls = [5, 8, 12, 14, 20, 26, 33, 41, 45] if tier == 'quick' else \
        list(range(5, 60)) + [60, 61, 90]
    out = []
    for L in Ls:
        for M in sorted({L, max(5, L - 1), 4, 5, 6, 7, min(L, 20)}):
            if M <= L and (tier != 'quick' or M in (L, 5, 6, 20)):
                out.append((tier, L, M))
    return [[x] for x in out] if tier != 'quick' else out_groups(out, 16)


def out_groups(out, n):
    return [out[i::n] for i in range(n)]


@CHECK.block('basis', params=sizes, timeout=800)
def basis(rec, lst):
    """one point of every series at a time, cosine and sine differently"""
    for tier, L, M in lst:
        top = max(len(l) for m in range(M + 1) for l in series(L, m))
        for rnd, narrow in ((True, False), (False, True)):
            short = short_factor(narrow)
            step = 1 if tier != 'quick' else max(1, top//5)
            for k in range(0, top, step):
                c, s = np.zeros((2, L + 1, M + 1))
                for m in range(M + 1):
                    for par, l in enumerate(series(L, m)):
                        if k < len(l):
                            c[l[k], m] = 1.0 + 0.1*m
                            s[l[len(l) - 1 - k], m] = 2.0 - par
                key = f'{L}:{M}:{rnd}:{narrow}:{k}'
                rec.case(key)
                run(rec, key, c, s, L, M, rnd, narrow, short)
    rec.sample({'truncation': (L, M), 'point': k})


@CHECK.block('orders', params=lambda t: [(16, 16, m) for m in range(0, 17)]
    + [(45, 45, m) for m in ((5, 6, 9, 14) if t == 'quick' else
        range(0, 46))])
def orders(rec, arg):
    """orders, parities, cosine and sine do not influence each other"""
    L, M, m = arg
    for rnd, narrow in ((True, False), (True, True)):
        short = short_factor(narrow)
        for par, l in enumerate(series(L, m)):
            for sine in (0, 1):
                c, s = np.zeros((2, L + 1, M + 1))
                (s if sine else c)[l, m] = np.cos(1 + 2.0*l)
                key = f'{L}:{m}:{par}:{sine}:{narrow}'
                rec.case(key)
                run(rec, key, c, s, L, M, rnd, narrow, short)


@CHECK.block('polynomials', params=lambda t: [20, 33, 45] if t == 'quick'
    else [20, 26, 33, 41, 45, 60])
def polynomials(rec, L):
    """quadratic patterns are removed entirely, cubic ones are not"""
    short = short_factor(False)
    for p in range(4):
        c, s = np.zeros((2, L + 1, L + 1))
        l = np.arange(L + 1.0)/L
        for m in range(L + 1):
            c[m:, m] = l[m:]**p
            s[m:, m] = -2*l[m:]**p
        for rnd in (True, False):
            key = f'{L}:{p}:{rnd}'
            rec.case(key)
            run(rec, key, c, s, L, L, rnd, False, short)
            if p < 3:
                with rec.guard(key):
                    w = gt.destripe_harmonics(c, s, LMAX=L, ROUND=rnd)
                    for m in range(5, L + 1):
                        for d in series(L, m):
                            if len(d) > 2*half(m, rnd):
                                rec.close(w['clm'][d, m], 0*d,
                                    f'{key}:{m}:removed', atol=1e-10)


@CHECK.block('beyond', params=lambda t: [(30, 24, 24), (30, 24, 12),
    (22, 16, 16)])
def beyond(rec, arg):
    """degrees and orders beyond the bounds are untouched"""
    full, L, M = arg
    i = np.arange((full + 1)**2).reshape(full + 1, full + 1)
    c, s = np.tril(np.cos(1 + 3.0*i)), np.tril(np.sin(2 + 5.0*i))
    for rnd, narrow in itertools.product((True, False), repeat=2):
        key = f'{full}:{L}:{M}:{rnd}:{narrow}'
        rec.case(key)
        short = short_factor(narrow)
        with rec.guard(key):
            w = gt.destripe_harmonics(c, s, LMAX=L, MMAX=M, ROUND=rnd,
                NARROW=narrow)
            for n, x in (('clm', c), ('slm', s)):
                want = x.copy()
                want[:L+1, :M+1] = expected(x[:L+1, :M+1], L, M, rnd, short)
                rec.close(w[n], want, f'{key}:{n}', rtol=0, atol=1e-11)


@CHECK.block('objects', params=lambda t: [(16, 16), (16, 9), (26, 26),
    (45, 12)])
def objects(rec, arg):
    """the method of the harmonics object"""
    L, M = arg
    for nt in (0, 1, 2, 3):
        for k, kw in enumerate(({}, dict(ROUND=False), dict(NARROW=True))):
            sh = (L + 1, M + 1) + ((nt,) if nt else ())
            i = np.arange(np.prod(sh)).reshape(sh)
            Y = gt.harmonics(lmax=L, mmax=M)
            low = np.tri(L + 1, M + 1)
            low = low[:, :, None] if nt else low
            Y.clm, Y.slm = np.cos(1 + 3.0*i)*low, np.sin(2 + 5.0*i)*low
            Y.time = 2003.0 + np.arange(nt)/12 if nt else 2003.5
            Y.month = 13 + np.arange(nt) if nt else 13
            X = Y.copy()
            key = f'{L}:{M}:{nt}:{k}'
            rec.case(key)
            short = short_factor('NARROW' in kw)
            with rec.guard(key):
                Z = Y.destripe(**kw)
                for n in ('clm', 'slm'):
                    a, b = getattr(X, n), getattr(Z, n)
                    rec.eq(getattr(Y, n), a, f'{key}:{n}:operand')
                    if not rec.check(b.shape == a.shape, f'{key}:{n}:shape'):
                        continue
                    for t in range(nt or 1):
                        p, q = (a[..., t], b[..., t]) if nt else (a, b)
                        rec.close(q, expected(p, L, M, k != 1, short),
                            f'{key}:{n}:{t}', rtol=0, atol=1e-11)
                rec.eq(Z.time, Y.time, key + ':time')
                rec.eq(Z.month, Y.month, key + ':month')
                rec.check(Z.lmax == L and Z.mmax == M, key + ':truncation')
    rec.raises(lambda: gt.destripe_harmonics(np.ones((1, 5)), np.ones((1, 5))),
        'not a matrix')
