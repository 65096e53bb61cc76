"""P01: harmonics arithmetic, every operation history up to a depth"""
import itertools
import numpy as np
import mc, hmodel
import gravity_toolkit as gt

CHECK = mc.Check('P01', level='model_checking',
    rule='transitions: every enabled operation of the alphabet from every '
    'reachable pair of objects up to the stated depth; states: distinct pairs '
    '(coefficients, dates, dimensions); each transition runs on the real '
    'objects and on the reference model and both registers are compared',
    assumptions=['values outside the listed small dyadic alphabet are not '
    'covered; coefficients with order above degree are ignored'])


def observe(rec, st, hist):
    key = '>'.join(hist)
    hmodel.compare(rec, st.X, st.x, key + ':X')
    hmodel.compare(rec, st.Y, st.y, key + ':Y')
    if st.X is not st.Y:
        sh = hmodel.shared(st.X, st.Y)
        rec.check(not sh, key + ':shared', sh)
    return mc.digest(st.x.key(), st.y.key())


def params(tier):
    cf = hmodel.configs()
    if tier == 'quick':
        return [(i, 2) for i in range(len(cf))]
    return [(i, 3) for i in range(len(cf))]


@CHECK.block('histories', params=params)
def histories(rec, param):
    i, depth = param
    label, x, y = hmodel.configs()[i]
    ops = hmodel.operations()
    st = hmodel.S(hmodel.real(x), hmodel.real(y), x, y)
    n = mc.bfs(rec, [(label, st)], lambda s: ops, depth, observe, name=label)
    rec.notes['max_depth'] = depth


@CHECK.block('deep', params=lambda tier: list(range(4 if tier == 'quick' else 12)))
def deep(rec, i):
    """reduced alphabet, deeper"""
    cfs = [c for c in hmodel.configs() if c[0] in ('2x2t2:3x1t2', '2x2tNone:3x1tNone',
        '3x1t3:3x1t3', '3x1t2:2x2tNone')]
    label, x, y = cfs[i % len(cfs)]
    third = i // len(cfs)
    names = {'add', 'subtract', 'divide', 'swap', 'Y=copy', 'Y=scale(-2.0)',
        'convolve', 'Y=mean(True,None)', 'truncate(3,0,1)', 'truncate(3,1,None)'}
    extra = [set(), {'Y=index(-1)', 'multiply', 'expand_dims', 'squeeze'},
        {'flatten-expand', 'Y=power(2)', 'Y=zeros_like', 'add_self'}][third]
    ops = [o for o in hmodel.operations() if o[0] in names | extra]
    st = hmodel.S(hmodel.real(x), hmodel.real(y), x, y)
    mc.bfs(rec, [(label, st)], lambda s: ops, 4, observe, name='deep:' + label)


@CHECK.block('scalars')
def scalars(rec, param):
    """every kind of factor and power, applied coefficient by coefficient"""
    factors = [0, 1, -1, 3, 0.5, -2.25, 1e-9, 1e12, np.float64(0.3), np.int64(-4),
        np.array(1.5), True]
    powers = [0, 1, 2, 3, -1, -2, 0.5, 1.5, -0.5, np.float64(2.5), np.int64(3)]
    for lmax, mmax, nt in [(0, 0, None), (3, 3, None), (3, 1, None), (2, 2, 1),
            (3, 2, 2), (2, 1, 4)]:
        x = hmodel.make(lmax, mmax, nt)
        T = hmodel.tri(lmax, mmax)
        for what, vals in (('scale', factors), ('power', powers)):
            for j, v in enumerate(vals):
                key = f'{lmax}:{mmax}:{nt}:{what}:{j}'
                H = hmodel.real(x)
                H.filename = 'file'
                with rec.guard(key), np.errstate(all='ignore'):
                    Y = getattr(H, what)(v)
                    for a, b, n in ((Y.clm, x.c, 'c'), (Y.slm, x.s, 's')):
                        want = b*v if what == 'scale' else b**float(v)
                        if what == 'power' and v in (0.5, 1.5, -0.5, 2.5):
                            rec.check(np.array_equal(np.isnan(a[T]), b[T] < 0),
                                key + n + ':nan')
                        rec.check(a.shape == b.shape and np.allclose(a[T],
                            want[T], rtol=1e-14, atol=0, equal_nan=True),
                            key + n, f'{a[T]} {want[T]}')
                        rec.check(not np.shares_memory(a, getattr(H, n + 'lm')),
                            key + n + ':shared')
                    hmodel.compare(rec, H, x, key + ':operand')
                    for a, b, n in ((Y.time, x.t, 't'), (Y.month, x.mo, 'm')):
                        rec.check(b is None or np.array_equal(a, b), key + n)
                rec.case(key)
        # one factor for each date, in any order, of a single field or a series
        n = 4 if nt is None else nt
        for j, v in enumerate(itertools.permutations([2.0, -0.5, 0.0, 3.25][:n])):
            key = f'{lmax}:{mmax}:{nt}:vector:{j}'
            H = hmodel.real(x)
            arg = np.array(v)
            with rec.guard(key):
                Y = H.scale(arg)
                for a, b, k in ((Y.clm, x.c, 'c'), (Y.slm, x.s, 's')):
                    b = b[:, :, None] if nt is None else b
                    rec.check(a.shape == b.shape[:2] + (n,) and np.allclose(
                        a[T], (b*arg)[T], rtol=1e-14, atol=0), key + k)
                rec.check(np.array_equal(arg, v), key + ':argument')
                hmodel.compare(rec, H, x, key + ':operand')
            rec.case(key)


@CHECK.block('zeros')
def zeros(rec, param):
    for lmax in range(0, 5):
        for mmax in [None] + list(range(0, lmax+1)):
            for nt in (None, 1, 2, 3):
                key = f'{lmax}:{mmax}:{nt}'
                with rec.guard(key):
                    H = gt.harmonics().zeros(lmax=lmax, mmax=mmax, nt=nt)
                    mm = lmax if mmax is None else mmax
                    shp = (lmax+1, mm+1) + (() if nt is None else (nt,))
                    rec.check(H.clm.shape == shp and H.slm.shape == shp, key)
                    rec.check(not H.clm.any() and not H.slm.any(), key + ':0')
                    rec.check(not np.shares_memory(H.clm, H.slm), key + ':alias')
                    rec.check(H.lmax == lmax and H.mmax == mm, key + ':lmax')
                    if nt is not None:
                        rec.eq(np.asarray(H.time), np.zeros(nt), key + ':t')
                        rec.eq(np.asarray(H.month), np.zeros(nt), key + ':mo')
                    rec.case(key)


@CHECK.block('masked')
def masked(rec, param):
    """the triangular masked form holds every coefficient at (l, +-m)"""
    for lmax in range(0, 5):
        for mmax in range(0, lmax+1):
            for nt in (None, 1, 2):
                key = f'{lmax}:{mmax}:{nt}'
                x = hmodel.make(lmax, mmax, nt)
                H = hmodel.real(x)
                with rec.guard(key):
                    A = H.to_masked_array()
                    hmodel.compare(rec, H, x, key) if nt != 1 and nt is not None else None
                    n = 1 if nt is None else nt
                    c = x.c.reshape(lmax+1, mmax+1, n)
                    s = x.s.reshape(lmax+1, mmax+1, n)
                    want = np.ma.masked_all((lmax+1, 2*lmax+1, n))
                    for l in range(lmax+1):
                        for m in range(0, min(l, mmax)+1):
                            want[l, lmax+m] = c[l, m]
                            if m:
                                want[l, lmax-m] = s[l, m]
                    rec.close(A, want, key, rtol=1e-14)
                    rec.close(np.asarray(H.clm).reshape(c.shape), c, key + ':c')
                    rec.case(key)
