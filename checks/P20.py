"""P20: smoothing kernels have unit mean and the specified half-width"""
import itertools
import numpy as np
from scipy.special import ive
import mc
import ref
import gravity_toolkit as gt
from checks.P14 import basis, dense

CHECK = mc.Check('P20', level='bounded_exhaustive',
    rule='distinct (radius, maximum degree) weights and (region, error, '
    'radius, truncation, unit) kernels compared with their definition',
    assumptions=['the forward recursion is compared within its own rounding '
        'error bound, which is kept below 1e-7 of the degree-zero weight',
        'kernels are compared where the Gaussian is above 1e-6 of its '
        'degree-zero value'])

RADII = (0.0, 1e-12, 1e-9, 1e-3, 1.0, 10.0, 25.0, 50.0, 100.0, 150.0, 200.0,
    250.0, 300.0, 350.0, 400.0, 500.0, 600.0, 750.0, 1000.0, 1500.0, 2000.0,
    3000.0, 5000.0, 10000.0, 20000.0)


def bound(b, w):
    """rounding error of the recursion"""
    e = np.zeros(len(w))
    eps = 4e-16*max(1.0, 1/b)
    for l in range(len(w)):
        e[l] = eps + (2*l - 1)/b*e[l-1] + e[l-2] if l > 1 else eps
    return np.minimum(30*e, 1e-7)


def degrees(tier):
    top = 120 if tier == 'quick' else 360
    out = list(range(0, top + 1))
    return [out[i::8] for i in range(8)]


@CHECK.block('weights', params=degrees)
def weights(rec, lst):
    for L in lst:
        last = None
        for hw in RADII:
            key = f'{hw}:{L}'
            rec.case(key)
            with rec.guard(key):
                w = 2*np.pi*gt.gauss_weights(hw, L)
                rec.check(w.shape == (L + 1,), key + ':shape')
                if hw < 1e-6:
                    want, tol = np.ones(L + 1), np.full(L + 1, 1e-12)
                else:
                    b = np.log(2)/(2*np.sin(hw/6371.0/2)**2)
                    if hw < 0.1:
                        l = np.arange(L + 1)
                        want = np.exp(-l*(l + 1)/(2*b))
                        tol = np.full(L + 1, 1e-6)
                    else:
                        want = ref.gauss(hw, L)
                        # rounding of 1 - cos in the definition
                        tol = bound(b, want) + 1e-15*np.arange(L + 1)**2
                rec.check(w[0] == 1 or abs(w[0] - 1) < 1e-14, key + ':mean',
                    f'{w[0]!r}')
                bad = np.flatnonzero(np.abs(w - want) > tol)
                rec.check(not len(bad), key + ':value', lambda: f'degree '
                    f'{bad[0]}: {w[bad[0]]!r} want {want[bad[0]]!r}')
                rec.check(np.all(w >= 0), key + ':negative')
                rec.check(np.all(np.diff(w) <= 1e-7), key + ':increasing')
                if last is not None:
                    rec.check(np.all(w <= last + 1e-7), key + ':radius')
                last = w
    rec.sample({'radii': RADII, 'degree': L})


@CHECK.block('halfwidth', params=lambda t: [(h, t) for h in (250.0, 500.0,
    1000.0, 2000.0, 5000.0)])
def halfwidth(rec, arg):
    """the averaging function falls to one half at the radius"""
    hw, tier = arg
    L = int(8*6371/hw) + 20
    w = gt.gauss_weights(hw, L)*2*np.pi
    l = np.arange(L + 1)

    def value(psi):
        p = ref.plm_fast(L, np.cos(psi))[:, 0, 0]
        return (np.sqrt(2*l + 1)*w*p).sum()
    with rec.guard(f'{hw}'):
        rec.case(hw)
        # exp(-b (1 - cos)) equals one half at the radius
        b = np.log(2)/(2*np.sin(hw/6371.0/2)**2)
        tail = np.exp(-2*b)
        rec.close(value(hw/6371.0)/value(0.0), 0.5, f'{hw}:half', rtol=0,
            atol=1e-4 + tail)


@CHECK.block('cutoff')
def cutoff(rec, _):
    for hw, L, c in itertools.product((300.0, 1000.0, 3000.0), (20, 60),
            (1e-10, 1e-6, 1e-3)):
        key = f'{hw}:{L}:{c}'
        rec.case(key)
        with rec.guard(key):
            w = gt.gauss_weights(hw, L, CUTOFF=c)
            r = ref.gauss(hw, L)/(2*np.pi)
            low = np.flatnonzero(r < c*0.9)
            if len(low):
                rec.eq(w[low], np.full(len(low), c), key + ':tail')
            high = np.flatnonzero(r > max(c*1.1, 1e-7))
            rec.close(w[high], r[high], key + ':head', rtol=1e-4,
                atol=1e-8)


def kernel(c, s, ec, es, sigma, hw, L, M, f):
    """minimum error kernel from its definition"""
    b = np.log(2)/(2*np.sin(hw*1e5/ref.Earth.R/2)**2)
    l = np.arange(L + 1)
    g = 2*np.sqrt(np.pi/(2*b))*ive(l + 0.5, b)
    area = c[0, 0]
    p = sum(g[i]/2*(c[i, :min(i, M)+1]**2 + s[i, :min(i, M)+1]**2).sum()
        for i in range(L + 1))
    s0 = sigma**2/(p/area**2)
    q = 2*(f**2/(g*s0))[:, None]
    return c/(1 + q*ec**2)/area, s/(1 + q*es**2)/area, g


def region(lon, lat, km, L, M):
    """exact harmonics of a circular region"""
    from checks.P17 import window, ylm
    g = window(L, np.cos(km/6371.0))
    a, b = ylm(L, M, lon, lat)
    return a*g[:, None], b*g[:, None]


def truncations(tier):
    top = 6 if tier == 'quick' else 14
    out = [(L, M) for L in range(0, top + 1) for M in range(L + 1)]
    if tier != 'quick':
        out += [(30, 30), (40, 11)]
    return [out[i::8] for i in range(8)]


@CHECK.block('kernels', params=truncations)
def kernels(rec, lst):
    for L, M in lst:
        love = ref.love(L)
        f = ref.unit_factor('cmwe', L, *love)
        l = np.arange(L + 1.0)[:, None]
        fields = [('none', np.zeros((L + 1, M + 1)), np.zeros((L + 1, M + 1)))]
        fields += [('flat', np.full((L + 1, M + 1), 1e-12),
            np.full((L + 1, M + 1), 2e-12))]
        fields += [('rough', 1e-12*(1 + l)*np.cos(1 + np.arange(M + 1)),
            1e-12*(1 + l**2)*np.sin(2 + np.arange(M + 1)))]
        for (lon, lat, km), hw, unit in itertools.product(
                ((40.0, 70.0, 1500.0), (-75.0, -90.0, 3000.0),
                 (180.0, 0.0, 800.0)), (300.0, 600.0, 2000.0), (0, 1)):
            c, s = region(lon, lat, km, L, M)
            for name, ec, es in fields:
                e = 1.0 if unit == 0 else 1e8
                for sigma in (1.0, 10.0):
                    key = f'{L}:{M}:{lon}:{km}:{hw}:{unit}:{name}:{sigma}'
                    rec.case(key)
                    w, v, g = kernel(c, s, ec*e, es*e, sigma, hw, L, M,
                        f if unit == 0 else np.ones(L + 1))
                    args = [x.copy() for x in (c, s, ec*e, es*e)]
                    if M < L and sigma > 1:
                        # further orders of the region are left out
                        C, S = region(lon, lat, km, L, L)
                        args[:2] = C, S
                    keep = [x.copy() for x in args]
                    with rec.guard(key):
                        kw = dict(MMAX=M) if (M < L or sigma > 1) else {}
                        Y = gt.gen_averaging_kernel(*args, sigma, hw, LMAX=L,
                            UNITS=unit, LOVE=love if unit == 0 else None, **kw)
                        rec.check(Y.lmax == L and Y.mmax == M and
                            Y.clm.shape == (L + 1, M + 1), key + ':shape')
                        ok = g > (1e-6 if L <= 8 else 1e-4)*g[0]
                        tol = dict(rtol=1e-7 if L <= 8 else 1e-5, atol=1e-14)
                        rec.close(Y.clm[ok], w[ok], key + ':clm', **tol)
                        rec.close(Y.slm[ok], v[ok], key + ':slm', **tol)
                        if name == 'none':
                            # the mean over the region
                            rec.close(Y.clm[0, 0], 1.0, key + ':mean',
                                rtol=1e-12)
                    rec.check(all(np.array_equal(x, y) for x, y in
                        zip(args, keep)), key + ':inputs')
    rec.sample({'truncation': (L, M), 'region': (lon, lat, km)})


@CHECK.block('tail', params=lambda tier: [(L, M) for L in ((6, 9) if tier ==
    'quick' else (4, 6, 9, 14)) for M in (None, L, 2)])
def tail(rec, arg):
    """weights below the limit are the limit from that degree on"""
    L, M = arg
    love = ref.love(L)
    f = ref.unit_factor('cmwe', L, *love)
    top = L if M is None else M
    l = np.arange(L + 1.0)[:, None]
    ec, es = 1e-12*(1 + l)*np.ones(top + 1), 2e-12*(1 + l)*np.ones(top + 1)
    for (lon, lat, km), hw, cut in itertools.product(((40.0, 70.0, 1500.0),
            (180.0, 0.0, 800.0)), (2000.0, 3000.0, 4000.0), (1e-3, 1e-2, 0.1)):
        key = f'{L}:{M}:{lon}:{hw}:{cut}'
        rec.case(key)
        c, s = region(lon, lat, km, L, top)
        b = np.log(2)/(2*np.sin(hw/2/6371.0)**2)
        g = 2*np.sqrt(np.pi/(2*b))*ive(np.arange(L + 1) + 0.5, b)
        low = np.flatnonzero(g < cut)
        if len(low) and low[0] >= 2:
            g[low[0]:] = cut
        elif len(low):
            continue        # (the first degrees have no limit)
        p = sum(g[i]/2*(c[i]**2 + s[i]**2).sum() for i in range(L + 1))
        q = 2*(f**2/(g*100/(p/c[0, 0]**2)))[:, None]
        with rec.guard(key):
            Y = gt.gen_averaging_kernel(c, s, ec, es, 10.0, hw, LMAX=L,
                MMAX=M, CUTOFF=cut, LOVE=love)
            rec.close(Y.clm, c/(1 + q*ec**2)/c[0, 0], key + ':clm', rtol=1e-6,
                atol=1e-14)
            rec.close(Y.slm, s/(1 + q*es**2)/c[0, 0], key + ':slm', rtol=1e-6,
                atol=1e-14)
