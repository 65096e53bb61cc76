"""P18: unit conversions are mutually consistent for every unit and name"""
import itertools
import numpy as np
import mc
import ref
import gravity_toolkit as gt

CHECK = mc.Check('P18', level='bounded_exhaustive',
    rule='distinct (unit, Love numbers, maximum degree, option, ellipsoid) '
    'factors compared with their published definition',
    assumptions=['cgs constants of the documented ellipsoid'])

NAMES = ('norm', 'cmwe', 'mmwe', 'mmGH', 'mmCU', 'mmCH', 'cmVCU', 'mVCU',
    'microGal', 'mbar', 'Pa')
SPATIAL = ('norm', 'cmwe', 'mmwe', 'mmGH', 'microGal')
CODES = ('norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU')
LABEL = dict(norm='1', cmwe='cm', mmwe='mm', mmGH='mm', mmCU='mm', mmCH='mm',
    cmVCU='cm', mVCU='meters', microGal='\u03bcGal', mbar='mbar', Pa='Pa')


def ellipsoids():
    return ((None, None), (6.3781363e8, 1/298.257), (6.371e8, 0.0))


def factor(name, L, love, elastic, ellipsoidal, a, f):
    """definition in terms of the Earth parameters"""
    hl, kl, ll = (v[:L+1] for v in love)
    GM = 3986004.418e14 - 3.5e14
    R = a*(1 - f)**(1/3)
    rho = GM/6.67430e-8/(4/3*np.pi*R**3)
    l = np.arange(L + 1.0)
    d = (1 + kl) if elastic else np.ones(L + 1)
    if ellipsoidal:
        d = d/(1 - f)
    load = R*rho*(2*l + 1)/(3*d)
    return dict(norm=np.ones(L + 1), cmwe=load, mmwe=10*load,
        mmGH=np.full(L + 1, 10*R), mmCU=10*R*hl/d, mmCH=10*R*ll/d,
        cmVCU=R*(2*l + 1)/2, mVCU=R*(2*l + 1)/200,
        microGal=1e6*GM/R**2*(l + 1), mbar=load*980.665/1e3,
        Pa=load*980.665/10)[name]


def degrees(tier):
    top = 30 if tier == 'quick' else 120
    out = list(range(0, top + 1))
    return [out[i::8] for i in range(8)]


def loves(L):
    """Love number sets, exactly to the maximum degree and beyond it"""
    yield 'synthetic', ref.love(L)
    yield 'longer', ref.love(L + 3)
    yield 'rigid', tuple(np.zeros((3, L + 1)))
    for n in (0, 1, 2, 3):
        yield f'file {n}', gt.load_love_numbers(L, LOVE_NUMBERS=n,
            FORMAT='tuple')


@CHECK.block('factors', params=degrees)
def factors(rec, lst):
    for L in lst:
        for lname, love in loves(L):
            love = tuple(np.array(v) for v in love)
            for (a, f), el, ob in itertools.product(ellipsoids(),
                    (None, True, False), (None, True, False)):
                kw = {} if a is None else dict(a_axis=a, flat=f)
                opt = {}
                if el is not None:
                    opt['include_elastic'] = el
                if ob is not None:
                    opt['include_ellipsoidal'] = ob
                aa, ff = (6.378137e8, 1/298.257223563) if a is None else (a, f)
                keep = [v.copy() for v in love]
                key = f'{L}:{lname}:{a}:{el}:{ob}'
                with rec.guard(key):
                    u = gt.units(lmax=L, **kw)
                    rec.eq(u.l, np.arange(L + 1), key + ':degrees')
                    v = u.harmonic(*love, **opt)
                    for n in NAMES:
                        rec.case((key, n))
                        w = factor(n, L, love, el is not False, ob is True,
                            aa, ff)
                        rec.close(v.get(n), w, f'{key}:{n}', rtol=1e-12)
                        rec.eq(v.get(n), getattr(v, n), f'{key}:{n}:attr')
                        rec.eq(v.get(n), v[n], f'{key}:{n}:item')
                    for i, n in enumerate(CODES):
                        rec.eq(v.get(gt.units.bycode(i)), v.get(n),
                            f'{key}:{n}:code')
                    har = {n: np.array(v.get(n)) for n in NAMES}
                    if ob:
                        continue
                    opt.pop('include_ellipsoidal', None)
                    # the two directions are inverse: one unit over the
                    # sphere and the mean of the harmonics
                    w = gt.units(lmax=L, **kw).spatial(*love, **opt)
                    for n in SPATIAL:
                        rec.case((key, n, 'spatial'))
                        if n == 'norm':
                            rec.eq(w.get(n), np.ones(L + 1), key + ':norm')
                            continue
                        rec.close(w.get(n)*har[n]*4*np.pi, np.ones(L + 1),
                            f'{key}:{n}:inverse', rtol=1e-12)
                    # the same object may be used for both
                    x = v.spatial(*love, **opt)
                    for n in SPATIAL:
                        rec.eq(x.get(n), w.get(n), f'{key}:{n}:reuse')
                    x = x.harmonic(*love, **opt)
                    for n in NAMES:
                        rec.eq(x.get(n), har[n], f'{key}:{n}:again')
                rec.check(all(np.array_equal(p, q) for p, q in
                    zip(love, keep)), key + ':inputs')
    rec.sample({'degree': L, 'love': lname})


@CHECK.block('earth')
def earth(rec, _):
    for a, f in ellipsoids():
        kw = {} if a is None else dict(a_axis=a, flat=f)
        aa, ff = (6.378137e8, 1/298.257223563) if a is None else (a, f)
        rec.case((a, f))
        with rec.guard(f'{a}'):
            u = gt.units(**kw)
            rec.close(u.a_axis, aa, f'{a}:a')
            rec.close(u.b_axis, aa*(1 - ff), f'{a}:b', rtol=1e-14)
            rec.close(u.rad_e**3, aa**2*u.b_axis, f'{a}:volume', rtol=1e-14)
            rec.close(u.mass*u.G, u.GM, f'{a}:mass', rtol=1e-14)
            rec.close(u.mass, u.rho_e*4/3*np.pi*u.rad_e**3, f'{a}:density',
                rtol=1e-14)
            rec.close(u.GM, 3986000.918e14, f'{a}:GM', rtol=1e-12)
            rec.close(u.g_wmo, 980.665, f'{a}:g')
            rec.close(u.omega, 7.292115e-5, f'{a}:omega', rtol=1e-12)
            # changing the ellipsoid changes what is derived from it
            u.flat = 0.01
            rec.close(u.b_axis, aa*0.99, f'{a}:b2', rtol=1e-14)
            rec.close(u.rad_e**3, aa**3*0.99, f'{a}:volume2', rtol=1e-14)


@CHECK.block('names')
def names(rec, _):
    for i, n in enumerate(CODES):
        rec.case(('code', i))
        rec.eq(gt.units.bycode(i), n, f'code {i}')
        rec.eq(gt.units.bycode(np.int64(i)), n, f'code {i} numpy')
    for bad in (-1, -7, 7, 100, 1.5, None, 'cmwe', 'x'):
        rec.case(('bad', bad))
        rec.raises(lambda: gt.units.bycode(bad), f'code {bad}')
    for n in NAMES:
        rec.case(('attributes', n))
        with rec.guard(n):
            a = gt.units.get_attributes(n)
            rec.check(len(a) == 2 and a[0] == LABEL[n] and
                isinstance(a[1], str) and a[1], f'attributes {n}', str(a))
    same = (('cmwe', 'mmwe'), ('cmVCU', 'mVCU'), ('mbar', 'Pa'))
    for a, b in same:
        rec.eq(gt.units.get_attributes(a)[1], gt.units.get_attributes(b)[1],
            f'names {a} {b}')
    for bad in ('cm', 'CMWE', '', None, 'meter', 1):
        rec.case(('name', bad))
        rec.raises(lambda: gt.units.get_attributes(bad), f'attributes {bad}')
    u = gt.units(lmax=4).harmonic(*ref.love(4))
    for bad in ('cm', 'CMWE', '', None, 'meter', 1):
        rec.raises(lambda: u.get(bad), f'get {bad}')


@CHECK.block('roundtrip', params=lambda t: [2, 6] if t == 'quick' else
    [0, 1, 2, 3, 6, 12])
def roundtrip(rec, L):
    """coefficients converted to a unit and back are unchanged"""
    love = ref.love(L)
    u = gt.units(lmax=L).harmonic(*love)
    for n in NAMES:
        for M in range(0, L + 1):
            for nt in (0, 2):
                key = f'{L}:{M}:{n}:{nt}'
                rec.case(key)
                f = np.array(u.get(n))
                with rec.guard(key):
                    Y = gt.harmonics(lmax=L, mmax=M)
                    sh = (L + 1, M + 1) + ((nt,) if nt else ())
                    Y.clm = np.cos(1 + np.arange(np.prod(sh)).reshape(sh))
                    Y.slm = np.sin(1 + np.arange(np.prod(sh)).reshape(sh))
                    if nt:
                        Y.time = 2002.0 + np.arange(nt)
                        Y.month = 1 + 12*np.arange(nt)
                    Z = Y.copy()
                    Z.convolve(f)
                    ff = f[:, None, None] if nt else f[:, None]
                    rec.close(Z.clm, Y.clm*ff, key + ':to', rtol=1e-14)
                    if np.all(f != 0):
                        Z.convolve(1/f)
                        rec.close(Z.clm, Y.clm, key + ':clm', rtol=1e-13)
                        rec.close(Z.slm, Y.slm, key + ':slm', rtol=1e-13)
