"""
ref.py: independent reference values used as oracles.

Everything here is computed from textbook definitions (exact rational
arithmetic where possible) and shares no code with gravity_toolkit.
"""
import functools
import math
from fractions import Fraction

import numpy as np

# constants of the reference ellipsoid used by the toolkit documentation
CENTIMETRES = 100.0


@functools.lru_cache(maxsize=None)
def _pl_coeffs(l):
    """integer coefficients c[k] with P_l(x) = 2^-l sum c[k] x^(l-2k)"""
    return tuple((-1)**k*math.comb(l, k)*math.comb(2*l - 2*k, l)
        for k in range(l//2 + 1))


def _dm_pl(l, m, X):
    """m-th derivative of the Legendre polynomial at the rational X"""
    c = _pl_coeffs(l)
    n, d = X.numerator, X.denominator
    # common denominator d^(l-m)
    top = 0
    for k, ck in enumerate(c):
        p = l - 2*k
        if p < m:
            break
        f = math.perm(p, m)
        top += ck*f*n**(p - m)*d**(l - m - (p - m))
    return Fraction(top, 2**l*d**(l - m))


def _sqrtfrac(fr):
    """correctly scaled float square root of a non-negative Fraction"""
    if fr == 0:
        return 0.0
    n, d = fr.numerator, fr.denominator
    s = max(0, 140 - (n.bit_length() - d.bit_length()))
    s += s & 1
    v = math.isqrt((n << s)//d)
    # v * 2^(-s/2)
    e = v.bit_length() - 64
    if e > 0:
        return math.ldexp(float(v >> e), e - s//2)
    return math.ldexp(float(v), -s//2)


@functools.lru_cache(maxsize=None)
def plm_exact(lmax, x, mmax=None):
    """
    4-pi normalised associated Legendre functions (no Condon-Shortley phase)
    at one float x in [-1,1] evaluated in exact rational arithmetic
    """
    mmax = lmax if mmax is None else mmax
    X = Fraction(float(x))
    u2 = 1 - X*X
    out = np.zeros((lmax+1, lmax+1))
    for l in range(lmax+1):
        for m in range(min(l, mmax)+1):
            p = _dm_pl(l, m, X)
            N = Fraction((1 if m == 0 else 2)*(2*l+1)*math.factorial(l-m),
                math.factorial(l+m))
            v = _sqrtfrac(N*u2**m*p*p)
            out[l, m] = v if p >= 0 else -v
    return out


def plm(lmax, x):
    """plm_exact for an array of x: shape (lmax+1, lmax+1, n)"""
    x = np.atleast_1d(x)
    return np.stack([plm_exact(int(lmax), float(v)) for v in x], axis=-1)


def plm_fast(lmax, x):
    """stable column recurrence for larger degrees: (lmax+1, lmax+1, n)"""
    x = np.atleast_1d(np.asarray(x, dtype=np.float64)).ravel()
    u = np.sqrt((1.0 - x)*(1.0 + x))
    p = np.zeros((lmax+1, lmax+1, x.size))
    p[0, 0] = 1.0
    for m in range(lmax+1):
        if m == 1:
            p[1, 1] = math.sqrt(3.0)*u
        elif m > 1:
            p[m, m] = u*math.sqrt((2*m+1)/(2*m))*p[m-1, m-1]
        if m + 1 <= lmax:
            p[m+1, m] = math.sqrt(2*m+3)*x*p[m, m]
        for l in range(m+2, lmax+1):
            a = math.sqrt((4*l*l-1)/((l-m)*(l+m)))
            b = math.sqrt((2*l+1)*(l+m-1)*(l-m-1)/((l-m)*(l+m)*(2*l-3)))
            p[l, m] = a*x*p[l-1, m] - b*p[l-2, m]
    return p


def dplm_theta(lmax, x):
    """d/dtheta of the 4-pi normalised functions from the ladder formula
    dP_lm/dth = 1/2 [sqrt((l+m)(l-m+1)) P_l,m-1 - sqrt((l-m)(l+m+1)) P_l,m+1]
    (no division by sin(theta))"""
    p = plm(lmax, x) if lmax <= 30 else plm_fast(lmax, x)
    d = np.zeros_like(p)
    for l in range(lmax+1):
        for m in range(l+1):
            up = p[l, m+1] if m < l else 0.0
            if m == 0:
                # normalisation of m=0 relative to m=1: sqrt(2)
                d[l, 0] = -math.sqrt(l*(l+1)/2.0)*up if l else 0.0
            else:
                dn = p[l, m-1]*(math.sqrt(2.0) if m == 1 else 1.0)
                d[l, m] = 0.5*(math.sqrt((l+m)*(l-m+1))*dn
                    - math.sqrt((l-m)*(l+m+1))*up)
    return d


def synth(clm, slm, lon, lat, mmax=None):
    """sum of the spherical harmonic series at points: (nlat, nlon) field"""
    lmax = clm.shape[0] - 1
    mm = clm.shape[1] - 1
    th = np.radians(90.0 - np.atleast_1d(lat))
    p = plm_fast(lmax, np.cos(th))
    ph = np.radians(np.atleast_1d(lon))
    out = np.zeros((len(th), len(ph)))
    for m in range(mm+1):
        c = np.cos(m*ph)
        s = np.sin(m*ph)
        for l in range(m, lmax+1):
            out += p[l, m][:, None]*(clm[l, m]*c + slm[l, m]*s)[None, :]
    return out


def gauss_quadrature(n):
    """nodes x and weights for the integral over [-1,1]"""
    return np.polynomial.legendre.leggauss(n)


# -- calendars (proleptic Gregorian through integer arithmetic) -------------
def days_from_civil(y, m, d):
    """days since 1970-01-01 (Hinnant's algorithm)"""
    y -= m <= 2
    era = y // 400
    yoe = y - era*400
    doy = (153*(m + (-3 if m > 2 else 9)) + 2)//5 + d - 1
    doe = yoe*365 + yoe//4 - yoe//100 + doy
    return era*146097 + doe - 719468


def is_leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def julian_day(y, m, d, hh=0, mm=0, ss=0):
    """exact Julian day as a Fraction"""
    return Fraction(days_from_civil(y, m, d)) + Fraction(4881175, 2) + \
        Fraction(int(hh)*3600 + int(mm)*60, 86400) + Fraction(ss)/86400


def decimal_year(y, m, d, hh=0, mm=0, ss=0):
    n = 366 if is_leap(y) else 365
    doy = days_from_civil(y, m, d) - days_from_civil(y, 1, 1)
    return float(y + (Fraction(doy) + Fraction(int(hh)*3600 + int(mm)*60,
        86400) + Fraction(ss)/86400)/n)


def grace_month(y, m):
    return 12*(y - 2002) + m


# -- degree-dependent factors ------------------------------------------------
def gauss(rad, lmax):
    """spectral weights of the Gaussian average with half-width rad (km),
    normalised to one at degree zero: ratios of modified Bessel functions"""
    from scipy.special import ive
    b = math.log(2.0)/(2.0*math.sin(rad/6371.0/2.0)**2)
    l = np.arange(lmax + 1)
    return ive(l + 0.5, b)/ive(0.5, b)


class Earth:
    """constants documented for the toolkit, cgs units"""
    G = 6.67430e-8
    GM = 3986004.418e14 - 3.5e14
    a = 6.378137e8
    f = 1.0/298.257223563
    R = a*(1.0 - f)**(1.0/3.0)
    rho = GM/G/(4.0/3.0*math.pi*R**3)
    g = 980.665
    omega = 7292115e-11


def unit_factor(name, lmax, hl, kl, ll, elastic=True, ellipsoidal=False):
    """factor from a dimensionless coefficient to the named unit"""
    l = np.arange(lmax + 1.0)
    E = Earth
    den = (1.0 + np.asarray(kl)[:lmax+1]) if elastic else np.ones(lmax + 1)
    if ellipsoidal:
        den = den/(1.0 - E.f)
    load = E.R*E.rho*(2*l + 1)/(3*den)        # g/cm^2
    return {
        'norm': np.ones(lmax + 1),
        'cmwe': load,
        'mmwe': load*10,
        'mmGH': np.full(lmax + 1, E.R*10),
        'mmCU': E.R*10*np.asarray(hl)[:lmax+1]/den,
        'mmCH': E.R*10*np.asarray(ll)[:lmax+1]/den,
        'cmVCU': E.R*(2*l + 1)/2,
        'mVCU': E.R*(2*l + 1)/2/100,
        'microGal': E.GM/E.R**2*(l + 1)*1e6,
        'mbar': load*E.g/1000,
        'Pa': load*E.g/10,
    }[name]


def love(lmax):
    """plausible smooth load Love numbers (hl, kl, ll)"""
    l = np.arange(lmax + 1.0)
    return (-1.0 - 4.0*l/(l + 6.0), np.where(l > 1, -0.31*2/(l + 0.3), 0.0)
        + np.where(l == 1, 0.021, 0), 0.1 + 0.2/(l + 1.0))
