"""P13: Fourier expansions of Legendre functions reproduce the functions"""
import numpy as np
import mc
import ref
import gravity_toolkit as gt

CHECK = mc.Check('P13', level='bounded_exhaustive',
    rule='distinct (maximum degree, maximum order, degree, order) functions, '
    'each compared on a colatitude grid that determines its Fourier series',
    assumptions=['gradient series are normalised by sqrt(l(l+1)); the '
        'meridional one is the derivative with respect to latitude'])


def pairs(tier):
    top = 12 if tier == 'quick' else 20
    out = [(L, M) for L in range(top + 1) for M in range(L + 1)]
    big = (15, 20, 31, 40) if tier == 'quick' else (33, 60, 75, 90, 120, 180)
    for L in big:
        out += [(L, L), (L, L//2), (L, 1)]
    return [out[i::16] for i in range(16)]


def grid(L):
    # includes both poles; more points than twice the highest frequency
    return np.linspace(0.0, np.pi, 2*L + 7)


@CHECK.block('functions', params=pairs)
def functions(rec, lst):
    for L, M in lst:
        th = grid(L)
        w = ref.plm(L, np.cos(th)) if L <= 12 else ref.plm_fast(L, np.cos(th))
        n = np.arange(L + 1)
        F = (np.cos(np.outer(n, th)), np.sin(np.outer(n, th)))
        with rec.guard(f'{L}:{M}'):
            p = gt.fourier_legendre(L, M)
            rec.check(p.shape == (L+1, L+1, L+1), f'{L}:{M}:shape')
            for l in range(L + 1):
                for m in range(min(l, M) + 1):
                    rec.case((L, M, l, m))
                    rec.close(p[l, m] @ F[m % 2], w[l, m], f'{L}:{M}:{l}:{m}',
                        rtol=0, atol=1e-10*(1 + L))
    rec.sample({'degree': L, 'order': M})


@CHECK.block('gradients', params=pairs)
def gradients(rec, lst):
    for L, M in lst:
        if not L:
            continue
        th = grid(L)[1:-1]
        x = np.cos(th)
        d = ref.dplm_theta(L, x) if L <= 90 else None
        if d is None:
            continue
        p = ref.plm(L, x) if L <= 12 else ref.plm_fast(L, x)
        n = np.arange(L + 1)
        # odd orders of a sine series have cosine derivatives and vice versa
        F = (np.sin(np.outer(n, th)), np.cos(np.outer(n, th)))
        with rec.guard(f'{L}:{M}'):
            v, w = gt.legendre_gradient(L, M)
            rec.check(v.shape == (L+1, L+1, L+1) and
                w.shape == (L+1, L+1, L+1), f'{L}:{M}:shape')
            rec.eq(v[0], np.zeros((L+1, L+1)), f'{L}:{M}:v0')
            rec.eq(w[0], np.zeros((L+1, L+1)), f'{L}:{M}:w0')
            for l in range(1, L + 1):
                N = np.sqrt(l*(l + 1.0))
                for m in range(min(l, M) + 1):
                    rec.case((L, M, l, m))
                    rec.close(v[l, m] @ F[m % 2], -d[l, m]/N,
                        f'{L}:{M}:{l}:{m}:meridional', rtol=0,
                        atol=1e-10*(1 + L))
                    rec.close(w[l, m] @ F[m % 2], m*p[l, m]/np.sin(th)/N,
                        f'{L}:{M}:{l}:{m}:zonal', rtol=0, atol=1e-10*(1 + L))
    rec.sample({'degree': L, 'order': M})
