"""P02: derived quantities describe the current coefficients"""
import numpy as np
import mc, hmodel
import gravity_toolkit as gt

CHECK = mc.Check('P02', level='model_checking',
    rule='transitions: every modifying operation (including item assignment '
    'and direct edits of the coefficient arrays) from every reachable pair of '
    'objects up to the depth; the derived quantities of both objects are read '
    'in every state (reads everywhere) or only in the last state of each '
    'history (no earlier read)',
    assumptions=['coefficients are finite'])


def amplitude(md):
    return np.sqrt(np.sum(np.where(hmodel.tri(md.lmax, md.mmax).reshape(
        (md.lmax+1, md.mmax+1) + (1,)*(md.c.ndim-2)), md.c**2 + md.s**2, 0),
        axis=1))


def derived(rec, H, md, key):
    if not np.all(np.isfinite(md.c)) or not np.all(np.isfinite(md.s)):
        return
    if not hmodel.small(md):
        return
    T = hmodel.tri(md.lmax, md.mmax)
    rec.close(H.amplitude, amplitude(md), key + ':amplitude', rtol=1e-11, atol=1e-13)
    z = H.ilm
    rec.check(np.shape(z) == md.c.shape, key + ':ilm-shape') and \
        rec.close(z[T], (md.c - 1j*md.s)[T], key + ':ilm', rtol=1e-12)
    rec.check(H.ndim == md.c.ndim, key + ':ndim')
    rec.check(tuple(H.shape) == md.c.shape, key + ':shape')
    rec.check(H.dtype == np.float64, key + ':dtype')
    rec.check(int(H.lmax) == md.lmax and int(H.mmax) == md.mmax, key + ':lmax')
    rec.check(len(H) == (np.size(md.mo) if md.mo is not None and
        np.any(md.mo) else 0), key + ':len')
    text = str(H)
    rec.check(f'max_degree: {md.lmax}' in text, key + ':str')
    if md.mo is not None and np.any(md.mo):
        rec.check(f'start_month: {np.min(md.mo)}' in text and
            f'end_month: {np.max(md.mo)}' in text, key + ':str-month', text)
    # the stand-alone routine agrees
    rec.close(gt.degree_amplitude(H.clm, H.slm), np.squeeze(amplitude(md)),
        key + ':degree_amplitude', rtol=1e-11, atol=1e-13)


def everywhere(rec, st, hist):
    key = '>'.join(hist)
    derived(rec, st.X, st.x, key + ':X')
    derived(rec, st.Y, st.y, key + ':Y')
    hmodel.compare(rec, st.X, st.x, key + ':X')
    return mc.digest(st.x.key(), st.y.key())


def make_last(depth):
    def last(rec, st, hist):
        if len(hist) - 1 == depth:
            return everywhere(rec, st, hist)
        return mc.digest(st.x.key(), st.y.key())
    return last


def alphabet():
    ops = [o for o in hmodel.operations(truncations=((1, 0, None), (4, 1, 2),
        (2, 0, 1), (2, 0, 0)))]

    def assign(st):
        st.x.c = 2.0*st.x.c + np.where(st.x.c != 0, 1.0, 0.0)
        st.X.clm = st.x.c.copy()
    ops.append(('assign clm', assign))

    def item(st):
        st.x.s = -3.0*st.x.s
        st.X['slm'] = st.x.s.copy()
    ops.append(('item slm', item))

    def edit(st):
        st.X.clm[1, 0] = 7.5
        st.x.c = st.x.c.copy()
        st.x.c[1, 0] = 7.5
    ops.append(('edit clm[1,0]', edit))

    def zero(st):
        st.X.zeros(lmax=2, mmax=1, nt=2)
        st.x = hmodel.M(np.zeros((3, 2, 2)), np.zeros((3, 2, 2)),
            np.zeros(2), np.zeros(2, dtype=int))
    ops.append(('zeros(2,1,2)', zero))
    return ops


def starts():
    return [c for c in hmodel.configs() if c[0].split(':')[0][:3] in ('2x2', '3x1')
        and c[0].split(':')[1][:3] in ('2x2', '3x1', '1x0')]


@CHECK.block('reads-everywhere', params=lambda tier: [(i, 2 if tier == 'quick'
    else 3) for i in range(len(starts()))])
def reads(rec, p):
    label, x, y = starts()[p[0]]
    st = hmodel.S(hmodel.real(x), hmodel.real(y), x, y)
    ops = alphabet()
    mc.bfs(rec, [(label, st)], lambda s: ops, p[1], everywhere)


@CHECK.block('read-last', params=lambda tier: list(range(0, len(starts()), 3)))
def readlast(rec, i):
    label, x, y = starts()[i]
    st = hmodel.S(hmodel.real(x), hmodel.real(y), x, y)
    ops = alphabet()
    mc.bfs(rec, [(label, st)], lambda s: ops, 2, make_last(2))


@CHECK.block('amplitude')
def amp(rec, param):
    """stand-alone degree amplitudes: truncations, dates, unit coefficients"""
    for lmax in range(0, 6):
        for mmax in range(0, lmax+1):
            for nt in (None, 1, 2):
                md = hmodel.make(lmax, mmax, nt, 3)
                for L in [None] + list(range(0, lmax+1)):
                    for Mx in [None] + list(range(0, mmax+1)):
                        key = f'{lmax}:{mmax}:{nt}:{L}:{Mx}'
                        with rec.guard(key):
                            keep = md.copy()
                            got = gt.degree_amplitude(md.c, md.s, LMAX=L, MMAX=Mx)
                            rec.eq(md.c, keep.c, key + ':input')
                            ll = lmax if L is None else L
                            mm = mmax if Mx is None else Mx
                            w = np.sqrt(np.sum(md.c[:ll+1, :mm+1]**2 +
                                md.s[:ll+1, :mm+1]**2, axis=1))
                            rec.close(got, np.squeeze(w), key, rtol=1e-12)
                            rec.case(key)
