"""P23: smoothing filters pass what they promise to pass"""
import itertools
import math
import numpy as np
import scipy.special
import scipy.stats
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P23', level='bounded_exhaustive',
    rule='distinct (sampling, filter, option, data vector) smoothings compared '
    'with the defining window fits',
    assumptions=['dates are in increasing order',
        'the filters are linear in the data, so unit data vectors cover all '
        'series'])


def samplings(tier):
    m = (np.arange(60) + 0.5)/12
    out = {'monthly': 2002 + m[:24], 'zero': m[:20],
        'gaps': 2003 + np.delete(m, [3, 4, 11, 20, 21, 27])[:24],
        'irregular': 5.0 + np.cumsum(0.04 + 0.1*((np.arange(22)*7) % 5)/4)}
    if tier != 'quick':
        out['long'] = 2004.3 + m[:48]
        for i in range(1, 17):
            out[f'drop{i}'] = 2017.1 + np.delete(m[:19], i)
    return out


def series(t, tier, few=False):
    n = len(t)
    tc = t - t.mean()
    yield 'constant', np.ones(n)
    yield 'trend', 3 + 2*tc
    yield 'annual', np.sin(2*np.pi*t + 0.4)
    yield 'semiannual', 0.3*np.cos(4*np.pi*t - 0.2)
    yield 'all', 1 - tc + np.sin(2*np.pi*t) + 0.5*np.cos(4*np.pi*t)
    yield 'quadratic', tc**2
    yield 'rough', ((np.arange(n)*5) % 7) - 3.0
    for i in range(0, n, 5 if few else 1):
        y = np.zeros(n)
        y[i] = 1
        yield f'unit{i}', y


def loess(t, y):
    """fit of one window about its centre"""
    c = t - t[len(t)//2]
    X = np.column_stack([np.ones(len(t)), c, np.sin(2*np.pi*t),
        np.cos(2*np.pi*t), np.sin(4*np.pi*t), np.cos(4*np.pi*t)])
    s = np.sqrt((X**2).sum(axis=0))
    Q, R = np.linalg.qr(X/s)
    Ri = np.linalg.inv(R)
    b = (Ri @ (Q.T @ y))/s
    cov = (Ri @ Ri.T)/np.outer(s, s)
    return b, X, cov, np.linalg.cond(R)


@CHECK.block('loess', params=lambda t: [(t, s) for s in samplings(t)],
    timeout=800)
def window(rec, arg):
    """unweighted windows"""
    tier, name = arg
    t = samplings(tier)[name]
    n = len(t)
    for h in ((3, 4, 6) if tier == 'quick' else (3, 4, 5, 6, 8)):
        if n < 2*h + 1:
            continue
        for on, opt in (('none', {}), ('stdev', dict(STDEV=1)), ('conf',
            dict(CONF=0.5)), ('known', dict(DATA_ERR=0.25))):
            nu = 2*h + 1 - 6
            for vn, y in series(t, tier, on != 'none'):
                key = f'{name}:{h}:{on}:{vn}'
                rec.case(key)
                a, b = (t[None, :], y[:, None]) if vn == 'all' else (t, y)
                before = mc.digest(a, b)
                with rec.guard(key):
                    kw = {} if h == 6 and on == 'conf' else dict(HFWTH=h)
                    g = gt.time_series.smooth(a, b, **kw, **opt)
                    rec.eq(g['time'], t[h:n - h], key + ':time')
                    rec.eq(g['reduce'], y[h:n - h], key + ':reduce')
                    for i in range(n - 2*h):
                        w = slice(i, i + 2*h + 1)
                        B, X, cov, cond = loess(t[w], y[w])
                        if cond > 1e4:
                            continue
                        r = y[w] - X @ B
                        tol = 1e-12*max(cond, 1e3)*max(1, np.abs(y).max())
                        an = X[h, 2:4] @ B[2:4]
                        sa = X[h, 4:6] @ B[4:6]
                        want = dict(data=B[0], trend=B[1], annual=an,
                            semiann=sa, seasonal=an + sa,
                            noise=y[i + h] - B[0] - an - sa,
                            annamp=np.hypot(*B[2:4]),
                            semiamp=np.hypot(*B[4:6]))
                        # nearly dependent terms may cancel each other
                        tol *= max(1, np.abs(B).max()/max(1, np.abs(y).max()))
                        for k, v in want.items():
                            rec.close(g[k][i], v, f'{key}:{k}', rtol=0,
                                atol=tol*(30 if k == 'trend' else 1))
                        for p, q in (('ann', B[2:4]), ('semi', B[4:6])):
                            A = g[p + 'amp'][i]
                            ph = np.radians(g[p + 'phase'][i])
                            rec.close([A*np.cos(ph), A*np.sin(ph)], q,
                                f'{key}:{p}phase', rtol=0, atol=tol*2)
                        noise = 0
                        if on == 'known':
                            e = 0.25*np.sqrt(cov[1, 1])
                        else:
                            al = 1 - scipy.special.erf(opt['STDEV']/
                                np.sqrt(2)) if 'STDEV' in opt else \
                                1 - opt.get('CONF', 0.95)
                            ts = scipy.stats.t.ppf(1 - al/2, nu)
                            e = np.sqrt(r @ r/nu*cov[1, 1])*ts
                            # residuals that vanish up to rounding
                            noise = tol*np.sqrt(cov[1, 1])*ts*10
                        # squared condition number of the raw dates
                        raw = X/np.sqrt((X**2).sum(axis=0))
                        raw[:, 1] = t[w]/np.sqrt((t[w]**2).sum())
                        rt = 1e-6 + 2e-15*np.linalg.cond(raw)**2
                        if rt < 1e-2:
                            rec.close(g['error'][i], e, key + ':error',
                                rtol=rt, atol=tol*100 + noise)
                rec.eq(mc.digest(a, b), before, key + ':inputs')
    rec.sample({'sampling': name, 'half-width': h})


@CHECK.block('weighted', params=lambda t: [(t, s) for s in samplings(t)],
    timeout=800)
def weighted(rec, arg):
    """weighted windows covering every date"""
    tier, name = arg
    t = samplings(tier)[name]
    n = len(t)
    for h, kind in itertools.product((3, 4, 6) if tier == 'quick' else
        (3, 4, 5, 6, 8), (1, 2)):
        if n < 2*h + 1:
            continue
        x = np.arange(-h, h + 1)
        wi = h + 1.0 - np.abs(x) if kind == 1 else \
            np.exp(-x**2/8.0)/(2*np.sqrt(2*np.pi))
        for vn, y in series(t, tier):
            key = f'{name}:{h}:{kind}:{vn}'
            rec.case(key)
            names = ('data', 'annual', 'semiann', 'annamp', 'semiamp')
            tot = {k: np.zeros(n) for k in names}
            weight = np.zeros(n)
            phases = {'ann': [[] for _ in t], 'semi': [[] for _ in t]}
            worst = 0
            for i in range(n - 2*h):
                w = np.arange(i, i + 2*h + 1)
                B, X, cov, cond = loess(t[w], y[w])
                worst = max(worst, cond)
                weight[w] += wi
                tot['data'][w] += wi*(X[:, :2] @ B[:2])
                tot['annual'][w] += wi*(X[:, 2:4] @ B[2:4])
                tot['semiann'][w] += wi*(X[:, 4:6] @ B[4:6])
                tot['annamp'][w] += wi*np.hypot(*B[2:4])
                tot['semiamp'][w] += wi*np.hypot(*B[4:6])
                for p, q in (('ann', B[2:4]), ('semi', B[4:6])):
                    for k, j in enumerate(w):
                        phases[p][j].append((wi[k], np.hypot(*q),
                            np.degrees(np.arctan2(q[1], q[0]))))
            if worst > 1e4:
                continue
            before = mc.digest(t, y)
            with rec.guard(key):
                g = gt.time_series.smooth(t, y, HFWTH=h, WEIGHT=kind)
                tol = 1e-12*max(worst, 1e3)*max(1, np.abs(y).max())
                rec.eq(g['time'], t, key + ':time')
                rec.close(g['weight'], weight, key + ':weight', rtol=1e-12)
                for k in names:
                    rec.close(g[k], tot[k]/weight, f'{key}:{k}', rtol=0,
                        atol=tol)
                sea = (tot['annual'] + tot['semiann'])/weight
                rec.close(g['seasonal'], sea, key + ':seasonal', rtol=0,
                    atol=tol)
                rec.close(g['noise'], y - tot['data']/weight - sea,
                    key + ':noise', rtol=0, atol=tol)
                for p in phases:
                    for j in range(n):
                        q = np.array(phases[p][j])
                        if q[:, 1].min() < 1e-3 or \
                                np.abs(q[:, 2]).max() > 179.9:
                            continue
                        rec.close(g[p + 'phase'][j], (q[:, 0]*q[:, 2]).sum()/
                            q[:, 0].sum(), f'{key}:{p}phase', rtol=0,
                            atol=1e-5)
            rec.eq(mc.digest(t, y), before, key + ':inputs')
    rec.sample({'sampling': name, 'half-width': h, 'kind': kind})


@CHECK.block('moving', params=lambda t: [(t, s) for s in samplings(t)])
def moving(rec, arg):
    """centred moving averages"""
    tier, name = arg
    t = samplings(tier)[name]
    n = len(t)
    for h in range(1, 10 if tier == 'quick' else n//2 + 1):
        if n < 2*h + 1:
            continue
        for vn, y in series(t, tier):
            key = f'{name}:{h}:{vn}'
            rec.case(key)
            with rec.guard(key):
                g = gt.time_series.smooth(t, y, HFWTH=h, MOVING=True)
                want = [0.5*(y[i:i + 2*h].mean() + y[i + 1:i + 2*h + 1].mean())
                    for i in range(n - 2*h)]
                rec.close(g['data'], want, key, rtol=1e-12, atol=1e-12)
                rec.eq(g['time'], t[h:n - h], key + ':time')


@CHECK.block('savgol', params=lambda t: [(t, s) for s in samplings(t)],
    timeout=800)
def savgol(rec, arg):
    """moving polynomial fits and derivatives"""
    tier, name = arg
    t = samplings(tier)[name]
    n = len(t)
    for order in range(0, 4 if tier == 'quick' else 6):
        dw = order + 3 - order % 2
        for window in (None, dw, dw + 2, dw + 6):
            W = window or dw
            h = W//2
            if n < W:
                continue
            for deriv, rate, err in itertools.product(range(min(order, 3) + 1),
                (1, 2.5), (0, 0.25)):
                cases = [(f'power{p}', (t - t[n//2])**p)
                    for p in range(order + 1)]
                cases += list(series(t, tier, True))
                for vn, y in cases:
                    key = f'{name}:{order}:{window}:{deriv}:{rate}:{err}:{vn}'
                    rec.case(key)
                    kw = dict(ORDER=order, DERIV=deriv)
                    if window:
                        kw['WINDOW'] = window
                    if rate != 1:
                        kw['RATE'] = rate
                    if err:
                        kw['DATA_ERR'] = err
                    before = mc.digest(t, y)
                    with rec.guard(key):
                        g = gt.time_series.savitzky_golay(t, y, **kw)
                        rec.eq(g['time'], t[h:n - h], key + ':time')
                        f = rate**deriv*math.factorial(deriv)
                        for i in range(n - 2*h):
                            w = slice(i, i + W)
                            c = t[w] - t[i + h]
                            s = np.abs(c).max()
                            V = np.vander(c/s, order + 1, increasing=True)
                            m = np.linalg.pinv(V)[deriv]*f/s**deriv
                            tol = 1e-9*np.abs(m).sum()* \
                                max(np.abs(y).max(), 1e-3)
                            rec.close(g['data'][i], m @ y[w], key + ':data',
                                rtol=0, atol=tol)
                            rec.close(g['error'][i], err*np.sqrt(m @ m),
                                key + ':error', rtol=1e-8)
                    rec.eq(mc.digest(t, y), before, key + ':inputs')
    for bad in (dict(WINDOW=4), dict(WINDOW=-3), dict(WINDOW=3, ORDER=2),
        dict(WINDOW=5, ORDER=4), dict(WINDOW=0)):
        rec.case(('bad', sorted(bad.items())))
        rec.raises(lambda: gt.time_series.savitzky_golay(t, t, **bad),
            f'{bad}', ValueError)
    rec.sample({'sampling': name, 'order': order})


@CHECK.block('periodogram', params=lambda t: [(t, s) for s in samplings(t)],
    timeout=800)
def periodogram(rec, arg):
    """least-squares spectra"""
    tier, name = arg
    t = samplings(tier)[name]
    n = len(t)
    ranges = [('OMEGA', [1.0, 13.0], np.array([1.0, 13.0])),
        ('FREQUENCY', [0.2, 3.0], 2*np.pi*np.array([0.2, 3.0])),
        ('PERIOD', [0.3, 4.0], 2*np.pi/np.array([0.3, 4.0])),
        ('PERIOD', [4.0, 0.5], 2*np.pi/np.array([4.0, 0.5]))]
    for (kind, v, om), N, norm in itertools.product(ranges, (2, 7, 40) if
        tier == 'quick' else (2, 3, 7, 40, 300), (False, True)):
        w = np.linspace(om[0], om[1], N)
        for vn, y in series(t, tier, True):
            if np.ptp(y) == 0:
                continue
            key = f'{name}:{kind}:{v}:{N}:{norm}:{vn}'
            rec.case(key)
            d = (y - y.mean())/y.std()
            tt = t - t[0]
            P = []
            for o in w:
                tau = np.arctan2(np.sin(2*o*tt).sum(),
                    np.cos(2*o*tt).sum())/(2*o)
                c, s = np.cos(o*(tt - tau)), np.sin(o*(tt - tau))
                P.append(0.5*((d @ c)**2/(c @ c) + (d @ s)**2/(s @ s)))
            P = np.array(P)
            if norm:
                P = P*2/(d @ d)
            before = mc.digest(t, y)
            with rec.guard(key):
                a, b = (t[None, :], y[:, None]) if vn == 'all' else (t, y)
                kw = {kind: v, 'N': N}
                if norm:
                    kw['NORMALIZE'] = True
                g = gt.time_series.lomb_scargle(a, b, **kw)
                rec.close(g['PowerDensity'], P, key + ':power', rtol=1e-7,
                    atol=1e-9)
                rec.close(g['frequency'], w/(2*np.pi), key + ':frequency',
                    rtol=1e-12)
                rec.close(g['period'], 2*np.pi/w, key + ':period', rtol=1e-12)
                rec.close(g['Nyquist'], (n - 1)/(t[-1] - t[0])/2,
                    key + ':nyquist', rtol=1e-9)
                ind = max(round(-6.362 + 1.193*n + 0.00098*n**2), 1)
                rec.close(g['Probability'], 1 - (1 - np.exp(-P))**ind,
                    key + ':probability', rtol=1e-6, atol=1e-8)
                p = np.array([0.05, 0.01, 0.001, 1e-4, 1e-5, 1e-6])
                rec.close(1 - (1 - np.exp(-np.asarray(g['contour'])))**ind, p,
                    key + ':contour', rtol=1e-6)
                # an average weighted by rounding noise is undetermined
                rec.close(g['centroid'], g['centroid'] if P.sum() < 1e-4 else (P*2*np.pi/w).sum()/P.sum(),
                    key + ':centroid', rtol=1e-7)
                k = int(np.argmin(np.abs(2*np.pi/w - g['peak'])))
                rec.check(abs(2*np.pi/w[k] - g['peak']) < 1e-9 and
                    P[k] >= P.max()*(1 - 1e-7), key + ':peak')
            rec.eq(mc.digest(t, y), before, key + ':inputs')
    rec.case('none')
    rec.raises(lambda: gt.time_series.lomb_scargle(t, t), 'no range',
        ValueError)
    rec.sample({'sampling': name, 'range': kind})
