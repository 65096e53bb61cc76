"""P22: regressions recover the generating model"""
import itertools
import numpy as np
import scipy.special
import scipy.stats
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P22', level='bounded_exhaustive',
    rule='distinct (sampling, model, epoch, error option, data vector) fits '
    'compared with the defining normal equations',
    assumptions=['dates are in increasing order',
        'the fit is linear in the data, so unit data vectors cover all series',
        'error-free measurements (zero error) in a weighted fit are outside '
        'the property'])


def samplings(tier):
    m = (np.arange(40) + 0.5)/12
    out = {'monthly': 2002 + m[:30], 'short': 2010.2 + m[:18],
        'zero': m[:26] - 1.0,
        'gaps': 2003 + np.delete(m, [3, 4, 11, 20, 21, 22, 35])[:30],
        'irregular': 5.0 + np.cumsum(0.04 + 0.1*((np.arange(22)*7) % 5)/4)}
    if tier != 'quick':
        # every way of leaving out up to two of the inner months
        for r in (1, 2):
            for c in itertools.combinations(range(1, 19), r):
                out[f'drop{c}'] = 2017.1 + np.delete(m[:20], c)
    return out


CYCLES = ([], [1.0], [0.5, 1.0], [0.25, 0.5, 1.0], [1, 161.0/365.25])


def terms(t, kind):
    if kind == 'none':
        return []
    if kind == 'step':
        return [(t > np.median(t)).astype(float)]
    return [t.clip(np.median(t)) - np.median(t), np.cos(2*np.pi*t/0.37)]


def qr(X, y, w=None):
    """least squares through a column-scaled orthogonal factorisation"""
    w = np.ones(len(X)) if w is None else w
    s = np.sqrt((X**2).sum(axis=0))
    Q, R = np.linalg.qr(X/s*np.sqrt(w)[:, None])
    Ri = np.linalg.inv(R)
    cov = (Ri @ Ri.T)/np.outer(s, s)
    return (Ri @ (Q.T @ (np.sqrt(w)*y)))/s, cov, np.linalg.cond(R)


def alpha(opt):
    if opt.get('STDEV'):
        return 1 - scipy.special.erf(opt['STDEV']/np.sqrt(2))
    return 1 - (opt.get('CONF') or 0.95)


def expect(X, y, opt, nsimple, aicc):
    n, k = X.shape
    err = opt.get('DATA_ERR', 0)
    w = np.asarray(err, dtype=float)**-2 if opt.get('WEIGHT') else np.ones(n)
    beta, cov, cond = qr(X, y, w)
    model = X @ beta
    r = y - model
    nu = n - k
    sse, sst = r @ r, ((y - y.mean())**2).sum()
    out = dict(beta=beta, model=model, residual=r, cov_mat=cov, N=k, DOF=nu,
        simple=X[:, :nsimple] @ beta[:nsimple])
    if sst > 0:
        out['R2'] = 1 - sse/sst
        out['R2Adj'] = 1 - (sse/nu)/(sst/(n - 1))
    K = k + 1.0
    with np.errstate(divide='ignore'):
        ll = 0.5*(np.log(w).sum() - n*(np.log(2*np.pi) + 1 - np.log(n) +
            np.log((w*r*r).sum())))
    out['LOGLIK'] = ll
    out['AIC'] = -2*ll + 2*K
    if aicc:
        out['AIC'] += 2*K*(K + 1)/(n - K - 1)
    out['BIC'] = -2*ll + K*np.log(n)
    if opt.get('WEIGHT'):
        out['error'] = np.sqrt(np.diag(cov))
    elif np.any(err):
        out['error'] = err*np.sqrt(np.diag(cov))
        out['MSE'] = sse/nu
    else:
        out['MSE'] = sse/nu
        out['std_err'] = np.sqrt(sse/nu*np.diag(cov))
        out['error'] = out['std_err']*scipy.stats.t.ppf(1 - alpha(opt)/2, nu)
        if np.ptp(y) > 0:
            out['NRMSE'] = np.sqrt(sse/nu)/np.ptp(y)
    return out, cond, sse


def judge(rec, key, got, want, cond, y, exact, weighted):
    """compare a fit with its definition, within the conditioning"""
    scale = max(np.abs(y).max(), 1e-300)
    # the normal equations square the condition number
    tol = 1e-14*max(cond, 10)**(2 if weighted else 1)*50
    rec.eq(got['N'], want['N'], key + ':N')
    rec.eq(got['DOF'], want['DOF'], key + ':DOF')
    cs = np.sqrt(np.abs(np.diag(want['cov_mat'])))
    rec.check(np.all(np.abs(got['beta'] - want['beta']) <=
        tol*(np.abs(want['beta']) + scale*cs)), key + ':beta',
        lambda: f"{got['beta']} {want['beta']}")
    for n in ('model', 'residual', 'simple'):
        s = scale
        if n == 'simple':
            s = max(scale, np.abs(want[n]).max())
        rec.close(got[n], want[n], f'{key}:{n}', rtol=0, atol=tol*s*10)
    rec.close(np.asarray(got['cov_mat'])/np.outer(cs, cs),
        want['cov_mat']/np.outer(cs, cs), key + ':cov', rtol=0,
        atol=max(1e-9, 1e-14*cond**2*20))
    if exact:
        return
    for n in ('R2', 'R2Adj', 'LOGLIK', 'AIC', 'BIC', 'error', 'std_err',
        'MSE', 'NRMSE'):
        if n in want:
            rec.close(got[n], want[n], f'{key}:{n}', rtol=max(1e-7,
                1e-14*cond**2*50), atol=1e-7 if n in ('R2', 'R2Adj') else 0)


def vectors(t, X, tier):
    """a generating model per term, every unit vector, mixed series"""
    n, k = X.shape
    for j in range(k):
        yield f'model{j}', X[:, j].copy(), j
    yield 'mixed', X @ (1.0 + np.arange(k)), None
    step = 1 if tier != 'quick' else 6
    for i in range(0, n, step):
        y = np.zeros(n)
        y[i] = 1
        yield f'unit{i}', y, None
    yield 'rough', 10 + ((np.arange(n)*5) % 7) - 0.3*np.arange(n), None


def options(n, tier):
    e = 0.5 + ((np.arange(n)*3) % 5)/4
    yield 'none', {}
    yield 'stdev', dict(STDEV=2)
    yield 'known', dict(DATA_ERR=0.25)
    yield 'weights', dict(DATA_ERR=e, WEIGHT=True)
    yield 'half', dict(STDEV=0.5)
    if tier != 'quick':
        yield 'stdev1', dict(STDEV=1.0)
        yield 'conf', dict(CONF=0.6827)
        yield 'list', dict(DATA_ERR=list(e), WEIGHT=True)
        yield 'equal', dict(DATA_ERR=np.full(n, 0.25), WEIGHT=True)


def inputs(name, y, t):
    """the accepted shapes of a series"""
    return (t[:, None], y[None, :]) if name == 'mixed' else (t, y)


@CHECK.block('regress', params=lambda t: [(t, o, s) for o in range(4)
    for s in (list(samplings('quick')) if t == 'quick' else
    list(samplings('quick')) + [f'part{i}' for i in range(8)])],
    timeout=800)
def regress(rec, arg):
    tier, order, name = arg
    S = samplings(tier)
    if name.startswith('part'):
        dropped = [k for k in S if k.startswith('drop')]
        todo = dropped[int(name[4:])::8]
    else:
        todo = [name]
    for sname in todo:
        t = S[sname]
        n = len(t)
        light = sname.startswith('drop')
        epochs = [('mean', Ellipsis, t.mean()), ('float', float(t[0]) + 0.7,
            t[0] + 0.7), ('int', int(t[3]), int(t[3])), ('list', [1, 4, 5],
            t[[1, 4, 5]].mean()), ('array', np.arange(2, 9), t[2:9].mean()),
            ('default', None, t.mean()), ('np', np.float64(t[2]), t[2])]
        for (ei, (en, rel, t0)), (ci, cyc), tk in itertools.product(
            enumerate(epochs), enumerate(CYCLES), ('none', 'step', 'two')):
            if (light or tier == 'quick') and (ei + ci + len(tk)) % 3:
                continue
            if light and ei > 2:
                continue
            T = terms(t, tk)
            X = np.column_stack([(t - t0)**o for o in range(order + 1)] +
                [f(2*np.pi*t/c) for c in cyc for f in (np.sin, np.cos)] + T)
            if n < X.shape[1] + 4 or qr(X, t)[2] > 1e5:
                continue
            kw = dict(ORDER=order, CYCLES=cyc, TERMS=T)
            if rel is not None:
                kw['RELATIVE'] = rel
            for on, opt in options(n, tier):
                if light and on not in ('none', 'weights'):
                    continue
                for vn, y, j in vectors(t, X, 'quick' if light else tier):
                    key = f'{sname}:{order}:{en}:{cyc}:{tk}:{on}:{vn}'
                    rec.case(key)
                    aicc = vn != 'rough'
                    want, cond, sse = expect(X, y, opt, order + 1, aicc)
                    a, b = inputs(vn, y, t)
                    before = mc.digest(a, b, kw, opt)
                    with rec.guard(key):
                        o = dict(opt)
                        if not aicc:
                            o['AICc'] = False
                        got = gt.time_series.regress(a, b, **kw, **o)
                        exact = j is not None or vn == 'mixed'
                        judge(rec, key, got, want, cond, y, exact,
                            'WEIGHT' in opt)
                        rec.close(got['season'], got['model'] - got['simple'],
                            key + ':season', rtol=1e-9,
                            atol=1e-12*np.abs(got['simple']).max())
                        if 'WSSE' in got and on == 'equal' and not exact:
                            # with one error for all, the weights are common
                            w = 0.25**-2
                            rec.check(min(abs(got['WSSE']/(sse/want['DOF']) -
                                w**p) for p in (1, 2)) < 1e-6*w*w,
                                key + ':WSSE')
                    rec.eq(mc.digest(a, b, kw, opt), before, key + ':inputs')
    rec.sample({'sampling': sname, 'order': order, 'cycles': cyc})


@CHECK.block('piecewise', params=lambda t: [(t, s) for s in
    (list(samplings('quick')) if t == 'quick' else list(samplings('quick')) +
    [f'part{i}' for i in range(8)])], timeout=800)
def piecewise(rec, arg):
    """the break at every date and between every two dates"""
    tier, name = arg
    S = samplings(tier)
    if name.startswith('part'):
        todo = [k for k in S if k.startswith('drop')][int(name[4:])::8]
    else:
        todo = [name]
    for sname in todo:
        t = S[sname]
        n = len(t)
        light = sname.startswith('drop')
        breaks = [(f'index{i}', dict(BREAKPOINT=i), t[i])
            for i in range(2, n - 2)]
        for i in range(2, n - 3):
            for f in (0.0, 0.2, 0.5, 0.8):
                b = float(t[i] + f*(t[i + 1] - t[i]))
                breaks.append((f'time{i}+{f}', dict(BREAK_TIME=b), b))
        for (bi, (bn, bk, tb)), (ci, cyc), tk in itertools.product(
            enumerate(breaks), enumerate(CYCLES[:3]), ('none', 'two')):
            if (light or tier == 'quick') and (bi + ci + len(tk)) % 2:
                continue
            if light and (bi + ci) % 5:
                continue
            T = [] if tk == 'none' else [np.cos(2*np.pi*t/0.37)]
            X = np.column_stack([np.ones(n), t, np.maximum(t - tb, 0)] +
                [f(2*np.pi*t/c) for c in cyc for f in (np.sin, np.cos)] + T)
            # conditioning of the shifted problem decides what is determined
            Xs = X.copy()
            Xs[:, 1] -= t.mean()
            if n < X.shape[1] + 4 or qr(Xs, t)[2] > 1e3:
                continue
            for on, opt in options(n, tier):
                if (light or (tier == 'quick' and bi % 3)) and \
                        on not in ('none', 'known'):
                    continue
                if opt.get('WEIGHT') and qr(X, t)[2] > 1e5:
                    continue
                for vn, y, j in vectors(t, X, 'quick'):
                    if vn.startswith('unit') and (light or bi % 2):
                        continue
                    key = f'{sname}:{bn}:{cyc}:{tk}:{on}:{vn}'
                    rec.case(key)
                    aicc = vn == 'rough'
                    want, cond, sse = expect(X, y, opt, 3, aicc)
                    b = want['beta'].copy()
                    b[2] += b[1]
                    e = want['error'].copy()
                    e[2] = np.hypot(e[1], e[2])
                    want.update(beta=b, error=e)
                    if 'std_err' in want:
                        s = want['std_err'].copy()
                        s[2] = np.hypot(s[1], s[2])
                        want['std_err'] = s
                    before = mc.digest(t, y, T, opt)
                    with rec.guard(key):
                        o = dict(opt)
                        if aicc:
                            o['AICc'] = True
                        got = gt.time_series.piecewise(t, y, CYCLES=cyc,
                            TERMS=T, **bk, **o)
                        judge(rec, key, got, want, cond, y, j is not None or
                            vn == 'mixed', 'WEIGHT' in opt)
                    rec.eq(mc.digest(t, y, T, opt), before, key + ':inputs')
    rec.sample({'sampling': sname, 'break': bn})


@CHECK.block('phase', params=lambda t: [t])
def phase(rec, tier):
    """amplitude and phase describe the oscillation of the pair"""
    t = np.linspace(0, 1, 17)
    n = 5 if tier == 'quick' else 25
    v = np.arange(-n, n + 1)/3.0
    for a, b in itertools.product(v, v):
        key = (a, b)
        rec.case(key)
        with rec.guard(key):
            A, p = gt.time_series.amplitude(a, b)
            rec.close(A*np.sin(2*np.pi*t + np.radians(p)),
                a*np.sin(2*np.pi*t) + b*np.cos(2*np.pi*t), f'{key}:wave',
                rtol=0, atol=1e-12*(1 + abs(a) + abs(b)))
            rec.check(A >= 0 and -180 <= p <= 180, f'{key}:range')
    X, Y = np.meshgrid(v, v)
    A, p = gt.time_series.amplitude(X, Y)
    rec.close(A*np.exp(1j*np.radians(p)), X + 1j*Y, 'array', rtol=0,
        atol=1e-11)
    # amplitude and phase of a fitted oscillation
    tm = 2003 + (np.arange(30) + 0.5)/12
    for A0, p0, c in itertools.product((0.5, 2.0), range(-175, 180, 10),
        (0.5, 1.0)):
        key = f'fit:{A0}:{p0}:{c}'
        rec.case(key)
        y = 1 + 0.3*(tm - 2004) + A0*np.sin(2*np.pi*tm/c + np.radians(p0))
        with rec.guard(key):
            r = gt.time_series.regress(tm, y, CYCLES=[0.5, 1.0])
            i = 2 if c == 0.5 else 4
            A, p = gt.time_series.amplitude(r['beta'][i], r['beta'][i + 1])
            rec.close(A, A0, key + ':A', rtol=1e-9)
            rec.close(p, p0, key + ':p', rtol=0, atol=1e-6)


@CHECK.block('aliasing', params=lambda t: [t])
def aliasing(rec, tier):
    """tidal aliasing terms per mission"""
    for lo, n, period in itertools.product((2001.5, 2015.2, 2017.9, 2018.0,
        2018.5), (1, 5, 40), (161.0, 171.2, None)):
        key = f'{lo}:{n}:{period}'
        rec.case(key)
        t = lo + np.arange(n)/12
        kw = {} if period is None else dict(period=period)
        p = (period or 161.0)/365.25
        with rec.guard(key):
            T = gt.time_series.aliasing_terms(t, **kw)
            rec.check(len(T) == 4, key + ':number')
            for k, (era, f) in enumerate(((t < 2018, np.sin), (t < 2018,
                np.cos), (t >= 2018, np.sin), (t >= 2018, np.cos))):
                rec.close(T[k], np.where(era, f(2*np.pi*t/p), 0),
                    f'{key}:{k}', rtol=0, atol=1e-9)


@CHECK.block('refuse', params=lambda t: [t])
def refuse(rec, tier):
    t = 2003 + np.arange(20)/12
    for fn, kw in ((gt.time_series.regress, {}), (gt.time_series.piecewise,
        dict(BREAKPOINT=9))):
        for e in (0, 0.5):
            rec.case((fn.__name__, e))
            rec.raises(lambda: fn(t, t*t, WEIGHT=True, DATA_ERR=e, **kw),
                f'{fn.__name__}:{e}')
        # a zero error must not be replaced in the caller's array
        err = np.ones(20)
        err[4] = 0
        rec.case((fn.__name__, 'zero'))
        try:
            fn(t, t*t, WEIGHT=True, DATA_ERR=err, **kw)
        except np.linalg.LinAlgError:
            pass
        rec.eq(err[4], 0.0, f'{fn.__name__}:zero error input')


@CHECK.block('edges', params=lambda t: list(range(1, 4)))
def edges(rec, order):
    """few degrees of freedom and errors that are all zero"""
    for cyc in ([], [1.0], [0.5, 1.0]):
        k = order + 1 + 2*len(cyc)
        for nu in (1, 2, 3, 4):
            n = k + nu
            t = 2003.04 + np.arange(n)*0.37 + 0.05*np.sin(np.arange(n)*2.0)
            X = np.column_stack([(t - t.mean())**o for o in range(order + 1)] +
                [f(2*np.pi*t/c) for c in cyc for f in (np.sin, np.cos)])
            if qr(X, t)[2] > 1e5:
                continue
            y = 10 + ((np.arange(n)*5) % 7) - 0.3*np.arange(n)
            for on, opt in (('none', {}), ('conf', dict(CONF=0.6827)),
                    ('known', dict(DATA_ERR=0.25)), ('weights', dict(WEIGHT=True,
                    DATA_ERR=0.5 + ((np.arange(n)*3) % 5)/4))):
                key = f'{order}:{cyc}:{nu}:{on}'
                rec.case(key)
                aicc = nu > 2
                want, cond, sse = expect(X, y, opt, order + 1, aicc)
                with rec.guard(key):
                    got = gt.time_series.regress(t, y, ORDER=order, CYCLES=cyc,
                        AICc=aicc, **opt)
                    judge(rec, key, got, want, cond, y, False, 'WEIGHT' in opt)
            # errors that are all zero leave all dates with one weight
            key = f'{order}:{cyc}:{nu}:zeros'
            rec.case(key)
            want, cond, sse = expect(X, y, {}, order + 1, False)
            err = np.zeros(n)
            with rec.guard(key):
                got = gt.time_series.regress(t, y, ORDER=order, CYCLES=cyc,
                    DATA_ERR=err, WEIGHT=True, AICc=False)
                rec.close(got['model'], want['model'], key, rtol=0,
                    atol=1e-13*cond**2*np.abs(y).max())
                rec.check(not err.any(), key + ':inputs')
