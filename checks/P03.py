"""P03: selecting, iterating, sorting and merging dates"""
import copy
import itertools
import numpy as np
import mc
import gravity_toolkit as gt

CHECK = mc.Check('P03', level='model_checking',
    rule='transitions: every subset (all orders), index, iteration, merge '
    '(all orders), expansion and squeeze from every reachable object up to '
    'the depth; states: distinct lists of dated fields; every real object is '
    'compared with an ordered list of (month, time, field, file) records',
    assumptions=['month numbers are ones the mission convention does not '
    'adjust (adjustment is P10)'])

MONTHS = [4, 6, 9, 13]
FILL = -9999.0


class Rec:
    """one dated field"""
    def __init__(self, month, time, arrays, fname):
        self.month, self.time, self.arrays, self.fname = month, time, arrays, fname

    def key(self):
        return (int(self.month), float(self.time), self.arrays, self.fname)


def record(kind, month, seed=0, dated=True, shape=(2, 3)):
    t = 2002.0 + (month - 0.5)/12.0
    if kind == 'harmonics':
        l = np.arange(4)[:, None]
        m = np.arange(3)[None, :]
        c = np.where(m <= l, month + 0.25*l + 0.0625*m + seed, 0.0)
        s = np.where((m <= l) & (m > 0), -month - 0.5*l + 0.125*m - seed, 0.0)
        arr = dict(clm=c, slm=s)
    else:
        i = np.arange(shape[0])[:, None]
        j = np.arange(shape[1])[None, :]
        d = month + 0.25*i + 0.0625*j + seed
        mask = (i + j + month) % 4 == 0
        arr = dict(data=np.where(mask, FILL, d), mask=mask,
            error=np.where(mask, FILL, 0.5*d))
    return Rec(month, t, arr, f'/data/file_{month:03d}_{seed}.txt')


def static(kind, r, form):
    """a real object for one record; form of the date variables"""
    if kind == 'harmonics':
        H = gt.harmonics(lmax=3, mmax=2)
        H.clm, H.slm = r.arrays['clm'].copy(), r.arrays['slm'].copy()
        H.update_dimensions()
    else:
        H = gt.spatial(fill_value=FILL)
        for k, v in r.arrays.items():
            setattr(H, k, v.copy())
        n = r.arrays['data'].shape
        H.lat = 60.0 - 2.0*np.arange(n[0])
        H.lon = 10.0 + 2.0*np.arange(n[1])
    conv = {'python': (float, int), 'numpy': (np.float64, np.int64),
        '0-d': (np.array, np.array),
        '1-d': (lambda v: np.array([v]), lambda v: np.array([v]))}[form]
    H.time = conv[0](r.time)
    H.month = conv[1](r.month)
    H.filename = r.fname
    return H


def merge(kind, objs, **kw):
    H = gt.harmonics() if kind == 'harmonics' else gt.spatial()
    return H.from_list(objs, **kw)


class St:
    """real object with its records; flat: the time axis is squeezed"""
    def __init__(self, kind, H, recs, flat=False):
        self.kind, self.H, self.recs, self.flat = kind, H, recs, flat


def names(kind):
    return ('clm', 'slm') if kind == 'harmonics' else ('data', 'mask', 'error')


def compare(rec, st, key, files=True):
    H = st.H
    for n in names(st.kind):
        want = np.stack([r.arrays[n] for r in st.recs], axis=-1)
        if st.flat:
            want = want[..., 0]
        got = getattr(H, n)
        rec.close(np.asarray(got, dtype=float), want.astype(float), f'{key}:{n}')
    t = np.array([r.time for r in st.recs])
    mo = np.array([r.month for r in st.recs])
    rec.check(np.shape(H.time) == (() if st.flat else t.shape), key + ':timeshape',
        lambda: f'{np.shape(H.time)}')
    rec.close(np.atleast_1d(H.time), t, key + ':time')
    rec.eq(np.atleast_1d(H.month), mo, key + ':month')
    if st.kind == 'spatial':
        rec.check(H.fill_value == FILL, key + ':fill')
        n = st.recs[0].arrays['data'].shape
        rec.eq(np.asarray(H.lat), 60.0 - 2.0*np.arange(n[0]), key + ':lat')
        rec.eq(np.asarray(H.lon), 10.0 + 2.0*np.arange(n[1]), key + ':lon')
    f = H.filename
    if files and f:
        got = [str(v) for v in np.atleast_1d(f)]
        rec.check(got == [r.fname for r in st.recs], key + ':filename', got)


def alias(A, B, kind):
    for n in names(kind) + ('time', 'month'):
        u, v = getattr(A, n), getattr(B, n)
        if isinstance(u, np.ndarray) and isinstance(v, np.ndarray) and u.size \
                and v.size and np.shares_memory(u, v):
            return n
    return ''


def keep_source(st, fn, step_ok=True):
    """run fn on the object and insist the object itself did not change"""
    before = copy.deepcopy(st.H)
    out = fn(st.H)
    for n in names(st.kind) + ('time', 'month'):
        assert np.array_equal(np.asarray(getattr(before, n)),
            np.asarray(getattr(st.H, n))), f'source {n} changed'
    assert out is not st.H
    a = alias(out, st.H, st.kind)
    assert not a, f'result shares {a} with its source'
    return out


def ops(st):
    out = []
    months = [int(r.month) for r in st.recs]
    if not st.flat:
        for k in range(1, len(months)+1):
            for req in itertools.permutations(sorted(set(months)), k):
                def sub(s, req=req):
                    new = keep_source(s, lambda H: H.subset(np.array(req)))
                    recs = [r for r in s.recs if r.month in req]
                    return St(s.kind, new, recs, len(recs) == 1)
                out.append((f'subset{list(req)}', sub))
        for req in ([months[0], months[0]], [months[-1], months[0], months[-1]]):
            def dup(s, req=req):
                new = keep_source(s, lambda H: H.subset(req))
                recs = [r for r in s.recs if r.month in req]
                return St(s.kind, new, recs, len(recs) == 1)
            out.append((f'subset{req}', dup))

        def scalar(s):
            new = keep_source(s, lambda H: H.subset(months[-1]))
            recs = [r for r in s.recs if r.month == months[-1]]
            return St(s.kind, new, recs, len(recs) == 1)
        out.append((f'subset({months[-1]})', scalar))
        for i in range(-1, len(months)):
            def idx(s, i=i):
                new = keep_source(s, lambda H: H.index(i))
                return St(s.kind, new, [s.recs[i]], True)
            out.append((f'index({i})', idx))

        def iterate(order, sort):
            def step(s):
                items = [x for x in s.H]
                assert len(items) == len(s.recs), 'number of items'
                for x, r in zip(items, s.recs):
                    for n in names(s.kind):
                        assert np.array_equal(getattr(x, n), r.arrays[n]), n
                    assert float(x.time) == r.time and int(x.month) == r.month
                    assert not alias(x, s.H, s.kind), 'item shares storage'
                perm = {'fwd': items, 'rev': items[::-1],
                    'rot': items[1:] + items[:1]}[order]
                rr = {'fwd': s.recs, 'rev': s.recs[::-1],
                    'rot': s.recs[1:] + s.recs[:1]}[order]
                new = merge(s.kind, list(perm), sort=sort)
                if sort:
                    rr = sorted(rr, key=lambda r: r.time)
                return St(s.kind, new, list(rr))
            return step
        for order in ('fwd', 'rev', 'rot'):
            for sort in (True, False):
                out.append((f'iterate-{order}-sort{sort}', iterate(order, sort)))

        def again(s):
            """iterating twice sees every date twice"""
            a = [int(x.month) for x in s.H]
            b = [int(x.month) for x in s.H]
            assert a == b == [int(r.month) for r in s.recs]
            return s
        out.append(('iterate-twice', again))
    else:
        def expand(s):
            s.H.expand_dims()
            s.flat = False
            return s
        out.append(('expand_dims', expand))

    def cp(s):
        new = s.H.copy()
        assert not alias(new, s.H, s.kind), 'copy shares storage'
        return St(s.kind, new, s.recs, s.flat)
    out.append(('copy', cp))

    def sq(s):
        s.H.squeeze()
        s.flat = s.flat or len(s.recs) == 1
        return s
    out.append(('squeeze', sq))
    return out


def observe(rec, st, hist):
    # file names of squeezed or regrouped objects are list or string
    compare(rec, st, '>'.join(hist))
    return mc.digest(st.kind, st.flat, [r.key() for r in st.recs])


def clone(st):
    return St(st.kind, copy.deepcopy(st.H), list(st.recs), st.flat)


@CHECK.block('histories', params=lambda tier: [(k, n, 2 if (tier == 'quick' or n == 4)
    else 3) for k in ('harmonics', 'spatial') for n in (1, 2, 3, 4)])
def histories(rec, p):
    kind, n, depth = p
    recs = [record(kind, m) for m in MONTHS[:n]]
    H = merge(kind, [static(kind, r, 'numpy') for r in recs])
    mc.bfs(rec, [(f'{kind}{n}', St(kind, H, recs))], ops, depth, observe,
        clone=clone)


@CHECK.block('merge', params=lambda tier: [(k, f) for k in ('harmonics', 'spatial')
    for f in ('python', 'numpy', '0-d', '1-d')])
def merging(rec, p):
    """every arrangement of up to four dated objects"""
    kind, form = p
    for n in range(1, 5):
        for order in itertools.permutations(MONTHS, n):
            for sort in (True, False, None):
                for clear in (False, True):
                    key = f'{kind}:{form}:{order}:{sort}:{clear}'
                    recs = [record(kind, m) for m in order]
                    objs = [static(kind, r, form) for r in recs]
                    keep = [copy.deepcopy(o) for o in objs]
                    kw = {} if sort is None else dict(sort=sort)
                    with rec.guard(key):
                        H = merge(kind, list(objs), clear=clear, **kw)
                        rr = recs if sort is False else sorted(recs,
                            key=lambda r: r.time)
                        st = St(kind, H, rr)
                        compare(rec, st, key)
                        for o, k in zip(objs, keep):
                            for a in names(kind):
                                rec.check(np.array_equal(getattr(o, a),
                                    getattr(k, a)), key + ':source')
                            rec.check(not alias(o, H, kind), key + ':alias')
                        rec.transitions += 1
                        rec.traces += 1
                        rec.case(key)
    rec.states += 1


@CHECK.block('undated', params=lambda tier: ['harmonics', 'spatial'])
def undated(rec, kind):
    """merging and iterating without dates keeps the given order"""
    for n in range(1, 4):
        for order in itertools.permutations(MONTHS, n):
            for withdates in (True, False):
                key = f'{kind}:{order}:{withdates}'
                recs = [record(kind, m) for m in order]
                objs = [static(kind, r, 'numpy') for r in recs]
                if not withdates:
                    for o in objs:
                        o.time = o.month = None
                with rec.guard(key):
                    H = merge(kind, objs, date=False)
                    for a in names(kind):
                        rec.close(np.asarray(getattr(H, a), float), np.stack(
                            [r.arrays[a] for r in recs], axis=-1).astype(float),
                            f'{key}:{a}')
                    items = [x for x in H]
                    rec.check(len(items) == n, key + ':len')
                    for x, r in zip(items, recs):
                        for a in names(kind):
                            rec.check(np.array_equal(getattr(x, a), r.arrays[a]),
                                f'{key}:item:{a}')
                    for i in range(n):
                        x = H.index(i, date=False)
                        for a in names(kind):
                            rec.check(np.array_equal(getattr(x, a),
                                recs[i].arrays[a]), f'{key}:index{i}:{a}')
                    rec.transitions += 1
                    rec.case(key)


@CHECK.block('absent', params=lambda tier: ['harmonics', 'spatial'])
def absent(rec, kind):
    """any request naming an absent month is refused"""
    for n in range(1, 5):
        recs = [record(kind, m) for m in MONTHS[:n]]
        H = merge(kind, [static(kind, r, 'numpy') for r in recs])
        pool = MONTHS + [1, 5, 14, 250]
        for k in (1, 2, 3):
            for req in itertools.permutations(pool, k):
                if set(req) <= set(MONTHS[:n]):
                    continue
                key = f'{kind}:{n}:{req}'
                rec.raises(lambda: H.subset(np.array(req)), key,
                    (IOError, ValueError, KeyError, IndexError))
                rec.case(key)
                rec.transitions += 1
        st = St(kind, H, recs)
        compare(rec, st, f'{kind}:{n}:after')


@CHECK.block('duplicates', params=lambda tier: ['harmonics', 'spatial'])
def duplicates(rec, kind):
    """two solutions carrying the same month number are both kept"""
    recs = [record(kind, m, s) for m, s in ((4, 0), (6, 0), (6, 1), (9, 0))]
    recs[2].time += 0.01
    H = merge(kind, [static(kind, r, 'numpy') for r in recs])
    H.month = np.array([4, 6, 6, 9])
    for req in ([6], [4, 6], [6, 9], [9, 6, 4], [4, 9]):
        key = f'{kind}:{req}'
        with rec.guard(key):
            out = H.subset(req)
            rr = [r for r in recs if r.month in req]
            compare(rec, St(kind, out, rr), key)
            rec.transitions += 1
            rec.case(key)


@CHECK.block('equal-months', params=lambda tier: ['harmonics', 'spatial'])
def equal_months(rec, kind):
    """dates of one month number are sorted by their times; with metadata"""
    for order in itertools.permutations(range(4)):
        recs = [record(kind, m, s) for m, s in ((4, 0), (6, 0), (6, 1), (9, 0))]
        recs[1].time += 0.02
        recs[2].time += 0.01
        recs = [recs[i] for i in order]
        objs = []
        for r in recs:
            o = static(kind, r, 'numpy')
            o.attributes = dict(ROOT=dict(title=r.fname))
            objs.append(o)
        for sort in (True, False):
            key = f'{kind}:{order}:{sort}'
            with rec.guard(key):
                H = merge(kind, list(objs), sort=sort)
                rr = sorted(recs, key=lambda r: r.time) if sort else recs
                got = [float(t) for t in H.time]
                rec.check(got == [r.time for r in rr], key + ':time', got)
                for n in names(kind):
                    rec.close(np.asarray(getattr(H, n), float), np.stack([
                        r.arrays[n] for r in rr], axis=-1).astype(float),
                        f'{key}:{n}')
                rec.check([str(f) for f in H.filename] == [r.fname for r in
                    rr], key + ':filename')
                if kind == 'spatial':
                    rec.check([a['ROOT']['title'] for a in H.attributes] ==
                        [r.fname for r in rr], key + ':attributes')
                rec.case(key)
                rec.transitions += 1


@CHECK.block('truncation')
def truncation(rec, param):
    """merging objects of different degree keeps the common truncation"""
    dims = [(a, b) for a in range(1, 5) for b in range(0, a+1)]
    for (a, b), (c, d) in itertools.product(dims, dims):
        key = f'{a}.{b}:{c}.{d}'
        objs = []
        for (L, Mx), mo in (((a, b), 9), ((c, d), 4)):
            H = gt.harmonics(lmax=L, mmax=Mx)
            H.clm = mo + np.arange((L+1)*(Mx+1), dtype=float).reshape(L+1, Mx+1)
            H.slm = -H.clm
            H.time, H.month = 2002 + (mo-0.5)/12, mo
            objs.append(H)
        with rec.guard(key):
            H = gt.harmonics().from_list(objs)
            L, Mx = min(a, c), min(b, d)
            rec.check(int(H.lmax) == L and int(H.mmax) == Mx, key + ':lmax')
            rec.close(H.clm, np.stack([objs[1].clm[:L+1, :Mx+1],
                objs[0].clm[:L+1, :Mx+1]], axis=-1), key + ':clm')
            rec.close(H.slm, np.stack([objs[1].slm[:L+1, :Mx+1],
                objs[0].slm[:L+1, :Mx+1]], axis=-1), key + ':slm')
            rec.eq(np.asarray(H.month), np.array([4, 9]), key + ':month')
            rec.case(key)
            rec.transitions += 1
