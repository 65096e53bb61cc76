"""P10: GRACE month numbers follow the mission numbering convention"""
import itertools
import numpy as np
import mc
import ref
import gravity_toolkit as gt

T = gt.time
CHECK = mc.Check('P10', level='bounded_exhaustive',
    rule='distinct (calendar month, entry form) and distinct arrangements of '
    'special months and their neighbours',
    assumptions=['the special months are those documented in adjust_months; '
        'series are in date order; a special month whose partner is absent '
        'from the series cannot be told apart and is outside the property'])

# month number -> number of the calendar month of its midpoint
SPECIAL = {
    'CSR/GFZ': {119: 118, 161: 160},
    'JPL': {120: 121, 161: 160},
    'GSFC': {202: 203, 161: 160},
}


@CHECK.block('calendar')
def calendar(rec, _):
    """every month of 1990-2040, one at a time and as arrays"""
    ym = [(y, m) for y in range(1990, 2041) for m in range(1, 13)]
    Y = np.array([a for a, b in ym])
    M = np.array([b for a, b in ym])
    want = np.array([(y - 2002)*12 + m for y, m in ym])
    for dt in (np.int64, np.int32, np.int16, np.float64, np.float32):
        rec.case(('array', dt.__name__), n=len(ym))
        with rec.guard(f'array:{dt.__name__}'):
            a, b = Y.astype(dt), M.astype(dt)
            g = T.calendar_to_grace(a, b)
            rec.eq(np.asarray(g), want, f'array:{dt.__name__}')
            rec.check(np.asarray(g).dtype.kind == 'i', f'dtype:{dt.__name__}')
            rec.eq(a, Y.astype(dt), f'arg:{dt.__name__}')
            if dt in (np.int64, np.int32, np.int16):
                w = want.astype(dt)
                y, m = T.grace_to_calendar(w)
                rec.eq(np.asarray(y), Y, f'back:y:{dt.__name__}')
                rec.eq(np.asarray(m), M, f'back:m:{dt.__name__}')
                rec.eq(w, want.astype(dt), f'back:arg:{dt.__name__}')
            # january is the default
            rec.eq(np.asarray(T.calendar_to_grace(a)), want - M + 1,
                f'default:{dt.__name__}')
    for (y, m), w in zip(ym, want):
        rec.case((y, m))
        with rec.guard(f'{y}-{m}'):
            for g in (T.calendar_to_grace(y, m),
                    T.calendar_to_grace(y, month=m),
                    T.calendar_to_grace(float(y), m),
                    T.calendar_to_grace(np.int64(y), np.int64(m))):
                rec.check(np.ndim(g) == 0 and int(g) == w, f'{y}-{m}',
                    lambda: f'{g} != {w}')
            for v in (int(w), np.int64(w)):
                a, b = T.grace_to_calendar(v)
                rec.check(int(a) == y and int(b) == m, f'{y}-{m}:back',
                    lambda: f'{a} {b}')
    rec.sample({'2002-04': int(T.calendar_to_grace(2002, 4))})


@CHECK.block('decimal')
def decimal(rec, _):
    """decimal years of days well inside each month give its number"""
    for y in range(1992, 2040):
        t, w = [], []
        for m in range(1, 13):
            for d in (4, 8, 15, 20, 26):
                t.append(ref.decimal_year(y, m, d))
                w.append((y - 2002)*12 + m)
        rec.case(y, n=len(t))
        with rec.guard(f'{y}'):
            rec.eq(np.asarray(T.calendar_to_grace(np.array(t))), np.array(w),
                f'{y}:array')
            for a, b in zip(t, w):
                rec.check(int(T.calendar_to_grace(a)) == b, f'{y}:scalar')


def observed(true, sp):
    return np.array([sp.get(int(m), int(m)) for m in true])


def compare(rec, key, obs, true):
    keep = obs.copy()
    g = T.adjust_months(obs)
    rec.eq(np.asarray(g), np.asarray(true), key)
    rec.eq(obs, keep, key + ':arg')
    rec.check(g is not obs, key + ':same')


def widths(tier):
    w = 4 if tier == 'quick' else 6
    return [(c, s, w) for c in SPECIAL for s in SPECIAL[c]]


@CHECK.block('special', params=widths)
def special(rec, par):
    """every subset of the neighbours around each documented special month"""
    c, s, w = par
    sp = SPECIAL[c]
    o = sp[s]
    near = [m for m in range(min(s, o) - w, max(s, o) + w + 1)
        if m not in (s, o)]
    for n in range(0, len(near) + 1):
        for sub in itertools.combinations(near, n):
            true = sorted(sub + (s, o))
            rec.case((c, true))
            with rec.guard(f'{c}:{true}'):
                compare(rec, f'{c}:{true}', observed(true, sp), true)
                compare(rec, f'{c}:{true}:i4', observed(true, sp).astype('i4'),
                    true)
    rec.sample({'centre': c, 'special': s, 'centred in': o})


@CHECK.block('missions')
def missions(rec, _):
    """complete records of each centre, with every single month left out"""
    gaps = {1, 2, 3, 6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151,
        156, 162, 166, 167, 172, 177, 178, 182} | set(range(187, 198)) | \
        {200, 201}
    for c, sp in SPECIAL.items():
        full = [m for m in range(4, 250) if m not in gaps]
        pairs = set(sp) | set(sp.values())
        series = [full] + [[k for k in full if k != m] for m in full
            if m not in pairs]
        for true in series:
            rec.case((c, len(true), sum(true)))
            with rec.guard(f'{c}:{sum(true)}'):
                compare(rec, f'{c}:without {sum(full)-sum(true)}',
                    observed(true, sp), true)


def lengths(tier):
    return [(n, k) for n in range(1, 6 if tier == 'quick' else 7)
        for k in range(3)]


@CHECK.block('other', params=lengths)
def other(rec, par):
    """every ordered series of small numbers: months that occur once keep
    their number, no number is lost or invented, and a pair is told apart"""
    n, part = par
    lo, hi = [(4, 13), (115, 124), (157, 166)][part]
    for obs in itertools.combinations_with_replacement(range(lo, hi), n):
        o = np.array(obs)
        rec.case(obs)
        with rec.guard(f'{obs}'):
            g = np.asarray(T.adjust_months(o))
            rec.eq(o, np.array(obs), f'{obs}:arg')
            if not rec.check(g.shape == o.shape, f'{obs}:shape'):
                continue
            for i, v in enumerate(obs):
                k = obs.count(v)
                if k == 1:
                    rec.check(g[i] == v, f'{obs}:single')
                elif k == 2:
                    rec.check(abs(int(g[i]) - v) <= 1, f'{obs}:pair')
                    if i and obs[i-1] == v:
                        rec.check(g[i] == g[i-1] + 1, f'{obs}:distinct')
                else:
                    rec.check(g[i] == v, f'{obs}:many')
    for v in range(lo, hi):
        with rec.guard(f'scalar:{v}'):
            for s in (v, np.int64(v)):
                g = T.adjust_months(s)
                rec.check(np.ndim(g) == 0 and int(g) == v, f'scalar:{v}')
