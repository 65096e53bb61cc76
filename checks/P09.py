"""P09: calendar, Julian day and decimal year conversions are exact inverses"""
import datetime
import itertools
from fractions import Fraction
import numpy as np
import mc
import ref
import gravity_toolkit as gt

T = gt.time
CHECK = mc.Check('P09', level='bounded_exhaustive',
    rule='distinct (date, time of day, epoch, entry form) combinations; the '
    'oracle counts days with integer arithmetic and fractions exactly',
    assumptions=['Gregorian calendar between 1858 and 2105'])

CLOCK = [(0, 0, 0), (6, 0, 0), (12, 0, 0), (18, 30, 0), (23, 59, 59.5),
    (12, 34, 56.75)]
QUICK_YEARS = [1858, 1859, 1899, 1900, 1901, 1903, 1904, 1969, 1970, 1972,
    1992, 1996, 1999, 2000, 2001, 2002, 2003, 2004, 2011, 2012, 2016, 2018,
    2023, 2024, 2096, 2099, 2100, 2101, 2103, 2104]
DPM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def years(tier):
    return QUICK_YEARS if tier == 'quick' else list(range(1858, 2106))


def chunks(tier):
    y = years(tier)
    return [y[i::8] for i in range(8)]


def days(y):
    for m in range(1, 13):
        n = DPM[m-1] + (m == 2 and ref.is_leap(y))
        for d in range(1, n + 1):
            if (y, m, d) >= (1858, 11, 17):
                yield m, d


def mjd(*a):
    return ref.julian_day(*a) - Fraction(4800001, 2)


EPOCHS = [(1858, 11, 17, 0, 0, 0), (1900, 1, 1, 0, 0, 0), (1970, 1, 1, 0, 0, 0),
    (1980, 1, 6, 0, 0, 0), (2000, 1, 1, 12, 0, 0), (2002, 4, 1, 6, 30, 0)]


@CHECK.block('days', params=chunks)
def everyday(rec, ys):
    for y in ys:
        lst = list(days(y))
        if not lst:
            continue
        m = np.array([a for a, b in lst])
        d = np.array([b for a, b in lst])
        Y = np.full(len(lst), y)
        doy = np.array([ref.days_from_civil(y, a, b) -
            ref.days_from_civil(y, 1, 1) + 1 for a, b in lst])
        for hh, mi, ss in CLOCK:
            key = f'{y}:{hh}:{mi}:{ss}'
            jd = [ref.julian_day(y, a, b, hh, mi, Fraction(ss)) for a, b in lst]
            want = np.array([float(v - Fraction(4800001, 2)) for v in jd])
            dec = np.array([ref.decimal_year(y, a, b, hh, mi, Fraction(ss))
                for a, b in lst])
            rec.case(key, n=len(lst))
            with rec.guard(key + ':dates'):
                g = T.convert_calendar_dates(Y, m, d, hour=hh, minute=mi,
                    second=ss, epoch=(1858, 11, 17, 0, 0, 0))
                rec.close(g, want, key + ':mjd', rtol=0, atol=1e-9)
                for e in EPOCHS[1:]:
                    off = float(mjd(*e))
                    for form in (e, list(e), '%04d-%02d-%02dT%02d:%02d:%02d' % e):
                        g = T.convert_calendar_dates(Y, m, d, hour=hh,
                            minute=mi, second=ss, epoch=form)
                        rec.close(g, want - off, f'{key}:{e}', rtol=0, atol=1e-9)
                    g = T.convert_calendar_dates(Y, m, d, hour=hh, minute=mi,
                        second=ss, epoch=e, scale=86400.0)
                    rec.close(g, (want - off)*86400.0, f'{key}:{e}:scale',
                        rtol=0, atol=1e-4)
            with rec.guard(key + ':decimal'):
                g = T.convert_calendar_decimal(Y, m, day=d, hour=hh*np.ones(len(d)),
                    minute=mi*np.ones(len(d)), second=ss*np.ones(len(d)))
                rec.close(g, dec, key + ':decimal', rtol=0, atol=2e-11)
                g = T.convert_calendar_decimal(Y, m, DofY=doy,
                    hour=hh*np.ones(len(d)), minute=mi*np.ones(len(d)),
                    second=ss*np.ones(len(d)))
                rec.close(g, dec, key + ':doy', rtol=0, atol=2e-11)
            with rec.guard(key + ':julian'):
                J = np.array([float(v) for v in jd])
                keep = J.copy()
                D = T.convert_julian(J)
                rec.eq(J, keep, key + ':argument')
                back = [ref.julian_day(int(a), int(b), int(c), int(h), int(n),
                    Fraction(float(s))) for a, b, c, h, n, s in
                    zip(D['year'], D['month'], D['day'], D['hour'],
                    D['minute'], D['second'])]
                err = max(abs(a - b) for a, b in zip(back, jd))*86400
                rec.check(err < 1e-4, key + ':julian', lambda: f'{float(err)} s')
                # every part lies in its range
                for n, (lo, hi) in dict(month=(1, 12), day=(1, 31),
                        hour=(0, 23), minute=(0, 59)).items():
                    v = np.asarray(D[n])
                    rec.check(np.all((v >= lo) & (v <= hi) & (v == np.floor(v))),
                        f'{key}:range:{n}')
                v = np.asarray(D['second'])
                rec.check(np.all((v > -1e-4) & (v < 60.0001)),
                    key + ':range:second')
                if (hh, mi, ss) in ((0, 0, 0), (6, 0, 0), (12, 0, 0)):
                    # representable dates are exact
                    rec.eq(np.array(D['year'], int), Y, key + ':year')
                    rec.eq(np.array(D['month'], int), m, key + ':month')
                    rec.eq(np.array(D['day'], int), d, key + ':day')
                    rec.eq(np.array(D['hour'], int), np.full(len(d), hh),
                        key + ':hour')
                tup = T.convert_julian(J, format='tuple')
                zp = list(T.convert_julian(J, format='zip'))
                for i, k in enumerate(('year', 'month', 'day', 'hour',
                        'minute', 'second')):
                    rec.eq(np.asarray(tup[i]), np.asarray(D[k]), f'{key}:{k}:tuple')
                    rec.eq(np.array([z[i] for z in zp]), np.asarray(D[k]),
                        f'{key}:{k}:zip')
            with rec.guard(key + ':dec2jd'):
                for i in range(0, len(lst), 7):
                    g = float(T.calendar_to_julian(float(dec[i])))
                    rec.check(abs(g - float(jd[i])) < 1e-7, f'{key}:dec2jd',
                        lambda: f'{lst[i]} {g} {float(jd[i])}')
            # one date at a time gives the same answers
            with rec.guard(key + ':scalar'):
                for i in range(0, len(lst), 11):
                    a, b = lst[i]
                    g = T.convert_calendar_dates(y, a, b, hour=hh, minute=mi,
                        second=ss, epoch=(1858, 11, 17, 0, 0, 0))
                    rec.close(np.squeeze(g), want[i], f'{key}:scalar:mjd',
                        rtol=0, atol=1e-9)
                    g = T.convert_calendar_decimal(y, a, day=b, hour=hh,
                        minute=mi, second=ss)
                    rec.close(np.squeeze(g), dec[i], f'{key}:scalar:dec',
                        rtol=0, atol=2e-11)
                    one = T.convert_julian(float(jd[i]), format='tuple')
                    many = [v[i] for v in tup]
                    rec.check(all(np.ndim(v) == 0 for v in one) and
                        list(one) == many, f'{key}:scalar:jd')
                    one = T.convert_julian(float(jd[i]), format='tuple',
                        astype=int)
                    rec.check(list(one) == [int(v) for v in many] and
                        all(isinstance(v, (int, np.integer)) for v in one),
                        f'{key}:scalar:astype')
        # months without days are represented by their middle
        for a in range(1, 13):
            if (y, a) < (1859, 1):
                continue
            n = DPM[a-1] + (a == 2 and ref.is_leap(y))
            w = ref.decimal_year(y, a, 1, 12*(n % 2)) + \
                (n//2)/(366.0 if ref.is_leap(y) else 365.0)
            with rec.guard(f'{y}:{a}:mid'):
                rec.close(np.squeeze(T.convert_calendar_decimal(y, a)), w,
                    f'{y}:{a}:mid', rtol=0, atol=2e-11)
            rec.case((y, a, 'mid'))


@CHECK.block('together', params=chunks)
def together(rec, ys):
    """dates of two years converted in one array"""
    dates = [(1, 1), (2, 28), (3, 1), (7, 15), (12, 31)]
    other = sorted(set(QUICK_YEARS) - {1858})
    for y in ys:
        if y < 1859:
            continue
        for z in other:
            lst = [(y, a, b) for a, b in dates] + [(z, a, b) for a, b in
                dates]
            # one year after the other, and in turn
            for how, seq in (('blocks', lst), ('turns', [lst[i] for k in
                    range(len(dates)) for i in (k, k + len(dates))])):
                key = f'{y}:{z}:{how}'
                rec.case(key, n=len(seq))
                Y, m, d = (np.array(c) for c in zip(*seq))
                dec = np.array([ref.decimal_year(*x, 6) for x in seq])
                day = np.array([float(ref.julian_day(*x, 6) - Fraction(
                    4800001, 2)) for x in seq])
                mid = np.array([ref.decimal_year(*x[:2], 1) + (DPM[x[1]-1] +
                    (x[1] == 2 and ref.is_leap(x[0])))/2/(366 if ref.is_leap(
                    x[0]) else 365) for x in seq])
                doy = np.array([ref.days_from_civil(*x) - ref.days_from_civil(
                    x[0], 1, 1) + 1 for x in seq])
                six = np.full(len(seq), 6)
                with rec.guard(key):
                    rec.close(T.convert_calendar_decimal(Y, m, day=d,
                        hour=six), dec, key + ':decimal', rtol=0, atol=2e-11)
                    rec.close(T.convert_calendar_decimal(Y, m, DofY=doy,
                        hour=six), dec, key + ':doy', rtol=0, atol=2e-11)
                    rec.close(T.convert_calendar_decimal(Y, m), mid,
                        key + ':middle', rtol=0, atol=2e-11)
                    rec.close(T.convert_calendar_dates(Y, m, d, hour=6,
                        epoch=EPOCHS[0]), day, key + ':days', rtol=0,
                        atol=1e-9)
                    g = T.convert_julian(day + 2400000.5)
                    rec.check((g['year'] == Y).all() and (g['month'] ==
                        m).all() and (g['day'] == d).all() and (g['hour'] ==
                        6).all(), key + ':julian')
    rec.sample({'years': [y, z]})


@CHECK.block('calendar-days')
def calendar_days(rec, param):
    for y in range(1583, 3000):
        w = np.array(DPM, float)
        w[1] += ref.is_leap(y)
        for form in (int, float, np.int64, np.float64):
            with rec.guard(f'{y}'):
                rec.eq(np.asarray(T.calendar_days(form(y)), float), w,
                    f'{y}:{form.__name__}')
            rec.case((y, form.__name__))
        # what is returned is not shared between calls
        if y in (2003, 2004):
            a = T.calendar_days(y)
            a[:] = 0
            rec.eq(np.asarray(T.calendar_days(y), float), w, f'{y}:shared')


def npdt(e):
    return np.datetime64('%04d-%02d-%02dT%02d:%02d:%02d' % e)


def forms(e):
    return [e, list(e), '%04d-%02d-%02d %02d:%02d:%02d' % e, npdt(e)]


@CHECK.block('epochs')
def epochs(rec, param):
    """differences between epochs, in every form an epoch can be given"""
    for e1, e2 in itertools.product(EPOCHS, EPOCHS):
        diff = float((mjd(*e2) - mjd(*e1))*86400)
        for f1, f2 in itertools.product(forms(e1), forms(e2)):
            key = f'{e1}:{e2}:{type(f1).__name__}:{type(f2).__name__}'
            for dt in (0.0, 1.5, -86400.25, np.array([0.0, 1e9, -3.5])):
                for scale in (1.0, 1.0/86400.0):
                    with rec.guard(key):
                        keep = np.copy(dt)
                        g = T.convert_delta_time(dt, epoch1=f1, epoch2=f2,
                            scale=scale)
                        rec.close(g, scale*(np.asarray(dt) - diff), key,
                            rtol=1e-14, atol=1e-9)
                        rec.eq(np.asarray(dt), keep, key + ':argument')
                    rec.case((key, str(dt), scale))
    base = [(2002, 4, 5, 0, 0, 0), (2000, 2, 29, 23, 59, 59), (2100, 3, 1, 0, 0, 0)]
    dates = np.array([npdt(b) for b in base])
    for e in EPOCHS:
        w = np.array([float((mjd(*b) - mjd(*e))*86400) for b in base])
        for f in forms(e):
            key = f'datetime:{e}:{type(f).__name__}'
            with rec.guard(key):
                rec.close(T.convert_datetime(dates, epoch=f), w, key, rtol=0)
                rec.close(T.convert_datetime(dates[0], epoch=f), w[0], key)
            rec.case(key)


UNITS = {}
for names, sec in ((('microseconds', 'microsecond', 'microsec', 'microsecs'), 1e-6),
        (('milliseconds', 'millisecond', 'millisec', 'millisecs', 'msec',
        'msecs', 'ms'), 1e-3), (('seconds', 'second', 'sec', 'secs', 's'), 1.0),
        (('minutes', 'minute', 'min', 'mins'), 60.0),
        (('hours', 'hour', 'hr', 'hrs', 'h'), 3600.0),
        (('day', 'days', 'd'), 86400.0), (('mon', 'month', 'months'), 2592000.0),
        (('common_year', 'common_years'), 31536000.0),
        (('year', 'years'), 31557600.0)):
    for nm in names:
        UNITS[nm] = sec

ZONES = {'': 0, 'Z': 0, '+00:00': 0, '+05:30': 330, '-06:00': -360,
    '+14:00': 840, '-0930': -570}


@CHECK.block('strings')
def strings(rec, param):
    base = [(2000, 1, 1, 12, 0, 0), (1999, 12, 31, 23, 45, 30),
        (2004, 2, 29, 0, 0, 0), (2100, 3, 1, 1, 2, 3)]
    for b, (z, off), sep, u in itertools.product(base, ZONES.items(), 'T ',
            [None] + list(UNITS) + ['DAYS', 'Seconds']):
        s = f'%04d-%02d-%02d{sep}%02d:%02d:%02d' % b + z
        w = datetime.datetime(*b) - datetime.timedelta(minutes=off)
        want = [w.year, w.month, w.day, w.hour, w.minute, w.second]
        key = f'{u}:{s}'
        rec.case(key)
        with rec.guard(key):
            e, f = T.parse_date_string(s if u is None else f'{u} since {s}')
            rec.check([int(v) for v in e] == want, key, lambda: repr(e))
            rec.check(f == (0.0 if u is None else UNITS[u.lower()]),
                key + ':factor', lambda: repr(f))
            if u is None:
                p = T.parse(s)
                rec.check(p == w and p.tzinfo is None, key + ':parse')
            else:
                uu, ee = T.split_date_string(f'{u} since {s}')
                rec.check(uu == u.lower() and ee == w, key + ':split')
    for bad in ('fortnights since 2000-01-01', 'days', 'days since', '',
            'days since not-a-date'):
        rec.raises(lambda: T.parse_date_string(bad), f'accepts {bad!r}',
            ValueError)
        rec.case(bad)
    for b in base:
        rec.check(T.datetime_to_list(datetime.datetime(*b)) == list(b),
            f'list:{b}')
        for us in (1, 499999, 750000, 999999):
            rec.check(T.datetime_to_list(datetime.datetime(*b, us)) == list(b),
                f'list:{b}:{us}')


@CHECK.block('chain', params=chunks)
def chain(rec, ys):
    """calendar > days > Julian day > calendar > decimal year > Julian day"""
    for y in ys:
        for a, b in list(days(y))[::3]:
            key = f'{y}-{a}-{b}'
            rec.case(key)
            with rec.guard(key):
                d = T.convert_calendar_dates(y, a, b, hour=12.0,
                    epoch=(1858, 11, 17, 0, 0, 0))
                Y, M, D, h, m, s = T.convert_julian(float(d) + 2400000.5,
                    format='tuple')
                rec.check((Y, M, D, h, m) == (y, a, b, 12, 0) and abs(s) < 1e-4,
                    key, lambda: repr((Y, M, D, h, m, s)))
                t = np.squeeze(T.convert_calendar_decimal(Y, M, day=D, hour=h))
                J = float(T.calendar_to_julian(float(t)))
                rec.check(abs(J - float(d) - 2400000.5) < 1e-6, key + ':chain')
                # months agree with the mission numbering
                rec.check(int(T.calendar_to_grace(y, month=a)) ==
                    ref.grace_month(y, a), key + ':month')


@CHECK.block('reform')
def reform(rec, param):
    """civil dates around the Gregorian reform, and before it"""
    import datetime
    G = 2299160.5
    for k in range(-800, 800):
        # days counted from 15 October 1582
        if k >= 0:
            d = datetime.date(1582, 10, 15) + datetime.timedelta(days=k)
            want = (d.year, d.month, d.day)
        else:
            # the Julian calendar has a leap day every fourth year
            y, m, d = 1582, 10, 5 + k
            while d < 1:
                m -= 1
                if m < 1:
                    y, m = y - 1, 12
                d += DPM[m-1] + (m == 2 and y % 4 == 0)
            want = (y, m, d)
        for f in (0, 0.25, 0.5):
            key = f'{k}:{f}'
            with rec.guard(key):
                g = T.convert_julian(G + k + f, format='tuple')
                rec.check(tuple(g[:4]) == want + (24*f,), key,
                    lambda: f'{g} {want}')
            rec.case(key)
    # parts of days count in every form of a date
    for y in (2003, 2004):
        for doy in (1.0, 1.5, 59.25, 60.0, 60.75, 365.5):
            n = 365.0 + ref.is_leap(y)
            key = f'{y}:{doy}'
            with rec.guard(key):
                g = np.squeeze(T.convert_calendar_decimal(y, 1, DofY=doy))
                rec.close(g, y + (doy - 1)/n, key, rtol=0, atol=2e-11)
                g = np.squeeze(T.convert_calendar_decimal(y, 1, day=doy))
                rec.close(g, y + (doy - 1)/n, key + ':day', rtol=0, atol=2e-11)
            rec.case(key)
