"""P11: monthly inventories list every available file once, right month"""
import calendar
import datetime
import itertools
import os
import pathlib
import numpy as np
import mc
import prog
import ref
import gravity_toolkit as gt

T = gt.time
CHECK = mc.Check('P11', level='bounded_exhaustive',
    rule='distinct (centre, release, dataset, set of available months) '
    'directories and distinct multisets of file versions',
    assumptions=['index files list one file per month in date order; both '
        'files of a special month pair are available when one is'])

DAY = datetime.timedelta(days=1)
# periods of months whose files do not cover the calendar month
PERIODS = {
    4: ((2002, 4, 5), (2002, 4, 30)),
    # accelerometer shutoffs: midpoints in a neighbouring month
    ('A', 118): ((2011, 10, 1), (2011, 10, 31)),
    ('A', 119): ((2011, 10, 16), (2011, 11, 16)),
    ('A', 120): ((2011, 12, 2), (2012, 1, 1)),
    ('J', 120): ((2011, 12, 24), (2012, 1, 15)),
    ('J', 121): ((2012, 1, 8), (2012, 2, 7)),
    160: ((2015, 4, 1), (2015, 4, 28)),
    161: ((2015, 4, 12), (2015, 5, 11)),
    # across the new year
    24: ((2003, 12, 10), (2004, 1, 4)),
    25: ((2004, 1, 5), (2004, 2, 10)),
    84: ((2008, 12, 12), (2009, 1, 5)),
}


def period(kind, m):
    y, mo = 2002 + (m - 1)//12, (m - 1) % 12 + 1
    last = calendar.monthrange(y, mo)[1]
    p = ((y, mo, 1), (y, mo, last))
    if kind in 'AJ':
        p = PERIODS.get((kind, m), PERIODS.get(m, p))
    return datetime.date(*p[0]), datetime.date(*p[1])


def doy(d):
    return d.timetuple().tm_yday


def standard(ds, mission, centre, sol, rel, sfx=''):
    def name(m, a, b):
        mi = mission if mission != '*' else f'{(b - a).days + 1:04d}'
        return (f'{ds}-2_{a.year}{doy(a):03d}-{b.year}{doy(b):03d}_{mi}_'
            f'{centre}_{sol}_{rel}{sfx}')
    return name


def itsg(prefix):
    return lambda m, a, b: f'{prefix}_{a.year}-{a.month:02d}.gfc'


def swarm(sfx):
    return lambda m, a, b: (f'SW_OPER_EGF_SHA_2__{a:%Y%m%d}T000000_'
        f'{b:%Y%m%d}T235959_0101{sfx}')


def products():
    out = []
    for ds in ('GSM', 'GAC', 'GAD'):
        for rel, sol in (('RL04', '0060_0004'), ('RL05', '0060_0005'),
                ('RL06', 'BA01_0600'), ('RL06', 'BB01_0602'),
                ('RL06.1_LRI', 'EA01_0601')):
            s, r = sol.split('_')
            out.append(('CSR', rel, ds, 'A', standard(ds, 'GRAC' if rel[:4] ==
                'RL06' else '*', 'UTCSR', s, r, '.gz' if s != '0060' else '')))
        for rel, cen, sol in (('RL04', 'EIGEN', 'G---_0004'),
                ('RL05', 'EIGEN', 'G---_005a'), ('RL05', 'EIGEN', 'GK2-_005a'),
                ('RL06', 'GFZOP', 'BA01_0600')):
            s, r = sol.split('_')
            out.append(('GFZ', rel, ds, 'A', standard(ds, 'GRFO' if rel ==
                'RL06' else '*', cen, s, r, '.gz')))
        for rel, sol in (('RL05', '0001_0005'), ('RL06', 'BA01_0603')):
            s, r = sol.split('_')
            out.append(('JPL', rel, ds, 'J', standard(ds, 'GRAC' if rel ==
                'RL06' else '*', 'JPLEM', s, r)))
        out.append(('CNES', 'RL05', ds, 'A', standard(ds, '*', 'GRGS', 'BA01',
            '0500', '.txt')))
        out.append(('GRGS', 'RL05', ds, 'A', standard(ds, '*', 'GRGS', 'BA01',
            '0500', '.txt.gz')))
        out.append(('COSTG', 'RL01', ds, 'A', standard(ds, 'GRAC', 'COSTG',
            'BF01', '0100', '.gfc')))
    for rel, ds, pre in (('RL14', 'GSM', 'ITSG-Grace2014_n60'),
            ('RL16', 'GSM', 'ITSG-Grace2016_n90'),
            ('RL18', 'GSM', 'ITSG-Grace2018_n120'),
            ('RL18', 'GSM', 'ITSG-Grace_operational_n60'),
            ('RL18', 'GAA', 'model_atmosphere'), ('RL18', 'GAB', 'model_ocean'),
            ('RL18', 'GAC', 'model_dealiasing_n180'),
            ('RL18', 'GAD', 'AOD1B_RL06_oceanBottomPressure')):
        out.append(('GRAZ', rel, ds, 'M', itsg(pre)))
    for sfx in ('.ZIP', '.gfc'):
        out.append(('Swarm', 'RL01', 'GSM', 'M', swarm(sfx)))
        for ds in ('GAA', 'GAB', 'GAC', 'GAD'):
            out.append(('Swarm', 'RL01', ds, 'M', lambda m, a, b, ds=ds,
                sfx=sfx: f'{ds}_Swarm_90_{a.month:02d}_{a.year}{sfx}'))
    return out


WINDOWS = [(4, 5, 6, 9, 12), (117, 118, 119, 120, 121, 122),
    (158, 159, 160, 161, 163), (23, 24, 25, 26, 27), (83, 84, 85, 87),
    (186, 198, 199, 204)]


def subsets(tier):
    out = []
    for w in WINDOWS:
        for n in range(1, len(w) + 1):
            out += itertools.combinations(w, n)
    if tier != 'quick':
        w = tuple(range(114, 125))
        for n in range(6, len(w) + 1):
            out += itertools.combinations(w, n)
    out.append(tuple(range(4, 200)))
    return out


def usable(kind, months):
    pairs = {'A': [(118, 119), (160, 161)], 'J': [(120, 121), (160, 161)],
        'M': []}[kind]
    return all((a in months) == (b in months) for a, b in pairs)


def expect(kind, months):
    rows = []
    for m in months:
        a, b = period(kind, m)
        sd = doy(a)
        # day of year of the end counted in the starting year
        length = 366 if ref.is_leap(a.year) else 365
        ed = (b - datetime.date(a.year, 1, 1)).days + 1
        fs = 86399/86400 if kind == 'M' else 0
        mid = (sd + ed + fs)/2
        count = (datetime.date(a.year, 1, 1) - datetime.date(2002, 1, 1)).days
        rows.append(dict(mon=m, t=a.year + mid/length, styr=a.year, stday=sd,
            endyr=b.year, endday=doy(b), total=count + mid))
    return rows


def prod_params(tier):
    return [(tier, i) for i in range(len(products()))]


def write_index(d, names):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'index.txt'), 'w') as f:
        f.write(''.join(n + '\n' for n in names))


@CHECK.block('directory', params=prod_params)
def directory(rec, par):
    tier, k = par
    proc, rel, ds, kind, name = products()[k]
    for months in subsets(tier):
        if not usable(kind, months):
            continue
        key = f'{proc}:{rel}:{ds}:{k}:{months if len(months) < 12 else "all"}'
        rec.case(key)
        base = rec.mkdir()
        d = os.path.join(base, proc, rel, ds)
        names = [name(m, *period(kind, m)) for m in months]
        write_index(d, names)
        rows = expect(kind, months)
        dates = os.path.join(d, f'{proc}_{rel}_DATES.txt')
        with rec.guard(key):
            g = gt.grace_date(base, PROC=proc, DREL=rel, DSET=ds, OUTPUT=False)
            rec.check(not os.path.exists(dates), key + ':no output')
            rec.eq([int(m) for m in g], list(months), key + ':months')
            rec.eq([str(g[m]) for m in g], [os.path.join(d, n) for n in names],
                key + ':files')
            g = gt.grace_date(pathlib.Path(base), PROC=proc, DREL=rel, DSET=ds)
            rec.eq([int(m) for m in g], list(months), key + ':months2')
            lines = open(dates).read().splitlines()
            rec.check(len(lines) == len(months) + 1, key + ':lines')
            for ln, r in zip(lines[1:], rows):
                f = ln.split()
                got = [int(v) for v in f[1:]]
                rec.eq(got[:5], [r['mon'], r['styr'], r['stday'], r['endyr'],
                    r['endday']], f'{key}:row {r["mon"]}')
                rec.check(abs(float(f[0]) - r['t']) < 6e-9, f'{key}:t {r["mon"]}',
                    lambda: f'{f[0]} {r["t"]}')
                rec.check(abs(got[5] - r['total']) <= 0.5 + 1e-9,
                    f'{key}:total {r["mon"]}', lambda: f'{f} {r["total"]}')
            if proc not in ('CNES',) or rel not in ('RL01', 'RL02'):
                missing = [m for m in range(4, months[-1]) if m not in months]
            # the months are the same from an existing file and a new one
            for fresh in (False, True):
                if fresh:
                    os.remove(dates)
                v = gt.grace_find_months(base, proc, rel, DSET=ds)
                rec.eq([int(m) for m in v['months']], list(months),
                    f'{key}:find:{fresh}')
                rec.eq([int(m) for m in v['missing']], missing,
                    f'{key}:missing:{fresh}')
                rec.check(int(v['start']) == months[0] and
                    int(v['end']) == months[-1], f'{key}:range:{fresh}')
                rec.close(np.asarray(v['time']), np.array([r['t'] for r in
                    rows]), f'{key}:times:{fresh}', rtol=0, atol=6e-9)
    rec.sample({'product': [proc, rel, ds], 'file': name(4, *period(kind, 4))})


def tables(tier):
    w = [117, 118, 119, 120, 121] if tier == 'quick' else \
        [116, 117, 118, 119, 120, 121, 122]
    sets = [s for n in range(0, len(w) + 1)
        for s in itertools.combinations(w, n)]
    return [(sets, i) for i in range(8)]


@CHECK.block('table', params=tables)
def table(rec, par):
    """month tables over two centres and two releases"""
    sets, part = par
    ref_sets = [(118, 119, 120, 121), (117, 118, 119), (4, 5), ()]
    combos = [(a, b) for a in sets for b in ref_sets][part::8]
    for a, b in combos:
        for swap in (False, True):
            avail = {('CSR', 'RL06'): (b if swap else a),
                ('JPL', 'RL06'): (a if swap else b), ('GFZ', 'RL05'): b}
            if not (usable('A', avail['CSR', 'RL06']) and
                    usable('J', avail['JPL', 'RL06']) and
                    usable('A', avail['GFZ', 'RL05'])):
                continue
            key = f'{a}:{b}:{swap}'
            rec.case(key)
            base = rec.mkdir()
            want = {}
            with rec.guard(key):
                for (pr, rl), months in avail.items():
                    if not months:
                        continue
                    kind = 'J' if pr == 'JPL' else 'A'
                    nm = standard('GSM', 'GRAC', dict(CSR='UTCSR', JPL='JPLEM',
                        GFZ='EIGEN')[pr], 'BA01', '0600')
                    write_index(os.path.join(base, pr, rl, 'GSM'),
                        [nm(m, *period(kind, m)) for m in months])
                    gt.grace_date(base, PROC=pr, DREL=rl, DSET='GSM')
                    want[f'{pr}_{rl}'] = {m: period(kind, m) for m in months}
                gt.grace_months_index(base, DREL=['RL05', 'RL06'], MODE=0o644)
                lines = open(os.path.join(base, 'GRACE_months.txt')).read() \
                    .splitlines()
                cols = sorted(want)
                rec.eq(lines[0].split(), ['MONTH'] + cols, key + ':head')
                top = max([m for c in cols for m in want[c]], default=0)
                rec.check(len(lines) == 1 + max(0, top - 3), key + ':rows')
                for m, ln in zip(range(4, top + 1), lines[1:]):
                    y, mo = 2002 + (m-1)//12, (m-1) % 12 + 1
                    rec.check(ln[:11].split() == [f'{m:03d}',
                        f'{calendar.month_abbr[mo]}{y}'] , f'{key}:{m}:label',
                        lambda: ln)
                    cells = ln[11:].replace('** missing **', 'missing').split()
                    rec.eq(cells, [fmt(want[c].get(m)) for c in cols],
                        f'{key}:{m}')
    # permissions may be left alone
    base = rec.mkdir()
    write_index(os.path.join(base, 'CSR', 'RL06', 'GSM'), [standard('GSM',
        'GRAC', 'UTCSR', 'BA01', '0600')(9, *period('A', 9))])
    with rec.guard('default mode'):
        gt.grace_date(base, PROC='CSR', DREL='RL06', DSET='GSM')
        gt.grace_months_index(base)


def fmt(p):
    if p is None:
        return 'missing'
    a, b = p
    return f'{a.year}_{doy(a):03d}--{b.year}_{doy(b):03d}'


@CHECK.block('tendays')
def tendays(rec, _):
    """the ten-day solutions are numbered in steps of ten days"""
    for rel in ('RL01', 'RL02'):
        for start in ((2002, 7, 29), (2003, 12, 28), (2008, 2, 20)):
            full = [(datetime.date(*start) + 10*k*DAY,
                datetime.date(*start) + (10*k + 9)*DAY) for k in range(6)]
            for n in range(1, 7):
                for sub in itertools.combinations(range(6), n):
                    key = f'{rel}:{start}:{sub}'
                    rec.case(key)
                    base = rec.mkdir()
                    nm = standard('GSM', '*', 'GRGS', 'BA01', '0100', '.txt')
                    names = [nm(0, *full[k]) for k in sub]
                    d = os.path.join(base, 'CNES', rel, 'GSM')
                    write_index(d, names)
                    num = [k - sub[0] + 1 for k in sub]
                    with rec.guard(key):
                        g = gt.grace_date(base, PROC='CNES', DREL=rel,
                            DSET='GSM')
                        rec.eq([int(m) for m in g], num, key + ':number')
                        rec.eq([os.path.basename(g[m]) for m in g], names,
                            key + ':files')
                        v = gt.grace_find_months(base, 'CNES', rel)
                        rec.eq([int(m) for m in v['months']], num, key+':find')
                        rec.eq([int(m) for m in v['missing']], [m for m in
                            range(1, num[-1]) if m not in num], key + ':miss')


@CHECK.block('versions')
def versions(rec, _):
    """of several files for the same dates the newest version is kept"""
    styles = [('GRAC', 'UTCSR', 'BA01', '06'), ('GRFO', 'GFZOP', 'BB01', '06'),
        ('GRAC', 'JPLEM', 'BA01', '06'), ('GRAC', 'COSTG', 'BF01', '01'),
        ('0031', 'GRGS', 'BA01', '05'), ('0031', 'JPLMSC', '0001', '05')]
    dates = [period('M', m) for m in (9, 10, 24)]
    for mission, cen, sol, rel in styles:
        for sfx in ('', '.gz', '.gfc', '.txt'):
            nm = lambda i, v: standard('GSM', mission, cen, sol,
                f'{rel}{v:02d}', sfx)(0, *dates[i])
            vers = (0, 1, 3, 10)
            pool = [(i, v) for i in range(3) for v in vers]
            for n in range(0, 5):
                for sub in itertools.combinations(pool, n):
                    for order in (sub, sub[::-1], sub[1:] + sub[:1]):
                        key = f'{cen}:{sfx}:{order}'
                        rec.case(key)
                        with rec.guard(key):
                            lst = [nm(i, v) for i, v in order]
                            keep = list(lst)
                            g = T.reduce_by_date(lst)
                            want = [nm(i, max(v for j, v in sub if j == i))
                                for i in sorted({i for i, v in sub})]
                            rec.eq(list(g), want, key)
                            rec.eq(lst, keep, key + ':arg')
                            g = T.reduce_by_date(['/a/b/' + f for f in lst])
                            rec.eq(list(g), ['/a/b/' + f for f in want], key +
                                ':path')
    # constrained and unconstrained fields of the same dates: one is kept
    for a, b in itertools.permutations(('G---', 'GK2-')):
        with rec.guard(f'{a}{b}'):
            lst = [standard('GSM', '0031', 'EIGEN', s, '005a', '.gz')(0,
                *dates[0]) for s in (a, b)]
            g = T.reduce_by_date(lst)
            rec.check(len(g) == 1 and g[0] in lst, f'{a}{b}')


@CHECK.block('names')
def names(rec, _):
    """dates of every file name of every product, with and without a path"""
    for proc, rel, ds, kind, name in products():
        for m in list(range(4, 60)) + [118, 119, 120, 121, 160, 161]:
            a, b = period(kind, m)
            n = name(m, a, b)
            key = f'{proc}:{rel}:{ds}:{n}'
            rec.case(key)
            for f in (n, '/data/GSM-2_x/' + n, pathlib.Path('/d') / n):
                with rec.guard(key):
                    if kind == 'M':
                        s, e = T.parse_gfc_file(f, proc, ds)
                        rec.eq([int(v) for v in s], [a.year, a.month, a.day,
                            0, 0, 0], key + ':start')
                        rec.eq([int(v) for v in e], [b.year, b.month, b.day,
                            23, 59, 59], key + ':end')
                    else:
                        s, e = T.parse_grace_file(f)
                        rec.eq([int(v) for v in s], [a.year, doy(a)], key+':s')
                        rec.eq([int(v) for v in e], [b.year, doy(b)], key+':e')


def release06(ds, mission, centre, sol, v, m, sfx='.gz'):
    return standard(ds, mission, centre, sol, f'06{v:02d}', sfx)(m,
        *period('J' if centre == 'JPLEM' else 'A', m))


TAGS = {'CSR': 'UTCSR', 'GFZ': 'GFZOP', 'JPL': 'JPLEM'}
OTHER = ['index.txt', 'GSM-2_2002213-2002243_GRAC_UTCSR_BB01_0600.gz',
    'GAD-2_2002213-2002243_GRAC_UTCSR_BC01_0600.gz', 'README', '.listing',
    'GSM-2_2002213-2002243_GRAC_UTCSR_BA01_0600.gz.tmp',
    'GSM-2_2002213-2002243_GRAC_UTCSR_BA01_0600.xml',
    'old_GSM-2_2002213-2002243_GRAC_UTCSR_BA01_0600.gz']


@CHECK.block('programs', params=lambda tier: [(k, tier) for k in range(12)])
def programs(rec, arg):
    """index and date programs on every directory content over a pool, after
    every content one file away"""
    part, tier = arg
    pool = [('GRAC', 9, 0, '.gz'), ('GRAC', 9, 1, '.gz'), ('GRAC', 10, 0, ''),
        ('GRAC', 10, 2, '.gz'), ('GRAC', 24, 0, '.gz'), ('GRFO', 199, 0, ''),
        ('GRFO', 199, 1, '.gz'), ('GRFO', 200, 1, '.gz'), ('GRFO', 200, 3,
        ''), ('GRAC', 160, 0, '.gz'), ('GRFO', 228, 1, '.gz'), ('GRFO', 228,
        3, '.gz')]
    if tier == 'quick':
        pool = pool[:9]
    combos = list(itertools.product(('CSR', 'GFZ', 'JPL'), range(4)))
    centre, k = combos[part]
    ds = ('GSM', 'GSM', 'GAD', 'GAC')[k]
    wanted = ((), ('-v', '1', '3'), ('-v', '02', '01'), ())[k]
    va, vb = (0, 1) if not wanted else (int(wanted[1]), int(wanted[2]))
    sol = 'BA01' if ds == 'GSM' else 'BC01'
    base = pathlib.Path(rec.mkdir())
    d = base/centre/'RL06'/ds
    d.mkdir(parents=True)
    for o in OTHER:
        if ds == 'GSM' and centre == 'CSR' or o[:3] not in (ds,):
            (d/o).write_text('x')
    name = {f: release06(ds, f[0], TAGS[centre], sol, f[2], f[1], f[3])
        for f in pool}
    now = set()
    gray = [v ^ (v >> 1) for v in range(2**len(pool))]
    for v in gray:
        have = {f for i, f in enumerate(pool) if v >> i & 1}
        for f in have - now:
            (d/name[f]).write_text('x')
        for f in now - have:
            (d/name[f]).unlink()
        now = have
        key = f'{centre}:{ds}:{wanted}:{sorted(have)}'
        rec.case(key)
        with rec.guard(key):
            err = prog.run('make_grace_index', '-D', base, '-c', centre, '-r',
                'RL06', '-p', ds, *wanted)
            rec.check(err == '', key + ':errors', lambda: err[-200:])
            got = (d/'index.txt').read_text().split('\n')
            # the version is part of the request for solutions
            want = sorted(name[f] for f in have if (f[2] == (va if f[0] ==
                'GRAC' else vb) if ds == 'GSM' else all(g[2] <= f[2] for g in
                have if g[1] == f[1])))
            rec.eq(got[:-1], want, key)
    rec.sample({'pool': list(name.values())})


def trees(tier):
    sets = [(), (9,), (9, 10), (9, 24, 199), (117, 118, 119, 120, 122), (160,
        161, 163), (4, 228)]
    return [(a, b, c) for a in sets for b in sets for c in ((), (10,), (9, 200))
        ]


@CHECK.block('dates', params=lambda tier: [(k, tier) for k in range(8)])
def dates(rec, arg):
    """date program over every combination of the contents of three centres"""
    part, tier = arg
    for sets in trees(tier)[part::8]:
        for releases in (('RL06',), ('RL06', 'v02.4'), ()):
            key = f'{sets}:{releases}'
            rec.case(key)
            base = pathlib.Path(rec.mkdir())
            cols = {}
            for centre, months in zip(TAGS, sets):
                kind = 'J' if centre == 'JPL' else 'A'
                for ds in ('GSM', 'GAA', 'GAB', 'GAC', 'GAD'):
                    if centre == 'CSR' and ds in ('GAA', 'GAB'):
                        continue
                    write_index(base/centre/'RL06'/ds, [release06(ds, 'GRAC' if
                        m < 198 else 'GRFO', TAGS[centre], 'BA01' if ds ==
                        'GSM' else 'BC01', 0, m) for m in months])
                cols[f'{centre}_RL06'] = {m: period(kind, m) for m in months}
            if not all(usable('J' if c == 'JPL' else 'A', m) for c, m in zip(
                    TAGS, sets)):
                continue
            with rec.guard(key):
                err = prog.run('run_grace_date', '-D', base, *(('-r',) +
                    releases if releases else ()))
                rec.check(err == '', key + ':errors', lambda: err[-200:])
                for centre, months in zip(TAGS, sets):
                    rows = expect('J' if centre == 'JPL' else 'A', months)
                    for ds in ('GSM', 'GAA', 'GAB', 'GAC', 'GAD'):
                        if centre == 'CSR' and ds in ('GAA', 'GAB'):
                            continue
                        f = base/centre/'RL06'/ds/f'{centre}_RL06_DATES.txt'
                        rec.eq([[int(x) for x in ln.split()[1:6]] for ln in
                            f.read_text().splitlines()[1:]], [[r['mon'],
                            r['styr'], r['stday'], r['endyr'], r['endday']]
                            for r in rows], f'{key}:{centre}:{ds}')
                lines = (base/'GRACE_months.txt').read_text().splitlines()
                # centres without any file have an empty column
                names = sorted(cols)
                rec.eq(lines[0].split(), ['MONTH'] + names, key + ':head')
                top = max([m for c in cols.values() for m in c], default=3)
                rec.eq(len(lines), 1 + top - 3, key + ':rows')
                for m, ln in zip(range(4, top + 1), lines[1:]):
                    cells = ln[11:].replace('** missing **', 'missing').split()
                    rec.eq(cells, [fmt(cols[c].get(m)) for c in names],
                        f'{key}:{m}')


@CHECK.block('modules', params=lambda tier: [(k, tier) for k in range(4)])
def modules(rec, arg):
    """date and month modules run as programs, every choice of what to do"""
    part, tier = arg
    base = pathlib.Path(rec.mkdir())
    held = {('CSR', 'RL06'): (9, 24, 199), ('GFZ', 'RL06'): (9, 10), ('JPL',
        'RL06'): (4, 228), ('CSR', 'RL05'): (117, 118, 119, 120, 122)}
    for (c, r), months in held.items():
        for ds in ('GSM', 'GAC', 'GAD'):
            write_index(base/c/r/ds, [release06(ds, 'GRAC' if m < 198 else
                'GRFO', TAGS[c], 'BA01' if ds == 'GSM' else 'BC01', 0,
                m).replace('_0600', f'_0{r[3]}00') for m in months])
    rows = {k: [[x['mon'], x['styr'], x['stday'], x['endyr'], x['endday']]
        for x in expect('J' if k[0] == 'JPL' else 'A', m)] for k, m in
        held.items()}

    def tables():
        return {p.relative_to(base).parts[:3]: p for p in base.rglob(
            '*DATES.txt')}
    old = prog._spy
    prog._spy = lambda mod, name: lambda: None
    try:
        todo = list(itertools.product((None, ('CSR',), ('GFZ', 'JPL'), ('JPL',
            'CSR')), (None, ('RL06',), ('RL05',), ('RL05', 'RL06')), (None, (
            'GSM',), ('gac', 'GSM')), (False, True), (None, '640')))
        for n, (cs, rs, ds, out, mode) in enumerate(todo):
            if n % 4 != part:
                continue
            key = f'{cs}:{rs}:{ds}:{out}:{mode}'
            rec.case(key)
            for p in tables().values():
                p.unlink()
            argv = ['-D', base] + ['-O']*out
            for o, v in (('-c', cs), ('-r', rs), ('-p', ds), ('-M', mode and
                    [mode])):
                argv += [o, *v] if v else []
            want = list(itertools.product(cs or ('CSR', 'GFZ', 'JPL'), rs or (
                'RL06',), [d.upper() for d in ds or ('GAC', 'GAD', 'GSM')]))
            miss = [k for k in want if k[:2] not in held]
            if miss:    # stops at the first that is not there
                want = want[:want.index(miss[0])]
            with rec.guard(key):
                try:
                    err = prog.run('gravity_toolkit.grace_date', *argv)
                except FileNotFoundError as exc:
                    err = str(exc)
                    rec.check('index.txt' in err, key + ':error', err)
                rec.check(bool(err) == bool(miss), key + ':errors', err[-200:])
                have = tables()
                rec.eq(sorted(have), sorted(want) if out else [], key +
                    ':files')
                for k, p in have.items():
                    rec.eq(p.name, f'{k[0]}_{k[1]}_DATES.txt', key + ':name')
                    rec.eq([[int(x) for x in ln.split()[1:6]] for ln in
                        p.read_text().splitlines()[1:]], rows[k[:2]],
                        f'{key}:{k}')
                    rec.eq(oct(p.stat().st_mode & 0o777), '0o640' if mode
                        else '0o775', key + ':mode')
            # table of the months of the solutions there
            table = base/'GRACE_months.txt'
            table.unlink(missing_ok=True)
            for rel in (None, ('RL05',), ('RL06', 'RL05')):
                argv = ['-D', base] + (['-r', *rel] if rel else []) + (['-M',
                    mode] if mode else [])
                with rec.guard(key):
                    err = prog.run('gravity_toolkit.grace_months_index', *argv)
                    rec.eq(err, '', key + ':errors of the table')
                    names = sorted(k for k in have if k[2] == 'GSM' and k[1] in
                        (rel or ('RL06',)))
                    lines = table.read_text().splitlines()
                    rec.eq(lines[0].split(), ['MONTH'] + [f'{a}_{b}' for a, b,
                        _ in names], f'{key}:{rel}:head')
                    top = max([m for k in names for m in held[k[:2]]],
                        default=3)
                    rec.eq(len(lines), top - 2, f'{key}:{rel}:rows')
                    for m, ln in zip(range(4, top + 1), lines[1:]):
                        cells = ln[11:].replace('** missing **',
                            'missing').split()
                        rec.eq(cells, [fmt(period('J' if k[0] == 'JPL' else
                            'A', m) if m in held[k[:2]] else None) for k in
                            names], f'{key}:{rel}:{m}')
                    rec.eq(oct(table.stat().st_mode & 0o777), '0o640' if mode
                        else '0o775', key + ':mode of the table')
    finally:
        prog._spy = old
    rec.sample({'held': list(map(str, held))})
