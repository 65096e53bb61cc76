"""P32: file name patterns select exactly the requested product"""
import itertools
import mc
import gravity_toolkit.utilities as U

CHECK = mc.Check('P32', level='bounded_exhaustive',
    rule='distinct (request, file name) pairs',
    assumptions=['file names follow the published naming of each release',
        'for dealiasing products the directory decides centre and release, '
        'the pattern only product and mission',
        'longterm and order-30 fields of Release-04 and 05 are not monthly '
        'products'])

DATES = ('2002095-2002120', '2004001-2004031', '2016363-2017026',
    '2018152-2018181', '2020366-2021031')
PRODUCTS = ('GAA', 'GAB', 'GAC', 'GAD', 'GSM')
TAG = {'CSR': 'UTCSR', 'GFZ': 'GFZOP', 'JPL': 'JPLEM'}
SUFFIX = ('', '.gz')


def catalogue():
    """(centre, release, product, mission, solution, version, name)"""
    for d in DATES:
        code = 'GRFO' if d > '2018' else 'GRAC'
        # earlier releases have no mission in their names
        for p in PRODUCTS:
            for n in ('0021', '0030', '0008'):
                for rl in ('RL04', 'RL05'):
                    k = '000' + rl[-1]
                    # field of degree 60 and other fields
                    for f in ('0060', '0096', '0180', '0030'):
                        if p == 'GSM':
                            yield ('CSR', rl, p, None, f, None,
                                f'{p}-2_{d}_{n}_UTCSR_{f}_{k}')
                    if p != 'GSM':
                        yield ('CSR', rl, p, None, None, None,
                            f'{p}-2_{d}_{n}_UTCSR_0000_{k}')
                    yield ('JPL', rl, p, None, '0001', None,
                        f'{p}-2_{d}_{n}_JPLEM_0001_{k}')
                    yield ('JPL', rl, p, None, '0000', None,
                        f'{p}-2_{d}_{n}_JPLEM_0000_{k}')
                    for f in ('G---', 'GK2-'):
                        e = '0004' if rl == 'RL04' else '005a'
                        yield ('GFZ', rl, p, None, f, None,
                            f'{p}-2_{d}_{n}_EIGEN_{f}_{e}')
                for rl, e in (('RL01', '2ZZ1_0100'), ('RL02', '2ZZ1_0200'),
                        ('RL03', '2ZZ1_0300'), ('RL05', '2ZZ1_0500')):
                    yield ('CNES', rl, p, None, None, None,
                        f'{p}-2_{d}_{n}_GRGS_{e}')
        for c, t in TAG.items():
            for p in PRODUCTS:
                for s in ('BA01', 'BB01') if p == 'GSM' else ('BC01',):
                    for v in ('00', '01', '02', '03', '12'):
                        for m in ('GRAC', 'GRFO'):
                            yield (c, 'RL06', p, m, s, v,
                                f'{p}-2_{d}_{m}_{t}_{s}_06{v}')
        for v in ('01', '02', '03'):
            for m in ('GRAC', 'GRFO'):
                yield ('CSR', f'RL06.{int(v)}LRI', 'GSM', m, 'EA01', v,
                    f'GSM-2_{d}_{m}_UTCSR_EA01_06{v}')


def expected(req, f):
    """whether a file of the same directory or of anywhere is selected;
    None where the directory has to decide"""
    proc, drel, dset, mission, solution, version = req
    c, r, p, m, s, v, name = f
    if p != dset:
        return False
    if proc == 'CNES':
        return c == 'CNES'
    if dset != 'GSM':
        if proc == 'JPL' and drel in ('RL04', 'RL05'):
            return (c, r, s) == (proc, drel, '0001')
        # names of the early releases have no mission
        if mission and m != mission and drel not in ('RL04', 'RL05'):
            return False
        return True if (c, r) == (proc, drel) else None
    if (c, r) != (proc, drel):
        return False
    if drel in ('RL04', 'RL05'):
        return s in {'CSR': ('0060',), 'JPL': ('0001',), 'GFZ': ('G---',) if
            drel == 'RL04' else ('G---', 'GK2-')}[c]
    if mission and m != mission:
        return False
    if drel.endswith('LRI'):
        return True
    return s == solution and (version is None or int(version) == int(v))


RELEASES = {'CSR': ('RL04', 'RL05', 'RL06', 'RL06.1LRI', 'RL06.2LRI',
    'RL06.3LRI'), 'GFZ': ('RL04', 'RL05', 'RL06'), 'JPL': ('RL04', 'RL05',
    'RL06'), 'CNES': ('RL01', 'RL02', 'RL03', 'RL05')}
DEFAULT = object()
VERSIONS = (DEFAULT, r'\d+', '0', '1', '2', '3', '00', '01', '03', '12', 0, 1,
    2, 12)


@CHECK.block('names', params=lambda tier: [(c, p, tier) for c in RELEASES for
    p in PRODUCTS], timeout=800)
def names(rec, arg):
    """every request against the names of every product"""
    proc, dset, tier = arg
    files = list(catalogue())
    for drel, mission, solution, version in itertools.product(RELEASES[proc],
            (None, 'GRAC', 'GRFO'), (DEFAULT, 'BA01', 'BB01', 'BC01'),
            VERSIONS):
        six = drel.startswith('RL06') and dset == 'GSM'
        if not six and tier == 'quick' and (solution is not DEFAULT or version
                is not DEFAULT):
            continue
        kw = {k: v for k, v in (('mission', mission), ('solution', solution),
            ('version', version)) if v is not DEFAULT}
        what = f'{proc}:{drel}:{dset}:{kw}'
        req = (proc, drel, dset, mission, 'BA01' if solution is DEFAULT else
            solution, None if version in (DEFAULT, r'\d+') else version)
        with rec.guard(what):
            rx = U.compile_regex_pattern(proc, drel, dset, **kw)
            wrong = []
            hits = 0
            for f in files:
                want = expected(req, f)
                if want is None:
                    continue
                # names as they are and compressed
                for suffix in SUFFIX:
                    rec.evaluations += 1
                    got = rx.match(f[-1] + suffix) is not None
                    hits += got
                    if got != want:
                        wrong.append((f[-1] + suffix, want))
                # files that are something else
                if want:
                    for x in ('x' + f[-1], f[-1] + '.old', f[-1] + '.gz.part',
                            f[-1] + '.gz.gz', f[-1] + '.tar.gz',
                            f[-1].lower(), f[-1] + '.xml', f[-1][3:],
                            f[-1].replace('-2_', '-3_', 1),
                            f[-1].replace('-2_', '-2', 1), f[-1] + ' ',
                            f'old/{f[-1]}', f[-1] + 'gz', f[-1] + '_gz.'):
                        # product names of dealiasing fields are open
                        if x.endswith('gz') and '.' not in x and (dset !=
                                'GSM' or proc == 'CNES'):
                            continue
                        rec.evaluations += 1
                        if rx.match(x):
                            wrong.append((x, False))
            rec.case(what)
            # products not made of a request stay unselected
            rec.check(not wrong, what, lambda: str(wrong[:3]))
    rec.sample({'centre': proc, 'product': dset, 'names': len(files)})


@CHECK.block('text', params=lambda tier: ['CNES'])
def text(rec, proc):
    """text forms of one centre"""
    for drel, dset in itertools.product(RELEASES[proc], PRODUCTS):
        rx = U.compile_regex_pattern(proc, drel, dset)
        for f in catalogue():
            for s, ok in (('.txt', True), ('.txt.gz', True), ('.gz.txt',
                    False), ('.txt.txt', False), ('.dat', False)):
                rec.case(f'{drel}:{dset}:{f[-1]}{s}')
                rec.check((rx.match(f[-1] + s) is not None) == (ok and f[0] ==
                    proc and f[2] == dset), f'{drel}:{dset}:{f[-1]}{s}')
    rec.sample({'centre': proc})


@CHECK.block('refused', params=lambda tier: ['requests'])
def refused(rec, kind):
    """unknown centres, products and missions are reported"""
    for proc, drel, dset, mission in itertools.product(('CSR', 'GFZ', 'JPL',
            'CNES', 'AIUB', 'csr', ''), ('RL04', 'RL05', 'RL06'), PRODUCTS +
            ('GAX', 'gsm', ''), (None, 'GRAC', 'GRFO', 'grace', 'GOCE')):
        ok = proc in RELEASES and dset in PRODUCTS and mission in (None,
            'GRAC', 'GRFO')
        key = f'{proc}:{drel}:{dset}:{mission}'
        rec.case(key)
        run = lambda: U.compile_regex_pattern(proc, drel, dset,
            mission=mission)
        if ok:
            with rec.guard(key):
                run()
        else:
            rec.raises(run, key, ValueError)
    rec.sample({'requests': 'all'})
