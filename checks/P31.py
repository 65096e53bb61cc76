"""P31: catalogue searches return every matching granule with its metadata"""
import calendar
import datetime
import itertools
import json
import os
import re
import time
import urllib.parse
import mc
from net import Net, Reply, Plain
import gravity_toolkit.utilities as U

CHECK = mc.Check('P31', level='fault_enumeration',
    rule='distinct (catalogue content, search request, paging pattern, fault) '
    'searches against a catalogue server on the loopback interface',
    assumptions=['the catalogue is replaced by a server that implements the '
        'documented parameters (provider, short name, temporal range, name '
        'pattern, page size) and search-after paging',
        'a page may be shorter than requested, and the last page may or may '
        'not announce a following (empty) one'])

REL = {'data': 'http://esipfed.org/ns/fedsearch/1.1/data#',
    's3': 'http://esipfed.org/ns/fedsearch/1.1/s3#',
    'documentation': 'http://esipfed.org/ns/fedsearch/1.1/documentation#',
    'metadata': 'http://esipfed.org/ns/fedsearch/1.1/metadata#',
    'browse': 'http://esipfed.org/ns/fedsearch/1.1/browse#'}
UTC = datetime.timezone.utc
HEADER = ('more', 'full', 'ever')


def stamp(t, style):
    """date of last change in the forms a catalogue writes"""
    d = datetime.datetime.fromtimestamp(t, UTC)
    if style == 0:
        return d.strftime('%Y-%m-%dT%H:%M:%S.000Z')
    if style == 1:
        return d.strftime('%Y-%m-%dT%H:%M:%S.250+00:00')
    if style == 2:
        return d.strftime('%Y-%m-%dT%H:%M:%SZ')
    z = datetime.timezone(datetime.timedelta(minutes=(-300, 345)[style % 2]))
    return d.astimezone(z).strftime('%Y-%m-%dT%H:%M:%S.000%z')


class Catalogue:
    """catalogue with search-after paging

    granules: dictionaries with provider, short_name, title, start, end,
    updated (seconds), style and links [(kind, address)]
    """
    def __init__(self, granules, limit=2000, header='full', fault=None):
        self.granules, self.limit, self.header = granules, limit, header
        self.fault = fault or {}
        self.pages = 0
        self.problems = []

    def __call__(self, q):
        path, _, query = q.target.partition('?')
        k = self.pages
        self.pages += 1
        if k in self.fault and self.fault[k][0] is not None:
            if self.fault[k][0] == 'reply':
                return self.fault[k][1]
        par = urllib.parse.parse_qsl(query, keep_blank_values=True)
        one = {}
        for a, b in par:
            one.setdefault(a, []).append(b)
        known = {'provider', 'sort_key[]', 'page_size', 'short_name',
            'temporal', 'options[readable_granule_name][pattern]',
            'options[spatial][or]', 'readable_granule_name[]', 'page_num',
            'short_name[]', 'temporal[]', 'provider[]'}
        if set(one) - known or q.host != 'cmr.earthdata.nasa.gov':
            self.problems.append(str(set(one) - known) + str(q.host))
            return Reply(b'{"errors":["parameter"]}', 400)
        if path == '/search/collections.json':
            return self.collections(one)
        if path != '/search/granules.json':
            return Reply(b'', 404)
        out = []
        glob = one.get('options[readable_granule_name][pattern]') == ['true']
        spans = [x.split(',') for x in one.get('temporal', []) +
            one.get('temporal[]', [])]
        for s in spans:
            for x in s:
                try:
                    if x:
                        when(x)
                except ValueError:
                    self.problems.append('date ' + x)
                    return Reply(b'{"errors":["date"]}', 400)
        for g in self.granules:
            if g['provider'] not in one.get('provider', []) + one.get(
                    'provider[]', []) and ('provider' in one):
                continue
            if g['short_name'] not in one.get('short_name', []) + one.get(
                    'short_name[]', []) and 'short_name' in one:
                continue
            names = one.get('readable_granule_name[]')
            if names and not any(matches(n, g['title'], glob) for n in names):
                continue
            ok = True
            for s in spans:
                a, b = (s + [''])[:2]
                ok &= not (a and g['end'] < when(a))
                ok &= not (b and g['start'] > when(b))
            if ok:
                out.append(g)
        out.sort(key=lambda g: (g['start'], g['title']))
        digest = mc.digest(query)
        after = q.headers.get('cmr-search-after')
        i = 0
        if after:
            tag, _, n = after.strip('[]"').rpartition('/')
            if tag != digest:
                self.problems.append('position of another search')
                return Reply(b'{"errors":["search after"]}', 400)
            i = int(n)
        size = min(int(one.get('page_size', ['10'])[0]), self.limit)
        if size > 2000 or size < 1:
            return Reply(b'{"errors":["page size"]}', 400)
        page = out[i:i + size]
        body = json.dumps({'feed': {'updated': '2021-01-01T00:00:00.000Z',
            'id': 'x', 'title': 'ECHO granule metadata', 'entry': [{'id':
            f'G{id(g)}', 'title': g['title'], 'producer_granule_id':
            'other ' + g['title'], 'time_start': '2000-01-01T00:00:00.000Z',
            'updated': stamp(g['updated'], g['style']), 'links': [{'rel':
            REL[kind], 'hreflang': 'en-US', 'href': href} for kind, href in
            g['links']]} for g in page]}}).encode()
        heads = [('Content-Type', 'application/json'), ('CMR-Hits',
            str(len(out)))]
        more = i + size < len(out)
        if (self.header == 'more' and more) or (self.header == 'full' and
                page) or self.header == 'ever':
            heads.append(('CMR-Search-After', f'["{digest}/{i + len(page)}"]'))
        r = Reply(body, headers=heads)
        if k in self.fault:
            r = self.fault[k][1](r)
        return r

    def collections(self, one):
        out = [g for g in self.granules if g['provider'] in one.get('provider')
            and g['short_name'] in one.get('short_name', [])]
        r = Reply(json.dumps({'feed': {'entry': [{'id': 'C1', 'short_name':
            g['short_name'], 'links': [{'rel': REL[kind], 'href': href} for
            kind, href in g['links']]} for g in out]}}).encode())
        if 0 in self.fault:
            r = self.fault[0][1](r)
        return r


def when(x):
    d = datetime.datetime.fromisoformat(x.replace('Z', '+00:00'))
    return d.replace(tzinfo=d.tzinfo or UTC).timestamp()


def matches(pattern, name, glob):
    if not glob:
        return pattern.lower() == name.lower()
    r = ''.join('.' if c == '?' else '.*' if c == '*' else re.escape(c) for c
        in pattern)
    return re.fullmatch(r, name, re.I) is not None


# ------------------------------------------------------------------ catalogues
MONTHS = [((2002, 4, 5), (2002, 4, 30)), ((2002, 5, 1), (2002, 5, 17)),
    ((2018, 6, 1), (2018, 6, 30)), ((2020, 2, 1), (2020, 2, 29))]
STYLE = itertools.cycle(range(5))


def day(d):
    return calendar.timegm(d + (0, 0, 0))


def granule(provider, short, title, first, last, n, **info):
    out = dict(provider=provider, short_name=short, title=title,
        start=day(first), end=day(last) + 86399, updated=1500000000 + 7919*n,
        style=n % 5, links=[('metadata', f'https://meta.example/{n}'),
        ('s3', f's3://podaac-ops/{short}/{title}'), ('data',
        f'https://archive.example/{short}/{title}'), ('data',
        f'https://archive.example/{short}/{title}.md5'), ('s3',
        f's3://podaac-ops/{short}/{title}.md5'), ('browse',
        f'https://meta.example/{n}.png')][::-1 if n % 3 == 2 else 1])
    out.update(info)
    if n % 3 == 2:
        out['links'] = out['links'][:1] + out['links'][3:][::-1] + [
            ('data', 'https://archive.example/other')]
        out['links'] = [('browse', f'https://meta.example/{n}.png'), ('data',
            f'https://archive.example/{short}/{title}'), ('s3',
            f's3://podaac-ops/{short}/{title}'), ('metadata',
            f'https://meta.example/{n}')]
    return out


def doy(d):
    return '%04d%03d' % (d[0], datetime.date(*d).timetuple().tm_yday)


def full():
    """every product of every centre"""
    out, n = [], 0
    for provider in ('POCLOUD', 'PODAAC'):
        for mission, code in (('grace', 'GRAC'), ('grace-fo', 'GRFO')):
            for center, tag in (('CSR', 'UTCSR'), ('GFZ', 'GFZOP'), ('JPL',
                    'JPLEM')):
                for product in ('GAA', 'GAB', 'GAC', 'GAD', 'GSM'):
                    if center == 'CSR' and product in ('GAA', 'GAB') and \
                            mission == 'grace':
                        continue
                    for sol in ('BA01', 'BB01') if product == 'GSM' else (
                            'BC01',):
                        for version in '012':
                            for first, last in MONTHS:
                                short = f'GRACE_{product}_L2_GRAV_{center}_' \
                                    'RL06' if mission == 'grace' else \
                                    f'GRACEFO_L2_{center}_MONTHLY_006{version}'
                                title = f'{product}-2_{doy(first)}-' \
                                    f'{doy(last)}_{code}_{tag}_{sol}_06' \
                                    f'{version.zfill(2)}'
                                n += 1
                                out.append(granule(provider, short, title,
                                    first, last, n, mission=mission, center=
                                    center, level='L2', release='RL06',
                                    product=product, solution=sol,
                                    version=version))
        # the names of this collection differ between dates
        for first, last in MONTHS:
            for mission, level, center, release, product, short, title in (
                    ('grace', 'L1B', 'GFZ', 'RL06', 'AOD1B',
                    'GRACE_AOD1B_GRAV_GFZ_RL06', 'AOD1B_{}_X_06.asc'),
                    ('grace', 'L1B', 'JPL', 'RL02', 'x',
                    'GRACE_L1B_GRAV_JPL_RL02', 'grace_1B_{}_02'),
                    ('grace', 'L1B', 'JPL', 'RL03', 'x',
                    'GRACE_L1B_GRAV_JPL_RL03', 'grace_1B_{}_03'),
                    ('grace-fo', 'L1A', 'JPL', 'RL04', 'x',
                    'GRACEFO_L1A_ASCII_GRAV_JPL_RL04',
                    'gracefo_1A_{}_RL04.ascii.noLRI'),
                    ('grace-fo', 'L1B', 'JPL', 'RL04', 'x',
                    'GRACEFO_L1B_ASCII_GRAV_JPL_RL04',
                    'gracefo_1B_{}_RL04.ascii.noLRI')):
                n += 1
                out.append(granule(provider, short, title.format('%d-%02d-%02d'
                    % first), first, first, n, mission=mission, center=center,
                    level=level, release=release, product=product,
                    solution=None, version=None))
    return out


def first_link(g, endpoint):
    for kind, href in g['links']:
        if kind == endpoint:
            return href


def compare(rec, key, got, want, endpoint):
    """names, addresses and times belong together, each once"""
    want = [g for g in want if first_link(g, endpoint) is not None]
    want.sort(key=lambda g: (g['start'], g['title']))
    if not rec.check(isinstance(got, tuple) and len(got) == 3 and len({len(x)
            for x in got}) == 1, key + ':lists', lambda: str([len(x) for x in
            got])):
        return
    ids, urls, times = got
    rec.check(list(ids) == [g['title'] for g in want], key + ':names',
        lambda: f'{ids[:4]} {len(ids)} {len(want)}')
    rec.check(list(urls) == [first_link(g, endpoint) for g in want],
        key + ':addresses', lambda: str(urls[:4]))
    rec.check(len(times) == len(want) and all(t is not None and abs(t -
        g['updated']) < 1 for t, g in zip(times, want)), key + ':times',
        lambda: str([(t, g['updated']) for t, g in zip(times, want)][:4]))


DATES = (None, '2002-04-30', '2002-05-01', '2018-06-15T12:00:00',
    '2020-03-01', '2018-07-01T00:00:00Z', '2002-05-17T20:00:00-05:00',
    '2002-04-04', '1 May 2002')
SPANS = [(None, None)] + [(a, None) for a in DATES[1:]] + [(None, b) for b in
    DATES[1:]] + [('2002-04-01', '2002-04-30'), ('2002-05-18', '2018-05-31'),
    ('2018-06-30', '2020-01-31T23:59:59'), ('2002-05-17', '2018-06-01'),
    ('2020-02-29', '2020-02-29')]


def instant(x):
    import dateutil.parser
    d = dateutil.parser.parse(x)
    return d.replace(tzinfo=d.tzinfo or UTC).timestamp()


@CHECK.block('filters', params=lambda tier: [(m, c, tier) for m in ('grace',
    'grace-fo', 'goce', None) for c in ('CSR', 'GFZ', 'JPL', 'AIUB', None)],
    timeout=800)
def filters(rec, arg):
    """every combination of search parameters"""
    mission, center, tier = arg
    everything = full()
    net = Net()
    with net.active():
        for release, level, product, sol, version in itertools.product(
                ('RL06', 'RL05', 'RL04', 'RL03', 'RL02'), ('L1A', 'L1B', 'L2',
                'L3'), ('GAA', 'GAB', 'GAC', 'GAD', 'GSM', 'AOD1B', 'x'),
                ('BA01', 'BB01', 'BC01'), '012'):
            if level != 'L2' and (version != '0' or sol != 'BA01'):
                continue
            # products of other levels are not meaningful
            if (level == 'L2') != (product[:2] in ('GA', 'GS')):
                continue
            if product == 'AOD1B' and (level, center) != ('L1B', 'GFZ'):
                continue
            if product == 'x' and center == 'GFZ' and level == 'L1B':
                continue
            if level == 'L2' and product != 'GSM' and sol != 'BA01':
                continue
            known = any(g['mission'] == mission and g['center'] == center and
                g['release'] == release and g['level'] == level for g in
                everything)
            spans = SPANS if known and (tier == 'thorough' or (version == '0'
                and sol == 'BA01')) else SPANS[:1]
            for span, provider, endpoint in itertools.product(spans,
                    ('POCLOUD', 'PODAAC'), ('data', 's3')):
                key = f'{mission}:{center}:{release}:{level}:{product}:{sol}' \
                    f':{version}:{span}:{provider}:{endpoint}'
                rec.case(key)
                net.web = cat = Catalogue(everything, limit=3)
                net.asked.clear()
                run = lambda: U.cmr(mission=mission, center=center,
                    release=release, level=level, product=product,
                    solution=sol, version=version, start_date=span[0],
                    end_date=span[1], provider=provider, endpoint=endpoint)
                if not known:
                    rec.raises(run, key)
                    rec.check(not net.asked, key + ':asked')
                    continue
                want = [g for g in everything if g['provider'] == provider and
                    g['mission'] == mission and g['center'] == center and
                    g['release'] == release and g['level'] == level and
                    g['product'] == product and (level != 'L2' or
                    (g['version'] == version and g['solution'] == (sol if
                    product == 'GSM' else 'BC01'))) and not (span[0] and
                    g['end'] < instant(span[0])) and not (span[1] and
                    g['start'] > instant(span[1]))]
                with rec.guard(key):
                    compare(rec, key, run(), want, endpoint)
                    rec.check(not cat.problems, key + ':request',
                        str(cat.problems[:1]))
                    rec.check({h for h, p in net.asked} <= {
                        'cmr.earthdata.nasa.gov'}, key + ':host')
    net.close()
    rec.sample({'mission': mission, 'centre': center, 'catalogue':
        len(everything)})


KINDS = ((), ('data',), ('s3',), ('data', 's3'), ('s3', 'data'), ('browse',
    'data', 'data', 's3', 's3'), ('metadata', 's3', 'documentation'))


def small(kinds, styles):
    return [dict(provider='POCLOUD', short_name='GRACE_GSM_L2_GRAV_CSR_RL06',
        title='GSM-2_%s-%s_GRAC_UTCSR_BA01_0600' % (doy((2002, 1 + i, 1)),
        doy((2002, 1 + i, 28))), start=day((2002, 1 + i, 1)), end=day((2002,
        1 + i, 28)), updated=1600000000 + i*86400 + 3600*i, style=s, links=[(t,
        f'{"s3" if t == "s3" else "https"}://x.example/{i}/{j}') for j, t in
        enumerate(k)]) for i, (k, s) in enumerate(zip(kinds, styles))]


SEARCH = dict(mission='grace', center='CSR', release='RL06', product='GSM')


@CHECK.block('paging', params=lambda tier: [(h, e, z, tier) for h in HEADER
    for e in ('data', 's3') for z in ('UTC', 'America/Los_Angeles')],
    timeout=800)
def paging(rec, arg):
    """every content of small catalogues in pages of every size"""
    header, endpoint, zone, tier = arg
    os.environ['TZ'] = zone
    time.tzset()
    net = Net()
    with net.active():
        for n in range(4 + (tier == 'thorough')):
            for kinds in itertools.product(KINDS if n < 4 else KINDS[:4],
                    repeat=n):
                if n == 3 and tier == 'quick' and mc.digest(kinds)[0] not in \
                        '01234':
                    continue
                for size in range(1, n + 2):
                    gs = small(kinds, [(size + n + i) % 5 for i in range(n)])
                    key = f'{header}:{endpoint}:{kinds}:{size}'
                    rec.case(key)
                    net.web = cat = Catalogue(gs, size, header)
                    with rec.guard(key):
                        compare(rec, key, U.cmr(endpoint=endpoint, **SEARCH),
                            gs, endpoint)
                        rec.check(not cat.problems, key + ':request',
                            str(cat.problems[:1]))
                        # the pages are not fetched without end
                        rec.check(cat.pages <= n//size + 2, key + ':pages',
                            str(cat.pages))
        for n in (5, 6, 7, 12):
            for size in range(1, n + 2):
                gs = small([KINDS[4]]*n, range(n))
                key = f'{header}:{endpoint}:{n}:{size}'
                rec.case(key)
                net.web = cat = Catalogue(gs, size, header)
                with rec.guard(key):
                    compare(rec, key, U.cmr(endpoint=endpoint, **SEARCH), gs,
                        endpoint)
    net.close()
    rec.sample({'header': header, 'endpoint': endpoint})


def fails():
    for s in (400, 401, 404, 429, 500, 503):
        yield f'status {s}', ('reply', Reply(b'{"errors":["no"]}', s))
    yield 'dropped', ('reply', Reply(raw=b''))
    yield 'garbage', ('reply', Reply(raw=b'x\r\n\r\n'))
    yield 'not json', ('reply', Reply(b'<html></html>'))
    for k in (0, 1, 17, 200, -2, -1):
        for length in ('exact', None, 'chunked'):
            def cut(r, k=k, length=length):
                r.length = length
                n = len(r.wire()[1])
                r.cut = (k if k >= 0 else n - 8 + k) % n
                return r
            yield f'cut {k} {length}', ('cut', cut)

    def reset(r):
        r.cut, r.end = 30, 'reset'
        return r
    yield 'reset', ('cut', reset)


@CHECK.block('faults', params=lambda tier: list(HEADER) + ['collections'])
def faults(rec, header):
    """a failing page is never taken for the end of the results"""
    net = Net()
    with net.active():
        if header == 'collections':
            for what, f in fails():
                rec.case(what)
                net.web = Catalogue(full(), fault={0: f})
                rec.raises(lambda: U.cmr_metadata(mission='grace',
                    center='CSR', release='RL06'), what)
            net.close()
            return
        for n, size in itertools.product(range(1, 6), (1, 2, 3)):
            gs = small([KINDS[4]]*n, range(n))
            for page in range((n + size - 1)//size):
                for what, f in fails():
                    key = f'{header}:{n}:{size}:{page}:{what}'
                    rec.case(key)
                    net.web = Catalogue(gs, size, header, {page: f})
                    rec.raises(lambda: U.cmr(**SEARCH), key)
        for what, exc in (('refused', ConnectionRefusedError(111, 'no')),
                ('unreachable', OSError(101, 'no'))):
            rec.case(what)
            net.refuse = exc
            rec.raises(lambda: U.cmr(**SEARCH), what)
            net.refuse = None
    net.close()
    rec.sample({'header': header})


PATTERNS = ('', r'\.pdf$', 'TN-1[34]', 'x', None)


@CHECK.block('collections', params=lambda tier: [(m, c) for m in ('grace',
    'grace-fo') for c in ('CSR', 'GFZ', 'JPL')])
def collections(rec, arg):
    """documents and data of collections"""
    mission, center = arg
    net = Net()
    links = [('documentation', 'https://d.example/TN-13_GEOC.txt'), ('data',
        'https://d.example/data'), ('s3', 's3://bucket/TN-14.txt'),
        ('documentation', 'https://d.example/guide.pdf'), ('documentation',
        'https://d.example/TN-14.txt'), ('browse', 'https://d.example/b'),
        ('data', 'https://d.example/TN-13.pdf')]
    everything = full()
    shorts = {}
    for g in everything:
        shorts.setdefault((g['provider'], g['short_name']), g)
    with net.active():
        for k in range(len(links) + 1):
            cats = []
            for i, ((p, s), g) in enumerate(sorted(shorts.items(), key=str)):
                sel = links[i % 3:k]
                cats.append(dict(g, links=[(t, f'{h}?{s}&{p}') if not
                    h.endswith(('.pdf',)) else (t, f'{p}/{s}/{h}') for t, h in
                    sel]))
            for version, provider, endpoint, pattern in itertools.product(
                    '012', ('POCLOUD', 'PODAAC'), ('documentation', 'data',
                    's3'), PATTERNS):
                key = f'{mission}:{center}:{k}:{version}:{provider}:' \
                    f'{endpoint}:{pattern}'
                rec.case(key)
                net.web = Catalogue(cats)
                want = [h for c in cats if c['provider'] == provider and
                    c['mission'] == mission and c['center'] == center and
                    c['level'] == 'L2' and (mission == 'grace' or c['version']
                    == version) for t, h in c['links'] if t == endpoint and
                    (not pattern or re.search(pattern, h))]
                with rec.guard(key):
                    got = U.cmr_metadata(mission=mission, center=center,
                        release='RL06', version=version, provider=provider,
                        endpoint=endpoint, pattern=pattern)
                    rec.check(got == want, key, lambda: f'{got[:3]} '
                        f'{want[:3]}')
    net.close()
    rec.sample({'mission': mission, 'collections': len(cats)})


@CHECK.block('parsing', params=lambda tier: [(z, tier) for z in ('UTC',
    'America/Los_Angeles', 'Asia/Kathmandu')])
def parsing(rec, arg):
    """responses taken apart directly"""
    zone, tier = arg
    os.environ['TZ'] = zone
    time.tzset()
    for bad in ({}, {'errors': ['x']}, {'feed': {}}, {'feed': {'entry': []}}):
        for endpoint in ('data', 's3'):
            key = f'{bad}:{endpoint}'
            rec.case(key)
            with rec.guard(key):
                rec.check(tuple(map(list, U.cmr_filter_json(bad, endpoint)))
                    == ([], [], []), key)
                rec.check(list(U.cmr_metadata_json(bad, endpoint)) == [], key +
                    ':metadata')
    kinds = KINDS if tier == 'thorough' else KINDS[:5]
    for n in range(4):
        for ks in itertools.product(kinds, repeat=n):
            gs = small(ks, [(i + len(ks[0]) if ks else 0) % 5 for i in
                range(n)])
            page = {'feed': {'entry': [{'title': g['title'], 'updated':
                stamp(g['updated'], g['style']), 'links': [{'rel': REL[t],
                'href': h} for t, h in g['links']]} for g in gs]}}
            for endpoint in ('data', 's3'):
                key = f'{zone}:{ks}:{endpoint}'
                rec.case(key)
                with rec.guard(key):
                    compare(rec, key, U.cmr_filter_json(page,
                        endpoint=endpoint), gs, endpoint)
                    rec.check(U.cmr_metadata_json(page, endpoint=endpoint) ==
                        [h for g in gs for t, h in g['links'] if t ==
                        endpoint], key + ':metadata')
    rec.sample({'zone': zone})


@CHECK.block('answers', params=lambda tier: ['str', 'list', 'tuple'])
def answers(rec, form):
    """values of a web service, and failures that are never taken for one"""
    net = Net()
    url = 'https://service.example.org/api/v1/list.json?a=1&b=c%20d'
    parts = ['https://service.example.org', 'api', 'v1',
        'list.json?a=1&b=c%20d']
    host = {'str': url, 'list': parts, 'tuple': tuple(parts)}[form]
    values = [{}, [], {'a': [1, 2.5, None, True], 'b': {'ü': '\u20ac'}}, 'x',
        0, None, [{'feed': {'entry': list(range(500))}}]]
    with net.active():
        for v, utf, length in itertools.product(values, (False, True), (
                'exact', None, 'chunked')):
            key = f'{form}:{str(v)[:20]}:{utf}:{length}'
            rec.case(key)
            net.requests.clear()
            net.web = lambda q: Reply(json.dumps(v, ensure_ascii=not
                utf).encode('utf8'), length=length)
            with rec.guard(key):
                rec.eq(U.from_json(host), v, key)
                q, = net.requests
                rec.eq((q.method, q.host, q.target), ('GET',
                    'service.example.org', '/api/v1/list.json?a=1&b=c%20d'),
                    key + ':request')
                rec.check('json' in str(q.headers.get('accept') or
                    q.headers.get('Accept')), key + ':accept')
                rec.eq(list(host) if form != 'str' else host, parts if form !=
                    'str' else url, key + ':host')
        text = json.dumps(values[2]).encode()
        for what, f in fails():
            key = f'{form}:{what}'
            rec.case(key)
            net.web = lambda q: f[1](Reply(text)) if f[0] != 'reply' else f[1]
            rec.raises(lambda: U.from_json(host), key)
        for cut in range(len(text)):
            key = f'{form}:cut {cut}'
            rec.case(key)
            for length in ('exact', 'chunked', None):
                net.web = lambda q: Reply(text, length=length, cut=cut)
                rec.raises(lambda: U.from_json(host), f'{key}:{length}')
        for what, exc in (('refused', ConnectionRefusedError(111, 'no')),
                ('unreachable', OSError(101, 'no'))):
            rec.case(f'{form}:{what}')
            net.refuse = exc
            rec.raises(lambda: U.from_json(host), what)
            net.refuse = None
    net.close()
    rec.sample({'form': form})
