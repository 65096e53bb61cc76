"""P37: server listings name every item once with its own date"""
import calendar
import datetime
import itertools
import os
import posixpath
import re
import time
import mc
from net import Net, Reply, Ftp, Plain
import gravity_toolkit.utilities as U

CHECK = mc.Check('P37', level='fault_enumeration',
    rule='distinct (directory content, listing options, local zone or fault)',
    assumptions=['servers are replaced by servers on the loopback interface '
        'with pages laid out as those of the real ones',
        'dates of listings without a zone are in UTC'])

ITEMS = [('GSM-2_2002095-2002120_GRAC_UTCSR_BA01_0600.gz', (2019, 12, 31, 23,
    59, 30)), ('b.txt', (2002, 3, 10, 2, 30, 0)), ('a.txt', (2020, 2, 29, 0, 0,
    15)), ('sub/', None), ('B.txt', (2018, 11, 4, 1, 30, 59)), ('txt.dat',
    None), ('a.txt.gz', (1999, 7, 1, 12, 0, 0))]
PATTERNS = (None, '', r'\.txt$', r'^a', r'GSM-2.*\.gz', 'none', '/$', 'txt')
ZONES = ('UTC', 'America/Los_Angeles', 'Asia/Kolkata')


def apache(items, form='%Y-%m-%d %H:%M', icons=True, parent=True):
    rows = ['<tr><th valign="top"><img src="/i/b.gif" alt="[ICO]"></th><th>'
        '<a href="?C=N;O=D">Name</a></th><th><a href="?C=M;O=A">Last modified'
        '</a></th><th><a href="?C=S;O=A">Size</a></th></tr>',
        '<tr><th colspan="5"><hr></th></tr>']
    icon = '<td valign="top"><img src="/icons/x.gif" alt="[   ]"></td>' if \
        icons else ''
    if parent:
        rows.append(f'<tr>{icon}<td><a href="/up/">Parent Directory</a></td>'
            '<td>&nbsp;</td><td align="right">  - </td><td>&nbsp;</td></tr>')
    for name, d in items:
        when = datetime.datetime(*d).strftime(form) + '  ' if d else '&nbsp;'
        rows.append(f'<tr>{icon}<td><a href="{name}">{name[:20]}</a></td><td '
            f'align="right">{when}</td><td align="right">1.2M</td>'
            '<td>&nbsp;</td></tr>')
    return ('<html><head><title>Index of /x</title></head><body><h1>Index of '
        '/x</h1><table>' + '\n'.join(rows) + '</table></body></html>').encode()


def drive(items):
    rows = ['<tr><th>Name</th><th>Size</th><th>Date</th></tr>']
    for name, d in items:
        when = datetime.datetime(*d).strftime('%Y-%m-%d %H:%M:%S') if d else \
            '-'
        rows.append(f'<tr><td><i></i></td><td><a class="text-left" href="/d/'
            f'{name}">{name}</a><a class="other" href="#">info</a></td><td>'
            f'{when}</td><td>12 KB</td></tr>')
    return ('<html><body><table>' + ''.join(rows) + '</table></body></html>'
        ).encode()


def gsfc(items):
    return ('<html><body><a href="/menu">menu</a><table>' + ''.join(
        f'<tr><td>{n}</td><td><p><a href="/geo/files/{n}">file</a></p></td>'
        '</tr>' for n, d in items) + '</table><a href="/end">x</a></body>'
        '</html>').encode()


def icgem(items):
    return ('<html><body><table>' + ''.join('<tr><td class="tom-cell-name">'
        f'<a href="/x.gfc">{n}</a></td><td class="tom-cell-modelfile"><a '
        f'href="/getmodel/gfc/{i:x}/{n}">gfc</a></td><td class='
        f'"tom-cell-modelfile"><a href="/getmodel/zip/{i}/{n}.zip">zip</a>'
        '</td></tr>' for i, (n, d) in enumerate(items)) +
        '</table></body></html>').encode()


def unix(d, seconds=True):
    if d is None:
        return None
    t = calendar.timegm(d + (0, 0, 0))
    return t if seconds else t - d[5]


def select(items, pattern, sort):
    out = [(n, t) for n, t in items if not pattern or re.search(pattern, n)]
    return sorted(out, key=lambda x: x[0]) if sort else out


def compare(rec, key, got, want):
    rec.check(isinstance(got, tuple) and len(got) == 2 and [tuple(x) for x in
        zip(*got)] == want and len(got[0]) == len(got[1]) == len(want), key,
        lambda: f'{list(zip(*got))[:3]} {want[:3]}')


def contents(tier):
    for n in range(4 if tier == 'quick' else 5):
        yield from itertools.permutations(ITEMS, n)
    yield tuple(ITEMS)
    yield tuple(ITEMS[::-1])


def chosen(k, tier):
    """options of the k-th content, all of them for short ones"""
    every = list(itertools.product(PATTERNS, (False, True)))
    return every if tier == 'thorough' or k < 60 else [every[(k*5 + j) %
        len(every)] for j in (0, 7)]


# -------------------------------------------------------------------- listings
@CHECK.block('apache', params=lambda tier: [(z, tier) for z in ZONES],
    timeout=800)
def apache_pages(rec, arg):
    """listings of web servers"""
    zone, tier = arg
    os.environ['TZ'] = zone
    time.tzset()
    net = Net()
    with net.active():
        for k, items in enumerate(contents(tier)):
            for pattern, sort in chosen(k, tier):
                form = ('%Y-%m-%d %H:%M', '%d-%b-%Y %H:%M', None)[(k +
                    sort) % 3]
                parent, icons = k % 2 == 0, k % 4 < 2
                page = apache(items, form or '%Y-%m-%d %H:%M', icons, parent)
                kw = dict(sort=sort)
                if form:
                    kw['format'] = form
                if pattern is not None:
                    kw['pattern'] = pattern
                host = ('http://h.example/a/b', ['http://h.example', 'a', 'b'],
                    'https://h.example/a/b', ['https://h.example', 'a',
                    'b'])[k % 4]
                net.web = lambda q: Reply(page, length=('exact', 'chunked',
                    None)[k % 3])
                net.requests.clear()
                key = f'{zone}:{[n for n, d in items]}:{pattern}:{sort}:{k}'
                rec.case(key)
                with rec.guard(key):
                    rows = ([('/up/', None)] if parent else []) + [(n, unix(d,
                        False)) for n, d in items]
                    got = U.http_list(host, timeout=5, context=Plain() if k %
                        4 < 2 else U._default_ssl_context, **kw)
                    compare(rec, key, got, select(rows, pattern, sort))
                    rec.check([q.target for q in net.requests] == ['/a/b'],
                        key + ':request')
    net.close()
    rec.sample({'zone': zone, 'items': len(ITEMS)})


@CHECK.block('drive', params=lambda tier: [(z, tier) for z in ZONES],
    timeout=800)
def drive_pages(rec, arg):
    """listings of data drives, of mascons and of models"""
    zone, tier = arg
    os.environ['TZ'] = zone
    time.tzset()
    net = Net()
    with net.active():
        for k, items in enumerate(contents(tier)):
            for pattern, sort in chosen(k, tier):
                kw = dict(sort=sort)
                if pattern is not None:
                    kw['pattern'] = pattern
                net.web = lambda q: Reply(drive(items))
                key = f'{zone}:{[n for n, d in items]}:{pattern}:{sort}'
                rec.case('drive:' + key)
                host = 'https://h.example/drive/files'
                host = host if k % 2 else U.url_split(host)
                with rec.guard('drive:' + key):
                    compare(rec, 'drive:' + key, U.drive_list(host,
                        build=False, timeout=5, **kw), select([(n, unix(d))
                        for n, d in items], pattern, sort))
                net.web = lambda q: Reply(gsfc(items))
                rec.case('gsfc:' + key)
                net.requests.clear()
                with rec.guard('gsfc:' + key):
                    rows = [(f'https://{x}/geo/files/{n}'.rstrip('/') +
                        ('/' if n.endswith('/') else ''), None) for n, d in
                        items for x in ['h.example' if k % 3 else
                        'earth.gsfc.nasa.gov']]
                    got = U.gsfc_list(timeout=5, **kw, **({'HOST':
                        ['https://h.example', 'page'] if k % 3 == 1 else
                        'https://h.example/page'} if k % 3 else {}))
                    rec.check(got == [n for n, t in select(rows, pattern,
                        sort)], 'gsfc:' + key, str(got[:3]))
                    rec.check([q.target for q in net.requests] == ['/page' if
                        k % 3 else '/geo/data/grace-mascons'], 'gsfc:' + key +
                        ':request')
        names = ('GGM05C.gfc', 'EIGEN-6C4.gfc', 'ITSG-Grace2018s.gfc',
            'a.b.gfc', 'XGM2019e_2159.gfc', 'notes.txt', 'model.gfc.zip')
        for n in range(4):
            for sel in itertools.permutations(names, n):
                page = icgem([(x, None) for x in sel])
                net.web = lambda q: Reply(page)
                net.requests.clear()
                key = f'icgem:{sel}'
                rec.case(key)
                with rec.guard(key):
                    got = U.icgem_list(timeout=5)
                    want = {x[:-4]: ('getmodel', 'gfc', f'{i:x}', x) for i, x
                        in enumerate(sel) if x.endswith('.gfc')}
                    rec.check({a: tuple(b) for a, b in got.items()} == want
                        and list(got) == list(want), key, str(got))
                    rec.check([q.target for q in net.requests] ==
                        ['/tom_longtime'], key + ':request')
    net.close()
    rec.sample({'zone': zone})


@CHECK.block('ftp', params=lambda tier: [(z, tier) for z in ZONES],
    timeout=800)
def ftp_pages(rec, arg):
    """listings of file servers"""
    zone, tier = arg
    os.environ['TZ'] = zone
    time.tzset()
    net = Net()
    with net.active():
        for k, items in enumerate(contents(tier)):
            items = [(n.rstrip('/'), d) for n, d in items]
            path = ('', 'a', 'a/b/c')[k % 3]
            for pattern, sort in chosen(k, tier):
                for basename in (False, True, None):
                    full = [(posixpath.join(path, n), d) for n, d in items]
                    net.ftp = Ftp({n: (b'', '%04d%02d%02d%02d%02d%02d' % d)
                        for n, d in full if d}, names=[n for n, d in
                        full])
                    kw = dict(sort=sort)
                    if basename is not None:
                        kw['basename'] = basename
                    if pattern is not None:
                        kw['pattern'] = pattern
                    host = '/'.join(['h.example', path]).rstrip('/') if k % 2 \
                        else ['h.example'] + path.split('/')*bool(path)
                    if k % 4 == 1:
                        host = 'ftp://' + host
                        if 'ftp://' in host:
                            host = U.url_split(host)
                            host = [host[0][6:], *host[1:]]
                    key = f'{zone}:{path}:{[n for n, d in items]}:{pattern}:' \
                        f'{sort}:{basename}'
                    rec.case(key)
                    with rec.guard(key):
                        rows = [(n if basename is not True else
                            posixpath.basename(n), unix(d)) for n, d in full]
                        got = U.ftp_list(host, timeout=5, **kw)
                        got = (got[0], [t if t is None else int(t) for t in
                            got[1]])
                        compare(rec, key, got, select(rows, pattern, sort))
                        rec.check([a.strip() for c, a in net.ftp.log if c ==
                            'NLST'] == [path], key + ':path')
    net.close()
    rec.sample({'zone': zone})


LOGIN = [(None, None), ('me', 'secret'), ('anonymous', 'me@x.example')]


@CHECK.block('ftp login', params=lambda tier: [tier])
def ftp_login(rec, tier):
    """names and passwords of file servers"""
    net = Net()
    with net.active():
        for (user, word), fault, refuse in itertools.product(LOGIN, (None,
                {'USER': '530 no'}, {'PASS': '530 no'}, {'NOOP': '530 no'},
                {'GREETING': '421 full'}, {'GREETING': 'drop'}, {'PASS':
                'drop'}, {'NLST': '550 no'}), (None, OSError(101, 'no'))):
            kw = {} if user is None else dict(username=user, password=word)
            for what, run in (('check', lambda: U.check_ftp_connection(
                    'h.example', **kw)), ('list', lambda: U.ftp_list([
                    'h.example', 'a'], timeout=5, **kw))):
                key = f'{what}:{user}:{fault}:{refuse}'
                rec.case(key)
                net.ftp = Ftp({'a/x': (b'', '20200101000000')}, fault)
                net.refuse = refuse
                bad = refuse or fault and not (what == 'list' and 'NOOP' in
                    fault or what == 'check' and 'NLST' in fault)
                if bad:
                    rec.raises(run, key)
                else:
                    with rec.guard(key):
                        got = run()
                        rec.check(got is True if what == 'check' else got ==
                            (['a/x'], [1577836800]), key, str(got))
                        log = dict(net.ftp.log)
                        rec.check(log.get('USER') == (user or 'anonymous') and
                            ('PASS' not in log or user in (None, 'anonymous')
                            or log['PASS'] == word), key + ':login', str(log))
    net.refuse = None
    net.close()
    rec.sample({'logins': len(LOGIN)})


def listers():
    yield 'http', lambda: U.http_list('http://h.example/a', timeout=5,
        context=Plain()), apache(ITEMS[:3])
    yield 'https', lambda: U.http_list(['https://h.example', 'a'], timeout=5,
        ), apache(ITEMS[:3])
    yield 'drive', lambda: U.drive_list('https://h.example/a', build=False,
        timeout=5), drive(ITEMS[:3])
    yield 'gsfc', lambda: U.gsfc_list(timeout=5), gsfc(ITEMS[:3])
    yield 'icgem', lambda: U.icgem_list(timeout=5), icgem([('A.gfc', None),
        ('B.gfc', None)])


@CHECK.block('faults', params=lambda tier: [(x, tier) for x in ('http',
    'https', 'drive', 'gsfc', 'icgem', 'ftp')])
def faults(rec, arg):
    """an incomplete listing is reported, never returned"""
    what, tier = arg
    net = Net()
    with net.active():
        if what == 'ftp':
            names = ['a/x', 'a/y', 'a/z']
            files = {n: (b'', '20200101000000') for n in names}
            run = lambda: U.ftp_list(['h.example', 'a'], timeout=2)
            whole = ''.join(n + '\r\n' for n in names)
            cases = [{'NLST': h} for h in ('450 no', '550 no', '421 bye',
                'drop')] + [{'NLST': {'a': (k, h)}} for k in range(len(whole))
                for h in ('abort', 'drop', 'reset')] + [{'MDTM': {n: h}} for n
                in names for h in ('421 bye', 'drop', '450 busy')] + [{c: h}
                for c in ('USER', 'PASS', 'EPSV') for h in ('530 no', 'drop')
                ] + [{'GREETING': h} for h in ('421 full', 'drop')]
            for f in cases:
                if 'EPSV' in f:
                    f['PASV'] = f['EPSV']
                rec.case(str(f))
                net.ftp = Ftp(files, f)
                rec.raises(run, str(f))
            # items without a date keep their place
            for k in range(4):
                for missing in itertools.combinations(names, k):
                    net.ftp = Ftp(files, {'MDTM': {n: '550 not a plain file'
                        for n in missing}})
                    rec.case(f'no date {missing}')
                    with rec.guard(f'no date {missing}'):
                        compare(rec, f'no date {missing}', run(), [(n, None if
                            n in missing else 1577836800) for n in names])
        for name, run, page in listers():
            if name != what:
                continue
            net.web = lambda q: Reply(page)
            with rec.guard('whole'):
                whole = run()
            for s in (400, 401, 403, 404, 500, 503):
                net.web = lambda q: Reply(page, s)
                rec.case(f'status {s}')
                rec.raises(run, f'status {s}')
            n = len(page)
            for length in ('exact', 'chunked'):
                w = len(Reply(page, length=length).wire()[1])
                for end in ('close', 'reset'):
                    for k in range(0, w - 5, 1 if tier == 'thorough' else 7):
                        net.web = lambda q: Reply(page, length=length, cut=k,
                            end=end)
                        rec.case(f'{length}:{end}:{k}')
                        rec.raises(run, f'{length}:{end}:{k}')
            for k, raw in enumerate((b'', b'garbage\r\n\r\n',
                    b'HTTP/1.1 2')):
                net.web = lambda q: Reply(raw=raw)
                rec.case(f'raw {k}')
                rec.raises(run, f'raw {k}')
            for exc in (ConnectionRefusedError(111, 'no'), OSError(101,
                    'no'), TimeoutError('late')):
                net.refuse = exc
                rec.case(str(exc))
                rec.raises(run, str(exc))
            net.refuse = None
            # and the same after a failure
            net.web = lambda q: Reply(page)
            with rec.guard('again'):
                rec.check(run() == whole, 'again')
    net.close()
    rec.sample({'server': what})


@CHECK.block('connection', params=lambda tier: [tier])
def connection(rec, tier):
    """whether hosts answer"""
    net = Net()
    with net.active():
        for s in (200, 204, 301, 400, 401, 403, 404, 500, 503):
            for host in ('http://h.example', 'https://h.example/path'):
                for kw in ({}, dict(context=Plain())):
                    if 'https' in host and kw:
                        continue
                    if 'http:' in host and not kw:
                        kw = dict(context=U._default_ssl_context)
                    net.web = lambda q: Reply(b'', s, [('Location', '/other')]
                        if s == 301 and q.target != '/other' else [])
                    if s == 301:
                        net.web = lambda q: Reply(b'', 301, [('Location',
                            '/other')]) if q.target != '/other' else Reply(b'')
                    key = f'{host}:{s}'
                    rec.case(key)
                    run = lambda: U.check_connection(host, **kw)
                    if s < 400:
                        with rec.guard(key):
                            rec.check(run() is True, key)
                    else:
                        rec.raises(run, key, RuntimeError)
        for exc in (ConnectionRefusedError(111, 'no'), OSError(101, 'no')):
            net.refuse = exc
            rec.case(str(exc))
            rec.raises(lambda: U.check_connection('http://h.example'),
                str(exc), RuntimeError)
        net.refuse = None
    net.close()
    rec.sample({'states': 9})
