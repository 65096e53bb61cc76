"""P30: a failed or partial download never damages or fakes a local file"""
import hashlib
import itertools
import json
import os
import pathlib
import resource
import signal
import socket
import time
import mc
from net import Net, Reply, Ftp, Plain
import gravity_toolkit.utilities as U

CHECK = mc.Check('P30', level='fault_enumeration',
    rule='distinct (transfer routine, local copy, fault and its position, '
    'request form) transfers against loopback servers',
    assumptions=['a server that closes an unframed response early and a file '
        'server that confirms a short transfer cannot be told from complete '
        'ones', 'hosts are replaced by servers on the loopback interface, '
        'where encrypted connections are taken in the clear',
        'files of unfinished transfers may stay under other names when the '
        'process is killed'])

OLD = b'earlier copy\n'
BODIES = {'empty': b'', 'one': b'x', 'text': b'new copy', 'long':
    bytes(range(256))*170, 'binary': b'\r\n\x00\xff\x1a'}
T0 = 1000000000
MODES = (0o775, 0o640)


def state(folder):
    """content, date and permissions of every file"""
    out = {}
    for p in sorted(folder.rglob('*')):
        if p.is_file():
            s = p.stat()
            out[str(p.relative_to(folder))] = (p.read_bytes(), s.st_mtime_ns,
                s.st_mode & 0o777)
    return out


def prepare(folder, name, pre, body):
    """local copy before the transfer"""
    p = folder/name
    if p.exists():
        p.unlink()
    if pre == 'absent':
        return p
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_bytes(OLD if pre == 'other' else body)
    p.chmod(0o604)
    os.utime(p, (T0 + 5, T0))
    return p


PRE = ('absent', 'other', 'same')
DENIED = (400, 401, 403, 404, 408, 410, 429, 500, 502, 503, 504)


def good(body):
    yield 'exact', lambda: Reply(body)
    yield 'chunked', lambda: Reply(body, length='chunked')
    yield 'close', lambda: Reply(body, length=None)


def faults(body, tier, stalls=True):
    """every way a response can fail"""
    for s in DENIED:
        yield f'status {s}', lambda s=s: Reply(b'<html>no</html>', s)
    yield 'loop', lambda: Reply(b'', 302, [('Location',
        'http://h.example/a/b.txt')])
    yield 'dropped', lambda: Reply(raw=b'')
    yield 'garbage', lambda: Reply(raw=b'SSH-2.0-x\r\n\r\n')
    yield 'half a header', lambda: Reply(raw=b'HTTP/1.1 2', end='reset')
    n = len(body)
    cuts = range(n) if n < 40 else (0, 1, 8191, 8192, 16384, n//2, n - 1)
    for k in cuts:
        for end in ('close', 'reset'):
            yield f'cut {k} {end}', lambda k=k, e=end: Reply(body, cut=k,
                end=e)
    if n:
        w = len(Reply(body, length='chunked').wire()[1])
        # the end of the last chunk is not needed to have all the content
        for k in (range(w - 4) if n < 40 else (0, 2, 9000, w - 5)):
            yield f'chunked {k}', lambda k=k: Reply(body, length='chunked',
                cut=k)
    if stalls:
        for k in (0, n//2, n - 1) if tier == 'thorough' else (n//2,):
            if 0 <= k < n:
                yield f'stalled {k}', lambda k=k: Reply(body, cut=k,
                    end='stall')


REFUSED = {'refused': ConnectionRefusedError(111, 'refused'),
    'unresolved': socket.gaierror(-2, 'unknown'),
    'unreachable': OSError(101, 'unreachable'),
    'timed out': socket.timeout('timed out')}

URL = 'http://h.example/a/b.txt'


def fetch_http(local, digest, chunk, mode, form, timeout, ctx):
    host = URL if form == 'str' else ['http://h.example', 'a', 'b.txt']
    kw = {} if local is None else dict(local=local)
    if digest is not None:
        kw['hash'] = digest
    return U.from_http(host, timeout=timeout, context=ctx, chunk=chunk,
        mode=mode, **kw)


def fetch_https(local, digest, chunk, mode, form, timeout, ctx):
    host = URL.replace('http', 'https') if form == 'str' else [
        'https://h.example', 'a', 'b.txt']
    kw = {} if local is None else dict(local=local)
    if digest is not None:
        kw['hash'] = digest
    return U.from_http(host, timeout=timeout, chunk=chunk, mode=mode, **kw)


def fetch_drive(local, digest, chunk, mode, form, timeout, ctx):
    host = URL.replace('http', 'https') if form == 'str' else [
        'https://h.example', 'a', 'b.txt']
    kw = {} if local is None else dict(local=local)
    if digest is not None:
        kw['hash'] = digest
    return U.from_drive(host, build=False, timeout=timeout, chunk=chunk,
        mode=mode, **kw)


def fetch_ftp(local, digest, chunk, mode, form, timeout, ctx):
    host = 'ftp://h.example/a/b.txt' if form == 'url' else \
        ['h.example', 'a', 'b.txt']
    kw = {} if local is None else dict(local=local)
    if digest is not None:
        kw['hash'] = digest
    return U.from_ftp(host, timeout=timeout, chunk=chunk, mode=mode, **kw)


WEB = {'from_http': fetch_http, 'https': fetch_https, 'from_drive':
    fetch_drive}


def attempt(rec, key, run, folder, before, allowed=()):
    """a transfer that has to fail and leave everything as it was"""
    try:
        run()
    except Exception:
        pass
    else:
        rec.fail(key, 'the failure was not reported')
    after = state(folder)
    rec.check(after == before, key + ':kept', lambda: 'changed: ' + str(
        {k: (before.get(k), after.get(k)) for k in set(before) | set(after)
        if before.get(k) != after.get(k)})[:300])


def judge(rec, key, buf, folder, name, before, body, pre, digest, mode,
        remote=None, given=True):
    """a transfer that has to store exactly the remote bytes"""
    rec.check(buf.getvalue() == body, key + ':bytes returned')
    rec.check(buf.tell() == 0, key + ':position returned')
    rec.check(buf.filename == 'b.txt', key + ':name', repr(buf.filename))
    after = state(folder)
    if not given:
        rec.check(after == before, key + ':nothing stored', str(after))
        return
    same = pre == 'same' and digest == 'current'
    rec.check(set(after) == set(before) | {name}, key + ':files',
        str(list(after)))
    b, t, m = after[name]
    rec.check(b == body, key + ':stored', repr(b[:40]))
    if same:
        rec.check(after == before, key + ':not rewritten')
    else:
        rec.check(m == mode, key + ':mode', oct(m))
        if remote is not None:
            rec.check(t//10**9 == remote, key + ':date', f'{t} {remote}')


def digests(pre, p):
    yield None, None
    if pre != 'absent':
        yield 'current', U.get_hash(p)
    yield 'wrong', '0'*32


# -------------------------------------------------------------------- requests
@CHECK.block('web', params=lambda tier: [(f, b, tier) for f in WEB for b in
    BODIES], timeout=800)
def web(rec, arg):
    """single transfers from web servers"""
    fn, bk, tier = arg
    body = BODIES[bk]
    net = Net()
    root = pathlib.Path(rec.mkdir())
    ctx = Plain()
    one = WEB[fn]
    with net.active():
        n = 0
        for deep, form, chunk, mode in itertools.product((False, True),
                ('str', 'list'), (1, 3, 16384), MODES):
            name = 'new/dir/b.txt' if deep else 'b.txt'
            if bk == 'long' and chunk < 16384:
                chunk = chunk*4096
            for pre in PRE:
                folder = root/f'{n}'
                n += 1
                folder.mkdir()
                (folder/'neighbour').write_bytes(b'n')
                os.utime(folder/'neighbour', (T0, T0))
                for what, make in good(body):
                    p = prepare(folder, name, pre, body)
                    for dk, dv in list(digests(pre, p)) + [('none', None)]:
                        p = prepare(folder, name, pre, body)
                        local = None if dk == 'none' else p if n % 2 else \
                            str(p)
                        key = f'{fn}:{bk}:{name}:{form}:{chunk}:{mode:o}:' \
                            f'{pre}:{what}:{dk}'
                        rec.case(key)
                        before = state(folder)
                        net.web = lambda q: make()
                        net.requests.clear()
                        with rec.guard(key):
                            buf = one(local, dv, chunk, mode, form, 5, ctx)
                            judge(rec, key, buf, folder, name, before, body,
                                pre, dk, mode, given=local is not None)
                            rec.check([(q.method, q.target, q.host) for q in
                                net.requests] == [('GET', '/a/b.txt',
                                'h.example')], key + ':requests', lambda:
                                str([q.target for q in net.requests]))
                # faults with the remaining options varied together
                if (n % 4 or bk == 'long') and tier == 'quick' and n > 3:
                    continue
                for what, make in faults(body, tier, n < 4):
                    p = prepare(folder, name, pre, body)
                    dk, dv = list(digests(pre, p))[n % (2 + (pre !=
                        'absent'))]
                    key = f'{fn}:{bk}:{name}:{form}:{chunk}:{pre}:{dk}:{what}'
                    rec.case(key)
                    before = state(folder)
                    net.web = lambda q: make()
                    attempt(rec, key, lambda: one(p, dv, chunk, mode, form,
                        0.25 if 'stall' in what else 5, ctx), folder, before)
                for what, exc in REFUSED.items():
                    p = prepare(folder, name, pre, body)
                    key = f'{fn}:{bk}:{name}:{form}:{pre}:{what}'
                    rec.case(key)
                    before = state(folder)
                    net.refuse = exc
                    attempt(rec, key, lambda: one(p, None, chunk, mode, form,
                        5, ctx), folder, before)
                    net.refuse = None
    net.close()
    rec.sample({'routine': fn, 'body': bk, 'fault': what})


@CHECK.block('moved', params=lambda tier: list(WEB))
def moved(rec, fn):
    """addresses that lead elsewhere"""
    net = Net()
    folder = pathlib.Path(rec.mkdir())
    with net.active():
        for code, hops, pre, last in itertools.product((301, 302, 303, 307,
                308), (1, 2, 3), PRE, ('good', 'cut', 404)):
            body = BODIES['text']
            p = prepare(folder, 'b.txt', pre, body)
            before = state(folder)

            def web(q):
                k = int(q.target.rpartition('hop')[2] or 0) \
                    if 'hop' in q.target else 0
                if k < hops:
                    return Reply(b'moved', code, [('Location',
                        f'http://other.example/hop{k+1}')])
                return {'good': Reply(body), 'cut': Reply(body, cut=3),
                    404: Reply(b'no', 404)}[last]
            net.web = web
            key = f'{fn}:{code}:{hops}:{pre}:{last}'
            rec.case(key)
            run = lambda: WEB[fn](p, None, 16384, 0o644, 'str', 5, Plain())
            if last == 'good':
                with rec.guard(key):
                    judge(rec, key, run(), folder, 'b.txt', before, body, pre,
                        None, 0o644)
            else:
                attempt(rec, key, run, folder, before)
    net.close()
    rec.sample({'status': code, 'hops': hops})


DATES = {'20200229123456': (2020, 2, 29, 12, 34, 56), '20021231235959':
    (2002, 12, 31, 23, 59, 59), '20180701000000': (2018, 7, 1, 0, 0, 0)}


def unix(d):
    import calendar
    return calendar.timegm(d + (0, 0, 0))


def ftp_faults(body, tier):
    for g in ('421 too many', '500 no', 'drop'):
        yield f'greeting {g}', {'GREETING': g}
    for cmd in ('USER', 'PASS', 'TYPE', 'EPSV', 'PASV', 'RETR', 'MDTM'):
        for how in ('530 not logged in', '550 no', '421 closing', '425 no',
                'drop'):
            if cmd in ('PASV', 'EPSV'):
                yield f'{cmd} {how}', {'PASV': how, 'EPSV': how}
            elif cmd == 'MDTM' and how == 'drop':
                yield 'MDTM drop', {'MDTM': 'drop'}
            else:
                yield f'{cmd} {how}', {cmd: how}
    n = len(body)
    for k in (range(n + 1) if n < 40 else (0, 1, 8192, n - 1, n)):
        for how in ('abort', 'reset', 'drop'):
            yield f'RETR {k} {how}', {'RETR': {'a/b.txt': (k, how)}}
    if tier == 'thorough' or n == 8:
        yield 'stalled', {'RETR': {'a/b.txt': (n//2, 'stall')}}
        yield 'stalled MDTM', {'MDTM': 'stall'}


@CHECK.block('ftp', params=lambda tier: [(b, z, tier) for b in BODIES for z in
    ('UTC', 'America/Los_Angeles', 'Asia/Kolkata')], timeout=800)
def ftp(rec, arg):
    """single transfers from file servers"""
    bk, zone, tier = arg
    os.environ['TZ'] = zone
    time.tzset()
    body = BODIES[bk]
    net = Net()
    root = pathlib.Path(rec.mkdir())
    n = 0
    with net.active():
        for deep, chunk, mode, (stamp, date), pre in itertools.product((False,
                True), (1, 3, 8192), MODES, DATES.items(), PRE):
            name = 'new/dir/b.txt' if deep else 'b.txt'
            if bk == 'long' and chunk < 8192:
                continue
            folder = root/f'{n}'
            folder.mkdir()
            n += 1
            p = prepare(folder, name, pre, body)
            for dk, dv in list(digests(pre, p)) + [('none', None)]:
                p = prepare(folder, name, pre, body)
                local = None if dk == 'none' else p if n % 2 else str(p)
                key = f'{bk}:{zone}:{name}:{chunk}:{mode:o}:{stamp}:{pre}:' \
                    f'{dk}'
                rec.case(key)
                before = state(folder)
                net.ftp = Ftp({'a/b.txt': (body, stamp), 'b.txt': (b'root',
                    '20000101000000'), 'a/c.txt': (b'c', '20000101000000')})
                with rec.guard(key):
                    buf = fetch_ftp(local, dv, chunk, mode, 'list', 5, None)
                    judge(rec, key, buf, folder, name, before, body, pre, dk,
                        mode, unix(date), local is not None)
            if zone != 'UTC' and tier == 'quick' or (n % 5 and tier ==
                    'quick'):
                continue
            for what, fault in ftp_faults(body, tier):
                if 'stall' in what and n > 6:
                    continue
                p = prepare(folder, name, pre, body)
                key = f'{bk}:{name}:{chunk}:{pre}:{what}'
                rec.case(key)
                before = state(folder)
                net.ftp = Ftp({'a/b.txt': (body, stamp)}, fault)
                attempt(rec, key, lambda: fetch_ftp(p, None, chunk, mode,
                    'list', 0.25 if 'stall' in what else 5, None), folder,
                    before)
            for what, files in (('missing', {'a/c.txt': (b'c', stamp)}),):
                p = prepare(folder, name, pre, body)
                key = f'{bk}:{name}:{chunk}:{pre}:{what}'
                rec.case(key)
                before = state(folder)
                net.ftp = Ftp(files)
                attempt(rec, key, lambda: fetch_ftp(p, None, chunk, mode,
                    'list', 5, None), folder, before)
            for what, exc in REFUSED.items():
                p = prepare(folder, name, pre, body)
                key = f'{bk}:{name}:{pre}:{what}'
                rec.case(key)
                before = state(folder)
                net.refuse = exc
                attempt(rec, key, lambda: fetch_ftp(p, None, chunk, mode,
                    'list', 5, None), folder, before)
                net.refuse = None
    net.close()
    rec.sample({'body': bk, 'zone': zone, 'date': stamp})


# ------------------------------------------------------------------- histories
@CHECK.block('histories', params=lambda tier: [(f, tier) for f in
    list(WEB) + ['ftp']], timeout=600)
def histories(rec, arg):
    """sequences of transfers of one file"""
    fn, tier = arg
    net = Net()
    root = pathlib.Path(rec.mkdir())
    steps = ['A', 'B', 'cut A', 'cut B', 'gone', 'refused']
    depth = 3 if tier == 'quick' else 4
    bodies = {'A': b'first solution', 'B': b'second'}
    n = 0
    with net.active():
        for k in range(1, depth + 1):
            for seq in itertools.product(steps, repeat=k):
                folder = root/f'{n}'
                folder.mkdir()
                n += 1
                p = folder/'b.txt'
                have = None
                key = f'{fn}:{",".join(seq)}'
                rec.case(key)
                for i, s in enumerate(seq):
                    if p.exists():
                        os.utime(p, (T0, T0))
                    before = state(folder)
                    b = bodies.get(s[-1], b'')
                    net.refuse = REFUSED['refused'] if s == 'refused' else \
                        None
                    if fn == 'ftp':
                        net.ftp = Ftp({} if s == 'gone' else {'a/b.txt': (b,
                            '20180701000000')}, {'RETR': {'a/b.txt': (3,
                            'abort')}} if s[:3] == 'cut' else {})
                        one = fetch_ftp
                    else:
                        net.web = lambda q: Reply(b'', 404) if s == 'gone' \
                            else Reply(b, cut=3 if s[:3] == 'cut' else None)
                        one = WEB[fn]
                    run = lambda: one(p, U.get_hash(p), 5, 0o644, 'list', 5,
                        Plain())
                    if s in bodies:
                        with rec.guard(f'{key}:{i}'):
                            run()
                            after = state(folder)
                            rec.check(after['b.txt'][0] == b,
                                f'{key}:{i}:stored')
                            if have == s:
                                rec.check(after == before,
                                    f'{key}:{i}:not rewritten')
                            have = s
                    else:
                        attempt(rec, f'{key}:{i}', run, folder, before)
                net.refuse = None
    net.close()
    rec.sample({'routine': fn, 'history': list(seq)})


# ---------------------------------------------------------------- local faults
class Limit:
    """files cannot grow beyond a size while active"""
    def __init__(self, size):
        self.size = size

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.size, self.old[1]))

    def __exit__(self, *args):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


@CHECK.block('disk', params=lambda tier: [(f, b) for f in list(WEB) + ['ftp']
    for b in ('text', 'long', 'one')], timeout=600)
def disk(rec, arg):
    """a disk that fills up, or a process killed, at every byte written"""
    fn, bk = arg
    body = BODIES[bk]
    net = Net()
    root = pathlib.Path(rec.mkdir())
    n = len(body)
    sizes = range(n) if n < 40 else (0, 1, 4096, 8192, 16384, n//2, n - 1)
    with net.active():
        net.web = lambda q: Reply(body)
        one = WEB.get(fn, fetch_ftp)
        for k, pre, chunk, killed in itertools.product(sizes, PRE, (1, 16384),
                (False, True)):
            if bk == 'long' and chunk == 1:
                continue
            folder = root/f'{k}_{pre}_{chunk}_{killed}'
            folder.mkdir()
            p = prepare(folder, 'b.txt', pre, body)
            before = state(folder)
            net.ftp = Ftp({'a/b.txt': (body, '20180701000000')})
            key = f'{fn}:{bk}:{k}:{pre}:{chunk}:{killed}'
            rec.case(key)
            run = lambda: one(p, None, chunk, 0o644, 'list', 5, Plain())
            if not killed:
                with Limit(k):
                    try:
                        run()
                        ok = False
                    except Exception:
                        ok = True
                rec.check(ok, key, 'the failure was not reported')
                after = state(folder)
                rec.check(after == before, key + ':kept', lambda: str({f: a[0]
                    for f, a in after.items()})[:300])
                continue
            pid = os.fork()
            if pid == 0:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
                try:
                    run()
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            rec.check(os.WIFSIGNALED(status), key + ':not killed',
                str(status))
            after = state(folder)
            rec.check(after.get('b.txt', (None,))[0] == before.get('b.txt',
                (None,))[0], key + ':kept', lambda: repr(after.get(
                'b.txt'))[:200])
        # places that cannot hold the file
        for what in ('folder', 'file'):
            folder = root/what
            folder.mkdir()
            if what == 'folder':
                p = folder/'b.txt'
                p.mkdir()
            else:
                (folder/'b').write_bytes(b'x')
                p = folder/'b'/'b.txt'
            before = state(folder)
            net.ftp = Ftp({'a/b.txt': (body, '20180701000000')})
            rec.case((fn, bk, what))
            attempt(rec, f'{fn}:{bk}:{what}', lambda: one(p, None, 16384,
                0o644, 'list', 5, Plain()), folder, before)
        # links to a file elsewhere
        folder = root/'links'
        (folder/'elsewhere').mkdir(parents=True)
        (folder/'elsewhere'/'c.txt').write_bytes(OLD)
        (folder/'b.txt').symlink_to(folder/'elsewhere'/'c.txt')
        net.ftp = Ftp({'a/b.txt': (body, '20180701000000')})
        rec.case((fn, bk, 'link'))
        with rec.guard(f'{fn}:{bk}:link'):
            one(folder/'b.txt', None, 16384, 0o644, 'list', 5, Plain())
            rec.check((folder/'b.txt').read_bytes() == body,
                f'{fn}:{bk}:link')
    net.close()
    rec.sample({'routine': fn, 'bytes written': list(sizes)[-1]})


# ----------------------------------------------------------------- collections
SLR = {'/pub/slr/degree_5/CSR_Monthly_5x5_Gravity_Harmonics.txt',
    '/pub/slr/degree_2/C20_RL06.txt', '/pub/slr/degree_2/C21_S21_RL06.txt',
    '/pub/slr/degree_2/C22_S22_RL06.txt', '/pub/slr/TN11E/TN11E.txt'}
GEO = {'/pub/slr/geocenter/GCN_L1_L2_30d_CF-CM.txt',
    '/outgoing/cheng/gct2est.220_5s'}


def listing_page(names):
    return ('<html><body><table><tr><th>Name</th></tr>' + ''.join(
        f'<tr><td valign="top"><img src="i.gif"></td><td><a href="{n}">{n}'
        '</a></td><td align="right">2019-03-04 05:06  </td><td align="right">'
        '1K</td><td>&nbsp;</td></tr>' for n in names) + '</table></body>'
        '</html>').encode()


def remote_csr(what, version):
    """remote path -> (local path, content)"""
    out = {}
    if 'SLR' in what:
        out.update({f: (f.rpartition('/')[2], f.encode()) for f in SLR})
    if 'geocenter' in what:
        out.update({f: ('geocenter/' + f.rpartition('/')[2], f.encode())
            for f in GEO})
    if 'LRI' in what:
        for y in ('2018', '2020'):
            for prod in ('GAC', 'GAD', 'GSM'):
                f = f'/outgoing/gracefo/{version}/{y}/{prod}-2_{y}.gfc.gz'
                out[f] = (f'CSR/{version}/{prod}/{prod}-2_{y}.gfc.gz',
                    f.encode())
    return out


def pages(version):
    base = f'/outgoing/gracefo/{version}'
    out = {base: listing_page(['README', '2018/', '2020/'])}
    for y in ('2018', '2020'):
        page = listing_page([f'{p}-2_{y}.gfc.gz' for p in ('GAC', 'GAD',
            'GSM')] + ['notes.txt'])
        out[f'{base}/{y}'] = out[f'{base}/{y}/'] = page
    return out


@CHECK.block('collections', params=lambda tier: [(w, tier) for w in (('SLR',),
    ('geocenter',), ('LRI',), ('SLR', 'geocenter'), 'SLR', 'geocenter', ('LRI',
    'SLR', 'geocenter'))],
    timeout=600)
def collections(rec, arg):
    """the series of one centre, each file at fault in turn"""
    what, tier = arg
    net = Net()
    root = pathlib.Path(rec.mkdir())
    n = 0
    with net.active():
        for version in ('RL06.1LRI', 'RL06.2LRI') if 'LRI' in what else (
                'RL06.1LRI',):
            remote = remote_csr([what] if isinstance(what, str) else what,
                version)
            page = pages(version)
            for bad in [None] + sorted(remote):
                for how, pre in itertools.product(('404', 'cut', 'reset',
                        'dropped') if bad else ('none',), PRE + ('mixed',)):
                    folder = root/f'{n}'
                    n += 1
                    folder.mkdir()
                    for i, (l, b) in enumerate(remote.values()):
                        prepare(folder, l, PRE[i % 3] if pre == 'mixed' else
                            pre, b)
                    before = state(folder)

                    def web(q):
                        t = q.target
                        if t in page:
                            return Reply(page[t])
                        if t not in remote:
                            return Reply(b'unknown', 404)
                        b = remote[t][1]
                        if t == bad:
                            return {'404': Reply(b'', 404), 'cut': Reply(b,
                                cut=4), 'reset': Reply(b, cut=4,
                                end='reset'), 'dropped': Reply(raw=b'')}[how]
                        return Reply(b)
                    net.web = web
                    net.requests.clear()
                    key = f'{what}:{version}:{bad}:{how}:{pre}'
                    rec.case(key)
                    kw = {} if version == 'RL06.1LRI' else {'version':
                        version}
                    run = lambda: U.from_csr(folder if n % 2 else str(folder),
                        variable=what, mode=0o755, timeout=5, **kw)
                    if bad is None:
                        with rec.guard(key):
                            run()
                    else:
                        rec.raises(run, key)
                    after = state(folder)
                    for f, (l, b) in remote.items():
                        done = any(q.target == f for q in net.requests) and \
                            f != bad
                        if bad is None:
                            done = True
                        got = after.get(l)
                        if done:
                            rec.check(got is not None and got[0] == b,
                                f'{key}:{f}:stored', repr(got))
                            if before.get(l, (None,))[0] == b:
                                rec.check(got == before[l],
                                    f'{key}:{f}:not rewritten')
                        else:
                            rec.check(got == before.get(l), f'{key}:{f}:kept',
                                repr(got))
                    rec.check(set(after) <= {l for l, _ in remote.values()},
                        key + ':other files', str(list(after)))
    net.close()
    rec.sample({'choice': what, 'files': len(remote)})


GFZ = {'grace/Level-2/GFZ/RL06_SLR_C20/GFZ_RL06_C20_SLR.dat': '',
    'grace/GravIS/GFZ/Level-2B/aux_data/GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES'
    '_0003.dat': '',
    'grace/GravIS/GFZ/Level-2B/aux_data/GRAVIS-2B_GFZOP_GEOCENTER_0003.dat':
    'geocenter/'}


@CHECK.block('auxiliary', params=lambda tier: ['gfz', 'gsfc', 'figshare'],
    timeout=600)
def auxiliary(rec, kind):
    """the series of the other centres"""
    net = Net()
    root = pathlib.Path(rec.mkdir())
    n = 0
    with net.active():
        if kind == 'gfz':
            files = {f: (d + f.rpartition('/')[2], f.encode()) for f, d in
                GFZ.items()}
            for bad in [None] + sorted(files):
                for how, pre in itertools.product(('gone', 'cut', 'date')
                        if bad else ('none',), PRE + ('mixed',)):
                    folder = root/f'{n}'
                    n += 1
                    folder.mkdir()
                    for i, (l, b) in enumerate(files.values()):
                        prepare(folder, l, PRE[i % 3] if pre == 'mixed' else
                            pre, b)
                    before = state(folder)
                    there = {f: (b, '20210203040506') for f, (l, b) in
                        files.items() if not (f == bad and how == 'gone')}
                    fault = {}
                    if how == 'cut':
                        fault = {'RETR': {bad: (4, 'abort')}}
                    elif how == 'date':
                        fault = {'MDTM': {bad: '550 no'}}
                    net.ftp = Ftp(there, fault)
                    net.asked.clear()
                    key = f'gfz:{bad}:{how}:{pre}'
                    rec.case(key)
                    run = lambda: U.from_gfz(folder if n % 2 else str(folder),
                        timeout=5, mode=0o755)
                    if bad is None:
                        with rec.guard(key):
                            run()
                            rec.check({h for h, p in net.asked} ==
                                {'isdcftp.gfz-potsdam.de'}, key + ':host',
                                str(net.asked))
                    else:
                        rec.raises(run, key)
                    after = state(folder)
                    tried = {a for c, a in net.ftp.log if c == 'RETR'}
                    for f, (l, b) in files.items():
                        got = after.get(l)
                        # sessions before the failing one are complete
                        if bad is None:
                            rec.check(got is not None and got[0] == b,
                                f'{key}:{f}:stored', repr(got))
                            if before.get(l, (None,))[0] != b:
                                rec.check(got[1]//10**9 == unix((2021, 2, 3,
                                    4, 5, 6)), f'{key}:{f}:date')
                            else:
                                rec.check(got == before[l],
                                    f'{key}:{f}:not rewritten')
                        elif f == bad:
                            rec.check(got == before.get(l), f'{key}:{f}:kept',
                                repr(got))
                        else:
                            rec.check(got == before.get(l) or got[0] == b,
                                f'{key}:{f}:whole', repr(got))
                    del tried
        elif kind == 'gsfc':
            body = (b'Title\nData span: 05 Jan 1993 - 27 Mar 2021\nProduct:'
                b'\n1.0\n')
            for copy, pre, how in itertools.product((False, True), PRE,
                    ('good', '404', 'cut', 'reset', 'no span')):
                folder = root/f'{n}'
                n += 1
                folder.mkdir()
                b = body.replace(b'Data', b'Some') if how == 'no span' else \
                    body
                prepare(folder, 'gsfc_slr_5x5c61s61.txt', pre, b)
                before = state(folder)
                net.web = lambda q: {'404': Reply(b'', 404), 'cut': Reply(b,
                    cut=20), 'reset': Reply(b, cut=20, end='reset')}.get(how,
                    Reply(b))
                net.requests.clear()
                key = f'gsfc:{copy}:{pre}:{how}'
                rec.case(key)
                run = lambda: U.from_gsfc(folder, timeout=5, copy=copy,
                    mode=0o644)
                if how == 'good' or (how == 'no span' and not copy):
                    with rec.guard(key):
                        run()
                        after = state(folder)
                        want = {'gsfc_slr_5x5c61s61.txt'} | ({
                            'GSFC_SLR_5x5c61s61_199301_202103.txt'} if copy
                            else set())
                        rec.check(set(after) == want, key + ':files',
                            str(list(after)))
                        rec.check(all(a[0] == b for a in after.values()),
                            key + ':stored')
                        a = after['gsfc_slr_5x5c61s61.txt']
                        rec.check(all(x == a for x in after.values()),
                            key + ':copy')
                        if pre == 'same':
                            rec.check(a == before['gsfc_slr_5x5c61s61.txt'],
                                key + ':not rewritten')
                        rec.check([q.target for q in net.requests] ==
                            ['/sites/default/files/geo/slr-weekly/'
                            'gsfc_slr_5x5c61s61.txt'], key + ':request')
                elif how == 'no span':
                    # the series itself is complete
                    rec.raises(run, key)
                    rec.check(list(state(folder)) ==
                        ['gsfc_slr_5x5c61s61.txt'], key + ':files')
                else:
                    attempt(rec, key, run, folder, before)
        else:
            names = ['CSR_RL06_MPIOM_SLF_iter.txt',
                'GFZ_RL05_OMCT_SLF_iter.txt', 'JPL_RL06_MPIOM_SLF_iter.txt']
            other = ['README.txt', 'xCSR_RL06_MPIOM_SLF_iter.txt',
                'CSR_RL06_MPIOM_SLF_iter.txt.old', 'CSR_RL06_MPIOM_SLF.txt']
            for bad in [None] + names:
                for how, pre in itertools.product(('404', 'cut', 'changed',
                        'empty') if bad else ('none', 'index', 'unreadable'),
                        PRE + ('mixed',)):
                    folder = root/f'{n}'
                    n += 1
                    folder.mkdir()
                    body = {x: x.encode()*3 for x in names + other}
                    for i, x in enumerate(names):
                        prepare(folder, 'geocenter/' + x, PRE[i % 3] if pre ==
                            'mixed' else pre, body[x])
                    before = state(folder)
                    index = json.dumps({'files': [{'name': x, 'download_url':
                        f'https://ndownloader.example/files/{i}',
                        'supplied_md5': hashlib.md5(body[x]).hexdigest()}
                        for i, x in enumerate(names + other)]}).encode()

                    def web(q):
                        if q.target == '/v2/articles/7388540':
                            if how == 'index':
                                return Reply(b'', 500)
                            if how == 'unreadable':
                                return Reply(index, cut=30)
                            return Reply(index)
                        x = (names + other)[int(q.target.rpartition('/')[2])]
                        b = body[x]
                        if x == bad:
                            return {'404': Reply(b'', 404), 'cut': Reply(b,
                                cut=5), 'changed': Reply(b[:-1] + b'?'),
                                'empty': Reply(b'')}[how]
                        return Reply(b)
                    net.web = web
                    net.requests.clear()
                    key = f'figshare:{bad}:{how}:{pre}'
                    rec.case(key)
                    run = lambda: U.from_figshare(folder, timeout=5,
                        mode=0o755)
                    if how == 'none':
                        with rec.guard(key):
                            run()
                    else:
                        rec.raises(run, key)
                    after = state(folder)
                    rec.check(set(after) <= {'geocenter/' + x for x in names},
                        key + ':files', str(list(after)))
                    asked = {q.target for q in net.requests}
                    for i, x in enumerate(names):
                        l = 'geocenter/' + x
                        got = after.get(l)
                        if how == 'none' or (f'/files/{i}' in asked and x !=
                                bad):
                            rec.check(got is not None and got[0] == body[x],
                                f'{key}:{x}:stored', repr(got))
                            if got and before.get(l, (None,))[0] == body[x]:
                                rec.check(got == before[l],
                                    f'{key}:{x}:not rewritten')
                        else:
                            rec.check(got == before.get(l), f'{key}:{x}:kept',
                                lambda: repr(got))
    net.close()
    rec.sample({'centre': kind, 'transfers': n})


# --------------------------------------------------------------------- uploads
@CHECK.block('uploads', params=lambda tier: ['figshare'])
def uploads(rec, kind):
    """files sent are the local files"""
    net = Net()
    root = pathlib.Path(rec.mkdir())
    with net.active():
        names = ['a.txt', 'b.bin', 'empty']
        for i, b in enumerate((b'text\r\n', BODIES['long'], b'')):
            (root/names[i]).write_bytes(b)
        before = state(root)
        for k in range(4):
            for sel in itertools.permutations(names, k):
                for exists, chunk, fault in itertools.product((False, True),
                        (7, 8192), (None, 'USER', 'PASS', 'STOR')):
                    net.ftp = Ftp({}, {fault: '530 no'} if fault else {})
                    if exists:
                        net.ftp.dirs.append('data/project')
                    key = f'{sel}:{exists}:{chunk}:{fault}'
                    rec.case(key)
                    Plain.calls = 0
                    run = lambda: U.to_figshare([root/x if k % 2 else
                        str(root/x) for x in sel], username='u', password='p',
                        directory='project', timeout=5, context=Plain(),
                        chunk=chunk)
                    if fault and (fault != 'STOR' or sel):
                        rec.raises(run, key)
                    else:
                        with rec.guard(key):
                            run()
                            rec.check(net.ftp.stored == {f'data/project/{x}':
                                (root/x).read_bytes() for x in sel},
                                key + ':stored', str(list(net.ftp.stored)))
                            cmds = [c for c, _ in net.ftp.log]
                            rec.check('AUTH' in cmds and cmds.index('AUTH') <
                                cmds.index('PASS') and 'PROT' in cmds and
                                Plain.calls == 1 + len(sel),
                                key + ':protected', str(cmds))
                    rec.check(state(root) == before, key + ':kept')
    net.close()
    rec.sample({'files': list(sel)})
