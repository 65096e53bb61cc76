"""P33: path, address, checksum, time and parsing helpers are exact"""
import argparse
import datetime
import fractions
import hashlib
import importlib.util
import io
import itertools
import math
import os
import pathlib
import resource
import shutil
import signal
import subprocess
import sys
import time
import mc
import gravity_toolkit
import gravity_toolkit.utilities as U

CHECK = mc.Check('P33', level='bounded_exhaustive',
    rule='distinct (helper, input, environment or fault position)',
    assumptions=['times without a zone are in UTC',
        'helpers that race for a file are interleaved at source line '
        'granularity, each of the others running as a whole'])


# ------------------------------------------------------------------- checksums
@CHECK.block('checksums', params=lambda tier: [tier])
def checksums(rec, tier):
    """digests of buffers and files"""
    root = pathlib.Path(rec.mkdir())
    bodies = [b'', b'\x00', b'a', b'\r\n', bytes(range(256)),
        b'x'*65536, b'y'*65537, b'\n\n', 'é'.encode()] + [bytes(c) for n in
        (1, 2, 3) for c in itertools.product(b'\x00\n\xff', repeat=n)]
    algorithms = sorted(a for a in hashlib.algorithms_available if
        not a.startswith('shake') and usable(a))
    for (i, b), a in itertools.product(enumerate(bodies), algorithms + [None]):
        kw = {} if a is None else dict(algorithm=a)
        want = hashlib.new(a or 'md5', b).hexdigest()
        p = root/f'{i}.bin'
        p.write_bytes(b)
        os.utime(p, (10**9, 10**9))
        for kind, obj in (('buffer', io.BytesIO(b)), ('path', p), ('string',
                str(p))):
            for at in (0, 1, 'end') if kind == 'buffer' else (0,):
                key = f'{i}:{a}:{kind}:{at}'
                rec.case(key)
                if kind == 'buffer':
                    obj.seek(0, 2) if at == 'end' else obj.seek(at)
                    where = obj.tell()
                with rec.guard(key):
                    rec.check(U.get_hash(obj, **kw) == want, key)
                    if kind == 'buffer':
                        rec.check(obj.tell() == where and obj.getvalue() == b,
                            key + ':buffer kept')
        rec.check(p.read_bytes() == b and p.stat().st_mtime == 10**9,
            f'{i}:{a}:file kept')
    for bad in ('md6', '', 'sha 1'):
        for obj in (io.BytesIO(b'x'), root/'0.bin', str(root/'1.bin')):
            rec.case(f'{bad}:{type(obj)}')
            rec.raises(lambda: U.get_hash(obj, algorithm=bad),
                f'{bad}:{type(obj)}', ValueError)
    for obj in (root/'missing', str(root/'missing'), None):
        rec.case(f'missing {type(obj)}')
        rec.check(U.get_hash(obj) == '', f'missing {type(obj)}')
    home = os.environ.get('HOME')
    os.environ['HOME'] = str(root)
    rec.case('home')
    rec.check(U.get_hash('~/4.bin') == hashlib.md5(bodies[4]).hexdigest(),
        'home')
    if home:
        os.environ['HOME'] = home
    rec.sample({'algorithms': len(algorithms), 'contents': len(bodies)})


def usable(a):
    try:
        hashlib.new(a)
        return True
    except ValueError:
        return False


# ------------------------------------------------------------------- addresses
PARTS = ('a', 'b.txt', 'c d', '..', 'x=1&y', 'GRACE-FO', '%20', 's3:', '~')


@CHECK.block('addresses', params=lambda tier: [(s, tier) for s in ('http',
    'https', 'ftp', 's3', 'HTTP', 'S3', 'Https', '', '/', '//')])
def addresses(rec, arg):
    """every address of up to four parts"""
    scheme, tier = arg
    for n in range(5 if tier == 'thorough' else 4):
        for parts in itertools.product(PARTS, repeat=n):
            for host in ('bucket', 'h.example:8080'):
                tail = parts
                if scheme in ('', '/', '//'):
                    url = scheme + '/'.join((host,) + tail)
                    want = (host,) + tail
                else:
                    url = f'{scheme}://' + '/'.join((host,) + tail)
                    want = (f'{scheme}://{host}',) + tail
                for end in ('', '/'):
                    key = url + end
                    rec.case(key)
                    with rec.guard(key):
                        got = U.url_split(url + end)
                        rec.check(isinstance(got, tuple) and got == want +
                            (('',) if end else ()), key, str(got))
                        if scheme.lower() == 's3' and n and not end:
                            rec.check(U.s3_bucket(url) == host, key +
                                ':bucket', U.s3_bucket(url))
                            rec.check(U.s3_key(url) == '/'.join(tail), key +
                                ':key', U.s3_key(url))
    for x in ('', '/', '//', '///'):
        rec.case('empty ' + x)
        with rec.guard('empty ' + x):
            rec.check(U.url_split(x) == ('',), 'empty ' + x)
    rec.sample({'scheme': scheme})


@CHECK.block('data paths', params=lambda tier: [tier])
def data_paths(rec, tier):
    """paths within the package"""
    home = pathlib.Path(gravity_toolkit.__file__).absolute().parent
    here = os.getcwd()
    for n in range(4):
        for parts in itertools.product(('data', 'love_numbers', 'x.txt',
                '..'), repeat=n):
            for kind, p in (('list', list(parts)), ('str', '/'.join(parts)),
                    ('path', pathlib.Path(*parts))):
                for cwd in (here, '/tmp'):
                    key = f'{parts}:{kind}:{cwd}'
                    rec.case(key)
                    os.chdir(cwd)
                    with rec.guard(key):
                        got = U.get_data_path(p)
                        rec.check(isinstance(got, pathlib.Path) and got ==
                            home.joinpath(*parts) and got.is_absolute(), key,
                            str(got))
    os.chdir(here)
    for f in home.joinpath('data').iterdir():
        rec.check(U.get_data_path(['data', f.name]).exists(), f.name)
        rec.check(U.get_data_path('data/' + f.name) == f, f.name)
    rec.sample({'package': str(home.name)})


# ---------------------------------------------------------------- option files
TOKENS = ('--release', 'RL06', '-V', '3', 'a=b', '', '  ', '\t', '#', '# x',
    '#--no', '--x=#y', '#a#b')


@CHECK.block('options', params=lambda tier: [tier])
def options(rec, tier):
    """option files with comments"""
    root = pathlib.Path(rec.mkdir())
    lines = []
    for n in range(5 if tier == 'thorough' else 4):
        for t in itertools.product(TOKENS, repeat=n):
            line = ' '.join(t)
            key = repr(line)
            rec.case(key)
            want = line.partition('#')[0].split()
            for end in ('', '\n'):
                with rec.guard(key + repr(end)):
                    got = list(U.convert_arg_line_to_args(line + end))
                    rec.check(got == want, key + repr(end), str(got))
            if n == 3:
                lines.append((line, want))
    # as option files of the programs
    for k in range(0, len(lines), 25):
        sel = lines[k:k + 25]
        (root/'options').write_text('\n'.join(l for l, w in sel) + '\n')
        p = argparse.ArgumentParser(fromfile_prefix_chars='@')
        p.convert_arg_line_to_args = U.convert_arg_line_to_args
        p.add_argument('--first')
        args, rest = p.parse_known_args(['--first', 'x', '--',
            f'@{root}/options'])
        want = [a for l, w in sel for a in w]
        rec.case(f'file {k}')
        rec.check([a for a in rest if a != '--'] == want, f'file {k}',
            lambda: str(rest[:20]))
    rec.sample({'lines': len(lines)})


# ----------------------------------------------------------------------- times
WHEN = [(1970, 1, 1, 0, 0, 0), (1969, 12, 31, 23, 59, 59), (2000, 2, 29, 12,
    30, 15), (2002, 3, 17, 1, 59, 59), (2004, 10, 31, 1, 30, 0), (2004, 4, 4,
    2, 30, 0), (2015, 6, 30, 23, 59, 59), (2019, 12, 31, 0, 0, 1), (2038, 1,
    19, 3, 14, 8), (2020, 7, 1, 18, 0, 0)]
EPOCH = datetime.datetime(1970, 1, 1)
FORMATS = ('%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%Y%m%d%H%M%S',
    '%d-%b-%Y %H:%M', '%Y-%m-%d %H:%M', '%a, %d %b %Y %H:%M:%S %Z', '%Y/%m/%d',
    '%m/%d/%Y %H:%M', '%b %d %Y %H:%M', '%Y-%j')
ZONED = ('%Y-%m-%dT%H:%M:%S%z', '%Y-%m-%dT%H:%M:%S.%f%z',
    '%d %b %Y %H:%M:%S %z')
OFFSETS = (0, 60, -60, 330, -210, 765, -720)
LOOSE = ('%Y-%m-%dT%H:%M:%S', '%d %B %Y %H:%M:%S', '%B %d, %Y %I:%M:%S %p',
    '%Y-%m-%d', '%a %b %d %H:%M:%S %Y', '%Y%m%dT%H%M%S')


@CHECK.block('times', params=lambda tier: ['UTC', 'America/Los_Angeles',
    'Asia/Kolkata', 'Pacific/Chatham'])
def times(rec, zone):
    """time strings in every local zone"""
    os.environ['TZ'] = zone
    time.tzset()
    for w in WHEN:
        d = datetime.datetime(*w)
        for f in FORMATS:
            s = d.strftime(f.replace('%Z', 'GMT'))
            want = (datetime.datetime.strptime(s, f.replace('%Z', 'GMT')) -
                EPOCH).total_seconds()
            for end in ('', ' ', '\r\n'):
                key = f'{zone}:{s!r}:{f}:{end!r}'
                rec.case(key)
                with rec.guard(key):
                    got = U.get_unix_time(s + end, format=f)
                    rec.check(got == want, key, f'{got} {want}')
                    if f == FORMATS[0]:
                        rec.check(U.get_unix_time(s + end) == want, key +
                            ':default')
        for f, off in itertools.product(ZONED, OFFSETS):
            s = d.replace(tzinfo=datetime.timezone(datetime.timedelta(
                minutes=off))).strftime(f)
            want = (d - EPOCH).total_seconds() - 60*off
            for how, kw in (('format', dict(format=f)), ('other format', {})):
                key = f'{zone}:{s}:{how}'
                rec.case(key)
                with rec.guard(key):
                    got = U.get_unix_time(s, **kw)
                    rec.check(got == want, key, f'{got} {want}')
        # strings that are not in the expected format
        for f in LOOSE:
            s = d.strftime(f)
            want = (datetime.datetime.strptime(s, f) - EPOCH).total_seconds()
            for how in ({}, dict(format='%d.%m.%y')):
                key = f'{zone}:{s}:loose:{how}'
                rec.case(key)
                with rec.guard(key):
                    got = U.get_unix_time(s, **how)
                    rec.check(got == want, key, f'{got} {want}')
            key = f'{zone}:{s}:iso'
            rec.case(key)
            with rec.guard(key):
                got = U.isoformat(s + ' ')
                rec.check(datetime.datetime.fromisoformat(got) ==
                    datetime.datetime.strptime(s, f) and 'T' in got, key, got)
        for off in OFFSETS:
            z = d.replace(tzinfo=datetime.timezone(datetime.timedelta(
                minutes=off)))
            key = f'{zone}:{z}:iso'
            rec.case(key)
            with rec.guard(key):
                rec.check(datetime.datetime.fromisoformat(U.isoformat(
                    z.isoformat())) == z, key)
    for bad in ('no date', 'x', '2020-13-45', '99:99', '20200229123456.5',
            '9'*30):
        rec.case(f'{zone}:{bad}')
        with rec.guard(f'{zone}:{bad}'):
            rec.check(U.get_unix_time(bad) is None, f'{zone}:{bad}')
            rec.check(U.isoformat(bad) is None, f'{zone}:{bad}:iso')
    rec.sample({'zone': zone, 'times': len(WHEN)})


# -------------------------------------------------------------------- rounding
@CHECK.block('rounding', params=lambda tier: [tier])
def rounding(rec, tier):
    """every multiple of an eighth, its neighbours and large values"""
    n = 2000 if tier == 'thorough' else 400
    values = [k/8 for k in range(-n, n + 1)]
    values += [math.nextafter(v, s*math.inf) for v in range(-50, 51) for s in
        (-1, 1)]
    values += [s*2.0**k for k in range(40, 300, 20) for s in (-1, 1)]
    values += list(range(-n, n)) + [s*(2**60 + k) for k in range(4) for s in
        (-1, 1)] + [1556323199 + k for k in range(4)]
    for v in values:
        f = fractions.Fraction(v)
        rec.case(repr(v))
        with rec.guard(repr(v)):
            e, c = U.even(v), U.ceil(v)
            rec.check(e == 2*math.floor(f/2) and isinstance(e, int),
                f'even {v!r}', repr(e))
            rec.check(c == math.ceil(f) and isinstance(c, int),
                f'ceil {v!r}', repr(c))
    rec.sample({'values': len(values)})


# --------------------------------------------------------------- local copies
def lines_of(fn, files):
    """run fn and count the source lines it passes in some files"""
    count = [0]

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename in files else None
    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(None)
    return count[0]


def at_line(fn, files, k, action):
    """run fn with an action just before the k-th source line"""
    count = [0]

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] == k + 1:
                sys.settrace(None)
                try:
                    action()
                finally:
                    sys.settrace(glob)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename in files else None
    sys.settrace(glob)
    try:
        return fn()
    finally:
        sys.settrace(None)


class Killed(BaseException):
    pass


def kill():
    raise Killed


@CHECK.block('copies', params=lambda tier: [tier])
def copies(rec, tier):
    """copying and moving, interrupted at every line or out of space"""
    root = pathlib.Path(rec.mkdir())
    src, dst = root/'a.txt', root/'b.txt'
    files = (U.__file__, shutil.__file__)

    def prepare(body, mode, pre):
        for p in (src, dst):
            if p.exists():
                p.unlink()
        src.write_bytes(body)
        src.chmod(mode)
        os.utime(src, ns=(10**18 + 5, 10**18 + 123456789))
        if pre:
            dst.write_bytes(b'earlier and longer content')
    for body, mode, pre, move, kind in itertools.product((b'', b'text\r\n\x00',
            b'z'*100000), (0o644, 0o600, 0o755, 0o400), (False, True),
            (None, False, True), (str, pathlib.Path)):
        kw = {} if move is None else dict(move=move)
        key = f'{len(body)}:{mode:o}:{pre}:{move}:{kind.__name__}'
        rec.case(key)
        prepare(body, mode, pre)
        with rec.guard(key):
            U.copy(kind(src), kind(dst), **kw)
            s = dst.stat()
            rec.check(dst.read_bytes() == body, key + ':content')
            rec.check(s.st_mtime_ns == 10**18 + 123456789, key + ':date')
            rec.check(s.st_mode & 0o777 == mode, key + ':mode')
            rec.check(src.exists() == (not move), key + ':source')
            if not move:
                rec.check(src.read_bytes() == body, key + ':source kept')
        # an interruption never loses the content
        prepare(body, mode, pre)
        n = lines_of(lambda: U.copy(kind(src), kind(dst), **kw), files)
        for k in range(n) if tier == 'thorough' or kind is str and mode in (
                0o644, 0o400) else range(0, n, 7):
            prepare(body, mode, pre)
            rec.case(f'{key}:{k}')
            try:
                at_line(lambda: U.copy(kind(src), kind(dst), **kw), files, k,
                    kill)
            except Killed:
                pass
            if src.exists():
                rec.check(src.read_bytes() == body, f'{key}:{k}:source kept')
            else:
                rec.check(bool(move) and dst.exists() and dst.read_bytes() ==
                    body and dst.stat().st_mtime_ns == 10**18 + 123456789,
                    f'{key}:{k}:moved')
        # a full disk never loses the content
        for room in (0, 3, len(body) - 1):
            if not 0 <= room < len(body):
                continue
            prepare(body, mode, False)
            rec.case(f'{key}:room {room}')
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
                code = 0
                try:
                    U.copy(kind(src), kind(dst), **kw)
                except OSError:
                    code = 1
                except BaseException:
                    code = 2
                os._exit(code)
            code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            rec.check(code == 1, f'{key}:room {room}:reported', str(code))
            rec.check(src.exists() and src.read_bytes() == body,
                f'{key}:room {room}:source kept')
    for move in (False, True):
        prepare(b'content', 0o644, False)
        for what, run in (('itself', lambda: U.copy(src, src, move=move)),
                ('missing', lambda: U.copy(root/'none', dst, move=move)),
                ('no folder', lambda: U.copy(src, root/'no'/'b', move=move))):
            rec.case(f'{what}:{move}')
            rec.raises(run, f'{what}:{move}')
            rec.check(src.read_bytes() == b'content' and not dst.exists(),
                f'{what}:{move}:kept')
    rec.sample({'lines of a copy': n})


# ---------------------------------------------------------------- unique files
def unique_name(folder, name, k):
    p = folder/name
    return p if k == 0 else p.with_name(f'{p.stem}_{k}{p.suffix}')


@CHECK.block('unique files', params=lambda tier: [(n, tier) for n in ('a.log',
    'a', 'b.tar.gz', 'a_1.log', '.hidden')])
def unique(rec, arg):
    """several writers, each getting a file of its own"""
    name, tier = arg
    root = pathlib.Path(rec.mkdir())
    n = 0

    def folder():
        nonlocal n
        n += 1
        d = root/str(n)
        d.mkdir()
        return d

    def take(d, kind, got, label):
        fd = U.create_unique_file(kind(d/name))
        fd.write(label if 'b' in fd.mode else label.decode('ascii'))
        fd.flush()
        got.append((fd, label))

    def finish(key, d, got, before):
        names = [os.path.realpath(fd.name) for fd, _ in got]
        rec.check(len(set(names)) == len(names), key + ':distinct', str(names))
        for fd, label in got:
            fd.close()
        for p, (fd, label) in zip(names, got):
            rec.check(pathlib.Path(p).read_bytes() == label, key + ':content',
                p)
        for p, b in before.items():
            rec.check(p.read_bytes() == b, key + ':earlier file kept', str(p))
        want = {str(unique_name(d, name, k)) for k in range(len(before) +
            len(got) + 8)}
        rec.check({os.path.join(os.path.realpath(os.path.dirname(x)),
            os.path.basename(x)) for x in names} <= {os.path.join(
            os.path.realpath(os.path.dirname(x)), os.path.basename(x)) for x in
            want}, key + ':names', str(names))
    # sequences with files of any kind there before
    for exist in itertools.product((None, 'file', 'folder', 'link',
            'dangling'), repeat=3):
        for calls, kind in itertools.product((1, 2, 3), (str, pathlib.Path)):
            key = f'{name}:{exist}:{calls}:{kind.__name__}'
            rec.case(key)
            d = folder()
            before = {}
            (d/'target').write_bytes(b'target')
            for k, e in enumerate(exist):
                p = unique_name(d, name, k)
                if e == 'file':
                    p.write_bytes(b'earlier')
                    before[p] = b'earlier'
                elif e == 'folder':
                    p.mkdir()
                elif e == 'link':
                    p.symlink_to(d/'target')
                elif e == 'dangling':
                    p.symlink_to(d/'nowhere')
            before[d/'target'] = b'target'
            got = []
            with rec.guard(key):
                for c in range(calls):
                    take(d, kind, got, b'%d' % c)
                finish(key, d, got, before)
                # the first free names are used
                free = [k for k in range(8) if k > 2 or exist[k] is None][
                    :calls]
                rec.check([pathlib.Path(fd.name).name for fd, _ in got] ==
                    [unique_name(d, name, k).name for k in free], key +
                    ':free names', str([fd.name for fd, _ in got]))
            rec.check(not (d/'nowhere').exists(), key + ':followed a link')
    # another writer at every line, itself interrupted by a third
    files = (U.__file__,)
    for exist in range(3):
        def fresh():
            d = folder()
            before = {}
            for k in range(exist):
                p = unique_name(d, name, k)
                p.write_bytes(b'earlier')
                before[p] = b'earlier'
            return d, before
        d, before = fresh()
        got = []
        steps = lines_of(lambda: take(d, pathlib.Path, got, b'A'), files)
        finish('alone', d, got, before)
        for i in range(steps):
            for j in [None] + list(range(steps + 8)):
                key = f'{name}:{exist}:{i}:{j}'
                rec.case(key)
                d, before = fresh()
                got = []

                def third():
                    take(d, pathlib.Path, got, b'C')

                def second():
                    if j is None:
                        take(d, pathlib.Path, got, b'B')
                    else:
                        at_line(lambda: take(d, pathlib.Path, got, b'B'),
                            files, j, third)
                with rec.guard(key):
                    at_line(lambda: take(d, pathlib.Path, got, b'A'), files,
                        i, second)
                    finish(key, d, got, before)
    # folders that cannot be written are reported
    rec.case('no folder')
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(
        TimeoutError('no answer')))
    for p in (root/'missing'/name, root/'1'/'target'/name):
        signal.setitimer(signal.ITIMER_REAL, 2)
        try:
            U.create_unique_file(p)
        except TimeoutError as exc:
            rec.fail(f'no folder:{p.parent.name}', str(exc))
        except OSError:
            pass
        else:
            rec.fail(f'no folder:{p.parent.name}', 'accepted')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    rec.sample({'name': name, 'lines': steps})


# ------------------------------------------------------------------ repository
@CHECK.block('repository', params=lambda tier: [tier])
def repository(rec, tier):
    """state of the repository the package is in"""
    root = pathlib.Path(rec.mkdir())
    env = dict(os.environ, GIT_CONFIG_GLOBAL='/dev/null',
        GIT_CONFIG_SYSTEM='/dev/null', GIT_AUTHOR_NAME='a',
        GIT_AUTHOR_EMAIL='a@b', GIT_COMMITTER_NAME='a',
        GIT_COMMITTER_EMAIL='a@b')

    def git(*args):
        return subprocess.run(['git', '-C', str(root/'repo'), *args], env=env,
            check=True, capture_output=True, text=True).stdout.strip()
    (root/'repo'/'package').mkdir(parents=True)
    (root/'empty').mkdir()
    shutil.copy(U.__file__, root/'repo'/'package'/'utilities.py')
    (root/'repo'/'other.txt').write_text('one\n')
    (root/'repo'/'.gitignore').write_text('*.log\n__pycache__\n')
    git('init', '-q', '-b', 'main')
    git('add', '-A')
    git('commit', '-qm', 'first')
    spec = importlib.util.spec_from_file_location('scratch_utilities',
        root/'repo'/'package'/'utilities.py')
    V = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(V)
    here = os.getcwd()
    r = root/'repo'
    steps = [('clean', lambda: None, False), ('changed', lambda:
        (r/'other.txt').write_text('two\n'), True), ('staged', lambda:
        git('add', '-A'), True), ('committed', lambda: git('commit', '-qm',
        'second'), False), ('untracked', lambda: (r/'new').write_text('x'),
        True), ('removed', lambda: (r/'new').unlink(), False), ('ignored',
        lambda: (r/'x.log').write_text('x'), False), ('deleted', lambda:
        (r/'other.txt').unlink(), True), ('restored', lambda: git('checkout',
        '--', 'other.txt'), False), ('branch', lambda: git('checkout', '-qb',
        'side'), False), ('side commit', lambda: git('commit', '-qm', 'third',
        '--allow-empty'), False), ('tagged', lambda: git('tag', 'v1'), False),
        ('back', lambda: git('checkout', '-q', 'main'), False), ('detached',
        lambda: git('checkout', '-q', '--detach', 'side'), False)]
    for what, act, dirty in steps:
        act()
        for cwd in (r, r/'package', root/'empty', here):
            os.chdir(cwd)
            key = f'{what}:{cwd.name if cwd != here else "here"}'
            rec.case(key)
            with rec.guard(key):
                rec.check(V.get_git_status() is dirty, key + ':status')
                for ref in ('HEAD', 'main', None, 'v1'):
                    if ref == 'v1' and 'v1' not in git('tag'):
                        continue
                    kw = {} if ref is None else dict(refname=ref)
                    rec.check(V.get_git_revision_hash(**kw) == git(
                        'rev-parse', ref or 'HEAD'), f'{key}:{ref}')
                    rec.check(V.get_git_revision_hash(short=True, **kw) == git(
                        'rev-parse', '--short', ref or 'HEAD'),
                        f'{key}:{ref}:short')
        rec.raises(lambda: V.get_git_revision_hash('none'), what + ':unknown')
        os.chdir(here)
    rec.sample({'history': [w for w, a, d in steps]})


# --------------------------------------------------------------- dependencies
@CHECK.block('dependencies', params=lambda tier: [tier])
def dependencies(rec, tier):
    """optional modules and values computed once"""
    for name in ('os', 'os.path', 'json', 'numpy'):
        for strict in (False, True):
            rec.case(f'{name}:{strict}')
            with rec.guard(f'{name}:{strict}'):
                m = U.import_dependency(name, raise_exception=strict)
                rec.check(m is sys.modules[name], f'{name}:{strict}')
    # a module that is present but cannot be loaded is missing as well
    folder = rec.mkdir()
    sys.path.insert(0, str(folder))
    with open(os.path.join(folder, 'vmc_broken.py'), 'w') as f:
        f.write('raise ImportError("libnetcdf.so")')
    with open(os.path.join(folder, 'vmc_needs.py'), 'w') as f:
        f.write('from os import no_such_name')
    for name in ('no_such_module', 'os.no_such', 'json.none.x', 'vmc_broken',
            'vmc_needs'):
        rec.case(name)
        with rec.guard(name):
            m = U.import_dependency(name)
            rec.check(not hasattr(m, 'path') and m is not None, name)
            other = U.import_dependency(name)
            m.flag = 1
            rec.check(not hasattr(other, 'flag'), name + ':shared')
        rec.raises(lambda: U.import_dependency(name, extra='install it',
            raise_exception=True), name + ':strict', ImportError)
        try:
            U.import_dependency(name, extra='install it',
                raise_exception=True)
        except ImportError as exc:
            rec.check(name in str(exc) and 'install it' in str(exc), name +
                ':message', str(exc))
    sys.path.remove(str(folder))
    for bad in (None, 3, b'os'):
        rec.case(repr(bad))
        rec.raises(lambda: U.import_dependency(bad), repr(bad))
    # values are computed at most once for each instance
    for order in itertools.product((0, 1), repeat=4):
        calls = []

        class A:
            def __init__(self, k):
                self.k = k

            @U.reify
            def value(self):
                """documented"""
                calls.append(self.k)
                return ['value', self.k]
        objs = [A(0), A(1)]
        rec.case(str(order))
        seen = {}
        for i in order:
            v = objs[i].value
            rec.check(v == ['value', i], f'{order}:value')
            rec.check(seen.setdefault(i, v) is v, f'{order}:same')
        rec.check(sorted(calls) == sorted(set(order)), f'{order}:calls',
            str(calls))
        rec.check(A.value.__doc__ == 'documented' and A.value.__name__ ==
            'value', f'{order}:class')
    rec.sample({'modules': 7})
