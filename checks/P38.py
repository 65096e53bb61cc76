"""P38: logins use the right credentials at the right host"""
import base64
import builtins
import getpass
import http.client
import itertools
import json
import os
import pathlib
import mc
from net import Net, Reply
import gravity_toolkit.utilities as U

CHECK = mc.Check('P38', level='fault_enumeration',
    rule='distinct (credential source, answers at prompts, options, server '
    'behaviour) logins',
    assumptions=['hosts are replaced by a server on the loopback interface, '
        'encrypted connections are taken in the clear',
        'credentials of a netrc file come before those given otherwise',
        'with a basic authorization header set the header goes to every host '
        'the opener is used for'])

URS = 'urs.earthdata.nasa.gov'
GOOD = ('good', 'pa:ss wörd')
CHECK_HOST = 'archive.podaac.earthdata.nasa.gov'


def basic(q):
    """credentials of a request"""
    h = q.headers.get('authorization')
    if h is None or not h.startswith('Basic '):
        return None
    u, _, p = base64.b64decode(h[6:]).decode().partition(':')
    return (u, p)


NETRC = {'absent': None,
    'host': f'machine {URS}\n login good\n password "pa:ss wörd"\n',
    'wrong': f'machine {URS} login bad password worse\n',
    'default': 'default login good password "pa:ss wörd"\n',
    'other': 'machine other.example login o password p\n',
    'several': f'machine other.example login o password p\nmachine {URS} '
    'login good password "pa:ss wörd"\ndefault login d password e\n',
    'broken': 'machine\n  login\n'}
FROM_NETRC = {'host': GOOD, 'wrong': ('bad', 'worse'), 'default': GOOD,
    'several': GOOD}


class Prompts:
    """answers of the user, recording what was asked"""
    def __init__(self, answers):
        self.answers, self.asked = list(answers), []

    def __enter__(self):
        self.old = builtins.input, getpass.getpass
        builtins.input = self.user
        getpass.getpass = self.word
        return self

    def __exit__(self, *args):
        builtins.input, getpass.getpass = self.old

    def user(self, prompt=''):
        self.asked.append(('user', prompt))
        return self.answers[len([a for a in self.asked if a[0] == 'user']) -
            1][0]

    def word(self, prompt='', **kw):
        self.asked.append(('word', prompt))
        return self.answers[len([a for a in self.asked if a[0] == 'word']) -
            1][1]


def environment(root, kind, env):
    """home directory and variables"""
    os.environ['HOME'] = str(root)
    for k in ('EARTHDATA_USERNAME', 'EARTHDATA_PASSWORD', 'NETRC'):
        os.environ.pop(k, None)
    for k, v in zip(('EARTHDATA_USERNAME', 'EARTHDATA_PASSWORD'), env):
        if v is not None:
            os.environ[k] = v
    p = root/'.netrc'
    if p.exists():
        p.unlink()
    if NETRC[kind] is not None:
        p.write_text(NETRC[kind])
        p.chmod(0o644)
    return p


ENV = [(None, None), GOOD, ('good', None), (None, GOOD[1]), ('bad', 'x')]
ARGS = [(None, None), GOOD, ('good', None), ('bad', 'x'), (None, GOOD[1])]
ANSWERS = [[GOOD]*9, [('bad', 'x')]*9, [('bad', 'x'), GOOD] + [GOOD]*9,
    [('u1', 'p1'), ('u2', 'p2'), GOOD] + [('u9', 'p9')]*9]


@CHECK.block('login', params=lambda tier: [(n, tier) for n in NETRC],
    timeout=800)
def login(rec, arg):
    """every source of credentials and every sequence of answers"""
    kind, tier = arg
    net = Net()
    root = pathlib.Path(rec.mkdir())
    elsewhere = root/'elsewhere'
    elsewhere.mkdir()
    with net.active():
        for env, args, answers, retries, place in itertools.product(ENV, ARGS,
                ANSWERS, (None, 0, 1, 2, 3), ('home', 'given')):
            p = environment(root, kind, env)
            kw = {}
            if place == 'given':
                # the file of the home directory is not used
                other = elsewhere/'netrc'
                if other.exists():
                    other.unlink()
                if NETRC[kind] is not None:
                    other.write_text(NETRC[kind])
                    p.write_text(f'machine {URS} login home password home\n')
                kw['netrc'] = other if retries else str(other)
                p = other
            if retries is not None:
                kw['retries'] = retries
            for name, v in zip(('username', 'password'), args):
                if v is not None:
                    kw[name] = v
            first = FROM_NETRC.get(kind)
            asked = []
            a = list(answers)
            nu = nw = 0
            if first is None:
                user = args[0] or env[0]
                word = args[1] or env[1]
                if not user:
                    user = a[nu][0]
                    nu += 1
                    asked.append(('user', None))
                if not word:
                    word = a[nw][1]
                    nw += 1
                    asked.append(('word', user))
                first = (user, word)
            tried = []
            now = first
            done = False
            for k in range(5 if retries is None else retries):
                tried.append(now)
                if now == GOOD:
                    done = True
                    break
                now = (a[nu][0], a[nw][1])
                nu, nw = nu + 1, nw + 1
                asked += [('user', None), ('word', now[0])]
            seen = []

            def web(q):
                seen.append((q.host, q.method, basic(q)))
                if basic(q) == GOOD:
                    return Reply(b'{}')
                return Reply(b'', 401)
            net.web = web
            key = f'{kind}:{place}:{env}:{args}:{ANSWERS.index(answers)}:' \
                f'{retries}'
            rec.case(key)
            run = lambda: U.attempt_login(URS, password_manager=False, **kw)
            with Prompts(answers) as prompts:
                if done:
                    with rec.guard(key):
                        opener = run()
                        rec.check(hasattr(opener, 'open'), key + ':opener')
                        seen.clear()
                        # the opener goes on with these credentials
                        opener.open('https://data.example/x')
                        U.urllib2.urlopen('https://data.example/y')
                        rec.check(seen == [('data.example', 'GET', GOOD)]*2,
                            key + ':opener used', str(seen))
                        continue_seen = None
                else:
                    rec.raises(run, key, RuntimeError)
                    rec.check(seen == [(CHECK_HOST, 'GET', t) for t in tried],
                        key + ':tried', str(seen))
            got = [(k, s) for k, s in prompts.asked]
            # prompts after the last try are not told apart
            n = len(asked)
            rec.check(len(got) <= n and (len(got) == n or not done and
                len(got) >= n - 2) and all(g[0] == w[0] and URS in g[1] and
                (w[1] is None or f'{w[1]}@{URS}' in g[1]) for g, w in zip(got,
                asked)), key + ':prompts', f'{got} {asked}')
            if NETRC[kind] is not None:
                rec.check(p.read_text() == NETRC[kind], key + ':netrc kept')
    net.close()
    rec.sample({'netrc': kind, 'answers': len(ANSWERS)})


@CHECK.block('tries', params=lambda tier: [tier])
def tries(rec, tier):
    """failures of the server during the check of credentials"""
    net = Net()
    root = pathlib.Path(rec.mkdir())
    environment(root, 'absent', (None, None))
    kinds = {'ok': lambda: Reply(b'{}'), '401': lambda: Reply(b'', 401),
        '403': lambda: Reply(b'', 403), '500': lambda: Reply(b'', 500),
        'drop': lambda: Reply(raw=b'')}
    with net.active():
        for n in range(1, 4):
            for seq in itertools.product(kinds, repeat=n):
                key = ','.join(seq)
                rec.case(key)
                seen = []

                def web(q):
                    seen.append(basic(q))
                    return kinds[seq[len(seen) - 1]]()
                net.web = web
                answers = [(f'u{k}', f'p{k}') for k in range(n + 2)]
                run = lambda: U.attempt_login(URS, retries=n, username='u',
                    password='p')
                want = [('u', 'p')] + answers
                with Prompts(answers):
                    if 'ok' in seq:
                        with rec.guard(key):
                            run()
                        k = seq.index('ok') + 1
                    else:
                        rec.raises(run, key, RuntimeError)
                        k = n
                rec.check(seen == want[:k], key + ':tried', str(seen))
        # the check alone
        for s in (200, 400, 401, 403, 404, 500, 503):
            for host in (None, 'https://x.example/s3credentials'):
                net.web = lambda q: Reply(b'{}', s)
                net.requests.clear()
                kw = {} if host is None else dict(HOST=host)
                key = f'check:{s}:{host}'
                rec.case(key)
                if s < 400:
                    with rec.guard(key):
                        rec.check(U.check_credentials(**kw) is True, key)
                else:
                    rec.raises(lambda: U.check_credentials(**kw), key,
                        RuntimeError)
                rec.check([(q.host, q.target) for q in net.requests] == [(
                    'x.example' if host else CHECK_HOST, '/s3credentials')],
                    key + ':request')
        for exc in (ConnectionRefusedError(111, 'no'), OSError(101, 'no')):
            net.refuse = exc
            rec.case(str(exc))
            rec.raises(U.check_credentials, str(exc), RuntimeError)
        net.refuse = None
    net.close()
    rec.sample({'sequences': 'up to three tries'})


@CHECK.block('session', params=lambda tier: [tier])
def session(rec, tier):
    """login at one host on the way to the data of others"""
    net = Net()
    root = pathlib.Path(rec.mkdir())
    environment(root, 'absent', (None, None))
    with net.active():
        for manager, header, redirect, get_certs, realm, files, login in \
                itertools.product((False, True), (False, True), (False, True),
                (False, True), ('Please enter your credentials', 'other'),
                (1, 3), (URS, 'login.example')):
            seen = []
            visits = {}

            def web(q):
                seen.append((q.host, q.target, basic(q), q.headers.get(
                    'cookie')))
                if q.host == login:
                    # the login page knows only basic authorization
                    if basic(q) != GOOD:
                        return Reply(b'', 401, [('WWW-Authenticate',
                            f'Basic realm="{realm}"')])
                    back = q.target.partition('to=')[2]
                    return Reply(b'', 302, [('Location', f'https://{back}'),
                        ('Set-Cookie', 'urs=1; Path=/')])
                if q.host == 'other.example':
                    return Reply(b'', 401, [('WWW-Authenticate',
                        f'Basic realm="{realm}"')])
                if 'session' not in (q.headers.get('cookie') or ''):
                    return Reply(b'', 302, [('Location', f'https://{login}/'
                        f'oauth?to={q.host}{q.target}'), ('Set-Cookie',
                        f'session={q.host}; Path=/')])
                return Reply(q.target.encode())
            net.web = web
            key = f'{manager}:{header}:{redirect}:{get_certs}:{realm}:{files}:{login}'
            rec.case(key)
            with rec.guard(key):
                opener = U.build_opener(*GOOD, password_manager=manager,
                    authorization_header=header, redirect=redirect,
                    get_ca_certs=get_certs, urs=login)
                for k in range(files):
                    try:
                        got = U.urllib2.urlopen(f'https://data.example/f{k}')
                        got = got.read()
                    except U.urllib2.HTTPError as exc:
                        got = exc.code
                    want = f'/f{k}'.encode() if manager or header or k else 401
                    if not (manager or header) and k:
                        want = got
                    rec.check(got == want, f'{key}:{k}', f'{got} {want}')
                try:
                    opener.open('https://other.example/x')
                    rec.fail(key + ':other', 'no refusal')
                except U.urllib2.HTTPError:
                    pass
                for host, target, auth, cookie in seen:
                    if host != login and not header:
                        rec.check(auth is None, key + ':credentials elsewhere',
                            f'{host} {auth}')
                    if header:
                        rec.check(auth == GOOD, key + ':header', host)
                    if host == 'other.example':
                        rec.check(not cookie, key + ':cookie elsewhere',
                            str(cookie))
                    elif cookie:
                        rec.check(('session=data.example' in cookie) == (host
                            == 'data.example') and ('urs=1' in cookie) == (host
                            == login), key + ':cookies', f'{host} {cookie}')
                if manager or header:
                    # later files need no further login
                    rec.check(len([s for s in seen if s[0] == login]) <= 2,
                        key + ':logins', str(len(seen)))
    net.close()
    rec.sample({'hosts': 3})


@CHECK.block('managed', params=lambda tier: [tier])
def managed(rec, tier):
    """logins whose password is given only to the host that asks for it"""
    net = Net()
    root = pathlib.Path(rec.mkdir())
    with net.active():
        for login, header, redirect, source, asked in itertools.product((URS,
                'login.example', 'urs.other.example'), (False, True),
                (False, True), ('arguments', 'netrc', 'prompts'), (URS,
                'login.example', 'urs.other.example')):
            environment(root, 'absent', (None, None))
            key = f'{login}:{header}:{redirect}:{source}:{asked}'
            rec.case(key)
            seen = []
            nc = root/'netrc'
            nc.write_text(f'machine {login} login {GOOD[0]} password '
                f'{GOOD[1]}\n' if source == 'netrc' else '')

            def web(q):
                seen.append((q.host, basic(q)))
                if q.host == asked:
                    if basic(q) != GOOD:
                        return Reply(b'', 401, [('WWW-Authenticate',
                            'Basic realm="x"')])
                    return Reply(b'', 302, [('Location', 'https://' +
                        q.target.partition('to=')[2]), ('Set-Cookie',
                        'urs=1; Path=/')])
                if 'session' not in (q.headers.get('cookie') or ''):
                    return Reply(b'', 302, [('Location', f'https://{asked}/'
                        f'oauth?to={q.host}{q.target}'), ('Set-Cookie',
                        f'session={q.host}; Path=/')])
                return Reply(b'{}')
            net.web = web
            kw = dict(username=GOOD[0], password=GOOD[1]) if source == \
                'arguments' else {}
            run = lambda: U.attempt_login(login, password_manager=True,
                authorization_header=header, redirect=redirect, netrc=nc,
                retries=2, **kw)
            with Prompts([GOOD]*4):
                if header or asked == login:
                    with rec.guard(key):
                        opener = run()
                        got = opener.open('https://data.example/f').read()
                        rec.eq(got, b'{}', key)
                else:
                    rec.raises(run, key, RuntimeError)
            for host, auth in seen:
                if host != login and not header:
                    rec.check(auth is None, key + ':credentials elsewhere',
                        f'{host} {auth}')
    net.close()
    rec.sample({'hosts': 3})


@CHECK.block('tokens', params=lambda tier: [tier])
def tokens(rec, tier):
    """tokens and temporary keys"""
    net = Net()
    root = pathlib.Path(rec.mkdir())
    fns = {'get': (lambda **k: U.get_token(**k), 'POST', '/api/users/token'),
        'list': (lambda **k: U.list_tokens(**k), 'GET', '/api/users/tokens'),
        'revoke': (lambda **k: U.revoke_token('eyJ0eX.Ab-_12', **k), 'POST',
        '/api/users/revoke_token?token=eyJ0eX.Ab-_12')}
    body = json.dumps({'access_token': 'tok', 'token_type': 'Bearer'}).encode()
    with net.active():
        for (name, (fn, method, target)), kind, env, args, build, status, host \
                in itertools.product(fns.items(), ('absent', 'host'),
                ENV[:2], (GOOD, (None, None)), (True, False), (200, 401, 403,
                500, 'drop', 'cut', 'text'), (None, 'https://x.example/api')):
            environment(root, kind, env)
            known = kind == 'host' or args == GOOD
            key = f'{name}:{kind}:{env[0]}:{args[0]}:{build}:{status}:{host}'
            rec.case(key)
            seen = []

            def web(q):
                seen.append((q.host, q.method, q.target, basic(q)))
                if q.host == CHECK_HOST:
                    return Reply(b'{}', 200 if basic(q) == GOOD else 401)
                if status == 'drop':
                    return Reply(raw=b'')
                if status == 'cut':
                    return Reply(body, cut=9)
                if status == 'text':
                    return Reply(b'<html>')
                return Reply(body, status)
            net.web = web
            U.urllib2.install_opener(None)
            kw = dict(build=build)
            if args != (None, None):
                kw.update(username=args[0], password=args[1])
            if host:
                kw['HOST'] = host
            run = lambda: fn(**kw)
            ok = status == 200 or name == 'revoke' and status in ('cut',
                'text')
            with Prompts([GOOD]*9) as prompts:
                if ok:
                    with rec.guard(key):
                        out = run()
                        rec.check(out == (None if name == 'revoke' else
                            json.loads(body)), key, str(out))
                elif isinstance(status, int):
                    rec.raises(run, key, RuntimeError)
                else:
                    rec.raises(run, key)
            mine = [s for s in seen if s[0] != CHECK_HOST]
            t = target if not host else '/api' + ('?token=eyJ0eX.Ab-_12' if name ==
                'revoke' else '')
            rec.check(mine == [('x.example' if host else URS, method, t, GOOD
                if build else None)], key + ':request', str(mine))
            rec.check(bool(prompts.asked) <= (build and not known), key +
                ':prompts', str(prompts.asked))
        # temporary keys
        for region, host, extra, status in itertools.product((None,
                'us-east-1'), (None, 'https://x.example/keys'), ((),
                ('accessKeyId',), ('secretAccessKey',), ('sessionToken',)),
                (200, 401, 'cut')):
            keys = {'accessKeyId': 'AKIA1', 'secretAccessKey': 'sec/+=',
                'sessionToken': 'tok', 'expiration': '2030-01-01'}
            for e in extra:
                del keys[e]
            b = json.dumps(keys).encode()
            net.web = lambda q: Reply(b, cut=7) if status == 'cut' else Reply(
                b, status)
            net.requests.clear()
            kw = {}
            if region:
                kw['region_name'] = region
            if host:
                kw['HOST'] = host
            key = f's3:{region}:{host}:{extra}:{status}'
            rec.case(key)
            if status == 200 and not extra:
                with rec.guard(key):
                    c = U.s3_client(timeout=5, **kw)
                    k = c._request_signer._credentials
                    rec.check((k.access_key, k.secret_key, k.token) == (
                        'AKIA1', 'sec/+=', 'tok'), key + ':keys')
                    rec.check(c.meta.region_name == (region or 'us-west-2'),
                        key + ':region')
                    rec.check([q.host for q in net.requests] == ['x.example'
                        if host else CHECK_HOST], key + ':host')
            else:
                rec.raises(lambda: U.s3_client(timeout=5, **kw), key)
        for region in ('us-west-2', 'eu-central-1'):
            os.environ['AWS_DEFAULT_REGION'] = region
            rec.case('region ' + region)
            rec.check(U.s3_region() == region, 'region ' + region)
    net.close()
    rec.sample({'requests': list(fns)})


DRIVE = 'podaac-tools.jpl.nasa.gov'


@CHECK.block('drive', params=lambda tier: [tier])
def drive(rec, tier):
    """credentials of data drives"""
    net = Net()
    root = pathlib.Path(rec.mkdir())
    page = (b'<html><table><tr><td></td><td><a class="text-left" href="x">'
        b'x.txt</a></td><td>2020-01-01 00:00:00</td></tr></table></html>')
    with net.active():
        for what, given, rc, build, ok, urs in itertools.product(('list',
                'file'), (None, GOOD), (None, DRIVE, 'ecco.jpl.nasa.gov',
                'both'), (True, False), (200, 401), (None,
                'ecco.jpl.nasa.gov')):
            environment(root, 'absent', (None, None))
            hosts = {'both': [DRIVE, 'ecco.jpl.nasa.gov'], None: []}.get(rc,
                [rc])
            if rc:
                (root/'.netrc').write_text(''.join(f'machine {h} login '
                    f'{h[:4]} password w{h[:4]}\n' for h in hosts))
                (root/'.netrc').chmod(0o600)
            used = urs or DRIVE
            want = given or ((used[:4], 'w' + used[:4]) if used in hosts else
                None)
            seen = []

            def web(q):
                seen.append((q.host, basic(q)))
                if q.host == CHECK_HOST:
                    return Reply(b'', ok)
                return Reply(page)
            net.web = web
            U.urllib2.install_opener(None)
            kw = dict(build=build, timeout=5)
            if given:
                kw.update(username=given[0], password=given[1])
            if urs:
                kw['urs'] = urs
            key = f'{what}:{bool(given)}:{rc}:{build}:{ok}:{urs}'
            rec.case(key)
            run = lambda: (U.drive_list if what == 'list' else U.from_drive)(
                'https://data.example/drive/x.txt', **kw)
            if build and (want is None or ok == 401):
                rec.raises(run, key)
                rec.check('data.example' not in [h for h, a in seen], key +
                    ':asked')
            else:
                with rec.guard(key):
                    run()
                    rec.check(seen == [(CHECK_HOST, want)]*build + [(
                        'data.example', want if build else None)], key +
                        ':requests', str(seen))
    net.close()
    rec.sample({'netrc': rc})
