"""Loopback servers that replay every fault of a transfer.

A `Net` owns one web server and one file transfer server on the loopback
interface and, while active, sends every connection of this process to them
whatever host was asked for.  Encrypted connections are taken in the clear.
"""
import contextlib
import ftplib
import http.client
import itertools
import os
import select
import socket
import ssl
import struct
import threading
import urllib.request

COUNT = itertools.count()
REAL = socket.create_connection
REAL_CONNECT = http.client.HTTPSConnection.connect


class Plain:
    """stand-in of an encryption context that leaves connections clear"""
    protocol = ssl.PROTOCOL_TLS_CLIENT
    verify_mode = ssl.CERT_NONE
    check_hostname = False
    calls = 0

    def wrap_socket(self, sock, *args, **kwargs):
        Plain.calls += 1
        return sock

    def get_ca_certs(self, *args):
        return []

    def set_alpn_protocols(self, *args):
        pass


class Reply:
    """answer of the web server

    body: bytes sent, of which only `cut` are sent if not None
    length: 'exact', None (until close) or 'chunked'
    end: 'close', 'reset' or 'stall'
    """
    def __init__(self, body=b'', status=200, headers=(), length='exact',
            cut=None, end='close', raw=None):
        self.body, self.status, self.headers = body, status, list(headers)
        self.length, self.cut, self.end, self.raw = length, cut, end, raw

    def wire(self):
        if self.raw is not None:
            return self.raw, b''
        out = [f'HTTP/1.1 {self.status} Text'] + [f'{k}: {v}' for k, v in
            self.headers]
        body = self.body
        if self.length == 'exact':
            out.append(f'Content-Length: {len(body)}')
        elif self.length == 'chunked':
            out.append('Transfer-Encoding: chunked')
            n = max(1, len(body)//2)
            body = b''.join(b'%x\r\n%s\r\n' % (len(body[i:i + n]),
                body[i:i + n]) for i in range(0, len(body), n)) + \
                b'0\r\n\r\n'
        out.append('Connection: close')
        return ('\r\n'.join(out) + '\r\n\r\n').encode(), body


class Request:
    def __init__(self, method, target, headers, body, host):
        self.method, self.target, self.headers = method, target, headers
        self.body, self.host = body, host


def finish(conn, end, stop):
    try:
        if end == 'stall':
            # hold the connection until the other side gives up
            for _ in range(200):
                if stop.is_set():
                    break
                r, _, _ = select.select([conn], [], [], 0.05)
                if r and not conn.recv(1):
                    break
        elif end == 'reset':
            conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                struct.pack('ii', 1, 0))
        else:
            conn.shutdown(socket.SHUT_WR)
            conn.settimeout(1)
            while conn.recv(4096):
                pass
    except OSError:
        pass
    conn.close()


class Net:
    def __init__(self):
        self.web = self.ftp = None      # callables answering requests
        self.refuse = None              # exception of every connection
        self.asked = []                 # hosts and ports connected to
        self.requests = []
        self.stop = threading.Event()
        self.servers = []
        self.ports = {}
        # an address of its own, for ports not to run out
        n = next(COUNT) + 7*os.getpid()
        self.home = f'127.{1 + n//62500 % 250}.{1 + n//250 % 250}.' \
            f'{1 + n % 250}'
        for name, fn in (('web', self._web), ('ftp', self._ftp)):
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((self.home, 0))
            s.listen(50)
            self.ports[name] = s.getsockname()[1]
            self.servers.append(s)
            threading.Thread(target=self._serve, args=(s, fn),
                daemon=True).start()

    # ------------------------------------------------------------- plumbing
    def _serve(self, s, fn):
        while not self.stop.is_set():
            try:
                c, _ = s.accept()
            except OSError:
                return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            threading.Thread(target=self._one, args=(fn, c),
                daemon=True).start()

    def _one(self, fn, c):
        try:
            fn(c)
        except OSError:
            c.close()

    def connect(self, address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT,
            source_address=None, **kw):
        host, port = address[:2]
        if host.startswith('127.'):
            return REAL((self.home, port), timeout)
        self.asked.append((host, port))
        if self.refuse is not None:
            raise self.refuse
        name = 'ftp' if port == 21 else 'web'
        s = REAL((self.home, self.ports[name]), timeout)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s

    @contextlib.contextmanager
    def active(self):
        socket.create_connection = self.connect
        http.client.HTTPSConnection.connect = \
            http.client.HTTPConnection.connect
        urllib.request.install_opener(None)
        old = urllib.request.getproxies
        urllib.request.getproxies = dict
        try:
            yield self
        finally:
            socket.create_connection = REAL
            http.client.HTTPSConnection.connect = REAL_CONNECT
            urllib.request.getproxies = old
            urllib.request.install_opener(None)

    def close(self):
        self.stop.set()
        for s in self.servers:
            s.close()

    # ------------------------------------------------------------------ web
    def _web(self, c):
        f = c.makefile('rb')
        line = f.readline().decode()
        if not line:
            c.close()
            return
        method, target = line.split()[:2]
        heads = {}
        while True:
            h = f.readline().decode().strip()
            if not h:
                break
            k, _, v = h.partition(':')
            heads[k.lower()] = v.strip()
        body = f.read(int(heads.get('content-length', 0)))
        q = Request(method, target, heads, body, heads.get('host'))
        self.requests.append(q)
        r = self.web(q)
        head, body = r.wire()
        if r.cut is not None:
            body = body[:r.cut]
        c.sendall(head + body)
        f.close()
        finish(c, r.end, self.stop)

    # ------------------------------------------------------------------ ftp
    def _ftp(self, c):
        """one session of the file transfer server

        self.ftp is an `Ftp` with files {path: (bytes, date)} and faults
        """
        plan = self.ftp
        f = c.makefile('rb')

        def say(x):
            c.sendall((x + '\r\n').encode())
        data = None
        if plan.fault.get('GREETING'):
            if plan.fault['GREETING'] != 'drop':
                say(plan.fault['GREETING'])
            return finish(c, 'close', self.stop)
        say('220 ready')
        while True:
            line = f.readline().decode().strip()
            if not line:
                break
            cmd, _, arg = line.partition(' ')
            cmd = cmd.upper()
            plan.log.append((cmd, arg))
            fault = plan.fault.get(cmd)
            if isinstance(fault, dict):
                fault = fault.get(arg)
            if fault == 'drop':
                break
            if fault == 'stall':
                return finish(c, 'stall', self.stop)
            if isinstance(fault, str):
                say(fault)
                continue
            if cmd == 'USER':
                say('331 password')
            elif cmd == 'PASS':
                say('230 in')
            elif cmd in ('TYPE', 'NOOP', 'PBSZ', 'PROT', 'AUTH', 'CWD'):
                say('234 ok' if cmd == 'AUTH' else '200 ok')
            elif cmd == 'MKD':
                if arg in plan.dirs:
                    say('550 exists')
                else:
                    plan.dirs.append(arg)
                    say(f'257 "{arg}" made')
            elif cmd in ('PASV', 'EPSV'):
                data = socket.socket()
                data.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                data.bind((self.home, 0))
                data.listen(1)
                p = data.getsockname()[1]
                if cmd == 'EPSV':
                    say(f'229 ok (|||{p}|)')
                else:
                    say(f'227 ok (127,0,0,1,{p >> 8},{p & 255})')
            elif cmd == 'MDTM':
                if arg in plan.files:
                    say('213 ' + plan.files[arg][1])
                else:
                    say('550 not a plain file')
            elif cmd == 'SIZE':
                if arg in plan.files:
                    say(f'213 {len(plan.files[arg][0])}')
                else:
                    say('550 no')
            elif cmd in ('RETR', 'NLST', 'STOR'):
                if cmd == 'RETR' and arg not in plan.files:
                    say('550 no such file')
                    continue
                say('150 opening')
                d, _ = data.accept()
                data.close()
                if cmd == 'STOR':
                    got = b''
                    while True:
                        b = d.recv(65536)
                        if not b:
                            break
                        got += b
                    d.close()
                    plan.stored[arg] = got
                    say('226 done')
                    continue
                if cmd == 'RETR':
                    b = plan.files[arg][0]
                else:
                    b = ''.join(n + '\r\n' for n in plan.listing(arg)
                        ).encode()
                if isinstance(fault, tuple):
                    k, how = fault
                    d.sendall(b[:k])
                    if how == 'stall':
                        finish(d, 'stall', self.stop)
                        break
                    finish(d, 'reset' if how == 'reset' else 'close',
                        self.stop)
                    if how == 'drop':
                        break
                    say('426 transfer aborted')
                    continue
                d.sendall(b)
                d.close()
                say('226 done')
            elif cmd == 'QUIT':
                say('221 bye')
                break
            else:
                say('502 unknown')
        f.close()
        if data is not None:
            data.close()
        c.close()


class Ftp:
    def __init__(self, files=None, fault=None, names=None):
        self.files, self.fault = files or {}, fault or {}
        self.log, self.stored, self.dirs = [], {}, []
        self.names = names

    def listing(self, path):
        if self.names is not None:
            return self.names
        path = path.rstrip('/')
        return [f for f in self.files if not path or f.startswith(path + '/')]
