"""P46: mirrors of the data archives converge and survive every interruption"""
import datetime
import gzip
import io
import itertools
import json
import logging
import os
import pathlib
import signal
import stat
import sys
import tarfile
import time
import urllib.parse
import mc
import prog
import gravity_toolkit as gt
from net import Net, Reply, Ftp

CHECK = mc.Check('P46', level='bounded_exhaustive',
    rule='distinct (program, options, history of remote changes and runs with '
    'a fault or a crash point) histories of the real programs against loopback '
    'servers; the whole local folder is compared after every run',
    assumptions=['remote files do not change during a run', 'a listing of a '
        'folder without files is empty', 'times of remote files are in the '
        'past and differ by more than two seconds if the files differ in age'])

DAY = 86400
T0 = 1262304000                 # 2010-01-01
MODE = 0o640
GRACE, FO = 'grace/Level-2/CSR/RL06', 'grace-fo/Level-2/CSR/RL06.1'
GRAZ = 'outgoing/ITSG/GRACE/ITSG-'
NOTES = 'DOCUMENTS/TECHNICAL_NOTES'


def body(name, k=0):
    return (f'{name} version {k}\n'*(40 + 3*k)).encode()


class Mirror:
    """one program, its archive and the rules of its mirror"""
    kind = 'ftp'
    features = ('plain', 'clobber', 'list', 'checksum', 'log')
    hook = None

    def argv(self, d, how):
        out = ['-D', d, '-M', '640', '-t', 5, *self.options]
        return out + {'plain': [], 'clobber': ['--clobber'], 'list':
            ['--list'], 'checksum': ['--checksum'], 'log': ['--log']}[how]

    def indices(self, local):
        """index files and what they name: a list for every permitted one"""
        out = {}
        for d in self.folders:
            out[d] = [sorted(p[len(d) + 1:] for p in local if p.startswith(d +
                '/') and '/' not in p[len(d) + 1:] and self.named(d,
                p[len(d) + 1:]))]
        return out

    def named(self, d, name):
        return True

    def now(self, p):
        """time of a file that is fetched by every run"""
        return None
    clock = 0

    def view(self, rel, b):
        return b

    def when(self, rel, b, mtime):
        """time of a local file that is compared with the remote time"""
        return 2*(mtime//2)

    def extra(self, files):
        """further local files a run leaves: path to bytes"""
        return {}


class Isdc(Mirror):
    name = 'gfz_isdc_grace_ftp'
    options = ['-c', 'CSR', '-n']
    folders = ['CSR/RL06/' + x for x in ('GAC', 'GAD', 'GSM')]
    A = f'{GRACE}/GSM-2_2010001-2010031_GRAC_UTCSR_BA01_0600.gz'
    B = f'{FO}/GSM-2_2019001-2019031_GRFO_UTCSR_BA01_0601.gz'
    fixed = [f'{GRACE}/GAD-2_2010001-2010031_GRAC_UTCSR_BC01_0600.gz',
        f'grace-fo/{NOTES}/TN-13_GEOC_CSR_RL06.txt',
        f'grace/{NOTES}/TN-11_C20_SLR_RL06.txt',
        f'grace-fo/{NOTES}/TN-14_C30_C20_SLR_GSFC.txt',
        f'grace/{NOTES}/TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz',
        'grace/DOCUMENTS/NEWSLETTER/2010/GRACE_SDS_NL_1001.pdf',
        'grace-fo/DOCUMENTS/NEWSLETTER/2019/GRACE_FO_SDS_NL_02.pdf',
        f'{GRACE}/readme.txt', f'grace/{NOTES}/TN-99_other.txt']
    mine = 'CSR/RL06/GSM/GSM-2_2009335-2009365_GRAC_UTCSR_BA01_0600.gz'

    def local(self, p):
        n = p.split('/')[-1]
        if n.startswith('TN-13'):
            return 'geocenter/' + n
        if n.startswith('TN-11'):
            return 'TN-11_C20_SLR.txt'
        if n.startswith('TN-14'):
            return 'TN-14_C30_C20_GSFC_SLR.txt'
        if n.startswith('TN-08'):
            return n
        if 'NEWSLETTER' in p:
            return 'newsletters/' + n
        if 'Level-2' in p and n.endswith('.gz'):
            return f'CSR/RL06/{n[:3]}/{n}'


class IsdcOld(Isdc):
    """a release whose file names do not tell the mission"""
    options = ['-c', 'CSR', '-r', 'RL05', '-v', '0', '0']
    folders = ['CSR/RL05/' + x for x in ('GAC', 'GAD', 'GSM')]
    A = 'grace/Level-2/CSR/RL05/GSM-2_2010001-2010031_0031_UTCSR_0060_0005.gz'
    B = 'grace/Level-2/CSR/RL05/GSM-2_2010032-2010059_0027_UTCSR_0060_0005.gz'
    fixed = ['grace/Level-2/CSR/RL05/GAC-2_2010001-2010031_0031_UTCSR_0000_'
        '0005.gz']
    mine = 'CSR/RL05/GSM/GSM-2_2009335-2009365_0030_UTCSR_0060_0005.gz'

    def local(self, p):
        n = p.split('/')[-1]
        return f'CSR/RL05/{n[:3]}/{n}'


class Icgem(Mirror):
    name = 'gfz_icgem_costg_ftp'
    options = ['-m', 'Grace', 'Grace-FO', 'Swarm']
    folders = ['COSTG/RL01/GAC', 'COSTG/RL01/GSM'] + ['Swarm/RL01/' + x for x
        in ('GAA', 'GAB', 'GAC', 'GAD', 'GSM')]
    A = '02_COST-G/Grace/unfiltered/GSM-2_2010001-2010031_GRAC_COSTG_BF01_' \
        '0100.gfc'
    B = '02_COST-G/Swarm/40x40/SW_OPER_EGF_SHA_2__20190101T000000_20190131T' \
        '235959_0101.gfc'
    fixed = ['02_COST-G/Grace/GAX_products/GAC-2_2010001-2010031_GRAC_COSTG_'
        'BF01_0100.gfc', '02_COST-G/Grace-FO/GSM-2_2019001-2019031_GRFO_COSTG'
        '_BF01_0100.gfc', '02_COST-G/Swarm/GAX_products/GAA/GAA_Swarm_01_01_'
        '2019.gfc', '02_COST-G/Swarm/GAX_products/GAD/GAD_Swarm_01_01_2019.'
        'gfc', '02_COST-G/Grace/unfiltered/readme.txt']
    mine = 'COSTG/RL01/GSM/GSM-2_2009335-2009365_GRAC_COSTG_BF01_0100.gfc'

    def local(self, p):
        q = p.split('/')
        n = q[-1]
        if n == 'readme.txt':
            return None
        ds = 'GSM' if n.startswith('SW') else n[:3]
        return ('Swarm' if 'Swarm' in q else 'COSTG') + f'/RL01/{ds}/{n}'


class Daily(Mirror):
    name = 'gfz_isdc_dealiasing_ftp'
    options = ['-r', 'RL06', '-Y', 2010, '-m', 1, 2]
    features = ('plain', 'clobber', 'log')
    folders = []
    A = 'grace/Level-1B/GFZ/AOD/RL06/2010/AOD1B_2010-01-01_X_06.asc.gz'
    B = 'grace/Level-1B/GFZ/AOD/RL06/2010/AOD1B_2010-02-03_X_06.asc.gz'
    fixed = ['grace/Level-1B/GFZ/AOD/RL06/2010/AOD1B_2010-01-02_X_06.asc.gz',
        'grace/Level-1B/GFZ/AOD/RL06/2010/AOD1B_2010-03-01_X_06.asc.gz',
        'grace/Level-1B/GFZ/AOD/RL06/2011/AOD1B_2011-01-01_X_06.asc.gz',
        'grace/Level-1B/GFZ/AOD/RL06/2010/readme.txt']
    mine = 'AOD1B/RL06/AOD1B_2009-01-01_X_06.asc.gz'

    def local(self, p):
        n = p.split('/')[-1]
        if n.startswith(('AOD1B_2010-01', 'AOD1B_2010-02')):
            return 'AOD1B/RL06/' + n


class Web(Mirror):
    kind = 'web'


class Itsg(Web):
    name = 'itsg_graz_grace_sync'
    options = ['-r', 'Grace2018', 'Grace_operational']
    features = ('plain', 'clobber', 'list', 'log')
    folders = ['GRAZ/2018/' + x for x in ('GAA', 'GAB', 'GAC', 'GAD', 'GSM')]
    A = GRAZ + 'Grace2018/monthly/monthly_n60/ITSG-Grace2018_n60_2010-01.gfc'
    B = GRAZ + 'Grace_operational/monthly/monthly_n60/ITSG-Grace_operational' \
        '_n60_2019-01.gfc'
    fixed = [GRAZ + 'Grace2018/monthly/monthly_background/' + x for x in (
        'model_atmosphere_2010-01.gfc', 'model_ocean_2010-01.gfc',
        'model_dealiasing_2010-01.gfc',
        'model_oceanBottomPressure_2010-01.gfc', 'readme.txt')]
    mine = 'GRAZ/2018/GSM/ITSG-Grace2018_n60_2009-12.gfc'

    def local(self, p):
        n = p.split('/')[-1]
        if n.startswith('ITSG'):
            return 'GRAZ/2018/GSM/' + n
        ds = {'atmosphere': 'GAA', 'ocean': 'GAB', 'dealiasing': 'GAC',
            'oceanBottomPressure': 'GAD'}.get(n.split('_')[1] if '_' in n else
            '')
        return f'GRAZ/2018/{ds}/{n}' if ds else None

    def indices(self, local):
        # folders without a file yet need no index
        out = super().indices(local)
        return {d: v if v[0] else v + [None] for d, v in out.items()}

    def serve(self, world, fault, q):
        path = urllib.parse.unquote(q.target).lstrip('/')
        if path == '':
            return Reply(b'here')
        if path in world:
            return fault_reply(fault, path, world[path][0])
        names = sorted(p.split('/')[-1] for p in world if
            p.rpartition('/')[0] == path)
        page = ('<html><body><table><tr><th>Name</th></tr>' + ''.join(
            f'<tr><td valign="top"><img src="i.gif"></td><td><a href="{n}">{n}'
            '</a></td><td align="right">' + time.strftime('%Y-%m-%d %H:%M',
            time.gmtime(world[f'{path}/{n}'][1])) + '  </td><td align="right">'
            '1K</td><td>&nbsp;</td></tr>' for n in names) + '</table></body>'
            '</html>').encode()
        return fault_reply(fault, 'listing', page)


class Esa(Web):
    name = 'esa_costg_swarm_sync'
    options = []
    folders = ['Swarm/RL01/GSM']
    A = 'SW_OPER_EGF_SHA_2__20100101T000000_20100131T235959_0101.ZIP'
    B = 'SW_OPER_EGF_SHA_2__20190101T000000_20190131T235959_0101.ZIP'
    fixed = ['SW_OPER_EGF_SHA_2__20100201T000000_20100228T235959_0101.ZIP',
        'readme.txt']
    mine = 'Swarm/RL01/GSM/SW_OPER_EGF_SHA_2__20091201T000000_20091231T235959' \
        '_0101.ZIP'

    def local(self, p):
        return 'Swarm/RL01/GSM/' + p if p.startswith('SW') else None

    def indices(self, local):
        # files that are no longer on the server may be left out
        d, = self.folders
        every = super().indices(local)[d][0]
        return {d: [every, [n for n in every if f'{d}/{n}' != self.mine and
            n in self.world]]}

    def serve(self, world, fault, q):
        u = urllib.parse.urlsplit(q.target)
        a = urllib.parse.parse_qs(u.query)
        if a.get('do') == ['list']:
            names = sorted(world)
            k, n = int(a['pos'][0]), int(a['maxfiles'][0])
            rows = [{'name': x, 'mtime': world[x][1]} for x in names[k:k + n]]
            return fault_reply(fault, 'listing', json.dumps({'results':
                rows}).encode())
        if a.get('do') == ['download']:
            p = a['file'][0].split('/')[-1]
            return fault_reply(fault, p, world[p][0])
        return Reply(b'here')


class Cnes(Web):
    name = 'cnes_grace_sync'
    options = ['-r', 'RL04', 'RL01']
    features = ('plain', 'clobber', 'log')
    folders = ['CNES/RL04/GSM', 'CNES/RL01/GSM', 'CNES/RL01/GAC']
    # archive and member
    T4 = 'CNES.RL04-v1.monthly.NEW_IERS2010_MEAN_POLE_CONVENTION.tar.gz'
    T1, T2 = 'GRGS.SH_models.GRACEFORMAT.RL01.tar.gz', \
        'GRGS.dealiasing.RL01.tar.gz'
    A = f'{T4}/data/GSM-2_2010001-2010031_0031_GRGS_0000_0004'
    B = f'{T4}/data/GSM-2_2010032-2010059_0027_GRGS_0000_0004'
    fixed = [f'{T4}/data/readme', f'{T1}/GSM-2_2010001-2010010_0010_EIGEN_G--'
        '-_0001', f'{T2}/GAC-2_2010001-2010010_0010_EIGEN_G---_0001']
    mine = 'CNES/RL04/GSM/GSM-2_2009335-2009365_0031_GRGS_0000_0004.gz'
    where = {T4: 'RL04-v1/archives', T1: 'RL01/variable/archives', T2:
        'RL01/variable/archives'}

    def local(self, p):
        t, _, m = p.partition('/')
        n = m.split('/')[-1]
        if n.startswith('G'):
            return f'CNES/{"RL04" if t == self.T4 else "RL01"}/{n[:3]}/{n}.gz'

    def view(self, rel, b):
        return gzip.decompress(b) if rel.count('/') == 3 else b

    def when(self, rel, b, mtime):
        return int.from_bytes(b[4:8], 'little')

    def archives(self, world):
        out = {}
        for t in (self.T4, self.T1, self.T2):
            buf = io.BytesIO()
            with tarfile.open(fileobj=buf, mode='w') as tar:
                for p in sorted(world):
                    if p.startswith(t + '/'):
                        i = tarfile.TarInfo(p[len(t) + 1:])
                        i.size, i.mtime = len(world[p][0]), world[p][1]
                        tar.addfile(i, io.BytesIO(world[p][0]))
            out[t] = (gzip.compress(buf.getvalue(), mtime=0), max([w[1] for p,
                w in world.items() if p.startswith(t + '/')] + [T0]))
        return out

    def extra(self, world):
        return {f'CNES/{"RL04" if t == self.T4 else "RL01"}/{t}': b for t, (b,
            _) in self.archives(world).items()}

    def serve(self, world, fault, q):
        path = q.target.lstrip('/')
        if path == '':
            return Reply(b'here')
        t = path.split('/')[-1]
        b, when = self.archives(world)[t]
        assert path == f'grgs.obs-mip.fr/data/{self.where[t]}/{t}', path
        r = fault_reply({self.T4 if k == self.A else k: v for k, v in
            fault.items()}, t, b)
        r.headers.append(('Last-Modified', time.strftime('%a, %d %b %Y '
            '%H:%M:%S GMT', time.gmtime(when))))
        return r


class Podaac(Web):
    name = 'podaac_cumulus'
    options = ['-c', 'CSR', '-r', 'RL06', '-v', '0', '3', '--aod1b',
        '--endpoint', 'data']
    features = ('plain', 'clobber', 'log')
    folders = ['CSR/RL06/' + x for x in ('GAC', 'GAD', 'GSM')]
    A = 'L2/GSM-2_2010001-2010031_GRAC_UTCSR_BA01_0600'
    B = 'L2/GSM-2_2019001-2019031_GRFO_UTCSR_BA01_0603'
    fixed = ['L2/GAC-2_2010001-2010031_GRAC_UTCSR_BC01_0600',
        'L1B/AOD1B_2010-01-01_X_06.asc.gz', 'docs/TN-13_GEOC_CSR_RL06.3.txt',
        'docs/TN-14_C30_C20_GSFC_SLR.txt', 'docs/L2-UserHandbook_v4.0.pdf']
    clock = T0 + 500*DAY        # time of the last run
    mine = 'CSR/RL06/GSM/GSM-2_2009335-2009365_GRAC_UTCSR_BA01_0600'
    suffix = ''

    def local(self, p):
        n = p.split('/')[-1]
        if n.startswith('AOD1B'):
            return 'AOD1B/RL06/' + n
        if p.startswith('docs'):
            return None if n[:2] != 'TN' or self.s3 else 'geocenter/'*n[
                :5].endswith('13') + n
        return f'CSR/RL06/{n[:3]}/{n}{self.suffix}'

    def now(self, p):
        # files without a time of their own are fetched by every run
        return self.clock if p.startswith('docs') else None

    def hook(self, world, net):
        """the catalogue and the login, which have checks of their own"""
        U = gt.utilities

        def cmr(mission=None, level='L2', center=None, product=None, **kw):
            want = {'grace': 'GRAC', 'grace-fo': 'GRFO'}[mission]
            names = [p for p in sorted(world) if (p.startswith('L1B') if level
                == 'L1B' else p.startswith(f'L2/{product}') and want in p)]
            pre = 's3://bucket/' if self.s3 else 'https://archive.host/'
            return ([p.split('/')[-1] for p in names], [pre + p for p in
                names], [world[p][1] for p in names])
        U.cmr = cmr
        U.cmr_metadata = lambda **kw: [] if self.s3 else [
            f'https://archive.host/{p}' for p in sorted(world) if
            p.startswith('docs')]
        time.time = lambda: self.clock
        U.attempt_login = lambda *a, **k: None
        U.s3_client = lambda *a, **k: self
        U.cmr_product_shortname = lambda **k: ['name']
    s3 = False

    def list_objects(self, **kw):
        return {}

    def get_object(self, Bucket=None, Key=None):
        assert Bucket == 'bucket', Bucket
        r = gt.utilities.urllib2.urlopen(f'https://archive.host/{Key}',
            timeout=5)
        return {'Body': Strict(r)}

    def serve(self, world, fault, q):
        p = q.target.lstrip('/')
        return fault_reply(fault, p, world[p][0])


class Strict:
    """body of an object that reports when it is cut short"""
    def __init__(self, r):
        self.r = r

    def read(self, n=None):
        b = self.r.read() if n is None else self.r.read(n)
        if (n is None or len(b) < n) and getattr(self.r, 'length', 0):
            raise OSError('incomplete object')
        return b


class PodaacZip(Podaac):
    options = [x for x in Podaac.options if x != '--aod1b'] + ['--gzip']
    suffix = '.gz'
    fixed = Podaac.fixed[:1] + Podaac.fixed[2:]
    mine = Podaac.mine + '.gz'

    def view(self, rel, b):
        return gzip.decompress(b) if rel.endswith('.gz') else b


class PodaacS3(Podaac):
    options = Podaac.options[:-1] + ['s3']
    s3 = True


class PodaacS3Zip(PodaacZip):
    options = PodaacZip.options[:-2] + ['s3', '--gzip']
    s3 = True


MIRRORS = {c.__name__: c for c in (Isdc, IsdcOld, Icgem, Daily, Itsg, Esa,
    Cnes, Podaac, PodaacZip, PodaacS3, PodaacS3Zip)}


# --------------------------------------------------------------------- faults
def fault_reply(fault, key, b):
    f = fault.get(key)
    if f is None:
        return Reply(b)
    if f == 'gone':
        return Reply(b'gone', 404)
    if f == 'busy':
        return Reply(b'busy', 503)
    k, how = f
    k = {'none': 0, 'half': len(b)//2, 'last': len(b) - 1}[k]
    if how == 'chunk':
        r = Reply(b, length='chunked')
        r.cut = len(r.wire()[1])//2
        return r
    return Reply(b, cut=k, end='reset' if how == 'reset' else 'close')


class Tree(Ftp):
    """files of a server with the folders they are in"""
    def listing(self, path):
        path = path.strip('/')
        n = path.count('/') + 1
        return sorted({'/'.join(f.split('/')[:n + 1]) for f in self.files if
            f.startswith(path + '/')})


def ftp_fault(fault, world):
    out = {}
    for p, f in fault.items():
        cmd = 'NLST' if p == 'listing' else 'RETR'
        if f == 'gone':
            v = '550 gone'
        elif f == 'busy':
            v = '421 busy'
        else:
            n = 40 if p == 'listing' else len(world[p][0])
            k = {'none': 0, 'half': n//2, 'last': n - 1}[f[0]]
            v = (k, {'chunk': 'drop', 'cut': 'abort', 'reset': 'reset'}[f[1]])
        if p == 'listing':
            out[cmd] = v
        else:
            out.setdefault(cmd, {})[p] = v
    return out


FAULTS = ['gone', 'busy', ('none', 'cut'), ('half', 'cut'), ('last', 'cut'),
    ('half', 'reset'), ('half', 'chunk')]
CALLS = {'open', 'write', 'replace', 'rename', 'unlink', 'remove', 'utime',
    'chmod', 'mkdir', 'recv', 'recv_into', '__exit__', 'close'}


def run(m, net, world, d, how, fault=(), crash=None, extra=()):
    """one run of the program in a process of its own

    returns 0 (done), 1 (reported a failure) or 9 (killed), and the number of
    points it could have been killed at
    """
    fault = dict(fault)
    m.clock += 100
    if m.kind == 'ftp':
        net.ftp = Tree({p: (b, time.strftime('%Y%m%d%H%M%S', time.gmtime(t)))
            for p, (b, t) in world.items()}, ftp_fault(fault, world))
    else:
        net.web = lambda q: m.serve(world, fault, q)
    argv = [str(a) for a in m.argv(d, how)] + [str(a) for a in extra]
    mod = prog.load(m.name)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        count = [0]
        try:
            os.close(r)
            signal.alarm(40)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            sys.stdout = sys.stderr = open(os.devnull, 'w')
            logging.getLogger().handlers = []
            logging.disable(logging.NOTSET)
            sys.argv = [m.name] + argv
            if m.hook:
                m.hook(world, net)

            def trace(frame, event, arg):
                if event == 'c_call' and getattr(arg, '__name__', '') in CALLS:
                    count[0] += 1
                    if count[0] == crash:
                        os._exit(9)
            if crash is not None:
                sys.setprofile(trace)
            mod.main()
            sys.setprofile(None)
            code = 0
        except BaseException as exc:  # noqa: BLE001
            sys.setprofile(None)
            if os.environ.get('VMC_SHOW'):
                import traceback
                os.write(w, traceback.format_exc().encode())
        finally:
            logging.shutdown()
            os.write(w, b' %d' % count[0])
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        text = f.read().decode()
    _, status = os.waitpid(pid, 0)
    if os.environ.get('VMC_SHOW') and len(text) > 20:
        print(text)
    code = os.waitstatus_to_exitcode(status)
    return code, int(text.split()[-1]) if text.strip() else 0


# ---------------------------------------------------------------------- model
def scan(d):
    out = {}
    for p in sorted(d.rglob('*')):
        if p.is_file():
            s = p.stat()
            out[str(p.relative_to(d))] = (p.read_bytes(), int(s.st_mtime),
                stat.S_IMODE(s.st_mode))
    return out


def data(files):
    return {p: v for p, v in files.items() if not p.endswith(('index.txt',
        '.log'))}


def wanted(m, before, world, how):
    """local files a run replaces: path to (bytes, time)"""
    out = {}
    for p, (b, t) in world.items():
        rel = m.local(p)
        if rel is None or how == 'list':
            continue
        if m.now(p):
            out[rel] = (b, m.now(p))
            continue
        if rel not in before or how == 'clobber':
            new = True
        elif how == 'checksum':
            new = before[rel][0] != b
        else:
            try:
                have = m.when(rel, *before[rel][:2])
            except Exception:
                have = None
            new = have is None or t > have
        if new:
            out[rel] = (b, t)
    return out


def readable(m, rel, b):
    try:
        return m.view(rel, b)
    except Exception as exc:
        return repr(exc)


def judge_done(rec, key, m, before, after, world, how, loose=()):
    """a run that reports success leaves what the rules ask for"""
    want = wanted(m, before, world, how)
    m.world = world
    extra = m.extra(world) if how != 'list' else {}
    names = set(data(before)) | set(want) | set(extra)
    rec.eq(sorted(data(after)), sorted(names), key + ':files')
    for rel in names:
        if rel not in after:
            continue
        b, t, mode = after[rel]
        if rel in extra:
            rec.check(b == extra[rel], f'{key}:archive', rel)
        elif rel in want:
            rec.check(readable(m, rel, b) == want[rel][0], f'{key}:content',
                rel)
            rec.check(t == want[rel][1], f'{key}:time', f'{rel}: {t}')
            rec.check(mode == MODE, f'{key}:mode', f'{rel}: {mode:o}')
        else:
            rec.check(after[rel] == before[rel], f'{key}:unchanged', rel)
    if how == 'log':
        logs = [p for p in after if p.endswith('.log')]
        rec.eq([after[p][2] for p in logs], [MODE], key + ':log mode')
        for p in logs:
            text = after[p][0].decode()
            old = before.get(p, (b'',))[0].decode()
            text = text[len(old):] if text.startswith(old) else text
            for rel in names:
                n = rel.split('/')[-1]
                n = n[:-3] if n.endswith('.gz') else n
                rec.check((n in text) == (rel in want) or rel in extra,
                    f'{key}:log', lambda: f'{rel} {rel in want}')
    local = [p for p in data(after) if p not in loose]
    for d, lists in m.indices(local).items():
        have = after.get(d + '/index.txt')
        got = None if have is None else have[0].decode().splitlines()
        rec.check(any(got == x or (x is not None and got is not None and
            m.name.startswith('esa') and sorted(got) == x) for x in lists),
            f'{key}:index', lambda: f'{d}: {got} not in {lists}')
        rec.check(have is None or have[2] == MODE, f'{key}:index mode', d)


def judge_failed(rec, key, m, before, after, world, how, killed):
    """an interrupted run leaves every file whole"""
    want = wanted(m, before, world, how)
    m.world = world
    extra = m.extra(world)
    for rel in set(data(before)) | set(want) | set(extra):
        if rel not in after:
            rec.check(rel not in before, f'{key}:lost', rel)
            continue
        if after[rel] == before.get(rel):
            continue
        b = after[rel][0]
        if rel in extra:
            rec.check(b == extra[rel] or b == before.get(rel, (None,))[0],
                f'{key}:torn', rel)
            continue
        ok = rel in want and readable(m, rel, b) == want[rel][0] or rel in \
            before and b == before[rel][0]
        rec.check(ok, f'{key}:torn', lambda: f'{rel}: {len(b)} bytes')
    left = set(data(after)) - set(data(before)) - set(want) - set(extra)
    rec.check(killed or not left, f'{key}:left', str(sorted(left)))
    for d in m.folders:
        have = after.get(d + '/index.txt')
        if have is None or killed:
            continue
        got = have[0].decode().splitlines()
        old = before.get(d + '/index.txt')
        lists = m.indices(list(data(after)))[d]
        rec.check(old is not None and have[0] == old[0] or any(x is not None
            and sorted(got) == x for x in lists), f'{key}:index', lambda:
            f'{d}: {got}')
    return left


def start(m):
    return {p: (body(p), T0) for p in [m.A, *m.fixed]}


CHANGES = ('none', 'add', 'newer', 'silent', 'older', 'removed')


def change(m, world, what, k):
    world = dict(world)
    t = world.get(m.A, (b'', T0))[1]
    if what == 'add':
        world[m.B] = (body(m.B, k), T0 + 2*DAY*k)
    elif what in ('newer', 'silent', 'older'):
        dt = {'newer': DAY*k + 60, 'silent': 0, 'older': -DAY*k - 60}[what]
        world[m.A] = (body(m.A, k), t + dt)
    elif what == 'removed':
        world.pop(m.A, None)
    return world


def put_mine(m, d):
    p = d/m.mine
    p.parent.mkdir(parents=True, exist_ok=True)
    b = body(m.mine)
    if m.view(m.mine, gzip.compress(b)) == b:
        b = gzip.compress(b, mtime=T0 - DAY)
    p.write_bytes(b)
    os.utime(p, (T0, T0))
    p.chmod(0o600)


@CHECK.block('histories', params=lambda tier: [(tier, n, c) for n in MIRRORS
    for c in CHANGES], timeout=900)
def histories(rec, arg):
    """remote changes and runs with every option and every fault in turn"""
    tier, name, first = arg
    m = MIRRORS[name]()
    net = Net()
    root = pathlib.Path(rec.mkdir())
    n = 0
    acts = [(how, None) for how in m.features] + [(how, f) for how in (
        'plain', 'clobber', 'checksum') if how in m.features for f in FAULTS]
    places = (m.A, 'listing') + ((m.fixed[2],) if name == 'Podaac' else ())
    with net.active():
        for (how1, f1), place, second, how2 in itertools.product(acts, places,
                CHANGES if tier == 'thorough' else ('none', 'newer', 'add'),
                m.features if tier == 'thorough' else ('plain',)):
            if f1 is None and place != m.A:
                continue
            if place not in places[:2] and (how1, second) != ('plain',
                    'none'):
                continue
            if place == 'listing' and (isinstance(m, (Cnes, Podaac)) or (tier
                    != 'thorough' and how1 != 'plain')):
                continue
            if tier != 'thorough' and f1 and second != 'none' and f1 not in \
                    FAULTS[2:4]:
                continue
            key = f'{name}:{first}:{how1}:{f1}:{"A" if place == m.A else place[:10]}'
            key += f':{second}:{how2}'
            rec.case(key)
            d = root/str(n)
            d.mkdir()
            n += 1
            put_mine(m, d)
            world = start(m)
            steps = [('none', 'plain', None, place), (first, how1, f1, place),
                (second, how2, None, place), ('none', 'plain', None, place)]
            if first == 'none' and how1 in ('plain', 'list') and second == \
                    'none':
                # the first run of all is the one that fails
                steps = steps[1:]
            for k, (what, how, f, place) in enumerate(steps):
                world = change(m, world, what, k + 1)
                if f and place == m.A and m.A not in world:
                    f = None
                before = scan(d)
                code, _ = run(m, net, world, d, how, {place: f} if f else {})
                after = scan(d)
                at = f'{key}:{k}'
                if code == 0:
                    judge_done(rec, at, m, before, after, world, how)
                else:
                    rec.check(code == 1 and f is not None, at + ':failed',
                        str(code))
                    judge_failed(rec, at, m, before, after, world, how, False)
            for p in d.rglob('*'):
                if p.is_file():
                    p.unlink()
    net.close()


@CHECK.block('crashes', params=lambda tier: [(tier, n, s, i) for n in MIRRORS
    for s in ('fresh', 'newer', 'clobber') for i in range(4)], timeout=900)
def crashes(rec, arg):
    """a run killed before every call that touches a file or a connection"""
    tier, name, scene, part = arg
    m = MIRRORS[name]()
    net = Net()
    root = pathlib.Path(rec.mkdir())
    world = start(m)
    how = 'clobber' if scene == 'clobber' else 'plain'
    with net.active():
        def prepare(tag):
            d = root/tag
            d.mkdir()
            put_mine(m, d)
            w = world
            if scene != 'fresh':
                run(m, net, w, d, 'plain')
                if scene == 'newer':
                    w = change(m, w, 'newer', 3)
            return d, w
        d, w = prepare('count')
        before = scan(d)
        code, total = run(m, net, w, d, how, crash=-1)
        rec.check(code == 0 and total > 5, f'{name}:{scene}:run', f'{code} '
            f'{total}')
        total = min(total, 5000)
        step = 1 if tier == 'thorough' else -(-total // 160)
        for k in range(1 + part*step, total + 1, 4*step):
            key = f'{name}:{scene}:{k}'
            rec.case(key)
            d, w = prepare(f'k{k}')
            before = scan(d)
            code, _ = run(m, net, w, d, how, crash=k)
            mid = scan(d)
            if code == 0:
                judge_done(rec, key, m, before, mid, w, how)
            else:
                rec.check(code == 9, key + ':code', str(code))
                judge_failed(rec, key, m, before, mid, w, how, True)
            # the next run repairs everything
            code, _ = run(m, net, w, d, 'plain')
            rec.check(code == 0, key + ':recover', str(code))
            after = scan(d)
            for p, (b, t) in w.items():
                rel = m.local(p)
                if rel is not None:
                    rec.check(rel in after and readable(m, rel, after[rel][0])
                        == b, key + ':recovered', rel)
            known = {m.local(p) for p in w} | {m.mine}
            for f in m.folders:
                have = after.get(f + '/index.txt')
                got = have[0].decode().split() if have else []
                need = sorted(p[len(f) + 1:] for p in known if p and
                    p.startswith(f + '/'))
                if m.name.startswith('esa'):
                    need, got = [[n for n in x if f'{f}/{n}' != m.mine] for x
                        in (need, sorted(got))]
                rec.check(got == need, key + ':index', f'{f}: {got}')
            for p in d.rglob('*'):
                if p.is_file():
                    p.unlink()
    net.close()


# ------------------------------------------------------------ monthly archives
class Monthly(Daily):
    """dealiasing files collected in an archive for every month"""
    def __init__(self, rl):
        self.rl = rl
        self.options = ['-r', rl, '-Y', 2010, '-m', 1, 2, 3, '--tar']
        v = rl[2:]
        self.top = f'grace/Level-1B/GFZ/AOD/{rl}/'
        self.files = [self.top + f'{d[:4]}/AOD1B_{d}_X_{v}.asc.gz' for d in (
            '2010-01-02', '2010-01-01', '2010-01-31', '2010-02-03',
            '2010-10-01', '2011-01-01')] + [self.top + '2010/readme.txt']
        self.mine = f'AOD1B/{rl}/AOD1B_2009-12_{v}.' + self.suffix()

    def suffix(self):
        return 'tgz' if self.rl == 'RL06' else 'tar.gz'

    def archives(self, world):
        """local archives and the files they hold, in order"""
        out = {}
        for p, (b, t) in sorted(world.items()):
            n = p.split('/')[-1]
            if n[:13] in ('AOD1B_2010-01', 'AOD1B_2010-02', 'AOD1B_2010-03'):
                out.setdefault(f'AOD1B/{self.rl}/{n[:13]}_{self.rl[2:]}.'
                    f'{self.suffix()}', []).append((n, b, t))
        return out


def members(b):
    try:
        with tarfile.open(fileobj=io.BytesIO(b), mode='r:gz') as tar:
            return [(i.name, tar.extractfile(i).read(), int(i.mtime)) for i in
                tar.getmembers()]
    except Exception as exc:
        return repr(exc)


def judge_archives(rec, key, m, before, after, world, how, code):
    want = m.archives(world)
    files = data(after)
    if code == 0:
        rec.eq(sorted(files), sorted(set(data(before)) | set(want)), key +
            ':files')
    for rel, (b, t, mode) in files.items():
        if after[rel] == before.get(rel):
            fresh = code == 0 and rel in want and how == 'clobber'
            rec.check(not fresh or members(b) == want[rel], key + ':kept', rel)
            continue
        if code == 9 and rel not in want and rel.split('/')[-1][0] == '.':
            continue            # temporary file of a killed run
        may = rel in want and (rel not in before or how == 'clobber')
        rec.check(may and members(b) == want[rel], key + ':members', rel)
        rec.check(code == 9 or mode == MODE, key + ':mode', f'{rel}: {mode:o}')
    rec.check(set(data(before)) <= set(files), key + ':lost')
    left = set(files) - set(before) - set(want)
    rec.check(code == 9 or not left, key + ':left', str(left))


@CHECK.block('archives', params=lambda tier: [(tier, rl, s) for rl in ('RL04',
    'RL05', 'RL06') for s in ('fresh', 'added', 'clobber')], timeout=900)
def archives(rec, arg):
    """monthly archives after every fault and every point of interruption"""
    tier, rl, scene = arg
    m = Monthly(rl)
    net = Net()
    root = pathlib.Path(rec.mkdir())
    old = {p: (body(p), T0 + 60*i) for i, p in enumerate(m.files)}
    new = dict(old)
    how = 'clobber' if scene == 'clobber' else 'plain'
    if scene != 'fresh':
        new[m.files[0]] = (body('new', 3), T0 + DAY)
        for x in ('2010-01-03', '2010-03-05'):
            new[m.top + f'2010/AOD1B_{x}_X_{rl[2:]}.asc.gz'] = (body(x), T0)
    with net.active():
        def attempt(tag, key, fault=(), crash=None):
            d = root/tag
            d.mkdir()
            put_mine(m, d)
            if scene != 'fresh':
                run(m, net, old, d, 'plain')
            before = scan(d)
            code, n = run(m, net, new, d, how, fault, crash)
            judge_archives(rec, key, m, before, scan(d), new, how, code)
            if fault or crash:
                # the next run repairs everything
                before = scan(d)
                c, _ = run(m, net, new, d, how)
                rec.check(c == 0, key + ':recover', str(c))
                judge_archives(rec, key + ':next', m, before, scan(d), new, how,
                    0)
            return code, n
        rec.case(f'{rl}:{scene}')
        code, total = attempt('plain', f'{rl}:{scene}', crash=-1)
        rec.check(code == 0 and total > 5, f'{rl}:{scene}:run', f'{code}')
        for f in FAULTS:
            for p in [*m.files[:2], m.files[3], 'listing']:
                key = f'{rl}:{scene}:{p[-25:]}:{f}'
                rec.case(key)
                code, _ = attempt(f'f{FAULTS.index(f)}{p.replace("/", "_")}',
                    key, {p: f})
                rec.check(code in (0, 1), key + ':code', str(code))
        step = 1 if tier == 'thorough' else -(-total // 60)
        for k in range(1, total + 1, step):
            key = f'{rl}:{scene}:k{k}'
            rec.case(key)
            code, _ = attempt(f'k{k}', key, crash=k)
            rec.check(code in (0, 9), key + ':code', str(code))
    net.close()
