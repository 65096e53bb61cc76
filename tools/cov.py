"""Lines of the repository run by the quick checks (development only)
usage: cov.py OUTDIR ID [tier]     run a check and keep the lines it ran
       cov.py OUTDIR --report      lines no check ran, by function"""
import ast, os, pathlib, pickle, runpy, sys, uuid
out = pathlib.Path(sys.argv[1])
REPO = os.environ.get('VMC_REPO', '/repo')
if sys.argv[2] == '--report':
    seen = set()
    for f in out.glob('*.pkl'):
        try:
            seen |= pickle.loads(f.read_bytes())
        except (EOFError, pickle.UnpicklingError):
            pass
    for p in sorted([*pathlib.Path(REPO).glob('gravity_toolkit/**/*.py'),
            *pathlib.Path(REPO).glob('scripts/*.py')]):
        text = p.read_text(encoding='utf8')
        code = compile(text, str(p), 'exec')
        lines, stack = set(), [code]
        while stack:
            c = stack.pop()
            if c is not code:
                lines |= {l for _, _, l in c.co_lines() if l and l !=
                    c.co_firstlineno}
            stack += [k for k in c.co_consts if hasattr(k, 'co_code')]
        have = {l for f, l in seen if f == str(p)}
        miss = sorted(lines - have)
        if not miss:
            continue
        src = text.splitlines()
        print(f'==== {p.relative_to(REPO)}: {len(miss)} of {len(lines)}')
        if len(miss) < 0.97*len(lines):
            for l in miss:
                print(f'  {l}: {src[l-1].strip()[:110]}')
    sys.exit()
lines = set()
mon = sys.monitoring
mon.use_tool_id(3, 'cov')


def hit(code, line):
    f = code.co_filename
    if f.startswith(REPO):
        lines.add((f, line))
    return mon.DISABLE


mon.register_callback(3, mon.events.LINE, hit)
mon.set_events(3, mon.events.LINE)
real = os._exit


def leave(code):
    (out/f'{uuid.uuid4().hex}.pkl').write_bytes(pickle.dumps(lines))
    real(code)


os._exit = leave
out.mkdir(exist_ok=True, parents=True)
sys.argv = ['/verif/lib/mc.py', *sys.argv[2:]]
sys.path.insert(0, '/verif/lib')
try:
    runpy.run_path('/verif/lib/mc.py', run_name='__main__')
finally:
    (out/f'{uuid.uuid4().hex}.pkl').write_bytes(pickle.dumps(lines))
