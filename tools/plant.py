#!/usr/bin/env python3
"""Runs the quick checks on planted changes (development only)

usage: plant.py DEFS.py [ID pattern]   DEFS.py holds text like
  bug('id', 'P01', 'gravity_toolkit/harmonics.py', '''old''', '''new''')
"""
import fnmatch, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
J = int(os.environ.get('PLANT_JOBS', 4))
B = []
_VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bug(i, prop, path, old, new, n=1):
    B.append((i, prop, path, old, new, n))


exec(open(sys.argv[1]).read())
pats = sys.argv[2:] or ['*']
todo = [b for b in B if any(fnmatch.fnmatch(b[0], p) or b[1] == p for p in pats)]
top = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
slots = []
for k in range(J):
    d = f'{top}/{k}'
    os.mkdir(d)
    subprocess.run(['cp', '-a', os.environ.get('PLANT_REPO', '/repo'), f'{d}/repo'], check=True)
    os.mkdir(f'{d}/verif')
    for x in ('lib', 'checks', 'run.sh', 'known_findings.txt', 'tools'):
        subprocess.run(['cp', '-a', os.path.join(_VERIF, x), f'{d}/verif/'], check=True)
    slots.append(d)


def run(b):
    i, props, path, old, new, n = b
    d = slots.pop()
    f = f'{d}/repo/{path}'
    keep = open(f, encoding='utf8').read()
    try:
        if keep.count(old) != n:
            return i, props, f'BAD count {keep.count(old)}'
        open(f, 'w', encoding='utf8').write(keep.replace(old, new))
        try:
            compile(keep.replace(old, new), f, 'exec')
        except SyntaxError as e:
            return i, props, f'BAD {e}'
        out = []
        for c in props.split(','):
            p = subprocess.run(['bash', f'{d}/verif/run.sh', c, 'quick'], env={
                **os.environ, 'VMC_REPO': f'{d}/repo', 'VMC_FIRST': '1',
                'VMC_JOBS': os.environ.get('PLANT_SLOT', '2')}, capture_output=True, text=True,
                timeout=3000)
            v = [l for l in p.stdout.splitlines() if 'VIOLATION' in l]
            out.append(f'{c} caught' if p.returncode == 1 and v else
                f'{c} MISSED' if p.returncode == 0 else f'{c} exit {p.returncode}')
        return i, props, ' '.join(out)
    finally:
        open(f, 'w', encoding='utf8').write(keep)
        slots.append(d)


with ThreadPoolExecutor(J) as ex:
    for r in ex.map(run, todo):
        print(*r, flush=True)
shutil.rmtree(top)
