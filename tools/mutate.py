"""Mutation survey of the checks (development only, no check reads this)

usage: mutate.py FILE CHECK,CHECK.. [--every N] [--offset K] [--jobs J] [--out F]

Every N-th small change to FILE (relative to the package) is made in a scratch
copy of the repository and the quick checks are run against it, stopping at the
first violation.  Prints the changes that no check notices.
"""
import argparse, ast, os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor

SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
    ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
    ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '//'}


def mutants(text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()

    def off(line, col):
        return starts[line-1] + col

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    out = []

    def put(a, b, new, line):
        old = raw[a:b].decode()
        if old.strip() != new.strip():
            out.append((line, a, b, old, new))
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(
                node.ops[0]) in SWAP:
            a, b = span(node.left)[1], span(node.comparators[0])[0]
            seg = raw[a:b].decode()
            for o in ('<=', '>=', '==', '!=', '<', '>'):
                if o in seg:
                    put(a, b, seg.replace(o, SWAP[type(node.ops[0])], 1),
                        node.lineno)
                    break
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            a, b = span(node.left)[1], span(node.right)[0]
            seg = raw[a:b].decode()
            for o in ('**', '//', '+', '-', '*', '/', '%'):
                if o in seg:
                    if isinstance(node.left, (ast.Constant, ast.JoinedStr)) \
                            and isinstance(getattr(node.left, 'value', ''),
                            str):
                        break
                    put(a, b, seg.replace(o, BIN[type(node.op)], 1),
                        node.lineno)
                    break
        elif isinstance(node, ast.AugAssign) and type(node.op) in BIN:
            a, b = span(node.target)[1], span(node.value)[0]
            seg = raw[a:b].decode()
            o = {'-': '+=', '+': '-=', '/': '*=', '*': '/='}.get(
                BIN[type(node.op)])
            if o and o in seg:
                put(a, b, seg.replace(o, BIN[type(node.op)] + '='),
                    node.lineno)
        elif isinstance(node, ast.Constant) and not isinstance(node.value,
                str) and node.value is not None and node.value is not Ellipsis:
            a, b = span(node)
            v = node.value
            if isinstance(v, bool):
                put(a, b, str(not v), node.lineno)
            elif isinstance(v, int):
                put(a, b, str(v + 1), node.lineno)
            elif isinstance(v, float):
                put(a, b, repr(v*1.01 if v else 0.01), node.lineno)
        elif isinstance(node, ast.BoolOp):
            a, b = span(node.values[0])[1], span(node.values[1])[0]
            seg = raw[a:b].decode()
            if ' and ' in seg or ' or ' in seg:
                put(a, b, seg.replace('and', '\0').replace('or', 'and').
                    replace('\0', 'or'), node.lineno)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub,
                ast.Not)):
            a, b = span(node)
            c = span(node.operand)[0]
            put(a, c, ' ', node.lineno)
        elif isinstance(node, ast.Call):
            a, b = span(node)
            if isinstance(node.func, ast.Attribute) and node.func.attr in (
                    'copy', 'squeeze', 'strip', 'sorted') and not (
                    isinstance(node.func.value, ast.Name) and
                    node.func.value.id in ('np', 'copy', 'shutil')):
                x, y = span(node.func.value)
                put(a, b, raw[x:y].decode(), node.lineno)
            elif isinstance(node.func, ast.Attribute) and node.func.attr in (
                    'copy', 'abs', 'squeeze', 'sort') and len(node.args) == 1:
                x, y = span(node.args[0])
                put(a, b, raw[x:y].decode(), node.lineno)
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                ast.Continue, ast.Break)) and not (isinstance(node, ast.Expr)
                and isinstance(node.value, ast.Constant)):
            a, b = span(node)
            if not (isinstance(node, ast.Expr) and ('log' in raw[a:b].decode()
                    or 'print' in raw[a:b].decode())):
                put(a, b, 'pass', node.lineno)
        if isinstance(node, ast.If):
            a, b = span(node.test)
            put(a, b, f'not ({raw[a:b].decode()})', node.lineno)
    out.sort()
    return out


def run(job):
    path, m, checks, slot, timeout = job
    d = slots.pop()
    try:
        repo, ver = f'{d}/repo', f'{d}/verif'
        f = f'{repo}/{path}'
        keep = open(f, 'rb').read()
        line, a, b, old, new = m
        text = keep[:a] + new.encode() + keep[b:]
        with open(f, 'wb') as g:
            g.write(text)
        try:
            compile(text, f, 'exec')
        except SyntaxError:
            with open(f, 'wb') as g:
                g.write(keep)
            return m, 'syntax'
        res = 'SURVIVED'
        for c in checks:
            p = subprocess.run(['bash', f'{ver}/run.sh', c, 'quick'], env={
                **os.environ, 'VMC_REPO': repo, 'VMC_FIRST': '1', 'VMC_JOBS':
                str(slot)}, capture_output=True, text=True, timeout=1200)
            if p.returncode == 1 and 'VIOLATION' in p.stdout:
                res = c
                break
            if p.returncode != 0:
                res = f'{c}:exit {p.returncode}'
                break
        with open(f, 'wb') as g:
            g.write(keep)
        return m, res
    finally:
        slots.append(d)


ap = argparse.ArgumentParser()
ap.add_argument('file')
ap.add_argument('checks')
ap.add_argument('--every', type=int, default=1)
ap.add_argument('--offset', type=int, default=0)
ap.add_argument('--jobs', type=int, default=4)
ap.add_argument('--per', type=int, default=2)
ap.add_argument('--lines', default='')
ap.add_argument('--repo', default='/repo')
ap.add_argument('--out', default='')
args = ap.parse_args()
text = open(f'{args.repo}/{args.file}').read()
ms = mutants(text)
if args.lines:
    lo, hi = map(int, args.lines.split('-'))
    ms = [m for m in ms if lo <= m[0] <= hi]
ms = ms[args.offset::args.every]
print(args.file, len(ms), 'changes', flush=True)
base = tempfile.mkdtemp(prefix='mut_')
slots = []
for j in range(args.jobs):
    d = f'{base}/{j}'
    os.makedirs(f'{d}/verif')
    subprocess.run(['cp', '-a', args.repo, f'{d}/repo'], check=True)
    for q in ('checks', 'lib', 'run.sh', 'known_findings.txt', 'data'):
        if os.path.exists(f'/verif/{q}'):
            subprocess.run(['cp', '-a', f'/verif/{q}', f'{d}/verif/'],
                check=True)
    slots.append(d)
try:
    counts = {}
    with ThreadPoolExecutor(args.jobs) as ex:
        for m, res in ex.map(run, [(args.file, m, args.checks.split(','),
                args.per, 900) for m in ms]):
            counts[res] = counts.get(res, 0) + 1
            if res == 'SURVIVED' or 'exit' in res:
                line = text.splitlines()[m[0]-1].strip()
                print(f'{res} {m[0]}: {m[3][:60]!r} -> {m[4][:60]!r} | '
                    f'{line[:100]}', flush=True)
    print(args.file, counts, flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
