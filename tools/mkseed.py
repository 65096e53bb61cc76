"""Write /verif/seeded/<id> from a definition: edits of /repo's files

usage: mkseed.py DEFS.py [ID ...]   (DEFS.py calls seed(...))
"""
import json
import os
import pathlib
import shutil
import subprocess
import sys

DEFS = {}


def seed(name, prop, edits, needs, breaks, demo):
    DEFS[name] = (prop, edits, needs, breaks, demo)


def write(name):
    prop, edits, needs, breaks, demo = DEFS[name]
    out = pathlib.Path('/verif/seeded')/name
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir(parents=True)
    tmp = pathlib.Path('/tmp/mkseed')
    shutil.rmtree(tmp, ignore_errors=True)
    patch = ''
    for file in dict.fromkeys(e[0] for e in edits):
        src = pathlib.Path('/repo')/file
        for side in 'ab':
            (tmp/side/file).parent.mkdir(parents=True, exist_ok=True)
        text = src.read_text()
        (tmp/'a'/file).write_text(text)
        for f, old, new in edits:
            if f != file:
                continue
            if isinstance(old, tuple):
                old, nth = old
            else:
                nth = None
            n = text.count(old)
            assert n == 1 or nth is not None and n > nth, (name, old, n)
            if nth is None:
                text = text.replace(old, new)
            else:
                parts = text.split(old)
                text = old.join(parts[:nth + 1]) + new + old.join(
                    parts[nth + 1:])
        (tmp/'b'/file).write_text(text)
        # lines that the fixes of this work added do not count
        blame = subprocess.run(['git', '-C', '/repo', 'blame', '-s', file],
            capture_output=True, text=True).stdout.splitlines()
        root = subprocess.run(['git', '-C', '/repo', 'rev-list',
            '--max-parents=0', 'HEAD'], capture_output=True,
            text=True).stdout[:7]
        old_lines = (tmp/'a'/file).read_text().splitlines()
        import difflib
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, old_lines,
                text.splitlines(), autojunk=False).get_opcodes():
            if tag != 'equal':
                for b in blame[i1:i2]:
                    if not b.lstrip('^').startswith(root):
                        print('NOT ORIGINAL:', name, b)
        patch += f'diff --git a/{file} b/{file}\n' + subprocess.run(['diff',
            '-u', '--label', f'a/{file}', '--label', f'b/{file}', str(tmp/
            'a'/file), str(tmp/'b'/file)], capture_output=True,
            text=True).stdout
    (out/'patch.diff').write_text(patch)
    (out/'demo.py').write_text(demo.strip('\n') + '\n')
    (out/'demo.sh').write_text('#!/bin/bash\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    (out/'meta.json').write_text(json.dumps(dict(property=prop, needs=needs,
        what_it_breaks=breaks), indent=1) + '\n')
    r = subprocess.run(['git', '-C', '/repo', 'apply', '--check',
        str(out/'patch.diff')], capture_output=True, text=True)
    print(name, 'applies' if r.returncode == 0 else r.stderr)


if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    for name in sys.argv[2:] or DEFS:
        write(name)
