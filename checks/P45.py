"""P45: runs with a log leave one log file telling what was done"""
import itertools
import os
import pathlib
import sys
import time
import mc
import prog
import gravity_toolkit as gt  # noqa: F401  (the package under test)

CHECK = mc.Check('P45', level='bounded_exhaustive',
    rule='distinct (program, history of runs, verbosity, files there before) '
    'runs of the real main program; the folder is compared after every run',
    assumptions=['the folder for the log exists and is writable',
        'the processing of a month is played by a stand-in that returns output '
        'files or raises an exception; one failing run of each program is real'])

# folder of the log: option and part below it
WHERE = {p: ('-O', '.') for p in ('calc_mascon', 'calc_sensitivity_kernel',
    'dealiasing_global_uplift', 'grace_raster_grids', 'grace_spatial_error',
    'grace_spatial_maps', 'piecewise_grace_maps', 'regress_grace_maps',
    'scale_grace_maps')}
WHERE.update(grace_mean_harmonics=('-D', '.'), calc_degree_one=('-D',
    'geocenter'), monte_carlo_degree_one=('-D', 'geocenter'))
TAIL = {'calc_degree_one': 7}


class Stop(Exception):
    """an exception of the program's own kind"""


OUTCOMES = {
    'none': [], 'one': ['first.nc'], 'three': ['b one.nc', 'a_two.txt',
        'sub/three.H5'], 'path': [pathlib.Path('/tmp/x/ünïcode.nc'), 'y.nc'],
    'value': ValueError('no month 007'), 'key': KeyError('clm'),
    'lines': Stop('first line\nsecond line: ünïcode'),
    'file': FileNotFoundError(2, 'No such file', '/missing/data.nc'),
}


def fails(o):
    return isinstance(OUTCOMES.get(o, o), Exception)


def play(rec, program, where, argv, outcome, key, real=False):
    """one run; judges the change of the folder"""
    mod = prog.load(program)
    before = {p: p.read_bytes() for p in where.iterdir() if p.is_file()}
    original = getattr(mod, program)
    seen = []

    def stand_in(*args, **kwargs):
        seen.append((args, kwargs))
        o = OUTCOMES[outcome]
        if isinstance(o, Exception):
            raise o
        if program == 'grace_mean_harmonics':
            return o[0] if o else 'mean.nc'
        if program == 'calc_degree_one':
            return list(o), TAIL[program]
        return list(o)
    if not real:
        setattr(mod, program, stand_in)
    days = {time.strftime('%Y-%m-%d')}
    raised = None
    try:
        log = prog.run(program, *argv)
    except Exception as exc:  # noqa: BLE001
        raised, log = repr(exc), ''
    finally:
        setattr(mod, program, original)
    days.add(time.strftime('%Y-%m-%d'))
    rec.check(raised is None, key + ':raised', str(raised))
    rec.check(real or len(seen) == 1, key + ':calls', str(len(seen)))
    after = {p: p.read_bytes() for p in where.iterdir() if p.is_file()}
    for p, b in before.items():
        rec.check(after.get(p) == b, key + ':earlier file', p.name)
    new = sorted(p for p in after if p not in before)
    wrong = real or fails(outcome)
    rec.check(bool(log) == wrong, key + ':reported', log[-200:])
    if '--log' not in argv:
        rec.eq([p.name for p in new], [], key + ':files')
        return
    if not rec.check(len(new) == 1, key + ':files', str([p.name for p in
            new])):
        return
    name, text = new[0].name, after[new[0]].decode('utf8')
    rec.check(name.endswith('.log') and f'PID-{os.getpid()}' in name and any(d
        in name for d in days), key + ':name', name)
    rec.check(('failed' in name) == wrong, key + ':kind', name)
    # every argument with its value, in alphabetical order
    old, sys.argv = sys.argv, [program] + [str(a) for a in argv]
    try:
        args, _ = mod.arguments().parse_known_args([str(a) for a in argv])
    finally:
        sys.argv = old
    at = -1
    for k, v in sorted(vars(args).items()):
        i = text.find(f'{k}: {v}')
        rec.check(i >= 0, key + ':argument', k)
        rec.check(i < 0 or any(text.startswith(x, text.rfind('\n', 0, i) + 1)
            for x in (f'INFO:root:{k}: ', f'{k}: ')) and i > at, key +
            ':argument place', k)
        at = max(i, at)
    if real:
        rec.check('Traceback' in text and 'Error' in text, key + ':traceback')
    elif wrong:
        o = OUTCOMES[outcome]
        shown = str(o).split('\n')
        rec.check('Traceback' in text[at:] and type(o).__name__ in text[at:]
            and all(s in text[at:] for s in shown), key + ':traceback',
            text[-300:])
        rec.check('stand_in' in text[at:], key + ':stack')
    else:
        o = OUTCOMES[outcome]
        if program == 'grace_mean_harmonics':
            o = o[:1] or ['mean.nc']
        for f in o:
            rec.check(str(f) in text[at:], key + ':output', str(f))
        rec.check('Traceback' not in text, key + ':clean')
        if program in TAIL and '--iterative' in argv:
            rec.check(any('ITERATIONS' in x.upper() and str(TAIL[program]) in x
                for x in text[at:].splitlines()), key + ':iterations')
        if program == 'monte_carlo_degree_one':
            rec.check(any('ITERATIONS' in x.upper() and str(args.runs) in x
                for x in text[at:].splitlines()), key + ':runs')


def needed(program, d):
    """options the program cannot do without"""
    out = []
    for a in prog.load(program).arguments()._actions:
        if a.required and a.option_strings:
            out += [a.option_strings[0], str(a.choices[0] if a.choices else
                d/'missing')]
    return out


@CHECK.block('histories', params=lambda tier: [(tier, p) for p in WHERE],
    timeout=900)
def histories(rec, arg):
    """sequences of successful and failing runs into one folder"""
    tier, program = arg
    option, below = WHERE[program]
    depth = 3 if tier == 'thorough' else 2
    verb = ([], ['-V'], ['-V', '-V'])
    more = [[]]
    if program == 'calc_degree_one':
        more.append(['--iterative'])
    if program == 'monte_carlo_degree_one':
        more.append(['--runs', 23])
    for n in range(1, depth + 1):
        names = list(OUTCOMES) if n < 3 else ['one', 'path', 'value', 'lines']
        for hist in itertools.product(names, repeat=n):
            for k, v in enumerate(verb):
                if n == 2 and k != (sum(map(names.index, hist)) % 3) and \
                        tier != 'thorough':
                    continue
                for m in more:
                    key = f'{program}:{"+".join(hist)}:{k}:{m}'
                    rec.case(key)
                    d = pathlib.Path(rec.mkdir())
                    where = d/below
                    where.mkdir(exist_ok=True)
                    (where/'other.log').write_bytes(b'kept')
                    for j, o in enumerate(hist):
                        play(rec, program, where, [option, d, '--log', *v, *m,
                            *needed(program, d)],
                            o, f'{key}:{j}')


@CHECK.block('plain', params=lambda tier: list(WHERE))
def plain(rec, program):
    """no log unless asked for, and runs with and without in turn"""
    option, below = WHERE[program]
    for hist in itertools.product(('one', 'value'), (0, 1), ('one', 'value'),
            (0, 1)):
        key = f'{program}:{hist}'
        rec.case(key)
        d = pathlib.Path(rec.mkdir())
        where = d/below
        where.mkdir(exist_ok=True)
        for j in (0, 1):
            play(rec, program, where, [option, d, *needed(program, d)] +
                ['--log']*hist[2*j + 1],
                hist[2*j], f'{key}:{j}')


@CHECK.block('real', params=lambda tier: list(WHERE))
def real(rec, program):
    """a real run without the data it needs"""
    option, below = WHERE[program]
    for k in range(3):
        key = f'{program}:{k}'
        rec.case(key)
        d = pathlib.Path(rec.mkdir())
        where = d/below
        where.mkdir(exist_ok=True)
        argv = [option, d, '--log', *needed(program, d)] + ['-V']*k
        if option == '-O' and program not in ('calc_sensitivity_kernel',
                'piecewise_grace_maps', 'regress_grace_maps'):
            argv += ['-D', d]
        play(rec, program, where, argv, None, key, real=True)
