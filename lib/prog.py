"""running the command line programs of the repository"""
import contextlib
import importlib.util
import io
import logging
import os
import pathlib
import sys

REPO = os.environ.get('VMC_REPO', '/repo')
_MODULES = {}
OUTPUT = ['']       # standard output of the last program
RETURNED = [None]   # files the last program says it wrote


def _spy(mod, name):
    """keep what the processing function of a program returns"""
    real = getattr(mod, name, None)
    RETURNED[0] = None
    if not callable(real):
        return lambda: None

    def call(*args, **kwargs):
        out = real(*args, **kwargs)
        files = out[0] if isinstance(out, tuple) else out
        if isinstance(files, (str, os.PathLike)):
            files = [files]
        if isinstance(files, list):
            RETURNED[0] = sorted({os.path.realpath(f) for f in files})
        return out
    setattr(mod, name, call)
    return lambda: setattr(mod, name, real)


def said(before, *folders):
    """files written that the last program did not name, and files it named
    that are not there"""
    new, told = listing(*folders) - before, RETURNED[0]
    if told is None:
        return 'nothing returned'
    return sorted(new - set(told)) + [f'no {f}' for f in told if not
        os.path.exists(f)]


def listing(*folders):
    return {os.path.realpath(p) for d in folders for p in
        pathlib.Path(d).rglob('*') if p.is_file()}


def load(name):
    """module of a program (not run)"""
    if name.startswith('gravity_toolkit.'):     # modules run as programs
        return importlib.import_module(name)
    if name not in _MODULES:
        path = pathlib.Path(REPO)/'scripts'/f'{name}.py'
        spec = importlib.util.spec_from_file_location(f'prog_{name}', path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[f'prog_{name}'] = mod
        spec.loader.exec_module(mod)
        _MODULES[name] = mod
    return _MODULES[name]


def run(name, *argv):
    """run a program with command line arguments; returns what it logged as
    errors (programs report a failure in the log)"""
    mod = load(name)
    buf = io.StringIO()
    handler = logging.StreamHandler(buf)
    handler.setLevel(logging.ERROR)
    root = logging.getLogger()
    level, disabled = root.level, root.manager.disable
    saved = list(root.handlers)
    root.handlers = [handler]
    root.setLevel(logging.ERROR)
    logging.disable(logging.NOTSET)
    old = sys.argv
    sys.argv = [str(pathlib.Path(REPO)/'scripts'/f'{name}.py')] + [str(a) for
        a in argv]
    out = io.StringIO()
    restore = _spy(mod, name)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            mod.main()
    except SystemExit as exc:
        if exc.code:
            buf.write(f'exit {exc.code} {out.getvalue()}')
    finally:
        restore()
        OUTPUT[0] = out.getvalue()
        sys.argv = old
        root.handlers = saved
        root.setLevel(level)
        logging.disable(disabled)
    return buf.getvalue()
