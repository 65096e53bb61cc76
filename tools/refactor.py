"""Mechanical refactorings of a copy of the repository (development only):
usage: refactor.py REPO_COPY   rewrites every module and program so that it
behaves as before: comments dropped, local variables renamed, the body of every
function moved to a helper.  The checks have to stay quiet on the result."""
import ast, pathlib, sys

SKIP = {'__init__', '__new__', '__getattr__', '__setattr__'}


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            n.id = n.id + '_x'
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = n.name + '_x'
        return n


def arg_names(f):
    a = f.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return out + [x.arg for x in (a.vararg, a.kwarg) if x]


def rename_locals(f):
    inner = [n for n in ast.walk(f) if n is not f and isinstance(n, (
        ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal))]
    text = ast.unparse(f)
    if inner or 'locals()' in text or 'globals()' in text or 'eval(' in text:
        return
    imported = {a.asname or a.name.split('.')[0] for n in ast.walk(f) if
        isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and
        isinstance(n.ctx, ast.Store)} - set(arg_names(f)) - imported
    names |= {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler)
        and n.name}
    r = Rename(names)
    f.body = [r.visit(s) for s in f.body]


def split(f, method):
    """(function, helper) or None"""
    if f.name.startswith('__') or any(isinstance(n, (ast.Yield, ast.YieldFrom,
            ast.AsyncFunctionDef)) for n in ast.walk(f)):
        return None
    if any(not isinstance(d, ast.Name) or d.id not in ('property',) for d in
            f.decorator_list):
        return None
    if method and (not f.args.args or f.args.args[0].arg != 'self'):
        return None
    doc = ast.get_docstring(f, clean=False)
    body = f.body[1:] if doc is not None else f.body
    if not body:
        return None
    a = f.args
    helper = ast.FunctionDef(name=f'_{f.name.lstrip("_")}_impl', args=
        ast.arguments(posonlyargs=a.posonlyargs, args=a.args, vararg=a.vararg,
        kwonlyargs=a.kwonlyargs, kw_defaults=[None]*len(a.kwonlyargs),
        kwarg=a.kwarg, defaults=[]), body=body, decorator_list=[],
        type_params=[])
    name = ast.Name(helper.name, ast.Load())
    pos = [x.arg for x in a.posonlyargs + a.args]
    if method:
        name = ast.Attribute(ast.Name('self', ast.Load()), helper.name,
            ast.Load())
        pos = pos[1:]
    call = ast.Call(name, [ast.Name(x, ast.Load()) for x in pos] + ([
        ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if
        a.vararg else []), [ast.keyword(x.arg, ast.Name(x.arg, ast.Load()))
        for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg,
        ast.Load()))] if a.kwarg else []))
    f.body = f.body[:1 if doc is not None else 0] + [ast.Return(call)]
    return helper


def walk(body, method):
    out = []
    for n in body:
        if isinstance(n, ast.FunctionDef):
            rename_locals(n)
            h = split(n, method)
            out += [h, n] if h else [n]
        else:
            if isinstance(n, ast.ClassDef):
                n.body = walk(n.body, True)
            out.append(n)
    return out


top = pathlib.Path(sys.argv[1])
for p in [*top.glob('gravity_toolkit/**/*.py'), *top.glob('scripts/*.py')]:
    tree = ast.parse(p.read_text(encoding='utf8'))
    tree.body = walk(tree.body, False)
    p.write_text(ast.unparse(ast.fix_missing_locations(tree)),
        encoding='utf8')
