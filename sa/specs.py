"""Reference specifications: parsed by the same front end, never executed."""
import ast
import os
from .terms import *
from .values import *
from .interp import ModuleInfo, Ctx

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(tree, name):
    """Make /verif/spec/<name>.py available to the interpreter as module spec.<name>."""
    mod = "spec." + name
    p = tree.project
    if mod not in p.modules:
        path = os.path.join(HERE, "spec", name + ".py")
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        m = ModuleInfo(mod, "spec/%s.py" % name, ast.parse(src, path))
        m.ispkg, m.src = False, src
        p.modules[mod] = m
        tree.proto.load_module(mod)
    return p.modules[mod]


def fn(tree, name, func):
    return load(tree, name).env.get(func)


def fn_params(f):
    a = f.fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def call(I, m, f, args, kw, st):
    """Interpret a specification function; returns (value, ctx)."""
    ctx = Ctx("<spec %s>" % f.fn.name, m, None)
    v = I.call(f, list(args), dict(kw), st, ctx, f.fn)
    return v, ctx
