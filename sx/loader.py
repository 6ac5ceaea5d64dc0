"""Load the modules of /repo/bdld from source with symbolic numpy, files and random numbers."""
import ast
import builtins
import os
import sys
import types

from . import core, npx

REPO = os.environ.get("SX_REPO", "/repo")
_CODE = {}


class _T(ast.NodeTransformer):
    """a % b  ->  __sx_mod__(a, b)   (string formatting of symbolic values)"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(func=ast.Name(id="__sx_mod__", ctx=ast.Load()), args=[node.left, node.right], keywords=[]),
                node,
            )
        return node


def _code(path):
    c = _CODE.get(path)
    if c is None:
        src = open(path, encoding="utf-8").read()
        tree = _T().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        c = _CODE[path] = compile(tree, path, "exec")
    return c


def sx_mod(a, b):
    if isinstance(a, str):
        items = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, (core.SymReal, npx.SymArray)) for x in items):
            import re

            n = iter(items)
            return re.sub(r"%(?:%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])", lambda m: "%" if m.group() == "%%" else _one(m.group(), next(n)), a)
        return a % b
    return a % b


def _one(spec, x):
    if isinstance(x, core.SymReal):
        return core.CTX.token(x, spec)
    return spec % (x,)


class Loader:
    def __init__(self, env):
        from .env import process_hash, shifted

        self.env = env
        self.mods = {}
        self.proxies = dict(npx.make_modules(env))
        self.proxies.update(env.extra_modules())
        b = dict(vars(builtins))
        b["__import__"] = self.imp
        b["float"] = npx.SxFloat
        b["int"] = npx.SxInt
        b["len"] = npx.sx_len
        b["range"] = npx.SxRange
        b["print"] = env.py_print
        b["open"] = env.fs_open
        b["input"] = env.py_input
        b["__sx_mod__"] = sx_mod
        b["hash"] = process_hash(env)
        b["id"] = shifted(env, id, 65536)
        self.builtins = b

    def find(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        raise ModuleNotFoundError("No module named %r" % name)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.proxies:
            return self.proxies[name]
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        path, pkg = self.find(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = parent
        self.mods[name] = m
        if os.path.isfile(path):
            try:
                exec(_code(path), m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        if parent and parent in self.mods:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            base = pkg.split(".")
            base = base[: len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == "bdld":
            m = self.load(name)
            if not fromlist:
                return self.load("bdld")
            for f in fromlist:
                if f == "*":
                    continue
                if not hasattr(m, f):
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError:
                        if name + "." + f in self.proxies:
                            setattr(m, f, self.proxies[name + "." + f])
            return m
        if top in self.proxies:
            if fromlist:
                if name in self.proxies:
                    return self.proxies[name]
                m = self.proxies[top]
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
            return self.proxies[top]
        if top in ("random", "secrets", "uuid"):
            self.env.other_random(top)
        return builtins.__import__(name, globals, locals, fromlist, level)
