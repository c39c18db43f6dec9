"""Loads the real modules of mqt.qudits from /repo/src on every run.

What the extraction changes, mechanically and nowhere else:
 * `for` statements get a second form that is taken only when the iterable has a symbolic length (see loops.py);
 * comprehensions over one iterable likewise;
 * names looked up in builtins (isinstance, range, len, int, ...) are those of builtins_.py;
 * `import numpy/scipy/...` gives the stand-ins.
Nothing is dropped: every statement of the repository file is executed.
"""
from __future__ import annotations

import ast
import builtins as B
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import builtins_, loops, symnp
from .num import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "mqt", "qudits")

STANDINS = {}
LOADED = {}


class Opaque(types.ModuleType):
    """a dependency without contracts: importing names is fine, using them is not"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        full = f"{self.__name__}.{n}"

        class Stub:
            def __init__(self, *a, **k):
                raise Unsupported(full)

            def __class_getitem__(cls, i):
                return cls
        Stub.__name__ = n
        Stub.__qualname__ = n
        return Stub


class OpaqueFn:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        raise Unsupported(self.name)


def standin(name):
    if name in STANDINS:
        return STANDINS[name]
    top = name.split(".")[0]
    if top == "numpy":
        if "numpy" not in STANDINS:
            STANDINS["numpy"] = symnp.make()
        np_ = STANDINS["numpy"]
        if name == "numpy":
            return np_
        return getattr(np_, name.split(".")[1])
    m = Opaque(name)
    STANDINS[name] = m
    if name == "scipy.linalg":
        m.expm = symnp.expm
    if "." in name:
        parent = standin(name.rsplit(".", 1)[0])
        object.__setattr__(parent, name.rsplit(".", 1)[1], m)
    return m


REAL_OK = {"networkx", "__future__", "typing", "itertools", "operator", "functools", "copy", "enum", "re", "dataclasses", "abc",
           "collections", "random", "string", "pathlib", "locale", "typing_extensions", "time", "uuid", "gc", "os", "math", "math_",
           "multiprocessing", "warnings", "contextlib", "getpass", "textwrap", "queue", "bisect", "heapq", "types", "inspect", "numbers",
           "fractions", "json", "sys", "logging", "statistics", "cmath", "threading", "signal", "concurrent"}


def vc_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals.get("__package__")
        name = importlib.util.resolve_name("." * level + name, pkg)
        level = 0
        m = _imp(name)
        if not fromlist:
            return _imp(name.split(".")[0])
    elif name == "mqt" or name.startswith("mqt."):
        m = _imp(name)
        if not fromlist:
            return _imp("mqt")
    else:
        top = name.split(".")[0]
        if top == "itertools":
            return loops.itertools_module()
        if top == "functools" or top in REAL_OK and top not in ("math",):
            return B.__import__(name, globals, locals, fromlist, level)
        if top == "math":
            return loops.math_module()
        m = standin(name)
        if not fromlist:
            return standin(top)
        for f in fromlist:
            if f != "*" and f"{name}.{f}" in STANDINS:
                object.__setattr__(m, f, STANDINS[f"{name}.{f}"])
        return m
    for f in fromlist:
        if f == "*":
            continue
        if not hasattr(m, f):
            try:
                _imp(f"{name}.{f}")
            except ModuleNotFoundError as e:
                raise ImportError(f"cannot import name {f!r} from {name!r}") from e
    return m


def _imp(name):
    if name in LOADED:
        return LOADED[name]
    parts = name.split(".")
    if parts[:2] != ["mqt", "qudits"]:
        if name == "mqt":
            m = types.ModuleType("mqt")
            m.__path__ = []
            LOADED[name] = m
            return m
        raise ModuleNotFoundError(name)
    if len(parts) > 2:
        parent = _imp(".".join(parts[:-1]))
    else:
        parent = _imp("mqt")
    if name in LOADED:
        return LOADED[name]
    if parts[2:3] == ["_qudits"]:
        m = standin_qudits(name)
        LOADED[name] = m
        setattr(parent, parts[-1], m)
        return m
    rel = os.path.join(SRC, *parts[2:])
    if os.path.isdir(rel):
        path, ispkg = os.path.join(rel, "__init__.py"), True
    else:
        path, ispkg = rel + ".py", False
    if name == "mqt.qudits._version" and not os.path.exists(path):      # written by the build, no behaviour
        m = types.ModuleType(name)
        m.version = m.__version__ = "0.0"
        m.version_tuple = m.__version_tuple__ = (0, 0)
        LOADED[name] = m
        setattr(parent, parts[-1], m)
        return m
    if not os.path.exists(path):
        raise ModuleNotFoundError(name)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name if ispkg else ".".join(parts[:-1])
    if ispkg:
        m.__path__ = [rel]
    LOADED[name] = m
    if name == "mqt.qudits":
        # the package's own __init__ only re-exports; it is executed like the others
        pass
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src, path)
    tree = loops.transform(tree, name)
    code = compile(tree, path, "exec")
    bd = dict(B.__dict__)
    bd.update(builtins_.shadow())
    bd["__import__"] = vc_import
    m.__dict__["__builtins__"] = bd
    m.__dict__["vc__rt"] = loops.RT
    m.__spec__ = importlib.machinery.ModuleSpec(name, None, is_package=ispkg)
    sys.modules.setdefault(name, m)      # dataclasses and typing look modules up here
    try:
        exec(code, m.__dict__)
    except BaseException:
        LOADED.pop(name, None)
        raise
    setattr(parent, parts[-1], m)
    return m


def standin_qudits(name):
    return standin_mod(name)


def standin_mod(name):
    m = Opaque(name)
    if name.endswith("_qudits"):
        m.misim = Opaque(name + ".misim")
        LOADED[name + ".misim"] = m.misim
    return m


def load(name):
    if SRC and not os.path.isdir(SRC):
        raise FileNotFoundError(SRC)
    return _imp("mqt.qudits." + name if name else "mqt.qudits")


def source_lines():
    return sum(1 for m in LOADED.values() if getattr(m, "__file__", None) for _ in open(m.__file__))
