"""Run-time side: the contracts as executable oracles over the real package under CPython and numpy."""
from __future__ import annotations

import importlib.util
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup():
    """import mqt.qudits from /repo/src; the compiled module is the one built by this check, else the installed one"""
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    sys.meta_path[:] = [f for f in sys.meta_path if "ScikitBuild" not in type(f).__name__ and "Editable" not in type(f).__name__]
    sys.path.insert(0, os.path.join(REPO, "src"))
    mqt = types.ModuleType("mqt")
    mqt.__path__ = [os.path.join(REPO, "src", "mqt")]
    sys.modules["mqt"] = mqt
    if not os.path.exists(os.path.join(REPO, "src", "mqt", "qudits", "_version.py")):
        v = types.ModuleType("mqt.qudits._version")
        v.version = v.__version__ = "0.0"
        v.version_tuple = v.__version_tuple__ = (0, 0)
        sys.modules["mqt.qudits._version"] = v
    so = os.environ.get("VERIF_SO")
    if not so:
        import sysconfig
        import glob
        c = glob.glob(os.path.join(sysconfig.get_path("purelib"), "mqt", "qudits", "_qudits*.so"))
        so = c[0] if c else None
    if so:
        spec = importlib.util.spec_from_file_location("_qudits", so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        sys.modules["mqt.qudits._qudits"] = m
        sys.modules["mqt.qudits._qudits.misim"] = m.misim


class Violation(Exception):
    pass


def expect(cond, msg):
    if not cond:
        raise Violation(msg)


CASES = {}
GENS = {}
FINDINGS = {}
SEARCHES = {}       # case -> seconds of processor time after which a case with an exponential search is given up


def case(name):
    def deco(f):
        CASES[name] = f
        return f
    return deco


def gen(prop):
    def deco(f):
        GENS[prop] = f
        return f
    return deco


def finding(prop, ident):
    """a probe of a known finding: returns True while the defect is there"""
    def deco(f):
        FINDINGS.setdefault(prop, []).append((ident, f))
        return f
    return deco
