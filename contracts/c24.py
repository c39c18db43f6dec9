"""C24: lookup of backends.  The result of the pattern match on each registered name is arbitrary (every combination)."""
from __future__ import annotations

import types

from pyvc import core as C
from pyvc import loader
from pyvc import num as N
from pyvc.api import ob
from pyvc.num import Num

P = "C24"
F = "simulation/qudit_provider.py:MQTQuditProvider."
NAMES = {"tnsim": "TNSim", "misim": "MISim", "innsbruck01": "Innsbruck01", "faketraps2trits": "FakeIonTraps2Trits", "faketraps2six": "FakeIonTraps2Six", "faketraps3six": "FakeIonTraps3Six"}


def mod():
    return loader.load("simulation.qudit_provider")


class Pattern:
    """an arbitrary pattern: whether it matches a name is an arbitrary boolean of that name"""
    def __init__(self, vc):
        self.vc, self.seen = vc, {}

    def search(self, key):
        if key not in self.seen:
            self.seen[key] = bool(self.vc.choose("match_" + key, 2))
        return object() if self.seen[key] else None


def with_pattern(vc, f):
    m = mod()
    pat, asked = Pattern(vc), []

    def comp(name, flags=0):
        asked.append(name)
        return pat
    old = m.re
    m.re = types.SimpleNamespace(compile=comp, search=lambda n, k, flags=0: comp(n).search(k), error=old.error)
    try:
        return pat, asked, f()
    finally:
        m.re = old


@ob(P, "the registry", [F + "get_backend", F + "backends"], case="provider")
def registry(vc):
    p = mod().MQTQuditProvider()
    vc.ensure(sorted(p.backends()) == sorted(NAMES), "all backends are listed without a filter")
    for n, cls in NAMES.items():
        b = p.get_backend(n)
        vc.ensure(type(b).__name__ == cls, f"{n} is a {cls}")
        vc.ensure(b.provider is p, "the backend knows its provider")
        vc.ensure(p.backends(n) == [n], "the listing filtered by a full name is that name")
        vc.ensure(p.get_backend(n) is not b, "each lookup gives a new backend")
    vc.ensure_raises(ValueError, lambda: p.get_backend(None), "no name is an error")
    vc.ensure_raises(ValueError, lambda: p.get_backend(), "no name is an error")
    q = mod().MQTQuditProvider()
    vc.ensure(p == q and hash(p) == hash(q) and not (p == 3), "providers are interchangeable")


@ob(P, "get_backend for an arbitrary pattern", [F + "get_backend"], case="provider")
def lookup(vc):
    p = mod().MQTQuditProvider()

    def f():
        try:
            return p.get_backend("pattern", shots=77)
        except ValueError as e:
            return e
    pat, asked, got = with_pattern(vc, f)
    for n in NAMES:
        pat.search(n)
    hits = [n for n in NAMES if pat.seen[n]]
    vc.ensure(asked == ["pattern"], "the pattern is the name asked for")
    if len(hits) == 1:
        vc.ensure(type(got).__name__ == NAMES[hits[0]], "the single match is returned")
        vc.ensure(got.provider is p and got.options["shots"] == 77, "with its provider and its options")
    else:
        vc.ensure(isinstance(got, ValueError), "no match, or more than one, is an error")


@ob(P, "backends for an arbitrary pattern", [F + "backends"], case="provider")
def listing(vc):
    p = mod().MQTQuditProvider()
    pat, asked, got = with_pattern(vc, lambda: p.backends("pattern"))
    for n in NAMES:
        pat.search(n)
    vc.ensure(got == [n for n in p.backends() if pat.seen[n]], "exactly the names that match")
    vc.ensure(asked == ["pattern"], "the pattern is the name asked for")
