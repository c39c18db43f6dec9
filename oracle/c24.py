"""C24 at run time."""
from __future__ import annotations

import re
import string

from .base import case, expect, gen

NAMES = {"tnsim": "TNSim", "misim": "MISim", "innsbruck01": "Innsbruck01", "faketraps2trits": "FakeIonTraps2Trits", "faketraps2six": "FakeIonTraps2Six", "faketraps3six": "FakeIonTraps3Six"}


@case("provider")
def provider(names=None, **_):
    from mqt.qudits.simulation import MQTQuditProvider
    p = MQTQuditProvider()
    expect(sorted(p.backends()) == sorted(NAMES), f"listing {p.backends()}")
    for n in [*NAMES] if names is None else names:
        try:
            rx = re.compile(n)
        except re.error:
            continue
        want = [k for k in NAMES if rx.search(k)]
        expect(sorted(p.backends(n)) == sorted(want), f"listing of {n!r}: {p.backends(n)} instead of {want}")
        try:
            b = p.get_backend(n)
        except ValueError:
            expect(len(want) != 1, f"{n!r} is not found")
            continue
        expect(len(want) == 1 and type(b).__name__ == NAMES[want[0]] and b.provider is p, f"{n!r} gives {type(b).__name__}")
    try:
        p.get_backend(None)
        expect(False, "no name is accepted")
    except ValueError:
        pass


@gen("C24")
def g(r, budget):
    yield "provider", {}
    while True:
        out = []
        for _ in range(12):
            n = r.choice(list(NAMES))
            k = r.random()
            if k < 0.3:
                a = r.randrange(len(n))
                n = n[a:r.randint(a + 1, len(n))]
            elif k < 0.5:
                n = n.upper() if r.random() < 0.5 else n.capitalize()
            elif k < 0.6:
                n = n + r.choice(string.ascii_lowercase)
            elif k < 0.7:
                n = r.choice(["^", ""]) + n[:r.randint(1, len(n))] + r.choice(["$", ".*", ""])
            elif k < 0.8:
                n = "".join(r.choice(string.ascii_lowercase + string.digits) for _ in range(r.randint(0, 3)))
            elif k < 0.85:
                n = "|".join(r.sample(list(NAMES), 2))
            out.append(n)
        yield "provider", dict(names=out)
