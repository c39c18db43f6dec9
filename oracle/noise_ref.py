"""What a noise model declares for a circuit, as data: used by the contracts (symbolic probabilities) and by the run-time oracle.

gate  = {kind, lines, params, ctl, dag}      model = [(tag, mode, noise), ...] in the order the model holds them
noise = ("math", p, q)  or  ("sub", [((a, b), p, q), ...])  or  ("dyn", p, q)

slots(...) gives, for one gate, a list of (line, draws); a draw is a list of (inserted gates, probability).
An inserted gate is (kind, line, levels)."""

DYNAMIC = {"r", "rz", "rh", "cx", "cx0"}


class Rejected(Exception):
    """the model does not fit the gate: an error is due"""

    def __init__(self, exc):
        self.exc = exc


def affected(g, mode, n):
    ctl = list(g["ctl"][0]) if g.get("ctl") else []
    tgt = list(g["lines"])
    size = len(ctl) + len(tgt)
    if mode == "local":
        return ctl + tgt
    if mode == "all":
        return list(range(n))
    if mode == "nonlocal":
        if size < 2:
            raise Rejected(ValueError)
        return ctl + tgt
    if mode == "control":
        if size != 2:
            raise Rejected(ValueError)
        return ctl or tgt[:1]
    if mode == "target":
        return tgt if ctl or len(tgt) == 1 else tgt[1:]
    raise Rejected(ValueError)


def subspaces(noise, g):
    if noise[0] == "sub":
        return [(tuple(sorted(lv)), p, q) for lv, p, q in noise[1]]
    if g["kind"] in DYNAMIC:
        ps = g.get("params") or [0, 1]
        return [(tuple(sorted(ps[:2])), noise[1], noise[2])]
    return [((-2, -1), noise[1], noise[2])]


def draws(noise, g, line, d):
    if noise[0] == "math":
        p = noise[1]
        each = p / (d * d)
        return [[([("x", line, None)] * a + [("z", line, None)] * b, 1 - each * (d * d - 1) if a == b == 0 else each) for a in range(d) for b in range(d)]]
    out, deph = [], []
    for (a, b), p, q in subspaces(noise, g):
        if not (0 <= a < d and 0 <= b < d):
            raise Rejected(IndexError)
        out.append([([], 1 - 3 * (p / 4)), ([("noisex", line, (a, b))], p / 4), ([("flip", line, (b,))], p / 4), ([("noisey", line, (a, b))], p / 4)])
        deph += [[([], 1 - q), ([("flip", line, (k,))], q)] for k in range(d) if k not in (a, b)]
    return out + deph


def slots(g, tag, model, dims):
    out = []
    for t, mode, noise in model:
        if t != tag:
            continue
        out += [(line, dr) for line in affected(g, mode, len(dims)) for dr in draws(noise, g, line, dims[line])]
    return out


def describe(gate):
    """an inserted gate as data"""
    k = type(gate).__name__
    if k in ("X", "Z"):
        ok, what = True, (k.lower(), gate.target_qudits, None)
    elif k in ("NoiseX", "NoiseY"):
        ok, what = True, (k.lower(), gate.target_qudits, (min(gate._params[:2]), max(gate._params[:2])))
    elif k == "VirtRz":
        ok, what = is_pi(gate._params[1]), ("flip", gate.target_qudits, (gate._params[0],))
    else:
        return None
    return what if ok and not gate.dagger and not gate.get_control_lines else None


def is_pi(x):
    import math
    try:
        return abs(float(x) - math.pi) < 1e-12
    except (TypeError, ValueError):
        return False


def parses(inserted, dr):
    """all ways to read the gates inserted on one line as outcomes of its draws, as lists of probabilities"""
    if not dr:
        return [[]] if not inserted else []
    out = []
    for gates, p in dr[0]:
        if inserted[:len(gates)] == gates:
            out += [[p, *r] for r in parses(inserted[len(gates):], dr[1:])]
    return out


def readings(inserted, slot):
    """inserted: descriptions in order; returns a list of lists of probabilities, empty if the insertion is not declared"""
    lines = {line for line, _ in slot}
    if any(x is None or x[1] not in lines for x in inserted):
        return []
    out = [[]]
    for line in sorted(lines):
        mine = parses([x for x in inserted if x[1] == line], [dr for ln, dr in slot if ln == line])
        out = [a + b for a in out for b in mine]
    return out
