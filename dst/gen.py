"""Random workloads.  Pure functions of the given random.Random."""
from . import model as M


def wchoice(rng, table):
    t = sum(w for _, w in table)
    x = rng.random() * t
    for v, w in table:
        x -= w
        if x < 0:
            return v
    return table[-1][0]


DIMS = [(2, 5), (3, 5), (4, 2.5), (5, 1.5), (6, 1), (7, .7), (8, .3), (9, .3), (10, .15), (11, .15), (12, .15), (13, .1)]


def layout(rng, cap=48, nmax=6, nmin=1):
    if cap >= 144 and nmax >= 2 and rng.random() < .5:
        # two registers of two-digit dimension, and perhaps a small one
        dims = [rng.choice([10, 11, 12, 12, 13]) for _ in range(2)]
        if cap >= 2 * dims[0] * dims[1] and rng.random() < .4:
            dims.insert(rng.randrange(3), 2)
        if dims[0] * dims[1] <= cap:
            return dims
    while True:
        n = wchoice(rng, [(1, 1), (2, 4), (3, 5), (4, 3), (5, 1.5), (6, .8), (7, .3)])
        if not nmin <= n <= nmax:
            continue
        if rng.random() < .25:
            d = wchoice(rng, DIMS)
            dims = [d] * n
        else:
            dims = [wchoice(rng, DIMS) for _ in range(n)]
        p = 1
        for d in dims:
            p *= d
        if p <= cap:
            return dims


def tall(rng):
    """One register of very many levels, perhaps with a small neighbour."""
    d = rng.choice([14, 15, 16, 17, 20, 25, 31, 32, 33, 48, 64, 65, 100, 127, 128, 129, 130, 180, 200, 255, 256, 257])
    if d <= 48 and rng.random() < .4:
        return [d, 2] if rng.random() < .5 else [rng.choice([2, 3]), d]
    return [d]


def new_tall(rng, cid):
    dims = tall(rng)
    return {"op": "new", "c": cid, "dims": dims, "init": init_states(rng, dims), "backend": rng.choice([None, "numpy", "sparse"]),
            "out": {"type": "state", "method": rng.choice(["amplitude", "probability"])}}


def wide(rng):
    """Many small registers; for the sparse backend."""
    n = rng.choice([8, 9, 10, 11, 11])
    dims = [2] * n
    if n <= 9:
        for _ in range(rng.choice([0, 1, 2])):
            dims[rng.randrange(n)] = 3
    return dims


def few(rng, dims):
    """How many gates a wide circuit may have: runs are slow."""
    return rng.choice([1, 2, 3] if len(dims) > 10 else [1, 3, 6])


def new_wide(rng, cid):
    dims = wide(rng)
    op = {"op": "new", "c": cid, "dims": dims, "init": init_states(rng, dims), "backend": rng.choice([None, "sparse"]),
          "out": output(rng, dims)}
    if len(set(dims)) == 1 and rng.random() < .5:
        op["tuple"] = True
    return op


def init_states(rng, dims):
    r = rng.random()
    if r < .3:
        return None
    if r < .4:
        return []
    full = [rng.randrange(d) for d in dims]
    if rng.random() < .05:               # a bit is a state of a register too
        full = [bool(s) if s < 2 and rng.random() < .7 else s for s in full]
    if r < .55:
        return full[: rng.randint(1, len(full))]
    if r < .7:
        return [d - 1 for d in dims]
    return full


def output(rng, dims):
    if rng.random() < .35 and max(dims) < 10:
        return None
    t = "state" if max(dims) >= 10 and len(dims) > 1 else rng.choice(["print", "state"])
    return {"type": t, "method": rng.choice(["amplitude", "amplitude", "probability"])}


BACKENDS = [(None, 2), ("numpy", 4), ("sparse", 4)]


def new(rng, cid, cap=48, nmax=6, nmin=1, backends=BACKENDS):
    dims = layout(rng, cap, nmax, nmin)
    op = {"op": "new", "c": cid, "dims": dims, "init": init_states(rng, dims),
          "backend": wchoice(rng, backends), "out": output(rng, dims)}
    if len(set(dims)) == 1 and rng.random() < .5:
        op["tuple"] = True
    if max(dims) >= 10 and len(dims) > 1 and op["out"] is None:
        op["out"] = {"type": "state", "method": "amplitude"}
    if rng.random() < .2:
        op["debug"] = rng.random() < .5
    if rng.random() < .1:
        op["name"] = rng.choice(["a", "circuit", ""])
    if rng.random() < .1:
        op["cregs"] = rng.randint(0, 3)
    if rng.random() < .05:
        op["np"] = 1
    if op["backend"] and rng.random() < .08:
        op["object"] = 1                 # an object of the backend class
    return op


def plus(rng, d):
    r = rng.random()
    if r < .45:
        return 1
    if r < .75:
        return rng.randrange(d)
    if r < .88:
        return -rng.randint(1, 2 * d)
    if r < .96:
        return rng.randint(0, 4 * d)
    return rng.choice([1, -1]) * rng.choice([99, 100, 126, 127, 128, 129, 200, 255, 256, 257, 1000, 32768, 65537])


def form(rng, op):
    """Now and then a number comes out of numpy, as where a caller computed it."""
    if rng.random() < .06:
        op["np"] = rng.choice(["int64", "int64", "int32", "float64", "int16" if -99 < op["plus"] < 1000 else "int64"])
    return op


GATEKINDS = [("haar", 4), ("orth", 1), ("perm", 2), ("iperm", 1), ("phase", 2), ("tiny", 1.5), ("tinyphase", 1.2), ("id", .3)]


class Mix:
    """Which calls a run makes, and how often (swarm style)."""

    def __init__(self, rng, wide=False):
        self.w = {k: rng.choice([0, .5, 1, 1, 2, 4]) for k in ("h", "x", "z", "cx", "tof", "gate")}
        if not any(self.w.values()):
            self.w["h"] = self.w["cx"] = 1
        # stretches on few registers exercise the packing of layers
        self.hot = rng.random() < .3
        if wide:
            self.w["h"] = min(self.w["h"], .5)
            self.w["x"] = max(self.w["x"], 2)
        self.seeds = [rng.randrange(1 << 30) for _ in range(rng.randint(1, 4))]


def span(dims, regs):
    p = 1
    for d in dims[min(regs):max(regs) + 1]:
        p *= d
    return p


def gate(rng, cid, dims, mix, maxblock=64):
    """A legal gate call, now and then with its registers in an odd form."""
    op = any_gate(rng, cid, dims, mix, maxblock)
    if rng.random() < .02:
        regs = [r for k in ("q", "ctl", "t", "cs") for r in (op.get(k, []) if isinstance(op.get(k, []), list) else [op[k]])]
        op["cast"] = rng.choice(["int64", "int64", "int32", "float", "tuple", "array"] + ["bool"] * (max(regs) < 2))
    return op


def any_gate(rng, cid, dims, mix, maxblock):
    n = len(dims)
    for _ in range(200):
        k = wchoice(rng, [(k, w) for k, w in mix.w.items() if w] or [("x", 1)])
        q = rng.randrange(min(n, 2)) if mix.hot and rng.random() < .7 else rng.randrange(n)
        if k in ("h", "z"):
            op = {"op": k, "c": cid, "q": q}
            if rng.random() < .15:
                op["dims"] = dims[q]
            return op
        if k == "x":
            op = {"op": "x", "c": cid, "q": q}
            if rng.random() < .8:
                op["plus"] = plus(rng, dims[q])
                form(rng, op)
            if rng.random() < .15:
                op["dims"] = dims[q]
            return op
        if k == "cx" and n >= 2:
            c, t = rng.sample(range(n), 2)
            if n > 7 and span(dims, [c, t]) > 96:
                continue
            return form(rng, {"op": "cx", "c": cid, "ctl": c, "t": t, "plus": plus(rng, dims[t]),
                              "form": rng.choice(["list", "tuple"])})
        if k == "tof" and n >= 2:
            m = min(n, wchoice(rng, [(2, 1), (3, 5), (4, 2), (5, 1), (6, .4), (7, .2)]))
            regs = rng.sample(range(n), m)
            if n > 7 and span(dims, regs) > 96:
                continue
            op = {"op": "tof", "c": cid, "cs": regs[:-1], "t": regs[-1]}
            if rng.random() < .7:
                op["plus"] = plus(rng, dims[regs[-1]])
                form(rng, op)
            if rng.random() < .3:
                op["form"] = rng.choice(["tuple", "lists"])
            return op
        if k == "gate":
            m = wchoice(rng, [(1, 4), (2, 4), (3, 1.5), (4, .5), (5, .3), (6, .1)])
            if m > n:
                continue
            a = rng.randrange(n - m + 1)
            regs = list(range(a, a + m))
            p = 1
            for r in regs:
                p *= dims[r]
            if p > maxblock:
                continue
            g = {"kind": wchoice(rng, GATEKINDS), "seed": rng.choice(mix.seeds)}
            op = {"op": "gate", "c": cid, "q": regs if m > 1 or rng.random() < .3 else a, "g": g}
            if op["q"] == a and rng.random() < .15:
                op["dims"] = dims[a]
            return op
    return {"op": "x", "c": cid, "q": 0}


def bad_call(rng, cid, dims, mix):
    """A call with an illegal placement; must be refused by an exception."""
    n = len(dims)
    out = rng.choice([n, n, n + 1, n + 7, -1, -1, -n, -n - 1])
    k = rng.choice(["h", "x", "z", "cx", "cx", "tof", "tof", "gate", "gate", "dims", "measure1", "shift"])
    g = {"kind": wchoice(rng, GATEKINDS), "seed": rng.choice(mix.seeds)}
    if k in ("h", "x", "z"):
        return {"op": k, "c": cid, "q": out, "bad": 1}
    if k == "dims":
        q = rng.randrange(n)
        op = {"op": rng.choice(["h", "x", "z", "gate"]), "c": cid, "q": q, "dims": dims[q] + rng.randint(1, 3), "bad": 1}
        if op["op"] == "gate":
            op["g"] = g
        return op
    if k == "measure1":
        return {"op": "measure1", "c": cid, "q": rng.randrange(n), "bad": 1}
    a = rng.randrange(n)
    if k == "shift":                     # by no whole number of levels
        k = rng.choice(["x", "cx", "tof"]) if n > 1 else "x"
        c, t = rng.sample(range(n), 2) if n > 1 else (0, 0)
        op = {"op": k, "c": cid, "plus": rng.choice([.5, 1.5, -.5, 2.25, 1e-9, "1", "", "one"]), "bad": 1}
        op.update({"q": a} if k == "x" else {"ctl": c, "t": t, "form": rng.choice(["list", "tuple"])} if k == "cx" else {"cs": [c], "t": t})
        return op
    if k == "cx":
        pair = rng.choice([[a, out], [out, a], [a, a]])
        return {"op": "cx", "c": cid, "ctl": pair[0], "t": pair[1], "plus": 1,
                "form": rng.choice(["list", "tuple"]), "bad": 1}
    if k == "tof":
        regs = rng.sample(range(n), min(n, 3))
        i = rng.randrange(len(regs))
        how = rng.random()
        if how < .5 or len(regs) < 2:
            regs[i] = out
            if len(regs) < 2:
                regs.append(a if a != out else 0)
        else:
            regs[i] = regs[(i + 1) % len(regs)]
        return {"op": "tof", "c": cid, "cs": regs[:-1], "t": regs[-1], "bad": 1}
    if rng.random() < .4:
        return {"op": "gate", "c": cid, "q": out, "g": g, "bad": 1}
    pair = rng.choice([[a, out], [out, a], [a, a], [out]])
    return {"op": "gate", "c": cid, "q": pair, "g": g, "bad": 1}


def broken_gate(rng, cid, dims):
    """A user gate whose matrix is not unitary or has the wrong size."""
    n = len(dims)
    m = min(n, wchoice(rng, [(1, 4), (2, 4), (3, 1)]))
    a = rng.randrange(n - m + 1)
    regs = list(range(a, a + m))
    return {"op": "gate", "c": cid, "q": regs if m > 1 or rng.random() < .3 else a,
            "g": {"kind": rng.choice(M.BROKEN), "seed": rng.randrange(1 << 30)}}


def bad_new(rng, cid):
    """A declaration of a circuit that cannot exist; must be refused."""
    dims = layout(rng, 32)
    n = len(dims)
    q = rng.randrange(n)
    op = {"op": "new", "c": cid, "dims": dims, "init": None, "backend": wchoice(rng, BACKENDS), "out": None, "bad": 1}
    how = rng.choice(["dim", "high", "high", "low", "low", "many", "shape", "part", "none"])
    if how == "dim":
        dims[q] = rng.choice([1, 0, -1, -2])
        if rng.random() < .3:
            op["dims"] = dims[q:q + 1] * n
            op["tuple"] = True
        op["init"] = rng.choice([None, [0] * n])
    elif how == "shape":                 # a tuple is a number of registers and their dimension
        op["raw"] = rng.choice([[2, 2, 2], [2, 3, 4], [3, 2, 0], [2], [3], [], [2, 3, 1, 1], [0, 2], [0, 3], [-1, 2]])
    elif how == "none":                  # without a register there is nothing to run
        op["dims"] = []
        op["init"] = rng.choice([None, [], [0]])
    elif how == "part":
        op["init"] = [rng.randrange(d) for d in dims]
        if rng.random() < .5:
            dims[q] += rng.choice([.5, .25])
        else:
            op["init"][q] = rng.choice([.5, .999, str(op["init"][q])])
    elif how == "many":
        op["init"] = [rng.randrange(d) for d in dims] + [0] * rng.choice([1, 1, 2, 5])
    else:
        op["init"] = [rng.randrange(d) for d in dims]
        op["init"][q] = dims[q] + rng.choice([0, 0, 1, 5]) if how == "high" else -rng.choice([1, 1, 2, dims[q], dims[q] + 1])
    return op


def query(rng, cid, figures=.02):
    k = wchoice(rng, [("info", 3), ("config", 3), ("str", 3), ("draw", 1), ("peek", .5), ("mpl", figures)])
    op = {"op": k, "c": cid}
    if k in ("info", "config") and rng.random() < .3:
        op["spoil"] = 1
    if k == "mpl" and rng.random() < .5:
        op["compress"] = rng.choice([2, 3])
    return op


# What backends and devices raise.  (Not the exceptions Python itself gives a
# meaning to in iteration and attribute lookup: no device raises those.)
EXC = ["MemoryError", "MemoryError", "DeviceError", "DeviceError", "ValueError", "ZeroDivisionError",
       "FloatingPointError", "OSError", "Exception"]
# What a user's gate class may raise while it is being built.
CTOR_EXC = EXC + ["TypeError", "IndexError", "KeyError", "AttributeError", "AssertionError", "RecursionError"]


def lasting(rng, f):
    """Now and then the trouble stays: the operations that follow fail too."""
    if rng.random() < .2:
        f["times"] = rng.choice([2, 3, 4, 6, 100])
    return f


def fault(rng, kind, n, interrupts=False, kinds=None):
    """A fault at a random one of the n counted points of one kind."""
    at = [kind, rng.randint(1, n)]
    if kind == "line":
        return {"at": at, "do": "interrupt"}
    if kind == "call":
        return lasting(rng, {"at": at, "do": "raise", "exc": "MemoryError"})
    r = rng.random()
    if kind == "backend":
        if r < .12:
            return {"at": at, "do": "stall", "secs": rng.choice([.5, 3.0, 900.0]), "when": rng.choice(["before", "after"])}
        if interrupts and r < .25:
            return {"at": at, "do": "interrupt", "when": rng.choice(["before", "after"])}
        return lasting(rng, {"at": at, "do": "raise", "exc": rng.choice(EXC), "when": rng.choice(["before", "before", "after"])})
    if kind == "ctor":
        return {"at": at, "do": "raise", "exc": rng.choice(CTOR_EXC), "when": rng.choice(["before", "after"])}
    if kind == "out":
        return {"at": at, "do": "raise", "exc": rng.choice(["BrokenPipeError", "OSError"]), "when": rng.choice(["before", "after"])}
    raise AssertionError(kind)
