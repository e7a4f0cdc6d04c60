"""Reference model: a plain state vector and the textbook gates.

Shares no code with QuDiet.  Kept deliberately naive: a complex array with one
axis per register."""
import numpy as np


def gate_matrix(kind, seed, n):
    """The matrix of a user gate of the workload, of size n x n."""
    rng = np.random.RandomState(seed & 0x7FFFFFFF)
    if kind == "haar":
        z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        q, r = np.linalg.qr(z)
        return q * (np.diag(r) / abs(np.diag(r)))
    if kind == "orth":
        q, _ = np.linalg.qr(rng.normal(size=(n, n)))
        return q
    if kind == "perm":
        return np.eye(n)[rng.permutation(n)]
    if kind == "iperm":
        return np.eye(n, dtype=int)[rng.permutation(n)]
    if kind == "phase":
        return np.diag(np.exp(2j * np.pi * rng.random_sample(n)))
    if kind == "tinyphase":
        # phases that are almost none
        return np.diag(np.exp(1j * 10.0 ** -rng.uniform(3, 7.5, size=n)))
    if kind == "tiny":
        # a rotation by a very small angle between two levels
        m = np.eye(n, dtype=complex)
        t = 10.0 ** -rng.uniform(2, 5)
        a, b = 0, n - 1
        m[a, a] = m[b, b] = np.cos(t)
        m[a, b], m[b, a] = -np.sin(t), np.sin(t)
        return m
    if kind == "id":
        return np.eye(n, dtype=int)
    if kind in BROKEN:
        return broken_matrix(kind, rng, n)
    raise AssertionError(kind)


# Matrices that are no gates: no run may return a result for them.
BROKEN = ("double", "half", "zero", "cut", "skew", "boost", "drift", "nan", "ones", "oblong", "larger", "smaller", "flat")


def broken_matrix(kind, rng, n):
    q = gate_matrix("haar", rng.randint(1 << 30), n)
    if kind == "double":
        return q * 2
    if kind == "half":
        return q * .5
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "cut":                    # one level is projected away
        m = np.eye(n)
        m[rng.randint(n)] = 0
        return m
    if kind == "skew":                   # every column of length one, not at right angles
        m = np.eye(n)
        m[0, n - 1] = m[n - 1, n - 1] = np.sqrt(.5)
        return m
    if kind == "boost":                  # complex orthogonal, not unitary
        m = np.eye(n, dtype=complex)
        m[0, 0] = m[n - 1, n - 1] = np.cosh(.7)
        m[0, n - 1], m[n - 1, 0] = 1j * np.sinh(.7), -1j * np.sinh(.7)
        return m
    if kind == "drift":                  # almost a gate
        return q * (1 + rng.choice([.01, -.003, .05]))
    if kind == "nan":
        q[rng.randint(n), rng.randint(n)] = np.nan
        return q
    if kind == "ones":
        return np.ones((n, n))
    if kind == "oblong":
        return np.eye(n + 1)[:n]
    if kind == "flat":
        return np.ones(n) / np.sqrt(n)
    return gate_matrix("haar", rng.randint(1 << 30), n + 1 if kind == "larger" else n - 1)


class Model:
    """What a circuit must be, given the calls that were acknowledged."""

    def __init__(self, dims, init):
        self.dims = list(dims)
        self.init = [int(s) for s in init][: len(self.dims)] + [0] * (len(self.dims) - len(init))
        self.gates = []            # acknowledged gate ops, in order
        self.sealed = False
        self.broken = False        # holds a user gate that is none
        self.layers = 0
        self.idle = None           # registers idle in the last layer
        self.counts = {}
        self.rows = [[] for _ in self.dims]
        self._cache = None

    # -- what a gate call does when it is acknowledged ----------------------
    def accept(self, op):
        k = op["op"]
        n = len(self.dims)
        self.gates.append(op)
        if k == "gate" and op["g"]["kind"] in BROKEN:
            self.broken = True
        if k in ("h", "x", "z"):
            q = op["q"]
            if self.layers and q in self.idle:
                self.idle.discard(q)
            else:
                self.layers += 1
                self.idle = set(range(n)) - {q}
            self.counts[k] = self.counts.get(k, 0) + 1
            self.rows[q].append(("X", op.get("plus", 1)) if k == "x" else (k.upper(),))
            return
        if k == "cx":
            regs = [op["ctl"], op["t"]]
            self.rows[op["ctl"]].append(("*",))
            self.rows[op["t"]].append(("X", op.get("plus", 1)))
            name = "cx"
        elif k == "tof":
            regs = op["cs"] + [op["t"]]
            for c in op["cs"]:
                self.rows[c].append(("*",))
            self.rows[op["t"]].append(("X", op.get("plus", 1)))
            name = "toffoli"
        elif k == "gate":
            regs = op["q"] if isinstance(op["q"], list) else [op["q"]]
            name = "arbitary"
        else:
            raise AssertionError(k)
        self.layers += 1
        lo, hi = min(regs), max(regs)
        self.idle = set(range(n)) - set(range(lo, hi + 1))
        self.counts[name] = self.counts.get(name, 0) + 1

    def seal(self):
        self.sealed = True

    # -- facts ------------------------------------------------------------
    def info(self):
        return {"depth": self.layers, "gate_count": sum(self.counts.values()),
                "details": dict(self.counts), "qudit": len(self.dims)}

    def config(self):
        return {"width": len(self.dims), "depth": self.layers}

    def vector(self):
        dims = self.dims
        v = np.zeros(dims, dtype=complex)
        v[tuple(self.init)] = 1
        for op in self.gates:
            v = apply(v, dims, op)
        return v

    def expected(self):
        if self._cache is None or self._cache[0] != len(self.gates):
            self._cache = (len(self.gates), self._expected())
        return self._cache[1]

    def _expected(self):
        v = self.vector()
        return {tuple(int(i) for i in ix): v[tuple(ix)] for ix in np.argwhere(abs(v) > 1e-13)}


def apply(v, dims, op):
    k = op["op"]
    if k == "x":
        return np.roll(v, op.get("plus", 1), axis=op["q"])
    if k == "z":
        d = dims[op["q"]]
        ph = np.array([np.exp(2j * np.pi * s / d) for s in range(d)])
        shape = [1] * len(dims)
        shape[op["q"]] = d
        return v * ph.reshape(shape)
    if k == "h":
        d = dims[op["q"]]
        m = np.array([[np.exp(2j * np.pi * ((a * b) % d) / d) for b in range(d)] for a in range(d)]) / np.sqrt(d)
        return np.moveaxis(np.tensordot(m, v, axes=(1, op["q"])), 0, op["q"])
    if k in ("cx", "tof"):
        cs = [op["ctl"]] if k == "cx" else op["cs"]
        t = op["t"]
        ix = [slice(None)] * len(dims)
        for c in cs:
            ix[c] = slice(dims[c] - 1, dims[c])
        out = v.copy()
        out[tuple(ix)] = np.roll(v[tuple(ix)], op.get("plus", 1), axis=t)
        return out
    if k == "gate":
        regs = op["q"] if isinstance(op["q"], list) else [op["q"]]
        a, b = regs[0], regs[-1]
        n = int(np.prod([dims[r] for r in regs]))
        m = gate_matrix(op["g"]["kind"], op["g"]["seed"], n)
        left = int(np.prod(dims[:a])) if a else 1
        w = v.reshape(left, n, -1)
        return np.einsum("ij,ljr->lir", m, w).reshape(dims)
    raise AssertionError(k)


TOL = 1e-8


def label(digits, mode):
    return tuple(digits) if mode == "state" else "|" + "".join(str(d) for d in digits) + ">"


def flatten(result):
    """run()'s list of one-entry dicts as {label: value}; raises ValueError
    with the reason if it has not that form."""
    if not isinstance(result, list):
        raise ValueError(f"a run returned {type(result).__name__}, not a list")
    got = {}
    for e in result:
        if not isinstance(e, dict) or len(e) != 1:
            raise ValueError(f"entry {e!r} is not a single label with its value")
        (k, v), = e.items()
        if isinstance(k, tuple):
            k = tuple(int(i) for i in k)
        if k in got:
            raise ValueError(f"label {k!r} occurs twice")
        try:
            got[k] = complex(v)
        except TypeError:
            raise ValueError(f"label {k!r} has the value {v!r}")
    return got


def compare(result, model, mode, method):
    """None, or what is wrong with a returned result."""
    try:
        got = flatten(result)
    except ValueError as e:
        return str(e)
    exp = {}
    for digits, a in model.expected().items():
        exp[label(digits, mode)] = abs(a) ** 2 if method == "probability" else a
    return difference(got, exp)


def difference(got, exp):
    for k in sorted(set(got) | set(exp), key=str):
        g, e = got.get(k, 0), exp.get(k, 0)
        if not (abs(g - e) <= TOL):
            return f"{k}: returned {fmt(g) if k in got else 'nothing'}, must be {fmt(e)}"
    return None


def fmt(z):
    z = complex(z)
    return f"{z.real:.6g}{z.imag:+.6g}j" if abs(z.imag) > 1e-12 else f"{z.real:.6g}"


def plain(result):
    """A returned result as JSON data, for comparing across processes."""
    try:
        got = flatten(result)
    except ValueError as e:
        return {"malformed": str(e)}
    return {str(k): [v.real, v.imag] for k, v in got.items()}


def big(a):
    """The basis states that matter, in the order they were returned."""
    return [k for k, v in a.items() if isinstance(v, list) and abs(complex(*v)) > 1e-6]


def same_plain(a, b):
    if set(a) != set(b) and ("malformed" in a or "malformed" in b):
        return "one result is malformed"
    if "malformed" in a:
        return None if a == b else "differently malformed"
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, [0, 0]), b.get(k, [0, 0])
        d = abs(complex(*x) - complex(*y))
        if not d <= TOL:
            return f"{k}: {fmt(complex(*x)) if k in a else 'nothing'} against {fmt(complex(*y)) if k in b else 'nothing'}"
    return None
