"""Directed scenarios of the known findings: the smallest history that shows
each.  A scenario returns None if the property holds, else what is wrong."""
from . import model


def _user_gate(image, kind="perm", seed=3):
    class UserGate(image.ArbitaryGate):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            d = self.dims
            n = 1
            for x in (d if isinstance(d, (list, tuple)) else [d]):
                n *= int(x)
            self._unitary = model.gate_matrix(kind, seed, n)
    return UserGate


def small_dims(image):
    """A gate declared for fewer levels than its register has."""
    bad = []
    for name in ("h", "x", "z"):
        qc = image.QuantumCircuit(qregs=[4, 2])
        try:
            getattr(qc, name)(0, dims=2)
        except Exception:
            continue                # refused: fine
        qc.measure_all()
        try:
            qc.run()
        except Exception as e:
            bad.append(f"{name}(0, dims=2) on a 4-level register is accepted, and then run raises {type(e).__name__}")
    return "; ".join(bad) or None


def apart(image):
    """A user gate on two registers with another between them."""
    qc = image.QuantumCircuit(qregs=[2, 2, 2])
    try:
        qc.gate(_user_gate(image), [0, 2])
    except Exception:
        return None
    qc.measure_all()
    try:
        r = qc.run()
    except Exception as e:
        return f"gate(cls, [0, 2]) on three registers is accepted, and then run raises {type(e).__name__}"
    return None


def descending(image):
    """A user gate on neighbouring registers, highest first."""
    res = []
    for regs in ([0, 1], [1, 0]):
        qc = image.QuantumCircuit(qregs=[2, 2], init_states=[0, 1])
        class Cnot(image.ArbitaryGate):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                import numpy as np
                self._unitary = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]])
        try:
            qc.gate(Cnot, regs)
            qc.measure_all()
            res.append(model.plain(qc.run()))
        except Exception:
            return None
    if res[0] == res[1]:
        return "gate(cls, [1, 0]) acts as gate(cls, [0, 1]): the order of the registers is ignored"
    return None


QASM_TOF = """
.qudit 3
qudit x0 (2)
qudit x1 (2)
qudit x2 (2)
.begin
X x0
X x1
Toffoli x0 x1 x2
.end
"""


def qasm_toffoli(image):
    """The Toffoli of a QASM program on |11>."""
    qc = image.qasm.circuit_from_qasm(QASM_TOF)
    r = model.plain(qc.run())
    if len(r) == 1 and list(r)[0] in ("|110>", "(1, 1, 0)"):
        return ("X x0; X x1; Toffoli x0 x1 x2 on three qubits gives |110>: the middle register silently gets a third "
                "level, which no gate of the program can reach, so the Toffoli never fires")
    return None


def prefix(image):
    """An instruction whose name only begins like one the loader knows."""
    head = "\n.qudit 2\nqudit x0 (2)\nqudit x1 (2)\n.begin\nX x0\n"
    res = []
    for name in ("CNOTZ", "CNOT"):
        try:
            res.append(model.plain(image.qasm.circuit_from_qasm(f"{head}{name} x0 x1\n.end\n").run()))
        except Exception:
            return None
    if res[0] == res[1]:
        return "CNOTZ x0 x1 (in testbench/tof_large/seca_n11) is loaded as CNOT x0 x1"
    return None


def unlisted(image):
    """A batch run over a directory that cannot be listed."""
    from . import batch
    spec = {"files": [{"name": "d/c.qasm", "kind": "good", "data": "\n.qudit 1\nqudit x0 (2)\n.begin\nX x0\n.end\n",
                       "program": {"declared": [2], "dims": [2], "gates": [{"op": "x", "q": 0, "plus": 1}], "instr": [["X", 0]]}}],
            "phases": [{"runs": [{"mode": "qasm", "backend": "sparse", "path": "abs"}], "order": 1}]}
    ops = batch.Batch(spec).run()["ops"][0][0]
    for at in [k for k, label in enumerate(ops) if label == "scandir"]:
        spec["phases"][0]["runs"][0]["plan"] = [{"at": ["fs", at + 1], "do": "errno", "err": "EACCES"}]
        b = batch.Batch(spec)
        seen = []
        b.on_judge = lambda p, run, n: seen.append((p.outcome, p.out.text() + p.err.text(), b.read("d/c-sparse.pkl")))
        b.run()
        for outcome, text, result in seen:
            if outcome == "returned" and result is None and not batch.reported(text, "", "d/c.qasm") and "ermission" not in text:
                return "a directory that cannot be listed is passed over: its circuits get no result and nothing is said of them"
    return None


SCENARIOS = {
    "C10-unlisted": unlisted,
    "C09-prefix": prefix,
    "C02-small-dims": small_dims,
    "C02-apart": apart,
    "C01-descending": descending,
    "C09-toffoli": qasm_toffoli,
}
