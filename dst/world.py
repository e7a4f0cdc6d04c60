"""Executes workload steps against the real library and judges every answer.

A finding is (tag, message).  Findings that can only be judged against "what a
circuit built from the acknowledged calls alone would answer" are *suspects*:
the engine runs that reference circuit in a clean process image and confirms or
dismisses them."""
import gc
import io
import re
import sys
import warnings

import numpy as np

from . import model as M
from .sim import SIM, SimKill

ROW = re.compile(r"^-*\((\d+)\)\|(-?\d+)>")
TOKEN = re.compile(r"X\((-?\d+)\)|[HZM*|]")


def parse_drawing(text):
    """Rows of a text drawing as [(dimension, state, tokens)], and the facts
    of its last line.  Layout (padding, column widths) does not matter."""
    rows, facts = [], {}
    for line in text.split("\n"):
        m = ROW.match(line)
        if m:
            toks = []
            for t in TOKEN.finditer(line[m.end():]):
                s = t.group(0)
                toks.append(("X", int(t.group(1))) if s[0] == "X" else (s,))
            rows.append((int(m.group(1)), int(m.group(2)), toks))
        for k, v in re.findall(r"(depth|width)\s*:\s*(-?\d+)", line):
            facts[k] = int(v)
    return rows, facts


class Out(io.TextIOBase):
    """The caller's standard output; can fail."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        if SIM.on:
            f = SIM.seam("out", "write")
            self.parts.append(s)
            SIM.seam_after(f, "out")
        else:
            self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def writable(self):
        return True

    def text(self):
        return "".join(self.parts)


class Demux(io.TextIOBase):
    """sys.stdout while several callers run: one buffer per caller."""

    def __init__(self):
        self.by = {}

    def out(self):
        k = SIM.ctx.name
        o = self.by.get(k)
        if o is None:
            o = self.by[k] = Out()
        return o

    def write(self, s):
        return self.out().write(s)

    def flush(self):
        pass

    def writable(self):
        return True


class Circ:
    def __init__(self, real, model, op, mode, method):
        self.real, self.model, self.op, self.mode, self.method = real, model, op, mode, method
        self.runs = 0

    def ref(self):
        return {"new": self.op, "gates": list(self.model.gates)}


class World:
    def __init__(self, image, args=None, gate_image=None):
        self.image = image
        self.circ = {}
        self.args = {k: list(v) for k, v in (args or {}).items()}
        self.args_expected = {k: list(v) for k, v in (args or {}).items()}
        self.outs = {}
        self.objects = {}
        self.gate_classes = {}
        self.findings = []
        self.suspects = []
        self.outcomes = []
        self.counts = []
        self.stdout = Demux()
        self.observe_failures = False
        self.on_counts = None
        self.on_run = None
        self.stats = {}

    # ------------------------------------------------------------------
    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def find(self, tag, msg):
        self.findings.append((tag, msg))

    def suspect(self, tag, msg, got, circ):
        self.suspects.append({"tag": tag, "msg": msg, "got": got, "ref": circ.ref()})

    # ------------------------------------------------------------------
    def gate_class(self, g):
        key = (g["kind"], g["seed"])
        cls = self.gate_classes.get(key)
        if cls is None:
            base = self.image.ArbitaryGate
            kind, seed = key

            class UserGate(base):
                def __init__(self, *args, **kwargs):
                    f = SIM.seam("ctor", kind) if SIM.on else None
                    super().__init__(*args, **kwargs)
                    d = self.dims
                    n = 1
                    for k in (d if isinstance(d, (list, tuple)) else [d]):
                        n *= int(k)
                    self._unitary = M.gate_matrix(kind, seed, n)
                    if SIM.on:
                        SIM.seam_after(f, "ctor")
            cls = self.gate_classes[key] = UserGate
        return cls

    def output(self, op, dims):
        spec = op.get("out")
        if spec is None:
            return None, "print", "amplitude"
        key = op.get("share", {}).get("out")
        if key is not None and key in self.outs:
            o = self.outs[key]
        else:
            base = self.args[op["share"]["dims"]] if op.get("share", {}).get("dims") else list(dims)
            im = self.image
            o = im.Output(base, im.OutputType[spec["type"]], im.OutputMethod[spec["method"]])
            if key is not None:
                self.outs[key] = o
        return o, spec["type"], spec["method"]

    def construct(self, op):
        share = op.get("share", {})
        dims = op["dims"]
        if "dims" in share:
            dims = self.args[share["dims"]]
            qregs = dims
        elif "raw" in op:
            qregs = tuple(op["raw"])
        elif op.get("tuple"):
            qregs = (len(dims), dims[0])
        else:
            qregs = list(dims)
        init = op.get("init")
        if "init" in share:
            init = self.args[share["init"]]
        elif init is not None:
            init = list(init)
        if op.get("np"):
            if not op.get("tuple") and "dims" not in share:
                qregs = [np.int64(d) for d in qregs]
            if init is not None and "init" not in share:
                init = [np.int64(s) for s in init]
        model = None if op.get("bad") else M.Model(list(dims), list(init or []))
        out, mode, method = self.output(op, list(dims))
        kw = {}
        if init is not None:
            kw["init_states"] = init
        if op.get("backend"):
            kw["backend"] = self.backend(op)
        if out is not None:
            kw["output"] = out
        for k in ("debug", "name", "cregs"):
            if k in op:
                kw[k] = op[k]
        real = self.image.QuantumCircuit(qregs, **kw)
        if op.get("bad"):
            return None
        frozen = {k: v for k, v in op.items() if k not in ("share", "fault")}
        frozen["dims"], frozen["init"] = list(model.dims), list(model.init)
        if "dims" in share:
            frozen.pop("tuple", None)
        return Circ(real, model, frozen, mode, method)

    def backend(self, op):
        be = self.image.backends[op["backend"]]
        if op.get("object"):             # one object for all circuits that want one
            if be not in self.objects:
                self.objects[be] = be()
            return self.objects[be]
        return be

    def load(self, op):
        """A circuit loaded from QASM text."""
        p = op["program"]
        be = self.backend(op) if op.get("backend") else None
        real = self.load_real(op, be)
        model = M.Model(p["dims"], [0] * len(p["dims"]))
        for g in p["gates"]:
            model.accept(g)
        model.seal()
        frozen = {k: v for k, v in op.items() if k != "fault"}
        return Circ(real, model, frozen, "print", "amplitude")

    def load_real(self, op, be):
        return self.image.qasm.circuit_from_qasm(op["text"], be)

    def call(self, qc, op):
        """The real call of a gate step."""
        k = op["op"]
        kw = {}
        if "dims" in op:
            kw["dims"] = op["dims"]
        if "np" in op:
            op = dict(op, plus=getattr(np, op["np"])(op["plus"]))
        if "cast" in op:                 # the registers in a form the circuit may refuse
            op = dict(op, **{r: cast(op["cast"], op[r]) for r in ("q", "ctl", "t", "cs") if r in op})
        if k == "h":
            return qc.h(op["q"], **kw)
        if k == "z":
            return qc.z(op["q"], **kw)
        if k == "x":
            if "plus" in op:
                kw["plus"] = op["plus"]
            return qc.x(op["q"], **kw)
        if k == "cx":
            pair = [op["ctl"], op["t"]]
            if op.get("arg"):
                pair = self.args[op["arg"]]
            elif op.get("form") == "tuple":
                pair = tuple(pair)
            return qc.cx(pair, op["plus"])
        if k == "tof":
            cs = self.args[op["arg"]] if op.get("arg") else list(op["cs"])
            if "plus" in op:
                kw["plus"] = op["plus"]
            if op.get("form") == "tuple":
                cs = tuple(cs)
            return qc.toffoli([cs, op["t"]] if op.get("form") == "lists" else (cs, op["t"]), **kw)
        if k == "gate":
            q = op["q"]
            if op.get("arg"):
                q = self.args[op["arg"]]
            elif type(q) is list:
                q = list(q)
            return qc.gate(self.gate_class(op["g"]), q, **kw)
        raise AssertionError(k)

    def observe(self, c):
        """Everything a caller can ask without running."""
        out = []
        for ask in (c.real.get_circuit_info, c.real.get_circuit_config, c.real.__str__):
            try:
                out.append(ask())
            except Exception as e:
                out.append("raised " + show(e))
        return tuple(out)

    # ------------------------------------------------------------------
    GATES = ("h", "x", "z", "cx", "tof", "gate")

    def step(self, op, plan=None):
        """One workload step.  Never lets anything but a kill escape."""
        k = op["op"]
        if k == "mutate":
            self.mutate(op)
            return
        if k == "checkargs":
            self.check_args()
            return
        if k == "drop":                  # the caller lets go of a circuit
            self.circ.pop(op["c"], None)
            if op.get("classes"):
                self.gate_classes.clear()
            gc.collect()
            return
        c = None if k in ("new", "load") else self.circ.get(op["c"])
        if k not in ("new", "load") and c is None:
            return                       # its construction failed or was shrunk away
        before = None
        if self.observe_failures and k in self.GATES + ("measure", "measure1"):
            before = self.observe(c)
        plan = op.get("fault") if plan is None else plan
        SIM.begin_step(plan)
        value = err = None
        try:
            if k == "new":
                value = self.construct(op)
            elif k == "load":
                value = self.load(op)
            elif k in self.GATES:
                value = self.call(c.real, op)
            elif k == "measure":
                value = c.real.measure_all()
            elif k == "measure1":
                value = c.real.measure(op["q"])
            elif k == "run":
                value = c.real.run()
            elif k == "info":
                value = c.real.get_circuit_info()
            elif k == "config":
                value = c.real.get_circuit_config()
            elif k == "str":
                value = str(c.real)
            elif k == "draw":
                o = self.stdout.out()
                o.parts.clear()
                c.real.draw()
                value = o.text()
            elif k == "peek":
                o = self.stdout.out()
                o.parts.clear()
                c.real.print_opflow_list()
                value = o.text()
            elif k == "mpl":
                value = self.figure(c, op)
            else:
                raise AssertionError(k)
        except SimKill:
            raise
        except (Exception, KeyboardInterrupt) as e:
            err = e
        counts, fired = SIM.end_step()
        self.counts.append(counts)
        if self.on_counts is not None:
            self.on_counts(counts)
        harmful = [f for f in fired if f["do"] in ("raise", "interrupt", "errno")]
        SIM.note(SIM.ctx.name, k, op.get("c"), type(err).__name__ if err is not None else "ok")
        self.bump("step:" + k)
        if err is not None:
            self.bump("failed:" + k)
        if isinstance(err, KeyboardInterrupt) and not harmful:
            raise err
        self.judge(op, k, c, value, err, harmful, before)

    def figure(self, c, op):
        """Draws a figure; returns what the viewer is shown."""
        import matplotlib.pyplot as plt
        shown = []

        def show(*args, **kwargs):
            on, SIM.on = SIM.on, False
            try:
                shown.append([read_figure(plt.figure(n)) for n in plt.get_fignums()])
            finally:
                SIM.on = on
        real, plt.show = plt.show, show
        try:
            c.real.draw(style="mpl", compress=op.get("compress", 1))
        except BaseException:
            if shown:                    # stopped on its way out: what it leaves open is not judged
                plt.close("all")
            raise
        finally:
            plt.show = real
        return shown

    # ------------------------------------------------------------------
    def judge(self, op, k, c, value, err, harmful, before):
        if k in ("new", "load"):
            if op.get("bad"):
                if err is None:
                    self.find("bad-accepted", f"the impossible declaration {describe(op)} was accepted")
            elif err is None:
                self.circ[op["c"]] = value
            elif not harmful:
                self.find("construct", f"constructing {describe(op)} raised {show(err)}")
            return
        m = c.model
        if k in self.GATES:
            if err is None:
                if value is True:
                    if op.get("bad"):
                        self.find("bad-accepted", f"illegal {describe(op)} on {m.dims} was accepted")
                        return
                    if m.sealed:
                        self.find("ack", f"{describe(op)} was acknowledged on a measured circuit")
                        return
                    m.accept(op)
                    self.bump("acked")
                    return
                if value is not False:
                    self.find("ack", f"{describe(op)} returned {value!r}, neither True nor False")
                elif not m.sealed and op.get("bad"):
                    self.find("bad-quiet", f"illegal {describe(op)} on {m.dims} returned False instead of raising")
                elif not m.sealed and not is_broken(op):
                    self.find("refused", f"legal {describe(op)} on unmeasured {m.dims} returned False"
                              + (" after a failure inside it" if harmful else ""))
            elif not harmful and not op.get("bad") and not is_broken(op) and not may_refuse(op):
                self.find("legal-raised", f"legal {describe(op)} on {m.dims} raised {show(err)}")
            self.unchanged(op, c, before)
            return
        if k == "measure1":
            if err is None:
                self.find("bad-accepted", f"{describe(op)} succeeded although it does not exist")
            self.unchanged(op, c, before)
            return
        if k == "measure":
            if err is None:
                if value is True:
                    m.seal()
                else:
                    self.find("ack", f"measure_all returned {value!r}")
            elif not harmful:
                self.find("legal-raised", f"measure_all raised {show(err)}")
            else:
                self.unchanged(op, c, before)
            return
        if k == "run":
            self.judge_run(op, c, value, err, harmful)
            return
        if err is not None:
            if not harmful:
                self.find("query-raised", f"{k} on {describe_circuit(c)} raised {show(err)}")
            return
        self.judge_query(op, k, c, value)

    def unchanged(self, op, c, before):
        if before is None:
            return
        after = self.observe(c)
        for name, b, a in zip(("statistics", "configuration", "drawing"), before, after):
            if b != a:
                self.find("changed", f"the failed {describe(op)} changed the {name} from {b!r} to {a!r}")
                return

    def judge_run(self, op, c, value, err, harmful):
        m = c.model
        if not m.sealed:
            if err is None:
                self.find("unmeasured-run", f"running the unmeasured {describe_circuit(c)} returned {str(value)[:200]}")
            return
        if m.broken:
            if err is None:
                self.find("run-broken", f"running {describe_circuit(c)}, which holds a user gate whose matrix is not unitary or does "
                          f"not fit, returned {str(value)[:200]}")
            self.bump("broken-run")
            return
        if err is not None:
            if not harmful:
                self.suspect("run-raised", f"running {describe_circuit(c)} raised {show(err)}",
                             {"malformed": "raised " + type(err).__name__}, c)
            else:
                self.bump("run-failed")
            return
        c.runs += 1
        self.bump("run-returned")
        if self.on_run is not None:
            self.on_run(op, value)
        if harmful:
            self.bump("run-returned-despite-fault")
        wrong = M.compare(value, m, c.mode, c.method)
        if wrong:
            self.suspect("run", f"running {describe_circuit(c)} gave {wrong}", M.plain(value), c)
        c.last = M.plain(value) if not wrong else None
        if op.get("spoil") and isinstance(value, list):
            for e in value:
                if isinstance(e, dict):
                    e.clear()
            value.clear()

    def judge_query(self, op, k, c, value):
        m = c.model
        if k == "info":
            exp = m.info()
            if not isinstance(value, dict) or {x: value.get(x) for x in exp} != exp:
                self.find("stats", f"get_circuit_info of {describe_circuit(c)} is {value!r}, must be {exp!r}")
            if op.get("spoil") and isinstance(value, dict):
                d = value.get("details")
                if isinstance(d, dict):
                    d["h"] = 999
                value["depth"] = -5
        elif k == "config":
            exp = m.config()
            if not isinstance(value, dict) or {x: value.get(x) for x in exp} != exp:
                self.find("stats", f"get_circuit_config of {describe_circuit(c)} is {value!r}, must be {exp!r}")
            if op.get("spoil") and isinstance(value, dict):
                value["depth"] = value["width"] = -5
        elif k in ("str", "draw"):
            self.judge_drawing(c, value)
        elif k == "mpl":
            self.judge_figure(c, value)

    def judge_figure(self, c, shown):
        """Every gate of the circuit, and nothing else, on its registers in order."""
        m = c.model
        where = f"the figure of {describe_circuit(c)}"
        figs = [f for s in shown for f in s]
        n = len(m.dims)
        states = [x for f in figs for x in f["states"]]
        if sorted(states) != [(q, m.dims[q], m.init[q]) for q in range(n)]:
            self.find("figure", f"{where} shows the registers {sorted(states)}")
            return
        rows, boxes = [[] for _ in range(n)], []
        for f in figs:
            boxes += [y for _, y in sorted(f["boxes"])]
            for x, q, tok in sorted(f["tokens"], key=lambda t: t[0]):
                if not 0 <= q < n:
                    self.find("figure", f"{where} shows {tok} beside the registers")
                    return
                rows[q].append(tok)
        exp_rows, exp_boxes = [[] for _ in range(n)], []
        for op in m.gates:
            k = op["op"]
            regs = op["q"] if isinstance(op.get("q"), list) else [op.get("q")]
            if k in ("h", "z"):
                exp_rows[op["q"]].append((k.upper(),))
            elif k == "x":
                exp_rows[op["q"]].append(("X", op.get("plus", 1), m.dims[op["q"]]))
            elif k in ("cx", "tof"):
                for q in [op["ctl"]] if k == "cx" else op["cs"]:
                    exp_rows[q].append(("*",))
                d = m.dims[op["t"]]
                exp_rows[op["t"]].append(("X", op.get("plus", 1), d))
            elif len(regs) == 1:
                exp_rows[regs[0]].append(("G",))
            else:
                exp_boxes.append((min(regs) + max(regs)) / 2)
        for q in range(n):
            exp = exp_rows[q] + ([("M",)] if m.sealed else [])
            if len(rows[q]) != len(exp) or any(not same_mark(g, e) for g, e in zip(rows[q], exp)):
                self.find("figure", f"{where} shows on register {q} {rows[q]}, must be {exp}")
                return
        if len(boxes) != len(exp_boxes) or any(abs(a - b) > .01 for a, b in zip(boxes, exp_boxes)):
            self.find("figure", f"{where} shows user gates around registers {boxes}, must be {exp_boxes}")

    def judge_drawing(self, c, text):
        m = c.model
        rows, facts = parse_drawing(text)
        where = f"the drawing of {describe_circuit(c)}"
        if len(rows) != len(m.dims):
            self.find("drawing", f"{where} has {len(rows)} rows:\n{text}")
            return
        for q, (d, s, toks) in enumerate(rows):
            if (d, s) != (m.dims[q], m.init[q]):
                self.find("drawing", f"{where} shows register {q} as ({d})|{s}>:\n{text}")
                return
            got = [t for t in toks if t != ("|",)]
            exp = list(m.rows[q]) + ([("M",)] if m.sealed else [])
            if not same_tokens(got, exp, m.dims[q]):
                self.find("drawing", f"{where} shows on register {q} {got}, must be {exp}:\n{text}")
                return
        exp = m.config()
        for key in ("depth", "width"):
            if key in facts and facts[key] != exp[key]:
                self.find("drawing", f"{where} says {key} {facts[key]}, must be {exp[key]}")

    # ------------------------------------------------------------------
    def mutate(self, op):
        a, e = self.args[op["arg"]], self.args_expected[op["arg"]]
        for x in (a, e):
            how = op["how"]
            if how == "append":
                x.append(op["value"])
            elif how == "clear":
                x.clear()
            elif how == "set" and x:
                x[op["i"] % len(x)] = op["value"]
            elif how == "reverse":
                x.reverse()
            elif how == "restore":
                x[:] = op["value"]

    def check_args(self):
        for k, v in self.args.items():
            if v != self.args_expected[k] or any(type(a) is not type(b) for a, b in zip(v, self.args_expected[k])):
                self.find("args", f"the caller's list {self.args_expected[k]} was changed to {v}")
                self.args_expected[k] = list(v)


def is_broken(op):
    return op["op"] == "gate" and op["g"]["kind"] in M.BROKEN


def cast(to, regs):
    """Registers in a form other than that of the documentation."""
    if to == "tuple":
        return tuple(regs) if isinstance(regs, list) else regs
    if to == "array":
        return np.array(regs) if isinstance(regs, list) else regs
    to = {"bool": bool, "float": float}.get(to) or getattr(np, to)
    return [to(r) for r in regs] if isinstance(regs, list) else to(regs)


def may_refuse(op):
    """A call in a form that may be refused, but if it is not, means what it says."""
    return "cast" in op or str(op.get("np", "")).startswith(("float", "bool"))


STATE = re.compile(r"\$Q\^\{(-?\d+)D\}_\{(-?\d+)\}\|(-?\d+)>\$$")
SHIFT = re.compile(r"\$X\^\{\+(-?\d+)\}_\{(-?\d+)\}\$$")
MARK = re.compile(r"\$([HZGM])\$$")


def read_figure(fig):
    """What one figure shows: register labels, marks (x, register, token) and
    the boxes of user gates (x, middle)."""
    states, tokens, boxes = [], [], []
    for ax in fig.axes:
        for t in ax.texts:
            x, y = t.get_position() if not hasattr(t, "xy") else t.xy
            s = t.get_text()
            q = round(y - 1)
            m = STATE.match(s)
            if m:
                d, i, v = map(int, m.groups())
                states.append((i, d, v) if q == i else (-1, d, v))
                continue
            m = SHIFT.match(s)
            if m:
                tokens.append((x, q, ("X", int(m.group(1)), int(m.group(2)))))
                continue
            m = MARK.match(s)
            if m:
                tokens.append((x, q, (m.group(1),)))
            elif s == "G":
                boxes.append((x, y - 1))
        for line in ax.lines:
            xs, ys = line.get_xdata(), line.get_ydata()
            on = line.get_markevery()
            if not isinstance(on, (list, tuple)) or len(on) != len(xs):
                continue
            for x, y, o in zip(xs, ys, on):
                if not o:
                    continue
                if line.get_marker() == "+":
                    tokens.append((x, round(y - 1), ("X", None, 2)))
                elif line.get_marker() == "o" and line.get_color() != "none":
                    tokens.append((x, round(y - 1), ("*",)))
    return {"states": states, "tokens": tokens, "boxes": boxes}


def same_mark(g, e):
    if g[0] != e[0]:
        return False
    return g[0] != "X" or (g[2] == e[2] and (g[1] is None or (g[1] - e[1]) % e[2] == 0))


def same_tokens(got, exp, d):
    if len(got) != len(exp):
        return False
    for g, e in zip(got, exp):
        if g[0] != e[0]:
            return False
        if g[0] == "X" and (g[1] - e[1]) % d:
            return False
    return True


def show(e):
    return f"{type(e).__name__}({str(e)[:120]})"


def describe(op):
    k = op["op"]
    if k == "load":
        return f"circuit_from_qasm({op['text']!r})"
    if k == "new":
        return f"QuantumCircuit({(len(op['dims']), op['dims'][0]) if op.get('tuple') else op['dims']}, init_states={op.get('init')}, backend={op.get('backend')})"
    if "cast" in op:
        return describe({a: v for a, v in op.items() if a != "cast"}) + f" with registers as {op['cast']}"
    if k == "cx":
        return f"cx([{op['ctl']}, {op['t']}], {op['plus']!r})"
    if k == "tof":
        return f"toffoli(({op['cs']}, {op['t']}), {op.get('plus', 1)!r})"
    if k == "gate":
        return f"gate({op['g']['kind']}, {op['q']})"
    if k == "x":
        return f"x({op['q']}, plus={op.get('plus', 1)!r}{', dims=%s' % op['dims'] if 'dims' in op else ''})"
    if k in ("h", "z"):
        return f"{k}({op['q']}{', dims=%s' % op['dims'] if 'dims' in op else ''})"
    return k + (f"({op['q']})" if "q" in op else "")


def describe_circuit(c):
    g = "; ".join(describe(o) for o in c.model.gates[-12:])
    n = len(c.model.gates)
    return f"{c.model.dims} from {c.model.init} on {c.op.get('backend') or 'default'} [{'... ' if n > 12 else ''}{g}]"


def build_reference(image, ref):
    """The circuit made of the acknowledged calls alone: what it returns."""
    w = World(image)
    new = {k: v for k, v in ref["new"].items()}
    new["c"] = "R"
    if "text" in new:
        new.pop("fault", None)
        w.step(new)
        if "R" not in w.circ:
            return {"malformed": "not loadable"}
        try:
            return M.plain(w.circ["R"].real.run())
        except Exception as e:
            return {"malformed": "raised " + type(e).__name__}
    w.step(new)
    for g in ref["gates"]:
        g = {k: v for k, v in g.items() if k not in ("fault", "arg", "cast")}
        g["c"] = "R"
        w.step(g)
    if "R" not in w.circ:
        return {"malformed": "not constructible"}
    c = w.circ["R"]
    c.real.measure_all()
    try:
        return M.plain(c.real.run())
    except Exception as e:
        return {"malformed": "raised " + type(e).__name__}
