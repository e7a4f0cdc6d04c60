"""C09: loading a circuit from QASM is all or nothing."""
import copy
import gc
import os
import sys

from .. import batch, boot, common, gen, qasmgen, sim, simfs, world
from ..sim import SIM
from ..simfs import DISK

ID = "C09"
TITLE = "loading QASM"
ABSOLUTE = True
FS = True
KNOWN = ["C09-toffoli", "C09-prefix"]
ENFORCE = {"construct", "run", "run-raised", "stats", "drawing", "query-raised", "left-open", "changed-file", "backend",
           "unmeasured", "half-loaded"}
QUICK = (6800, 110)
THOROUGH = (300000, 900)
RULE = ("a run is one caller loading one to four random programs in random layouts from files and as text, on a requested "
        "backend, while files are missing, unreadable, read in small pieces, fail at a random read, open or close, are cut "
        "off at any byte before the end marker or replaced between loads, array memory or the backend fails, or the caller "
        "is interrupted at any line of the loader; whatever was loaded is queried, drawn and run and compared with the "
        "complete program; non-trivial: a circuit was loaded and run and (a file was cut or a fault fired); distinct: by event log")
REAL = ["qudiet.qasm", "qudiet.core", "qudiet.circuit_library", "numpy", "scipy", "the kernel's files (in a scratch directory)"]
STUBS = ["open() and the os functions: real files behind a failing layer"]
ASSUMES = ["a Toffoli raises the dimension of its middle register by one, as the loader does (see the known finding)",
           "instruction names are recognised by how they begin, in either case (see the known finding)"]

image = common.image
reference = common.reference


def new_load(rng, cid, prog=None, text=None, end=None, file=True):
    if prog is None:
        prog = qasmgen.program(rng, rng.choice([8, 16, 32]), wide=rng.random() < .025, long=rng.random() < .03)
        text, end = qasmgen.layout(rng, prog, long=.06)
    op = {"op": "load", "c": cid, "program": prog, "text": text, "end": end,
          "backend": rng.choice([None, "numpy", "sparse", "numpy", "sparse"])}
    if len(prog["dims"]) > 7:
        op["backend"] = rng.choice([None, "sparse"])
    if file:
        op["file"] = rng.choice(["c.qasm", "c.qasm", "d/e.txt", "x y.qasm"])
        op["form"] = rng.choice(["abs", "rel", "abs", "path"])
    return op


def ask(rng, cid):
    ops = [{"op": "run", "c": cid}]
    if rng.random() < .6:
        ops.append({"op": "info", "c": cid})
    if rng.random() < .4:
        ops.append({"op": "config", "c": cid})
    if rng.random() < .6:
        ops.append({"op": "str", "c": cid})
    if rng.random() < .3:
        ops.append({"op": "h", "c": cid, "q": 0, "sealed": 1})
    return ops


def generate(rng, i, tier):
    ops = []
    n = 0

    def add(op):
        nonlocal n
        ops.append(op)
        ops.extend(ask(rng, op["c"]))
        n += 1
    first = new_load(rng, "A")
    add(first)
    for _ in range(rng.choice([0, 1, 1, 2])):
        cid = "BCDEFG"[n - 1]
        r = rng.random()
        if r < .35:                                        # the same text, as text
            o = new_load(rng, cid, first["program"], first["text"], first["end"], file=False)
        elif r < .6:                                       # the same file again
            o = new_load(rng, cid, first["program"], first["text"], first["end"])
            o["file"] = first["file"]
        elif r < .85:                                      # another program in the same file
            o = new_load(rng, cid)
            o["file"] = first["file"]
        else:
            o = new_load(rng, cid, file=rng.random() < .5)
        add(o)
    return {"prop": ID, "ops": ops, "blksize": rng.choice([8192, 8192, 16, 64]),
            **({"locale": rng.choice(["ascii", "cp1252", "latin-1", "utf-16"])} if rng.random() < .12 else {})}


def cut_at(rng, op):
    """A place before the end marker; often next to a token or line end."""
    text, end = op["text"], op["end"]
    data = text.encode()
    limit = len(text[:end].encode())
    r = rng.random()
    if r < .3:
        nl = [i for i in range(limit) if data[i:i + 1] == b"\n"]
        if nl:
            return max(0, min(limit, rng.choice(nl) + rng.choice([0, 1])))
    if r < .45:
        return max(0, limit - rng.randint(0, 4))
    if r < .6:
        return min(limit + rng.randint(0, 3), limit + 3)   # inside the marker itself
    return rng.randint(0, limit)


def place(rng, spec, res):
    loads = [i for i, o in enumerate(spec["ops"]) if o["op"] == "load"]
    for _ in range(3):
        ops = copy.deepcopy(spec["ops"])
        hit = False
        for i in loads:
            if rng.random() < .3 and hit:
                continue
            op, c = ops[i], res["counts"][i]
            labels = res["ops"][i]
            style = rng.choice(["cut", "cut", "fs", "fs", "line", "call", "backend", "missing", "spoil"])
            if not op.get("file") and style in ("cut", "fs", "missing"):
                style = rng.choice(["textcut", "line", "call", "backend", "spoil"])
            if style == "cut":
                op["cut"] = cut_at(rng, op)
                if rng.random() < .3 and labels:
                    op["fault"] = [{"at": ["fs", labels.index("read") + 1], "do": "short", "part": rng.choice([1, 5])}] if "read" in labels else []
                hit = True
            elif style == "textcut":
                op["cut"] = cut_at(rng, op)
                hit = True
            elif style == "fs":
                f = batch.fs_fault(rng, labels, kills=False, styles=["errno", "errno", "special", "special", "stall", "interrupt"])
                if "read" in labels and rng.random() < .4:
                    at = rng.choice([n for n, x in enumerate(labels) if x == "read"])
                    f = {"at": ["fs", at + 1], "do": "errno", "err": rng.choice(["EIO", "EIO", "EINTR", "ESTALE"])}
                if f and f["do"] != "full":
                    op["fault"] = [f]
                    if f["do"] == "short" and rng.random() < .5:
                        op["fault"].append({"at": ["fs", f["at"][1] + rng.randint(1, 3)], "do": "errno", "err": "EIO"})
                    hit = True
            elif style == "spoil":
                op["spoilt"] = qasmgen.spoil(rng, op["text"], op["program"]["declared"])
                hit = True
            elif style == "missing":
                op["absent"] = rng.choice(["missing", "dir", "binary"])
                hit = True
            elif c.get(style):
                op["fault"] = [gen.fault(rng, style, c[style], interrupts=True)]
                hit = True
        if hit:
            yield dict(spec, ops=ops)


class Loader(world.World):
    def __init__(self, image, root):
        super().__init__(image)
        self.root = root
        self.loading = []
        self.ops = []
        self.default = image.default       # what the library takes when nobody says

    def load_real(self, op, be):
        cut = op.get("cut")
        if not op.get("file"):
            text = op["text"] if cut is None else op["text"].encode()[:cut].decode(errors="ignore")
            return self.image.qasm.circuit_from_qasm(op.get("spoilt", text), be)
        path = os.path.join(self.root, op["file"])
        given = path
        if op.get("form") == "rel":
            given = op["file"]
        elif op.get("form") == "path":
            import pathlib
            given = pathlib.Path(path)
        try:
            if be is None and op.get("form") != "abs":
                return self.image.qasm.parse_qasm(given)
            return self.image.qasm.parse_qasm(given, backend=be)
        except Exception:
            # what the failed load still holds open at this moment (an interrupt
            # on the way out of a with block is nothing Python code can help)
            self.left = dict(DISK.fds)
            raise

    def prepare(self, op):
        SIM.on = False
        path = os.path.join(self.root, op["file"])
        if os.path.isdir(path):
            os.rmdir(path)
        elif os.path.exists(path):
            os.remove(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        how = op.get("absent")
        data = op.get("spoilt", op["text"]).encode()
        if op.get("cut") is not None:
            data = data[:op["cut"]]
        if how == "binary":
            data = data[:3] + b"\xff\xfe" + data[3:]
        if how == "dir":
            os.mkdir(path)
        elif how != "missing":
            with open(path, "wb") as f:
                f.write(data)
        SIM.on = True
        return None if how in ("missing", "dir") else data

    def step(self, op, plan=None):
        if op["op"] == "load":
            self.left = {}
            data = None
            if op.get("file"):
                data = self.prepare(op)
            self.ops.append([])
            super().step(op, plan)
            if DISK.fds:
                SIM.on = False
                gc.collect()               # the exception is over
                SIM.on = True
            if self.left:
                self.find("left-open", f"a failed load left {sorted(self.left.values())} open")
            elif DISK.fds:
                self.find("left-open", f"after loading, {sorted(DISK.fds.values())} is open")
            if data is not None:
                SIM.on = False
                with open(os.path.join(self.root, op["file"]), "rb") as f:
                    now = f.read()
                SIM.on = True
                if now != data:
                    self.find("changed-file", f"loading {op['file']} changed the file")
            if op.get("cut") is not None or op.get("absent") or op.get("spoilt"):
                self.bump("refused" if op["c"] not in self.circ else "loaded-all-the-same")
            return
        n = len(self.counts)
        c = self.circ.get(op["c"])
        if op["op"] == "run":
            boot.BACKEND_USE.clear()
        super().step(op, plan)
        while len(self.counts) <= n:
            self.counts.append({})
        self.ops.append([])
        if op["op"] == "run" and c is not None:
            # without a request, it is the backend a circuit made by hand has
            want = c.op.get("backend") or self.default
            other = set(boot.BACKEND_USE) - {want}
            if other:
                self.find("backend", f"a circuit loaded for the {c.op.get('backend') or 'default'} backend was computed on {sorted(other)}")

    def judge(self, op, k, c, value, err, harmful, before):
        if k == "load" and err is not None and (op.get("cut") is not None or op.get("absent") or op.get("spoilt")):
            return
        if k == "load" and err is None and op.get("absent") in ("missing", "dir"):
            self.find("half-loaded", f"loading a {op['absent']} file returned a circuit")
            return
        if k == "load" and err is None and op.get("spoilt"):
            self.find("half-loaded", f"loading {op['spoilt']!r} returned a circuit")
            return
        if k == "load" and err is None and value.real is None:
            self.find("half-loaded", "loading returned nothing")
            return
        if k == "h":
            if err is None and value is True:
                self.find("unmeasured", "a loaded circuit is not measured: it accepts another gate")
            return
        super().judge(op, k, c, value, err, harmful, before)


def execute(image, spec):
    sim.monitor(lines=True, calls=True)
    DISK.__init__()
    root = simfs.make_root()
    DISK.blksize = spec.get("blksize", 8192)
    DISK.encoding = spec.get("locale", "utf-8")
    w = Loader(image, root)

    def on_op(label, rel):
        if w.ops:
            w.ops[-1].append(label)
    DISK.on_op = on_op
    saved = sys.stdout
    sys.stdout = w.stdout
    cwd = simfs.REAL["getcwd"]()
    try:
        simfs.REAL["chdir"](root)
        SIM.on = True
        for op in spec["ops"]:
            w.step(op)
    finally:
        SIM.on = False
        sys.stdout = saved
        simfs.REAL["chdir"](cwd)
        simfs.drop_root()
    return common.finish(w, {"ops": w.ops})


def shrinks(spec):
    for ops in common.chunks(spec["ops"]):
        yield dict(spec, ops=ops)
    for i, op in enumerate(spec["ops"]):
        for o in common.simpler_op(op):
            yield dict(spec, ops=spec["ops"][:i] + [o] + spec["ops"][i + 1:])
        if op["op"] == "load" and op["program"]["instr"] and not op.get("spoilt"):
            # the program with fewer instructions, in the plainest layout
            p = op["program"]
            for keep in common.chunks(list(range(len(p["instr"])))):
                q = {"declared": p["declared"], "dims": p["dims"], "gates": [p["gates"][k] for k in keep],
                     "instr": [p["instr"][k] for k in keep]}
                up = {g[2] for g in q["instr"] if g[0] == "Toffoli"}
                if [d + (j in up) for j, d in enumerate(p["declared"])] != p["dims"]:
                    continue
                import random
                text, end = qasmgen.layout(random.Random(1), q, plain=True)
                o = dict(op, program=q, text=text, end=end)
                if "cut" in o:
                    for back in range(0, 6):
                        yield dict(spec, ops=spec["ops"][:i] + [dict(o, cut=max(0, end - back))] + spec["ops"][i + 1:])
                else:
                    yield dict(spec, ops=spec["ops"][:i] + [o] + spec["ops"][i + 1:])
    if "locale" in spec:
        yield {k: v for k, v in spec.items() if k != "locale"}
    if spec.get("blksize") != 8192:
        yield dict(spec, blksize=8192)


def nontrivial(spec, res):
    s = res.get("stats", {})
    cut = any(o.get("cut") is not None or o.get("absent") or o.get("spoilt") for o in spec["ops"])
    return (bool(res.get("fired")) or cut) and (s.get("run-returned", 0) > 0 or s.get("refused", 0) > 0 or s.get("failed:load", 0) > 0)
