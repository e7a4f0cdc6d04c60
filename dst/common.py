"""What the circuit properties share: execution of a list of steps by one
caller, fault placement inside measured steps, and minimisation."""
import copy
import sys
import warnings

from . import boot, gen, sim, world
from .sim import SIM


def image(gpu=False):
    return boot.Image("qudiet", gpu=gpu)


def finish(w, extra=None):
    out = {
        "findings": w.findings,
        "suspects": w.suspects,
        "counts": w.counts,
        "stats": w.stats,
        "fired": SIM.fired,
        "probes": SIM.probes,
        "steps": SIM.total_steps,
        "time": SIM.now - 1000.0,
        "digest": SIM.digest(),
        "log": [list(map(str, x)) for x in SIM.log[-60:]],
    }
    out.update(extra or {})
    return out


def run_sequence(image, spec, lines=False, calls=True, observe=False, after=None):
    """One caller works through spec['ops']."""
    sim.monitor(lines=lines, calls=calls)
    w = world.World(image, spec.get("args"))
    w.observe_failures = observe
    saved = sys.stdout
    sys.stdout = w.stdout
    SIM.on = True
    try:
        for op in spec["ops"]:
            w.step(op)
        if spec.get("args"):
            w.check_args()
    except Exception:
        if not w.findings:
            raise
        # what was found before stands
    finally:
        SIM.on = False
        sys.stdout = saved
    if after:
        after(w)
    return finish(w)


def run_threads(image, spec, calls=False):
    """Prelude by one caller, then several callers at once, then postlude."""
    sim.monitor(lines=True, calls=calls, fine=spec.get("fine", False))
    w = world.World(image, spec.get("args"))
    saved = sys.stdout
    sys.stdout = w.stdout
    SIM.on = True
    counts = [[] for _ in spec["tasks"]]
    sched = None
    try:
        for op in spec.get("prelude", []):
            w.step(op)
        steps0 = SIM.total_steps

        def caller(i):
            def body():
                for op in spec["tasks"][i]:
                    n = len(counts[i])
                    w.step(op)
                    if len(counts[i]) == n:
                        counts[i].append({})
            return body
        by_name = {}

        def collect(c):
            if SIM.ctx.name in by_name:
                by_name[SIM.ctx.name].append(c)
        w.on_counts = collect
        tasks = []
        for i in range(len(spec["tasks"])):
            t = sim.Task(i, f"caller{i}", caller(i))
            by_name[t.name] = counts[i]
            tasks.append(t)
        sched = sim.Scheduler(tasks, spec.get("policy") or {"switches": []})
        sched.run()
        for t in tasks:
            if t.error is not None:
                raise t.error if isinstance(t.error, BaseException) else RuntimeError(t.error)
        w.on_counts = None
        mid = SIM.total_steps - steps0
        for op in spec.get("postlude", []):
            w.step(op)
        w.check_args()
    finally:
        SIM.on = False
        sys.stdout = saved
    return finish(w, {
        "task_counts": counts, "switches": sched.switches, "task_steps": [t.ctx.steps for t in tasks], "mid_steps": mid,
        "places": sorted({f"{p[2][0]}:{p[2][1]}" if p[2] else p[1] for p in sched.places}),
    })


def policies(rng, steps, n):
    """Schedules for a run of so many measured steps: a few well separated
    pre-emptions (most bugs need one to three), or many."""
    total = max(1, sum(steps))
    for _ in range(n):
        r = rng.random()
        pol = {"seed": rng.randrange(1 << 30), "first": rng.randrange(len(steps))}
        if r < .45:
            k = rng.choice([1, 2, 3, 5])
            pol.update(p=min(.9, 2.0 * k / total), max=k)
        elif r < .8:
            pol.update(p=rng.choice([.005, .02, .05]))
        else:
            pol.update(p=rng.choice([.2, .5]))
        if rng.random() < .12:
            pol["kinds"] = ["backend", "lock", "ctor", "out", "sleep"]
            pol["p"] = rng.choice([.1, .3, .6])
        yield pol


def concretise(spec, res):
    if "switches" not in res:
        return None
    return dict(spec, policy={"switches": res["switches"], "first": (spec.get("policy") or {}).get("first", 0)})


def shrinks_threads(spec):
    pol = spec.get("policy") or {}
    if pol.get("switches"):
        for sw in chunks(pol["switches"]):
            yield dict(spec, policy=dict(pol, switches=sw))
    for i, ops in enumerate(spec["tasks"]):
        if ops:
            yield dict(spec, tasks=spec["tasks"][:i] + [[]] + spec["tasks"][i + 1:])
    for part in ("postlude", "prelude"):
        for ops in shrink_ops(spec.get(part, [])):
            yield dict(spec, **{part: ops})
    for i, ops in enumerate(spec["tasks"]):
        for o in shrink_ops(ops):
            yield dict(spec, tasks=spec["tasks"][:i] + [o] + spec["tasks"][i + 1:])
    if pol.get("switches"):
        for j, (a, n, b) in enumerate(pol["switches"]):
            for m in {n // 2, n - 1}:
                if m > 0:
                    sw = list(pol["switches"])
                    sw[j] = [a, m, b]
                    yield dict(spec, policy=dict(pol, switches=sw))


def reference(image, ref):
    sim.monitor(False, False)
    return world.build_reference(image, ref)


def place_faults(rng, ops, counts, kinds, k, interrupts=False, only=None):
    """Returns ops with k faults put at random measured points of random steps."""
    ops = copy.deepcopy(ops)
    spots = []
    for i, c in enumerate(counts[: len(ops)]):
        if only is not None and not only(ops[i]):
            continue
        for kind in kinds:
            if c.get(kind):
                spots.append((i, kind, c[kind]))
    if not spots:
        return ops, 0
    n = 0
    for _ in range(k):
        i, kind, m = rng.choice(spots)
        f = gen.fault(rng, kind, m, interrupts)
        ops[i].setdefault("fault", []).append(f)
        n += 1
    return ops, n


# ------------------------------------------------------------------ shrinking
def chunks(seq):
    """Candidates for removal, largest first (delta debugging order)."""
    n = len(seq)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield seq[:a] + seq[a + size:]
        size //= 2


def simpler_op(op):
    if "fault" in op:
        for i in range(len(op["fault"])):
            o = copy.deepcopy(op)
            del o["fault"][i]
            if not o["fault"]:
                del o["fault"]
            yield o
        for i, f in enumerate(op["fault"]):
            if f["do"] == "raise" and f["exc"] != "MemoryError":
                o = copy.deepcopy(op)
                o["fault"][i]["exc"] = "MemoryError"
                yield o
            if f.get("times", 1) > 1:
                for t in {1, f["times"] // 2, f["times"] - 1}:
                    o = copy.deepcopy(op)
                    o["fault"][i]["times"] = t
                    yield o
            if f["at"][1] > 1:
                for m in {1, f["at"][1] // 2, f["at"][1] - 1}:
                    o = copy.deepcopy(op)
                    o["fault"][i]["at"][1] = m
                    yield o
    for k in ("spoil", "debug", "name", "cregs", "form", "compress", "np", "cast", "object"):
        if k in op:
            o = dict(op)
            del o[k]
            yield o
    if op["op"] == "new" and not op.get("bad"):
        if op.get("out") is not None and max(op["dims"]) < 10:
            yield dict(op, out=None)
        if op.get("backend"):
            yield dict(op, backend=None)
        if op.get("init"):
            yield dict(op, init=None)
    if op["op"] in ("x", "cx", "tof") and op.get("plus", 1) not in (1,) and not op.get("bad"):
        yield dict(op, plus=1)
    if "dims" in op and op["op"] in ("h", "x", "z", "gate") and not op.get("bad"):
        o = dict(op)
        del o["dims"]
        yield o
    if op["op"] == "gate" and op["g"]["kind"] not in ("perm", "id"):
        yield dict(op, g={"kind": "perm", "seed": op["g"]["seed"]})


def regs_of(op):
    r = []
    for k in ("q", "ctl", "t"):
        if k in op:
            r += op[k] if isinstance(op[k], list) else [op[k]]
    return r + list(op.get("cs", []))


def smaller_dims(ops):
    """Shrinks the registers of one circuit, or drops its last register."""
    for i, op in enumerate(ops):
        if op["op"] != "new" or op.get("share") or op.get("bad"):
            continue
        cid = op["c"]
        used = {r for o in ops if o.get("c") == cid and o["op"] != "new" for r in regs_of(o)}
        n = len(op["dims"])
        if n > 1 and n - 1 not in used and not any(o.get("bad") for o in ops if o.get("c") == cid):
            o = copy.deepcopy(op)
            o["dims"].pop()
            if o.get("init"):
                o["init"] = o["init"][: n - 1]
            yield ops[:i] + [o] + ops[i + 1:]
        for j, d in enumerate(op["dims"]):
            if d > 2:
                for nd in {2, d - 1}:
                    o = copy.deepcopy(op)
                    if o.get("tuple"):
                        continue
                    o["dims"][j] = nd
                    if o.get("init") and len(o["init"]) > j:
                        o["init"][j] = min(o["init"][j], nd - 1)
                    if any("dims" in x for x in ops if x.get("c") == cid and x["op"] in ("h", "x", "z", "gate")):
                        continue
                    yield ops[:i] + [o] + ops[i + 1:]
        if op.get("tuple"):
            yield ops[:i] + [{k: v for k, v in op.items() if k != "tuple"}] + ops[i + 1:]


def shrink_ops(ops):
    for c in chunks(ops):
        yield c
    for i, op in enumerate(ops):
        for o in simpler_op(op):
            yield ops[:i] + [o] + ops[i + 1:]
    yield from smaller_dims(ops)


def shrinks(spec):
    for ops in shrink_ops(spec["ops"]):
        yield dict(spec, ops=ops)
