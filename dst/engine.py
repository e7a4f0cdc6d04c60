"""Spreads the simulated runs of a property over worker processes, confirms,
minimises and records violations, and writes the evidence file."""
import json
import os
import re
import selectors
import subprocess
import sys
import time
import hashlib
import importlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN_FILE = os.path.join(HERE, "known-findings.txt")


def worker_cmd(*args):
    return [sys.executable, "-m", "dst.worker", *map(str, args)]


def run_lines(args, stdin=None, timeout=900, env=None):
    p = subprocess.run(worker_cmd(*args), input=stdin, capture_output=True, text=True, timeout=timeout, cwd=HERE,
                       env=env or os.environ)
    out = []
    for line in p.stdout.splitlines():
        try:
            out.append(json.loads(line))
        except ValueError:
            pass
    if not out:
        raise RuntimeError(f"worker {args} said nothing: {p.stderr[-3000:]}")
    return out


class Pool:
    """Workers searching in parallel until done, out of time, or a violation."""

    def __init__(self, prop, seed, count, seconds, tier, workers):
        self.final = []
        self.violation = None
        self.errors = []
        self.procs = []
        per = -(-count // workers)
        sel = selectors.DefaultSelector()
        self.err_files = []
        for w in range(workers):
            p = subprocess.Popen(worker_cmd("search", prop, seed, w, workers, per, seconds, tier),
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE)
            p.buf = b""
            p.errbuf = b""
            p.closed = False
            sel.register(p.stdout, selectors.EVENT_READ, (p, "out"))
            sel.register(p.stderr, selectors.EVENT_READ, (p, "err"))
            self.procs.append(p)
        hard = time.monotonic() + seconds + 400
        open_ends = 2 * workers
        while open_ends and time.monotonic() < hard:
            for key, _ in sel.select(timeout=5):
                p, which = key.data
                data = os.read(key.fd, 1 << 16)
                if not data:
                    sel.unregister(key.fileobj)
                    open_ends -= 1
                    continue
                if which == "err":
                    p.errbuf = (p.errbuf + data)[-8000:]
                    continue
                p.buf += data
                while b"\n" in p.buf:
                    line, p.buf = p.buf.split(b"\n", 1)
                    self.message(p, json.loads(line))
            if self.violation is not None:
                break
        for p in self.procs:
            if p.poll() is None:
                if self.violation is None:
                    try:
                        p.wait(20)
                    except subprocess.TimeoutExpired:
                        self.errors.append("a worker did not end in time")
                        p.kill()
                else:
                    p.kill()
            p.wait()
        if self.violation is None:
            for p in self.procs:
                if not getattr(p, "final", None) and not self.errors:
                    self.errors.append("a worker ended early: " + p.errbuf.decode(errors="replace")[-2500:])

    def message(self, p, m):
        if "violation" in m:
            if self.violation is None:
                self.violation = m
        elif "harness_error" in m:
            self.errors.append(f"run {m.get('index')}: {m['harness_error']}")
        elif "progress" in m:
            p.final = m
            self.final.append(m)


def known_lines(prop):
    """ids of the known findings of a property, with their description."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def check_known(prop, mod):
    """Runs the directed scenario of every finding this property knows of.
    Returns (lines to print, violation or None)."""
    names = getattr(mod, "KNOWN", [])
    if not names:
        return [], None
    listed = known_lines(prop)
    lines, bad = [], None
    for m in run_lines(["known", prop, *names]):
        r = m["result"]
        if "ok" not in r:
            lines.append(f"note: scenario {m['name']} could not be carried out")
            continue
        if r["ok"] is None:
            continue                                   # holds now
        if m["name"] in listed:
            lines.append(f"KNOWN-FINDING: property={prop} {listed[m['name']]}")
        else:
            bad = (m["name"], r["ok"])
    return lines, bad


def save_replay(prop, tag, spec, message, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {"property": prop, "class": tag, "message": message, "spec": spec}
    body.update(extra)
    h = hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{prop}-{tag}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def replay(path, times=1):
    body = json.load(open(path))
    out = run_lines(["one", body["property"]], stdin=(json.dumps(body["spec"]) + "\n") * times, timeout=1800)
    return body, out


def report(prop, seed, v):
    """Minimise, save, replay in a fresh process, print."""
    tag, msg = v["violation"]
    spec = v["spec"]
    extra = {"seed": seed, "run": v["index"]}
    try:
        m = run_lines(["minimise", prop, 75], stdin=json.dumps({"spec": spec, "tag": tag}), timeout=500)[-1]
    except Exception as e:  # the violation stands, minimised or not
        m = {"spec": spec, "message": None, "tries": 0, "note": repr(e)}
    if m.get("message"):
        extra.update(minimise_tries=m["tries"], digest=m.get("digest"), trace=m.get("log"))
        path = save_replay(prop, tag, m["spec"], m["message"], extra)
        msg = m["message"]
    else:
        path = save_replay(prop, tag, spec, msg, extra)
    try:
        body, out = replay(path)
        same = any(x[0] == tag for x in out[-1].get("violations", []))
        note = "replayed in a fresh process: same violation" if same else "NOT reproduced by a fresh process"
        if same and extra.get("digest") and out[-1].get("digest") != extra["digest"]:
            note += " (through a different event log)"
        if not same:
            # the minimised form may depend on what ran before it: keep the original
            path = save_replay(prop, tag, spec, msg, extra)
    except Exception as e:
        note = f"replay failed: {e}"
    print(f"{prop} [{tag}] {msg}")
    print(f"seed {seed}, run {v['index']}; {note}")
    print(f"VIOLATION property={prop} replay={os.path.relpath(path, HERE)}")
    return 1


def merge(final):
    agg = {}
    keys, places, samples = set(), set(), []
    for m in final:
        for k, n in m["progress"].items():
            if isinstance(n, dict):
                d = agg.setdefault(k, {})
                for a, b in n.items():
                    d[a] = d.get(a, 0) + b
            else:
                agg[k] = agg.get(k, 0) + n
        keys.update(m["keys"])
        places.update(m["places"])
        samples += m["samples"]
    return agg, keys, places, samples


def main(argv):
    if argv and argv[0] == "--replay":
        body, out = replay(argv[1])
        r = out[-1]
        print(json.dumps({k: r.get(k) for k in ("violations", "digest", "harness_error")}, indent=1))
        if any(x[0] == body["class"] for x in r.get("violations", [])):
            print(f"VIOLATION property={body['property']} replay={argv[1]}")
            return 1
        return 0
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    t0 = time.monotonic()
    # the settings of the property are data; its module imports nothing heavy
    mod = importlib.import_module(f"dst.props.{prop.lower()}")
    workers = int(os.environ.get("VERIF_WORKERS") or getattr(mod, "WORKERS", 0) or min(8, os.cpu_count() or 2))
    count, seconds = mod.THOROUGH if tier == "thorough" else mod.QUICK
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    count = max(workers, int(count * scale))
    seconds = seconds * max(1.0, scale)
    evidence_path = os.path.join(EVIDENCE, f"{prop}.json")
    os.makedirs(EVIDENCE, exist_ok=True)
    if os.path.exists(evidence_path):
        os.remove(evidence_path)
    lines, bad = check_known(prop, mod)
    for l in lines:
        print(l, flush=True)
    pool = Pool(prop, seed, count, seconds, tier, workers)
    wall = time.monotonic() - t0
    agg, keys, places, samples = merge(pool.final)
    code = 0
    if bad is not None:
        path = save_replay(prop, "directed", {"scenario": bad[0]}, bad[1], {"seed": seed})
        print(f"{prop} {bad[0]}: {bad[1]}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, HERE)}")
        code = 1
    elif pool.violation is not None:
        code = report(prop, seed, pool.violation)
    elif pool.errors:
        for e in pool.errors[:3]:
            print("HARNESS ERROR " + e, file=sys.stderr)
        code = 2
    runs = agg.get("runs", 0)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:4] or [{"note": "a violation ended the search before any sample"}],
            "fault_free_runs": agg.get("base_runs", 0),
            "faults_fired": agg.get("fired", {}),
            "workload": agg.get("stats", {}),
            "probes": agg.get("probes", {}),
            "runs_per_hour": round(runs * 3600 / wall) if wall else 0,
            "seeds_per_hour": round(agg.get("done", 0) * 3600 / wall) if wall else 0,
            "simulated_seconds": round(agg.get("sim_time", 0.0), 3),
            "simulated_steps": agg.get("sim_steps", 0),
            "task_switches": agg.get("switches", 0),
            "distinct_preemption_places": len(places),
            "distinct_measure": "distinct event logs (every seam passed, fault fired and task switch, in order)",
            "determinism": {"runs_executed_twice": agg.get("determinism_checked", 0),
                            "different_event_logs": agg.get("determinism_mismatch", 0)},
            "workers": workers,
            "components_real": mod.REAL, "components_stubbed": mod.STUBS,
            "known_findings_seen": lines,
        },
        "assumptions": getattr(mod, "ASSUMES", []),
        "wall_s": round(time.monotonic() - t0, 1),
        "violations": 1 if code == 1 else 0,
    }
    with open(evidence_path, "w") as f:
        json.dump(evidence, f, indent=1)
    if code == 0:
        print(f"{prop}: {runs} simulated runs ({len(keys)} distinct, non-trivial), {sum(agg.get('fired', {}).values())} faults fired, "
              f"no violation, {evidence['wall_s']} s")
    return code
