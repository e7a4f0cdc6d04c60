"""C12: fixing licence headers never loses a line of source."""
import copy
import os
import random
import re
import sys
import time

from .. import batch, boot, common, sim, simfs
from ..sim import SIM
from ..simfs import DISK

ID = "C12"
TITLE = "licence header tool"
ABSOLUTE = True
FS = True
ENFORCE = {"lost-lines", "touched", "not-fixed", "not-converged", "check", "ended", "outside", "header", "stray", "report", "mode", "passed-over"}
QUICK = (6400, 110)
THOROUGH = (300000, 900)
RULE = ("a run is one tree of source files (with and without headers, of this or an earlier year, interpreter and coding "
        "lines, no final newline, empty, non-Python files, private directories) worked on by one to four runs of the tool "
        "(fix or check, some in a later year) that meet failing file operations, full disks, torn and short writes, "
        "interrupts and kills, then by a clean fix, a check and a fix in a later year; every file is judged after every "
        "change of the disk; non-trivial: a fault fired and a file was fixed; distinct: by event log")
REAL = ["scripts/license-headers.py", "the kernel's files (in a scratch directory)", "shutil"]
STUBS = ["open() and the os functions: real files behind a failing layer", "date", "process kill: the code stops, its buffers are lost"]

TOOL = os.path.join(boot.REPO, "scripts", "license-headers.py")
KEEP = ["#!/usr/bin/env python\n", "# -*- coding: utf-8 -*-\n"]


def image():
    boot.load_script("scripts/license-headers.py", "warm")
    return None


# ------------------------------------------------------------------ workload
LINES = ["import os\n", "x = 1\n", "def f():\n", "    return 'ü'\n", "\n", "# a comment\n", "#\n", "class A: pass\n",
         "# -*- coding: utf-8 -*-\n", "#!/usr/bin/env python\n", "#!/bin/sh\n", "print('" + "y" * 300 + "')\n", "\t# tab\n",
         "# SPDX-License-Identifier: AGPL-3.0\n", '"""doc"""\n', "#  This file is part of something else\n",
         "z = 3  \n", "   \n", "\t\n", "a = 2\t\n", "d = {\n", "    1: 2,\n", "}\n", "s = 'a\tb'\n", "x = 1\n"]
# characters that some ways of splitting a text take for the end of a line
ODD = ["\x0c\n", "\x0cclass B: pass\n", "# a\x0bb\n", "s = '\u2028'\n", "# \x85\n", "t = '\x1c\x1d\x1e'\n", "x = 1  # \u2029\n", "\x0c", "# a\rb\n", "s = '\\x00'\n", "# \x00\n", "\ufeff# bom\n", "# \u00a0 \n", "e = '\U0001f600'\n", "# cafe\u0301\n"]


def source(rng):
    """A description of one file's content; the header is not known yet."""
    r = rng.random()
    keep = rng.choice([[], [], [], [KEEP[0]], [KEEP[1]], KEEP, KEEP[::-1]])
    body = [rng.choice(LINES) for _ in range(rng.choice([0, 1, 2, 5, 12, 40]))]
    if rng.random() < .03:
        body = body + [rng.choice(LINES) for _ in range(5)] * rng.choice([40, 400])
    if rng.random() < .12:
        for _ in range(rng.choice([1, 3])):
            body.insert(rng.randint(0, len(body)), rng.choice(ODD))
    d = {"keep": keep, "body": body}
    if rng.random() < .08:
        d["crlf"] = rng.choice([1, 1, 2])                  # all lines end in CR LF, or those of the body only
    if rng.random() < .15:
        d["mode"] = rng.choice([0o755, 0o600, 0o640, 0o444, 0o777, 0o700])
    if r < .22:
        d["header"] = rng.choice([0, 0, -1, -2, -9])       # has a header already, of that year
    elif r < .3:
        d["part"] = rng.randint(1, 8)                      # the first lines of a header only
    if rng.random() < .15 and body:
        body[-1] = body[-1].rstrip("\n") or "y = 2"        # no newline at the end
    if rng.random() < .04:
        d["latin"] = rng.choice(["# caf\u00e9\n", "s = '\u00fc\u00df'\n", "\u00a0\u00e9"])   # not UTF-8
        d["at"] = rng.choice([0, 0, len(body)])
    return d


NAMES = ["a.py", "b.py", "mod.py", "x.pyi", "__init__.py", "src/__init__.py", "src/core/a.py", "test/t.py", "scripts/run.py", "deep/er/m.py", "pkg/n.py", "pkg/sub/k.py", "two words.py", "d.ir/q.py", "_p.py", "ünï.py",
         "src/core/sub/z.py", "src/core/sub/low/z.pyi", "pkg/sub/__init__.py", "Makefile.py", "a-b.py", "test/data/in/t2.py"]
ALIEN = ["notes.txt", "a.pyc", "__pycache__/c.py", ".git/h.py", "pkg/.hidden/z.py", "pkg/__x__/y.py", "run.sh", "a.py.orig", "py", "conf.pyx",
         ".venv/lib/site/m.py", "pkg/__x__/sub/w.py", ".git/a/b/h.pyi", "pkg/.cache/v.py"]


def generate(rng, i, tier):
    files = [{"name": n, **source(rng)} for n in rng.sample(NAMES, rng.choice([1, 2, 3, 4, 6, 6, 9, 13]))]
    alien = [{"name": n, "keep": [], "body": [rng.choice(LINES) for _ in range(3)]} for n in rng.sample(ALIEN, rng.choice([0, 1, 2, 4]))]
    year = rng.choice([2023, 2024, 2025, 2026, 2031, 1999, 2099])
    phases = []
    y = year
    for _ in range(rng.choice([1, 1, 2, 3])):
        ph = {"mode": "fix" if rng.random() < .85 else "check", "year": y, "order": rng.randrange(1 << 20),
              "form": rng.choice(["abs", "abs", "rel", "dot", "files", "some", "dir", "dirs"])}
        if ph["form"] in ("dir", "dirs"):
            ph["dirs"] = rng.sample(["src", "pkg", "test", "deep", "src/core", "deep/er", "src/core/sub", "pkg/sub", "nowhere"], 1 if ph["form"] == "dir" else 2)
        phases.append(ph)
        if rng.random() < .2:
            y += rng.choice([1, 1, 5])
    phases.append({"mode": "fix", "year": y, "order": 1, "form": rng.choice(["abs", "rel"]), "clean": 1})
    phases.append({"mode": "check", "year": y, "order": 2, "form": "abs", "clean": 1})
    later = y + rng.choice([0, 1, 7])
    phases.append({"mode": "fix", "year": later, "order": 3, "form": "abs", "clean": 1})
    phases.append({"mode": "check", "year": later, "order": 4, "form": "abs", "clean": 1})
    links = []
    if rng.random() < .06:
        # directories that are links, to private ones or to their own parent
        links = rng.sample([["vendor", ".venv/lib/site"], ["pkg/up", ".."], ["cache", ".git/a"]], rng.choice([1, 2]))
        alien += [{"name": n, "keep": [], "body": ["z = 3\n"]} for n in (".venv/lib/site/m.py", ".git/a/b/h.pyi")
                  if n not in [a["name"] for a in alien]]
    return {"prop": ID, "files": files, "alien": alien, "links": links, "phases": phases, "blksize": rng.choice([8192, 8192, 64, 512]), "pid": rng.choice([7, 100]),
            **({"locale": rng.choice(["latin-1", "latin-1", "cp1252", "ascii"])} if rng.random() < .08 else {})}


def place(rng, spec, res):
    for _ in range(4):
        out = copy.deepcopy(spec)
        hit = False
        for n, ph in enumerate(out["phases"]):
            if ph.get("clean") or n >= len(res["ops"]):
                continue
            plan = []
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                f = batch.fs_fault(rng, res["ops"][n])
                if f:
                    plan.append(f)
            lines = res["counts"][n].get("line", 0)
            if rng.random() < .15 and lines:
                plan.append({"at": ["line", rng.randint(1, lines)], "do": "interrupt"})
            if plan:
                ph["plan"] = plan
                hit = True
        if hit:
            yield out


# ------------------------------------------------------------------ execution
class Tree:
    def __init__(self, spec):
        self.spec = spec
        self.findings = []
        self.ops, self.counts = [], []
        self.stats = {}
        self.checks = 0
        self.state = {}            # file -> contents it may have right now
        self.business = {}         # file -> does the tool have business with it
        self.modes = {}            # file -> its permissions
        self.headers = {}
        self.unsure = set()
        self.opaque = False

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def find(self, tag, msg):
        if len(self.findings) < 20:
            self.findings.append((tag, msg))

    def read(self, rel):
        try:
            with simfs.REAL_OPEN(os.path.join(self.root, rel), "rb") as f:
                return f.read()
        except OSError:
            return None

    # -- running the tool ------------------------------------------------------
    def set_year(self, year):
        SIM.wall_offset = time.mktime((year, 6, 15, 12, 0, 0, 0, 0, 0)) - SIM.now

    def tool(self, ph, paths, cwd, plan=None):
        self.set_year(ph["year"])
        DISK.order = ph.get("order", 0)
        self.pids += 1
        argv = [TOOL, ph["mode"]] + paths

        def body():
            m = boot.load_script("scripts/license-headers.py", "license_headers")
            m.main()
        p = simfs.Proc(f"tool{self.pids}", self.pids, argv, cwd, None, body)
        counts, _ = simfs.run_procs([p], None, [plan])
        return p, counts[0]

    def header(self, year):
        """What the tool itself inserts, learnt from a trivial file."""
        if year in self.headers:
            return self.headers[year]
        d = os.path.join(self.root, "learn")
        os.makedirs(d, exist_ok=True)
        with simfs.REAL_OPEN(os.path.join(d, "l.py"), "wb") as f:
            f.write(b"x = 1\n")
        p, _ = self.tool({"mode": "fix", "year": year}, [d], self.root)
        data = self.read("learn/l.py")
        if p.outcome != "returned" or not data.endswith(b"x = 1\n"):
            self.find("header", f"fixing a file of one line gave {data!r} ({p.outcome}: {p.error})")
            data = b"x = 1\n"
        h = data[: -len(b"x = 1\n")].decode()
        lines = h.split("\n")
        if any(l and not l.startswith("#") for l in lines) or "SPDX-License-Identifier" not in h or str(year) not in h:
            self.find("header", f"the header inserted in {year} is {h!r}")
        os.remove(os.path.join(d, "l.py"))
        os.rmdir(d)
        self.headers[year] = h
        return h

    def content(self, f, year):
        h = ""
        if "header" in f:
            h = re.sub(str(year), str(year + f["header"]), self.header(year), count=1)
        elif "part" in f:
            h = "".join(self.header(year).splitlines(True)[: f["part"]])
        head = ("".join(f["keep"]) + h).encode()
        if f.get("latin"):
            body = "".join(f["body"][: f["at"]]).encode() + f["latin"].encode("latin-1") + "".join(f["body"][f["at"]:]).encode()
        else:
            body = "".join(f["body"]).encode()
        if f.get("crlf"):
            body = body.replace(b"\n", b"\r\n")
            if f["crlf"] == 1:
                head = head.replace(b"\n", b"\r\n")
        return head + body

    def fixed(self, rel, data, year):
        """What the file must be once the tool has fixed it in that year."""
        real = re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", data.decode(errors="surrogateescape"))
        lines = [re.sub(r"\r\n?$", "\n", x) for x in real]
        i = 0
        while i < len(lines) and lines[i] in KEEP:
            i += 1
        head = re.findall(r"[^\n]*\n", self.header(year))
        rest = lines[i:i + len(head)]
        if rest and i + len(rest) == len(lines) and len(rest) < len(head) and data.endswith(b"\n"):
            if all(a == b or "Copyright" in b for a, b in zip(rest, head)):
                self.unsure.add(rel)                       # a file that ends within its header: either is fine
        if len(rest) == len(head) and all(
                a == b or ("Copyright" in b and re.sub(r"\d{4}", str(year), a, count=1) == b) for a, b in zip(rest, head)):
            return data                                    # has its header
        if real and real[0].endswith("\r\n"):
            head = [x[:-1] + "\r\n" for x in head]         # the header ends its lines as the file does
        return "".join(real[:i] + head + real[i:]).encode(errors="surrogateescape")

    def is_business(self, name):
        parts = name.split("/")
        return bool(re.search(r"\.pyi?$", name)) and not any(p.startswith(("__", ".")) for p in parts[:-1])

    # -- judging ---------------------------------------------------------------
    def check_file(self, rel, when):
        self.checks += 1
        data = self.read(rel)
        if data in self.state[rel]:
            mode = simfs.REAL["stat"](os.path.join(self.root, rel)).st_mode & 0o7777
            if mode != self.modes[rel]:
                self.find("mode", f"{when}: the permissions of {rel} are {mode:o}, were {self.modes[rel]:o}")
            return
        if not self.business[rel]:
            self.find("touched", f"{when}: {rel}, which the tool has no business with, was changed")
        elif data is None:
            self.find("lost-lines", f"{when}: {rel} has disappeared")
        else:
            self.find("lost-lines", f"{when}: {rel} is neither as it was nor that with the header: {len(data)} bytes "
                      f"{data[:60]!r}...; was {len(self.state[rel][0])} bytes {self.state[rel][0][:60]!r}...")

    def watch(self, label, rel):
        w = rel[2:] if rel.startswith("w/") else None
        if w in self.state:
            self.check_file(w, f"during '{label} {w}'")
        elif label in ("rename", "replace", "link"):
            for r in self.state:
                self.check_file(r, f"during '{label} {w}'")

    def paths(self, ph):
        form = ph.get("form", "abs")
        if form == "rel":
            return ["w"], os.path.dirname(self.root)
        if form == "dot":
            return ["."], self.root
        if form == "files":
            return [os.path.join(self.root, r) for r in sorted(self.state)], "/"
        if form == "some":
            names = sorted(self.state)
            return [os.path.join(self.root, r) for r in names[: max(1, len(names) // 2)]], "/"
        if form in ("dir", "dirs"):
            return ph["dirs"], self.root
        return [self.root], self.root

    def named(self, text, cwd):
        """The files that lines of the output end with, by what the line says."""
        out = {}
        names = {}
        for r in self.state:
            a = os.path.join(self.root, r)
            for x in (a, os.path.relpath(a, cwd), os.path.relpath(a, os.path.realpath(cwd))):
                names[x] = r
        for line in text.splitlines():
            for x, r in names.items():
                if line.endswith(x) and (len(line) == len(x) or line[-len(x) - 1] in " '\"\t:"):
                    word = "fixed" if "fixed" in line[: -len(x)].lower() else ""
                    out.setdefault(word, set()).add(r)
        return out

    def phase(self, ph, n):
        year = ph["year"]
        self.header(year)
        paths, cwd = self.paths(ph)
        given = set(self.state)
        if ph.get("form") == "some":
            given = set(sorted(self.state)[: max(1, len(self.state) // 2)])
        elif ph.get("form") in ("dir", "dirs"):
            given = {r for r in self.state if any(r.startswith(d + "/") for d in ph["dirs"])}
        before = {r: self.read(r) for r in self.state}
        want = {}
        self.unsure = set()
        for r, b in before.items():
            want[r] = self.fixed(r, b, year) if self.business[r] and b is not None else b
            self.state[r] = [b, want[r]] if ph["mode"] == "fix" and r in given else [b]
        ops = []
        DISK.on_op = lambda label, rel: ops.append(label)
        DISK.watch = self.watch
        SIM.on = True
        try:
            p, counts = self.tool(ph, paths, cwd, ph.get("plan"))
        finally:
            SIM.on = False
            DISK.watch = DISK.on_op = None
        self.ops.append(ops)
        self.counts.append(counts)
        self.bump("ended: " + p.outcome.split()[0])
        fired = [f for f in p.fired if f["do"] not in ("stall", "clock", "short")]
        for r in self.state:
            self.check_file(r, f"after phase {n} ({ph['mode']}, {p.outcome})")
        named = self.named(p.out.text(), cwd if os.path.isabs(cwd) else self.root)
        if ph["mode"] == "fix":
            for r in sorted(named.get("fixed", ())):
                if self.read(r) != want[r] and r not in self.unsure:
                    self.find("report", f"phase {n}: {r} was reported as fixed, but is not ({p.outcome})")
        if p.outcome == "killed":
            return
        if fired:
            # ended as if all were well: then nothing was passed over
            if p.outcome == "returned" and not self.opaque and all(f["do"] in ("errno", "full") for f in fired):
                text = p.out.text() + p.err.text()
                for r in sorted(given):
                    bad = want[r] != before[r] if ph["mode"] == "check" else self.read(r) != want[r]
                    if bad and r not in self.unsure and not (ph["mode"] == "fix" and os.path.basename(r) in text):
                        self.find("passed-over", f"phase {n}: {ph['mode']} ended with success after {batch.describe(fired)}, "
                                  f"but {r} has no header" + ("" if ph["mode"] == "check" else " and was not reported"))
                        break
            return
        if self.opaque and p.outcome != "returned":
            return                     # a source that cannot be decoded may end the tool, but never harms a file
        if ph["mode"] == "fix":
            if p.outcome != "returned":
                self.find("ended", f"phase {n}: fix without any fault ended: {p.outcome}: {p.error}")
                return
            for r in sorted(given):
                if self.read(r) != want[r] and r not in self.unsure:
                    self.find("not-fixed", f"phase {n}: after a complete fix {r} is not the file with its header")
                elif want[r] != before[r]:
                    self.bump("fixed")
        else:
            need = any(want[r] != before[r] for r in given)
            ok = p.outcome == "returned"
            if p.error is not None:
                self.find("ended", f"phase {n}: check ended: {p.outcome}: {p.error}")
            elif ok == need and not self.unsure:
                self.find("check", f"phase {n}: check {'accepts' if ok else 'does not accept'} files of which "
                          f"{'some need' if need else 'none needs'} a header")
            elif not ok and not self.unsure and not self.opaque:
                wrong = {r for r in given if want[r] != before[r]} ^ named.get("", set())
                if wrong:
                    self.find("report", f"phase {n}: check names {sorted(named.get('', ()))}; wrong about {sorted(wrong)}")
            self.bump("checked")

    def run(self):
        spec = self.spec
        sim.monitor(lines=True, calls=False)
        DISK.__init__()
        self.root = simfs.make_root()
        self.pids = spec.get("pid", 100)
        DISK.blksize = spec.get("blksize", 8192)
        DISK.encoding = spec.get("locale", "utf-8")
        try:
            y0 = spec["phases"][0]["year"]
            self.header(y0)
            for f in spec["files"] + spec["alien"]:
                p = os.path.join(self.root, f["name"])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                data = self.content(f, y0)
                try:
                    data.decode(DISK.encoding)
                except UnicodeDecodeError:
                    self.opaque |= f in spec["files"]
                with simfs.REAL_OPEN(p, "wb") as h:
                    h.write(data)
                simfs.REAL["chmod"](p, f.get("mode", 0o644))
                self.modes[f["name"]] = f.get("mode", 0o644)
                self.state[f["name"]] = [data]
                self.business[f["name"]] = self.is_business(f["name"])
            for name, to in spec.get("links", []):
                p = os.path.join(self.root, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.lexists(p):
                    os.symlink(to, p)
            first = {r: s[0] for r, s in self.state.items()}
            for n, ph in enumerate(spec["phases"]):
                self.phase(ph, n)
            # over all: one header, whatever happened in between
            years = sorted({ph["year"] for ph in spec["phases"]})
            if not self.opaque and any(ph["mode"] == "fix" and ph.get("clean") for ph in spec["phases"]):
                for r, b in first.items():
                    if self.business[r] and r not in self.unsure and self.read(r) not in [self.fixed(r, b, y) for y in years]:
                        self.find("not-converged", f"{r} ended neither as it was nor with exactly one header")
            killed = self.stats.get("ended: killed", 0) or SIM.fired
            if not killed:
                extra = sorted(self.everything() - set(self.state))
                if extra:
                    self.find("stray", f"the tool left {extra} behind")
            if DISK.refused:
                self.find("outside", f"the tool wrote outside the given directory: {DISK.refused[:3]}")
        finally:
            SIM.on = False
            simfs.drop_root()
        return {
            "findings": self.findings, "suspects": [], "counts": self.counts, "ops": self.ops, "stats": self.stats,
            "fired": SIM.fired, "probes": {"files judged": self.checks}, "steps": SIM.total_steps,
            "time": SIM.now - 1000.0, "digest": SIM.digest(), "log": [list(map(str, x)) for x in SIM.log[-60:]],
        }

    def everything(self):
        out = set()
        for d, _, names in os.walk(self.root):
            for x in names:
                out.add(os.path.relpath(os.path.join(d, x), self.root))
        return out


def execute(image, spec):
    return Tree(spec).run()


def shrinks(spec):
    for part in ("phases", "files", "alien", "links"):
        for c in common.chunks(spec[part]):
            if c or part in ("alien", "links"):
                yield dict(spec, **{part: c})
    for n, ph in enumerate(spec["phases"]):
        def put(p):
            return dict(spec, phases=spec["phases"][:n] + [p] + spec["phases"][n + 1:])
        for c in common.chunks(ph.get("plan", [])):
            yield put(dict(ph, plan=c))
        if ph.get("form") != "abs":
            yield put(dict(ph, form="abs"))
    for i, f in enumerate(spec["files"]):
        def put(g):
            return dict(spec, files=spec["files"][:i] + [g] + spec["files"][i + 1:])
        for c in common.chunks(f["body"]):
            yield put(dict(f, body=c))
        for c in common.chunks(f["keep"]):
            yield put(dict(f, keep=c))
        for k in ("header", "part", "latin", "crlf", "mode"):
            if k in f:
                yield put({a: b for a, b in f.items() if a != k})
    if "locale" in spec:
        yield {k: v for k, v in spec.items() if k != "locale"}
    if spec["blksize"] != 8192:
        yield dict(spec, blksize=8192)


def nontrivial(spec, res):
    return bool(res.get("fired")) and res.get("stats", {}).get("fixed", 0) > 0
