"""What the monitors of the Python layer share: the peer, recordings as files, comparison, bookkeeping."""
import ctypes
import math
import os
import random
import struct
import subprocess

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), ".build")


class Fail(Exception):
    """The code under test broke the property."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class Harness(Exception):
    """The monitor itself is at fault."""


class Peer:
    """The Rust API, running in a process of its own (src/main.rs)."""

    def __init__(self, scratch):
        fifo = os.path.join(scratch, "answers")
        os.mkfifo(fifo)
        log = open(os.environ["UP4_DEBUG"], "a") if "UP4_DEBUG" in os.environ else subprocess.DEVNULL
        self.p = subprocess.Popen(
            [os.path.join(BUILD, "full/target/debug/up4peer"), fifo],
            stdin=subprocess.PIPE, stdout=log, stderr=log, text=True, cwd=scratch)
        self.answers = open(fifo)

    def ask(self, *request):
        """-> ("ok", lines) or ("panic", message)"""
        line = "\t".join(num(x).replace("\t", "TAB") for x in request)
        if "\n" in line:
            raise Harness(f"request {line!r}")
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            raise Harness("the peer died")
        out = []
        while True:
            l = self.answers.readline()
            if not l:
                raise Harness(f"the peer died during {line!r}")
            l = l.rstrip("\n")
            if l == "end":
                break
            out.append(l)
        if out and out[0].startswith("panic"):
            m = out[0].split("\t", 1)[1]
            if m.startswith("REQUEST"):
                raise Harness(f"{m} in {line!r}")
            return "panic", m
        return "ok", out

    def arrays(self, *request):
        """the answer as arrays, or the panic message as str"""
        how, out = self.ask(*request)
        if how == "panic":
            return out
        r = []
        for l in out:
            what, shape, bits = l.split("\t")
            assert what == "arr"
            v = [struct.unpack("<d", struct.pack("<Q", int(b, 16)))[0] for b in bits.split()]
            r.append(np.array(v, dtype=float).reshape([int(n) for n in shape.split(",") if n]))
        return r


def num(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    return str(x)


def eq(a, b):
    return a == b or (a != a and b != b)


def same(got, want, rel=1e-12):
    """equal up to rounding, None if so, else a description of the first difference"""
    got, want = np.asarray(got), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return f"shape {got.shape} instead of {want.shape}"
    if got.dtype != np.float64:
        return f"element type {got.dtype}"
    fin = np.isfinite(want)
    scale = float(np.abs(want[fin]).max()) if fin.any() else 0.0
    ok = (np.isnan(got) & np.isnan(want)) | (got == want) | (fin & np.isfinite(got) & (np.abs(got - want) <= rel * scale))
    if ok.all():
        return None
    i = tuple(int(k[0]) for k in np.nonzero(np.atleast_1d(~ok)))
    g, w = (got[i], want[i]) if got.shape else (got[()], want[()])
    return f"entry {list(i)} is {float(g)!r} instead of {float(w)!r}"


# ---------------------------------------------------------------- recordings

class Rec:
    """A recording: per step time, and rows of particles."""

    def __init__(self, r, layout, steps=None, particles=None, origin=None):
        self.layout = layout
        n = particles or r.randint(1, 7)
        k = steps or r.choice([1, 2, 3, 4, 5, 7, 8, 12, 20, 33])
        scale = r.choice([1.0, 1.0, 0.01, 50.0])
        at = [r.choice([0.0, 0.0, 3.0, -7.5]) * scale for _ in range(3)] if origin is None else origin
        half = [scale * r.choice([1.0, 0.5, 2.0]) for _ in range(3)]
        self.times, t = [], r.choice([0.0, 0.0, 2.5, 2.5, -1.5])
        dt = r.choice([1.0, 0.1, 0.01])
        even = r.random() < 0.7
        for _ in range(k):
            self.times.append(t)
            t += dt if even else dt * r.uniform(0.3, 2.0)
        holes = r.random() < 0.15
        types = [float(r.randint(0, 2)) for _ in range(n)]
        radii = [scale * r.choice([0.01, 0.02]) for _ in range(n)]
        ids = [float(i) for i in range(n)] if layout == "p" or r.random() < 0.5 else sorted(r.sample([float(x) for x in range(40)], n))
        varying = layout == "t" and r.random() < 0.4
        drift = r.random() < 0.25  # particles may change their type and size
        where = [[at[a] + half[a] * r.uniform(-1, 1) for a in range(3)] for _ in range(n)]
        self.steps = []
        for s in range(k):
            keep = [i for i in range(n) if not varying or r.random() < 0.8] or [r.randrange(n)]
            if varying and s == r.randrange(k):
                keep = list(range(n))
            rows = []
            for i in range(n):
                for a in range(3):
                    x = where[i][a] + half[a] * r.uniform(-0.4, 0.4)
                    where[i][a] = min(max(x, at[a] - half[a]), at[a] + half[a])
                if i not in keep:
                    continue
                p = list(where[i])
                v = [r.gauss(0, 1) * scale for _ in range(3)]
                if holes and r.random() < 0.1:
                    p, v = [math.nan] * 3, [math.nan] * 3
                elif holes and r.random() < 0.1:
                    v = [math.nan] * 3
                rows.append(dict(id=ids[i], pos=p, vel=v, type=r.choice(types) if drift else types[i], rad=r.choice(radii) if drift else radii[i], cloud=1.0, dens=2500.0))
            self.steps.append(rows)
        self.n = max(len(s) for s in self.steps)
        pos = np.array([q["pos"] for s in self.steps for q in s])
        fin = pos[np.isfinite(pos).all(axis=1)]
        if len(fin) == 0:
            fin = np.array([at])
        self.lo, self.hi = fin.min(axis=0), fin.max(axis=0)
        for a in range(3):  # a grid over a flat box has no cells to speak of
            if self.hi[a] - self.lo[a] < 1e-3 * scale:
                self.lo[a] -= 0.5 * scale
                self.hi[a] += 0.5 * scale
        self.scale = scale

    def describe(self):
        return (f"{'particle' if self.layout == 'p' else 'time'} layout, {len(self.steps)} steps of "
                f"{[len(s) for s in self.steps]} particles, times {self.times[:3]}.., first step "
                f"{[(q['id'], q['pos'], q['vel']) for q in self.steps[0][:2]]}, box {self.lo.tolist()} {self.hi.tolist()}")

    def row(self, i):
        """what data[i] stands for: id, position, velocity of each particle of step i"""
        return np.array([[q["id"], *q["pos"], *q["vel"]] for q in self.steps[i]], dtype=float).reshape(-1, 7)

    def write(self, path):
        out = ["#up4-stub-hdf5", "group\t"]

        def item(what, group, name, kind, shape, values):
            out.append("\t".join([what, group, name, kind, ",".join(map(str, shape)), " ".join(num(v) for v in values)]))

        vel = np.array([q["vel"] for s in self.steps for q in s])
        fin = vel[np.isfinite(vel).all(axis=1)]
        if len(fin) == 0:
            fin = np.zeros((1, 3))
        mag = np.sqrt((fin ** 2).sum(axis=1))
        k = len(self.times)
        item("attr", "", "hdf5_up4_type", "i32", [], [1 if self.layout == "t" else 2])
        item("attr", "", "dimensions", "f64", [2, 3], [*map(float, self.lo), *map(float, self.hi)])
        item("attr", "", "particle number", "u64", [], [self.n])
        item("attr", "", "timesteps", "u64", [], [k])
        item("attr", "", "sample rate", "f64", [], [1.0])
        item("attr", "", "time", "f64", [2], [self.times[0], self.times[-1]])
        stats = [[float(fin[:, a].min()), float(fin[:, a].mean()), float(fin[:, a].max())] for a in range(3)]
        item("attr", "", "velocity", "f64", [3, 3], [x for s in stats for x in s])
        item("attr", "", "velocity magnitude", "f64", [3], [float(mag.min()), float(mag.mean()), float(mag.max())])
        item("data", "", "time array", "f64", [k], self.times)

        def columns(group, rows):
            m = len(rows)
            item("data", group, "position", "f64", [m, 3], [x for q in rows for x in q["pos"]])
            item("data", group, "velocity", "f64", [m, 3], [x for q in rows for x in q["vel"]])
            for name, key in (("radius", "rad"), ("particletype", "type"), ("density", "dens"), ("id", "id"), ("ppcloud", "cloud")):
                item("data", group, name, "f64", [m], [q[key] for q in rows])

        if self.layout == "t":
            for i, rows in enumerate(self.steps):
                out.append(f"group\ttimestep {i}")
                columns(f"timestep {i}", rows)
                item("data", f"timestep {i}", "time", "f64", [], [self.times[i]])
        else:
            for p in range(self.n):
                out.append(f"group\tparticle {p}")
                columns(f"particle {p}", [s[p] for s in self.steps])
                item("data", f"particle {p}", "time", "f64", [k], self.times)
        with open(path, "w") as f:
            f.write("\n".join(out) + "\n")


# ---------------------------------------------------------------- one case

class Case:
    """One generated case: randomness, the code under test, the peer, and what was observed."""

    def __init__(self, world, prop, seed, idx, thorough):
        self.w, self.idx, self.thorough = world, idx, thorough
        self.r = random.Random(f"{seed}/{prop}/{idx}")
        self.prop = prop
        self.log, self.nontrivial = [], False
        self.files = []

    def see(self, what, n=1):
        self.w.counters[what] = self.w.counters.get(what, 0) + int(n)

    def note(self, text):
        self.log.append(text)

    def path(self, ext="hdf5"):
        self.w.serial += 1
        p = os.path.join(self.w.scratch, f"f{self.w.serial}.{ext}")
        self.files.append(p)
        return p

    def clean(self):
        for p in self.files:
            self.w.forget(p)
            if os.path.exists(p):
                os.remove(p)
        self.w.peer.ask("free")

    def fail(self, key, msg):
        raise Fail(f"{self.prop}:{key}", msg)

    def ensure(self, ok, key, msg):
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)

    def do(self, label, f, *a, **k):
        """runs code under test that must succeed"""
        try:
            return f(*a, **k)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            self.fail("raised", f"{label}: {type(e).__name__}: {str(e)[:300]}")

    def refused(self, label, types, f, *a, **k):
        """runs code under test that must raise one of the exceptions"""
        try:
            got = f(*a, **k)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            if types is None or isinstance(e, types):
                return
            self.fail("refusal", f"{label}: raised {type(e).__name__}: {str(e)[:300]}")
        self.fail("refusal", f"{label}: accepted, gave {str(got)[:200]}")

    def same(self, key, what, got, want, rel=1e-12):
        d = same(got, want, rel)
        if d:
            self.fail(key, f"{what}: {d}")


class World:
    """What lives as long as the process: the extension module, the peer, counters."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.serial = 0
        self.counters = {}
        import upppp_rust
        import up4
        self.up4, self.rust = up4, upppp_rust
        self.lib = ctypes.CDLL(upppp_rust.__file__)
        self.peer = Peer(scratch)

    def dump(self, path):
        if self.lib.up4_stub_hdf5_dump(path.encode()):
            return None
        with open(path) as f:
            return f.read()

    def forget(self, path):
        self.lib.up4_stub_hdf5_forget(path.encode())
        self.peer.ask("forget", path)
