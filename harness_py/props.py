"""The properties of the Python layer (C49 on): each function runs one generated case."""
import ctypes
import functools
import json
import math
import os
import re
import shutil
import signal
import sys

import numpy as np

from lib import Fail, Rec, same, eq, num

CMAPS = ("turbo viridis inferno spectral magma plasma cividis warm cool cubehelix blue_green blue_purple green_blue orange_red "
         "purple_blue_green purple_blue purple_red red_purple yellow_green_blue yellow_green yellow_orange_brown yellow_orange_red "
         "blues greens greys oranges purples reds brown_green purple_green pink_green purple_orange red_blue red_grey "
         "red_yellow_blue red_yellow_green").split()


def recording(c, **k):
    rec = Rec(c.r, c.r.choice("tp"), **k)
    path = c.path()
    rec.write(path)
    c.note(rec.describe())
    return rec, path


def open_data(c, rec, path):
    D = c.w.up4.Data
    direct = D.from_tdata if rec.layout == "t" else D.from_pdata
    how = c.r.choice(["Data", "direct"])
    c.see("opened with " + ("Data()" if how == "Data" else direct.__name__))
    return c.do(f"opening with {how}", D if how == "Data" else direct, path)


class Geo:
    """A grid's geometry: style, cells, limits, as Python and the peer take them."""

    def __init__(self, c, rec, least=1, style=None):
        r = c.r
        self.style = style or r.choice(["cartesian", "cylindrical"])
        self.n = [r.randint(least, 5) for _ in range(3)]
        self.lim = []
        for a in range(3):
            lo, hi = float(rec.lo[a]), float(rec.hi[a])
            w = hi - lo
            cut = r.choice([0.0, 0.0, 0.1, -0.25])
            self.lim += [lo - cut * w, hi + cut * w * r.choice([1.0, 0.5])]

    def describe(self):
        return f"{self.style} grid {self.n} in {self.lim}"

    def python(self, c):
        a = dict(num_cells=c.r.choice([self.n, np.array(self.n)]), grid_style=self.style,
                 limits=c.r.choice([self.lim, np.array(self.lim)]))
        return c.do("Grid", c.w.up4.Grid, **a)

    def peer(self, c):
        return c.w.peer.arrays("grid", self.style, *self.n, *self.lim)


# ---------------------------------------------------------------- C49

NUMBER = r"-?\d+\.?\d*(?:e[-+]?\d+)?"


def capture(c, f):
    """what f prints, from whatever language"""
    path = c.path("txt")
    sys.stdout.flush()
    keep = os.dup(1)
    to = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    try:
        os.dup2(to, 1)
        f()
        sys.stdout.flush()
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(to)
    with open(path) as h:
        return h.read()


def no_recordings(c, rec, path):
    """files that cannot be opened, or not as what they are said to be"""
    D = c.w.up4.Data
    what = c.r.choice(["missing", "no type", "other type", "other layout", "empty"])
    c.note(f"opening a file: {what}")
    if what == "missing":
        c.refused("a file that does not exist", None, c.r.choice([D, D.from_tdata, D.from_pdata]), path + ".gone")
    elif what == "other layout":
        f = D.from_pdata if rec.layout == "t" else D.from_tdata
        c.refused(f"{f.__name__} of a file of the other layout", None, lambda: f(path)[0])
    else:
        other = c.path()
        with open(path) as f, open(other, "w") as g:
            for line in f:
                if "hdf5_up4_type" in line:
                    if what == "other type":
                        g.write(re.sub(r"[12]$", c.r.choice("03457"), line.rstrip("\n")) + "\n")
                elif what != "empty" or line.startswith("#") or line.strip() == "group":
                    g.write(line)
        c.refused(f"a file: {what}", None, D, other)
    c.see("files refused")


def data_access(c):
    r = c.r
    rec, path = recording(c, steps=r.choice([1, 2, 3, 5, 8, 13, 40]))
    d = open_data(c, rec, path)
    k = len(rec.steps)
    c.nontrivial = k > 1

    def block(idx):
        a = np.zeros((len(idx), rec.n, 7))
        for j, i in enumerate(idx):
            row = rec.row(i)
            a[j, :len(row)] = row
        return a

    def summary():
        c.ensure(len(d) == k, "len", lambda: f"len is {len(d)} for {k} steps")
        c.same("time", "time()", c.do("time()", d.time), rec.times, 0)
        c.ensure(c.do("nparticles()", d.nparticles) == rec.n, "nparticles", lambda: f"{d.nparticles()} particles, not {rec.n}")
        c.same("extent", "min_position()", c.do("min_position()", d.min_position), rec.lo, 0)
        c.same("extent", "max_position()", c.do("max_position()", d.max_position), rec.hi, 0)
        dim = c.do("dimensions()", d.dimensions)
        want = {f"{a}{m}": float(v[i]) for m, v in (("min", rec.lo), ("max", rec.hi)) for i, a in enumerate("xyz")}
        c.ensure(dim == want, "extent", lambda: f"dimensions() is {dim} instead of {want}")
        c.see("summaries")

    summary()
    for _ in range(r.randint(4, 14)):
        what = r.choice(["int", "int", "list", "slice", "slice", "iterate", "beyond", "empty", "scribble", "summary", "text"])
        if what == "int":
            i = r.randrange(-k, k)
            c.note(f"data[{i}]")
            c.same("index", f"data[{i}] of {k} steps", c.do(f"data[{i}]", d.__getitem__, i), rec.row(i), 0)
            c.see("negative indices" if i < 0 else "indices")
        elif what == "list":
            idx = [r.randrange(-k, k) for _ in range(r.randint(1, 6))]
            c.note(f"data[{idx}]")
            c.same("list", f"data[{idx}] of {k} steps", c.do(f"data[{idx}]", d.__getitem__, idx), block(idx), 0)
            c.see("lists of indices")
        elif what in ("slice", "empty"):
            if what == "slice":
                s = slice(r.choice([None, r.randint(-k - 2, k + 2)]), r.choice([None, r.randint(-k - 2, k + 2)]),
                          r.choice([None, 1, 1, 2, 3, -1, -1, -2, 7]))
            else:
                a = r.randint(0, k)
                s = slice(a, r.randint(0, a), None)
            idx = list(range(*s.indices(k)))
            c.note(f"data[{s}]")
            c.same("slice", f"data[{s}] of {k} steps", c.do(f"data[{s}]", d.__getitem__, s), block(idx), 0)
            c.see("slices" if idx else "empty slices")
            if s.step not in (None, 1) and len(idx) > 1:
                c.see("slices with a step")
            if s.step and s.step < 0 and len(idx) > 1:
                c.see("reversed slices")
        elif what == "iterate":
            c.note("for step in data")
            got = c.do("iteration", lambda: list(zip(range(k + 3), d)))
            c.ensure(len(got) == k, "iteration", lambda: f"iterating gives {len(got)} of {k} steps")
            for i, a in got:
                c.same("iteration", f"step {i} of an iteration", a, rec.row(i), 0)
            c.see("iterations")
        elif what == "beyond":
            i = r.choice([k, k + 1, -k - 1, 10 ** 6, -(10 ** 6)])
            c.note(f"data[{i}]")
            c.refused(f"data[{i}] of {k} steps", IndexError, d.__getitem__, i)
            c.refused(f"data[{[0, i]}] of {k} steps", IndexError, d.__getitem__, [0, i])
            c.see("indices out of range")
        elif what == "scribble":
            i = r.randrange(k)
            a = c.do(f"data[{i}]", d.__getitem__, i)
            a[...] = -1.0
            t = c.do("time()", d.time)
            t[...] = -1.0
            c.note(f"overwriting what data[{i}] and time() gave")
            c.same("copy", f"data[{i}] after overwriting what it gave before", c.do(f"data[{i}]", d.__getitem__, i), rec.row(i), 0)
            c.see("results overwritten")
        elif what == "text":
            c.note("str(data)")
            vel = np.array([q["vel"] for s in rec.steps for q in s])
            vel = vel[np.isfinite(vel).all(axis=1)]
            mag = np.sqrt((vel ** 2).sum(axis=1)) if len(vel) else np.zeros(1)
            box = [float(x) for a in range(3) for x in (rec.lo[a], rec.hi[a])]
            speeds = [float(mag.min()), float(mag.mean()), float(mag.max())]
            for f in (str, repr):
                text = c.do(f"{f.__name__}(data)", f, d)
                shown = [float(x) for x in re.findall(NUMBER, text)]
                for x in (k, rec.n, rec.times[-1], *speeds, *box, *(box[2 * a + 1] - box[2 * a] for a in range(3))):
                    c.ensure(any(abs(y - x) <= 0.005 + 1e-9 * abs(x) for y in shown), "text", lambda: f"{f.__name__}(data) lacks {x}: {text}")
            printed = [float(x) for x in re.findall(NUMBER, capture(c, lambda: c.do("stats()", d.stats)))]
            for x in (rec.n, rec.times[-1], *speeds, *box):
                c.ensure(any(abs(y - x) <= 1e-9 * abs(x) for y in printed), "text", lambda: f"stats() did not print {x}, but {printed}")
            c.see("texts")
        else:
            c.note("summary")
            summary()
    if r.random() < 0.2:
        no_recordings(c, rec, path)
    c.see("recordings by " + ("particle" if rec.layout == "p" else "time"))
    if len(set(map(len, rec.steps))) > 1:
        c.see("steps of different numbers of particles")


# ---------------------------------------------------------------- C50

def grid_constructor(c):
    r, Grid = c.r, c.w.up4.Grid
    style = r.choice(["cartesian", "cartesian", "cylindrical"])
    with_data = r.random() < 0.6
    rec = d = None
    if with_data:
        rec, path = recording(c, steps=2)
        d = open_data(c, rec, path)
    scale = rec.scale if rec else r.choice([1.0, 0.01, 50.0])

    def lims():
        a = r.choice([0.0, -1.0, r.uniform(-2, 2)])
        return [a * scale, (a + r.choice([1.0, 0.5, r.uniform(0.3, 3)])) * scale]

    kw, box = {}, [None] * 3
    if with_data:
        box = [[float(rec.lo[a]), float(rec.hi[a])] for a in range(3)]
    how = r.choice(["limits", "lims", "data"] if with_data else ["limits", "lims"])
    if how == "limits":
        box = [lims() for _ in range(3)]
        flat = [x for b in box for x in b]
        kw["limits"] = r.choice([flat, np.array(flat)])
    elif how == "lims":
        for a in range(3):
            if not with_data or r.random() < 0.5:
                box[a] = lims()
                kw["xyz"[a] + "lim"] = r.choice([box[a], np.array(box[a])])
    n = [50, 50, 50]
    sized = r.random() < 0.45
    if sized:
        size = []
        for a in range(3):
            w = box[a][1] - box[a][0]
            m = r.randint(1, 6)
            # a whole number of cells, or clearly not
            size.append(w / m if r.random() < 0.5 else w / (m + r.uniform(0.05, 0.95)))
            q = w / size[a]
            n[a] = int(q + 1e-9)
        kw["cell_size"] = r.choice([size, np.array(size)])
        c.see("cell sizes")
        if any(abs(box[a][1] - box[a][0] - n[a] * size[a]) < 1e-12 * scale for a in range(3)):
            c.see("cell sizes dividing the extent")
    elif r.random() < 0.9:
        n = [r.randint(1, 6) for _ in range(3)]
        kw["num_cells"] = r.choice([n, np.array(n)])
    else:
        c.see("default number of cells")
    if style != "cartesian" or r.random() < 0.5:
        kw["grid_style"] = style
    if with_data:
        kw["data"] = d
        c.see("grids from data")
    c.note(f"Grid({ {k: (v.tolist() if isinstance(v, np.ndarray) else '<data>' if k == 'data' else v) for k, v in kw.items()} })")
    g = c.do("Grid", Grid, **kw)
    flat = [x for b in box for x in b]
    if any(x < 0 for x in flat) and "limits" in kw:
        c.see("negative limits")
    c.ensure(list(c.do("shape()", g.shape)) == n, "cells", lambda: f"{g.shape()} cells instead of {n}")
    want = c.w.peer.arrays("grid", style, *n, *flat)
    got = c.do("cell_positions()", g.cell_positions)
    sep = [c.do(f"{a}positions()", getattr(g, a + "positions")) for a in "xyz"]
    for a in range(3):
        c.same("positions", f"positions along axis {a}", got[a], want[a])
        c.same("positions", f"{'xyz'[a]}positions()", sep[a], want[a])
        if style == "cartesian":
            lo, hi = box[a]
            mid = [lo + (hi - lo) * (i + 0.5) / n[a] for i in range(n[a])]
            c.ensure(np.abs(np.array(mid) - sep[a]).max() <= 1e-9 * max(abs(lo), abs(hi), hi - lo), "positions",
                     lambda: f"cell centres along axis {a} are {sep[a].tolist()} instead of {mid}")
    for what in ("to_numpy", "weights_to_numpy"):
        c.same("content", f"{what}() of a new grid", c.do(what, getattr(g, what)), np.zeros(n))
    # just inside and just outside every face
    mid = [(b[0] + b[1]) / 2 for b in box]
    if style == "cartesian":
        for a in range(3):
            for f, inside in ((0.01, True), (0.99, True), (-0.01, False), (1.01, False)):
                p = list(mid)
                p[a] = box[a][0] + f * (box[a][1] - box[a][0])
                c.ensure(c.do("is_inside", g.is_inside, p) == inside, "extent", f"{p} is {'outside' if inside else 'inside'} of {box}")
    else:
        w = max(box[0][1] - box[0][0], box[1][1] - box[1][0]) / 2
        for f, inside in ((0.99, True), (1.01, False)):
            t = r.uniform(-3, 3)
            p = [mid[0] + f * w * math.cos(t), mid[1] + f * w * math.sin(t), mid[2]]
            c.ensure(c.do("is_inside", g.is_inside, p) == inside, "extent", f"{p} is {'outside' if inside else 'inside'} of {box}")
    c.see(f"{style} grids")
    c.see(f"extent from {how}")
    c.nontrivial = True
    # what cannot make a grid
    bad = r.choice(["nothing", "two of three", "both", "style", "cells", "size", "reversed", "limits reversed", "limits short", "limits long", "data", "type", None, None, None])
    L = [0.0, 1.0]
    turned, k = [[-1.0, 2.0], [0.5, 1.0], [-3.0, -2.0]], r.randrange(3)
    turned[k].reverse()
    if bad:
        c.note(bad)
        args, exc = {
            "nothing": (dict(num_cells=[2, 2, 2]), ValueError),
            "two of three": (dict(xlim=L, zlim=L), ValueError),
            "both": (dict(limits=[0, 1, 0, 1, 0, 1], ylim=L), ValueError),
            "style": (dict(limits=[0, 1, 0, 1, 0, 1], grid_style="spherical"), ValueError),
            "cells": (dict(limits=[0, 1, 0, 1, 0, 1], num_cells=[2, 2]), ValueError),
            "size": (dict(limits=[0, 1, 0, 1, 0, 1], cell_size=[0.5, 0.5]), ValueError),
            "reversed": (dict({"xlim": L, "ylim": L, "zlim": L, r.choice(["xlim", "ylim", "zlim"]): [1.0, 0.0]}), ValueError),
            "limits reversed": (dict(limits=sum(turned, [])), ValueError),
            "limits short": (dict(limits=[0, 1, 0, 1][: r.choice([2, 4])]), ValueError),
            "limits long": (dict(limits=np.array([0, 1] * 4)), ValueError),
            "data": (dict(data="recording.hdf5"), TypeError),
            "type": (dict({r.choice(["limits", "xlim", "num_cells", "cell_size"]): "0,1"}), TypeError),
        }[bad]
        c.refused(f"Grid({args})", exc, Grid, **args)
        c.see("refused arguments")


# ---------------------------------------------------------------- C51

def _time(rec, r):
    t = rec.times
    return r.choice([t[0], t[-1], r.choice(t), r.uniform(t[0] - 0.1, t[-1] + 0.1 * (t[-1] - t[0] + 1))])


def analyses(c, rec):
    """name -> (needs a grid, [(argument, value, default or None)], request fields from values)"""
    r = c.r
    span = rec.times[-1] - rec.times[0]
    tn = lambda: r.choice([0, 1, 2])
    v = lambda: r.choice([0.0, 0.5, 1.0]) * rec.scale
    ax = r.randrange(3)
    at = float(rec.lo[ax] + (rec.hi[ax] - rec.lo[ax]) * r.uniform(0.2, 0.8))
    lo, hi = sorted(float(rec.lo[ax] + (rec.hi[ax] - rec.lo[ax]) * r.uniform(0.1, 0.9)) for _ in range(2))
    dt = span / max(len(rec.times) - 1, 1)
    k = len(rec.steps)
    a, b = sorted([r.randrange(k), r.randrange(k)])
    return {
        "vectorfield": (True, []),
        "velocityfield": (True, [("mode", r.choice(["absolute", "x", "y", "z", "xy", "xz", "yz", "r", "theta"]), "absolute"),
                                 ("min_velocity", r.choice([-1.0, 0.0]) * rec.scale, -1000000.0), ("max_velocity", r.choice([0.7, 1.5]) * rec.scale, 1000000.0)]),
        "numberfield": (True, []),
        "occupancyfield": (True, [("min_vel", v(), 0.0)]),
        "granular_temperature": (True, [("mode", r.choice(["x", "y", "z", "xyz"]), "xyz")]),
        "concentration_field": (True, [("type_a", tn(), 1), ("type_b", tn(), 2)]),
        "msd_field": (True, [("time", dt * r.choice([1.0, 2.0]), None)]),
        "mean_velocity": (False, []),
        "homogenity_index": (True, [("min_vel", v(), 0.0)]),
        "dispersion": (True, [("time_for_dispersion", dt * r.choice([1.0, 2.0]), None)]),
        "histogram": (True, [("property", "velocity", "velocity"), ("bins", r.randint(1, 12), 100), ("limit", r.choice([0.0, 1.0, 2.0]) * rec.scale, 0.0)]),
        "lacey_mixing_index": (True, [("type_a", tn(), 0), ("type_b", tn(), 1), ("threshold", r.randint(0, 3), 10)]),
        "msd": (True, [("min_time", r.choice([0.0, dt]), 0.0), ("max_time", span * r.choice([0.5, 1.0]), 0.0), ("steps", r.randint(1, 5), 100)]),
        "circulation_time": (False, [("position", at, None), ("axis", ax, 0)]),
        "circulation_time_two_boundary": (False, [("position", (lo, hi), None), ("axis", ax, 0)]),
        "extract": (False, [("particle_id", r.randrange(min(len(q) for q in rec.steps) if r.random() < 0.9 else rec.n + 2), None), ("timestep", (a, b), None)]),
    }


def flat(x):
    return [y for z in x for y in (flat(z) if isinstance(z, (tuple, list)) else [z])]


def as_arrays(name, got):
    """the result of an analysis as the peer gives it (None where Python has no accessor)"""
    if name == "vectorfield":
        return [x for a in got.to_numpy() for x in (a, None)]
    if name == "dispersion":
        return [got[0].to_numpy(), got[0].weights_to_numpy(), np.array(got[1])]
    if name in ("mean_velocity", "homogenity_index"):
        return [np.array(got, dtype=float)]
    if name in ("histogram", "lacey_mixing_index", "msd"):
        return list(got)
    if name == "circulation_time":
        return [np.array(got, dtype=float)]
    if name == "circulation_time_two_boundary":
        return [np.array(got, dtype=float).reshape(-1, 2)]
    if name == "extract":
        return [got]
    return [got.to_numpy(), got.weights_to_numpy()]


def python_analyses(c):
    r = c.r
    rec, path = recording(c, steps=r.choice([3, 5, 8, 14, 24]))
    d = open_data(c, rec, path)
    window = None
    held = []
    for _ in range(r.randint(3, 9)):
        if r.random() < 0.3:
            a, b = sorted([_time(rec, r), _time(rec, r)])
            if a <= rec.times[-1]:
                c.note(f"set_time({a!r}, {b!r})")
                c.do("set_time", d.set_time, a, b) if r.random() < 0.5 else c.do("set_time", d.set_time, min_time=a, max_time=b)
                window = (a, b)
                c.see("time windows")
                if a < 0 and rec.times[0] < 0:
                    c.see("time windows from before zero")
        if r.random() < 0.1:
            a = rec.times[-1] + r.choice([1e-3, 10.0])
            c.note(f"set_time({a!r}, ..)")
            c.refused("set_time beyond the end", None, d.set_time, a, a + 1)
            c.see("time windows refused")
        table = analyses(c, rec)
        name = r.choice(sorted(table))
        needs_grid, spec = table[name]
        geo = Geo(c, rec)
        g = geo.python(c) if needs_grid else None
        used = [r.random() < 0.6 or default is None for _, _, default in spec]
        values = [v if u else default for (_, v, default), u in zip(spec, used)]
        pos, kw = [], {}
        by_name = False
        for (arg, v, _), u in zip(spec, used):
            if not u:
                by_name = True
            elif by_name or r.random() < 0.4:
                by_name = True
                kw[arg] = v
            else:
                pos.append(v)
        if needs_grid:
            if by_name and not pos and r.random() < 0.3:
                kw["grid"] = g
            else:
                pos.insert(0, g)
        c.note(f"{name}{tuple('<grid>' if p is g and g is not None else p for p in pos)}{ {a: v for a, v in kw.items() if a != 'grid'} } on {geo.describe() if needs_grid else 'no grid'}")
        try:
            got = getattr(d, name)(*pos, **kw)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            got = e
        # a fresh reader in the peer: nothing the Python object did before may matter
        c.w.peer.ask("open", rec.layout, path)
        if window:
            c.w.peer.ask("time", *window)
        geo.peer(c)
        want = c.w.peer.arrays("call", name, *flat(values))
        if isinstance(want, str) or isinstance(got, BaseException):
            c.ensure(isinstance(want, str) and isinstance(got, BaseException), "outcome",
                     lambda: f"{name}: {'raised ' + type(got).__name__ + ': ' + str(got)[:200] if isinstance(got, BaseException) else 'gave a result'}"
                             f", the Rust API {'panicked: ' + want[:200] if isinstance(want, str) else 'did not'}")
            c.see("analyses refused by both")
            # the object stays usable
            if r.random() < 0.2:
                d = open_data(c, rec, path)
                window = None
            continue
        for i, (a, b) in enumerate(zip(c.do(f"reading the result of {name}", as_arrays, name, got), want)):
            if a is not None:
                c.same("result", f"result {i} of {name}", a, b)
        c.see(name)
        if any(np.nan_to_num(w).any() for w in want):
            c.nontrivial = True
            c.see(f"results other than zero")
        if needs_grid:
            c.same("grid", f"the grid given to {name}", c.do("to_numpy", g.to_numpy), np.zeros(geo.n))
            if hasattr(got, "cell_positions"):
                for a, b in zip(got.cell_positions(), g.cell_positions()):
                    c.same("grid", f"positions of the field {name} gave", a, b, 0)
                c.ensure(list(got.shape()) == geo.n, "grid", lambda: f"{name} gave {got.shape()} cells for {geo.n}")
        if hasattr(got, "to_numpy") and r.random() < 0.5:
            held.append((name, got, [None if x is None else x.copy() for x in as_arrays(name, got)]))
    for name, got, before in held:  # later analyses leave earlier results alone
        for a, b in zip(as_arrays(name, got), before):
            if a is not None:
                c.same("held", f"the result of {name}, read again at the end", a, b, 0)
        c.see("results read again")


# ---------------------------------------------------------------- C52

def saved(c, fig):
    """save_fig: the page is paper_width mm wide, the borders left out, at dpi dots per inch"""
    r = c.r
    width = r.choice([None, 500, 1234.5])
    if width is not None:
        fig.plotly_relayout({"width": width})
    elif "width" in fig.look:
        return
    args = dict(dpi=r.choice([72, 300, 1200]), border_width=r.choice([0, 10, 35]), paper_width=r.choice([100, 297]))
    full = dict(dpi=600, border_width=20, paper_width=210)
    args = {k: v for k, v in args.items() if r.random() < 0.6}
    full.update(args)
    name = f"figure {r.randrange(100)}.{r.choice(['png', 'pdf'])}"
    c.note(f"save_fig({name!r}, {args}) of a figure {width} wide")
    c.do("save_fig", c.w.up4.save_fig, fig, name, **args)
    want = (full["paper_width"] - 2 * full["border_width"]) / 25.4 * full["dpi"] / (width or 700)
    c.ensure(len(fig.images) == 1 and fig.images[0]["file"] == name and abs((fig.images[0]["scale"] or 0) - want) <= 1e-9 * want, "save",
             lambda: f"{fig.images} was saved instead of {name!r} at scale {want}")
    c.see("figures saved")


def own_plot(c, g, field):
    """the grid's own plot(): the averages along the axis, each at its cell's place"""
    f = g if field is None or c.r.random() < 0.1 else field
    axis = c.r.randrange(3)
    path = c.path()
    os.environ["UP4_STUB_PLOTLY_SHOW"] = path
    try:
        c.note(f"plot({axis}) of the {'grid' if f is g else 'field'}")
        c.do("plot", f.plot, axis)
    finally:
        del os.environ["UP4_STUB_PLOTLY_SHOW"]
    with open(path) as h:
        data = json.load(h)["data"]
    want = f.collapse(axis)
    pos = [list(p) for a, p in enumerate(f.cell_positions()) if a != axis]
    c.ensure(len(data) == 1, "own plot", lambda: f"plot({axis}) shows {len(data)} traces")
    t = data[0]
    z = np.array([[math.nan if x is None else x for x in row] for row in t["z"]], dtype=float)
    ok = any([list(map(float, t[k])) for k in "xy"] == p and same(z, w, 1e-9) is None for p, w in ((pos[::-1], want), (pos, want.T)))
    c.ensure(ok, "own plot", lambda: f"plot({axis}) shows {z.tolist()} at {t['x']} and {t['y']}, the averages are {want.tolist()} at {pos}")
    c.see("own plots of grids")


def plots(c):
    r = c.r
    vector = r.random() < 0.6
    kinds = ["scalar_map", "scalar_contour", "parity_plot", "parity_map", "parity_contour"] + (["quiver_plot", "unit_vector_plot"] * 2 if vector else [])
    rec, path = recording(c, steps=r.choice([4, 9, 15]), particles=r.randint(2, 7))
    d = open_data(c, rec, path)
    geo = Geo(c, rec, least=2)
    g = geo.python(c)
    c.note(geo.describe())
    c.w.peer.ask("open", rec.layout, path)
    geo.peer(c)
    c.w.peer.ask("fields")
    fields = []
    for i in range(2):  # the second one to compare with
        t = rec.times
        if i == 1 and len(t) > 2:
            d.set_time(t[1], t[-1] + 1)
            c.w.peer.ask("time", t[1], t[-1] + 1)
        name = "vectorfield" if vector else r.choice(["velocityfield", "numberfield", "occupancyfield"])
        args = ["absolute", -1e6, 1e6] if name == "velocityfield" else [0.0] if name == "occupancyfield" else []
        fields.append(c.do(name, getattr(d, name), g))
        c.w.peer.ask("call", name, *args)
        c.note(name)
    plotter = c.do("Plotter2D", c.w.up4.Plotter2D, fields[0])
    for _ in range(r.randint(3, 8)):
        kind = r.choice(kinds)
        axis = r.randrange(3)
        plane = r.random() < 0.5
        index = r.randrange(geo.n[axis]) if plane else None
        k, pos = {}, []
        if kind.startswith("parity"):
            pos.append(fields[1])
        if r.random() < 0.5:
            pos.append(axis)
        else:
            k["axis"] = axis
        if plane or r.random() < 0.3:
            k["selection"] = "plane" if plane else "depth_average"
        if plane:
            k["index"] = index
        elif r.random() < 0.1:
            k["index"] = 0
        extra = []
        cmap = "-"
        if kind in ("quiver_plot", "unit_vector_plot", "scalar_map", "scalar_contour") and r.random() < 0.6:
            cmap = r.choice(CMAPS)
            k["colour_map"] = r.choice([cmap, cmap, cmap.upper(), cmap.title()])
            c.see("colour maps")
        if kind in ("quiver_plot", "unit_vector_plot"):
            mode = r.choice([None, "min", "max", "minmax", "half_node", "full_node"])
            lo = r.choice([0.1, 0.5]) * rec.scale
            hi = lo * r.choice([1.0, 4.0])
            if mode:
                k["scaling_mode"] = mode
                c.see(f"scaling mode {mode}")
            if mode in ("min", "minmax") or r.random() < 0.2:
                k["min_size"] = lo
            if mode in ("max", "minmax") or r.random() < 0.2:
                k["max_size"] = hi
            extra = [mode or "none", lo, hi, cmap]
        elif kind in ("scalar_map", "scalar_contour"):
            extra = [cmap]
        layout = style = None
        if r.random() < 0.4:
            layout = k["layout"] = {"title": f"plot {r.randrange(9)}", "xaxis": {"title": "x"}}
        if r.random() < 0.4:
            style = k["style"] = {"opacity": r.random()}
        c.note(f"{kind}({['<field>' if p is fields[1] else p for p in pos]}, {k})")
        want = c.w.peer.ask("plot", kind, axis, "-" if index is None or not plane else index, *extra)
        try:
            fig = getattr(plotter, kind)(*pos, **k)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            fig = e
        if want[0] == "panic" or isinstance(fig, BaseException):
            c.ensure(want[0] == "panic" and isinstance(fig, BaseException), "outcome",
                     lambda: f"{kind}: {'raised ' + type(fig).__name__ + ': ' + str(fig)[:200] if isinstance(fig, BaseException) else 'gave a figure'}, the Rust API {want[0]}")
            c.see("plots refused by both")
            continue
        traces = json.loads(want[1][0].split("\t", 1)[1])
        got = fig.spec.get("data", [])
        if kind == "scalar_contour":
            c.ensure(len(got) == len(traces), "traces", lambda: f"{len(got)} traces instead of {len(traces)}")
            for t, w in zip(got, traces):
                z = [x for x in flat([w.get("z")]) if x is not None]
                lv = t.pop("contours", None) or {}
                auto = t.pop("autocontour", None)
                w.pop("contours", None)
                w.pop("autocontour", None)
                if z:
                    lo, hi = min(z), max(z)
                    ok = lv.get("start") == lo and lv.get("end") == hi and abs(lv.get("size", math.nan) - (hi - lo) / 10) <= 1e-9 * max(abs(hi), abs(lo), 1e-300)
                    c.ensure(ok and auto is False, "levels", lambda: f"contour levels {lv} (automatic: {auto}) for values between {lo} and {hi}")
                    c.see("contour levels")
        diff = json_diff(got, traces)
        c.ensure(diff is None, "traces", lambda: f"{kind}: {diff}")
        c.ensure(fig.style == (style or {}) and fig.look == (layout or {}), "style",
                 lambda: f"{kind}: style {fig.style} and layout {fig.look} instead of {style} and {layout}")
        c.see(kind)
        c.see("single planes" if plane else "depth averages")
        c.see("numbers compared", sum(1 for x in numbers(traces)))
        if any(x for x in numbers(traces)):
            c.nontrivial = True
        if r.random() < 0.15:
            saved(c, fig)
    if r.random() < 0.3:
        own_plot(c, g, r.choice(fields) if not vector else None)
    if r.random() < 0.5:
        parity = r.choice([P for P in (plotter.parity_plot, plotter.parity_map, plotter.parity_contour)])
        which = r.choice(["axis", "selection", "index", "scaling", "min", "max", "minmax", "colour", "scalar field", "type"])
        c.note(which)
        P = plotter
        arrows = r.choice([P.quiver_plot, P.unit_vector_plot])
        anyplot = r.choice([P.scalar_map, P.scalar_contour] + ([P.quiver_plot, P.unit_vector_plot] if vector else []))
        if r.random() < 0.4:
            anyplot = functools.partial(parity, fields[1])
            if which in ("axis", "selection", "index"):
                c.see("refused arguments of parity plots")
        if which == "axis":
            c.refused("axis 3", ValueError, anyplot, r.choice([3, -1, 7]))
        elif which == "selection":
            c.refused("selection", ValueError, anyplot, 0, selection="everything")
        elif which == "index":
            c.refused("plane without index", ValueError, anyplot, 0, selection="plane")
        elif which == "colour":
            c.refused("colour map", ValueError, r.choice([P.scalar_map, P.scalar_contour] + ([P.quiver_plot, P.unit_vector_plot] if vector else [])), 0, colour_map="mauve")
        elif which == "type":
            c.refused("Plotter2D of an array", ValueError, c.w.up4.Plotter2D, np.zeros((2, 2, 2)))
        elif which == "scalar field":
            p = c.do("Plotter2D", c.w.up4.Plotter2D, g)
            c.refused("arrows of a scalar field", ValueError, r.choice([p.quiver_plot, p.unit_vector_plot]), 0)
        elif vector:
            if which == "scaling":
                c.refused("scaling mode", ValueError, arrows, 0, scaling_mode="log")
            elif which == "min":
                c.refused("min without min_size", ValueError, arrows, 0, scaling_mode="min", max_size=1.0)
            elif which == "max":
                c.refused("max without max_size", ValueError, arrows, 0, scaling_mode="max", min_size=1.0)
            else:
                c.refused("minmax without both", ValueError, arrows, 0, scaling_mode="minmax", **r.choice([{}, {"min_size": 1.0}, {"max_size": 1.0}]))
        c.see("refused arguments")
    if r.random() < 0.1:  # the last thing a case looks at: a known finding ends the case
        cmap = r.choice(CMAPS)
        kind, like = r.choice([("parity_map", "scalar_map"), ("parity_contour", "scalar_contour")])
        c.note(f"{kind} with colour_map {cmap!r}")
        c.see("colour maps of parity maps")
        fig = c.do(kind, getattr(plotter, kind), fields[1], 0, selection="plane", index=0, colour_map=cmap)
        ref = c.do(like, getattr(plotter, like), 0, selection="plane", index=0, colour_map=cmap)
        want = ref.spec["data"][0].get("colorscale")
        c.ensure(want is not None, "colourscale", lambda: f"{like} with colour_map {cmap!r} has no colour scale")
        for t in fig.spec["data"]:
            c.ensure(t.get("colorscale") == want, "parity-colour-map",
                     lambda: f"colour_map {cmap!r} given to {kind} has no effect: the colour scale is {t.get('colorscale')}")


def numbers(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from numbers(v)
    elif isinstance(x, list):
        for v in x:
            yield from numbers(v)
    elif isinstance(x, (int, float)) and not isinstance(x, bool):
        yield x


def json_diff(a, b, at=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{at}.{k} is {'missing' if k not in a else 'not expected'}"
            d = json_diff(a[k], b[k], f"{at}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{at} has {len(a)} entries instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = json_diff(x, y, f"{at}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float) and (eq(a, b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))):
        return None
    return None if a == b and type(a) is type(b) else f"{at} is {str(a)[:80]} instead of {str(b)[:80]}"


# ---------------------------------------------------------------- C53

class Table:
    def __init__(self, c, logical, plain=False):
        r = c.r
        self.width = logical + (0 if plain else r.randint(0, 2))
        at = list(range(self.width))
        if not plain and r.random() < 0.5:
            r.shuffle(at)
        self.columns = at[:logical]
        self.delimiter = "," if plain else r.choice([",", ";", " ", "\t"])
        self.comment = "#" if plain else r.choice(["#", "%", "!"])
        self.header = True if plain else r.random() < 0.5

    def write(self, c, path, rows):
        r = c.r
        out = []
        comments = r.random() < 0.4
        if comments:
            out.append(self.comment + "by hand")
        if self.header:
            out.append(self.delimiter.join(f"c{i}" for i in range(self.width)))
        for row in rows:
            cells = ["7.5"] * self.width
            for k, x in zip(self.columns, row):
                cells[k] = repr(x)
            out.append(self.delimiter.join(cells))
        with open(path, "w") as f:
            f.write("\n".join(out) + "\n")


def _times(r, n):
    t0 = r.choice([0.0, 0.0, -3.5, 12.25])
    dt = r.choice([1.0, 0.5, 0.01])
    even = r.random() < 0.6
    out, t = [], t0
    for _ in range(n):
        out.append(t)
        t += dt if even else dt * r.uniform(0.2, 2.0)
    return out


def _walk(r, n):
    x, out = [r.uniform(-2, 2) for _ in range(3)], []
    for _ in range(n):
        x = [v + r.uniform(-1, 1) for v in x]
        out.append(x)
    return out


def _args(c, spec):
    """spec: (name, value, default or None if it has none) in order -> positional, keyword, values in effect"""
    r = c.r
    pos, kw, values, by_name = [], {}, [], False
    plain = r.random() < 0.15
    for name, v, default in spec:
        if default is not None and (plain or v == default[0] or r.random() < 0.2) and default[1]:
            values.append(default[0])
            by_name = True
            continue
        values.append(v)
        if by_name or r.random() < 0.25:
            by_name = True
            kw[name] = v
        else:
            pos.append(v)
    return pos, kw, values


def converters(c):
    r, V = c.r, c.w.up4.Converter
    kind = r.choice(["csv", "csv", "csv_multi", "csv_multi_files", "vtk", "vtk", "vtk_from_folder"])
    out, out2 = c.path(), c.path()
    plain = r.random() < 0.25  # a file the defaults fit
    ok = plain  # whether an argument may be left out: only if the file fits its default
    radius = r.choice([0.0, 0.5, 0.03])
    steps = None
    if kind.startswith("csv"):
        given = not plain and r.random() < 0.5
        vel = not given and r.random() < 0.8
        interpolate = vel and r.random() < 0.4
        with_v = given or (not vel and r.random() < 0.3)

        def row(x):
            return x + ([r.uniform(-1, 1) for _ in range(3)] if given else [])

        common = lambda t: [("delimiter", t.delimiter, (",", t.delimiter == ",")), ("header", t.header, (True, t.header)),
                            ("comment", t.comment, ("#", True if not t.comment != "#" else False)), ("vel", vel, (False, not vel)),
                            ("interpolate", interpolate, (False, True)), ("radius", radius, (0.0, True))]
        if kind == "csv":
            t = Table(c, 7 if given else 4, plain)
            window = r.choice([3, 5, 7, 9])
            n = r.randint(12, 30)
            rows = [row([x, *p]) for x, p in zip(_times(r, n), _walk(r, n))]
            inp = c.path("csv")
            t.write(c, inp, rows)
            spec = [("filename", inp, None), ("outname", out, None), ("columns", t.columns, ([0, 1, 2, 3], t.columns == [0, 1, 2, 3])), *common(t),
                    ("sampling_steps", window, (9, True))]
            if vel and r.random() < 0.06:
                c.note("even sampling_steps")
                c.refused("sampling_steps 4", None, V.csv, inp, out, t.columns, t.delimiter, t.header, t.comment, True, False, 0.0, 4)
                c.see("even sampling steps refused")
                return
            pos, kw, v = _args(c, spec)
            request = ["csv", v[0], out2, ",".join(map(str, v[2])), *v[3:]]
            steps = None if vel or v[8] else n  # steps too close to the ends have no velocity
        elif kind == "csv_multi":
            method = r.choice(["id_line", "chain"])
            if plain:
                method = "id_line"
            ids = method == "id_line"
            t = Table(c, (8 if given else 5) if ids else (7 if given else 4), plain and not ids)
            m, n = r.randint(1, 4), r.randint(12, 20)
            when = _times(r, n)
            tracks = [[row([x, *p]) for x, p in zip(when, _walk(r, n))] for _ in range(m)]
            if ids:
                rows = [[float(i), *q] for i, tr in enumerate(tracks) for q in tr]
                if r.random() < 0.5:
                    rows.sort(key=lambda q: q[1])
            else:
                rows = [q for tr in tracks for q in tr]
            inp = c.path("csv")
            t.write(c, inp, rows)
            spec = [("filename", inp, None), ("outname", out, None), ("columns", t.columns, ([0, 1, 2, 3], t.columns == [0, 1, 2, 3])), *common(t),
                    ("method", method, ("id_line", method == "id_line"))]
            pos, kw, v = _args(c, spec)
            request = ["csv_multi", v[0], out2, ",".join(map(str, v[2])), *v[3:]]
            c.see(method)
        else:
            t = Table(c, 7 if given else 4, plain)
            n = r.randint(1, 5)
            when = _times(r, n)
            names = []
            for _ in range(n):
                m = r.randint(1, 5)
                inp = c.path("csv")
                t.write(c, inp, [[float(i), *row(p)] for i, p in enumerate(_walk(r, m))])
                names.append(inp)
            vel = interpolate = False
            spec = [("filenames", names, None), ("outname", out, None), ("times", when, None),
                    ("columns", t.columns, ([0, 1, 2, 3], t.columns == [0, 1, 2, 3])), *common(t)]
            pos, kw, v = _args(c, spec)
            request = ["csv_multi_files", "|".join(v[0]), out2, ",".join(map(str, v[3])), *v[4:], ",".join(num(x) for x in v[2])]
            steps = n
        call = getattr(V, kind)
    else:
        ext = r.choice(["vtk", "vtu", "vtp"])
        names = {"v": "v", "radius": "radius", "id": "id", "type": "type"}
        if not plain:
            for k in names:
                if r.random() < 0.5:
                    names[k] = r.choice(["f_", "Particle "]) + k
        diameter = "width" if r.random() < 0.3 else None
        n = r.randint(1, 5)
        folder = c.path("d")
        os.makedirs(folder)
        numbers_ = sorted(r.sample(range(0, 400, 5), n))
        files = []
        for s in numbers_:
            p = os.path.join(folder, f"dump_{s}.{ext}")
            m = r.randint(1, 5)
            lines = ["#up4-stub-vtk", "poly" if ext != "vtu" else "unstructured", "piece",
                     "points\t" + " ".join(num(r.uniform(-1, 1)) for _ in range(3 * m))]
            how = "field" if ext == "vtk" else "array"

            def put(name, k, kind_, vals):
                lines.append("\t".join([how, name, str(k), kind_, " ".join(map(num, vals))]))

            put(names["v"], 3, "f64", [r.uniform(-1, 1) for _ in range(3 * m)])
            put(diameter or names["radius"], 1, "f64", [r.choice([0.5, 0.25]) for _ in range(m)])
            put(names["id"], 1, "i64" if ext == "vtk" else "f64", [int(i) if ext == "vtk" else float(i) for i in range(m)])
            put(names["type"], 1, "i64" if ext == "vtk" else "f64", [r.choice([1, 2]) if ext == "vtk" else float(r.choice([1, 2])) for _ in range(m)])
            with open(p, "w") as f:
                f.write("\n".join(lines) + "\n")
            files.append(p)
        filt = rf"(\d+).{ext}"
        dt = r.choice([1.0, 0.01])
        fields = [(k + "_field_name" if k != "v" else "velocity_field_name", names[k], (k, names[k] == k)) for k in ("v", "radius", "id", "type")]
        spec = [("filenames", files, None) if kind == "vtk" else ("folder", folder, None), ("timestep", dt, None), ("outname", out, None),
                ("filter", filt, (r"(\d+).vtk", ext == "vtk")), *fields, ("diameter_field_name", diameter, (None, diameter is None))]
        pos, kw, v = _args(c, spec)
        request = [kind, "|".join(files) if kind == "vtk" else folder, out2, v[1], v[3], v[4], v[5], v[6], v[7], v[8] or "-"]
        call = getattr(V, kind)
        steps = n
        c.see(f".{ext} files")
        if diameter:
            c.see("diameters")
    c.note(f"{kind}{tuple(pos)}{kw}".replace(c.w.scratch, ""))
    if len(spec) > len(pos) + len(kw):
        c.see("arguments left out", len(spec) - len(pos) - len(kw))
    want = c.w.peer.ask("convert", *request)
    try:
        call(*pos, **kw)
        got = None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        got = e
    if not kind.startswith("csv"):
        shutil.rmtree(folder)
    if want[0] == "panic" or got is not None:
        c.ensure(want[0] == "panic" and got is not None, "outcome",
                 lambda: f"{kind}: {'raised ' + type(got).__name__ + ': ' + str(got)[:200] if got is not None else 'succeeded'}, the Rust API {want}")
        c.see("conversions refused by both")
        return
    text = c.w.dump(out)
    c.ensure(text is not None, "output", f"{kind} wrote no {os.path.basename(out)}")
    with open(out2) as f:
        expected = f.read()
    if text != expected:
        a, b = text.split("\n"), expected.split("\n")
        diff = next((f"{x[:300]!r} instead of {y[:300]!r}" for x, y in zip(a, b) if x != y), f"{len(a)} lines instead of {len(b)}")
        c.fail("output", f"{kind}: the file written differs from the Rust converter's: {diff}")
    c.see(kind)
    c.see("lines of output compared", len(text.split("\n")))
    c.nontrivial = True
    d = c.do("Data of the converted file", c.w.up4.Data, out)
    if steps is not None:
        c.ensure(len(d) == steps, "reading", lambda: f"{len(d)} steps in the converted file, {steps} converted")
        c.see("converted files opened")


# ---------------------------------------------------------------- C54

def grid_accessors(c):
    r = c.r
    rec, path = recording(c, steps=r.choice([4, 9, 15]), particles=r.randint(2, 7))
    d = open_data(c, rec, path)
    geo = Geo(c, rec)
    g = geo.python(c)
    c.note(geo.describe())
    c.w.peer.ask("open", rec.layout, path)
    centres = geo.peer(c)
    vector = r.random() < 0.4
    name = "vectorfield" if vector else r.choice(["velocityfield", "numberfield", "occupancyfield", "granular_temperature"])
    args = {"velocityfield": ["absolute", -1e6, 1e6], "occupancyfield": [0.0], "granular_temperature": ["xyz"]}.get(name, [])
    field = c.do(name, getattr(d, name), g)
    comps = c.w.peer.arrays("call", name, *args)
    c.note(name)
    data, weights = comps[0::2], comps[1::2]
    if not vector:
        data, weights = data[:1], weights[:1]
    c.nontrivial = any(np.nan_to_num(x).any() for x in data)

    def each(got):
        return list(got) if vector else [got]

    def expect(key, what, got, want, rel=1e-9):
        c.ensure(len(got) == len(want), key, lambda: f"{what} has {len(got)} parts")
        for i, (a, b) in enumerate(zip(got, want)):
            c.same(key, f"{what}, component {i}" if vector else what, a, b, rel)

    def mean(x, w, ax):
        with np.errstate(all="ignore"):
            return np.sum(np.nan_to_num(x, nan=0.0) * w, axis=ax) / np.sum(w, axis=ax)

    def content():
        expect("data", "to_numpy()", each(c.do("to_numpy", field.to_numpy)), data)
        if not vector:
            expect("weights", "weights_to_numpy()", [c.do("weights_to_numpy", field.weights_to_numpy)], weights)
        c.ensure(list(c.do("shape", field.shape)) == geo.n, "shape", lambda: f"shape() is {field.shape()} instead of {geo.n}")
        for a, b in zip(c.do("cell_positions", field.cell_positions), centres):
            c.same("positions", "cell_positions()", a, b)
        c.see("contents")

    content()
    lims = [[geo.lim[2 * a], geo.lim[2 * a + 1]] for a in range(3)]
    if geo.style == "cylindrical":
        radius = max(b - a for a, b in lims[:2]) / 2
        edges = [[radius * math.sqrt(k / geo.n[0]) for k in range(geo.n[0] + 1)],
                 [-math.pi + 2 * math.pi * k / geo.n[1] for k in range(geo.n[1] + 1)]]
    else:
        edges = [[lims[a][0] + (lims[a][1] - lims[a][0]) * k / geo.n[a] for k in range(geo.n[a] + 1)] for a in range(2)]
    edges.append([lims[2][0] + (lims[2][1] - lims[2][0]) * k / geo.n[2] for k in range(geo.n[2] + 1)])

    def inside_cell(a, i):
        lo, hi = edges[a][i], edges[a][i + 1]
        return lo + (hi - lo) * r.uniform(0.05, 0.95)

    def described(what, text, data, kinds):
        """the text names the cells, the limits and statistics of the cells that have a value"""
        number = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|NaN)"
        def shown(k):
            m = re.search(rf"(?<![A-Za-z0-9]){k}:\s*(?:Some\(|Ok\()?(\[[^\]]*\]|{number})", text)
            return None if m is None else [float(x) for x in re.findall(number, m[1])]
        c.ensure(shown("Cells") == geo.n, "text", lambda: f"{what}: cells shown as {shown('Cells')} instead of {geo.n}")
        borders = [lims[a] if geo.style == "cartesian" or a == 2 else [[0.0, radius], [-math.pi, math.pi]][a] for a in range(3)]
        for a, (lo, hi) in enumerate(borders):
            got = shown("xyz"[a] + "lim")
            c.ensure(got is not None and len(got) == 2 and all(abs(x - y) <= 1e-12 * max(abs(lo), abs(hi)) for x, y in zip(got, (lo, hi))), "text",
                     lambda: f"{what}: limits of axis {a} shown as {got} instead of {[lo, hi]}")
        with_value = [x[~np.isnan(x)] for x in data]
        if not all(len(x) for x in with_value):
            return
        for k in kinds:
            want = [{"Mean": np.mean, "Std": np.std, "Min": np.min, "Max": np.max}[k](x) for x in with_value]
            got = shown(k)
            if vector and (got is None or len(got) == 1):  # component by component, one per line
                got = [x for i in (1, 2, 3) for x in shown(f"Dim {i}") or []]
            scale = max(np.abs(x).max() for x in with_value)
            c.ensure(got is not None and len(got) == len(want) and all(abs(x - y) <= 1e-9 * scale for x, y in zip(got, want)), "text",
                     lambda: f"{what}: {k} shown as {got} instead of {want}")
        c.see("summaries in texts")
        if vector:
            c.see("summaries of vector fields")
        if any(np.isnan(x).any() for x in data):
            c.see("summaries of fields with empty cells")

    for what, text in zip(("Display", "Debug"), c.w.peer.ask("show")[1]):
        described(what, text.replace("\x1f", "\n"), data, ("Mean",) if vector else ("Mean", "Std", "Min", "Max"))

    for _ in range(r.randint(3, 9)):
        what = r.choice(["slice", "slice_pos", "collapse", "collapse_two", "outliers", "cell_id", "inside", "text", "scribble"])
        ax = r.randrange(3)
        if what == "slice":
            i = r.randrange(geo.n[ax])
            c.note(f"slice({ax}, {i})")
            got = field.slice(ax, i) if r.random() < 0.5 else field.slice(axis=ax, index=i)
            expect("slice", f"slice({ax}, {i})", each(got), [np.take(x, i, axis=ax) for x in data])
        elif what == "slice_pos":
            i = r.randrange(geo.n[ax])
            p = inside_cell(ax, i)
            c.note(f"slice_pos({ax}, {p!r})")
            expect("slice", f"slice_pos({ax}, {p!r}), in layer {i}", each(c.do("slice_pos", field.slice_pos, ax, p)), [np.take(x, i, axis=ax) for x in data])
        elif what == "collapse":
            c.note(f"collapse({ax})")
            expect("collapse", f"collapse({ax})", each(c.do("collapse", field.collapse, ax)), [mean(x, w, ax) for x, w in zip(data, weights)])
        elif what == "collapse_two" and not vector:
            b = r.choice([x for x in range(3) if x != ax])
            c.note(f"collapse_two({ax}, {b})")
            expect("collapse", f"collapse_two({ax}, {b})", [c.do("collapse_two", field.collapse_two, ax, b)], [mean(x, w, (ax, b)) for x, w in zip(data, weights)])
        elif what == "outliers" and not vector:
            top = np.nanmax(np.append(data[0].ravel(), 0.0))
            mode, t = r.choice([0, 1]), float(top) * r.choice([0.5, 0.9, 2.0])
            c.note(f"remove_outliers({mode}, {t!r})")
            c.do("remove_outliers", field.remove_outliers, mode, t)
            with np.errstate(all="ignore"):
                data[0] = np.where(data[0] > t, 0.0 if mode == 0 else t, data[0])
            content()
        elif what == "cell_id" and not vector:
            idx = [r.randrange(k) for k in geo.n]
            p = [inside_cell(a, idx[a]) for a in range(3)]
            if geo.style == "cylindrical":
                mid = [(b[0] + b[1]) / 2 for b in lims]
                p = [mid[0] + p[0] * math.cos(p[1]), mid[1] + p[0] * math.sin(p[1]), p[2]]
            c.note(f"cell_id({p})")
            c.ensure(list(c.do("cell_id", field.cell_id, *p)) == idx, "cell_id", lambda: f"cell_id of {p} is {field.cell_id(*p)} instead of {idx}")
            c.ensure(c.do("is_inside", field.is_inside, p) is True, "inside", f"{p} is not inside")
        elif what == "inside" and not vector:
            p = [r.uniform(b[0], b[1]) for b in lims]
            p[ax] = lims[ax][1] + (lims[ax][1] - lims[ax][0]) * 10 * r.random() + 2 * (max(b[1] - b[0] for b in lims) if geo.style == "cylindrical" else 1e-3 * (lims[ax][1] - lims[ax][0]))
            c.note(f"is_inside({p})")
            c.ensure(c.do("is_inside", field.is_inside, p) is False, "inside", f"{p} is inside")
        elif what == "text":
            c.note("str")
            for f in (str, repr):
                described(f.__name__, c.do(f.__name__, f, field), data, ("Mean", "Std", "Min", "Max"))
        elif what == "scribble":
            c.note("overwriting what to_numpy gave")
            for a in each(field.to_numpy()):
                a[...] = -7.0
            for a in field.cell_positions():
                a[...] = -7.0
            content()
        else:
            continue
        c.see(what)
    content()
    c.see(f"{geo.style} {'vector' if vector else 'scalar'} fields")


# ---------------------------------------------------------------- C55

class Interrupted(BaseException):
    pass


def outcome(f, *a):
    """what a call gives, or the exception that ended it; a signal that waits is delivered here at the latest"""
    try:
        got = f(*a)
        for _ in range(3):
            signal.getsignal(signal.SIGINT)
        return got, None
    except (SystemExit, MemoryError):
        raise
    except BaseException as e:
        return None, e


def interrupts(c):
    r, lib = c.r, c.w.lib
    lib.up4_stub_hdf5_accesses.restype = ctypes.c_uint64
    lib.up4_stub_hdf5_interrupt.argtypes = [ctypes.c_int64]
    at_signal = []

    def handler(raises):
        def h(*_):
            at_signal.append(lib.up4_stub_hdf5_accesses())
            if raises:
                raise Interrupted()
        return h

    old = signal.getsignal(signal.SIGINT)
    try:
        if r.random() < 0.2:
            interrupted_conversion(c, handler, at_signal)
        else:
            interrupted_analysis(c, handler, at_signal)
    finally:
        lib.up4_stub_hdf5_interrupt(0)
        signal.signal(signal.SIGINT, old)


def interrupted_analysis(c, handler, at_signal):
    r, lib = c.r, c.w.lib
    steps = r.randint(64, 160)
    rec, path = recording(c, steps=steps, particles=r.randint(1, 3))
    table = analyses(c, rec)
    name = r.choice(sorted(table))
    needs_grid, spec = table[name]
    geo = Geo(c, rec)
    args = ([geo.python(c)] if needs_grid else []) + [v for _, v, _ in spec]
    if name == "extract":
        args[-1] = (0, steps - 1)
    c.note(f"{name}{tuple('<grid>' if i == 0 and needs_grid else p for i, p in enumerate(args))}")
    d = open_data(c, rec, path)
    before = lib.up4_stub_hdf5_accesses()
    want, error = outcome(getattr(d, name), *args)
    total = lib.up4_stub_hdf5_accesses() - before
    if error is not None:
        c.see("analyses refused")
        return
    want = as_arrays(name, want)
    # one window of the reader holds 8 steps, an eighth of the recording at most: there is no need to read a third of it
    bound = total // 3 + 8
    for raises in r.choice([[True], [False], [True, True], [True, False]]):
        d = open_data(c, rec, path)
        signal.signal(signal.SIGINT, handler(raises))
        del at_signal[:]
        k = r.randint(1, max(total // 2, 1))
        c.note(f"a signal at access {k} of {total}, {'' if raises else 'not '}raising")
        start = lib.up4_stub_hdf5_accesses()
        lib.up4_stub_hdf5_interrupt(k)
        got, error = outcome(getattr(d, name), *args)
        lib.up4_stub_hdf5_interrupt(0)
        end = lib.up4_stub_hdf5_accesses() - start
        c.ensure(len(at_signal) == 1, "handled", lambda: f"{name}: the signal was handled {len(at_signal)} times")
        late = at_signal[0] - start - k
        c.ensure(late <= bound, "late", lambda: f"{name}: {late} more accesses to the file ({total} in all) before the signal was handled")
        if raises:
            c.ensure(error is not None, "ended", lambda: f"{name}: gave a result although it was interrupted")
            c.ensure(end - k <= bound, "ended", lambda: f"{name}: {end - k} more accesses to the file ({total} in all) after the interrupt")
            c.see("interrupted analyses")
            c.see(f"{name} interrupted")
            signal.signal(signal.SIGINT, handler(False))
            got, error = outcome(getattr(d, name), *args)
            label = "run again after the interrupt"
        else:
            c.see("signals without consequence")
            label = "run while a signal was handled"
        c.ensure(error is None, "result", lambda: f"{name} {label}: {type(error).__name__}: {str(error)[:200]}")
        for a, b in zip(as_arrays(name, got), want):
            if a is not None:
                c.same("result", f"{name} {label}", a, b, 0)
        c.nontrivial = True
        c.see("results compared")


def interrupted_conversion(c, handler, at_signal):
    r, lib, V = c.r, c.w.lib, c.w.up4.Converter
    n = r.randint(45, 90)
    kind = r.choice(["vtk", "vtk", "csv_multi_files"])
    files = []
    folder = c.path("d")
    os.makedirs(folder)
    ext = r.choice(["vtk", "vtu", "vtp"]) if kind == "vtk" else "csv"
    for s in range(n):
        m = r.randint(1, 3)
        files.append(os.path.join(folder, f"dump_{s}.{ext}"))
        if kind == "vtk":
            how = "field" if ext == "vtk" else "array"
            whole = "i64" if ext == "vtk" else "f64"
            lines = ["#up4-stub-vtk", "poly" if ext != "vtu" else "unstructured", "piece",
                     "points\t" + " ".join(num(r.uniform(-1, 1)) for _ in range(3 * m)),
                     "\t".join([how, "v", "3", "f64", " ".join(num(r.uniform(-1, 1)) for _ in range(3 * m))])]
            for name, k, values in (("radius", "f64", [0.5] * m), ("id", whole, range(m)), ("type", whole, [1] * m)):
                lines.append("\t".join([how, name, "1", k, " ".join(num(int(x) if k == "i64" else float(x)) for x in values)]))
        else:
            lines = ["c0,c1,c2,c3"] + [",".join(repr(x) for x in [float(i), r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)]) for i in range(m)]
        with open(files[-1], "w") as f:
            f.write("\n".join(lines) + "\n")

    def convert(out):
        if kind == "vtk":
            V.vtk(files, 0.5, out, filter=rf"(\d+).{ext}")
        else:
            V.csv_multi_files(files, out, [0.5 * i for i in range(n)])

    c.note(f"{kind} of {n} {ext} files")
    outs = [c.path() for _ in range(4)]
    try:
        before = lib.up4_stub_hdf5_accesses()
        _, error = outcome(convert, outs[0])
        total = lib.up4_stub_hdf5_accesses() - before
        c.ensure(error is None, "raised", lambda: f"{kind}: {type(error).__name__}: {str(error)[:300]}")
        want = c.w.dump(outs[0])
        bound = total // 3 + 8
        for out, raises in zip(outs[1:], r.choice([[True], [False], [True, False]])):
            signal.signal(signal.SIGINT, handler(raises))
            del at_signal[:]
            k = r.randint(1, max(total // 2, 1))
            c.note(f"a signal at access {k} of {total}, {'' if raises else 'not '}raising")
            start = lib.up4_stub_hdf5_accesses()
            lib.up4_stub_hdf5_interrupt(k)
            _, error = outcome(convert, out)
            lib.up4_stub_hdf5_interrupt(0)
            end = lib.up4_stub_hdf5_accesses() - start
            c.ensure(len(at_signal) == 1, "handled", lambda: f"{kind}: the signal was handled {len(at_signal)} times")
            late = at_signal[0] - start - k
            c.ensure(late <= bound, "late", lambda: f"{kind} of {n} files: {late} more accesses ({total} in all) before the signal was handled")
            if raises:
                c.ensure(error is not None and end - k <= bound, "ended", lambda: f"{kind} of {n} files: {end - k} more accesses ({total} in all) after the interrupt")
                c.see("interrupted conversions")
            else:
                c.ensure(error is None, "result", lambda: f"{kind} run while a signal was handled: {type(error).__name__}: {str(error)[:200]}")
                c.ensure(c.w.dump(out) == want, "result", lambda: f"{kind} run while a signal was handled: another file")
                c.see("conversions while a signal was handled")
            c.nontrivial = True
        _, error = outcome(convert, out)
        c.ensure(error is None and c.w.dump(out) == want, "result", lambda: f"{kind} after the interrupt: {error or 'another file'}")
    finally:
        shutil.rmtree(folder)


# ---------------------------------------------------------------- C56

def diagnostics(c):
    """the diagnostic build (check.py runs with it for this property) against the plain Rust API"""
    r = c.r
    kind = r.choice(["analyses"] * 3 + ["conversions", "grid accesses", "data accesses"])
    run = dict(analyses=python_analyses, conversions=converters)
    run.update({"grid accesses": grid_accessors, "data accesses": data_access})
    failed = []

    def go():
        try:
            run[kind](c)
        except Fail as f:
            failed.append(f)

    text = capture(c, go)
    c.see(kind)
    if failed:
        raise failed[0]
    for what, sign in (("reports of time steps", "Timestep "), ("reports of particles", "Particle "), ("reports of conversions", "Dimensions: "),
                       ("warnings", "WARNING")):
        c.see(what, text.count(sign))
