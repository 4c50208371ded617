#!/usr/bin/env python3
"""Runtime monitors for up4's Python layer: check.py <property> [--seed n] [--tier t] [--case i] [--cases n].

The extension module is the real one, built from /repo's sources with stand-ins for hdf5, plotly and vtkio
(mirror.py), and the Python files are copies of /repo/up4.  See /verif/DESIGN.md.  The checks run in a child
process: the parent reports a crash or a hang of the code under test, which no exception handler can.
"""
import argparse
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HANG_SECS = 120

TRUST = ["hdf5, vtkio and plotly are stand-ins (trusted: stubs/, harness_py/fake); pyo3 and numpy are the real ones"]
RUST = ["the Rust API is the reference for what the Python layer must give; its own behaviour is decided by the other checks"]


def specs():
    import props
    return {
        "C49": (props.data_access, 1500, 12000, "random recording of either layout, opened one of three ways, then 4-14 accesses in random order: single indices, lists, slices (steps, reversed, empty), iteration, indices out of range, summaries; non-trivial: more than one step",
                ["indices", "negative indices", "lists of indices", "slices", "empty slices", "slices with a step", "reversed slices", "iterations", "indices out of range", "summaries", "texts", "files refused", "results overwritten", "recordings by particle", "recordings by time", "steps of different numbers of particles"], TRUST),
        "C50": (props.grid_constructor, 4000, 40000, "random constructor call: both styles, extent from limits, from some or all of xlim/ylim/zlim, or from data; number of cells given, by default or from cell_size; lists and arrays; plus calls that must be refused; non-trivial: every case",
                ["cartesian grids", "cylindrical grids", "extent from limits", "extent from lims", "extent from data", "cell sizes", "cell sizes dividing the extent", "default number of cells", "grids from data", "negative limits", "refused arguments"], TRUST + ["whole cells are counted with a tolerance of 1e-9 of a cell"]),
        "C51": (props.python_analyses, 700, 12000, "random recording, 3-9 analyses through one Data object with random arguments (positional, by name, left out), time windows in between, each compared with a fresh reader of the Rust API; non-trivial: some result is not zero",
                ["vectorfield", "velocityfield", "numberfield", "occupancyfield", "granular_temperature", "concentration_field", "msd_field", "mean_velocity", "homogenity_index", "dispersion", "histogram", "lacey_mixing_index", "msd", "circulation_time", "circulation_time_two_boundary", "extract", "time windows", "time windows from before zero", "time windows refused", "results read again"], TRUST + RUST),
        "C52": (props.plots, 1500, 12000, "random field (vector or scalar, both grid styles), 3-8 figures of random kind, axis, plane or depth average, scaling, colour map, layout and style; every trace compared with the Rust plot of the same field; non-trivial: some number plotted is not zero",
                ["quiver_plot", "unit_vector_plot", "scalar_map", "scalar_contour", "parity_plot", "parity_map", "parity_contour", "single planes", "depth averages", "colour maps", "contour levels", "scaling mode min", "scaling mode max", "scaling mode minmax", "scaling mode half_node", "scaling mode full_node", "refused arguments", "refused arguments of parity plots", "figures saved", "own plots of grids", "colour maps of parity maps"], TRUST + RUST + ["what plotly does with a figure is plotly's business"]),
        "C53": (props.converters, 3000, 25000, "random table(s) or VTK files, converted through the Python layer (arguments by position, by name, left out where the file fits the default) and by the Rust converter; the files written are compared line by line and opened; non-trivial: a file was written",
                ["csv", "csv_multi", "csv_multi_files", "vtk", "vtk_from_folder", "id_line", "chain", ".vtk files", ".vtu files", ".vtp files", "diameters", "arguments left out", "converted files opened", "even sampling steps refused"], TRUST + RUST),
        "C54": (props.grid_accessors, 2500, 25000, "random field (scalar or vector, both grid styles), 3-9 accessor calls in random order, each compared with numpy over the field's data and weights as the Rust API gives them; non-trivial: some value is not zero",
                ["slice", "slice_pos", "collapse", "collapse_two", "outliers", "cell_id", "inside", "text", "summaries in texts", "summaries of vector fields", "summaries of fields with empty cells", "scribble", "contents", "cartesian scalar fields", "cylindrical scalar fields", "cartesian vector fields", "cylindrical vector fields"], TRUST + RUST),
        "C55": (props.interrupts, 800, 8000, "an analysis of a recording of 64-160 steps, run undisturbed, then with SIGINT raised at a random access to the file, by a handler that raises or one that does not, then again; non-trivial: a signal was handled",
                ["interrupted conversions", "conversions while a signal was handled", "interrupted analyses", "signals without consequence", "results compared"] + [f"{n} interrupted" for n in "vectorfield velocityfield numberfield occupancyfield granular_temperature concentration_field msd_field mean_velocity homogenity_index dispersion histogram lacey_mixing_index msd circulation_time circulation_time_two_boundary extract".split()], TRUST),
        "C56": (props.diagnostics, 600, 6000, "the cases of C49, C51, C53 and C54 on the module built with uPPPP_debug and uPPPP_warning, against the Rust API built without; non-trivial: as there",
                ["analyses", "conversions", "grid accesses", "data accesses", "reports of time steps", "reports of particles", "reports of conversions", "warnings"], TRUST + RUST),
    }


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                w = line.split()
                if len(w) > 2 and w[0] == "known:" and w[1] == f"property={prop}" and w[2].startswith("key="):
                    out.append(w[2][4:])
    except FileNotFoundError:
        pass
    return out


def replay(a, i, key, observed, text):
    os.makedirs("replays", exist_ok=True)
    path = f"replays/{a.prop}-seed{a.seed}-case{i}.json"
    with open(path, "w") as f:
        json.dump(dict(property=a.prop, seed=a.seed, tier=a.tier, case=i,
                       replay=f"VERIF_SEED={a.seed} VERIF_TIER={a.tier} ./run.sh {a.prop} --case {i}",
                       key=key, observed=observed, input=text), f, indent=1)
    return path


def worker(a, scratch, tell):
    # the code under test prints: only the monitor's own lines reach the caller
    out = os.fdopen(os.dup(1), "w")
    err = os.fdopen(os.dup(2), "w")
    sink = os.open(os.environ.get("UP4_DEBUG", os.devnull), os.O_WRONLY | os.O_APPEND)
    os.dup2(sink, 1)
    os.dup2(sink, 2)
    sys.path[:0] = [os.path.join(VERIF, ".build/py/site"), os.path.join(HERE, "fake")]
    import traceback
    import lib
    try:
        run, quick, thorough, rule, must_see, assumptions = specs()[a.prop]
        w = lib.World(scratch)
        known, known_seen = known_findings(a.prop), {}
        cases = a.cases or (thorough if a.tier == "thorough" else quick)
        todo = range(a.case, a.case + 1) if a.case is not None else range(cases)
        limit = 600.0 if a.tier == "thorough" else 240.0
        start = time.time()
        seen, nontrivial, samples, evaluations, truncated, violation = set(), set(), [], 0, False, None
        for i in todo:
            os.write(tell, b"%d\n" % i)
            c = lib.Case(w, a.prop, a.seed, i, a.tier == "thorough")
            fail = None
            try:
                run(c)
            except lib.Fail as f:
                fail = f
            text = "; ".join(c.log)
            c.clean()
            evaluations += 1
            h = hash(text)
            seen.add(h)
            if c.nontrivial and h not in nontrivial:
                nontrivial.add(h)
                if len(samples) < 3 and len(text) < 3000:
                    samples.append(text)
            if fail is not None:
                if fail.key in known:
                    n, m = known_seen.get(fail.key, (0, fail.msg))
                    known_seen[fail.key] = (n + 1, m)
                else:
                    violation = (i, fail, text)
                    break
            if time.time() - start > limit:
                truncated = True
                break
        wall = time.time() - start
        if a.case is None:
            os.makedirs("evidence", exist_ok=True)
            with open(f"evidence/{a.prop}.json", "w") as f:
                json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, level="exploration", coverage=dict(
                    evaluations=evaluations, distinct_nontrivial=len(nontrivial), distinct=len(seen), rule=rule,
                    observed=dict(sorted(w.counters.items())), stopped_by_time_limit=truncated, exhaustive=False, samples=samples),
                    assumptions=assumptions, wall_s=round(wall, 3), violations=int(violation is not None)), f, indent=1)
        for k, (n, m) in known_seen.items():
            print(f"KNOWN-FINDING: property={a.prop} {k} ({n} cases) {m}", file=out)
        if violation:
            i, fail, text = violation
            print(f"case {i}: {fail.key} -- {fail.msg}"[:1000], file=out)
            print(f"VIOLATION property={a.prop} replay={replay(a, i, fail.key, fail.msg, text)}", file=out)
            return 1
        if a.case is None:
            for m in must_see:
                if not w.counters.get(m):
                    print(f"the workload never produced {m!r}: nothing was observed for it", file=err)
                    return 2
            print(f"{a.prop}: {evaluations} cases, {len(nontrivial)} distinct non-trivial, {wall:.1f} s", file=out)
        else:
            print(f"case {a.case}: held", file=out)
        return 0
    except BaseException:
        traceback.print_exc(file=err)
        return 2
    finally:
        out.flush()
        err.flush()


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--case", type=int)
    p.add_argument("--cases", type=int)
    p.add_argument("--worker", nargs=2, help=argparse.SUPPRESS)
    a = p.parse_args()
    os.chdir(VERIF)
    if a.worker:
        rc = worker(a, a.worker[0], int(a.worker[1]))
        sys.stdout.flush()
        os._exit(rc)
    scratch = tempfile.mkdtemp(prefix="up4verif-py-")
    hear, tell = os.pipe()
    last, seen_at = None, time.time()
    try:
        child = subprocess.Popen([sys.executable, os.path.abspath(__file__), *sys.argv[1:], "--worker", scratch, str(tell)],
                                 pass_fds=[tell], start_new_session=True, env=dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))
        os.close(tell)
        hang = False
        while True:
            ready = select.select([hear], [], [], 1.0)[0]
            if ready:
                data = os.read(hear, 65536)
                if not data:
                    break
                last, seen_at = int(data.split()[-1]), time.time()
            elif child.poll() is not None:
                break
            elif time.time() - seen_at > HANG_SECS:
                hang = True
                break
        if hang:
            os.killpg(child.pid, signal.SIGKILL)
            child.wait()
            if last is None:
                sys.exit(2)
            m = f"did not terminate within {HANG_SECS} s"
        else:
            rc = child.wait()
            if rc >= 0:
                sys.exit(rc)
            if last is None or rc == -signal.SIGKILL:
                print(f"the monitor was killed by signal {-rc}", file=sys.stderr)
                sys.exit(2)
            m = f"the process was killed by signal {-rc}"
        print(f"case {last}: {a.prop}:crash -- {m}")
        print(f"VIOLATION property={a.prop} replay={replay(a, last, f'{a.prop}:crash', m, '')}")
        sys.exit(1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
