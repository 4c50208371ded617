#!/usr/bin/env python3
"""Mirrors /repo's crate into a build directory of /verif so that it can be built offline.

/repo's Cargo.toml has three git dependencies (hdf5, plotly, vtkio) that cannot be fetched here,
so the crate cannot be a path dependency as it stands.  Like /opt/vp/sync.py this copies
Cargo.toml and src/ from /repo's *current working tree* (every file is rewritten only when its
content changed, so cargo stays incremental), with one of these variants:

  core   git dependencies and the modules that need them are left out (what /opt/vp builds)
  data   hdf5 and vtkio are replaced by the stub crates of /verif/stubs; adds converter, pdata, tdata
  plot   plotly is replaced by its stub crate; adds plotting
  full   all three stubs, without the Python layer
  py     the extension module itself, with all three stubs
"""
import os
import re
import sys

REPO = os.environ.get("UP4_REPO", "/repo")
VERIF = os.path.dirname(os.path.abspath(__file__))

VARIANTS = {
    "core": dict(
        drop={"src/lib.rs": ["plotly", "converter", "plotting", "pylib"],
              "src/datamanager.rs": ["pdata", "tdata"]},
        skip=("src/main.rs", "src/converter", "src/plotting", "src/pylib",
              "src/datamanager/pdata.rs", "src/datamanager/tdata.rs"),
        stubs=()),
    "data": dict(
        drop={"src/lib.rs": ["plotly", "plotting", "pylib"]},
        skip=("src/main.rs", "src/plotting", "src/pylib"),
        stubs=("hdf5", "vtkio")),
    "plot": dict(
        drop={"src/lib.rs": ["converter", "pylib"],
              "src/datamanager.rs": ["pdata", "tdata"]},
        skip=("src/main.rs", "src/converter", "src/pylib",
              "src/datamanager/pdata.rs", "src/datamanager/tdata.rs"),
        stubs=("plotly",)),
    "full": dict(drop={"src/lib.rs": ["pylib"]}, skip=("src/main.rs", "src/pylib"), stubs=("hdf5", "vtkio", "plotly")),
    "py": dict(drop={}, skip=("src/main.rs",), stubs=("hdf5", "vtkio", "plotly"), cdylib=True),
}


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path, encoding="utf-8", newline="") as f:
            if f.read() == text:
                return
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def get(path):
    with open(path, encoding="utf-8", newline="") as f:
        return f.read()


def main(variant, dest):
    v = VARIANTS[variant]
    cargo = get(os.path.join(REPO, "Cargo.toml"))

    def dep(m):
        name = m.group(1)
        if name in v["stubs"]:
            return f'{name} = {{ path = "{VERIF}/stubs/{name}" }}'
        return "# " + m.group(0)

    cargo = re.sub(r"^([\w-]+)\s*=.*\bgit\s*=.*$", dep, cargo, flags=re.M)
    # rlib only: the extension module itself cannot be linked into a harness
    kind = "cdylib" if v.get("cdylib") else "rlib"
    cargo = re.sub(r'^crate-type\s*=.*$', f'crate-type = ["{kind}"]', cargo, flags=re.M)
    cargo = re.sub(r"^\[rust\]\n(?:[^\[].*\n)*", "", cargo, flags=re.M)
    put(os.path.join(dest, "Cargo.toml"), cargo)

    kept = set()
    for top, _, names in os.walk(os.path.join(REPO, "src")):
        for name in names:
            rel = os.path.relpath(os.path.join(top, name), REPO)
            if not name.endswith(".rs") or rel.startswith(v["skip"]):
                continue
            text = get(os.path.join(REPO, rel))
            for mod in v["drop"].get(rel, ()):
                text = re.sub(
                    rf"^((?:pub )?(?:mod {mod};|use {mod}::[^;\n]*;|extern crate {mod};))",
                    r"// \1", text, flags=re.M)
            put(os.path.join(dest, rel), text)
            kept.add(rel)
    for top, _, names in os.walk(os.path.join(dest, "src")):
        for name in names:
            path = os.path.join(top, name)
            if os.path.relpath(path, dest) not in kept:
                os.remove(path)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
