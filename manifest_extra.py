"""Techniques and notes of the checks that run the file, converter and plotting layers (read by gen_manifest.py)."""
_N = ("Runtime evidence over the sampled executions only (counts in the evidence file), not a proof. "
      "The real code is built from /repo's working tree with overflow checks and debug assertions on, against "
      "stand-ins written here for its unfetchable git dependencies ({}); those and the reference model are trusted.")
H5 = _N.format("an in-memory HDF5 store")
T2 = {
 "C34": ("online differential monitor: every step served compared bit by bit with the stored recording, in hostile read orders", ""),
 "C35": ("online differential monitor: reads of main buffer and second channels interleaved, every step compared bit by bit", ""),
 "C36": ("online differential monitor: unbuffered and buffered reads compared bit by bit with the stored recording", ""),
 "C37": ("runtime oracle: summary values and description parsed and compared with the stored attributes", ""),
 "C38": ("differential runtime monitor: each analysis on the file and on the same recording in memory", ""),
 "C39": ("runtime oracle over the written file: every row of the table compared exactly", ""),
 "C40": ("runtime oracle over the written file: independent centred least-squares parabola per sighting", ""),
 "C41": ("runtime oracle over the written file: independent linear interpolation at even times", ""),
 "C42": ("runtime oracle over the written file: conservation of particles and sightings", ""),
 "C43": ("runtime oracle over the written file: conservation of steps and particles", ""),
 "C44": ("runtime oracle over the written file: conservation of files and particles; parsed VTK data sets handed to the real converter", ""),
 "C45": ("runtime consistency monitor: summary attributes against statistics recomputed from the file's content", ""),
}
NOTE2 = {k: H5 for k in T2}
NOTE2["C44"] = NOTE2["C45"] = _N.format("an in-memory HDF5 store, parsed VTK data sets")
PL = _N.format("the traces of the plotting library")
T3 = {
 "C46": ("runtime oracle over the traces handed to the plotting library: every plane cell exactly once, at its place, with its value", ""),
 "C47": ("runtime oracle and lock-step model: every arrow compared with the model's after each scaling", ""),
 "C48": ("runtime oracle over the traces: conservation of value pairs", ""),
}
T2.update(T3)
NOTE2.update({k: PL for k in T3})
PY = ("Runtime evidence over the sampled executions only (counts in the evidence file), not a proof. The real extension "
      "module and Python files are built from /repo's working tree, with debug assertions on; hdf5, vtkio and plotly are "
      "stand-ins written here, and the Rust API, run in a process of its own, is the reference{}.")
T4 = {
 "C49": ("runtime oracle: every access compared with the recording that was written, after random access histories", PY.format(" only for what is decided by C34-C38")),
 "C50": ("runtime oracle: geometry of the grid recomputed from the request; refusals by exception type", PY.format(" for cylindrical positions")),
 "C51": ("differential runtime monitor: analyses through one Python object with history against fresh Rust readers", PY.format("")),
 "C52": ("differential runtime monitor: traces of figures against those of the Rust plots; options and refusals by oracle", PY.format("")),
 "C53": ("differential runtime monitor: files written compared line by line with the Rust converters'", PY.format("")),
 "C54": ("runtime oracle: numpy over the field's own data and weights, after random accessor histories", PY.format(" for the field itself")),
 "C56": ("differential runtime monitor: the build with diagnostics against the Rust API built without", PY.format("")),
 "C55": ("fault injection with a runtime monitor: SIGINT raised at a random access to the file, moment of handling, outcome and repeated results checked", PY.format(" for the undisturbed run of the same call")),
}
T2.update({k: (v[0], "") for k, v in T4.items()})
NOTE2.update({k: v[1] for k, v in T4.items()})
