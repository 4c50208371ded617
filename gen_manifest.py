#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (one-off helper; not run by the checks)."""
import json
T = {
 "C01": ("online monitor: every located point checked against a reference box model", "boxes and locations"),
 "C02": ("online monitor: shells, positions and located points checked against a reference shell/sector/layer model", ""),
 "C03": ("online monitor: whole-grid state compared before/after each rejected operation", ""),
 "C04": ("online conservation monitor: real grid and model ledger compared in full after every operation of a random trace", ""),
 "C05": ("online monitor: element-wise comparison of grid state after each normalising operation", ""),
 "C06": ("online monitor: every collapsed value recomputed by a reference weighted average", ""),
 "C07": ("online monitor: returned plane identified by unique cell tags and checked against the reference location", ""),
 "C08": ("online monitor: grid state before/after outlier removal checked against a reference rule", ""),
 "C09": ("differential runtime monitor: same analysis on an empty and on pre-filled grids, outputs compared", ""),
 "C10": ("lock-step runtime monitor: vector grid and three scalar grids driven by one trace and compared after every operation", ""),
 "C11": ("runtime oracle: each selector decision compared with an independent evaluation of the stated criteria", ""),
 "C12": ("differential (non-interference) runtime monitor: unselected data scrambled, outputs compared", ""),
 "C27": ("offline log checker: rows returned compared bit by bit with the recorded history", ""),
 "C25": ("offline trace checker: independent per-particle crossing automaton over the recorded trajectory log", ""),
 "C26": ("offline trace checker: independent per-particle zone automaton over the recorded trajectory log", ""),
 "C31": ("access monitor on the data source (every time step served is logged) plus before/after state comparison and repeat-run differential", ""),
 "C32": ("crash monitor under hostile recordings: overflow checks, bounds checks, debug assertions, hang watchdog and fatal-signal detection", ""),
 "C33": ("differential runtime monitor: side-by-side comparison against each recording's own field", ""),
}
DEFAULT = "runtime oracle: output of the real analysis on generated recordings checked against an independent reference computed from the recorded event log"
NOTE = ("Runtime evidence over the sampled executions only (counts in the evidence file), not a proof. "
        "The real code is built from /repo's working tree with overflow checks and debug assertions on. "
        "Trusts the in-memory data source, the reference model and the mirror of the crate without its "
        "unfetchable git dependencies; numeric comparisons use the tolerances listed under assumptions.")
EXTRA_NOTE = {}
try:
    from manifest_extra import T2, NOTE2  # noqa
    T.update(T2); EXTRA_NOTE.update(NOTE2)
except ImportError:
    pass
props = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
        evidence_file=f"evidence/{i}.json", technique=T.get(i, (DEFAULT, ""))[0], level="exploration",
        level_note=EXTRA_NOTE.get(i, NOTE)))
m = dict(version=1, setup_cmd="./run.sh build",
    hooks=dict(guard="rustc cfg flags up4_verif, up4_verif_private and up4_verif_small_buffer",
        enable="RUSTFLAGS='--cfg up4_verif' (C29 and C33 also --cfg up4_verif_private, C34-C36 and the Python layer of C49-C56 also --cfg up4_verif_small_buffer), set by run.sh",
        source_commits=["f843000105442bc1d33bc5c0a54af1b64a8867a3", "adfa336ce9191537ef9de4dfcb4ee6183ca98206"]),
    checks=checks, not_applicable=[],
    notes="See DESIGN.md. Replay a violation: VERIF_SEED=<seed> VERIF_TIER=<tier> ./run.sh <id> --case <n> (recorded in the replay file).")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
