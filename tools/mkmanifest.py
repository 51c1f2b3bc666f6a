#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
TV = "TLA+ specification (Chain.tla) checked by TLC: trace validation of recorded executions of the real code in IEEE doubles"
LM = "; states of the same specification on an integer lattice, with every predicted value, are replayed in the real code"
note = ("Every recorded call of the real code is checked by TLC to be a step of the explicit specification; inputs and random "
        "streams are generated (seeded), so coverage is that of the generator. Trusts TLC, the Java overrides for IEEE arithmetic "
        "(spec/F64.java) and the recorder.")
CHECKS = {p: (TV, "model_checking", note) for p in ["C%02d" % i for i in range(1, 14)]}
for p in ("C03", "C05", "C06", "C09", "C13"):
    CHECKS[p] = (TV + LM, "model_checking", note)
CHECKS["C04"] = (TV + "; the same specification over integers is model-checked exhaustively (reversibility, energy conservation; wrong variants refuted)",
                 "model_checking", note)
CHECKS["C14"] = ("TLA+ specification (Config.tla): TLC enumerates configuration files (ConfigMC.tla), the real loader and "
                 "program run on every one, and TLC validates the recorded results (ConfigTrace.tla)", "model_checking",
                 "Values per option are a finite family of accepted and refused literals; round trips use sampled values.")
PN = ("Histories, schedules and inputs of the program runs are generated (seeded); the abstract protocol model is explored exhaustively "
      "within its bounds. Trusts TLC, spec/F64.java, the recorder shims/fsrec.c and the reproducible stand-in for the rand crate.")
CHECKS["C15"] = ("TLA+ specification (Runs.tla): TLC enumerates all interleavings, crash points and restarts of the batch protocol (RunsMC.tla, wrong variants "
                 "refuted), and validates operation traces of the unmodified program, killed at every point and restarted, against it (RunsTrace.tla)", "model_checking", PN)
CHECKS["C16"] = ("TLA+ specification (RunTrace.tla over Chain.tla): TLC reconstructs every state from the program's log files and checks each "
                 "logged step to be the specified transition", "model_checking", PN)
AV = ("TLA+ specification (Avg.tla): TLC enumerates sets of log files (AvgMC.tla), the real program averages each, and TLC validates the output (AvgTrace.tla)", "model_checking",
      "File sets are enumerated within small bounds plus generated larger ones; values are IEEE doubles compared within rounding.")
CHECKS["C17"] = CHECKS["C18"] = AV
CHECKS["C19"] = ("TLA+ specification (Sampling.tla model-checked over all interleavings, wrong variants refuted; SampleTrace.tla): TLC validates what the "
                 "unmodified program delivers under forced thread schedules, record by record against Chain.tla", "model_checking", PN)
CHECKS["C20"] = ("TLA+ specification (Profile.tla model-checked over all interleavings and step sizes, wrong variants refuted; ProfileTrace.tla over Chain.tla): "
                 "TLC validates the profiles of the unmodified program under forced thread schedules", "model_checking", PN)
CHECKS["C21"] = ("TLA+ specification (Bisect.tla model-checked, wrong variants refuted; FitTrace.tla with exact quadrature of the two-site ensembles): "
                 "TLC validates every bracket, energy estimate and record of the unmodified program's fits", "model_checking", PN)
CHECKS["C22"] = ("TLA+ specification (Modes.tla model-checked over sets of modes, options and sequences of invocations, wrong variants refuted): the unmodified program "
                 "is run with sets of modes covering all pairs, and TLC validates files touched, file operations and every mode's records (ModesTrace.tla, RunsTrace.tla, "
                 "SampleTrace.tla, FitTrace.tla, AvgTrace.tla, ProfileTrace.tla)", "model_checking", PN)
try:
    from manifest_extra import EXTRA
    CHECKS.update(EXTRA)
except ImportError:
    pass
ALL = ["C%02d" % i for i in range(1, 23)]
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [{"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "VERIF_TIER=thorough bin/check " + p,
                 "technique": CHECKS[p][0], "level": CHECKS[p][1], "level_note": CHECKS[p][2]} for p in ALL if p in CHECKS],
     "not_applicable": [{"property": p, "reason": "check still being built"} for p in ALL if p not in CHECKS],
     "notes": "No hooks in /repo: the checks use the public library interface and the unmodified program, built with a reproducible "
              "stand-in for the rand crate (shims/rand)."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
