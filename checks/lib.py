"""Checks of the library properties: record executions, validate them against LibTrace.tla."""
import json, os, subprocess
from common import *
import lattice

# shards (recorder runs with different seeds) and recorder scale, per tier
SIZE = {
    "C01": ((8, 1), (24, 4)), "C02": ((8, 1), (24, 4)), "C03": ((8, 1), (32, 3)), "C04": ((8, 1), (32, 3)),
    "C05": ((8, 1), (32, 2)), "C06": ((8, 1), (32, 3)), "C07": ((8, 1), (40, 3)), "C08": ((8, 1), (40, 3)),
    "C09": ((8, 1), (32, 3)), "C10": ((8, 1), (32, 3)), "C11": ((8, 1), (16, 4)), "C12": ((8, 1), (24, 3)),
    "C13": ((8, 1), (24, 3)),
}


def record(ck, harness, what, seed, scale, extra=()):
    d = os.path.join(ck.out, "w%d" % seed)
    os.makedirs(d, exist_ok=True)
    tr = os.path.join(ck.out, "trace-%d.nd" % seed)
    cmd = [harness, what, str(seed), str(scale), tr, *extra]
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=800)
    except subprocess.TimeoutExpired:
        ck.violate("recorder-timeout", "the recorded operations did not finish: " + " ".join(cmd),
                   {"cmd": cmd})
        return None
    if r.returncode != 0:
        # aborts of the process (double panics, stack overflow) come from the code under test
        ck.violate("abort", "the process died while operations were recorded: %s (%s)" % (" ".join(cmd), r.stderr[-400:]),
                   {"cmd": cmd, "stderr": r.stderr[-2000:]})
        return None
    return tr


def events(tr):
    c = {}
    first = {}
    for l in open(tr):
        j = json.loads(l)
        c[j["e"]] = c.get(j["e"], 0) + 1
        first.setdefault(j["e"], l.strip()[:600])
    return c, first


def run_traces(ck, what, module="LibTrace", extra=lambda i: ()):
    (harness,) = build(["harness"])
    java_overrides()
    shards, scale = SIZE[what][1 if ck.thorough else 0]

    def one(i):
        seed = ck.seed * 1000 + i
        tr = record(ck, harness, what, seed, scale, extra(i))
        if tr is None:
            return
        res = validate(tr, module)
        how = "harness %s %d %d" % (what, seed, scale)
        ck.take_validation(tr, res, module, how)
        c, first = events(tr)
        for k, n in c.items():
            ck.add("events_" + k, n)
        for k, l in first.items():
            ck.sample(l)
        if not res["rejects"]:
            os.remove(tr)

    pool(one, range(shards), min(CPUS, shards))


def c_lib(pid):
    ck = Check(pid, "model_checking")
    ck.assumptions = ["IEEE doubles of the JVM and of the code agree to the stated tolerances",
                      "inputs and random streams are sampled (seeded), not exhausted"]
    run_traces(ck, pid)
    if pid == "C04":
        lattice.explore(ck)
    if pid in lattice.DECIDES:
        lattice.replay(ck, lattice.DECIDES[pid])
    return ck.finish()
