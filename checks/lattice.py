"""Replays states of the integer lattice model, with what Chain.tla predicts for them, in the real code."""
import json, math
from common import *

# which predictions decide which property
DECIDES = {"C03": ("up", "nf", "t2", "t3"), "C05": ("tot", "sys", "m", "mt"), "C06": ("mct", "mcs"), "C09": ("l-up", "l-t2"),
           "C13": ("spec",)}
NAMES = {"up": "time-step", "nf": "time-step-without-static-field", "t2": "time", "t3": "time", "tot": "total-energy", "sys": "system-energy",
         "mct": "static-energy", "mcs": "subsystem-static-energy", "m": "magnetisation", "mt": "total-magnetisation", "spec": "spectrum",
         "l-up": "langevin-step-without-noise", "l-t2": "langevin-time", "l-tot": "langevin-total-energy", "l-sys": "langevin-system-energy",
         "l-m": "langevin-magnetisation", "l-mt": "langevin-total-magnetisation"}
DECIDES["C05"] += ("l-tot", "l-sys", "l-m", "l-mt")


def line(p):
    c = p["ch"]
    k = c["c"]
    flat = lambda x: [y for r in x for y in r]
    return " ".join(map(str, [p["k"], len(c["S"]), *flat(c["S"]), *flat(c["J"]), *flat(c["H"]), c["t"], k["dt"], k["tau"], k["e"],
                              *k["hs"], k["ssize"], k["drive"]]))


def expected(p):
    c = p["ch"]
    L, k = len(c["S"]), c["c"]["ssize"]
    x = {"up": p["up"] or None, "t2": p["t2"] * math.pi / 2, "tot": p["tot"] / L, "sys": p["sys"] / (k - 1) if k > 1 else None,
         "m": p["m"], "mt": p["mt"]}
    if p["k"] == "l":
        return {"l-" + n: y for n, y in x.items()}
    x.update({"nf": p["nf"] or None, "t3": x["t2"], "mct": p["mct"] / L, "mcs": p["mcs"] / k, "spec": p["spec"] or None})
    return x


def near(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return math.isfinite(float(a)) and abs(float(a) - b) <= 1e-9 * max(1.0, abs(b))


def replay(ck, names):
    (harness,) = build(["harness"])
    java_overrides()
    n = 6 if ck.thorough else 1

    def one(i):
        seed = ck.seed * 100 + i
        cases, flat, out = (os.path.join(ck.out, "lattice-%d.%s" % (seed, x)) for x in ("nd", "txt", "out"))
        rc, o = tlc("LatticeGen", cases + ".meta", env={"COUNT": str(1500 if ck.thorough else 600), "CASES": cases}, timeout=600, mem="6g", args=("-seed", str(seed)))
        if rc != 0 or not os.path.exists(cases):
            raise ToolError("LatticeGen failed:\n" + o[-2000:])
        ps = [json.loads(l) for l in open(cases)]
        with open(flat, "w") as f:
            f.write("".join(line(p) + "\n" for p in ps))
        r = subprocess.run([harness, "lattice", str(seed), "1", out, flat], capture_output=True, text=True, timeout=600, cwd=ck.out)
        got = [json.loads(l) for l in open(out)] if r.returncode == 0 else []
        if len(got) != len(ps):
            ck.violate("abort", "the process died or stopped while lattice states were replayed (%d of %d) %s" % (len(got), len(ps), r.stderr[-300:]), {"cases": cases})
            return
        for a, p in zip(got, ps):
            if a["e"] != "lat":
                ck.violate(a["e"], "lattice state: %s %s" % (a.get("op"), a.get("msg")), {"case": p})
                continue
            for k, y in expected(p).items():
                if y is None or k not in names:
                    continue
                ck.add("lattice_predictions_replayed")
                if not near(a[k[2:] if k.startswith("l-") else k], y):
                    ck.violate("lattice:" + NAMES[k], "%s is %s, specified %s, for %s" % (NAMES[k], a[k[2:] if k.startswith("l-") else k], y, p["ch"]),
                               {"case": p, "real": a})
        for x in (cases, flat, out):
            os.remove(x)
    pool(one, range(n), 3)


def explore(ck):
    """ChainLattice.tla, exhaustively; its wrong variants must be refuted."""
    java_overrides()
    model(ck, "ChainLattice", [("Order = TRUE", "Order = FALSE"), ("Local = TRUE", "Local = FALSE")],
          [("MaxT = 2", "MaxT = 3"), ("Wide = FALSE", "Wide = TRUE")] if ck.thorough else ())
