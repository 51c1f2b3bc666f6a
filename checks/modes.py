"""C22: invocations with several modes.  ModesMC.tla is model-checked; then sets of modes covering every pair are requested from
the program, and every mode's share of the outcome is validated against the specification of that mode with the configuration
Modes.tla gives it."""
import random
from prog import *
import runs
from samples import fmt

ORDER = ["describe", "ext", "scan", "D", "r", "E", "f", "F", "H", "A", "hist", "dynhist", "magnus", "traj",
         "avg", "two", "mc", "mcprofile", "profile", "full", "langevin", "response"]
LIGHT = [m for m in ORDER if m not in ("r", "E", "A", "hist")]
BATCH = {"ext", "profile", "langevin", "response", "default"}
FIT = {"D": "beta", "A": "beta", "f": "betat", "F": "betat", "H": "betat", "r": "betat-rot", "E": "betat-maglab"}
MARKS = [500 * k for k in range(1, 9)]


def names(c, steps):
    """output files by the names Modes.tla gives them"""
    n = {"beta": ["beta.dat"], "betat": ["betat.dat"], "betat-rot": ["betat-rot.dat"], "betat-maglab": ["betat-maglab.dat"],
         "hist-mc": ["hist_mc.dat"], "hist-dyn": ["hist_dyn.dat"], "hist-magnus": ["hist_mc_magnus.dat"], "mc-live": ["mc_live.dat"],
         "dyn-hist": ["dyn-hist-t-%s.dat" % fmt(c["t"])], "hist-st": ["hist-st-t-%s.dat" % fmt(c["t"])], "evt": ["evt%d.dat" % steps],
         "avg": ["avg.dat"], "two-point": ["two-point.dat"], "mc-profile": ["mc_profile.dat"],
         "dyn-profile": ["dyn_profile-%d-tau.dat" % m for m in MARKS], "config": ["config.toml"]}
    return n


APPENDED = ["beta", "betat", "betat-rot", "betat-maglab", "hist-mc", "hist-dyn", "hist-magnus", "mc-live", "dyn-hist", "hist-st", "evt"]


def groups(r, size):
    """sets of modes such that every two of the light ones are in one of them"""
    left = {frozenset((a, b)) for i, a in enumerate(LIGHT) for b in LIGHT[i + 1:]}
    out = []
    while left:
        g = list(r.choice(sorted(map(sorted, left))))
        while len(g) < size:
            best = max((m for m in LIGHT if m not in g), key=lambda m: (sum(frozenset((m, x)) in left for x in g), r.random()))
            g.append(best)
        left -= {frozenset((a, b)) for a in g for b in g}
        out.append(g)
    return out


def config(r, modes):
    dt = r.choice([0.125, 0.25])
    L, s = r.choice([(2, 2)] * 4 + [(4, 4), (4, 3), (4, 2)])
    v = lambda a: [round(r.uniform(-a, a), 3) for _ in range(3)]
    c = dict(BASE, hsize=L, ssize=s, dt=dt, tau=dt * r.randrange(20, 30), t=dt * r.choice([4, 9, 4.4, 7.3, 13.6]), trel=0.0, threads=r.choice([1, 2, 3]),
             runs=r.choice([1, 1, 2]), drive=r.choice(["xyplane", "xyelliptic", "uniaxial", "none"]), hs=v(0.7), hfield=v(0.7),
             e=round(r.uniform(0.1, 0.9), 3), offset=r.choice([0, 2]), mc_points=r.choice([1, 2, 3]), beta=round(r.uniform(0.5, 2.5), 3),
             ednsty=round(r.uniform(-0.9, -0.3), 3), file=r.choice(["log", "run-"]), strob=r.random() < 0.3, log=r.random() < 0.85)
    c["lambda"] = r.choice([1.0, 0.5])
    if "profile" in modes and {"langevin", "response"} & set(modes):
        c["tau"] = 2 * dt                 # the profiles leave t = 4000 tau behind, and what follows logs every step of it
    if "hist" in modes:
        c.update(hsize=2048, ssize=4, hs=[0.0] * 3, hfield=[0.0] * 3, ednsty=-0.02, dt=0.125, tau=0.125, runs=1)
        c["lambda"] = 1.0
    return c


class Job:
    def __init__(self, modes, r):
        self.modes, self.r = modes, r


def invoke(scbin, so, d, job):
    """requests the modes together; returns events by trace specification"""
    r = job.r
    modes = [m for m in ORDER if m in job.modes]
    c = config(r, modes)
    steps = r.choice([1, 2, 3])
    u = lambda a, b: round(r.uniform(a, b), 3)
    target = {"f": u(-0.9, 0.2), "F": u(-1.9, -0.5), "H": u(-0.9, -0.1), "r": u(-1.9, -0.8), "E": u(-0.9, -0.3), "D": c["ednsty"]}
    tau = {"A": c["dt"] * r.randrange(10, 16), "D": u(2.5, 6.0)}
    n = {m: r.choice([1, 2, 3]) for m in ("hist", "dynhist", "magnus", "traj")}
    if "hist" in modes:
        n["hist"] = 1
    taus = [u(0.3, 0.9), u(1.0, 2.0)][:r.choice([1, 2])]
    opt = {"describe": ["--config-desc"], "ext": ["-e"], "scan": ["-n", ",".join(map(repr, taus)), "--steps", str(steps)],
           "hist": ["--histogram=%d" % n["hist"]], "dynhist": ["-d", str(n["dynhist"])], "magnus": ["--magnus-hist=%d" % n["magnus"]],
           "traj": ["-s", str(n["traj"])], "avg": ["-a"], "two": ["--two-point"], "mc": ["-m"], "mcprofile": ["-p"], "profile": ["-P"],
           "full": ["--monte-carlo-magnus"], "langevin": ["-l", "0.5"], "response": ["--response"]}
    for m in FIT:
        opt[m] = ["-" + m, repr(tau[m] if m in tau else target[m])]
    parts = [opt[m] for m in modes]
    over, cc = {}, dict(c)
    if r.random() < 0.4:
        over["tau"] = c["dt"] * (r.randrange(20, 30) if c["tau"] > 2 * c["dt"] else 3)
        parts.append(["-t", repr(over["tau"])])
        cc["tau"] = over["tau"]
    if r.random() < 0.3 or "hist" in modes:
        over["beta"] = u(0.6, 1.8) if "hist" not in modes else 0.06
        parts.append(["-b", repr(over["beta"])])
        cc["beta"] = over["beta"]
    r.shuffle(parts)
    args = sum(parts, [])
    o = c["offset"]
    h = runs.History(scbin, so, d, c, [(i, "".join("%d %f %f\n" % (k, r.random(), r.random()) for k in range(r.randrange(1, 4)))) for i in range(o)])
    nm = names(cc, steps)
    where = {f: k for k, v in nm.items() for f in v}
    old = {}
    for k in APPENDED + ["avg", "two-point", "mc-profile", "dyn-profile"]:
        for f in nm[k]:
            if r.random() < 0.3:
                old[f] = "0 1 2 3 4\n" * r.randrange(1, 4)
                with open(os.path.join(h.wd, f), "w") as fh:
                    fh.write(old[f])
    before = files(h.wd)
    _, p = h.start([{"mode": m, "n": len(taus) if m == "scan" else 0} for m in modes if m in BATCH or m == "scan"] or
                   ([] if modes else [{"mode": "default", "n": 0}]), args, over, env=runs.jitter(r) if c["tau"] > 2 * c["dt"] else {}, seed=r.randrange(1, 10**6), timeout=400)
    after = files(h.wd)
    touched, other, kept = set(), [], True
    for f in set(before) | set(after):
        if before.get(f) == after.get(f):
            continue
        if h.re.match(f):
            touched.add("logs")
        elif f in where:
            touched.add(where[f])
        else:
            other.append(f)
    # a log that was written again to the same contents, a configuration saved as it was: look at the operations instead
    for q, tid, op, x, path, arg, data in ops(p):
        if op == "open" and x >= 0 and arg == "trunc" and path in where:
            touched.add(where[path])
        if op == "rename" and x == 0 and arg == "config.toml":
            touched.add("config")
        if op == "open" and x >= 0 and h.re.match(path) and arg == "trunc":
            touched.add("logs")
    new, added = {}, []
    for k in APPENDED:
        f = nm[k][0]
        txt = after.get(f, b"").decode("utf-8", "replace")
        if txt.startswith(old.get(f, "")):
            txt = txt[len(old.get(f, "")):]
        else:
            kept = False
        if txt and not txt.endswith("\n"):
            txt += " torn\n"
        new[k] = [x.split(" ") for x in txt.split("\n")[:-1]]
        added.append([k, len(new[k])])
    pts = c["mc_points"]
    want = [["mc", "mc-live", pts], ["full", "mc-live", pts], ["dynhist", "dyn-hist", n["dynhist"]], ["traj", "hist-st", n["traj"]],
            ["magnus", "hist-magnus", n["magnus"]], ["hist", "hist-mc", n["hist"]], ["hist", "hist-dyn", n["hist"]], ["scan", "evt", len(taus)]]
    want += [[m, f, 1] for m, f in FIT.items()]
    keys = [[m, repr(float(target[m]))] for m in ("f", "F", "H")] + [["D", "3"], ["A", "8"]]
    order = [["betat", [repr(float(x[1])) if len(x) > 1 and numeric(x[1]) else "?" for x in new["betat"]]], ["beta", [str(len(x)) for x in new["beta"]]]]
    ev = {"e": "modes", "args": args, "modes": modes, "touched": sorted(touched), "other": sorted(other), "kept": kept, "rc": p.rc, "hung": p.hung,
          "runs": c["runs"], "log": c["log"], "want": want, "keys": keys, "added": added, "order": order, "err": p.err[-300:]}
    out = {"ModesTrace": [ev], "RunsTrace": h.ev, "SampleTrace": [], "FitTrace": [], "AvgTrace": [], "ProfileTrace": []}
    if p.rc != 0 or p.hung:
        out.update(RunsTrace=[])
        shutil.rmtree(d)
        return out
    pc = {k: plain(x) for k, x in cc.items()}

    def sample(kind, rec, want, **kw):
        e = {"e": "sample", "kind": kind, "c": pc, "want": want, "kept": True, "nl": True, "rec": rec, "rc": 0, "hung": False, "cold": False,
             "b": "1.0", "taus": [repr(float(t)) for t in taus], "avg": [], "args": args}
        e.update(kw)
        out["SampleTrace"].append(e)
    live = new["mc-live"]
    if "mc" in modes:
        sample("mc", live[:pts], pts)
    if "full" in modes:
        sample("full", live[pts if "mc" in modes else 0:], pts)
    for m, k in (("dynhist", "dyn-hist"), ("traj", "hist-st"), ("magnus", "hist-magnus")):
        if m in modes:
            sample(m, new[k], n[m])
    if "hist" in modes:
        sample("hist_mc", new["hist-mc"], n["hist"])
        sample("hist_dyn", new["hist-dyn"], n["hist"])
    if "scan" in modes:
        sample("scan", new["evt"], len(taus))
    b = cc["beta"]
    seen = {"beta": 0, "betat": 0}
    for m in modes:
        if m not in FIT:
            continue
        k = FIT[m]
        at = seen.get(k, 0)
        seen[k] = at + 1
        rec = new[k][at:at + 1]
        t = target.get(m)
        if m == "A":
            t = float(rec[0][7]) if rec and len(rec[0]) > 7 and numeric(rec[0][7]) else 0.0
        out["FitTrace"].append({"e": "fit", "kind": m, "c": pc, "tau": repr(float(tau.get(m, cc["tau"]))), "target": repr(float(t)), "b": repr(float(b)),
                                "steps": [], "rec": rec, "kept": True, "rc": 0, "hung": False, "args": args})
    # what the averages saw: the logs there were when it was their turn
    upto = o + (c["runs"] if "ext" in modes else 0)
    late = set(modes) & {"profile", "langevin", "response"}
    if "scan" in modes and not late:
        upto += len(taus)
    logs = sorted((f, after[f].decode()) for f in after if h.re.match(f) and (not late and "scan" in modes or int(h.re.match(f).group(1)) < upto))
    if c["log"] and not ("scan" in modes and late):
        for m, f, kind in (("avg", "avg.dat", "avg"), ("two", "two-point.dat", "two")):
            if m in modes:
                out["AvgTrace"].append({"e": kind, "files": [[x.split(" ") for x in t.split("\n")[:-1]] for _, t in logs],
                                        "out": [x.split() for x in after.get(f, b"").decode().split("\n")[:-1]],
                                        "rc": 0, "kept": True, "others": True, "prefix": "p" + c["file"]})
    for m, kind, fs in (("mcprofile", "mc", nm["mc-profile"]), ("profile", "dyn", nm["dyn-profile"])):
        if m in modes:
            txt = [after[f].decode() for f in fs if f in after]
            e = {"e": "profile", "kind": kind, "c": pc, "n": pts if kind == "mc" else c["runs"], "b": "1.0",
                 "files": [[x.split(" ") for x in t.split("\n")[:-1]] for t in txt], "whole": all(t.endswith("\n") for t in txt),
                 "rc": 0, "hung": False, "args": args}
            for k in ("hot", "cold", "turn", "evolve"):
                e[k] = False
            out["ProfileTrace"].append(e)
    shutil.rmtree(d)
    return out


def numeric(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def c22():
    ck = Check("C22", "model_checking")
    ck.assumptions = ["sets of modes: every two of the modes that take seconds are requested together, larger sets are sampled",
                      "what a mode writes is judged by the specification of that mode, as far as its records determine the settings used"]
    scbin, so = build_all()
    model(ck, "ModesMC", [('Scratch = "own"', 'Scratch = "kept"'), ('Advance = "each"', 'Advance = "end"')],
          deeper=[("MaxModes = 3", "MaxModes = 5")])
    r = random.Random("C22/%d" % ck.seed)
    sets = []
    for rep in range(1 if not ck.thorough else 8):
        sets += groups(r, 4)
        for heavy in ("A", "A", "r", "E") if not ck.thorough else ("A", "r", "E", "A", "hist"):
            sets.append([heavy] + r.sample(LIGHT, 3))
        sets += [[], ["describe"]]
    sets.append(["hist"] + r.sample([m for m in LIGHT if m not in FIT and m not in ("profile", "scan")], 2))
    if ck.thorough:
        sets += [r.sample(LIGHT, r.choice([6, 9, 12])) for _ in range(16)]
        sets += [["r", "E", "A"] + r.sample(LIGHT, 2)]
    jobs = [Job(s, random.Random(r.getrandbits(64))) for s in sets]
    res = [None] * len(jobs)

    def go(i):
        t0 = time.time()
        res[i] = invoke(scbin, so, os.path.join(ck.out, "m%d" % i), jobs[i])
        if os.environ.get("VERBOSE"):
            say("%.1f" % (time.time() - t0), res[i]["ModesTrace"][0]["args"])
    weight = {"r": 40, "E": 40, "A": 9, "hist": 25, "f": 4, "F": 4, "D": 4, "profile": 4}
    pool(go, sorted(range(len(jobs)), key=lambda i: -sum(weight.get(m, 2) for m in jobs[i].modes)))
    trs = []
    for mod in ("ModesTrace", "RunsTrace", "SampleTrace", "FitTrace", "AvgTrace", "ProfileTrace"):
        parts = {"FitTrace": 4, "RunsTrace": 2}.get(mod, 1)
        for k in range(parts):
            tr = os.path.join(ck.out, "%s%d.nd" % (mod, k))
            with open(tr, "w") as fh:
                for x in res[k::parts]:
                    for e in x[mod]:
                        fh.write(json.dumps(e) + "\n")
            if os.path.getsize(tr):
                trs.append((tr, mod))
    for (tr, mod), x in zip(trs, pool(lambda t: validate(*t), trs)):
        ck.take_validation(tr, x, mod, "the program with several modes, under shims/fsrec")
    ck.cov["invocations"] = len(jobs)
    ck.cov["pairs_of_modes"] = len({frozenset((a, b)) for j in jobs for a in j.modes for b in j.modes if a != b})
    for i in (0, 7, 14):
        ck.sample(res[i]["ModesTrace"][0]["args"])
    return ck.finish()
