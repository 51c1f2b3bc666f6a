"""C19: sampling modes under forced schedules.  Sampling.tla is model-checked; SampleTrace.tla validates what was delivered."""
import random
from prog import *
import runs


def schedule(r, out):
    """environment for the recorder: slow or late threads, slow writer"""
    s = str(r.randrange(1, 10**6))
    return r.choice([
        {}, {"FSREC_DELAY": "%s:15" % out, "FSREC_SEED": s}, {"FSREC_START": "0:300", "FSREC_SEED": s},
        {"FSREC_START": "1:600", "FSREC_SEED": s}, {"FSREC_START": "2:500,3:100", "FSREC_SEED": s},
        {"FSREC_JITTER": "3000", "FSREC_SEED": s}, {"FSREC_DELAY": "%s:40" % out, "FSREC_START": "0:200", "FSREC_SEED": s}])


def layout(r, what, **kw):
    L, s = {"full2": (2, 2), "full4": (4, 4), "sub3": (4, 3), "plain": (r.choice([6, 8, 12]), r.choice([3, 5, 6]))}[what]
    dt = r.choice([0.0625, 0.125, 0.25])
    v = lambda a: [round(r.uniform(-a, a), 3) for _ in range(3)]
    c = dict(BASE, hsize=L, ssize=s, dt=dt, tau=dt * r.choice([2, 4, 5]), t=dt * r.choice([4, 10, 33]), trel=r.choice([0.0, 0.0, dt * 3]),
             drive=r.choice(["xyplane", "xyelliptic", "uniaxial", "staticfield", "none"]), hs=v(1.0), hfield=v(1.0),
             e=round(r.uniform(0.1, 0.9), 3), offset=r.choice([0, 3]))
    c["lambda"] = r.choice([1.0, 0.4, -0.5])
    if what == "plain":
        c.update(jvar=0.1, hvar=0.1)
    if r.random() < 0.35 and what == "full2":
        c.update(drive="none", hs=[0.0] * 3, hfield=[0.0] * 3)
        c["lambda"] = 1.0
    c.update(kw)
    return c


def invoke(scbin, so, d, kind, c, args, want, r, env, cold=None, taus=(), timeout=200, extra=()):
    """one invocation; returns the events for the files it appends to"""
    os.makedirs(d)
    with open(os.path.join(d, "config.toml"), "w") as f:
        f.write(toml_text(c))
    out = {"mc": "mc_live.dat", "full": "mc_live.dat", "hist_mc": "hist_mc.dat", "hist_dyn": "hist_dyn.dat",
           "magnus": "hist_mc_magnus.dat", "dynhist": "dyn-hist-t-%s.dat" % fmt(c["t"]), "traj": "hist-st-t-%s.dat" % fmt(c["t"]),
           "scan": "evt%s.dat" % (args[args.index("--steps") + 1] if "--steps" in args else "1000")}
    outs = [(kind, out[kind])] + [(k, out[k]) for k in extra]
    old = {}
    for _, o in outs:
        old[o] = "".join("old %d\n" % i for i in range(3)) if r.random() < 0.5 else ""
        if old[o]:
            with open(os.path.join(d, o), "w") as f:
                f.write(old[o])
    a = list(args) + (["-b", repr(cold)] if cold else [])
    p = run(scbin, d, a, so, env, timeout, r.randrange(1, 10**6))
    b = repr(float(cold)) if cold else "1.0"
    avg = []
    for n in ("mx", "my", "mz", "ed"):
        m = re.search(r"^%s: (\S+)$" % n, p.out, re.M)
        if m:
            avg.append(m.group(1))
    evs = []
    for k, o in outs:
        try:
            txt = open(os.path.join(d, o)).read()
        except OSError:
            txt = ""
        kept = txt.startswith(old[o])
        new = txt[len(old[o]):] if kept else txt
        rec = [l.split(" ") for l in new.split("\n")[:-1]] if new.endswith("\n") else [l.split(" ") for l in new.split("\n")] if new else []
        evs.append({"e": "sample", "kind": k, "c": {x: plain(y) for x, y in c.items()}, "want": want, "kept": kept,
                    "nl": new == "" or new.endswith("\n"), "rec": rec, "rc": p.rc, "hung": p.hung, "cold": bool(cold), "b": b,
                    "taus": [repr(float(t)) for t in taus], "avg": avg, "args": a, "sched": env, "err": p.err[-200:]})
    shutil.rmtree(d)
    os.remove(p.log) if os.path.exists(p.log) else None
    return evs


def fmt(x):
    return str(int(x)) if x == int(x) else repr(x)


def c19():
    ck = Check("C19", "model_checking")
    ck.assumptions = ["schedules of the real threads are forced by delays, not enumerated; the model enumerates them"]
    scbin, so = build_all()
    model(ck, "Sampling", [("Join = TRUE", "Join = FALSE"), ("Last = TRUE", "Last = FALSE"), ("One = TRUE", "One = FALSE")])
    r = random.Random("C19/%d" % ck.seed)
    jobs = []
    grid = [(0, 1), (0, 3), (1, 1), (1, 4), (2, 3), (3, 2), (5, 2), (5, 3), (7, 4), (4, 8), (6, 6), (8, 5), (9, 2)]
    rep = 1 if not ck.thorough else 8

    def job(kind, c, args, want, cold=None, taus=(), extra=(), timeout=200):
        rr = random.Random(r.getrandbits(64))
        out = {"mc": "mc_live", "full": "mc_live", "dynhist": "dyn-hist", "traj": "hist-st", "scan": "evt"}.get(kind, "hist")
        jobs.append((kind, c, args, want, rr, schedule(rr, out), cold, taus, extra, timeout))
    for _ in range(rep):
        for pts, thr in grid:
            for kind, fl in (("mc", ["-m"]), ("full", ["--monte-carlo-magnus"])):
                c = layout(r, r.choice(["full2", "full4", "sub3", "plain"]), threads=thr, mc_points=pts)
                job(kind, c, fl, pts)
            c = layout(r, r.choice(["full2", "full2", "plain"]), threads=thr)
            job("dynhist", c, ["-d", str(pts)], pts)
            if 0 < pts < 6 or ck.thorough and pts:
                c = layout(r, "full2", threads=thr)
                taus = [round(0.25 + 0.5 * i + r.uniform(0, 0.2), 3) for i in range(pts)]
                job("scan", c, ["-n", ",".join(map(str, taus)), "--steps", "2"], pts, taus=taus)
        for n in (0, 1, 2, 5, 12):
            job("traj", layout(r, r.choice(["full2", "full2", "plain"])), ["-s", str(n)], n)
            job("magnus", layout(r, r.choice(["full2", "sub3", "plain"])), ["--magnus-hist=%d" % n], n)
        job("scan", layout(r, "full2", threads=2), ["-n", "0.5", "-n", "1.5", "--steps", "1"], 2, taus=[0.5, 1.5])
        # periods that are no whole number of steps in floating point
        c = layout(r, "full2", dt=0.1, tau=0.3, t=0.7, trel=0.0)
        job("traj", c, ["-s", "7"], 7)
        c = layout(r, "full2", dt=0.1, tau=0.6, t=0.3, trel=0.2)
        job("traj", c, ["-s", "3"], 3)
        # low temperature: the samples are those of the mode's own ensemble
        f = dict(drive="none", hs=[0.0, 0.0, 1.0], hfield=[0.0, 0.0, 1.0], trel=0.0, ednsty=-0.3, beta=0.1)
        for kind, fl, n, b in (("mc", ["-m"], 12, 60.0), ("full", ["--monte-carlo-magnus"], 12, 60.0), ("magnus", ["--magnus-hist=24"], 24, 20.0),
                               ("dynhist", ["-d", "20"], 20, 50.0)):
            c = layout(r, "full2", **f)
            c.update(threads=4, mc_points=n)
            c["lambda"] = 1.0
            c["tau"] = 1e-3 if kind == "full" else 1.0
            if kind == "dynhist":
                c.update(hs=[0.0] * 3, hfield=[0.0] * 3)
            job(kind, c, fl, n, cold=b)
        # equilibrium histogram: needs a large chain to find its initial state
        c = layout(r, "plain", hsize=2048, ssize=4, jvar=0.0, hvar=0.0, hs=[0.0] * 3, hfield=[0.0] * 3, ednsty=-0.02, dt=0.125)
        c["lambda"] = 1.0
        n = 2 if not ck.thorough else 4
        job("hist_mc", c, ["--histogram=%d" % n], n, extra=("hist_dyn",), timeout=600)
    res = [None] * len(jobs)
    order = sorted(range(len(jobs)), key=lambda i: 0 if jobs[i][0] in ("hist_mc", "scan") else 1)

    def go(i):
        kind, c, args, want, rr, env, cold, taus, extra, timeout = jobs[i]
        t0 = time.time()
        res[i] = invoke(scbin, so, os.path.join(ck.out, "s%d" % i), kind, c, args, want, rr, env, cold, taus, timeout, extra)
        if os.environ.get("VERBOSE"):
            say("%.1f" % (time.time() - t0), kind, args, env)
    pool(go, order)
    tr = os.path.join(ck.out, "trace.nd")
    with open(tr, "w") as fh:
        for evs in res:
            for e in evs:
                fh.write(json.dumps(e) + "\n")
    v = validate(tr, "SampleTrace")
    ck.take_validation(tr, v, "SampleTrace", "output files of the program under shims/fsrec")
    ck.cov["invocations"] = len(jobs)
    for i in (0, 7, 20):
        e = res[i][0]
        ck.sample({"kind": e["kind"], "args": e["args"], "threads": e["c"]["threads"], "schedule": e["sched"], "records": len(e["rec"])})
    return ck.finish()
