"""C20: site profiles under forced schedules.  Profile.tla is model-checked; ProfileTrace.tla validates the profiles."""
import random
from prog import *
import runs, samples

MARKS = [500 * k for k in range(1, 9)]


def names(kind):
    return ["mc_profile.dat"] if kind == "mc" else ["dyn_profile-%d-tau.dat" % m for m in MARKS]


def invoke(scbin, so, d, job, r):
    kind, c, n, b = job["kind"], job["c"], job["n"], job["b"]
    os.makedirs(d)
    c = dict(c)
    c["mc_points" if kind == "mc" else "runs"] = n
    with open(os.path.join(d, "config.toml"), "w") as f:
        f.write(toml_text(c))
    if r.random() < 0.5:
        for o in names(kind):
            with open(os.path.join(d, o), "w") as f:
                f.write("".join("%d 9 9 9 9\n" % i for i in range(c["hsize"] + 3)))
    env = samples.schedule(r, "profile" if c["hsize"] < 100 else "nothing")
    p = run(scbin, d, ["-p" if kind == "mc" else "-P", "-b", repr(b)], so, env, job.get("timeout", 120), r.randrange(1, 10**6))
    fs, whole = [], True
    for o in names(kind):
        try:
            txt = open(os.path.join(d, o)).read()
        except OSError:
            continue
        whole = whole and txt.endswith("\n")
        fs.append([l.split(" ") for l in txt.split("\n")[:-1]])
    ev = {"e": "profile", "kind": kind, "c": {k: plain(v) for k, v in c.items()}, "n": n, "b": repr(float(b)), "files": fs, "whole": whole,
          "rc": p.rc, "hung": p.hung, "sched": env, "err": p.err[-200:]}
    for k in ("hot", "cold", "turn", "evolve"):
        ev[k] = bool(job.get(k))
    shutil.rmtree(d)
    if os.path.exists(p.log):
        os.remove(p.log)
    return ev


def c20():
    ck = Check("C20", "model_checking")
    ck.assumptions = ["schedules of the real threads are forced by delays, not enumerated; the model enumerates them"]
    scbin, so = build_all()
    model(ck, "Profile", [('Rule = "crossed"', 'Rule = "hit"'), ('Expect = "runs"', 'Expect = "threads"'), ('Every = "mark"', 'Every = "each"')])
    r = random.Random("C20/%d" % ck.seed)
    v = lambda a: [round(r.uniform(-a, a), 3) for _ in range(3)]
    jobs = []

    def add(kind, n, b, c, **kw):
        jobs.append(dict(kind=kind, n=n, b=b, c=c, **kw))
    for rep in range(1 if not ck.thorough else 8):
        # one sample: the state itself
        for L, s in ((2, 2), (4, 2), (10, 7), (64, 20)):
            c = dict(BASE, hsize=L, ssize=s, threads=r.choice([1, 3]), hs=v(1), hfield=v(1), hvar=r.choice([0.0, 0.2]))
            c["lambda"] = r.choice([1.0, 0.3, -0.8])
            add("mc", 1, r.choice([0.0, 0.5, 3.0]), c)
            c = dict(c, jvar=r.choice([0.3, 0.8]), hvar=0.2)
            add("mc", r.choice([1, 2]), r.choice([0.0, 0.5, 3.0]), c)
        # several samples at infinite temperature
        for n, t in ((2, 1), (3, 2), (4, 4), (5, 3), (6, 8), (7, 2), (8, 3), (9, 4), (12, 5)):
            c = dict(BASE, hsize=1600, ssize=400, threads=t, hs=v(1), hfield=v(1), jvar=r.choice([0.0, 0.1]), hvar=r.choice([0.0, 0.1]))
            c["lambda"] = r.choice([1.0, 1.0, 0.4])
            add("mc", n, 0.0, c, hot=True)
        # low temperature, each site in its own field
        for n, t, L, s in ((1, 1, 8, 3), (3, 2, 6, 4), (5, 4, 12, 5), (4, 3, 2, 1), (6, 2, 10, 1)):
            h1, h2 = v(1), v(1)
            c = dict(BASE, hsize=L, ssize=s, threads=t, hfield=[4.0 + h1[0], 2.0 + h1[1], h1[2]], hs=[-9.0 + h2[0], h2[1], 5.0 + h2[2]])
            c["lambda"] = r.choice([1.0, 0.5, -0.7])
            add("mc", n, 4000.0, c, cold=True)
        # dynamic profiles of a single run, drive and all
        for L, s, q, drive in ((2, 2, 2, "xyplane"), (4, 3, 2, "uniaxial"), (6, 2, 2.5, "xyelliptic"), (4, 1, 1.7, "staticfield"), (2, 1, 3, "none"), (8, 5, 2, "xyplane")):
            dt = r.choice([0.004, 0.005, 0.0078125])
            c = dict(BASE, hsize=L, ssize=s, dt=dt, tau=dt * q, trel=dt * r.choice([0, 0, 3, 7.5]), drive=drive, hs=v(1), hfield=v(1), e=0.6, threads=r.choice([1, 2]))
            c["lambda"] = r.choice([1.0, 0.4, -0.6])
            add("dyn", 1, r.choice([0.0, 1.0, 3.0]), c, evolve=True)
        # periods that are no whole number of steps, or are one only up to rounding; shorter than a step
        for tau, dt in ((0.3, 0.1), (0.7, 0.3), (0.25, 0.4), (0.1, 0.03)):
            c = dict(BASE, hsize=4, ssize=2, dt=dt, tau=tau, trel=r.choice([0.0, 0.25]), drive=r.choice(["none", "xyplane"]), hs=v(1), hfield=v(1), threads=3)
            add("dyn", r.choice([1, 2, 3]), 1.0, c)
        # several runs
        for n, t in ((3, 2), (4, 8), (5, 3)):
            c = dict(BASE, hsize=400, ssize=100, dt=0.1, tau=0.2, drive=r.choice(["none", "xyplane"]), hs=v(1), hfield=v(1), threads=t)
            c["lambda"] = 1.0
            add("dyn", n, 0.0, c, hot=True)
        for n in (1, 2):
            c = dict(BASE, hsize=6, ssize=4, dt=0.1, tau=0.2, drive="none", threads=2, jvar=0.6, hs=v(1), hfield=v(1))
            add("dyn", n, 1.0, c)
        # low temperature: stationary without a drive, turning at a known rate in an extra constant field
        c = dict(BASE, hsize=8, ssize=3, dt=0.02, tau=0.05, drive="none", hfield=[3.0, 1.0, 0.0], hs=[-5.0, 1.0, 4.0], threads=2)
        add("dyn", 2, 4000.0, c, cold=True)
        tau = 0.004
        c = dict(BASE, hsize=2, ssize=2, dt=tau / 2, tau=tau, trel=0.3, drive="staticfield", hfield=[0.0, 0.0, 1.5], hs=[0.4, 0.0, 0.0], threads=2)
        add("dyn", r.choice([1, 2]), 20000.0, c, turn=True)
    res = [None] * len(jobs)
    seeds = [r.getrandbits(64) for _ in jobs]

    def go(i):
        t0 = time.time()
        res[i] = invoke(scbin, so, os.path.join(ck.out, "p%d" % i), jobs[i], random.Random(seeds[i]))
        if os.environ.get("VERBOSE"):
            say("%.1f" % (time.time() - t0), {k: x for k, x in jobs[i].items() if k != "c"})
    pool(go, sorted(range(len(jobs)), key=lambda i: (jobs[i]["kind"] == "mc", -jobs[i]["n"])))
    parts = 8 if len(res) >= 16 else 1
    trs = []
    for k in range(parts):
        tr = os.path.join(ck.out, "trace%d.nd" % k)
        with open(tr, "w") as fh:
            for e in res[k::parts]:
                fh.write(json.dumps(e) + "\n")
        trs.append(tr)
    for tr, x in zip(trs, pool(lambda tr: validate(tr, "ProfileTrace"), trs)):
        ck.take_validation(tr, x, "ProfileTrace", "profiles of the program under shims/fsrec")
    ck.cov["invocations"] = len(jobs)
    for i in (0, 6, 20):
        ck.sample({k: res[i][k] for k in ("kind", "n", "b", "sched", "hot", "cold", "evolve")})
    return ck.finish()
