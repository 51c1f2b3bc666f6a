"""C21: temperature fits.  Bisect.tla is model-checked; FitTrace.tla validates the program's brackets, estimates and records."""
import random
from prog import *
import runs

OUT = {"f": "betat.dat", "F": "betat.dat", "H": "betat.dat", "D": "beta.dat", "A": "beta.dat", "r": "betat-rot.dat", "E": "betat-maglab.dat"}


def invoke(scbin, so, d, job, r):
    kind, c, target, b, tau = job["kind"], job["c"], job["target"], job["b"], job["c"]["tau"]
    os.makedirs(d)
    a = ["-" + kind, repr(tau if kind in "DA" else target)]
    cc = dict(c)
    if kind in "DA":
        cc["tau"] = 1.7                     # overridden
        if kind == "D":
            cc["ednsty"] = target
    elif r.random() < 0.5:
        cc["tau"] = 1.7
        a = ["-t", repr(tau)] + a
    if r.random() < 0.5:
        a += ["-b", repr(b)]
        cc["beta"] = 1.234
    else:
        cc["beta"] = b
    with open(os.path.join(d, "config.toml"), "w") as f:
        f.write(toml_text(cc))
    o = os.path.join(d, OUT[kind])
    old = "0 1 2\n3 4 5\n" if r.random() < 0.5 else ""
    if old:
        with open(o, "w") as f:
            f.write(old)
    p = run(scbin, d, a, so, {}, job.get("timeout", 300), r.randrange(1, 10**6))
    steps = []
    w = re.findall(r"^low: (\S+), mid: (\S+), high: (\S+)$", p.out, re.M)
    e = re.findall(r"^elow: (\S+), emid: ?(\S+), ehigh: (\S+)$", p.out, re.M)
    if len(w) == len(e):
        steps = [list(x) + list(y) for x, y in zip(w, e)]
    if kind == "A":
        m = re.search(r"^Mean energy: (\S+)$", p.out, re.M)
        target = m.group(1) if m else None
    try:
        txt = open(o).read()
    except OSError:
        txt = ""
    kept = txt.startswith(old)
    rec = [l.split(" ") for l in (txt[len(old):] if kept else txt).split("\n") if l]
    if target is None:
        target = rec[0][7] if rec and len(rec[0]) > 7 else "0.0"
    ev = {"e": "fit", "kind": kind, "c": {k: plain(v) for k, v in c.items()}, "tau": repr(float(tau)), "target": target if isinstance(target, str) else repr(float(target)),
          "b": repr(float(b)), "steps": steps, "rec": rec, "kept": kept and txt.endswith("\n"), "rc": p.rc, "hung": p.hung, "args": a, "err": p.err[-200:]}
    shutil.rmtree(d)
    if os.path.exists(p.log):
        os.remove(p.log)
    return ev


def c21():
    ck = Check("C21", "model_checking")
    ck.assumptions = ["energies of the ensembles are exact for chains of two sites; for longer chains the bisection itself is checked",
                      "statistical accuracy: ten standard errors"]
    scbin, so = build_all()
    model(ck, "Bisect", [('Keep = "right"', 'Keep = "wrong"'), ('Stop = "end"', 'Stop = "early"')])
    r = random.Random("C21/%d" % ck.seed)
    jobs = []

    def add(kind, target, b, **kw):
        c = dict(BASE, hsize=2, ssize=2, threads=2, tau=round(r.uniform(2.5, 6.0), 3), drive="none")
        c["lambda"] = r.choice([1.0, 0.5, 1.0])
        c.update({k.replace("lam", "lambda"): v for k, v in kw.items()})
        jobs.append(dict(kind=kind, c=c, target=target, b=b))
    u = lambda a, b: round(r.uniform(a, b), 3)
    for rep in range(1 if not ck.thorough else 6):
        v = [u(-0.7, 0.7) for _ in range(3)]
        w = [u(-0.7, 0.7) for _ in range(3)]
        add("f", u(-0.9, -0.2), 1.5, hsize=6)
        add("f", u(-0.9, -0.2), 1.5)
        add("f", u(0.0, 0.4), 1.5, hfield=v, hs=w)
        add("F", u(-1.9, -0.8), 2.0)
        add("F", u(-1.5, -0.5), 2.0, ssize=1)
        add("F", u(-1.5, -0.5), 2.0, hfield=v, hs=w)
        add("D", u(-1.9, -0.8), 2.5)
        add("D", u(-1.5, -0.5), 0.7, ssize=1)
        add("H", -0.66, 1.1, hs=w)
        add("H", -0.1, u(0.2, 3.0))
        add("H", -0.3, u(0.2, 3.0), ssize=1, hs=w, hfield=v, tau=u(5, 14))
        add("A", None, 8.0, dt=0.05, tau=round(0.05 * r.randrange(40, 120), 3), runs=12)
        jobs[-1]["c"]["lambda"] = 1.0
        add("A", None, 1.0, dt=0.25, tau=0.25 * r.randrange(10, 20), runs=3, drive="xyplane", hfield=v, hs=w)
        add("A", None, 0.5, dt=0.1, tau=u(3, 5), runs=1, drive="uniaxial", hfield=w)
        dt = r.choice([0.1, 0.125, 0.2])
        tau = dt * r.randrange(14, 24)
        add("A", None, 40.0, dt=dt, tau=tau, runs=2, drive="xyplane", hfield=[0.0, 0.0, 6.283185307179586 / tau])
        jobs[-1]["c"]["lambda"] = 1.0
        add("r", u(-1.9, -0.8), 1.0, hs=w, hfield=v)
        add("r", u(-1.5, -0.5), 1.0, ssize=1)
        add("E", u(-0.9, -0.3), 1.0, hs=w, hfield=v, tau=u(5, 12))
        add("E", u(-0.9, -0.3), 1.0, ssize=1)
        # longer chains, disorder: the bisection itself
        add("f", u(-0.8, -0.3), 1.0, hsize=8, ssize=6, jvar=0.1, hvar=0.1)
        add("F", u(-0.8, -0.3), 1.0, hsize=8, ssize=3)
        add("D", u(-0.8, -0.3), 1.0, hsize=4, ssize=3, jvar=0.2)
        # targets out of reach
        add("f", -3.0, 1.0)
        add("D", 3.0, 1.0)
    res = [None] * len(jobs)
    seeds = [r.getrandbits(64) for _ in jobs]

    def go(i):
        t0 = time.time()
        res[i] = invoke(scbin, so, os.path.join(ck.out, "f%d" % i), jobs[i], random.Random(seeds[i]))
        if os.environ.get("VERBOSE"):
            say("%.1f" % (time.time() - t0), res[i]["args"], res[i]["rec"], len(res[i]["steps"]))
    pool(go, sorted(range(len(jobs)), key=lambda i: "rEAfFDH".index(jobs[i]["kind"])))
    trs = []
    for k in range(8):
        tr = os.path.join(ck.out, "trace%d.nd" % k)
        with open(tr, "w") as fh:
            for e in res[k::8]:
                fh.write(json.dumps(e) + "\n")
        trs.append(tr)
    for tr, x in zip(trs, pool(lambda tr: validate(tr, "FitTrace"), trs)):
        ck.take_validation(tr, x, "FitTrace", "standard output and records of the program")
    ck.cov["fits"] = len(jobs)
    ck.cov["bisection_steps"] = sum(len(e["steps"]) for e in res)
    for i in (0, 7, 14):
        ck.sample({k: res[i][k] for k in ("kind", "args", "rec")})
    return ck.finish()
