"""C16: log files of real runs, record by record, against RunTrace.tla."""
import random
from prog import *

LAYOUT = {"full2": (2, 2), "full4": (4, 4), "sub3": (4, 3)}
DRIVES = ["xyplane", "xyelliptic", "uniaxial", "staticfield", "none"]


def v3(r, a):
    return [round(r.uniform(-a, a), 3) for _ in range(3)]


def make_cfg(r, what, **kw):
    dt = r.choice([0.0625, 0.125, 0.25])
    k = r.choice([2, 3, 4, 8])
    tau = k * dt
    strob = r.random() < 0.5
    t = dt * r.choice([5, 8, 12]) if not strob else tau * r.choice([2, 3]) + dt * r.choice([0, 1])
    if r.random() < 0.25:                     # a step that is no binary fraction; the end does not fall on a step
        dt = r.choice([0.1, 0.07])
        tau = k * dt
        t = dt * r.choice([5, 9]) + 0.4 * dt
    trel = r.choice([0.0, 0.0, dt * r.choice([1, 3, 5]), tau * 2])
    if what == "plain":
        L = r.choice([4, 6, 8, 10])
        s = r.randrange(2, L + 1)
    else:
        L, s = LAYOUT[what]
    c = dict(BASE, hsize=L, ssize=s, t=t, dt=dt, tau=tau, strob=strob, trel=trel, offset=r.choice([0, 7]),
             runs=1, threads=r.choice([1, 2]), drive=r.choice(DRIVES), e=round(r.uniform(0.1, 0.95), 3),
             hs=v3(r, 1.0) if r.random() < 0.7 else [0.0] * 3, hfield=v3(r, 1.0) if r.random() < 0.6 else [0.0] * 3,
             ednsty=r.choice([-0.66, -0.3, -0.8]))
    c["lambda"] = r.choice([1.0, 1.0, 0.5, -0.3])
    if what == "plain":
        c["jvar"], c["hvar"] = r.choice([0.0, 0.1]), r.choice([0.0, 0.2])
    c.update(kw)
    return c


def lines(path):
    try:
        with open(path) as f:
            txt = f.read()
    except OSError:
        return None
    return [l.split(" ") for l in txt.split("\n")[:-1]], txt == "" or txt.endswith("\n")


def effective(c, over, mode, gamma=0.0):
    e = dict(c)
    if "tau" in over:
        e["tau"] = over["tau"]
    if mode == "langevin":
        e["hsize"] = e["ssize"]
    k = {x: plain(v) for x, v in e.items()}
    k["gamma"] = repr(float(gamma))
    if "beta" in over:
        k["beta"] = repr(float(over["beta"]))
    elif mode != "ext":
        k["beta"] = repr(solve(c["ednsty"]))
    return k


def solve(e):
    """inverse temperature of an energy density (only used for the boundary flux and the layout of the cases)"""
    import math
    a, b = 1e-9, 1e6
    for _ in range(200):
        m = math.sqrt(a * b)
        x = 1 / m - 1 / math.tanh(m)
        a, b = (m, b) if x > e else (a, m)
    return b


def run_case(ck, scbin, so, d, mode, what, c, over, gamma, args, seed):
    os.makedirs(d)
    with open(os.path.join(d, "config.toml"), "w") as f:
        f.write(toml_text(c))
    r = run(scbin, d, args, None, None, 200, seed)
    ev = []
    info = {"mode": mode, "args": args, "seed": seed}
    if r.rc != 0:
        ev.append({"e": "bad", "why": "program-hangs" if r.hung else "program-fails", "info": info, "err": r.err[-300:], "c": toml_text(c)})
        shutil.rmtree(d)
        return ev, []
    starts = []
    if mode == "scan":
        taus, steps = [float(x) for x in args[1].split(",")], int(args[3])
        got = lines(os.path.join(d, "evt%d.dat" % steps))
        got = got[0] if got else []
        for i, tau in enumerate(taus):
            cc = dict(c, tau=tau, dt=tau / 100 if tau < 10 else 0.1, t=steps * tau)
            ev.append({"e": "head", "mode": mode, "what": what, "c": effective(cc, over, mode), "info": info})
            x = lines(os.path.join(d, "log%d.dat" % (c["offset"] + i)))
            for l in (x[0] if x else []):
                ev.append({"e": "line", "x": l})
            if what == "full2" and x and x[0] and len(x[0][0]) == 13:
                starts.append([x[0][0][7:10], x[0][0][10:13]])
            mine = [l for l in got if l and num(l[0]) == tau]
            if len(mine) != 1:
                ev.append({"e": "bad", "why": "one-record-per-period"})
            else:
                ev.append({"e": "evt", "x": mine[0]})
            ev.append({"e": "done"})
        if len(got) != len(taus):
            ev.append({"e": "bad", "why": "one-record-per-period"})
    else:
        for i in range(c["runs"]):
            x = lines(os.path.join(d, "log%d.dat" % (c["offset"] + i)))
            ev.append({"e": "head", "mode": mode, "what": what, "c": effective(c, over, mode, gamma), "info": info})
            if x is None:
                ev.append({"e": "bad", "why": "no-log"})
                continue
            if not x[1]:
                ev.append({"e": "bad", "why": "broken-line"})
            for l in x[0]:
                ev.append({"e": "line", "x": l})
            ev.append({"e": "done"})
            k = x[0]
            if what == "full2" and mode != "langevin" and k and len(k[0]) == 13:
                starts.append([k[0][7:10], k[0][10:13]])
            if mode == "langevin" and len(k) > 1 and len(k[1]) == 8:
                starts.append(k[1][2])
    shutil.rmtree(d)
    return ev, starts


def num(s):
    try:
        return float(s)
    except ValueError:
        return None


def c16():
    ck = Check("C16", "model_checking")
    ck.assumptions = ["states are reconstructed from the records where these determine them (chains of two and four sites)",
                      "configurations and random streams are sampled"]
    scbin, so = build_all()
    r = random.Random("C16/%d" % ck.seed)
    rep = 1 if not ck.thorough else 8
    cases = []

    def add(mode, what, c, over=None, gamma=0.0, flags=(), group=None):
        over = over or {}
        a = list(flags)
        if "tau" in over:
            a += ["-t", repr(over["tau"])]
        if "beta" in over:
            a += ["-b", repr(over["beta"])]
        cases.append((mode, what, c, over, gamma, a, r.randrange(1, 10**6), group))
    FL = {"default": [], "response": ["--response"], "ext": ["-e"]}
    for _ in range(rep):
        for mode in ("default", "response", "ext"):
            for what in ("full2", "full4", "sub3", "sub3", "plain"):
                for strob in (False, True):
                    c = make_cfg(r, what)
                    c["strob"] = strob
                    if strob and r.random() < 0.3:
                        c["tau"] = c["dt"]           # a period of a single step
                    if what == "plain" and mode == "response" and r.random() < 0.5:
                        c.update(drive="none", hs=[0.0] * 3, hfield=[0.0] * 3, hvar=0.0)
                    over = {}
                    if r.random() < 0.35:
                        over["tau"] = c["dt"] * r.choice([2, 5, 6])
                    add(mode, what, c, over, flags=FL[mode])
        for L, s in ((2, 2), (6, 2), (4, 4), (8, 6)):
            for gamma in (0.0, 0.7):
                iso = r.random() < 0.6
                c = make_cfg(r, "plain", hsize=L, ssize=s, jvar=0.0, hvar=0.0)
                if iso:
                    c.update(drive="none", hs=[0.0] * 3, hfield=[0.0] * 3)
                    c["lambda"] = 1.0
                over = {"beta": 1.75} if r.random() < 0.4 else {}
                if r.random() < 0.3:
                    over["tau"] = c["dt"] * 3
                add("langevin", "plain", c, over, gamma, ["-l", repr(gamma)])
        c = make_cfg(r, "plain", hsize=2, ssize=2, jvar=0.0, hvar=0.0, drive="none", hs=[0.0] * 3, hfield=[0.0] * 3, strob=False)
        c["lambda"] = 1.0
        add("langevin", "plain", c, {}, 1.0, ["-l"])
        for what, taus, steps in (("full2", "1.0,0.25,12.0", 2), ("full2", "0.5", 4), ("plain", "2.0,0.3", 1)):
            c = make_cfg(r, what, trel=0.0)
            add("scan", what, c, {}, 0.0, ["-n", taus, "--steps", str(steps)])
        for mode in FL:
            c = make_cfg(r, "full4", dt=0.25, tau=0.25, t=1.5, strob=True)
            add(mode, "full4", c, {}, flags=FL[mode])
        # initial temperature in every mode
        for mode, fl in (("default", []), ("ext", ["-e"]), ("response", ["--response"]), ("scan", ["-n", "1.0,1.5,2.0", "--steps", "1"])):
            hot = r.random() < 0.5
            c = make_cfg(r, "full2", drive="none", hs=[0.0, 0.0, 2.0], hfield=[0.0, 0.0, 1.0], runs=3, trel=0.0,
                         beta=0.01 if not hot else 200.0, ednsty=-0.5)
            c["lambda"] = 1.0
            b = 150.0 if not hot else 0.01
            add(mode, "full2", c, {"beta": b}, 0.0, fl, ("cold" if not hot else "hot", b))
            if mode in ("default", "response"):
                c2 = dict(c, beta=0.01, ednsty=-0.99)
                add(mode, "full2", c2, {}, 0.0, fl, ("cold", solve(-0.99)))
            else:
                c2 = dict(c, beta=150.0, ednsty=-0.66)
                add(mode, "full2", c2, {}, 0.0, fl, ("cold", 150.0))
        for b, e in ((150.0, -0.3), (None, -0.99)):
            c = make_cfg(r, "plain", hsize=2, ssize=2, jvar=0.0, hvar=0.0, drive="none", hs=[0.0] * 3, hfield=[0.0] * 3,
                         runs=3, trel=0.0, beta=0.01, ednsty=e)
            c["lambda"] = 5.0
            add("langevin", "plain", c, {"beta": b} if b else {}, 0.7, ["-l", "0.7"], ("easy", b or solve(e)))
    res = [None] * len(cases)

    def go(i):
        mode, what, c, over, gamma, a, seed, group = cases[i]
        ev, starts = run_case(ck, scbin, so, os.path.join(ck.out, "r%d" % i), mode, what, c, over, gamma, a, seed)
        if group and starts:
            if group[0] == "easy":
                ev.append({"e": "easy", "c": effective(c, over, mode), "E": starts, "b": repr(float(group[1]))})
            else:
                ev.append({"e": "cold", "c": effective(c, over, mode), "S": starts, "b": repr(float(group[1])), "cold": group[0] == "cold"})
        res[i] = ev
    pool(go, range(len(cases)))
    shards = 8

    def shard(s):
        tr = os.path.join(ck.out, "trace-%d.nd" % s)
        with open(tr, "w") as f:
            for i in range(s, len(cases), shards):
                for e in res[i]:
                    f.write(json.dumps(e) + "\n")
        v = validate(tr, "RunTrace")
        ck.take_validation(tr, v, "RunTrace", "log files of the program")
    pool(shard, range(shards))
    ck.cov["runs_of_the_program"] = len(cases)
    for i in (0, 12, 33):
        ck.sample({"mode": cases[i][0], "layout": cases[i][1], "args": cases[i][5], "records": len(res[i]),
                   "first": res[i][1] if len(res[i]) > 1 else None})
    return ck.finish()
