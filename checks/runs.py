"""C15: numbered batches across crashes, restarts and schedules.

RunsMC.tla is model-checked; then histories of real invocations (killed at chosen file operations, with delayed threads)
are recorded and validated by RunsTrace.tla."""
import random
from prog import *

FLAG = {"default": [], "ext": ["-e"], "langevin": ["-l", "0.5"], "response": ["--response"], "profile": ["-P"]}
BATCH = list(FLAG)
SAMPLING = [["-a"], ["--two-point"], ["--config-desc"], ["-m"], ["-p"], ["--monte-carlo-magnus"], ["-d", "3"], ["-s", "2"],
            ["--magnus-hist=3"], ["-H", "-0.5"], ["-f", "-0.5"], ["-D", "1.5"]]
SLOW = [["-A", "1.5"], ["-F", "-0.5"], ["-r", "-0.5"], ["-E", "0.4"]]


def logname(prefix):
    return re.compile("^" + re.escape(prefix) + r"(\d+)\.dat$")


class History:
    def __init__(self, scbin, so, d, cfg, finished):
        self.scbin, self.so, self.d = scbin, so, d
        self.ev = []
        self.wd = os.path.join(d, "w")
        os.makedirs(self.wd)
        self.prefix = cfg["file"] if cfg else "log"
        self.re = logname(self.prefix)
        sub = os.path.dirname(self.prefix)
        if sub:
            os.makedirs(os.path.join(self.wd, sub))
        logs = []
        for i, text in finished:
            p = "%s%d.dat" % (self.prefix, i)
            with open(os.path.join(self.wd, p), "w") as f:
                f.write(text)
            if cfg and i < cfg["offset"]:          # later ones are left-overs of an interrupted batch
                logs.append([i, digest(text.encode())])
        if cfg:
            with open(os.path.join(self.wd, "config.toml"), "w") as f:
                f.write(toml_text(cfg))
        self.ev.append({"e": "disk", "has": bool(cfg), "cfg": parse_cfg(toml_text(cfg)) if cfg else {"offset": 0},
                        "logs": logs})
        self.note = []

    def edit(self, **kw):
        """the user changes config.toml between two invocations"""
        p = os.path.join(self.wd, "config.toml")
        try:
            c = tomllib.load(open(p, "rb"))
        except (OSError, ValueError):
            return
        c.update(kw)
        with open(p, "w") as f:
            f.write(toml_text(c))
        self.ev.append({"e": "edit", "cfg": parse_cfg(toml_text(c))})

    def cfgstate(self, content):
        b = content.get("config.toml")
        if b is None:
            return {"ok": False, "absent": True, "kv": {"offset": 0}}
        kv = parse_cfg(b.decode("utf-8", "replace"))
        return {"ok": kv is not None, "absent": False, "kv": kv or {"offset": 0}}

    def start(self, parts, args, over=None, crash=None, partial=False, env=None, seed=1, timeout=120):
        """parts: modes in the order the program performs them; crash: the operation not performed any more, its number
        or (file name part, number among the operations on such files)."""
        content = files(self.wd)
        e = dict(env or {})
        if crash:
            if isinstance(crash, tuple):
                e["FSREC_CRASHNEAR"] = "%s:%d" % crash
            else:
                e["FSREC_CRASH"] = str(crash)
            if partial:
                e["FSREC_PARTIAL"] = "1"
        r = run(self.scbin, self.wd, args, self.so, e, timeout, seed)
        self.note.append("%s%s" % (" ".join(args) or "(default)", " killed at operation %s%s" % (crash, "/half" if partial else "") if crash else ""))
        self.ev.append({"e": "start", "parts": parts, "over": {k: plain(v) for k, v in (over or {}).items()},
                        "args": list(args)})
        seen = {}

        def logev(path, force=False):
            m = self.re.match(path)
            if not m:
                return
            b = content.get(path)
            now = (-1, True) if b is None else (b.count(b"\n"), b == b"" or b.endswith(b"\n"))
            if force or seen.get(path) != now:
                seen[path] = now
                self.ev.append({"e": "log", "i": int(m.group(1)), "n": now[0], "whole": now[1]})
        dirty = {}                            # logs written to since the last other operation: one event for all of it

        def flush():
            for p in list(dirty):
                logev(p)
            dirty.clear()
        oplist = ops(r)
        for q, tid, op, x, path, arg, data in oplist:
            if op == "write" and arg != "at" and self.re.match(path):
                b = content.get(path, b"")
                if not isinstance(b, bytearray):
                    b = content[path] = bytearray(b)
                b += data
                if b"\n" in data:
                    dirty[path] = True
                continue
            flush()
            before = content.get("config.toml")
            touched = [path]
            if op == "open":
                if x < 0:
                    continue
                if arg == "trunc" or path not in content:
                    content[path] = b""
            elif op == "write":
                b = content.get(path, b"")
                if arg == "at":
                    b = b[:x].ljust(x, b"\0") + data + b[x + len(data):]
                else:
                    b += data
                content[path] = b
            elif op in ("rename", "link"):
                if x != 0:
                    continue
                touched = [path, arg]
                if path in content:
                    content[arg] = bytes(content[path])
                    if op == "rename":
                        content.pop(path)
            elif op == "unlink":
                if x != 0:
                    continue
                content.pop(path, None)
            elif op == "truncate":
                content[path] = content.get(path, b"")[:x].ljust(x, b"\0")
            for p in touched:
                if self.re.match(p) and (op != "write" or b"\n" in data):
                    logev(p, op != "write")
            if content.get("config.toml") != before or (op == "open" and "config.toml" in touched and arg == "trunc"):
                for p in list(content):
                    if p in seen:
                        logev(p)
                self.ev.append(dict({"e": "cfg"}, **self.cfgstate(content)))
        flush()
        disk = files(self.wd)
        logs = [[int(self.re.match(p).group(1)), digest(b)] for p, b in sorted(disk.items()) if self.re.match(p)]
        for p in sorted(disk):
            if p in seen:
                content[p] = disk[p]
                logev(p)
        crashed = bool(crash) and r.rc == 137
        self.ev.append(dict({"e": "end", "rc": r.rc, "crash": crashed, "hung": r.hung, "logs": logs}, **self.cfgstate(disk)))
        self.err = r.err[-300:]
        return len(oplist), r

    def done(self):
        shutil.rmtree(self.d)


def base(r, **kw):
    c = dict(BASE, t=r.choice([1.0, 1.5, 2.0]), tau=0.5, dt=0.25, hsize=r.choice([2, 4, 6]), threads=r.choice([1, 2, 3]),
             file=r.choice(["log", "run-", "d/x", "a.b_", "x[1]"]), jvar=r.choice([0.0, 0.01]),
             drive=r.choice(["xyplane", "uniaxial", "none", "staticfield"]), trel=r.choice([0.0, 0.0, 1.0]),
             strob=r.random() < 0.4, ednsty=r.choice([-0.66, -0.3]))
    c["ssize"] = c["hsize"] if c["hsize"] == 2 or r.random() < 0.5 else 4
    c.update(kw)
    return c


def old_logs(r, n):
    return [(i, "".join("%d %f\n" % (k, r.random()) for k in range(r.randrange(1, 5)))) for i in range(n)]


def parts_of(mode, n=0):
    return [{"mode": mode, "n": n}] if mode in BATCH + ["scan"] else []


def overrides(r, mode):
    args, over = [], {}
    if r.random() < 0.3 and mode != "response":
        over["tau"] = 0.75
        args += ["-t", "0.75"]
    if r.random() < 0.3:
        over["beta"] = 1.25
        args += ["-b", "1.25"]
    return args, over


def crash_histories(scbin, so, mode, k, r, thorough):
    """B (a batch of the mode) killed at operation chosen by k, then C, another batch; then a sampling invocation."""
    def make(d, points):
        o = r.choice([0, 1, 9, 10])
        runs = r.choice([1, 1, 2])
        cfg = base(r, offset=o, runs=runs)
        h = History(scbin, so, d, cfg, old_logs(r, o))
        a, over = overrides(r, mode)
        args = FLAG[mode] + a
        at, part = {"none": (None, False), "first": (1, False), "open": (runs + 1, False),
                    "mid": (runs + r.randrange(2, 60), r.random() < 0.5),
                    "cfg1": (("config.toml", 1), False), "cfg2": (("config.toml", 2), False),
                    "half": (("config.toml", 2), True), "cfg3": (("config.toml", 3), False)}[k]
        h.start(parts_of(mode), args, over, crash=at, partial=part, seed=r.randrange(1, 9999), env={} if at else jitter(r))
        m2 = r.choice(["default", "default", "ext", "langevin"])
        a2, over2 = overrides(r, m2)
        h.edit(t=1.0, runs=1)
        h.start(parts_of(m2), FLAG[m2] + a2, over2, seed=7)
        return h
    return make


def other_history(scbin, so, args, r):
    def make(d, points):
        o = r.choice([0, 2, 3])
        h = History(scbin, so, d, base(r, offset=o, runs=2, file="log" if r.random() < 0.5 else "x"), old_logs(r, o + 2))
        pts = []
        # logs beyond the offset are those of an interrupted batch: sampling must not touch them either
        if args[0] == "-n":
            pts = parts_of("scan", len(args[1].split(",")))
        h.start(pts, args, seed=3, timeout=300)
        h.edit(runs=1)
        h.start(parts_of("default"), [], seed=4)
        return h
    return make


def combo_history(scbin, so, modes, args, r):
    def make(d, points):
        o = r.choice([0, 3])
        h = History(scbin, so, d, base(r, offset=o, runs=r.choice([1, 2]), hsize=4, ssize=4), old_logs(r, o))
        h.start([{"mode": m, "n": 0} for m in modes], args, seed=3)
        h.edit(t=1.0, runs=1)
        h.start(parts_of("default"), [], seed=4)
        return h
    return make


# modes that neither number runs nor change the configuration for those performed after them, in the program's order
PLAIN = [["--config-desc"], ["-d", "3"], ["-s", "2"], ["-a"], ["--two-point"], ["-m"], ["-p"], ["--monte-carlo-magnus"]]


def together(r, n):
    """invocations asking for several modes at once: every pair of neighbours in some order, and some batch modes"""
    pairs = [(a, b) for i, a in enumerate(PLAIN) for b in PLAIN[i + 1:]]
    r.shuffle(pairs)
    todo = [((), list(x)) for x in pairs[:n]]
    todo.append(((), [["-a"], ["--two-point"]]))
    for i, mode in enumerate(("ext", "langevin", "response", "profile")):
        todo.append(((mode,), r.sample(PLAIN, 2) + [FLAG[mode]]))
    out = []
    for modes, a in todo:
        r.shuffle(a)
        out.append((list(modes), sum(a, [])))
    return out


def fresh_history(scbin, so, args, crash, partial):
    def make(d, points):
        h = History(scbin, so, d, None, [])
        h.start([], args, crash=crash, partial=partial)
        h.start([], args)
        return h
    return make


def schedule_history(scbin, so, mode, runs, threads, r):
    def make(d, points):
        o = r.choice([0, 4])
        cfg = base(r, offset=o, runs=runs, threads=threads, log=(r.random() < 0.75 or mode == "langevin"))
        h = History(scbin, so, d, cfg, old_logs(r, o))
        h.start(parts_of(mode), FLAG[mode], seed=r.randrange(1, 9999), env=jitter(r))
        return h
    return make


def jitter(r):
    return r.choice([{}, {"FSREC_JITTER": "300", "FSREC_SEED": "%d" % r.randrange(1, 99999)},
                     {"FSREC_START": "0:400", "FSREC_SEED": "%d" % r.randrange(1, 99999)},
                     {"FSREC_START": "%d:700" % r.randrange(1, 5), "FSREC_JITTER": "100"}])


def c15():
    ck = Check("C15", "model_checking")
    ck.assumptions = ["a crash is the death of the process between (or inside) two file operations; what the kernel wrote stays",
                      "crash points, schedules and invocation sequences of the real program are sampled around those the model exhausts"]
    scbin, so = build_all()
    model(ck, "RunsMC", [("Atomic = TRUE", "Atomic = FALSE"), ("Early = FALSE", "Early = TRUE")])
    r = random.Random("C15/%d" % ck.seed)

    def rr():
        return random.Random(r.getrandbits(64))
    todo = []
    crashes = ["none", "first", "open", "mid", "cfg1", "cfg2", "half", "cfg3"]
    for rep in range(1 if not ck.thorough else 6):
        for mode in BATCH:
            for k in crashes:
                if not ck.thorough and k in ("first", "open", "none", "cfg1") and r.random() < 0.5:
                    continue
                todo.append((mode + " killed: " + k, crash_histories(scbin, so, mode, k, rr(), ck.thorough)))
        for a in SAMPLING + [["-n", "1.5"], ["-n", "1", "--steps", "3"]] + (SLOW if ck.thorough and rep == 0 else []):
            todo.append(("other " + " ".join(a), other_history(scbin, so, a, rr())))
        for modes, a in ((["ext", "default"], None), (["ext", "response"], ["-e", "--response"]),
                         (["langevin", "response"], ["-l", "0.5", "--response"]), (["ext"], ["-e", "-m"]),
                         (["profile"], ["-P", "-p"]), (["ext", "profile"], ["-e", "-P"])):
            if a:
                todo.append(("several modes " + " ".join(a), combo_history(scbin, so, modes, a, rr())))
        for modes, a in together(rr(), 8 if not ck.thorough else 12):
            todo.append(("several modes " + " ".join(a), combo_history(scbin, so, modes, a, rr())))
        for mode in BATCH:
            for runs, thr in r.sample([(0, 2), (1, 4), (2, 1), (3, 2), (4, 3), (5, 2), (5, 8)], 2 if not ck.thorough else 5):
                todo.append(("%s %d runs %d threads" % (mode, runs, thr), schedule_history(scbin, so, mode, runs, thr, rr())))
        for a in (["--config-desc"], ["-a"]):
            for at, part in ((1, False), (2, False), (2, True), (3, False), (None, False)):
                todo.append(("fresh", fresh_history(scbin, so, a, at, part)))
    ck.cov["histories"] = len(todo)
    traces = [None] * len(todo)

    def go(i):
        name, mk = todo[i]
        d = os.path.join(ck.out, "h%d" % i)
        t0 = time.time()
        h = mk(d, None)
        traces[i] = (name, h)
        if os.environ.get("VERBOSE"):
            say("%.1f" % (time.time() - t0), name, h.note)
        shutil.rmtree(d, ignore_errors=True)
        if i in (1, 12, 30):
            ck.sample("%s: %s" % (name, "; ".join(h.note)))
        ck.add("invocations", len(h.note))

    pool(go, range(len(todo)))
    shards = 8
    def shard(s):
        tr = os.path.join(ck.out, "trace-%d.nd" % s)
        with open(tr, "w") as f:
            for i in range(s, len(todo), shards):
                for ev in traces[i][1].ev:
                    if ev["e"] == "start":
                        ev["history"] = traces[i][0]
                    f.write(json.dumps(ev) + "\n")
        res = validate(tr, "RunsTrace")
        ck.take_validation(tr, res, "RunsTrace", "the program under shims/fsrec")
        ck.cov["traces_validated_against_impl"] += len(range(s, len(todo), shards)) - 1
    pool(shard, range(shards))
    return ck.finish()
