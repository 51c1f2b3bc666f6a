"""Shared machinery of the checks: building, recording, TLC, evidence, verdicts."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness"), os.path.join(VERIF, "shims")):
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x != "target"]
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml",)]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(bins):
    """Builds the harness binaries from /repo's working tree; returns their paths."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "tree.stamp")
    now = tree_hash()
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    man = os.path.join(VERIF, "harness", "Cargo.toml")
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != now:
        # do not rely on file times: forget what was built from another tree
        subprocess.run(["cargo", "clean", "--offline", "--release", "-p", "sc", "-p", "harness", "--manifest-path",
                        man, "--target-dir", TARGET], env=env, capture_output=True)
        with open(stamp, "w") as f:
            f.write(now)
    cmd = ["cargo", "build", "--release", "--offline", "--manifest-path", man, "--target-dir", TARGET]
    for b in bins:
        cmd += ["--bin", b]
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build against /repo:\n" + r.stderr[-4000:])
    if tree_hash() != now:
        raise ToolError("the tree changed while it was being built")
    return [os.path.join(TARGET, "release", b) for b in bins]


def java_overrides():
    out = os.path.join(TARGET, "java")
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["javac", "-cp", TLA, "-d", out, os.path.join(SPEC, "F64.java")],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("javac failed: " + r.stderr)
    return out


def gcc(src, out, flags=()):
    r = subprocess.run(["gcc", "-O2", "-o", out, src, *flags], capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("gcc failed: " + r.stderr)
    return out


# ---------------------------------------------------------------- TLC
def tlc(module, meta, env=None, cfg=None, workers=1, timeout=600, mem="3g", args=(), spec_dir=SPEC):
    """Runs TLC; returns (exit code, output)."""
    jc = os.path.join(TARGET, "java")
    if not os.path.exists(os.path.join(jc, "F64.class")):
        java_overrides()
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + mem,
           "-Djava.io.tmpdir=" + meta, "-cp",
           ":".join([jc, TLA, CM]), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-lncheck", "final", "-config", cfg or module + ".cfg", *args, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=spec_dir, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s did not finish in %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


REJ = re.compile(r'^"?REJECT (\d+) (\S+) (\{.*\})"?$')


def validate(trace, module="LibTrace", timeout=800, mem="3g", env=None):
    """Trace validation.  Returns dict(events, states, rejects=[(line, event, clauses)])."""
    n = sum(1 for _ in open(trace))
    if n == 0:
        raise ToolError("empty trace " + trace)
    rc, out = tlc(module, trace + ".meta", env=dict(env or {}, TRACE=os.path.abspath(trace)), timeout=timeout,
                  mem=mem)
    rej = []
    for line in out.splitlines():
        m = REJ.match(line.strip())
        if m:
            names = sorted(set(re.findall(r'[A-Za-z][\w-]+', m.group(3))))
            rej.append((int(m.group(1)), m.group(2), names))
    gen, dist = stats(out)
    done = ('VALIDATED %d' % n) in out and rc == 0
    if not done:
        # an event whose fields the specification cannot even evaluate is not a step it allows
        if re.search(r"evaluat|Attempted to|[Ii]ndex|not in the domain|overridden value|out of bounds|FVal", out) \
                and "OutOfMemory" not in out and "StackOverflow" not in out and "Parsing or semantic" not in out:
            st = [int(x) for x in re.findall(r"/\\ l = (\d+)", out)]
            at = max(st) if st else max([r[0] for r in rej] + [0]) + 1
            ev = "?"
            with open(trace) as f:
                for i, l in enumerate(f, 1):
                    if i == at:
                        ev = json.loads(l).get("e", "?")
            rej.append((at, ev, ["not-evaluable"]))
            with open(trace + ".tlc.txt", "w") as f:
                f.write(out)
        else:
            raise ToolError("TLC failed on %s (%s):\n%s" % (trace, module, out[-3000:]))
    return {"events": n, "states": dist, "transitions": gen, "rejects": rej, "done": done}


# ---------------------------------------------------------------- a check run
class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.violations = []          # (key, text, detail)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.clauses = {}
        self.assumptions = []
        self.known = load_known(pid)

    def violate(self, key, text, detail=None):
        self.violations.append((key, text, detail))

    def sample(self, x, limit=8):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def add(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def take_validation(self, trace, res, module, how):
        self.add("traces_validated_against_impl")
        self.add("events_validated", res["events"])
        self.add("states", res["states"])
        self.add("transitions", res["transitions"])
        for at, ev, names in res["rejects"][:200]:
            line = ""
            with open(trace) as f:
                for i, l in enumerate(f, 1):
                    if i == at:
                        line = l
                        break
            self.violate("%s:%s" % (ev, ",".join(names)),
                         "event %d (%s) of %s is no step of %s: %s" % (at, ev, trace, module, ", ".join(names)),
                         {"module": module, "trace": trace, "line": at, "event": ev, "clauses": names,
                          "recorded_by": how, "record": line[:20000]})

    def finish(self):
        fresh = []
        seen_known = set()
        for key, text, detail in self.violations:
            k = next((x for x in self.known if re.search(x["match"], key + " " + text)), None)
            if k:
                seen_known.add(k["what"])
            else:
                fresh.append((key, text, detail))
        for k in self.known:
            say("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        if not ev["coverage"]["samples"]:
            ev["coverage"]["samples"] = ["none"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        if not fresh:
            say("%s: held on everything explored (%s, %.1f s): %s" % (
                self.pid, self.tier, time.time() - self.t0,
                {k: v for k, v in self.cov.items() if k != "samples"}))
            return 0
        rp = os.path.join(self.out, "violation.json")
        with open(rp, "w") as f:
            json.dump([{"key": k, "what": t, "detail": d} for k, t, d in fresh[:50]], f, indent=1)
        for k, t, d in fresh[:5]:
            say("  " + t[:600])
        say("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1


def load_known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append({"match": m.group(2), "what": m.group(3)})
    except OSError:
        pass
    return out


def pool(fn, items, n=None):
    with cf.ThreadPoolExecutor(max_workers=n or CPUS) as ex:
        return list(ex.map(fn, items))


def model(ck, module, wrong=(), deeper=()):
    """Exhaustive check of a model; the deliberately wrong variants must be refuted."""
    def go(v):
        name = "%s-%s" % (module, v[0] if v else "right")
        cfg = open(os.path.join(SPEC, module + ".cfg")).read()
        if v:
            if v[0] not in cfg:
                raise ToolError("no such variant " + v[0])
            cfg = cfg.replace(v[0], v[1])
        if ck.thorough and not v:
            cfg = re.sub(r"MaxRuns = \d+", "MaxRuns = 3", cfg)
            cfg = re.sub(r"MaxPoints = \d+", "MaxPoints = 7", cfg)
            for a, b in deeper:
                cfg = cfg.replace(a, b)
        p = os.path.join(ck.out, name.replace(" ", "") + ".cfg")
        with open(p, "w") as f:
            f.write(cfg)
        rc, out = tlc(module, p + ".meta", cfg=p, workers=CPUS if not v else 1, timeout=850, mem="8g" if not v else "2g")
        if v:
            if not re.search(r"(is|was|were) violated", out):
                raise ToolError("%s does not refute %s:\n%s" % (module, v[1], out[-2000:]))
            ck.add("wrong_variants_refuted")
            return
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("%s does not hold:\n%s" % (module, out[-3000:]))
        g, d = stats(out)
        ck.add("states", d)
        ck.add("transitions", g)
        ck.cov["model_states_" + module] = d
    pool(go, [None] + list(wrong))
