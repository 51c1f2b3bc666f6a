"""C17, C18: every small set of log files (AvgMC.tla), averaged by the program, validated by AvgTrace.tla."""
import json, os, random, shutil, subprocess
from common import *

PREFIXES = ["log", "run-", "a.b_", "x[1]", "d/log", "q*z"]
HEADER = "#t E_total E_sub M_x M_y M_z Mtot_z boundary"


def number(r):
    k = r.randrange(8)
    if k == 0:
        return repr(float(r.randrange(-4, 5)))
    if k == 1:
        return "%d" % r.randrange(-3, 4)
    if k == 2:
        return repr(r.uniform(-1, 1) * 10 ** r.randrange(-12, 9))
    return repr(r.uniform(-1, 1))


def conf(prefix):
    return "hsize = 4\nssize = 4\nt = 3.0\ndt = 0.25\ntau = 1.0\nruns = 1\noffset = 7\nfile = \"%s\"\n" % prefix


def fill(sh, r, need_zero):
    """Records for a shape; a record at time zero where the shape has one."""
    cols = r.choice([1, 2, 3, 8, 13])
    files = []
    ext = r.random() < 0.1 and not need_zero
    for n, z in sh:
        recs = []
        t0 = r.uniform(-30, 30)
        for i in range(1, n + 1):
            if i == z:
                t = r.choice(["0", "0.0", "-0", "1e-6", "-0.0000000000000003"])
            else:
                t = repr(r.choice([t0 + i, i * 0.5, -i * 0.25, 100.0 * i]))
                if abs(float(t)) < 1e-3:
                    t = "0.75"
            recs.append([t] + [number(r) for _ in range(cols - 1)])
        if n and z != 1 and r.random() < 0.15:
            recs[0] = HEADER.split(" ")          # Langevin logs start with a header
        if ext and n:                            # extended logs contain empty lines
            for i in range(2, n, 3):
                recs[i] = [""]
        files.append(recs)
    return files


def one(ck, scbin, d, flag, files, r):
    os.makedirs(d)
    prefix = r.choice(PREFIXES)
    base = os.path.join(d, "w")
    os.makedirs(os.path.join(base, "d"))
    start = r.choice([0, 3, 8, 97])
    names = ["%s%d.dat" % (prefix, start + i) for i in range(len(files))]
    if r.random() < 0.5:
        r.shuffle(names)
    before = {}

    def put(name, text):
        with open(os.path.join(base, name), "w") as f:
            f.write(text)
        before[name] = text
    for name, recs in zip(names, files):
        put(name, "".join(" ".join(x) + "\n" for x in recs))
    put("config.toml", conf(prefix))
    for other in ("other0.dat", "%s0.txt" % prefix, "zlog0.dat", "lo0.dat"):
        put(other, "1 2 3\n4 5 6\n0 8 9\n")
    out = "two-point.dat" if flag == "two" else "avg.dat"
    if r.random() < 0.3:
        with open(os.path.join(base, out), "w") as f:
            f.write("9 9 9 9\n" * 50)
    try:
        p = subprocess.run([scbin, "--two-point" if flag == "two" else "-a"], cwd=base, capture_output=True, text=True,
                           timeout=60)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = 124
    try:
        with open(os.path.join(base, out)) as f:
            got = [l.rstrip("\n").split() for l in f]
    except OSError:
        got = []
    kept = all(os.path.exists(os.path.join(base, n)) and open(os.path.join(base, n)).read() == before[n] for n in names)
    others = all(os.path.exists(os.path.join(base, n)) and open(os.path.join(base, n)).read() == t
                 for n, t in before.items() if n not in names)
    seen = set()
    for dd, _, fs in os.walk(base):
        seen |= {os.path.relpath(os.path.join(dd, f), base) for f in fs}
    others = others and seen <= set(before) | {out}
    shutil.rmtree(d)
    return {"e": flag, "files": files, "out": got, "rc": rc, "kept": kept, "others": others, "prefix": "p" + prefix}


def c_avg(pid):
    flag = {"C17": "avg", "C18": "two"}[pid]
    ck = Check(pid, "model_checking")
    ck.assumptions = ["shapes of the file sets are exhausted up to the stated size; the numbers in them are sampled"]
    harness, scbin = build(["harness", "scbin"])
    java_overrides()
    cases = os.path.join(ck.out, "cases.nd")
    size = ("3", "4") if not ck.thorough else ("4", "4")
    rc, out = tlc("AvgMC", os.path.join(ck.out, "meta"), workers=CPUS,
                  env={"MAXFILES": size[0], "MAXLEN": size[1], "CASES": cases})
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("AvgMC: " + out[-2000:])
    g, d = stats(out)
    ck.add("states", d)
    ck.add("transitions", g)
    ck.cov["model_states"] = d
    shapes = [json.loads(l) for l in open(cases)]
    r = random.Random("%s/%d" % (pid, ck.seed))
    jobs = []
    for c in shapes:
        if flag == "two" and not c["two"]:
            continue
        for _ in range(1 if flag == "avg" and not ck.thorough else 2):
            jobs.append(c["sh"])
    # more and longer files than the model exhausts
    for k in range(60 if not ck.thorough else 600):
        n = r.choice([1, 2, 3, 5, 9, 14])
        m = r.choice([2, 5, 9, 20, 60])
        sh = []
        for _ in range(n):
            ln = r.randrange(1, m + 1)
            sh.append([ln, r.choice([1, ln, r.randrange(1, ln + 1)])])
        jobs.append(sh)
    jobs.append([[420, 200], [380, 1], [420, 420]])
    rs = [random.Random(r.getrandbits(64)) for _ in jobs]
    shards = 8 if not ck.thorough else 32
    tr = [os.path.join(ck.out, "trace-%d.nd" % i) for i in range(shards)]

    def shard(i):
        with open(tr[i], "w") as f:
            for k in range(i, len(jobs), shards):
                files = fill(jobs[k], rs[k], flag == "two")
                ev = one(ck, scbin, os.path.join(ck.out, "d%d" % k), flag, files, rs[k])
                f.write(json.dumps(ev) + "\n")
        res = validate(tr[i], "AvgTrace")
        ck.take_validation(tr[i], res, "AvgTrace", "program on generated log files")

    pool(shard, range(shards))
    ck.cov["file_sets"] = len(jobs)
    with open(tr[0]) as f:
        for i, l in enumerate(f):
            if i in (5, 20, 40):
                ck.sample(l.strip()[:500])
    return ck.finish()
