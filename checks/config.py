"""C14: configuration files enumerated by TLC from ConfigMC.tla, loaded by the real code, validated by ConfigTrace.tla."""
import json, os, re, subprocess
from common import *


def text(file):
    return "".join((k + " = " + v if k else v) + "\n" for k, v in file)


def top_keys(desc):
    """Options named in a description (a TOML text): every `key =` line outside comments."""
    out = []
    for l in desc.splitlines():
        m = re.match(r"\s*\"?([A-Za-z_][A-Za-z0-9_-]*)\"?\s*=", l)
        if m:
            out.append(m.group(1))
    return out


def c14():
    ck = Check("C14", "model_checking")
    ck.assumptions = ["literals per option are a finite family (accepted and refused ones), combined pairwise, as whole files "
                      "and as arbitrary subsets; round trips use sampled values"]
    harness, scbin = build(["harness", "scbin"])
    java_overrides()
    cases = os.path.join(ck.out, "cases.nd")
    rc, out = tlc("ConfigMC", os.path.join(ck.out, "meta"), workers=4,
                  env={"SEED": str(ck.seed), "WIDE": "4" if ck.thorough else "2", "CASES": cases})
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("ConfigMC: " + out[-2000:])
    g, d = stats(out)
    ck.add("states", d)
    ck.add("transitions", g)
    ck.cov["model_states"] = d
    files = [json.loads(l) for l in open(cases)]
    ck.cov["configuration_files"] = len(files)
    w = os.path.join(ck.out, "w")
    os.makedirs(w)
    with open(os.path.join(w, "cases.txt"), "w") as f:
        for c in files:
            f.write("case %d\n%send\n" % (c["id"], text(c["file"])))
    # the program itself: description, and refusal of malformed files
    r = subprocess.run([scbin, "--config-desc"], cwd=w, capture_output=True, text=True, timeout=60)
    made = os.path.exists(os.path.join(w, "config.toml"))
    if made:
        os.remove(os.path.join(w, "config.toml"))
    with open(os.path.join(w, "desc.txt"), "w") as f:
        f.write(r.stdout)
    with open(os.path.join(w, "desc.keys"), "w") as f:
        f.write(json.dumps(top_keys(r.stdout)))
    lines = []
    if r.returncode != 0:
        lines.append({"e": "panic", "op": "config-desc"})
    for bad in ("hsize = = 5\n", "tau = \"x\"\n", "runs = 1.5\n[a\n"):
        p = os.path.join(w, "config.toml")
        with open(p, "w") as f:
            f.write(bad)
        q = subprocess.run([scbin, "--config-desc"], cwd=w, capture_output=True, text=True, timeout=60)
        lines.append({"e": "start", "rc": q.returncode, "kept": os.path.exists(p) and open(p).read() == bad})
        os.remove(p)
    tr = os.path.join(ck.out, "trace.nd")
    q = subprocess.run([harness, "C14", str(ck.seed), "10" if ck.thorough else "1", tr, "cases.txt"], cwd=w,
                       capture_output=True, text=True, timeout=800)
    if q.returncode != 0:
        raise ToolError("recorder: " + q.stderr[-1000:])
    with open(tr, "a") as f:
        for l in lines:
            f.write(json.dumps(l) + "\n")
    res = validate(tr, "ConfigTrace", env={"CASES": cases})
    ck.take_validation(tr, res, "ConfigTrace", "harness C14")
    for i, l in enumerate(open(tr)):
        if i % 3000 == 5:
            ck.sample(l.strip()[:400])
    return ck.finish()
