"""Running the program in scratch directories, with every file operation recorded."""
import hashlib, json, os, re, shutil, signal, subprocess, threading
import tomllib
from common import *

KEYS = ["hsize", "ssize", "t", "dt", "runs", "trel", "threads", "tau", "lambda", "hfield", "hs", "jvar", "hvar", "method",
        "ednsty", "file", "strob", "offset", "beta", "mc_points", "e", "drive", "log"]
BASE = {"hsize": 4, "ssize": 4, "t": 2.0, "dt": 0.25, "runs": 1, "trel": 0.0, "threads": 2, "tau": 1.0, "lambda": 1.0,
        "hfield": [0.0, 0.0, 0.0], "hs": [0.0, 0.0, 0.0], "jvar": 0.0, "hvar": 0.0, "method": 2, "ednsty": -0.66,
        "file": "log", "strob": False, "offset": 0, "beta": 2.88, "mc_points": 2, "e": 0.9, "drive": "xyplane", "log": True}


def build_all():
    scbin = build(["harness", "scbin"])[1]
    java_overrides()
    so = gcc(os.path.join(VERIF, "shims", "fsrec.c"), os.path.join(TARGET, "fsrec.so"),
             ("-shared", "-fPIC", "-ldl", "-lpthread"))
    return scbin, so


def toml_text(c):
    def v(x):
        if isinstance(x, bool):
            return "true" if x else "false"
        if isinstance(x, str):
            return json.dumps(x)
        if isinstance(x, list):
            return "[" + ", ".join(v(float(y)) for y in x) + "]"
        return repr(x)
    return "".join("%s = %s\n" % (k, v(x)) for k, x in c.items())


def plain(x):
    """TOML value in the form the trace specifications read: numbers as strings."""
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, int):
        return x
    if isinstance(x, list):
        return [plain(float(y)) for y in x]
    return str(x)


def parse_cfg(text):
    """configuration -> dict of plain values, or None if it is not a whole configuration"""
    try:
        d = tomllib.loads(text)
    except Exception:
        return None
    if any(k not in d for k in KEYS):
        return None
    return {k: plain(d[k]) for k in d}


class Run:
    pass


def run(scbin, d, args, fsrec=None, env=None, timeout=120, seed=None):
    """One invocation in directory d.  fsrec: path of the recorder, or None."""
    e = dict(os.environ)
    e.update(env or {})
    if seed is not None:
        e["VSHIM_SEED"] = str(seed)
    r = Run()
    r.log = d.rstrip("/") + ".ops"
    if fsrec:
        if os.path.exists(r.log):
            os.remove(r.log)
        e["LD_PRELOAD"] = fsrec
        e["FSREC_LOG"] = r.log
    r.args = list(args)
    p = subprocess.Popen([scbin, *args], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         text=True, errors="replace", start_new_session=True)
    try:
        r.out, r.err = p.communicate(timeout=timeout)
        r.rc = p.returncode
        r.hung = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        r.out, r.err = p.communicate()
        r.rc, r.hung = 124, True
    return r


def ops(r):
    """recorded file operations: (seq, tid, op, x, path, arg, data)"""
    out = []
    try:
        with open(r.log) as f:
            for l in f:
                p = l.rstrip("\n").split(" ")
                if len(p) < 7:
                    continue
                out.append((int(p[0]), int(p[1]), p[2], int(p[3]), p[4], p[5], bytes.fromhex(p[6])))
    except OSError:
        pass
    return out


def files(d):
    out = {}
    for dd, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(dd, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def digest(b):
    return "h" + hashlib.sha256(b).hexdigest()[:16]
