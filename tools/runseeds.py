"""Development tool: runs each planted bug's check against it.  usage: runseeds.py [id ...]"""
import json, os, subprocess, sys, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout
for i in ids:
    p = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
    try:
        r = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
        if r.returncode:
            print(i, "DOES NOT APPLY", flush=True)
            continue
        t = time.time()
        r = sh("cd /verif && bin/check " + p)
        c = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
        try:
            v = sorted({x["key"] for x in json.load(open("/verif/out/%s/violation.json" % p))}) if c else r.stdout[-300:]
        except OSError:
            v = "?"
        print(i, p, "caught" if c else "MISSED (rc %d)" % r.returncode, "%.0f s" % (time.time() - t), str(v)[:260], flush=True)
    finally:
        sh("git -C /repo checkout -- .")
