#!/usr/bin/env python3
"""run the check of each planted bug's property against a patched copy (VF_REPO); usage trybugs.py [id-prefix...]"""
import json, os, shutil, subprocess, sys
S = "/verif/seeded"
for b in sorted(os.listdir(S)):
    if len(sys.argv) > 1 and not any(b.startswith(a) for a in sys.argv[1:]): continue
    p = json.load(open(S + "/" + b + "/meta.json"))["property"]
    W = "/tmp/try_" + b
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call("mkdir %s && git -C /repo archive HEAD | tar x -C %s && cd %s && patch -p1 -s < %s/%s/patch.diff" % (W, W, W, S, b), shell=True)
    e = dict(os.environ, VF_REPO=W)
    import time; t = time.time()
    r = subprocess.run(["python3", "/verif/checks/%s.py" % p], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode()
    v = [l for l in o.split("\n") if l.startswith("VIOLATION") or l.startswith("UNDECIDED")]
    f = [l.strip()[:60] for l in o.split("\n") if "FAILED" in l and "obligations" in l]
    print(b, "rc", r.returncode, "%.0fs" % (time.time() - t), v[:1], len(f), f[:3], flush=True)
    shutil.rmtree(W, ignore_errors=True)
