#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a spec (tools/bugs/<id>.py-like dict) after
confirming it in a scratch copy: the change builds, the stable tests pass, the
demonstration fails with it and passes without. usage: plant.py SPECFILE [id...]"""
import json, os, shutil, subprocess, sys, tempfile
DEMO = '''#!/bin/bash
# run in the repository after the build: 0 = property holds here
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
I="-Iir"; for i in ir/*/ build/gen/ir/*/ build/gen/ir/be/*/; do I="$I -I$i"; done
I="$I -Iinclude/libfirm -Iinclude/libfirm/adt -Ibuild/gen/include/libfirm"
gcc -w -std=gnu99 -DDEBUG_libfirm %s $I -o "$t/demo" "$d/demo.c" build/debug/libfirm.a -lm || exit 2
timeout 120 "$t/demo"
'''
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, cwd, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
def main():
    ns = {"__file__": os.path.abspath(sys.argv[1])}
    exec(open(sys.argv[1]).read(), ns)
    W = "/tmp/plant"
    for b in ns["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
        d = "/verif/seeded/" + b["id"]
        shutil.rmtree(W, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", W])
        # build of the copy happens in the copy: rewrite is not needed, make uses relative paths
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.c", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % b.get("flags", ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        r = sh("bash %s/demo.sh" % d, W)
        if r.returncode != 0: print(b["id"], "demo fails on clean tree", r.returncode, r.stdout.decode()[-800:]); ok = False
        for f, old, new in b["edits"]:
            s = open(W + "/" + f).read()
            if s.count(old) != 1: print(b["id"], "pattern count", s.count(old), f); ok = False; continue
            open(W + "/" + f, "w").write(s.replace(old, new))
        p = sh("git diff", W).stdout
        open(d + "/patch.diff", "wb").write(p)
        subprocess.check_call("git -C /repo apply --check %s/patch.diff" % d, shell=True)
        # build and test in an own mount of the path: the scripts work on /repo, so replicate them here
        r = sh("make -s CC=gcc variant=debug -j1 gen >/dev/null 2>&1; make -s CC=gcc variant=debug -j4 firm 2>&1 | tail -5; for t in unittests/*.c; do e=build/debug/$(basename $t .c).exe; rm -f $e; make -s CC=gcc variant=debug $e >/dev/null 2>&1; timeout 120 $e >/dev/null 2>&1 && echo PASS unittests/$(basename $t .c) || echo FAIL unittests/$(basename $t .c); done", W)
        o = r.stdout.decode()
        passed = {l[5:] for l in o.split("\n") if l.startswith("PASS ")}
        if not STABLE <= passed: print(b["id"], "tests fail:", STABLE - passed, o[-500:]); ok = False
        r = sh("bash %s/demo.sh" % d, W)
        if r.returncode == 0: print(b["id"], "demo passes with the change"); ok = False
        print(b["id"], "OK" if ok else "REJECTED", "| demo:", r.stdout.decode()[-200:].strip(), r.returncode, flush=True)
        if not ok: shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)
main()
