#!/usr/bin/env python3
"""Driver shared by all checks: builds harness translation units from /repo's
current sources with goto-cc, discharges every obligation with CBMC (contracts
through goto-instrument --dfcc where a job asks for it), replays every
counterexample on the natively compiled real code, writes the evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
H = os.path.join(VERIF, "h")
LIB = os.path.join(VERIF, "lib")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = int(os.environ.get("VF_JOBS", "8"))
CLANG = shutil.which("clang-18") or shutil.which("clang") or "clang"

STD_CHECKS = ["--no-standard-checks"]
MEM_CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check"]


class Job:
    """One proof harness. `functions`: functions of /repo whose contract the
    harness states. `bounded`: text of the bound if the result is not a full proof."""
    def __init__(self, name, src, entry="harness", defs=(), unwind=40, unwindset=(),
                 checks=MEM_CHECKS, flags=(), functions=(), bounded=None, timeout=300,
                 enforce=(), replace=(), loop_contracts=False, solver=None, native=True,
                 search_time=15, extra_src=(), incs=(), reach=True, mem_gb=6, weight=1,
                 tiers=("quick", "thorough"), native_src=(), unwind_cap=None, symbols=(),
                 assumes=(), nondet_static=False, search=True, drop_unused=True,
                 native_flags=(), replace_calls=(), fallback=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Env:
    def __init__(self, check_id):
        self.id = check_id
        self.dir = tempfile.mkdtemp(prefix="vf_%s_" % check_id)
        self.lock = threading.Lock()
        self.compiled = {}
        self.natives = {}
        self.procs = set()
        self.incs = []

    def cleanup(self):
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cmd, timeout=300, mem_gb=None, env=None, cwd=None):
        """-> (rc, stdout, stderr, seconds); rc None on timeout"""
        t0 = time.time()
        def lim():
            os.setsid()
            if mem_gb:
                import resource
                b = int(mem_gb * (1 << 30))
                resource.setrlimit(resource.RLIMIT_AS, (b, b))
        e = dict(os.environ)
        e.update({"LC_ALL": "C", "PYTHONDONTWRITEBYTECODE": "1"})
        e.pop("MAKEFLAGS", None)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim,
                             env=e, cwd=cwd)
        self.procs.add(p)
        try:
            out, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
            rc = None
        self.procs.discard(p)
        return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t0

    def prepare(self):
        """generated headers, from /repo's current specs, in scratch"""
        b = os.path.join(self.dir, "build")
        rc, out, err, t = self.run(["make", "-C", REPO, "CC=gcc", "variant=debug", "top_builddir=" + b,
                                    "--eval=.DELETE_ON_ERROR:", "-j1", "gen"], timeout=200)
        if rc != 0:
            raise CheckError("generating headers failed:\n" + out[-2000:] + err[-2000:])
        self.build = b
        incs = [os.path.join(REPO, "ir")] + [os.path.join(REPO, "ir", d) for d in sorted(os.listdir(os.path.join(REPO, "ir")))
                if os.path.isdir(os.path.join(REPO, "ir", d))]
        incs += [os.path.join(REPO, "include", "libfirm"), os.path.join(REPO, "include", "libfirm", "adt")]
        g = os.path.join(b, "gen", "ir")
        gen = [os.path.join(g, d) for d in sorted(os.listdir(g)) if os.path.isdir(os.path.join(g, d))]
        gen += [os.path.join(b, "gen", "include", "libfirm")]
        gen += [os.path.join(g, "be", d) for d in sorted(os.listdir(os.path.join(g, "be")))] if os.path.isdir(os.path.join(g, "be")) else []
        self.incs = ["-I" + x for x in [H, LIB] + incs + gen]

    def base_flags(self, job):
        fl = []
        for i in job.incs:
            fl.append("-I" + i.replace("@DIR@", self.dir))
        return fl + self.incs + ["-DDEBUG_libfirm", "-DREPO=" + REPO, "-std=gnu99", "-w"] + ["-D" + d for d in job.defs]

    def compile(self, job):
        key = (job.src, tuple(job.defs), tuple(job.extra_src), tuple(job.incs))
        with self.lock:
            ent = self.compiled.setdefault(key, {"lock": threading.Lock()})
        with ent["lock"]:
            if "gb" not in ent:
                gb = os.path.join(self.dir, "g%d.gb" % abs(hash(key)))
                srcs = [job.src if os.path.isabs(job.src) else os.path.join(H, job.src)]
                srcs += [s.replace("@REPO@", REPO).replace("@BUILD@", self.build) for s in job.extra_src]
                cmd = ["goto-cc", "-DVF_CBMC", "-o", gb] + self.base_flags(job) + srcs
                rc, out, err, t = self.run(cmd, timeout=200)
                ent["rc"], ent["err"], ent["gb"] = rc, err + out, gb
        if ent["rc"] != 0:
            raise CheckError("goto-cc failed for %s:\n%s" % (job.src, ent["err"][-3000:]))
        return ent["gb"]

    def replaced(self, job, gb):
        """calls of a function replaced by calls of its contract function"""
        key = ("replace", gb, tuple(job.replace_calls))
        with self.lock:
            ent = self.compiled.setdefault(key, {"lock": threading.Lock()})
        with ent["lock"]:
            if "gb" not in ent:
                cur = gb
                for i, rc_ in enumerate(job.replace_calls):
                    nxt = os.path.join(self.dir, "r%d_%d.gb" % (abs(hash(key)), i))
                    rc, out, err, t = self.run(["goto-instrument", "--replace-calls", rc_, cur, nxt], timeout=200)
                    if rc != 0:
                        raise CheckError("goto-instrument failed for %s:\n%s" % (job.name, (out + err)[-3000:]))
                    cur = nxt
                ent["gb"] = cur
        return ent["gb"]

    def compile_native(self, job):
        key = (job.src, tuple(job.defs), tuple(job.extra_src), tuple(job.native_src), tuple(job.incs), job.entry)
        with self.lock:
            ent = self.natives.setdefault(key, {"lock": threading.Lock()})
        with ent["lock"]:
            if "exe" not in ent:
                exe = os.path.join(self.dir, "n%d" % abs(hash(key)))
                srcs = [job.src if os.path.isabs(job.src) else os.path.join(H, job.src)]
                srcs += [s.replace("@REPO@", REPO).replace("@BUILD@", self.build) for s in list(job.extra_src) + list(job.native_src)]
                cmd = [CLANG, "-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-Wl,--unresolved-symbols=ignore-all",
                       "-no-pie", "-DVF_ENTRY=" + job.entry, "-o", exe] + list(job.native_flags) + self.base_flags(job) + srcs + \
                      [os.path.join(LIB, "vf_native.c"), os.path.join(LIB, "vf_main.c"), "-lm"]
                rc, out, err, t = self.run(cmd, timeout=200)
                ent["rc"], ent["err"], ent["exe"] = rc, err + out, exe
        return ent

    def build_program(self, src, exe, defs=()):
        """a native program over /repo's current sources (selection of inputs only)"""
        rc, out, err, t = self.run([CLANG, "-O1", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-DDEBUG_libfirm", "-std=gnu99", "-w"] +
                                   ["-D" + d for d in defs] + self.incs + ["-o", exe, os.path.join(H, src), "-lm"], timeout=250)
        if rc != 0:
            raise CheckError("native build of %s failed:\n%s" % (src, (out + err)[-3000:]))

    NENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0"}

    def replay(self, job, path):
        """-> (confirmed, text)"""
        ent = self.compile_native(job)
        if ent["rc"] != 0:
            return False, "native build failed: " + ent["err"][-1500:]
        rc, out, err, t = self.run([ent["exe"]], timeout=60, env=dict(self.NENV, VF_REPLAY=path))
        return rc not in (0, 77) , "native replay rc=%s\n%s" % (rc, (out + err)[-1500:])

    def search(self, job, secs, outpath):
        ent = self.compile_native(job)
        if ent["rc"] != 0:
            return False, "native build failed: " + ent["err"][-1500:]
        if os.path.exists(outpath):
            os.unlink(outpath)
        rc, out, err, t = self.run([ent["exe"]], timeout=secs + 60, env=dict(
            self.NENV, VF_SEARCH="1000000000", VF_TIME=str(secs), VF_SEED=str(SEED), VF_OUT=outpath))
        return (rc == 1 and os.path.exists(outpath)), "native search rc=%s\n%s" % (rc, (out + err)[-1500:])

    def solve(self, job, unwind, extra=(), timeout=None):
        gb = self.compile(job)
        if job.enforce or job.replace or job.loop_contracts:
            gb2 = os.path.join(self.dir, "i_%s_%d.gb" % (re.sub(r"\W", "_", job.name), abs(hash((tuple(extra), unwind)))))
            cmd = ["goto-instrument", "--dfcc", job.entry]
            for f in job.enforce:
                cmd += ["--enforce-contract", f]
            for f in job.replace:
                cmd += ["--replace-call-with-contract", f]
            if job.loop_contracts:
                cmd += ["--apply-loop-contracts"]
            rc, out, err, t = self.run(cmd + [gb, gb2], timeout=200)
            if rc != 0:
                raise CheckError("goto-instrument failed for %s:\n%s" % (job.name, (out + err)[-3000:]))
            gb = gb2
        if job.replace_calls:
            gb = self.replaced(job, gb)
        cmd = ["cbmc", gb, "--function", job.entry, "--json-ui", "--unwind", str(unwind)]
        if job.unwindset:
            cmd += ["--unwindset", ",".join(job.unwindset)]
        cmd += list(job.checks) + ["--unwinding-assertions", "--slice-formula"] + list(job.flags)
        if job.drop_unused:
            cmd += ["--drop-unused-functions"]
        if job.solver:
            cmd += job.solver.split()
        cmd += list(extra)
        rc, out, err, t = self.run(cmd, timeout=timeout or job.timeout, mem_gb=job.mem_gb)
        return rc, out, err, t, cmd


class CheckError(Exception):
    pass


def parse(out):
    """-> (results list or None, solver seconds, messages)"""
    try:
        data = json.loads(out)
    except ValueError:
        return None, 0.0, out[-2000:]
    res, secs, msgs = None, 0.0, []
    for o in data:
        if "result" in o:
            res = o["result"]
        if "messageText" in o:
            m = re.search(r"Runtime decision procedure: ([0-9.e-]+)s", o["messageText"])
            if m:
                secs += float(m.group(1))
            if o.get("messageType") in ("ERROR", "WARNING"):
                msgs.append(o["messageText"])
    return res, secs, "\n".join(msgs)[-3000:]


def trace_inputs(res, prop):
    for r in res or []:
        if r.get("property") == prop and r.get("trace"):
            lines = []
            for s in r["trace"]:
                if s.get("stepType") == "input":
                    vals = s.get("values", [])
                    if len(vals) != 2:
                        continue
                    def num(v):
                        if v.get("binary"):
                            return int(v["binary"], 2)
                        d = re.sub(r"[uUlL]+$", "", v.get("data", "0"))
                        return int(d) & ((1 << 64) - 1)
                    try:
                        lines.append("%s %d %d" % (s["inputID"], num(vals[0]), num(vals[1])))
                    except ValueError:
                        pass
            return lines
    return None


class Result:
    def __init__(self, job):
        self.job = job
        self.ok = False
        self.error = None       # undecided
        self.failed = []        # [(property, description, location)]
        self.n_obl = self.n_ok = self.n_reach = 0
        self.secs = self.solver = 0.0
        self.inputs = None
        self.witness = False
        self.text = ""
        self.cmd = ""
        self.unwind = None


def run_job(env, job):
    r = Result(job)
    t0 = time.time()
    try:
        unwind = job.unwind
        cap = job.unwind_cap or unwind * 4
        while True:
            r.unwind = unwind
            rc, out, err, t, cmd = env.solve(job, unwind)
            r.cmd = " ".join(cmd)
            if rc is None:
                r.error = "solver timeout after %ds" % job.timeout
                break
            res, secs, msgs = parse(out)
            r.solver += secs
            if res is None:
                r.error = "cbmc gave no result (rc=%s): %s %s" % (rc, msgs, err[-500:])
                break
            fails, reach_bad, unw = [], [], []
            r.n_obl = r.n_ok = r.n_reach = 0
            for p in res:
                d = p.get("description", "")
                if d.startswith("vf_reach:"):
                    r.n_reach += 1
                    if p["status"] != "FAILURE":
                        reach_bad.append(d)
                    continue
                r.n_obl += 1
                if p["status"] == "SUCCESS":
                    r.n_ok += 1
                elif ".unwind." in p["property"] or "recursion" in p["property"]:
                    unw.append(p)
                else:
                    fails.append(p)
            if unw and unwind < cap and not [f for f in fails if f["status"] == "FAILURE"]:
                unwind = min(cap, unwind * 2)
                continue
            nobody = [f for f in fails if f["property"].endswith("no-body") or ".no-body." in f["property"]]
            hard = [f for f in fails if f not in nobody and f["status"] == "FAILURE"]
            if hard:
                r.failed = [(f["property"], f.get("description", ""),
                             "%s:%s (%s)" % (f.get("sourceLocation", {}).get("file", "?"),
                                             f.get("sourceLocation", {}).get("line", "?"),
                                             f.get("sourceLocation", {}).get("function", "?"))) for f in hard]
            elif unw:
                r.error = "loop not fully unwound at %d: %s" % (unwind, unw[0]["property"])
            elif nobody:
                r.error = "function without body or contract: " + ", ".join(f["property"] for f in nobody)
            elif fails:
                r.error = "undecided: " + ", ".join(f["property"] for f in fails[:5])
            elif reach_bad:
                r.error = "vacuous: " + ", ".join(reach_bad)
            elif job.reach and r.n_reach == 0:
                r.error = "no reachability obligation"
            elif r.n_obl == 0:
                r.error = "no obligations generated"
            else:
                r.ok = True
            break
        if r.failed:
            # prefer contract clauses over derived checks for the report
            r.failed.sort(key=lambda f: (not f[1].startswith("ensures:"), f[0]))
            reppath = os.path.join(env.dir, "cex_%s.txt" % re.sub(r"\W", "_", job.name))
            for f in r.failed[:3]:
                rc, out, err, t, cmd = env.solve(job, r.unwind, ["--property", f[0], "--trace"])
                if rc is None:
                    continue
                res, secs, msgs = parse(out)
                lines = trace_inputs(res, f[0])
                if lines is None:
                    continue
                if r.inputs is None:
                    r.inputs = lines
                if not job.native:
                    continue
                open(reppath, "w").write("\n".join(lines) + "\n")
                okr, txt = env.replay(job, reppath)
                r.text += "counterexample for %s: %s\n" % (f[0], txt)
                if okr:
                    r.witness, r.inputs = True, lines
                    r.failed.remove(f)
                    r.failed.insert(0, f)
                    break
        if (r.failed or r.error) and not r.witness and job.native and job.search:
            outp = os.path.join(env.dir, "srch_%s.txt" % re.sub(r"\W", "_", job.name))
            found, txt = env.search(job, job.search_time, outp)
            r.text += txt + "\n"
            if found:
                r.witness = True
                r.inputs = open(outp).read().split("\n")
                if not r.failed:
                    m = re.search(r"VF-FAILED (.*)", txt)
                    r.failed = [("native", "witness: " + (m.group(1) if m else "?"), "native search after: " + str(r.error))]
    except CheckError as e:
        r.error = str(e)
    r.secs = time.time() - t0
    return r


def main(check_id, jobs, level="proof", trusted=(), assumptions=(), known=(), explanation="", extra_evidence=None, pre=None):
    """pre(env) -> (further jobs, evidence): selection of further inputs on the current tree"""
    global _known_findings
    _known_findings = known
    t0 = time.time()
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    if "--replay" in sys.argv:
        return do_replay(check_id, jobs, sys.argv[sys.argv.index("--replay") + 1])
    jobs = [j for j in jobs if TIER in j.tiers and (not only or any(o in j.name for o in only))]
    names = [j.name for j in jobs]
    assert len(set(names)) == len(names), "duplicate job names"
    env = Env(check_id)
    rc = 2
    try:
        try:
            env.prepare()
        except CheckError as e:
            print("ERROR:", e)
            return 2
        if pre and not only:
            try:
                more, ev = pre(env)
            except CheckError as e:
                print("ERROR:", e)
                return 2
            jobs += more
            extra_evidence = dict(extra_evidence or {}, **ev)
        order = sorted(jobs, key=lambda j: -j.weight)
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(lambda j: report_progress(run_unless_settled(env, j)), order))
        rc = finish(check_id, results, level, trusted, assumptions, known, explanation, t0, bool(only), extra_evidence)
    finally:
        env.cleanup()
    return rc


_plock = threading.Lock()
_settled = threading.Event()


def run_unless_settled(env, job):
    """quick tier: once a violation has been replayed on the real code the answer cannot change; jobs not yet begun are left out (and reported so)"""
    if _settled.is_set():
        r = Result(job)
        r.error = "not run: a violation was already confirmed"
        return r
    r = run_job(env, job)
    if TIER == "quick" and r.failed and r.witness and not _known_findings:
        _settled.set()
    return r


_known_findings = ()


def report_progress(r):
    with _plock:
        st = "ok" if r.ok else ("FAILED " + "; ".join(f[1] + " @ " + f[2] for f in r.failed[:3]) if r.failed else "UNDECIDED " + str(r.error))
        print("  %-40s %4d/%-4d obligations  %6.1fs  %s" % (r.job.name, r.n_ok, r.n_obl, r.secs, st), flush=True)
        if not r.ok and r.text:
            print("    " + r.text.strip().replace("\n", "\n    ")[-1200:], flush=True)
    return r


def finish(check_id, results, level, trusted, assumptions, known, explanation, t0, partial, extra_evidence):
    viol = 0
    errs = [r for r in results if not r.ok and not r.failed]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    known_hit = []
    lines = []
    for r in results:
        if not r.failed:
            continue
        k = match_known(known, r)
        if k:
            known_hit.append(k)
            continue
        viol += 1
        path = os.path.join(VERIF, "replays", "%s-%s.txt" % (check_id, re.sub(r"\W", "_", r.job.name)))
        with open(path, "w") as f:
            f.write("# def %s\n" % json.dumps({"src": r.job.src, "entry": r.job.entry, "defs": list(r.job.defs), "extra_src": list(r.job.extra_src), "incs": list(r.job.incs)}))
            f.write("# property %s\n# job %s\n# replay: python3 %s/checks/%s.py --replay %s\n" % (check_id, r.job.name, VERIF, check_id, path))
            for x in r.failed[:20]:
                f.write("# failed obligation: %s | %s | %s\n" % x)
            f.write("# verifier: %s\n" % r.cmd)
            for l in r.text.strip().split("\n"):
                f.write("# %s\n" % l)
            if r.inputs:
                f.write("\n".join(r.inputs) + "\n")
        lines.append("VIOLATION property=%s replay=%s%s" % (check_id, path, "" if r.witness else " no-failing-input-found"))
    # one line per property; a witnessed one first
    lines.sort(key=lambda l: l.endswith("no-failing-input-found"))
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (check_id, k["what"]))
    full = [r for r in results if r.job.bounded is None]
    bnd = [r for r in results if r.job.bounded is not None]
    ev = {
        "property": check_id, "tier": TIER, "seed": SEED, "level": level,
        "coverage": {
            "obligations": sum(r.n_obl for r in full), "discharged": sum(r.n_ok for r in full),
            "bounded_obligations": sum(r.n_obl for r in bnd), "bounded_discharged": sum(r.n_ok for r in bnd),
            "bounded_jobs": [{"job": r.job.name, "bound": r.job.bounded, "obligations": r.n_obl, "discharged": r.n_ok} for r in bnd],
            "reachability_obligations": sum(r.n_reach for r in results),
            "functions_under_contract": sorted({f for r in full for f in r.job.functions}),
            "functions_bounded_only": sorted({f for r in bnd for f in r.job.functions} - {f for r in full for f in r.job.functions}),
            "jobs": [{"job": r.job.name, "obligations": r.n_obl, "discharged": r.n_ok, "ok": r.ok, "unwind": r.unwind,
                      "wall_s": round(r.secs, 2), "solver_s": round(r.solver, 3), "error": r.error,
                      "failed": [list(f) for f in r.failed[:10]]} for r in results],
            "solver_s": round(sum(r.solver for r in results), 2),
            "back_end": "CBMC 6.11.0 (" + ", ".join(sorted({r.job.solver or "MiniSat 2.2.1 SAT" for r in results})) + ")",
            "checker_cmd": "python3 checks/%s.py  (per job: goto-cc; goto-instrument --dfcc where contracts are replaced; cbmc --unwinding-assertions)" % check_id,
            "trusted_base": list(trusted),
            "samples": [r.cmd for r in results[:2]],
            "explanation": explanation,
            "exhaustive": False,
        },
        "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    if extra_evidence:
        ev["coverage"].update(extra_evidence)
    if not partial:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", check_id + ".json"), "w"), indent=1)
    print("%s: %d jobs, %d/%d obligations discharged (%d/%d bounded), %d violations, %d undecided, %.1fs" % (
        check_id, len(results), ev["coverage"]["discharged"], ev["coverage"]["obligations"],
        ev["coverage"]["bounded_discharged"], ev["coverage"]["bounded_obligations"], viol, len(errs), time.time() - t0))
    for l in lines:
        print(l)
    if viol:
        return 1
    if errs:
        for r in errs:
            print("UNDECIDED %s: %s" % (r.job.name, r.error))
        return 2
    return 0


def match_known(known, r):
    for k in known:
        if k.get("job") == r.job.name and all(any(re.search(pat, f[1]) for pat in k["obligations"]) for f in r.failed):
            return k
    return None


def do_replay(check_id, jobs, path):
    name = None
    for l in open(path):
        if l.startswith("# job "):
            name = l[6:].strip()
    job = [j for j in jobs if j.name == name]
    if not job:
        for l in open(path):
            if l.startswith("# def "):
                d = json.loads(l[6:])
                job = [Job(name, d["src"], entry=d["entry"], defs=d["defs"], extra_src=d["extra_src"], incs=d["incs"])]
    if not job:
        print("no such job", name)
        return 2
    env = Env(check_id)
    try:
        env.prepare()
        ok, txt = env.replay(job[0], path)
        print(txt)
        print("REPRODUCED" if ok else "NOT REPRODUCED")
        return 1 if ok else 0
    finally:
        env.cleanup()
