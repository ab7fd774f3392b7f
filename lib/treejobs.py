"""Jobs over expression trees (h/opt.c), and the selection of further trees by
evaluating the same harness natively on sampled leaf values (h/screen.c)."""
import os, re, random, zlib
from concurrent.futures import ThreadPoolExecutor
from vf import *

FLAGS = ["--object-bits", "12"]


def tree_job(name, mode, trees, facts=0, constraints=0, edges=1, functions=(), bounded="", timeout=300, weight=1, search_time=6):
    code = " ".join("T(%d, %s);" % (i, t) for i, t in enumerate(trees))
    return Job(name, "opt.c", entry="h_trees", functions=functions, unwind=40, unwind_cap=80, solver="--sat-solver cadical",
               defs=["TVINT", "MODE=mode_" + mode, "FACTS=%d" % facts, "CONSTRAINTS=%d" % constraints, "EDGES=%d" % edges, "TREES=" + code],
               checks=["--no-standard-checks"], flags=FLAGS, timeout=timeout, search_time=search_time, weight=weight, bounded=bounded)


def sample(trees, n, seed):
    """a fixed, spread selection"""
    t = sorted(set(trees), key=lambda x: zlib.crc32((x + str(seed)).encode()))
    return t[:n]


class Screen:
    """sets: list of (label, mode, trees, facts, constraints, edges)"""
    def __init__(self, sets, samples, functions, max_jobs=6):
        self.sets, self.samples, self.functions, self.max_jobs = sets, samples, functions, max_jobs

    def __call__(self, env):
        exe = os.path.join(env.dir, "screen")
        env.build_program("screen.c", exe)
        bad, total = [], [0]
        def one(a):
            i, (label, mode, trees, facts, constraints, edges) = a
            trees = trees() if callable(trees) else trees
            f = os.path.join(env.dir, "screen_%d.txt" % i)
            open(f, "w").write("\n".join(trees) + "\n")
            rc, out, err, t = env.run([exe, f, str(self.samples), mode, str(constraints), str(edges), str(facts)], timeout=400)
            if rc != 0 or "DONE" not in out:
                raise CheckError("screening %s: rc=%s %s" % (label, rc, (out + err)[-400:]))
            total[0] += len(trees)
            for m in re.finditer(r"^BAD (\d+) (.*)$", out, re.M):
                bad.append((m.group(2), trees[int(m.group(1))], mode, facts, constraints, edges, label))
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, enumerate(self.sets)))
        # the shortest trees of every kind of failure
        bad.sort(key=lambda b: (len(b[1]), b[2], b[1]))
        jobs, kinds = [], {}
        for b in bad:
            k = (b[0], b[1].split("(")[0])
            kinds[k] = kinds.get(k, 0) + 1
            if kinds[k] <= 2 and len(jobs) < self.max_jobs:
                jobs.append(tree_job("selected_%s_%08x" % (b[2], zlib.crc32(repr(b[1:6]).encode())), b[2], [b[1]], b[3], b[4], b[5],
                                     self.functions, "one tree, selected by screening", timeout=150, weight=50))
                print("  selected for proof: [%s] %s (%s)" % (b[2], b[1], b[0]), flush=True)
        print("  screened %d trees, %d of them selected" % (total[0], len(bad)), flush=True)
        return jobs, {"trees_screened_natively_not_counted_as_proved": total[0], "trees_selected_by_screening": len(bad)}
