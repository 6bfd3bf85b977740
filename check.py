#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [--keep] : decide one property by bounded symbolic execution of the real code.

For every harness of the property (harness/<ID>*.cpp, one or more `// @run <tier> DEFS` lines):
  1. compile it against /repo/include to LLVM IR (clang) and natively (g++, ASan+UBSan);
  2. explore every path of the IR with the symbolic executor (build/gsym) - inputs symbolic, verdicts by Z3;
  3. replay candidate violations natively: only reproduced ones are reported;
  4. replay a sample of the explored paths natively and compare every observed value (engine validation).
Exit 0: held.  Exit 1: VIOLATION line(s).  Anything else: the check could not decide.
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time, glob, shutil, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GSYM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
T0 = time.time()
HARD = float(os.environ.get("GSYM_LIMIT", "840"))  # seconds for the whole check

CLANG = ["clang++", "-std=c++20", "-O1", "-w", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
         "-D_GLIBCXX_ASSERTIONS", "-emit-llvm", "-c"]
GXX = ["g++", "-std=c++20", "-O0", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
GXX_PLAIN = ["g++", "-std=c++20", "-O0", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p: return p
        for d in ("/usr/lib/llvm-18/bin",):
            if os.path.exists(os.path.join(d, n)): return os.path.join(d, n)
    return names[0]
LINK = tool("llvm-link-18", "llvm-link")

def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(os.path.join(REPO, "include"))):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    for f in sorted(glob.glob(os.path.join(VERIF, "rt", "**", "*"), recursive=True)) + sorted(glob.glob(os.path.join(VERIF, "harness", "*.h*"))):
        if os.path.isfile(f): h.update(open(f, "rb").read())
    return h.hexdigest()

class CannotDecide(Exception): pass

def build_engine():
    r = sh([os.path.join(VERIF, "engine", "build.sh")])
    if r.returncode: raise CannotDecide("engine build failed:\n" + r.stdout[-3000:])

def compile_rt(th):
    out = os.path.join(BUILD, "rt-%s.bc" % hashlib.sha256(open(os.path.join(VERIF, "rt/rt.cpp"), "rb").read()).hexdigest()[:12])
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = sh(CLANG + ["-fno-builtin", "-I", os.path.join(VERIF, "rt/stub"), "-I", os.path.join(VERIF, "rt"), os.path.join(VERIF, "rt/rt.cpp"), "-o", tmp])
        if r.returncode: raise CannotDecide("rt: " + r.stdout[-3000:])
        os.rename(tmp, out)
    return out

class Run:
    def __init__(self, src, defs, opts, th):
        self.src, self.defs, self.opts = src, defs, opts
        self.name = os.path.basename(src)[:-4] + ("[" + " ".join(defs) + "]" if defs else "")
        text = open(src).read()
        for inc in re.findall(r'#include "(\w+\.cpp)"', text): text += open(os.path.join(os.path.dirname(src), inc)).read()
        key = hashlib.sha256((th + text + " ".join(defs) + " ".join(CLANG) + " ".join(GXX)).encode()).hexdigest()[:16]
        self.base = os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "-" + key)
        self.dflags = ["-D" + d for d in defs]
    def bc(self, rt):
        out = self.base + ".bc"
        if os.path.exists(out): return
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = sh(CLANG + ["-I", os.path.join(VERIF, "rt/stub"), "-I", os.path.join(VERIF, "rt"), "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(REPO, "include")] + self.dflags + [self.src, "-o", tmp])
        if r.returncode: raise CannotDecide("clang %s:\n%s" % (self.name, r.stdout[:4000]))
        r = sh([LINK, tmp, rt, "-o", tmp + ".l"])
        if r.returncode: raise CannotDecide("link %s:\n%s" % (self.name, r.stdout[:4000]))
        os.rename(tmp + ".l", out); os.unlink(tmp)
    def native(self, plain=False):
        out = self.base + (".plain" if plain else ".nat")
        if os.path.exists(out): return out
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = sh((GXX_PLAIN if plain else GXX) + ["-I", os.path.join(VERIF, "rt"), "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(REPO, "include")] + self.dflags + [self.src, os.path.join(VERIF, "rt/native.cpp"), "-o", tmp])
        if r.returncode: raise CannotDecide("g++ %s:\n%s" % (self.name, r.stdout[:4000]))
        os.rename(tmp, out)
        return out

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99:max_malloc_fill_size=1073741824:malloc_fill_byte=170:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98")

def rec(inputs):
    return " ".join("%s=%s" % (n.replace(" ", "_").replace("=", "_"), v) for n, v in inputs)

def replay(run, f, rdir, k):
    """returns (confirmed, text)"""
    path = os.path.join(rdir, "%s-%d.txt" % (os.path.basename(run.base), k))
    exe = run.native()
    with open(path, "w") as o: o.write(rec(f["inputs"]) + "\n")
    to = 25
    try:
        r = subprocess.run([exe, "-1", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, timeout=to)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    ok = rc != 0
    mism = "REPLAY-MISMATCH" in (out or "")
    if rc == "timeout" and f["kind"] not in ("nontermination", "recursion", "assert", "memory"): ok = True
    if mism: ok = False
    if not ok and f["kind"] == "uninit" and shutil.which("valgrind"):
        try:
            exe2 = run.native(plain=True)
            r = subprocess.run(["valgrind", "-q", "--error-exitcode=97", exe2, "-1", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
            rc, out = r.returncode, r.stdout
            ok = rc == 97 or rc == 7
        except subprocess.TimeoutExpired: pass
    with open(path, "a") as o:
        o.write("# harness: %s  defines: %s\n# kind: %s\n# label: %s\n# where: %s\n# native: %s -1 <this file>  -> %s (reproduced: %s)\n" % (run.src, " ".join(run.defs), f["kind"], f["label"], f["where"], " ".join(GXX[:4]), rc, ok))
        o.write("\n".join("# | " + l for l in (out or "").splitlines()[:60]) + "\n")
    return ok, path, rc

def validate(run, traces, limit):
    """replay explored paths natively; compare observations"""
    exe = run.native()
    traces = traces[:limit]
    if not traces: return 0, [], 0
    with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False, dir=BUILD) as tf:
        for t in traces: tf.write(rec(t["inputs"]) + "\n")
    try:
        r = subprocess.run([exe, tf.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, timeout=300)
    except subprocess.TimeoutExpired:
        return 0, ["native validation timed out"], 0
    finally: os.unlink(tf.name)
    lines = r.stdout.splitlines()
    bad, good, obs = [], 0, 0
    for i, t in enumerate(traces):
        want = "".join("%s=%s " % (n, v) for n, v in t["obs"]) + " rc=0"
        got = lines[i] if i < len(lines) else "<missing>"
        if want == got: good += 1; obs += len(t["obs"])
        else: bad.append("inputs: %s\n  engine: %s\n  native: %s\n  stderr: %s" % (rec(t["inputs"]), want, got, r.stderr[-1500:]))
    return good, bad, obs

def load_known(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                j = json.loads(l)
                if j.get("property") == pid and j.get("status") == "open": res.append(j)
    return res

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = int(os.environ.get("GSYM_JOBS", str(os.cpu_count() or 4)))
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "[._-]*")): os.unlink(f)
    build_engine()
    th = tree_hash()
    rt = compile_rt(th)
    runs, meta = [], {"bounds": [], "covers": {}, "assume": []}
    only = [a.split("=", 1)[1] for a in sys.argv if a.startswith("--only=")]
    for src in sorted(glob.glob(os.path.join(VERIF, "harness", pid + ".cpp")) + glob.glob(os.path.join(VERIF, "harness", pid + "_*.cpp"))):
        if only and not any(o in os.path.basename(src) for o in only): continue
        txt = open(src).read()
        lines = re.findall(r"^// @run (\w+)(.*)$", txt, re.M)
        opts = sum((l.split() for l in re.findall(r"^// @opts (.*)$", txt, re.M)), [])
        meta["bounds"] += [os.path.basename(src) + ": " + b.strip() for b in re.findall(r"^// @bounds (.*)$", txt, re.M)]
        meta["assume"] += [a.strip() for a in re.findall(r"^// @assume (.*)$", txt, re.M)]
        sel = [d.split() for t, d in lines if t == tier] or [d.split() for t, d in lines if t == "quick"]
        if not lines: sel = [[]]
        for d in sel:
            r = Run(src, d, opts, th)
            r.covers = sum((l.split() for l in re.findall(r"^// @covers (.*)$", txt, re.M)), [])
            runs.append(r)
    want = [a.split("=", 1)[1] for a in sys.argv if a.startswith("--def=")]
    if want: runs = [r for r in runs if all(w in " ".join(r.defs) for w in want)]
    if not runs: raise CannotDecide("no harness for " + pid)

    pool = cf.ThreadPoolExecutor(max_workers=max(2, jobs))
    fb = {r: pool.submit(r.bc, rt) for r in runs}
    fn = {r: pool.submit(r.native) for r in runs}
    known = load_known(pid)
    tot = {}
    cov, lines_hit = {}, {}
    findings, unconfirmed, problems, samples, per = [], [], [], [], []
    validated = obscmp = 0
    incomplete = 0
    knownhit = {}
    for i, r in enumerate(runs):
        fb[r].result()
        left = HARD - (time.time() - T0)
        # fair share of what is left, but at least 20 s
        share = max(20.0, (left - 60) / max(1, (len(runs) - i)) * (1.0 if i == len(runs) - 1 else 1.6))
        share = min(share, max(5.0, left - 45))
        outf = r.base + ".out.%d" % os.getpid()
        t1 = time.time()
        p = sh([os.path.join(BUILD, "gsym"), "-o", outf, "-j", str(jobs), "-t", "%.0f" % share, "-s", str(seed)] + r.opts + [r.base + ".bc"])
        recs = []
        try:
            for l in open(outf, errors="replace"):
                try: recs.append(json.loads(l))
                except ValueError: pass
            os.unlink(outf)
        except OSError: pass
        summ = [x for x in recs if x["type"] == "summary"]
        if not summ: problems.append("%s: engine gave no summary: %s" % (r.name, p.stdout[-800:])); continue
        summ = summ[0]
        for k, v in summ.items():
            if isinstance(v, int) and k not in ("type",):
                tot[k] = max(tot.get(k, 0), v) if k in ("max_inputs", "max_query_ns") else tot.get(k, 0) + v
        for f, c in summ["coverage"].items():
            d = cov.setdefault(f, set())
            lines_hit.setdefault(f, set()).update(c["hit"])
            for x in c["functions"]: d.add(re.sub(r"<.*", "", x.rsplit(":", 1)[0]) or x)
        if summ["fatal"]: problems.append("%s: engine failure: %s" % (r.name, p.stdout[-800:]))
        if summ["unsupported"]:
            u = [x for x in recs if x["type"] == "unsupported"]
            problems.append("%s: not encodable: %s" % (r.name, "; ".join(sorted(set(x["what"] + " @ " + x.get("where", "")[:300] for x in u)))[:1500]))
        if summ["incomplete"] and not summ["findings"]: incomplete += 1
        traces = [x for x in recs if x["type"] == "trace"]
        hit = set(x["label"] for x in recs if x["type"] == "cover")
        fs = [x for x in recs if x["type"] == "finding"]
        seen = {}
        conf = 0
        for f in fs:
            key = (f["kind"], f["label"], f["where"].split(" | ")[0])
            if seen.get(key, 0) >= 2 or conf >= 4: continue
            seen[key] = seen.get(key, 0) + 1
            fn[r].result()
            ok, path, rc = replay(r, f, rdir, len(findings) + len(unconfirmed))
            f["run"] = r.name
            if ok:
                kn = [j for j in known if j["label"] == f["label"] and j["harness"] == os.path.basename(r.src)]
                if kn: knownhit[kn[0]["what"]] = True
                else: findings.append((f, path)); conf += 1
            else: unconfirmed.append((f, path, rc))
        if not fs:
            miss = [c for c in r.covers if c not in hit]
            if miss and not summ["incomplete"]: problems.append("%s: vacuous - not reached: %s" % (r.name, ",".join(miss)))
            if summ["paths"] == 0: problems.append("%s: no path completed" % r.name)
        fn[r].result()
        if not fs:
            g, bad, no = validate(r, traces, 60 if tier == "quick" else 250)
            validated += g; obscmp += no
            if bad: problems.append("%s: engine and real code disagree:\n%s" % (r.name, "\n".join(bad[:2])))
        for t in traces[:2]:
            if len(samples) < 12: samples.append({"harness": r.name, "inputs": dict((n, v) for n, v in t["inputs"]), "observed": [["%s" % n, v] for n, v in t["obs"]][:20]})
        per.append({"run": r.name, "paths": summ["paths"], "queries": summ["queries"], "exhausted": not summ["incomplete"], "wall_s": round(time.time() - t1, 2)})
        if "-v" in sys.argv: print("  %-60s paths=%d infeasible=%d queries=%d solver=%.1fs instrs=%d exhausted=%s wall=%.1fs" % (r.name, summ["paths"], summ["infeasible"], summ["queries"], summ["solver_ns"] / 1e9, summ["instrs"], not summ["incomplete"], time.time() - t1), flush=True)
        if findings: break   # a violation decides the check
    pool.shutdown(wait=False, cancel_futures=True)
    for w in knownhit: print("KNOWN-FINDING: property=%s %s" % (pid, w))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0) + tot.get("forks", 0), "transitions": tot.get("symbolic_branches", 0) + tot.get("picks", 0),
            "traces_validated_against_impl": validated, "samples": samples or [{"note": "none"}],
            "exhaustive": incomplete == 0,
            "paths": tot.get("paths", 0), "paths_pruned_by_assumptions": tot.get("infeasible", 0), "forks": tot.get("forks", 0), "instructions": tot.get("instrs", 0),
            "solver_queries": tot.get("queries", 0), "queries_sat": tot.get("sat", 0), "queries_unsat": tot.get("unsat", 0), "queries_unknown": tot.get("unknown", 0),
            "queries_linear_integer": tot.get("queries_lia", 0), "query_cache_hits": tot.get("cache_hits", 0), "witnesses_by_evaluation": tot.get("domain", 0), "infeasible_by_complete_evaluation_only": tot.get("eval_unsat", 0),
            "solver_time_s": round(tot.get("solver_ns", 0) / 1e9, 3), "slowest_query_s": round(tot.get("max_query_ns", 0) / 1e9, 3),
            "assertions_checked": tot.get("asserts", 0), "assertions_closed_by_solver": tot.get("asserts_query", 0), "assertions_closed_by_rewriting": tot.get("asserts_const", 0),
            "observations_compared_natively": obscmp, "symbolic_inputs_max": tot.get("max_inputs", 0), "bytecode_instructions_encoded": tot.get("bytecode", 0),
            "bounds": meta["bounds"], "runs": per,
            "functions_encoded": {f: sorted(s) for f, s in sorted(cov.items())}, "functions_encoded_count": sum(len(s) for s in cov.values()),
            "lines_encoded_count": {f: len(x) for f, x in sorted(lines_hit.items())},
            "unconfirmed_candidates": [{"kind": f["kind"], "label": f["label"], "where": f["where"], "inputs": f["inputs"], "native": str(rc)} for f, _, rc in unconfirmed],
        },
        "assumptions": meta["assume"] + [
            "bounds as listed; nothing is claimed outside them",
            "clang -O1 IR of the real headers stands for the code; sampled paths are replayed on a g++ -O0 ASan/UBSan build and every observed value compared",
            "the compiled part of libstdc++ is modelled by rt/rt.cpp; <format> messages are not modelled",
            "floating point is evaluated concretely per path"],
        "wall_s": round(time.time() - T0, 2), "violations": len(findings),
    }
    if os.environ.get("GSYM_LINES"): json.dump({f: sorted(x) for f, x in lines_hit.items()}, open(os.path.join(os.environ["GSYM_LINES"], pid + ".json"), "w"))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as o: json.dump(ev, o, indent=1)
    for f, path in findings:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s\n  in %s\n  at %s\n  inputs %s" % (f["kind"], f["label"], f["run"], f["where"][:400], rec(f["inputs"])[:600]))
    if findings: return 1
    for f, path, rc in unconfirmed[:4]:
        print("UNCONFIRMED %s: %s at %s inputs %s (native run: %s)" % (f["kind"], f["label"], f["where"][:300], rec(f["inputs"])[:400], rc))
    for p in problems: print("PROBLEM " + p)
    if unconfirmed or problems: return 2
    print("OK property=%s tier=%s runs=%d paths=%d queries=%d solver=%.1fs validated=%d exhaustive=%s wall=%.1fs" % (pid, tier, len(runs), tot.get("paths", 0), tot.get("queries", 0), tot.get("solver_ns", 0) / 1e9, validated, incomplete == 0, time.time() - T0))
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except CannotDecide as e:
        print("CANNOT-DECIDE " + str(e)); sys.exit(2)
