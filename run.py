#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current code.

usage: run.py PROPERTY [--tier quick|thorough] [--keep] [--job NAME] [-v]

For every job of the property (checks.py): compile /repo's sources, the harness and the runtime models to LLVM
bitcode, run the symbolic executor on it (every path, every value within the bounds, decided by Z3), replay each
counterexample and a sample of the witnesses against a native build of the same sources, write evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a counterexample was confirmed natively.
"""
import concurrent.futures as cf
import tempfile
import hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, ".build")
LLVM = "/usr/lib/llvm-18/bin"
CLANG, CLANGXX = LLVM + "/clang", LLVM + "/clang++"
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks  # noqa: E402

HT_CONFIG = """#ifndef HT_CONFIG_H
#define HT_CONFIG_H
#define HT_PLATFORM_FEATURE_CPU_USAGE_ENABLED
#define HT_PLATFORM_FEATURE_MEMORY_USAGE_ENABLED
#define HT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED
#define HT_USE_PTHREADS
#define HT_ENABLE_TCP_LISTENER
#define HT_ENABLE_THREADS
#define HT_VERSION "0.11.0"
#define HT_VERSION_MAJOR 0
#define HT_VERSION_MINOR 11
#define HT_VERSION_PATCH 0
#endif
"""


def sh(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf-8", "replace")


def demangled(names):
    p = subprocess.run(["c++filt", "-p"], input="\n".join(names).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.stdout.decode().split("\n") if p.returncode == 0 and names else names


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, "rb") as f:
            h.update(p.encode() + f.read())
    return h.hexdigest()[:16]


def engine():
    src = [os.path.join(V, "engine", f) for f in ("expr.h", "expr.cpp", "exec.cpp", "build.sh")]
    d = digest(src)
    stamp = os.path.join(BUILD, "engine." + d)
    exe = os.path.join(BUILD, "symex")
    if not (os.path.exists(stamp) and os.path.exists(exe)):
        os.makedirs(BUILD, exist_ok=True)
        rc, out = sh(["bash", os.path.join(V, "engine", "build.sh"), BUILD], timeout=800)
        if rc:
            sys.stderr.write(out)
            raise SystemExit("engine does not build")
        open(stamp, "w").close()
    return exe


def glob(d, ext, exclude=()):
    r = []
    for root, dirs, files in os.walk(os.path.join(REPO, d)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(ext) and not any(x in p for x in exclude):
                r.append(p)
    return r


def sources(comp):
    if comp == "lib":
        return glob("lib", (".c", ".cpp"), ("/windows/", "/macos/", "/osx/", "/apple/", "platform/linux/alloc_hooks.c"))
    if comp == "hooks":
        return [REPO + "/lib/platform/linux/alloc_hooks.c"]
    if comp == "parser":
        return glob("parser", (".cpp",))
    if comp == "client_utils":
        return glob("client_utils", (".cpp",))
    if comp == "client":
        return glob("client", (".cpp",), ("/client/main.cpp",))
    if comp == "client_main":
        return [REPO + "/client/main.cpp"]
    raise KeyError(comp)


class Ctx:
    def __init__(self, work, pool, verbose):
        self.work, self.pool, self.verbose = work, pool, verbose
        self.cache = {}
        gen = os.path.join(work, "gen", "hawktracer")
        os.makedirs(gen)
        with open(os.path.join(gen, "ht_config.h"), "w") as f:
            f.write(HT_CONFIG)
        self.gen = os.path.dirname(gen)

    def inc(self):
        r = []
        for d in ("lib/include", "parser/include", "client", "client/include", "client_utils/include"):
            p = os.path.join(REPO, d)
            if os.path.isdir(p):
                r += ["-I" + p]
        return r + ["-I" + self.gen, "-I" + REPO, "-I" + os.path.join(V, "include"), "-I" + os.path.join(V, "harness")]

    def flags(self, src, job, native, defs):
        cxx = src.endswith(".cpp")
        f = [CLANGXX, "-std=" + ("gnu++11" if src.startswith(REPO) else "gnu++17")] if cxx else [CLANG, "-std=gnu99"]
        f += ["-w", "-g", "-DNDEBUG", "-fPIC", "-fno-omit-frame-pointer", "-fno-builtin", "-ftrivial-auto-var-init=pattern",
              "-DHT_COMPILE_SHARED_EXPORT", "-Dhawktracer_EXPORTS"]
        if cxx:
            f += ["-include", "stdint.h"]
            if not native:
                f += ["-include", os.path.join(V, "rt", "cxxcfg.h")]
                if job.shadow:
                    f += ["-I" + os.path.join(V, "shadow")]
        f += self.inc()
        if src == REPO + "/client/main.cpp":
            f += ["-Dmain=client_main"]
        if job.threads:
            f += ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
        if native:
            f += ["-O0", "-DNATIVE_REPLAY"]
            if not job.threads:
                f += ["-fsanitize=address,undefined", "-fno-sanitize-recover=null,bounds", "-fno-sanitize=vptr,alignment,function,nonnull-attribute"]
        else:
            f += job.eopt + ["-emit-llvm"]
        f += job.cflags
        if src.endswith("/alloc_hooks.c"): # the replacements of libc's functions get names of their own
            f += ["-D%s=hooked_%s" % (n, n) for n in ("malloc", "calloc", "realloc", "free")]
        f += ["-D%s=%s" % kv for kv in defs.items()]
        return f

    def compile(self, src, job, native, defs):
        fl = self.flags(src, job, native, defs)
        key = (src, tuple(fl))
        if key not in self.cache:
            out = os.path.join(self.work, "%s.%s.%s" % (os.path.basename(src), hashlib.md5(repr(key).encode()).hexdigest()[:10], "o" if native else "bc"))
            # with threads, a schedule only carries over when the very same operations are scheduling points: same IR, then
            bc = self.compile(src, job, False, defs) if native and job.threads and not job.shadow else None

            def go():
                if bc:
                    rc, o = sh([CLANG, "-O0", "-w", "-fno-pic", "-c", "-x", "ir", bc.result(), "-o", out])
                    if rc:
                        raise BuildError("%s\n%s" % (src, o[:3000]))
                    return out
                rc, o = sh(fl + ["-c", src, "-o", out])
                if rc:
                    raise BuildError("%s\n%s" % (src, o[:3000]))
                return out
            self.cache[key] = self.pool.submit(go)
        return self.cache[key]

    def rt(self, name):
        """runtime models for the engine, cached across runs"""
        src = os.path.join(V, "rt", name)
        hd = [os.path.join(V, "rt", "eng.h"), os.path.join(V, "rt", "cxx_containers.inc"), os.path.join(V, "include", "sym.h")]
        out = os.path.join(BUILD, "rt." + name + "." + digest([src] + hd) + ".bc")
        if not os.path.exists(out):
            cxx = name.endswith(".cpp")
            cmd = ([CLANGXX, "-std=c++17", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] if cxx else [CLANG]) + \
                ["-w", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-emit-llvm", "-c", src, "-o", out + ".%d" % os.getpid()]
            rc, o = sh(cmd)
            if rc:
                raise SystemExit("runtime model does not compile: " + o)
            os.replace(out + ".%d" % os.getpid(), out)
        return out

    def srcs(self, job):
        r = []
        for c in job.comps:
            r += sources(c)
        r += [os.path.join(REPO, x) for x in job.extra_src]
        r = [s for s in r if not any(x in s for x in job.drop)]
        return r

    def bitcode(self, job, defs):
        h = os.path.join(V, "harness", job.harness)
        parts = [self.compile(h, job, False, defs)] + [self.compile(s, job, False, {}) for s in self.srcs(job)]
        parts = [p.result() for p in parts]
        rts = [self.rt(n) for n in ("libc.c", "sync.c", "tsan.c", "cxx.cpp")]
        tag = job.name
        out = os.path.join(self.work, "all.%s.bc" % tag)
        first = parts + [r for r in rts]
        rc, o = sh([LLVM + "/llvm-link", "-o", out + ".l"] + [parts[0]] + sum([["--override=" + p] if False else [p] for p in parts[1:]], []) + rts)
        if rc:
            raise BuildError("llvm-link: " + o[:3000])
        rc, o = sh([LLVM + "/opt", "-passes=mem2reg", out + ".l", "-o", out])
        os.unlink(out + ".l")
        if rc:
            raise BuildError("opt: " + o[:2000])
        return out

    def native(self, job, defs):
        h = os.path.join(V, "harness", job.harness)
        ho = self.compile(h, job, True, defs)
        parts = [self.compile(s, job, True, {}) for s in self.srcs(job)]
        ho = ho.result()
        parts = [p.result() for p in parts]
        rc, o = sh([LLVM + "/llvm-nm", "--defined-only", "--format=just-symbols", ho])
        hs = sorted(s for s in o.split() if s.startswith("hs_"))
        d = os.path.join(self.work, "nat." + job.name)
        os.makedirs(d, exist_ok=True)
        ren = []
        if hs:
            rf = os.path.join(d, "redef")
            with open(rf, "w") as f:
                for s in hs:
                    f.write("%s %s\n" % (s[3:], s))
            for p in parts:
                q = os.path.join(d, os.path.basename(p))
                rc, o = sh(["objcopy", "--redefine-syms=" + rf, p, q])
                if rc:
                    raise BuildError("objcopy: " + o)
                ren.append(q)
        else:
            ren = parts
        rto = []
        names = ["sym_native.c"] + (["sync.c", "tsan.c", "cxx_native.cpp"] if job.threads else ["eng_stub.c"])
        for n in names:
            q = os.path.join(d, n + ".o")
            san = [] if job.threads else ["-fsanitize=address"]
            rc, o = sh([CLANGXX if n.endswith(".cpp") else CLANG, "-w", "-g", "-O1", "-fno-builtin", "-DNATIVE_REPLAY"] + san + ["-c", os.path.join(V, "rt", n), "-o", q])
            if rc:
                raise BuildError(o)
            rto.append(q)
        exe = os.path.join(self.work, "native." + job.name)
        san = [] if job.threads else ["-fsanitize=address,undefined"]
        rc, o = sh([CLANGXX] + san + (["-no-pie"] if job.threads else []) + ["-rdynamic", "-o", exe, ho] + ren + rto + ["-ldl", "-lpthread"])
        if rc:
            raise BuildError("native link: " + o[-3000:])
        return exe


class BuildError(Exception):
    pass


def run_native(job, exe, inp, work, valgrind=False):
    env = {"PATH": "/usr/bin:/bin", "SYM_INPUT": inp, "HOME": work, "LANG": "C",
           "ASAN_OPTIONS": "exitcode=66:detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0",
           "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=67", "MALLOC_PERTURB_": "65"}
    cmd = [exe]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=66", "--leak-check=no"] + cmd
    d = tempfile.mkdtemp(prefix="cwd.", dir=work)
    rc, out = sh(cmd, timeout=60 if valgrind else 20, env=env, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def confirm(job, v, exe, work):
    """does the counterexample make the real code misbehave natively?"""
    rc, out = run_native(job, exe, v["file"], work)
    k = v["kind"]
    bad = rc in (66, 67, 77, 80, 81) or rc < 0
    if rc == -999 and k not in ("hang",):
        bad = False
    if k == "hang" and rc == -999:
        bad = True
    if not bad and job.threads and k not in ("check", "hang"):
        rc, out = run_native(job, exe, v["file"], work, valgrind=True)
        bad = rc == 66 or (rc < 0 and rc != -999) or rc in (77, 80, 81)
    return bad, rc, out


def run_job(ctx, job, tier, exe_engine, pid):
    t0 = time.time()
    res = {"job": job.name, "known": job.known, "status": "ok", "notes": [], "violations": [], "validated": 0, "mismatch": 0}
    defs = dict(job.defs)
    if tier == "thorough":
        defs.update(job.tdefs)
    res["defs"] = defs
    try:
        bc = ctx.bitcode(job, defs)
    except BuildError as e:
        res["status"] = "build"
        res["notes"].append("cannot encode: " + str(e)[:1500])
        return res
    out = os.path.join(ctx.work, "out." + job.name)
    mt = job.time if tier == "quick" else max(job.time, job.ttime)
    cmd = [exe_engine, "--out", out, "--max-time", str(mt), "--witness", str(job.witness), "--max-steps", str(job.steps),
           "--max-viol", "4" if not job.known else "1", "--preempt", str(job.tpreempt if tier == "thorough" else job.preempt),
           "--max-mem", str(job.mem if tier == "quick" else job.mem * 2)] + job.opts
    if tier == "thorough" and os.environ.get("VERIF_DUMP"):
        dd = os.path.join(ctx.work, "dump." + job.name)
        os.makedirs(dd)
        cmd += ["--dump", dd]
    rc, o = sh(cmd + [bc], timeout=mt + 60)
    try:
        with open(out + ".json") as f:
            j = json.load(f)
    except (OSError, ValueError):
        res["status"] = "engine"
        res["notes"].append("engine rc=%s %s" % (rc, o[-500:]))
        return res
    res["r"] = j
    os.unlink(bc)
    if not j["complete"]:
        res["notes"].append("incomplete: %s %s" % (j["why"], json.dumps(j["inconclusive"])[:600]))
    need = j["violations"] or j["witness"]
    if need:
        try:
            nat = ctx.native(job, defs)
        except BuildError as e:
            res["notes"].append("native replay build failed: " + str(e)[:1500])
            nat = None
        if nat:
            for v in j["violations"]:
                ok, nrc, nout = confirm(job, v, nat, ctx.work)
                v["confirmed"], v["native_rc"], v["native_out"] = ok, nrc, nout[-3000:]
                if ok:
                    res["violations"].append(v)
                else:
                    res["notes"].append("engine reported '%s: %s' at %s but the native replay ended with %s: not counted (%s)" % (v["kind"], v["msg"], v["where"], nrc, nout[-300:]))
            for w in j["witness"]:
                nrc, nout = run_native(job, nat, w, ctx.work)
                with open(w) as f:
                    exp = [l.strip() for l in f if l.startswith("obs ")]
                got = [l.strip() for l in nout.splitlines() if l.startswith("obs ")]
                if nrc == 0 and "SYM_DONE" in nout and exp == got:
                    res["validated"] += 1
                else:
                    res["mismatch"] += 1
                    res["notes"].append("witness %s: native rc=%s exp=%s got=%s %s" % (os.path.basename(w), nrc, exp[:40], got[:40], nout[-600:]))
    if j["paths"] == 0 and not j["violations"]:
        res["notes"].append("vacuous: no path completed")
    for m in job.reach:
        if not j["reached"].get(m):
            res["notes"].append("never reached: " + m)
    res["time"] = time.time() - t0
    return res


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid, only, keep, verbose = None, None, False, False
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--job":
            only = args.pop(0)
        elif a == "--keep":
            keep = True
        elif a == "-v":
            verbose = True
        else:
            pid = a
    if pid == "--setup" or pid is None:
        engine()
        c = type("X", (), {})()
        Ctx.rt(c, "cxx.cpp")
        return 0
    if pid in checks.EXTERNAL:
        return external(pid, tier, seed, only, verbose)
    t0 = time.time()
    exe = engine()
    work = os.path.join(BUILD, "run.%s.%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    jobs = [j for j in checks.jobs(pid) if (tier == "thorough" or not j.thorough_only) and (only is None or j.name == only)]
    try:
        with cf.ThreadPoolExecutor(8) as pool, cf.ThreadPoolExecutor(8) as jp:
            ctx = Ctx(work, pool, verbose)
            for n in ("libc.c", "sync.c", "tsan.c", "cxx.cpp"):
                ctx.rt(n)
            results = list(jp.map(lambda j: run_job(ctx, j, tier, exe, pid), jobs))
        return report(pid, tier, seed, jobs, results, time.time() - t0, work, verbose)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


TOOLPY = "/opt/veriftools/pyvenv/bin/python3"


def external(pid, tier, seed, only, verbose):
    """a property of a Python script: py/run_labels.py explores, this writes the evidence"""
    t0 = time.time()
    p = subprocess.run([TOOLPY if os.path.exists(TOOLPY) else "python3-vt", os.path.join(V, "py", "run_labels.py"), REPO, tier, "60" if tier == "quick" else "1200"] + ([only] if only else []),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        rs = json.loads(p.stdout)
    except ValueError:
        print("NOTE property=%s no result: rc=%s %s" % (pid, p.returncode, (p.stdout + p.stderr)[-1500:]))
        return 2
    ev = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
    rep = os.path.join(ev, "replay", pid)
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(ev, exist_ok=True)
    out, jl, samples, fns = [], [], [], set()
    tot = {k: 0 for k in ("paths", "q", "sat", "unsat", "unknown", "validated", "mismatch")}
    st = 0.0
    for i, r in enumerate(rs):
        for k in ("q", "sat", "unsat", "unknown"):
            tot[k] += r["z3"][k]
        st += r["z3"]["t"]
        tot["paths"] += r["paths"]
        tot["validated"] += r["validated"]
        tot["mismatch"] += len(r["mismatch"])
        fns.update(r["functions"])
        notes = ["witness: %s" % json.dumps(m)[:600] for m in r["mismatch"]] + ["not confirmed natively: %s" % json.dumps(u)[:600] for u in r.get("unconfirmed", [])]
        if not r["exhausted"] and not r["viol"]:
            notes.append("incomplete: %s after %d paths" % (r["status"], r["paths"]))
        jl.append({"job": r["name"], "bounds": r["bounds"], "complete": r["exhausted"], "paths": r["paths"], "queries": r["z3"]["q"], "solver_s": round(r["z3"]["t"], 2), "engine_s": round(r["time"], 1),
                   "paths_by_labels_found": r["labels"], "notes": notes})
        for n in notes:
            print("NOTE property=%s job=%s %s" % (pid, r["name"], n))
        if r["wit"] and len(samples) < 6:
            samples.append({"job": r["name"], "inputs": r["wit"][0]})
        if r["viol"]:
            os.makedirs(rep, exist_ok=True)
            f = os.path.join(rep, "%d.json" % i)
            with open(f, "w") as g:
                json.dump({"skeleton": r["bounds"], "name": r["name"], "violation": r["viol"], "reproduce": "python3 /verif/replay.py " + f}, g, indent=1)
            out.append("VIOLATION property=%s replay=%s  (%s: %s)" % (pid, f, r["name"], r["viol"]["native"]))
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(out),
           "coverage": {"states": tot["paths"], "transitions": tot["q"], "traces_validated_against_impl": tot["validated"], "samples": samples or ["no completed path"],
                        "exhaustive": all(x["complete"] for x in jl), "paths_completed": tot["paths"], "solver_queries": tot["q"], "solver_sat": tot["sat"], "solver_unsat": tot["unsat"], "solver_unknown": tot["unknown"],
                        "solver_time_s": round(st, 2), "witness_mismatches": tot["mismatch"], "functions_encoded": sorted(fns), "jobs": jl,
                        "rule": "states: symbolic paths executed to the end, each standing for all inputs that take it; transitions: solver queries that decided a branch or an assertion"},
           "assumptions": ["CrossHair's symbolic strings, integers and regular expressions behave as Python's (every witness is replayed by /usr/bin/python3 on real files)",
                           "the file system is the one in py/labels.py: text files, nothing else changes it", "the default search patterns"]}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    print("property=%s tier=%s jobs=%d paths=%d queries=%d solver=%.1fs functions=%d validated=%d mismatches=%d wall=%.1fs" % (
        pid, tier, len(rs), tot["paths"], tot["q"], st, len(fns), tot["validated"], tot["mismatch"], time.time() - t0))
    if verbose:
        for x in jl:
            print("  %-48s complete=%s paths=%s queries=%s solver=%ss engine=%ss" % (x["job"], x["complete"], x["paths"], x["queries"], x["solver_s"], x["engine_s"]))
    for l in out:
        print(l)
    return 1 if out else 0


def replay(pid, name, path):
    """build /repo natively and run one recorded counterexample; exit 1 if it still fails"""
    job = [j for j in checks.jobs(pid) if j.name == name][0]
    head = open(path).read(4000)
    m = re.search(r"defs (\{.*?\})", head)
    defs = eval(m.group(1)) if m else dict(job.defs)
    work = os.path.join(BUILD, "replay.%d" % os.getpid())
    os.makedirs(work)
    try:
        with cf.ThreadPoolExecutor(8) as pool:
            nat = Ctx(work, pool, False).native(job, defs)
        inp = os.path.join(work, "input")
        with open(path) as f, open(inp, "w") as g:
            g.write("".join(l for l in f if not l.startswith("#")))
        rc, out = run_native(job, nat, inp, work)
        print(out)
        print("native run ended with code %d" % rc)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def read_sample(path):
    try:
        with open(path) as f:
            return [l.strip() for l in f][:60]
    except OSError:
        return []


def report(pid, tier, seed, jobs, results, wall, work, verbose):
    ev = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
    rep = os.path.join(ev, "replay", pid)
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(ev, exist_ok=True)
    tot = {k: 0 for k in ("paths", "states", "forks", "insts", "branches", "checks", "memchecks", "sched_points", "queries", "sat", "unsat", "unknown", "cache_hits", "model_hits", "solver_time")}
    fns, samples, violations, known, jl = {}, [], [], [], []
    validated = mismatch = 0
    for job, r in zip(jobs, results):
        j = r.get("r")
        validated += r["validated"]
        mismatch += r["mismatch"]
        if j:
            for k in tot:
                tot[k] += j[k]
            for n, f, l, c in j["functions"]:
                fns[n] = "%s:%d" % (os.path.relpath(f, REPO) if f.startswith(REPO) else f, l)
            if j["witness"] and len(samples) < 4:
                samples.append({"job": job.name, "inputs": read_sample(j["witness"][0])})
        jl.append({"job": job.name, "bounds": job.bounds, "defs": r.get("defs"), "complete": bool(j and j["complete"]), "status": r["status"],
                   "preemption_bound": (job.tpreempt if tier == "thorough" else job.preempt) if job.threads else None,
                   "paths": j and j["paths"], "queries": j and j["queries"], "solver_s": j and round(j["solver_time"], 2), "engine_s": j and round(j["time"], 1),
                   "asserted": j and {m: c for m, c in j["checks_by_msg"].items()}, "notes": r["notes"], "known_finding": job.known})
        for v in r["violations"]:
            if job.known:
                known.append((job, v))
            else:
                violations.append((job, r, v))
        for n in r["notes"]:
            print("NOTE property=%s job=%s %s" % (pid, job.name, n.replace("\n", " ")[:900 if not verbose else 6000]))
    out = []
    for i, (job, r, v) in enumerate(violations):
        os.makedirs(rep, exist_ok=True)
        p = os.path.join(rep, "%d.%s.txt" % (i, job.name))
        with open(p, "w") as f:
            f.write("# property %s, job %s, harness %s, defs %s\n# %s: %s\n# at %s\n# stack:\n" % (pid, job.name, job.harness, r["defs"], v["kind"], v["msg"], v["where"]))
            f.write("".join("#   %s\n" % s for s in v["stack"].split("\n")))
            f.write("# native replay ended with code %s; its output:\n" % v["native_rc"])
            f.write("".join("#   %s\n" % s for s in v["native_out"].splitlines()))
            f.write("# reproduce: python3 /verif/replay.py %s\n" % p)
            with open(v["file"]) as g:
                f.write(g.read())
        out.append("VIOLATION property=%s replay=%s  (%s: %s at %s)" % (pid, p, v["kind"], v["msg"], v["where"]))
    for job, v in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, job.known))
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(violations),
        "coverage": {
            "states": tot["states"], "transitions": tot["branches"] + tot["sched_points"],
            "traces_validated_against_impl": validated, "samples": samples or ["no completed path"],
            "exhaustive": all(x["complete"] for x in jl) if jl else False,
            "paths_completed": tot["paths"], "instructions_executed": tot["insts"], "assertions_evaluated": tot["checks"],
            "memory_safety_conditions": tot["memchecks"], "solver_queries": tot["queries"], "solver_sat": tot["sat"], "solver_unsat": tot["unsat"],
            "solver_unknown": tot["unknown"], "verdicts_from_query_cache": tot["cache_hits"], "verdicts_from_known_model": tot["model_hits"], "solver_time_s": round(tot["solver_time"], 2), "witness_mismatches": mismatch,
            "functions_encoded": demangled(["%s (%s)" % (n, fns[n]) for n in sorted(fns)]), "jobs": jl,
            "rule": "states: symbolic states explored; transitions: branch decisions and scheduling points executed; an assertion is decided by Z3 for all values on the path"},
        "assumptions": checks.assumptions(pid),
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    print("property=%s tier=%s jobs=%d paths=%d queries=%d solver=%.1fs functions=%d validated=%d mismatches=%d wall=%.1fs" % (
        pid, tier, len(jobs), tot["paths"], tot["queries"], tot["solver_time"], len(fns), validated, mismatch, wall))
    if verbose:
        for x in jl:
            print("  %-24s complete=%s paths=%s queries=%s solver=%ss engine=%ss %s" % (x["job"], x["complete"], x["paths"], x["queries"], x["solver_s"], x["engine_s"], "KNOWN" if x["known_finding"] else ""))
    for l in out:
        print(l)
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
