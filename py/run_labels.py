"""Runs one skeleton group of C33; called by run.py with the tools' Python.  Prints one JSON document."""
import sys, os, json, time, collections, itertools, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import labels as L

# a skeleton: slots (path, kind), outputs asked for, search directories, what the symbolic strings are
def skeletons(tier):
    A, B, C, D, E = "/w/a.c", "/w/d/b.hpp", "/w/t.lua", "/w/n.txt", "/w/d/e/z.cpp"
    G, H = "/w/d/g.h", "/w/d/y.lua"
    full = {"cpp": True, "lua": True, "map": True}
    dw = {"cpp": "/w", "lua": "/w"}
    r = []

    def sk(name, slots, outs=None, dirs=None, **k):
        o = dict(full)
        o.update(outs or {})
        r.append(dict(name=name, slots=slots, outs=o, dirs=dirs or dw, **k))
    n = 2
    # which labels are equal, and how they sort, is up to the solver
    sk("two C++ labels in one file and a Lua label", [(A, L.CPP), (A, L.CPP), (C, L.LUA)], lab=n)
    sk("C++ labels in three files", [(A, L.CPP), (B, L.CPP), (E, L.CPP)], lab=n)
    sk("two Lua labels and a C++ label", [(G, L.CPP), (C, L.LUA), (H, L.LUA)], lab=n)
    sk("Lua labels only, both outputs", [(C, L.LUA), (C, L.LUA)], lab=n)
    sk("no C++ output", [(A, L.CPP), (C, L.LUA), (H, L.LUA)], {"cpp": False}, lab=n)
    sk("no Lua output", [(A, L.CPP), (B, L.CPP), (C, L.LUA)], {"lua": False}, lab=n)
    sk("no map", [(A, L.CPP), (B, L.CPP), (C, L.LUA)], {"map": False}, lab=n)
    sk("map alone", [(A, L.CPP), (C, L.LUA)], {"cpp": False, "lua": False}, lab=n)
    sk("search directories differ", [(A, L.CPP), (B, L.CPP), (C, L.LUA), (H, L.LUA)], None, {"cpp": "/w/d", "lua": "/w"}, lab=1)
    sk("markers in files of another kind", [(C, L.CPP), (A, L.LUA), (D, L.CPP), (B, L.CPP)], lab=n)
    sk("names that only contain an extension", [("/w/x.c.d/n.txt", L.CPP), ("/w/p.lua.bak", L.LUA), (A, L.CPP), (C, L.LUA), ("/w/i.html", L.CPP)], lab=1)
    sk("no labels at all", [(A, L.OTHER), (C, L.OTHER)], lab=2 if tier == "quick" else 3)
    for k, p, q in ((L.CPP, A, B), (L.LUA, C, H)):
        sk("white space around a %s marker" % k, [(p, k), (q, k)], lab=1, ws=2)
        sk("a long %s label" % k, [(p, k)], lab=8 if tier == "quick" else 16)
        sk("another line beside a %s marker" % k, [(p, L.OTHER), (p, k), (p, L.OTHER)], lab=2, other=2 if tier == "quick" else 3)
        sk("a longer word is no %s marker" % k, [(p, "near" + k), (q, k)], lab=1)
    # every order of files, and labels that repeat, at one character each
    sk("four C++ labels", [(A, L.CPP), (A, L.CPP), (B, L.CPP), (E, L.CPP)], lab=1)
    if tier == "thorough":
        sk("five labels", [(A, L.CPP), (B, L.CPP), (C, L.LUA), (H, L.LUA), (A, L.CPP)], lab=2)
        sk("four C++ labels of two characters", [(A, L.CPP), (A, L.CPP), (B, L.CPP), (E, L.CPP)], lab=2)
        sk("three long labels", [(A, L.CPP), (B, L.CPP), (C, L.LUA)], lab=4)
        for outs in itertools.product((False, True), repeat=3):
            sk("outputs %s" % (outs,), [(A, L.CPP), (B, L.CPP), (C, L.LUA), (H, L.LUA)], dict(zip(("cpp", "lua", "map"), outs)), lab=1)
    return r


def build(sk, labs, pre, post):
    """the files' lines and the labels they mark"""
    src, marks = {}, []
    for i, (p, k) in enumerate(sk["slots"]):
        l = src.setdefault(p, [])
        if k.startswith("near"):
            l.append(labs[i] + L.line(k[4:], "", "ok", "") if k == "nearcpp" else "--@TracepointStart" + labs[i] + " ok")
        else:
            l.append(L.line(k, pre[i], labs[i], post[i]))
        if k in (L.CPP, L.LUA):
            marks.append((p, k, labs[i]))
    return src, marks


def run_concrete(instance, sk, labs, pre, post):
    src, marks = build(sk, labs, pre, post)
    return outputs(instance, sk, src), marks


def outputs(instance, sk, src):
    fs = L.Fs(src)
    g = instance(fs)
    g["run_program"](L.argv(sk["outs"], sk["dirs"]))
    return {k: ("".join(v)) for k, v in ((os.path.basename(p), v) for p, v in fs.out.items())}


def judge(sk, marks, out):
    want = L.expected(None, sk["dirs"], sk["outs"], marks)
    for k in ("cpp", "lua", "map"):
        L.check(sk["outs"][k] or k not in out, "an output nobody asked for was written")
    return L.verify(want, sk["outs"], out.get("cpp"), out.get("lua"), out.get("map"))


def native(script, sk, labs, pre, post):
    """the real script, real files, the system's Python"""
    d = tempfile.mkdtemp(prefix="labels.")
    try:
        src, marks = build(sk, labs, pre, post)
        for p, ls in src.items():
            q = d + p
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w") as f:
                f.write("".join(l + "\n" for l in ls))
        os.makedirs(d + "/o")
        dirs = {k: d + v for k, v in sk["dirs"].items()}
        a = L.argv(sk["outs"], dirs, d + "/w")
        a = [x.replace(d + "/w/o/", d + "/o/") for x in a]
        for l in ("cpp", "lua"):
            if sk["outs"][l] and "--search-%s-dir" % l not in a:
                a += ["--search-%s-dir" % l, dirs[l]]
        r = subprocess.run(["/usr/bin/python3", "-W", "ignore", script] + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d + "/w", timeout=60)
        if r.returncode != 0:
            return "the script fails: " + r.stdout[-800:], {}
        out = {}
        for n in os.listdir(d + "/o"):
            with open(d + "/o/" + n) as f:
                out[n] = f.read()
        try:
            judge(sk, marks, out)
        except L.Fail as e:
            return str(e), out
        return None, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def explore(script, sk, seconds, witnesses=3):
    import z3
    from crosshair.core import explore_loop, ExceptionFilter, deep_realize, PathOutcome
    from crosshair.core_and_libs import NoTracing, ResumedTracing  # noqa: also registers the library models
    from crosshair.options import AnalysisOptions, DEFAULT_OPTIONS
    from crosshair.statespace import RootNode, CallAnalysis, VerificationStatus
    from crosshair.libimpl.builtinslib import LazyIntSymbolicStr, SymbolicInt
    from crosshair.util import NotDeterministic
    st = {"q": 0, "t": 0.0, "sat": 0, "unsat": 0, "unknown": 0}
    orig = z3.Solver.check

    def counted(self, *a):
        t = time.time()
        r = orig(self, *a)
        st["t"] += time.time() - t
        st["q"] += 1
        st["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
        return r
    z3.Solver.check = counted
    instance = L.load(script)
    ns = len(sk["slots"])
    kinds = [k for _, k in sk["slots"]]
    res = {"name": sk["name"], "paths": 0, "viol": None, "wit": [], "labels": {}}

    def sym(space, name, lo, hi, first, rest):
        """a symbolic string of lo..hi characters; first and rest say which code points may stand where"""
        n = lo
        if lo != hi:
            v = SymbolicInt(name + ".len")
            space.add(z3.And(v.var >= lo, v.var <= hi))
            while n < hi and not space.smt_fork(v.var == n):
                n += 1
        cs = []
        for i in range(n):
            c = SymbolicInt("%s.%d" % (name, i))
            space.add((first if i == 0 else rest)(c.var))
            cs.append(c)
        return LazyIntSymbolicStr(cs)

    def letter(v):
        return z3.Or(v == 95, z3.And(v >= 65, v <= 90), z3.And(v >= 97, v <= 122))

    def alnum(v):
        return z3.Or(letter(v), z3.And(v >= 48, v <= 57))

    def blank(v):
        return z3.Or(v == 32, v == 9)

    def printable(v):
        return z3.And(v >= 32, v < 127)

    def inputs(space):
        a = {}
        for i, k in enumerate(kinds):
            if k in (L.CPP, L.LUA):
                a["l%d" % i] = sym(space, "l%d" % i, 1, sk["lab"], letter, alnum)
            elif k == L.OTHER:
                a["l%d" % i] = sym(space, "l%d" % i, 0, sk.get("other", sk["lab"]), printable, printable)
            else:
                a["l%d" % i] = sym(space, "l%d" % i, 1, 1, letter, letter)
        if sk.get("ws"):
            for n in ("p0", "q0"):
                a[n] = sym(space, n, 0, sk["ws"], blank, blank)
        return a

    def body(args):
        labs, pre, post = concrete(args)
        src, marks = build(sk, labs, pre, post)
        out = outputs(instance, sk, src)
        return judge(sk, marks, out)

    def concrete(a):
        labs = [a["l%d" % i] for i in range(ns)]
        pre, post = [""] * ns, [""] * ns
        if sk.get("ws"):
            pre[0], post[0] = a["p0"], a["q0"]
        return labs, pre, post

    def run_path(space):
        try:
            return run_path_1(space)
        except NotDeterministic:
            res["nondeterministic"] = res.get("nondeterministic", 0) + 1
            return PathOutcome(CallAnalysis(VerificationStatus.UNKNOWN))

    def run_path_1(space):
        args = inputs(space)
        exc = None
        with ExceptionFilter() as ef, ResumedTracing():
            n = body(args)
        if ef.user_exc:
            exc = ef.user_exc[0]
        if ef.ignore:
            return PathOutcome(CallAnalysis())
        res["paths"] += 1
        if exc is not None or len(res["wit"]) < witnesses and res["paths"] % 7 == 1:
            with ResumedTracing():
                space.detach_path()
                a = deep_realize(dict(args))
            a = {k: str(v) for k, v in a.items()}
            labs, pre, post = concrete(a)
            if exc is not None:
                bad, out = native(script, sk, labs, pre, post)
                v = {"msg": "%s: %s" % (type(exc).__name__, exc), "input": a, "native": bad, "out": out}
                if bad:
                    res["viol"] = v
                    return PathOutcome(CallAnalysis(VerificationStatus.REFUTED), True)
                res.setdefault("unconfirmed", []).append(v)
                return PathOutcome(CallAnalysis(VerificationStatus.UNKNOWN))
            res["wit"].append(a)
        if exc is None:
            res["labels"][str(int(n))] = res["labels"].get(str(int(n)), 0) + 1
        return PathOutcome(CallAnalysis(VerificationStatus.CONFIRMED))
    stats = collections.Counter()
    opts = DEFAULT_OPTIONS.overlay(per_condition_timeout=float(seconds), per_path_timeout=60.0, max_iterations=10 ** 9, max_uninteresting_iterations=sys.maxsize)
    opts.stats = stats
    t0 = time.time()
    er = explore_loop(opts, RootNode(), run_path)
    res["time"] = time.time() - t0
    res["iterations"] = er.iterations
    status = er.top_analysis.verification_status if er.top_analysis else None
    res["exhausted"] = bool(er.exhausted) and status == VerificationStatus.CONFIRMED
    res["status"] = str(status)
    z3.Solver.check = orig
    res["validated"], res["mismatch"] = 0, []
    fns = set()
    for a in res["wit"]:
        labs, pre, post = concrete(a)
        bad, out = native(script, sk, labs, pre, post)
        def prof(frame, event, arg):
            if event == "call" and frame.f_code.co_filename == script:
                fns.add("%s (tools/%s:%d)" % (frame.f_code.co_qualname, os.path.basename(script), frame.f_code.co_firstlineno))
        sys.setprofile(prof)
        try:
            mine, _ = run_concrete(instance, sk, labs, pre, post)
        finally:
            sys.setprofile(None)
        if bad is None and mine == out:
            res["validated"] += 1
        else:
            res["mismatch"].append({"input": a, "native": bad, "out": out, "model": mine})
    res["z3"] = st
    res["functions"] = sorted(fns)
    return res


def replay(path, script):
    with open(path) as f:
        d = json.load(f)
    sk, a = d["skeleton"], d["violation"]["input"]
    n = len(sk["slots"])
    pre, post = [a.get("p0", "")] + [""] * n, [a.get("q0", "")] + [""] * n
    bad, out = native(script, sk, [a["l%d" % i] for i in range(n)], pre, post)
    print(json.dumps({"files": build(sk, [a["l%d" % i] for i in range(n)], pre, post)[0], "outputs": out}, indent=1))
    print("violated: " + bad if bad else "holds for this input")
    return 1 if bad else 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2], sys.argv[3])
    import concurrent.futures as cf, multiprocessing as mp
    repo, tier, seconds = sys.argv[1], sys.argv[2], float(sys.argv[3])
    script = os.path.join(repo, "tools/generate_tracepoint_labels.py")
    sks = skeletons(tier)
    if len(sys.argv) > 4:
        sks = [s for s in sks if sys.argv[4] in s["name"]]
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
        rs = list(ex.map(explore, [script] * len(sks), sks, [seconds] * len(sks)))
    for s, r in zip(sks, rs):
        r["bounds"] = {k: s[k] for k in ("slots", "outs", "dirs", "lab", "ws", "other") if k in s}
    json.dump(rs, sys.stdout)


if __name__ == "__main__":
    sys.exit(main())
