"""C33: tools/generate_tracepoint_labels.py, executed symbolically (CrossHair's proxies over Z3).

The script's own functions run, loaded from the repository on every run; `open` and `os` are a file system in memory.
The labels, the white space around the markers and the other lines are symbolic strings; which file a line is in and
which outputs are asked for are the skeleton the solver runs are made for.
"""
import os, sys

NUL = "\0"


class Fail(Exception):
    pass


def check(cond, msg):
    if not cond:
        raise Fail(msg)


class File:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode, self.closed = fs, path, mode, False
        if "w" in mode:
            fs.out[path] = []
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def __iter__(self):
        return iter(self.readlines())

    def readlines(self):
        return [l + "\n" for l in self.fs.src[self.path]]

    def read(self):
        return "".join(self.readlines())

    def readline(self):
        l = self.readlines()
        self.pos += 1
        return l[self.pos - 1] if self.pos <= len(l) else ""

    def write(self, text):
        check("w" in self.mode and not self.closed, "write to a file that is not open for it")
        self.fs.out[self.path].append(text)

    def writelines(self, lines):
        for l in lines:
            self.write(l)


class Fs:
    """src: absolute path -> list of lines; everything else does not exist"""
    def __init__(self, src, cwd="/w"):
        self.src, self.cwd, self.out = src, cwd, {}

    def open(self, path, mode="r", *a, **k):
        path = self.abspath(path)
        if "w" not in mode and path not in self.src:
            raise FileNotFoundError(path)
        return File(self, path, mode)

    def abspath(self, p):
        return os.path.normpath(os.path.join(self.cwd, p))

    def walk(self, top, *a, **k):
        top_a = self.abspath(top)
        dirs, files = [], []
        for p in sorted(self.src):
            if not p.startswith(top_a + "/"):
                continue
            rest = p[len(top_a) + 1:].split("/")
            if len(rest) == 1:
                files.append(rest[0])
            elif rest[0] not in dirs:
                dirs.append(rest[0])
        yield top, dirs, files
        for d in dirs:
            for x in self.walk(os.path.join(top, d)):
                yield x


class PathShim:
    def __init__(self, fs):
        self._fs = fs

    def __getattr__(self, n):
        return getattr(os.path, n)

    def abspath(self, p):
        return self._fs.abspath(p)

    def exists(self, p):
        return self._fs.abspath(p) in self._fs.src

    isfile = exists


class OsShim:
    def __init__(self, fs):
        self.path, self.walk, self.sep, self.linesep = PathShim(fs), fs.walk, "/", "\n"
        self._fs = fs

    def getcwd(self):
        return self._fs.cwd

    def __getattr__(self, n):
        return getattr(os, n)


class ListSet:
    """a set decided by equality alone, so that symbolic members stay symbolic"""
    def __init__(self, it=()):
        self.l = []
        for x in it:
            self.add(x)

    def add(self, x):
        if x not in self:
            self.l.append(x)

    def update(self, it):
        for x in it:
            self.add(x)

    def __contains__(self, x):
        for y in self.l:
            if x == y:
                return True
        return False

    def __iter__(self):
        return iter(self.l)

    def __len__(self):
        return len(self.l)


def load(path):
    with open(path) as f:
        src = f.read()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        code = compile(src, path, "exec")

    def instance(fs):
        g = {"__name__": "labels_under_test", "__file__": path}
        exec(code, g)
        g["open"], g["os"], g["set"] = fs.open, OsShim(fs), ListSet
        return g
    return instance


CPP, LUA, OTHER = "cpp", "lua", "other"


def line(kind, a, label, b):
    """a marker line: white space a before, b after"""
    if kind == CPP:
        return a + "HT_TP_GLOBAL_SCOPED_INT(" + label + ");" + b
    if kind == LUA:
        return a + "--@TracepointStart " + label + b
    return label


def expected(src, dirs, outs, marks):
    """marks: list of (path, kind, label): the distinct labels marked for each language whose output is asked for"""
    want = {}
    for lang, exts in (("cpp", (".c", ".cpp", ".h", ".hpp")), ("lua", (".lua",))):
        l = []
        if outs[lang]:
            for p, k, lab in marks:
                if k == lang and p.endswith(exts) and p.startswith(dirs[lang] + "/"):
                    dup = False
                    for x in l:
                        if x == lab:
                            dup = True
                    if not dup:
                        l.append(lab)
        want[lang] = l
    return want


def parse_header(t):
    r = []
    for l in t.split("\n"):
        if l.startswith("#define hawktracer_autogen_tracepoint_label_"):
            rest = l[len("#define hawktracer_autogen_tracepoint_label_"):]
            w = rest.split(" ")
            check(len(w) == 2, "the header has a malformed definition")
            r.append((w[0], int(w[1])))
    return r


def parse_lua(t):
    r = []
    for l in t.split("\n"):
        if l == "":
            continue
        check(l.startswith("local "), "the Lua file has an unexpected line")
        w = l[len("local "):].split(" = ")
        check(len(w) == 2 and w[0] != "" and w[1] != "", "the Lua file is no valid Lua: a declaration without a name")
        n, v = w[0].split(","), w[1].split(",")
        check(len(n) == len(v), "the Lua file declares %d names and %d values" % (len(n), len(v)))
        for i in range(len(n)):
            r.append((n[i].strip(" "), int(v[i])))
    return r


def parse_map(t):
    r = []
    for l in t.split("\n"):
        if l == "":
            continue
        w = l.split(" ")
        check(len(w) == 3, "a map line does not have three words")
        r.append((w[0], w[1], int(w[2])))
    return r


def find(pairs, label):
    r = [i for l, i in pairs if l == label]
    return r


def verify(want, outs, header, lua, mp):
    """header, lua, mp: the texts written, None if there is no such file"""
    got = {"cpp": [], "lua": []}
    if outs["cpp"]:
        check(header is not None, "no header was written")
        got["cpp"] = parse_header(header)
    if outs["lua"]:
        check(lua is not None, "no Lua file was written")
        got["lua"] = parse_lua(lua)
    ids = []
    for lang in ("cpp", "lua"):
        check(len(got[lang]) == len(want[lang]), "%s: %d labels defined, %d are marked" % (lang, len(got[lang]), len(want[lang])))
        for lab in want[lang]:
            f = find(got[lang], lab)
            check(len(f) == 1, "%s: a marked label is defined %d times" % (lang, len(f)))
            ids.append(f[0])
    check(sorted(ids) == list(range(1, len(ids) + 1)), "identifiers are not distinct and consecutive from 1: %s" % sorted(ids))
    if outs["map"]:
        check(mp is not None, "no map was written")
        m = parse_map(mp)
        check(len(m) == len(ids), "the map has %d lines for %d labels" % (len(m), len(ids)))
        for lang in ("cpp", "lua"):
            for lab in want[lang]:
                f = [i for c, l, i in m if c == lang and l == lab]
                check(len(f) == 1, "the map names a label %d times" % len(f))
                check(f[0] == find(got[lang], lab)[0], "the map and the %s file disagree about a label" % lang)
    return len(ids)


def argv(outs, dirs, base="/w"):
    a = []
    if outs["map"]:
        a += ["--output-map", base + "/o/map"]
    for l in ("cpp", "lua"):
        if outs[l]:
            a += ["--out-%s-file" % l, base + "/o/" + l]
        if dirs[l] != base:
            a += ["--search-%s-dir" % l, dirs[l]]
    return a
