"""Loads the resolved program: runs the libTooling extractor over every translation unit of the
project's build (taken from its sourcelist.cmake files) and merges the dumps."""
import itertools
import os, re, sys, json, hashlib, subprocess, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
DIRS = ["GcodeProcessorLib", "ArcWelder", "ArcWelderConsole", "ArcWelderInverseProcessor", "PyArcWelder"]
MIN_TUS = 25
LONGSTR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'


class AnalysisError(Exception):
    """The machinery cannot decide: an anchor vanished, the source does not parse, ..."""


def sources():
    out = []
    for d in DIRS:
        sl = os.path.join(REPO, d, "sourcelist.cmake")
        names = set()
        if os.path.exists(sl):
            names |= set(re.findall(r"([\w./-]+\.cpp)\b", open(sl).read()))
        names = [n for n in names if os.path.exists(os.path.join(REPO, d, n))]
        for n in sorted(names):
            out.append(os.path.join(REPO, d, n))
    if len(out) < MIN_TUS:
        raise AnalysisError("only %d translation units found (expected at least %d)" % (len(out), MIN_TUS))
    return out


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in DIRS + ["TCLAP"]:
        for root, _, files in os.walk(os.path.join(REPO, d)):
            if "/deploy" in root:
                continue
            for f in files:
                if f.endswith((".cpp", ".h", ".in", ".cmake", ".txt")):
                    fs.append(os.path.join(root, f))
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(open(os.path.join(VERIF, "tools", "extract.cpp"), "rb").read())
    h.update(repr(PROBE).encode())
    return h.hexdigest()[:24]


def py_include():
    c = sorted(glob.glob("/usr/include/python3*/Python.h"))
    if not c:
        raise AnalysisError("Python.h not found")
    return os.path.dirname(c[-1])


PROBE = (("array_list.h", "array_list"), ("circular_buffer.h", "circular_buffer"))


def _extract_all():
    exe = os.path.join(VERIF, "build", "extract")
    r = subprocess.run(["bash", os.path.join(VERIF, "tools", "build.sh"), exe], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])
    with tempfile.TemporaryDirectory() as gen:
        txt = open(os.path.join(REPO, "GcodeProcessorLib", "version.generated.h.in")).read()
        txt = re.sub(r"@(\w+)@", r"gen_\1", txt)
        open(os.path.join(gen, "version.generated.h"), "w").write(txt)
        flags = ["-xc++", "-std=gnu++11", "-include", "cstdint", "-DHAS_GENERATED_VERSION", "-DNDEBUG", "-w",
                 "-I" + gen, "-I" + REPO + "/GcodeProcessorLib", "-I" + REPO + "/ArcWelder", "-I" + REPO + "/TCLAP",
                 "-I" + py_include(), "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]

        def one(src):
            r = subprocess.run([exe, REPO.rstrip("/") + "/", src, "--"] + flags, capture_output=True, text=True, cwd=gen)
            if r.returncode != 0 or not r.stdout.strip():
                raise AnalysisError("extraction failed for %s: %s" % (src, r.stderr[-1500:]))
            return src, json.loads(r.stdout)
        def probe():
            """every member of the container templates, also those the program does not instantiate"""
            hs = [x for x in PROBE if os.path.exists(os.path.join(REPO, "GcodeProcessorLib", x[0]))]
            src = os.path.join(gen, "probe.cpp")
            open(src, "w").write("#include <stdexcept>\n" + "".join('#include "%s"\ntemplate class %s<int>;\n' % x for x in hs))
            try: return [one(src)]
            except AnalysisError: return []
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, sources())) + probe()


RANGES = itertools.count(10 ** 7)


def desugar(body):
    """range-based for over vectors, strings and arrays -> the index loop it stands for"""
    for n in list(walk(body)):
        if n.get("k") != "forrange" or not isinstance(n.get("v"), dict): continue
        r = n["r"]
        while r.get("k") in ("cast", "paren") and r.get("e"): r = r["e"]
        ty = r.get("ty", "").replace("const ", "").rstrip("& ")
        if r.get("k") not in ("ref", "mem") : continue
        l, i = n["l"], next(RANGES)
        m = re.match(r".*\[(\d+)\]$", ty)
        idx = {"dk": "local", "dty": "unsigned long", "id": i, "k": "ref", "l": l, "n": "range%d" % i, "ty": "unsigned long"}
        v = dict(n["v"])
        ety = v["ty"].replace("&", "").strip()
        if m:
            size = {"k": "int", "l": l, "ty": "unsigned long", "v": int(m.group(1)), "cv": int(m.group(1))}
            el = {"k": "idx", "b": r, "i": idx, "l": l, "ty": ety}
        elif ty.startswith("std::vector<") or ty == "std::string":
            size = {"a": [], "arrow": False, "cls": ty, "cm": True, "f": ty + "::size", "fid": ty + "::size() const", "k": "call", "l": l, "meth": True, "nm": "size", "pt": [], "this": r, "ty": "unsigned long"}
            el = {"a": [r, idx], "cls": ty, "f": ty + "::operator[]", "fid": ty + "::operator[](unsigned long)", "k": "call", "l": l, "meth": True, "nm": "operator[]", "oper": "[]", "pt": ["unsigned long"], "ty": ety}
        else: continue
        init = el
        if not v["ty"].rstrip().endswith("&"):
            if v.get("i") and v["i"].get("k") == "ctor": init = dict(v["i"], a=[el])
            elif ety.replace("const ", "") not in SCALAR and not ety.endswith("*"): init = {"a": [el], "cls": ety.replace("const ", ""), "copy": True, "fid": ety + "::<ctor>(const " + ety + " &)", "impl": True, "k": "ctor", "l": l, "ty": ety}
        v["i"] = init
        b = n["b"]
        n.clear()
        n.update({"k": "for", "l": l, "i": {"k": "decl", "l": l, "v": [{"i": {"k": "int", "l": l, "ty": "unsigned long", "v": 0, "cv": 0}, "id": i, "is": "c", "k": "var", "l": l, "n": idx["n"], "ty": "unsigned long"}]},
                  "c": {"a": dict(idx), "b": size, "k": "bin", "l": l, "op": "<", "ty": "bool"},
                  "n": {"e": dict(idx), "k": "un", "l": l, "op": "++", "ty": "unsigned long"},
                  "b": {"k": "block", "l": l, "s": [{"k": "decl", "l": l, "v": [v]}, b]}})


SCALAR = {"int", "unsigned int", "char", "unsigned char", "long", "unsigned long", "double", "float", "bool", "short", "unsigned short"}


class Program:
    def __init__(self):
        self.funcs = {}       # fid -> function
        self.records = {}     # class name -> record
        self.enums = {}       # enum name -> {const: value}
        self.globals = {}     # qualified name -> var
        self.by_q = {}        # qualified name -> [functions]
        self.tus = []
        h = tree_hash()
        cache = os.path.join(VERIF, "build", "cache", h + ".json")
        data = None
        if os.path.exists(cache):
            try:
                data = json.loads(open(cache).read().replace(LONGSTR, 'std::string'))
            except Exception:
                data = None
        if data is None:
            data = _extract_all()
            os.makedirs(os.path.dirname(cache), exist_ok=True)
            for old in glob.glob(os.path.join(os.path.dirname(cache), "*.json")):
                try:
                    os.remove(old)
                except OSError:
                    pass
            tmp = cache + ".%d" % os.getpid()
            json.dump(data, open(tmp, "w"))
            os.replace(tmp, cache)
            data = json.loads(open(cache).read().replace(LONGSTR, 'std::string'))
        self.hash = h
        for src, d in data:
            self.tus.append(src)
            for f in d["functions"]:
                if "/TCLAP/" in f["file"]:
                    continue
                f["tu"] = src
                f["file"] = os.path.relpath(f["file"], REPO)
                fid = f["fid"]
                if fid in self.funcs and self.funcs[fid]["file"] != f["file"]:
                    fid = fid + '@' + f["file"]      # main and file-local functions of other programs
                if fid not in self.funcs:
                    self.funcs[fid] = f
            for r in d["records"]:
                if "/TCLAP/" in r["file"]:
                    continue
                r["file"] = os.path.relpath(r["file"], REPO)
                self.records.setdefault(r["n"], r)
            for e in d["enums"]:
                self.enums.setdefault(e["n"], {c["n"]: c["v"] for c in e["c"]})
            for g in d["globals"]:
                if "/TCLAP/" in g["file"]:
                    continue
                g["file"] = os.path.relpath(g["file"], REPO)
                g["tu"] = src
                cur = self.globals.get(g["q"])
                if cur is None or ("i" not in cur and "i" in g):
                    self.globals[g["q"]] = g
        for f in self.funcs.values():
            if f.get("b"): desugar(f["b"])
        for f in self.funcs.values():
            self.by_q.setdefault(f["q"], []).append(f)
        # derived
        self.derived = {}
        for r in self.records.values():
            for b in r["bases"]:
                self.derived.setdefault(b, []).append(r["n"])
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.get("over", []):
                self.overriders.setdefault(o, []).append(f["fid"])

    # ---- lookup -----------------------------------------------------------------------------
    def find(self, q, nparams=None, pred=None, optional=False, many=False):
        fs = [f for f in self.by_q.get(q, []) if not f.get("impl")]
        if nparams is not None:
            fs = [f for f in fs if len(f["p"]) == nparams]
        if pred:
            fs = [f for f in fs if pred(f)]
        if many:
            if not fs and not optional:
                raise AnalysisError("anchor function %s not found" % q)
            return fs
        if not fs:
            if optional:
                return None
            raise AnalysisError("anchor function %s not found" % q)
        if len(fs) > 1:
            raise AnalysisError("anchor function %s is ambiguous (%d)" % (q, len(fs)))
        return fs[0]

    def record(self, n):
        if n not in self.records:
            raise AnalysisError("anchor class %s not found" % n)
        return self.records[n]

    def fields(self, n, inherited=True):
        r = self.record(n)
        out = []
        if inherited:
            for b in r["bases"]:
                if b in self.records:
                    out += self.fields(b)
        return out + r["f"]

    def subclasses(self, n):
        out, work = [], [n]
        while work:
            c = work.pop()
            for d in self.derived.get(c, []):
                if d not in out:
                    out.append(d); work.append(d)
        return out


def walk(node):
    """All nodes of a function body / statement / expression, pre-order."""
    st = [node]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if "k" in n or "b" in n or "e" in n:
                yield n
            for v in reversed(list(n.values())):
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(n, list):
            for v in reversed(n):
                if isinstance(v, (dict, list)):
                    st.append(v)


def calls(node):
    for n in walk(node):
        if n.get("k") == "call":
            yield n


_PROG = None


def program():
    global _PROG
    if _PROG is None:
        _PROG = Program()
    return _PROG
