"""Builds the extractor, runs it on the current /repo sources and loads the merged program database."""
import concurrent.futures, fcntl, hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18"


class CheckError(Exception):
    """The analysis could not be carried out (vanished anchor, parse failure, ...)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _stub_digest():
    h = hashlib.sha256()
    for base in ("stubs", "inst"):
        for d, ds, fs in os.walk(os.path.join(VERIF, base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool", "extract.cpp")
    key = _sha(open(src, "rb").read())
    exe = os.path.join(BUILD, "extract-" + key)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I%s/include" % LLVM, "-D_GNU_SOURCE", src, "-o", tmp,
               "-L%s/lib" % LLVM, "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath,%s/lib" % LLVM]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("building the extractor failed: " + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


FLAGS = ["-std=c++17", "-w", "-ferror-limit=0", "-I" + REPO, "-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(VERIF, "inst"), "-include", "vf_prelude.h",
         "-resource-dir", LLVM + "/lib/clang/18"]

_NT = re.compile(r"(_test\.(cpp|h)$)|mock|_fake|/fake/|/test/|test_resources|test_doubles|/doc/|/example/|benchmark|resource_manager_fixture|test_type_utilities|/performance|/tests?_")


def is_test(rel):
    return _NT.search(rel) is not None


def all_sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "score")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".cpp"):
                rel = os.path.relpath(os.path.join(d, f), REPO)
                if not is_test(rel):
                    out.append(rel)
    return out


_file_hash = {}


def _fh(p):
    if p not in _file_hash:
        try:
            _file_hash[p] = _sha(open(p, "rb").read())
        except OSError:
            _file_hash[p] = "-"
    return _file_hash[p]


def _extract(exe, tu, stubd):
    """returns path of the json for tu (cached by the content of everything it includes)"""
    full = tu if tu.startswith("/") else os.path.join(REPO, tu)
    base = os.path.join(BUILD, "db", _sha(tu, REPO))
    meta = base + ".meta"
    exek = os.path.basename(exe)
    try:
        m = json.load(open(meta))
        if m["exe"] == exek and m["stubd"] == stubd and all(_fh(p) == h for p, h in m["deps"]) and os.path.exists(base + ".json"):
            return base + ".json", None
    except (OSError, ValueError, KeyError):
        pass
    tmp = base + ".tmp%d" % os.getpid()
    r = subprocess.run([exe, REPO, tmp, full, "--"] + FLAGS, capture_output=True, text=True, cwd=REPO)
    if not os.path.exists(tmp):
        return None, "extractor produced nothing for %s: %s" % (tu, r.stderr[-1500:])
    d = json.load(open(tmp))
    err = None
    if d.get("errors"):
        lines = [x for x in r.stderr.splitlines() if " error: " in x]
        err = "%s: %d parse errors, first: %s" % (tu, d["errors"], lines[0] if lines else "?")
    deps = [[p, _fh(p)] for p in sorted(set(os.path.join(REPO, q) if not q.startswith("/") else q for q in d["deps"])) if p.startswith(REPO + "/")]
    deps.append([full, _fh(full)])
    d.pop("deps")
    json.dump(d, open(tmp, "w"))
    os.rename(tmp, base + ".json")
    json.dump({"exe": exek, "stubd": stubd, "deps": deps if not err else [["/nonexistent", "x"]]}, open(meta + ".t%d" % os.getpid(), "w"))
    os.rename(meta + ".t%d" % os.getpid(), meta)
    return base + ".json", err


def strip_targs(q):
    """drop template arguments from a qualified name, keeping operator names intact"""
    out = []; depth = 0; i = 0; n = len(q)
    while i < n:
        if depth == 0 and q.startswith("operator", i) and (i == 0 or q[i - 1] == ":"):
            j = i + 8
            m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\]|[^\w\s<(]+)", q[i:])
            if m:
                out.append(m.group(0)); i += len(m.group(0))
                continue
            # conversion operator: keep as 'operator T'
            out.append(q[i:]); break
        c = q[i]
        if c == "<":
            depth += 1
        elif c == ">":
            if depth and not (i and q[i - 1] == "-"):
                depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


class DB:
    def __init__(self):
        self.F = {}      # usr -> function
        self.byq = {}    # stripped qualified name -> [function]
        self.C = {}      # class name (with targs) -> class
        self.Cq = {}     # stripped class name -> [class]
        self.E = {}      # enum name
        self.V = {}      # global var name -> var
        self.over = {}   # usr -> [overriding usr]
        self.errors = []
        self.tus = []
        self.lamcount = 0

    def add(self, d, tu):
        for f in d["functions"] + d["functions2"]:
            if f["u"] in self.F:
                o = self.F[f["u"]]
                if o["file"] == f["file"] and o["l"] == f["l"]:
                    continue
                # internal linkage entities with equal USR in different files
                f["u"] = f["u"] + "@" + f["file"]
                if f["u"] in self.F:
                    continue
            if is_test(f["file"]):
                continue
            f["sq"] = strip_targs(f["q"])
            f["tu"] = tu
            self.F[f["u"]] = f
            self.byq.setdefault(f["sq"], []).append(f)
            for o in f.get("ov", ()):
                self.over.setdefault(o, []).append(f["u"])
        for c in d["classes"]:
            if c["n"] not in self.C:
                c["sq"] = strip_targs(c["n"])
                self.C[c["n"]] = c
                self.Cq.setdefault(c["sq"], []).append(c)
        for e in d["enums"]:
            self.E.setdefault(e["n"], e)
        for v in d["vars"]:
            self.V.setdefault(v["n"], v)

    def fn(self, sq, **kw):
        """all functions with the given stripped qualified name; at least one must exist"""
        r = self.byq.get(sq, [])
        for k, v in kw.items():
            r = [f for f in r if f.get(k) == v]
        if not r:
            raise CheckError("anchor vanished: no definition of function %s%s" % (sq, " " + str(kw) if kw else ""))
        return r

    def cls(self, sq):
        r = self.Cq.get(sq, [])
        if not r:
            raise CheckError("anchor vanished: no definition of class " + sq)
        return r


def load(tus=None, strict=True):
    exe = build_tool()
    os.makedirs(os.path.join(BUILD, "db"), exist_ok=True)
    stubd = _stub_digest()
    if tus is None:
        tus = all_sources() + inst_tus()
    tus2 = []
    for t in tus:
        full = t if t.startswith("/") else os.path.join(REPO, t)
        if not os.path.exists(full):
            raise CheckError("anchor vanished: source file %s" % t)
        if t not in tus2:
            tus2.append(t)
    db = DB()
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for tu, (p, err) in zip(tus2, ex.map(lambda t: _extract(exe, t, stubd), tus2)):
            if err:
                db.errors.append(err)
            if p is None:
                if strict:
                    raise CheckError(err)
                continue
            with open(p) as fh:
                db.add(json.load(fh), tu)
            db.tus.append(tu)
    return db


def inst_tus():
    d = os.path.join(VERIF, "inst")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")] if os.path.isdir(d) else []


if __name__ == "__main__":
    build_tool()
    if len(sys.argv) > 1 and sys.argv[1] == "all":
        db = load(strict=False)
        print(len(db.F), "functions", len(db.C), "classes", len(db.tus), "TUs", len(db.errors), "TUs with errors")
        for e in db.errors:
            print(e[:300])
