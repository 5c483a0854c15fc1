"""Front end: clang's resolved syntax tree (JSON) for every translation unit of
/repo/src, reduced to a compact tree.  Nothing is executed."""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get("UMLCC_REPO", "/repo")
CLANG = ["clang", "-fsyntax-only", "-w", "-std=c99", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types", "-Wno-error=implicit-int", "-Xclang", "-ast-dump=json"]
VERSION = "7"


class N:
    """A syntax node."""
    __slots__ = ("k", "c", "name", "op", "val", "ref", "ty", "line", "file", "x", "cast")

    def __init__(self, k):
        self.k = k
        self.c = ()
        self.name = self.op = self.val = self.ref = self.ty = self.x = self.cast = None
        self.line = 0
        self.file = ""

    def __repr__(self):
        return "<%s %s %s:%d>" % (self.k, self.name or self.op or "", os.path.basename(self.file), self.line)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            if n is None:
                continue
            yield n
            st.extend(reversed(n.c))


class Conv:
    def __init__(self, main):
        self.file = main
        self.line = 0

    def locs(self, d):
        if not isinstance(d, dict):
            return
        if "spellingLoc" in d or "expansionLoc" in d:
            for k, v in d.items():
                if isinstance(v, dict):
                    self.locs(v)
            return
        if "file" in d:
            self.file = d["file"]
        if "line" in d:
            self.line = d["line"]

    def conv(self, j):
        if not j or "kind" not in j:
            return None
        n = N(j["kind"])
        bl = None
        for key, v in j.items():
            if key == "loc":
                self.locs(v)
            elif key == "range":
                self.locs(v.get("begin"))
                bl = (self.file, self.line)
                self.locs(v.get("end"))
            elif key == "inner":
                n.file, n.line = bl or (self.file, self.line)
                n.c = tuple(self.conv(x) for x in v)
        if not n.file:
            n.file, n.line = bl or (self.file, self.line)
        t = j.get("type")
        if t:
            n.ty = (t.get("qualType"), t.get("desugaredQualType", t.get("qualType")))
        n.name = j.get("name")
        n.op = j.get("opcode")
        n.val = j.get("value")
        n.cast = j.get("castKind")
        r = j.get("referencedDecl")
        if r:
            n.ref = (r.get("kind"), r.get("name"), r.get("id"))
        x = {}
        for k in ("isArrow", "isPostfix", "hasElse", "hasInit", "hasVar", "storageClass", "id", "init",
                  "isPartOfExplicitCast", "variadic", "tagUsed", "completeDefinition", "referencedMemberDecl",
                  "previousDecl", "argType", "array_filler"):
            if k in j:
                x[k] = j[k]
        if "array_filler" in x:
            x["array_filler"] = True
        n.x = x
        return n


def strval(s):
    """value of a C string literal as clang prints it"""
    assert s[0] == '"' or s.startswith(("u8", "L", "u", "U")), s
    body = s[s.index('"') + 1:-1]
    out = []
    i = 0
    esc = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "\\": "\\", '"': '"', "'": "'",
           "?": "?"}
    while i < len(body):
        ch = body[i]
        if ch != "\\":
            out.append(ch)
            i += 1
            continue
        e = body[i + 1]
        if e in esc:
            out.append(esc[e])
            i += 2
        elif e == "x":
            j = i + 2
            while j < len(body) and body[j] in "0123456789abcdefABCDEF":
                j += 1
            out.append(chr(int(body[i + 2:j], 16)))
            i = j
        else:
            j = i + 1
            while j < len(body) and j < i + 4 and body[j] in "01234567":
                j += 1
            out.append(chr(int(body[i + 1:j], 8)))
            i = j
    return "".join(out)


def parse_tu(path):
    p = subprocess.run(CLANG + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        return path, None, p.stderr.decode(errors="replace")[-2000:]
    j = json.loads(p.stdout)
    cv = Conv(path)
    funcs, enums, records, gvars, protos, typedefs = {}, {}, {}, {}, {}, {}
    for d in j.get("inner", []):
        n = cv.conv(d)
        if n is None:
            continue
        if n.k == "FunctionDecl":
            body = n.c[-1] if n.c and n.c[-1] is not None and n.c[-1].k == "CompoundStmt" else None
            if body is not None:
                if n.file.startswith(("/usr/include", "/usr/lib")):
                    continue
                funcs[n.name] = n
            else:
                if n.name not in protos:
                    protos[n.name] = n.ty
        elif n.k == "EnumDecl":
            v = -1
            lst = []
            for e in n.c:
                if e is None or e.k != "EnumConstantDecl":
                    continue
                v += 1
                for s in e.walk():
                    if s.k == "ConstantExpr" and s.val is not None:
                        v = int(s.val)
                        break
                lst.append((e.name, v))
            enums[(n.name or "anon@%s:%d" % (n.file, n.line))] = (lst, n.file, n.x.get("id"))
        elif n.k == "RecordDecl":
            if n.x.get("completeDefinition"):
                fl = [(f.name, f.ty) for f in n.c if f is not None and f.k == "FieldDecl"]
                records[n.name or "anon@%s:%d" % (n.file, n.line)] = (fl, n.file)
        elif n.k == "VarDecl":
            init = n.c[-1] if n.c and n.x.get("init") else None
            gvars[n.name] = (init, n.ty, n.x.get("storageClass"), n.file, n.line)
        elif n.k == "TypedefDecl":
            typedefs[n.name] = n.ty
    return path, dict(funcs=funcs, enums=enums, records=records, gvars=gvars, protos=protos, typedefs=typedefs), None


class Program:
    def __init__(self):
        self.tus = {}
        self.funcs = {}      # (tu or None, name) -> FunctionDecl
        self.enumval = {}    # enumerator -> value
        self.enumtypes = {}  # type name -> list of (name, value)
        self.records = {}
        self.gvars = {}
        self.errors = []

    def func(self, tu, name):
        return self.funcs.get((tu, name)) or self.funcs.get((None, name))

    def nlines(self):
        return sum(1 for _ in self.funcs)


def sources(repo=None):
    r = repo or REPO
    return sorted(glob.glob(r + "/src/**/*.c", recursive=True))


def _key(files, repo):
    h = hashlib.sha256(VERSION.encode())
    for f in files + sorted(glob.glob(repo + "/src/**/*.h", recursive=True)):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(__file__, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def load(repo=None):
    repo = repo or REPO
    files = sources(repo)
    cdir = os.environ.get("UMLCC_SA_CACHE", "/tmp/umlcc-sa-cache-%d" % os.getuid())
    cpath = os.path.join(cdir, _key(files, repo) + ".pkl")
    if os.path.exists(cpath):
        try:
            with open(cpath, "rb") as fh:
                return pickle.load(fh)
        except Exception:
            pass
    sys.setrecursionlimit(20000)
    P = Program()
    with ProcessPoolExecutor(max_workers=8) as ex:
        for path, tu, err in ex.map(parse_tu, files):
            if tu is None:
                P.errors.append((path, err))
                continue
            P.tus[path] = tu
    # typedef name -> enum
    for path, tu in P.tus.items():
        for en, (lst, f, eid) in tu["enums"].items():
            for nm, v in lst:
                P.enumval[nm] = v
            P.enumtypes[en] = lst
        for tn, ty in tu["typedefs"].items():
            d = ty[1] if ty else None
            if d and d.startswith("enum "):
                en = d[5:]
                if en in tu["enums"]:
                    P.enumtypes[tn] = tu["enums"][en][0]
        for rn, rec in tu["records"].items():
            P.records.setdefault(rn, rec)
        for gn, g in tu["gvars"].items():
            if g[2] == "static":
                P.gvars[(path, gn)] = g
            elif g[2] == "extern" and g[0] is None:
                P.gvars.setdefault((None, gn), g)
            else:
                if g[0] is not None or (None, gn) not in P.gvars or P.gvars[(None, gn)][0] is None:
                    P.gvars[(None, gn)] = g
    for path, tu in P.tus.items():
        for fn, n in tu["funcs"].items():
            st = n.x.get("storageClass") == "static"
            P.funcs[(path if st or n.file != path else None, fn)] = n
            n.x["tu"] = path
    try:
        os.makedirs(cdir, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=cdir)
        with os.fdopen(fd, "wb") as fh:
            pickle.dump(P, fh, protocol=4)
        os.rename(tmp, cpath)
        for f in sorted(glob.glob(cdir + "/*.pkl"), key=os.path.getmtime)[:-6]:
            os.unlink(f)
    except OSError:
        pass
    return P


if __name__ == "__main__":
    import time
    t = time.time()
    P = load()
    print(len(P.tus), len(P.funcs), len(P.enumval), len(P.records), len(P.gvars), P.errors, time.time() - t)
    print(sorted(P.records))
    print(list(P.enumtypes))
