"""Loads the three-address program written by the front end."""
import json, os, subprocess, sys, hashlib, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GEOMAP_REPO", "/repo")
SRC = os.path.join(REPO, "src") + "/"

PY = ["-I/usr/include/python3.12",
      "-I/usr/lib/python3/dist-packages/numpy/core/include"]
NPY = ["-DNDEBUG", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"]


def flags_for(path):
    d = os.path.basename(os.path.dirname(path))
    if d == "inst":
        d = os.path.basename(path)[:-4]
    base = ["-std=gnu++14"]
    if d == "geomap":
        return base + ["-DNDEBUG", "-I" + SRC + "geomap"]
    if d == "python_bindings":
        return base + ["-DAVOID_DUPLICATE_DEFINITION_FROM_VIGRANUMPYCORE"] + NPY + [
            "-I" + SRC + "python_bindings", "-I" + SRC + "geomap"] + PY
    if d == "cellimage":
        return base + NPY + ["-I" + SRC + "cellimage"] + PY + ["-I" + SRC + "geomap"]
    raise ValueError(path)


# translation units that do not belong to the product (test drivers, old tools)
EXCLUDE = {"cellimage": {"test.cxx", "testconfigurations.cxx", "testfoureight.cxx",
                         "testiterator.cxx", "testrect.cxx", "watershed.cxx"}}


def units(group):
    """all product translation units of a source directory (globbed, so that
    a source file added later is analysed too)"""
    out = []
    for d in group:
        if d.endswith(".cxx"):
            p = SRC + d
            if os.path.exists(p):
                out.append(p)
            continue
        for f in sorted(glob.glob(SRC + d + "/*.cxx")):
            if os.path.basename(f) not in EXCLUDE.get(d, ()):
                out.append(f)
        f = os.path.join(VERIF, "sa", "inst", d + ".cxx")
        if os.path.exists(f):
            out.append(f)
    return out


class AnalysisBroken(Exception):
    pass


def frontend():
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")],
                       stdout=subprocess.PIPE, cwd=os.path.join(VERIF, "tool"))
    if r.returncode:
        raise AnalysisBroken("front end does not build")
    return os.path.normpath(os.path.join(VERIF, "tool", r.stdout.decode().strip().splitlines()[-1]))


def tree_hash(exe):
    h = hashlib.sha256()
    h.update(exe.encode())
    for f in sorted(glob.glob(os.path.join(VERIF, "sa", "inst", "*.cxx"))):
        h.update(open(f, "rb").read())
    for root, dirs, files in sorted(os.walk(SRC)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cxx", ".hxx", ".h", ".hpp", ".cc")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def parse(paths):
    exe = frontend()
    key = tree_hash(exe)
    base = os.environ.get("GEOMAP_IR", os.path.join(VERIF, ".build", "ir"))
    cache = os.path.join(base, key)
    if os.path.isdir(base):
        for d in os.listdir(base):           # keep only the current tree's IR
            if d != key:
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    os.makedirs(cache, exist_ok=True)

    def one(p):
        inst = p.startswith(VERIF)
        out = os.path.join(cache, ("inst__" + os.path.basename(p) if inst else os.path.relpath(p, SRC).replace("/", "__")) + ".jsonl")
        if os.path.exists(out):
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([exe, SRC, tmp, p, "--"] + flags_for(p),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/")
        if inst and (r.returncode or not os.path.exists(tmp)):
            open(tmp, "w").close()           # an extra, never a reason to fail
        elif r.returncode or not os.path.exists(tmp):
            raise AnalysisBroken("cannot parse %s:\n%s" % (p, r.stdout.decode()[-2000:]))
        os.rename(tmp, out)
        return out
    # largest units first
    order = sorted(paths, key=lambda p: -os.path.getsize(p))
    with ThreadPoolExecutor(8) as ex:
        res = dict(zip(order, ex.map(one, order)))
    return [res[p] for p in paths]


_strip_cache = {}


def strip_args(s):
    """removes template arguments from a qualified name (not from operator<)"""
    r = _strip_cache.get(s)
    if r is not None:
        return r
    out, depth, i = [], 0, 0
    while i < len(s):
        c = s[i]
        if depth == 0 and s.startswith("operator", i) and (i == 0 or s[i-1] in ": "):
            out.append(s[i:])
            break
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = _strip_cache[s] = "".join(out)
    return r


class Fn:
    __slots__ = ("id", "name", "m", "file", "line", "end", "kind", "cls", "acc", "const",
                 "static", "virt", "copy", "copyassign", "implicit", "internal", "params", "ret", "blocks", "entry", "exit",
                 "vars", "ins", "cross", "where", "overrides", "clst", "prog", "tu", "bmap", "callees", "inst",
                 "order", "heap", "info")

    def __repr__(self):
        return "<Fn %s>" % self.name

    def short(self):
        return "%s (%s:%d)" % (self.name, os.path.relpath(self.file, REPO), self.line)


class Program:
    def __init__(self, groups):
        self.fns = {}
        self.recs = {}
        self.recs_t = {}
        self.enums = {}
        self.types = []          # global type table
        self.tindex = {}
        self.byname = {}
        self.nofn = []
        self.units = units(groups)
        if not self.units:
            raise AnalysisBroken("no translation units for %s" % (groups,))
        for tu, path in zip(self.units, parse(self.units)):
            self._load(tu, path)
        for f in self.fns.values():
            self.byname.setdefault(f.name, []).append(f)

    # -- loading
    def _gtype(self, o, tmap):
        s = o["s"]
        if s in self.tindex:
            return self.tindex[s]
        n = len(self.types)
        self.tindex[s] = n
        self.types.append({"s": s, "c": o["c"], "const": o.get("const"),
                           "sub": tmap[o["sub"]] if "sub" in o else -1,
                           "rec": strip_args(o.get("rec", ""))})
        return n

    def _load(self, tu, path):
        tmap = {-1: -1}
        with open(path) as fh:
            for line in fh:
                o = json.loads(line)
                k = o["k"]
                if k == "type":
                    tmap[o["i"]] = self._gtype(o, tmap)
                elif k == "fn":
                    if o["id"] not in self.fns:
                        self._fn(o, tmap, tu)
                elif k == "rec":
                    t = tmap[o["t"]]
                    if t not in self.recs_t:
                        o["full"] = o["n"]
                        o["n"] = strip_args(o["n"])
                        for f in o["fields"]:
                            f["t"] = tmap[f["t"]]
                        for b in o["bases"]:
                            b["t"] = tmap[b["t"]]
                        self.recs_t[t] = o
                        self.recs.setdefault(o["n"], []).append(o)
                        o["tt"] = t
                elif k == "enum":
                    self.enums[o["n"]] = o
                elif k == "nofn":
                    self.nofn.append(o)

    def _fn(self, o, tmap, tu):
        f = Fn()
        f.prog = self
        f.tu = tu
        f.m = o["m"]
        f.id, f.name, f.file, f.line, f.end = o["id"], strip_args(o["n"]), o["file"], o["line"], o["end"]
        f.kind, f.cls, f.acc = o["kind"], strip_args(o.get("cls", "")), o["acc"]
        f.const, f.static, f.virt = o.get("const", False), o.get("static", False), o.get("virt", False)
        f.copy, f.copyassign = o.get("copy", False), o.get("copyassign", False)
        f.implicit, f.internal = o.get("implicit", False), o.get("internal", False)
        f.overrides = o.get("overrides", [])
        f.inst = o.get("inst", False)
        f.clst = tmap[o["clst"]] if "clst" in o else -1
        f.params = o["params"]
        f.ret = tmap[o["ret"]]
        f.vars = {}
        for v in o["vars"]:
            v["t"] = tmap[v["t"]]
            f.vars[v["v"]] = v
        f.entry, f.exit = o["entry"], o["exit"]
        f.blocks = {}
        f.ins = {}
        where = {}
        for b in o["blocks"]:
            for e in b["els"]:
                for tk in ("t", "ft", "at", "objt", "tt"):
                    if tk in e:
                        e[tk] = tmap[e[tk]]
                if "f" in e:
                    if isinstance(e["f"], dict):
                        g = e["f"]
                        g["pt"] = [tmap[x] for x in g.get("pt", [])]
                        g["n"] = strip_args(g["n"])
                        if "cls" in g:
                            g["cls"] = strip_args(g["cls"])
                    elif isinstance(e["f"], str):
                        e["f"] = strip_args(e["f"])
                e["B"] = b["b"]
                f.ins[e["i"]] = e
                where[e["i"]] = b["b"]
            if "label" in b and "catch" in b["label"]:
                b["label"]["catch"] = tmap[b["label"]["catch"]]
            f.blocks[b["b"]] = b
        # ids of constructor expressions that initialise a heap object
        f.heap = {e["init"] for e in f.ins.values() if e["o"] == "new" and "init" in e}
        f.where = where
        # instruction results needed outside their own block
        cross = set()
        for b in o["blocks"]:
            for e in b["els"]:
                for r in operands(e):
                    if where.get(r) != b["b"]:
                        cross.add(r)
            c = b.get("term", {}).get("c")
            if c is not None and where.get(c) != b["b"]:
                cross.add(c)
        f.cross = cross
        # reverse post order
        seen, order = set(), []
        stack = [(f.entry, iter([s for s in f.blocks[f.entry]["succ"] if s is not None]))]
        seen.add(f.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter([x for x in f.blocks[s]["succ"] if x is not None])))
                    break
            else:
                order.append(n)
                stack.pop()
        f.order = {b: i for i, b in enumerate(reversed(order))}
        f.callees = None
        f.info = None
        self.fns[f.id] = f

    # -- helpers
    def tstr(self, t):
        return self.types[t]["s"] if t is not None and t >= 0 else "?"

    def ttype(self, t):
        return self.types[t] if t is not None and t >= 0 else {"s": "?", "c": "other", "sub": -1, "rec": "", "const": False}

    def strip_ref(self, t):
        x = self.ttype(t)
        while x["c"] == "ref":
            t = x["sub"]
            x = self.ttype(t)
        return t

    def rec_of(self, t):
        t = self.strip_ref(t)
        s = self.tstr(t)
        if s.startswith("const "):
            s = s[6:]
        g = self.tindex.get(s, -1)
        return self.recs_t.get(g)

    def all_fields(self, rec):
        out = []
        for b in rec["bases"]:
            r = self.rec_of(b["t"])
            if r:
                out += self.all_fields(r)
        for f in rec["fields"]:
            out.append((rec["n"] + "::" + f["n"], f["t"]))
        return out

    def calls(self, f):
        """ids of functions called (directly, constructors and destructors of
        repo classes included) by f"""
        if f.callees is None:
            s = set()
            for e in f.ins.values():
                if e["o"] in ("call", "ctor", "fun", "memfn") and "f" in e:
                    s.add(e["f"]["id"])
            f.callees = s
        return f.callees


def operands(e):
    for k in ("a", "b", "c", "obj", "init", "size", "fp"):
        v = e.get(k)
        if isinstance(v, int) and not isinstance(v, bool):
            if k == "b" and e["o"] == "mem":
                yield v
            elif k == "b" and e["o"] == "init":
                continue
            else:
                yield v
    for v in e.get("args", ()):
        yield v
    for v in e.get("place", ()):
        yield v
