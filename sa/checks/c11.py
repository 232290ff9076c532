"""C11: integers passed from Python are checked before they select an element."""
from ..core import *
from ..bounds import *
from ..program import Program
from .c20 import add_all

TITLE = "indices passed from Python are bounds-checked"
GROUPS = ["geomap", "python_bindings"]
EXPLANATION = ("Taint plus linear-bounds analysis: every function registered with Boost.Python that takes an integer is "
               "analysed with its accessors inlined; wherever an element of a container is selected by a value computed "
               "from such an integer (subscript, insert/erase position, dart label), the comparisons made on every path "
               "to that access have to entail 0 <= index < size of the container being accessed (signed and unsigned "
               "comparisons are distinguished, wrap-around included).")
RULES = {"element": "0 <= index < size at every element access selected by an exported integer",
         "position": "0 <= index <= size at insertions, < size at removals selected by an exported integer",
         "dart": "dart labels coming from Python belong to an existing edge slot",
         "refuse": "item access functions return normally only for an index that was found to be valid"}
ITEM = {"__getitem__", "__setitem__", "__delitem__"}
BIG = 600
# integers that are not indices: labels proposed for new cells, numbers of things to make
COUNTS_ONLY = {"GeoMap::addNode", "GeoMap::addEdge", "addEdgeBackwardCompatibility", "vigra::polygonSplineControlPoints",
               "polygonSplineControlPoints", "vigra::scanPoly"}
SEGMENT = {"GeoMap::splitEdge"}       # large operations that take an index: analysed on their own
# arrays kept parallel by their class
PARALLEL = {"LabelLUT::prevMerged_": "LabelLUT::labelLUT_"}


def exports(prog):
    """function id -> set of Python names it is registered under"""
    out = {}
    for f in prog.fns.values():
        if not f.file.startswith(REPO):
            continue
        last_str = None
        reg = any(e["o"] in ("call", "ctor") and e.get("f", {}).get("n", "").startswith("boost::python::class_")
                  or e["o"] == "call" and e.get("f", {}).get("n") == "boost::python::def" for e in f.ins.values())
        if not reg:
            continue
        for i in sorted(f.ins):
            e = f.ins[i]
            if e["o"] == "str":
                last_str = e.get("v")
            elif e["o"] == "fun" and e["f"].get("repo"):
                out.setdefault(e["f"]["id"], set()).add((last_str, f.name))
    return out


class Idx(Recorder):
    fields = frozenset()

    def __init__(self, prog, root_fn, rep, item):
        super().__init__(prog)
        self.root_fn = root_fn
        self.item = item
        self.rep = rep
        self.bad, self.good, self.sub = {}, {}, {}
        self.params = {}
        self.small = {}
        for v in root_fn.params:
            ty = prog.ttype(root_fn.vars[v]["t"])
            if ty["c"] in ("int", "uint"):
                self.params[T("p", root_fn.vars[v]["name"])] = "u" if ty["c"] == "uint" else "s"

    def start(self, eng):
        return ()

    def inline(self, eng, fn, ctx, ins):
        if not fn.file.startswith(REPO):
            return None
        if len(fn.ins) > BIG or fn.name in SEGMENT or fn.name.startswith("GeoMap::Face::") and "contour" in fn.name:
            return False
        d, c = 0, ctx
        while c is not None:
            d, c = d + 1, c.parent
        return d < 7 and fn.name not in ("GeoMap::Dart::Dart",)

    # ---------------------------------------------------------------- loops
    def looping(self, ctx, ins):
        """inside a loop (elements are then visited, not selected by the caller)"""
        c, i = ctx, ins
        while c is not None:
            f = c.fn
            ls = self.small.get(f.id)
            if ls is None:
                ls = self.small[f.id] = cyclic(f)
            b = i.get("B") if i is not None else None
            if b is None and i is not None:
                b = f.where.get(i["i"])
            if b in ls:
                return True
            i, c = c.ins, c.parent
        return False

    # ---------------------------------------------------------------- taint
    def tainted(self, t):
        for x in subterms(t):
            if x in self.params:
                return True
        return False

    def nonneg(self, t):
        return self.params.get(t) == "u"

    def minsize(self, t):
        # the polygon of an initialised edge has at least its two end points
        if is_size(t) and any(x.op == "fld" and x.args[1].endswith("PointArray::points_") for x in subterms(t)) \
                and self.root_fn.name.startswith("GeoMap::") and any("edge" in str(x) for x in subterms(t)):
            return 2
        return 0

    def plain(self, c):
        """a comparison of the index itself, not of things found with it"""
        while c.op in ("!", "&&", "||"):
            if c.op != "!":
                return all(self.plain(x) for x in c.args)
            c = c.args[0]
        for side in c.args if c.op in ("<", "==") else (c,):
            if not isinstance(side, Term):
                return False
            for x in lin(side):
                if x is not None and x not in self.params and self.tainted(x) and abs_arg(x) is None:
                    return False
        return True

    def on_assume(self, eng, st, ctx, cond, val):
        if self.tainted(cond) and not cond.phis and self.plain(cond) and len(st.cl) < 24 and not self.condloop(ctx) and (cond, val) not in st.cl:
            st.cl = st.cl + ((cond, val),)

    def condloop(self, ctx):
        """the function called from within a loop, or analysed for one"""
        f = ctx.fn
        ls = self.small.get(f.id)
        if ls is None:
            ls = self.small[f.id] = cyclic(f)
        return bool(ls) or (ctx.parent is not None and self.looping(ctx.parent, ctx.ins))

    def facts(self, eng, st):
        fs = list(st.cl)
        for f, v in st.facts.items():
            if (is_size(f) or f.op == "<" or f.op == "==") and (f, v) not in fs:
                fs.append((f, v))
        return fs

    def bounded(self, eng, st, idx, size, slack=0):
        cs = constraints(eng, self.facts(eng, st), self.nonneg, self.minsize)
        extra = {x for t in (idx, size) for x in lin(t) if x is not None}
        for t in extra:
            if is_size(t) or self.nonneg(t):
                cs.append(le(C(self.minsize(t)), t, 0))
        lo = entails(cs, le(ZERO, idx, 0))
        hi = entails(cs, le(idx, size, slack - 1))
        return lo, hi

    def grown(self, content):
        """sizes the container had earlier, if it only grew since"""
        out = []
        k = 0
        while True:
            out.append((content, k))
            if content.op == "mut" and content.args[0] in ("insert", "push_back", "push_front", "emplace_back"):
                content = content.args[1]
                k += 1
            else:
                return out

    def judge(self, rule, eng, st, ctx, ins, idx, content, slack, what, obj=None):
        if self.looping(ctx, ins):
            return True
        key = (rule, site(ctx, ins), str(what))
        best = None
        cands = self.grown(content)
        if obj is not None and obj.op == "fld" and obj.args[1] in PARALLEL:
            cands = cands + self.grown(eng.load(st, T("fld", obj.args[0], PARALLEL[obj.args[1]])))
        for c, k in cands:
            lo, hi = self.bounded(eng, st, idx, eng.size_of(c), slack + k)
            if lo and hi:
                self.good.setdefault(key, 0)
                return True
            best = (lo, hi)
        lo, hi = best
        why = "from below or above" if not lo and not hi else "from below" if not lo else "from above"
        self.bad[key] = "%s is selected by %s, which is not bounded %s by the checks on the way" % (what, short(idx), why)
        return False

    # ---------------------------------------------------------------- events
    def on_call(self, eng, st, ctx, ins, f, obj, args, inl):
        m = f.get("m")
        av = [a[1] if a[0] == "V" else eng.load(st, a[1]) for a in args]
        if m in ("operator[]",) and obj is not None and len(av) == 1 and not inl:
            t = av[0]
            if self.tainted(t) and simple(t):
                self.judge("element", eng, st, ctx, ins, t, eng.load(st, obj), 0, "an element of " + short(obj), obj)
            return
        if m in ("insert", "erase", "emplace"):
            self.position(eng, st, ctx, ins, m, av)
            return
        if m in ("Dart",) or f.get("n", "").startswith("GeoMap::Dart::Dart"):
            self.dart(eng, st, ctx, ins, av)
            return
        if not inl and f.get("n") in SEGMENT and f.get("id") in self.prog.fns:
            for i, t in enumerate(av):
                if self.tainted(t) and simple(t):
                    self.sub.setdefault(f["id"], set()).add(i)

    def on_ctor(self, eng, st, ctx, ins, f, loc, args, inl):
        if (f.get("cls") or "") == "GeoMap::Dart":
            self.dart(eng, st, ctx, ins, [a[1] if a[0] == "V" else eng.load(st, a[1]) for a in args])

    def dart(self, eng, st, ctx, ins, av):
        for t in av[1:]:
            if self.tainted(t) and simple(t):
                m = av[0]
                edges = T("fld", T("obj", m), "GeoMap::edges_") if m.op != "&" else T("fld", m.args[0], "GeoMap::edges_")
                size = eng.size_of(eng.load(st, edges))
                cs = constraints(eng, self.facts(eng, st), self.nonneg, self.minsize)
                ok = entails(cs, le(t, size, -1)) and entails(cs, le(neg(t), size, -1))
                key = ("dart", site(ctx, ins), "dart")
                if ok:
                    self.good.setdefault(key, 0)
                else:
                    self.bad[key] = "a dart is made from %s without checking that such an edge exists" % short(t)

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        av = [a[1] if a[0] == "V" else eng.load(st, a[1]) for a in args]
        if m == "operator[]" and len(av) == 1 and self.tainted(av[0]) and simple(av[0]):
            self.judge("element", eng, st, ctx, ins, av[0], eng.load(st, loc), 0, "an element of " + short(loc), loc)
        self.position(eng, st, ctx, ins, m, av)

    def position(self, eng, st, ctx, ins, m, av):
        if m in ("insert", "erase", "emplace") and av and self.tainted(av[0]):
            t = av[0]
            while t.op == "mk" and len(t.args) == 2 and isinstance(t.args[1], Term):
                t = t.args[1]
            d = lin(t)
            its = [t for t in d if t is not None and t.op == "iter"]
            if len(its) == 1 and d[its[0]] == 1 and its[0].args[0] == "begin":
                idx = add_all({t: c for t, c in d.items() if t is not its[0]})
                if simple(idx):
                    last_ = m == "erase" and len(av) == 2
                    self.judge("position", eng, st, ctx, ins, idx, its[0].args[2], 1 if m != "erase" or last_ else 0,
                               "the position of %s in %s" % (m, short(its[0].args[1])))

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        if kind != "return" or not self.item:
            return
        if not self.params:
            return
        key = ("refuse", site(ctx, None), "return")
        cs = constraints(eng, self.facts(eng, st), self.nonneg, self.minsize)
        i = list(self.params)[0]
        # the index is a known constant, or lies between some bounds
        terms = {t for d in cs for t in d if t is not None and t is not i}
        ok = False
        for d in cs:
            if i in d and any(t is not None and t is not i for t in d) or set(d) <= {i, None} and i in d:
                up = [x for x in cs if x.get(i, 0) > 0]
                dn = [x for x in cs if x.get(i, 0) < 0]
                ok = bool(up) and bool(dn)
        if not ok:
            self.bad[key] = "returns normally although the index was not checked against both bounds"
        else:
            self.good.setdefault(key, 0)


def cyclic(f):
    """blocks that lie on a cycle"""
    succ = {b: [s for s in blk["succ"] if s is not None] for b, blk in f.blocks.items()}
    out = set()
    for b in succ:
        seen, todo = set(), list(succ[b])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += succ.get(x, [])
        if b in seen:
            out.add(b)
    return out


def short(t):
    s = str(t)
    return s if len(s) < 60 else s[:57] + "..."


def simple(t):
    return all(x is None or not x.phis and x.op not in ("toint", "%", "/") for x in lin(t))


def run(prog, rep, tier):
    for p in (prog, Program(["cellimage"])):
        ex = exports(p)
        todo = [(i, any(n[0] in ITEM for n in names)) for i, names in sorted(ex.items())]
        done = set()
        while todo:
            fid, item = todo.pop(0)
            if fid in done or fid not in p.fns:
                continue
            done.add(fid)
            f = p.fns[fid]
            if not any(p.ttype(f.vars[v]["t"])["c"] in ("int", "uint") for v in f.params):
                continue
            if f.short() in ("operator++", "operator--") or f.name in COUNTS_ONLY or "CellPyramid::" in f.name:
                continue
            c = Idx(p, f, rep, item)
            rep.engine(run_engine(p, c, f))
            for k in c.good:
                if k not in c.bad:
                    rep.ok(k[0], f)
            for (rule, where, what), msg in sorted(c.bad.items()):
                rep.bad(rule, f, msg, where)
            for s in sorted(c.sub):
                todo.append((s, False))
    rep.need("element", 12)
    rep.need("position", 3)
    rep.need("refuse", 8)
    rep.need("dart", 1)
