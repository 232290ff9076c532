from ..mods import *

TITLE = "phase-restricted operations are refused in the wrong phase"
GROUPS = ["geomap", "python_bindings"]
EXPLANATION = ("Must-pass-through analysis: along every path of each phase-restricted operation (helpers inlined) the first "
               "change of the map, respectively the result, is reached only after the phase was tested and found suitable "
               "(no faces yet / faces present / planned splits present / no label image yet / image size positive).")
RULES = {"graph": "construction and sorting change the map only when it has no faces yet",
         "map": "face queries answer and face changes happen only when faces exist",
         "once": "initialising requires that there is no label image yet",
         "size": "a label image is only allocated when the image size is known to be positive",
         "splits": "edge splitting and edge preferences require planned splits",
         "image": "label image access requires a label image",
         "sorted": "faces are created only for sorted edges"}
GRAPH = ["GeoMap::addEdge", "GeoMap::sortEdgesDirectly", "GeoMap::sortEdgesEventually", "GeoMap::setSigmaMapping",
         "GeoMap::initializeMap"]
MAPMOD = ["GeoMap::changeFaceLabels", "GeoMap::mergeFaces", "GeoMap::removeBridge"]
MAPRET = ["GeoMap::faceAt", "faceIter", "CrackEdgeMapGenerator::getSourceLabels"]
SPLITS = ["GeoMap::splitParallelEdges", "GeoMap::setEdgePreferences"]
IMAGE = ["GeoMap::srcLabelRange"]
FACES, LI, SIZE, SPLIT, SORTED = ("GeoMap::faces_", "GeoMap::labelImage_", "GeoMap::imageSize_", "GeoMap::splitInfo_",
                                  "GeoMap::edgesSorted_")


def mentions(t, fld):
    return any(x.op == "fld" and x.args[1] == fld for x in subterms(t))


def is_size(t):
    return t.op == "m" and t.args[0] == "size"


def positive(cond, val, is_x):
    """cond==val says about a non-negative quantity x: True: x>0, False: x==0, None: nothing"""
    if cond.op == "<":
        a, b = cond.args
        if is_x(b) and not is_x(a):
            if val:
                if not isc(a) or a.args[0] >= 0:
                    return True
            elif isc(a) and a.args[0] == 0:
                return False
        if is_x(a) and isc(b) and b.args[0] == 1:
            return not val
        if is_x(a) and isc(b) and b.args[0] > 1 and not val:
            return True
        return None
    if cond.op == "==":
        a, b = cond.args
        if a is ZERO and is_x(b) or b is ZERO and is_x(a):
            return not val
        return None
    if is_x(cond):
        return val
    return None


class C(ModRec):
    """state: sorted tuple of (flag, value) plus the verdicts at the first change"""
    reads = frozenset({FACES, LI, SIZE, SPLIT, SORTED}) | ModRec.reads
    bad = None

    def __init__(self, prog, want, spec):
        self.want = want
        self.bad = {}
        self.good = 0
        self.stop = spec
        super().__init__(prog)

    def start(self, eng):
        return frozenset()

    def inline(self, eng, fn, ctx, ins):
        if fn.name in self.stop:
            return False
        if fn.cls == "GeoMap" or fn.const and fn.cls.startswith("vigra::") and not eng.fninfo(fn)["loops"]:
            if fn.id not in self.rel and fn.name not in ("GeoMap::mapInitialized", "GeoMap::hasLabelImage"):
                return None
        return super().inline(eng, fn, ctx, ins)

    def on_assume(self, eng, st, ctx, cond, val):
        d = dict(st.cl)
        p = positive(cond, val, lambda t: is_size(t) and mentions(t, FACES) or t.op == "ld" and t.args[0].op == "fld" and
                     t.args[0].args[1] == "GeoMap::faceCount_")
        if p is not None:
            d.setdefault("faces", p)
        p = positive(cond, val, lambda t: mentions(t, SIZE))
        if p is not None:
            d.setdefault("size", p)
        p = positive(cond, val, lambda t: mentions(t, LI) and t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] == LI)
        if p is not None:
            d.setdefault("image", p)
        p = positive(cond, val, lambda t: mentions(t, SPLIT) and not is_size(t))
        if p is not None:
            d.setdefault("splits", p)
        p = positive(cond, val, lambda t: t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] == SORTED)
        if p is not None:
            d.setdefault("sorted", p)
        st.cl = frozenset(d.items())

    def mod(self, eng, st, ctx, ins, what, loc):
        if st.cl == "dead":
            return
        d = dict(st.cl)
        if what == "faces_" and self.want == "sorted":
            if d.get("sorted") is not True and not d.get("sorting"):
                self.bad.setdefault("sorted", site(ctx, ins))
            else:
                self.good += 1
        if root(loc).op == "new":
            return
        for k, v in self.want.items() if isinstance(self.want, dict) else ():
            if d.get(k) is not v:
                self.bad.setdefault(k, "%s changed at %s" % (what, site(ctx, ins)))
            else:
                self.good += 1
        if not isinstance(self.want, str):
            st.cl = "dead"       # the rest of the path does not matter

    def on_write(self, eng, st, ctx, ins, loc, val):
        if self.want == "alloc" and loc.op == "fld" and loc.args[1] == LI and not is_null(val) and root(loc).op != "new":
            if dict(st.cl).get("size") is not True:
                self.bad.setdefault("size", site(ctx, ins))
            elif self.root_needs_map and dict(st.cl).get("faces") is not True:
                self.bad.setdefault("faces", site(ctx, ins))
            else:
                self.good += 1
        if st.cl == "dead":
            return
        if self.want == "sorted" and loc.op == "fld" and loc.args[1] == SORTED and val is not ZERO:
            st.cl = frozenset(dict(st.cl, sorting=True).items())
        super().on_write(eng, st, ctx, ins, loc, val)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if self.want == "sorted" and f["n"] in ("GeoMap::sortEdgesDirectly", "GeoMap::sortEdgesEventually", "GeoMap::setSigmaMapping"):
            st.cl = frozenset(dict(st.cl, sorting=True).items())
        super().on_call(eng, st, ctx, ins, f, obj, args, inlined)


def run(prog, rep, tier):
    seen = set()

    def go(name, want, rule, text, rets=None, stop=(), pred=None):
        for f in prog.byname.get(name, []):
            if pred is not None and not pred(f):
                continue
            c = C(prog, want, frozenset(stop))
            c.root_needs_map = name == "GeoMap::setHasLabelImage"
            e = run_engine(prog, c, f, rep)
            seen.add(name)
            for k, w in c.bad.items():
                rep.bad(rule, name, text, w)
            if rets:
                for kind, cl, st, ret, ctx, ins in c.exits:
                    if kind != "return":
                        continue
                    if dict(cl).get(rets[0]) is not rets[1]:
                        rep.bad(rule, name, text, f.short())
                    else:
                        rep.ok(rule, name)
            for i in range(min(c.good, 50)):
                rep.ok(rule, name)
    for n in GRAPH:
        go(n, {"faces": False}, "graph", "the map is changed although it may have faces already")
    go("GeoMap::removeEdge", {"faces": False}, "graph", "darts are detached directly although the map may have faces",
       stop=("GeoMap::mergeFaces", "GeoMap::removeBridge"))
    go("GeoMap::initializeMap", {"image": False}, "once", "the map is initialised although it may have a label image already")
    go("GeoMap::initializeMap", "sorted", "sorted", "faces are created for possibly unsorted edges")
    for n in MAPMOD:
        go(n, {"faces": True}, "map", "the map is changed although there may be no faces")
    for n in MAPRET:
        go(n, None, "map", "faces are accessed although there may be none", ("faces", True))
    go("GeoMap::initializeMap", "alloc", "size", "a label image is allocated without a positive image size")
    go("GeoMap::setHasLabelImage", "alloc", "size", "a label image is allocated without faces or a positive image size")
    for n in SPLITS:
        go(n, {"splits": True}, "splits", "edges are split or preferences set without planned splits")
    for n in IMAGE:
        go(n, None, "image", "the label image is accessed although there may be none", ("image", True))
    missing = [n for n in GRAPH + MAPMOD[:1] + MAPRET[:1] + SPLITS[:1] if n not in seen]
    if missing:
        raise AnalysisBroken("operations not found: %s" % missing)
