from ..core import *
from .c01 import strip

TITLE = "label image stays in step with edges and faces"
GROUPS = ["geomap"]
EXPLANATION = ("Balance analysis over all paths of the map operations (helpers inlined): with a label image, every edge whose "
               "points change is un-marked before and marked again after the change with an up-to-date scanline cache, every "
               "removed edge is un-marked exactly once, every new edge is marked exactly once; merged face labels are "
               "redirected to the survivor and released pixels are handed to the survivor only. The per-pixel primitives, "
               "the lookups and the (re)initialisation of image and label table are checked path by path.")
RULES = {"unmark": "an edge whose points change or that is removed is un-marked exactly once before",
         "mark": "an edge whose points changed, or that is new, is marked exactly once afterwards, with current scanlines",
         "noimage": "without a label image nothing is marked",
         "redirect": "merging faces redirects the merged face's label to the survivor exactly once",
         "release": "released pixels get the survivor's label and are handed to the survivor",
         "pixel": "the pixel primitives count edges down/up by one and release a pixel exactly when its last edge goes",
         "lookup": "pixel lookups go through the merged-label table and ignore edge markings",
         "init": "a new label image starts with the identity table, and all edges are marked after all fillings",
         "relabel": "changing face labels rewrites all pixels through the table and then resets the table"}
PTS = "vigra::PointArray::points_"
LI, LUT = "GeoMap::labelImage_", "GeoMap::faceLabelLUT_"
SL = "GeoMap::Edge::scanLines"
CACHE = "GeoMap::Edge::scanLines_"


def edge_of(eng, st, a):
    """the edge whose scanlines are passed"""
    v = a[1]
    for t in (v, eng.argval(st, a) if a[0] == "L" else v):
        for x in subterms(t):
            if x.op in ("r", "f") and SL in x.args:
                p = x.args[-1]
                if hasattr(p, "op"):
                    return strip(p if p.op in ("obj", "fld") else T("obj", p))
    return None


def is_image(v):
    return v.op == "obj" and v.args[0].op == "ld" and v.args[0].args[0].op == "fld" and v.args[0].args[0].args[1] == LI


def is_li(t):
    return t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] == LI


def li_fact(cond, val):
    """image known present / absent"""
    if is_li(cond):
        return val
    if cond.op == "==" and ZERO in cond.args and any(is_li(a) for a in cond.args):
        return not val
    return None


class Bal(Recorder):
    fields = frozenset({PTS, CACHE, "GeoMap::Edge::map_", "GeoMap::Face::map_", LUT, "GeoMap::edges_"})
    reads = frozenset({LI, "GeoMap::postMergeFacesHook", "GeoMap::postRemoveBridgeHook", "GeoMap::associatePixelsHook"})
    stop = frozenset({SL, "GeoMap::removeIsolatedNode", "GeoMap::detachDart", "LabelLUT::relabel", "GeoMap::associatePixels"})

    def inline(self, eng, fn, ctx, ins):
        if fn.name in self.stop:
            return False
        if any("Scanlines" in self.prog.tstr(fn.vars[v]["t"]) for v in fn.params) and \
                any("MultiArray" in self.prog.tstr(fn.vars[v]["t"]) for v in fn.params):
            return False
        return super().inline(eng, fn, ctx, ins)

    def start(self, eng):
        return (None,)

    def ev(self, st, *e):
        if st.cl == "dead":
            return
        n = sum(1 for x in st.cl[1:] if x == e)
        if n < (1 if e[0] == "G" else 2):
            st.cl = st.cl + (e,)

    def on_assume(self, eng, st, ctx, cond, val):
        if st.cl == "dead":
            return
        if cond.op == "m" and cond.args[0] in ("size", "empty") and not val == (cond.args[0] == "size"):
            self.ev(st, "Z", "")
        if cond.op == "==" and ZERO in cond.args and val and any(a.op == "m" and a.args[0] == "size" for a in cond.args):
            self.ev(st, "Z", "")
        if cond.op == "<" and not val and cond.args[0] is ZERO and cond.args[1].op == "m" and cond.args[1].args[0] == "size":
            self.ev(st, "Z", "")
        if not val and not pixel_read(cond):
            for x in subterms(cond):
                if x.op == "fld" and x.args[1] == CACHE and cond.op in ("ld", "m", "r", "f"):
                    self.ev(st, "C", strip(x.args[0]))      # no cached scanlines
        v = li_fact(cond, val)
        if v is not None:
            if st.cl[0] is None:
                st.cl = (v,) + st.cl[1:]
            elif st.cl[0] != v:
                st.cl = "dead"

    def on_write(self, eng, st, ctx, ins, loc, val):
        if root(loc).op in ("var", "tmp"):
            return
        if loc.op == "fld" and loc.args[1] == "GeoMap::Edge::map_":
            if val is ZERO:
                self.ev(st, "X", strip(loc.args[0]), site(ctx, ins))
            elif root(loc).op == "new":
                self.ev(st, "N", strip(loc.args[0]), site(ctx, ins))
        elif loc.op == "fld" and loc.args[1] == "GeoMap::Face::map_" and val is ZERO:
            self.ev(st, "XF", strip(loc.args[0]), site(ctx, ins))
        else:
            l = loc
            for x in subterms(loc):
                if x.op == "fld" and x.args[1] == CACHE:
                    self.ev(st, "C", strip(x.args[0]))
            while l.op in ("fld", "elt"):
                if l.op == "fld" and l.args[1] == PTS:
                    self.ev(st, "G", strip(l.args[0]))
                l = l.args[0]

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if root(loc).op in ("var", "tmp"):
            return
        if loc.op == "fld" and loc.args[1] == PTS and method not in ("reserve",):
            self.ev(st, "G", strip(loc.args[0]))
        for x in subterms(loc):
            if x.op == "fld" and x.args[1] == CACHE:
                self.ev(st, "C", strip(x.args[0]))
        if loc.op == "fld" and last(loc.args[1]).startswith("post") and method == "operator()":
            self.ev(st, "H", last(loc.args[1]), strip(args[0][1]))

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if obj is not None and any(x.op == "fld" and x.args[1] == CACHE for x in subterms(obj)):
            fn = self.prog.fns.get(f.get("id"))
            if fn is None or not fn.const:
                for x in subterms(obj):
                    if x.op == "fld" and x.args[1] == CACHE:
                        self.ev(st, "C", strip(x.args[0]))
        if inlined:
            return
        if f["n"] == "LabelLUT::relabel":
            self.ev(st, "L", *[strip(a[1] if a[0] == "V" else eng.rval(st, a)) for a in args], site(ctx, ins))
        elif f["n"] == "GeoMap::associatePixels":
            self.ev(st, "A", strip(args[0][1]), strip(args[1][1]), site(ctx, ins))
        elif any(is_image(a[1]) for a in args):
            ed = None
            ints, lists = [], []
            for a in args:
                if is_image(a[1]):
                    continue
                e = edge_of(eng, st, a)
                if e is not None:
                    ed = e
                elif a[0] == "L" and root(a[1]).op in ("var", "tmp"):
                    lists.append(a[1])
                else:
                    ints.append(strip(a[1] if a[0] == "V" else eng.rval(st, a)))
            self.ev(st, "I", ed, tuple(ints), tuple(strip(x) for x in lists), site(ctx, ins))


def norm(t):
    """*&x -> x"""
    if t is not None and t.op == "obj" and t.args[0].op in ("&", "addr"):
        return t.args[0].args[0]
    return t


def balance(prog, rep, f, c):
    name, where = f.name, f.short()
    seen = set()
    for kind, cl, st, ret, ctx, ins in c.exits:
        if cl == "dead" or kind != "return" or cl in seen:
            continue
        seen.add(cl)
        evs = cl[1:]
        img = [e for e in evs if e[0] == "I"]
        if cl[0] is False:
            for e in img:
                rep.bad("noimage", name, "pixels are changed without a label image", e[-1])
            rep.ok("noimage", name)
            continue
        edges = {}
        for i, e in enumerate(evs):
            if e[0] in ("G", "X", "N", "C"):
                edges.setdefault(norm(e[1]), []).append((i, e[0], None))
            elif e[0] == "I":
                d = edges.setdefault(norm(e[1]), [])
                k = "M"
                if e[2]:
                    k = "R" if e[3] else {1: "U", -1: "M"}.get(e[2][0].args[0] if isc(e[2][0]) else None, "?")
                d.append((i, k, e[-1]))
        for ed, l in edges.items():
            ks = "".join(k for i, k, w in l)
            if "?" in ks:
                rep.bad("mark", name, "an edge is added to the label image with an unknown weight", [w for i, k, w in l if k == "?"][0])
                continue
            core = ks.replace("C", "")
            if "N" in core:
                if core.count("M") != 1 or "U" in core or "R" in core or core.index("M") < core.index("N"):
                    rep.bad("mark", name, "the new edge is marked %d times, un-marked %d times" % (
                        core.count("M"), core.count("U") + core.count("R")), where)
                else:
                    rep.ok("mark", name)
            elif "X" in core:
                n = core.count("U") + core.count("R")
                if n != 1 or "M" in core:
                    rep.bad("unmark", name, "the removed edge is un-marked %d times, marked %d times" % (n, core.count("M")), where)
                elif max(core.find("U"), core.find("R")) > core.index("X"):
                    rep.bad("unmark", name, "the edge is un-marked after it was removed", where)
                elif "G" in core and core.index("G") < max(core.find("U"), core.find("R")):
                    rep.bad("unmark", name, "the removed edge's points change before it is un-marked", where)
                else:
                    rep.ok("unmark", name)
            elif "G" in core:
                if core.count("U") != 1 or core.index("U") > core.index("G"):
                    rep.bad("unmark", name, "an edge's points change without its old position being un-marked exactly once before", where)
                else:
                    rep.ok("unmark", name)
                if core.count("M") != 1 or core.rindex("M") < core.rindex("G"):
                    rep.bad("mark", name, "an edge's points change without its new position being marked exactly once afterwards", where)
                elif "U" in ks and "C" not in ks[ks.index("U"):ks.index("M")]:
                    rep.bad("mark", name, "the changed edge is marked with the scanlines of its old points", where)
                else:
                    rep.ok("mark", name)
            elif core:
                rep.bad("mark", name, "pixels are changed for an edge that does not change", [w for i, k, w in l if w][0])
        hook = [e[2] for e in evs if e[0] == "H" and e[1] in ("postMergeFacesHook", "postRemoveBridgeHook")]
        S = hook[0] if hook else None
        xf = [e[1] for e in evs if e[0] == "XF"]
        lut = [e for e in evs if e[0] == "L"]
        if xf:
            if len(lut) != 1:
                rep.bad("redirect", name, "the merged face's label is redirected %d times" % len(lut), where)
            elif not (label_of(lut[0][1], xf[0]) and label_of(lut[0][2], S)):
                rep.bad("redirect", name, "the table does not redirect the merged face's label to the survivor's", lut[0][-1])
            else:
                rep.ok("redirect", name)
        elif lut and not xf:
            rep.bad("redirect", name, "labels are redirected although no face is removed", lut[0][-1])
        for e in img:
            if not e[3]:
                continue
            if S is None or not label_of(e[2][0], S):
                rep.bad("release", name, "released pixels do not get the surviving face's label", e[-1])
                continue
            after = evs[evs.index(e) + 1:]
            A = [x for x in after if x[0] == "A"]
            if not A and not any(x[0] == "Z" for x in after):
                rep.bad("release", name, "released pixels are not handed to the surviving face", e[-1])
            elif len(A) > 1 or any(x[1] is not S or x[2] is not e[3][0] for x in A):
                rep.bad("release", name, "pixels are handed over wrongly (wrong face, other pixels, or twice)", A[0][-1])
            else:
                rep.ok("release", name)


def label_of(t, face):
    if face is None:
        return False
    return t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] == "GeoMap::Face::label_" and t.args[0].args[0] is face or \
        any(x.op in ("r", "f") and "GeoMap::Face::label" in x.args and face in [norm(T("obj", y)) for y in x.args if hasattr(y, "op")]
            for x in (t,))


# ------------------------------------------------------------------ primitives
class Pix(Recorder):
    """state: (sign of the pixel / -1 test, what was written, pushed)"""
    def __init__(self, prog, f, kind):
        self.kind, self.f = kind, f
        self.bad, self.good = [], 0
        ps = {}
        for v in f.params:
            t = prog.tstr(f.vars[v]["t"])
            ps["S" if "Scanlines" in t else "I" if "MultiArray" in t else "P" if "PointArray" in t else "n"] = f.vars[v]["name"]
        self.ps = ps
        super().__init__(prog)

    def start(self, eng):
        return (None, None, 0)

    def pixel(self, loc, eng=None):
        if eng is not None and loc.op == "obj" and loc.args[0].op == "phi":
            return any(self.pixel(T("obj", x)) for x in leaves(eng, loc.args[0]))
        if loc.op == "elt" and root(loc).op == "obj" and any(x.op == "p" and x.args[0] == self.ps["I"] for x in subterms(root(loc))):
            return True
        return loc.op == "obj" and loc.args[0].op in ("r", "m", "f") and "MultiArray" in str(loc.args[0].args)

    def param(self, t):
        return t.op == "p" and t.args[0] == self.ps.get("n") or t.op == "ld" and "n" in self.ps and self.ps["n"] in str(t)

    def isold(self, eng, t):
        return t.op in ("ld", "phi", "r", "m", "f")

    def on_assume(self, eng, st, ctx, cond, val):
        while cond.op == "!":
            cond, val = cond.args[0], not val
        if cond.op not in ("==", "<"):
            return
        px = [a for a in cond.args if not isc(a) and any(self.pixel(x, eng) for x in subterms(a))]
        c = [a.args[0] for a in cond.args if isc(a)]
        if len(px) != 1 or len(c) != 1:
            return
        if cond.op == "==" and c[0] == -1:
            st.cl = ("last" if val else "more",) + st.cl[1:]
        elif cond.op == "<":
            k = None
            if isc(cond.args[1]):           # px < c
                if c[0] == 0:
                    k = "neg" if val else "pos"
                elif c[0] == -1:
                    k = "more" if val else "last"
            else:                           # c < px
                if c[0] == -1:
                    k = "pos" if val else "neg"
            if k:
                st.cl = (k,) + st.cl[1:]

    def end(self, st, w):
        k, wr, pu = st.cl
        if self.kind == "remove":
            if wr == "sub" and pu != 1:
                self.bad.append(("a released pixel is handed over %d times" % pu, w))
            elif wr != "sub" and pu:
                self.bad.append(("a pixel still covered by an edge is handed over", w))
            elif k is not None and wr is None:
                self.bad.append(("a pixel of the edge is skipped", w))
        elif self.kind == "mark" and k is not None and wr is None:
            self.bad.append(("a pixel of the edge is skipped", w))
        st.cl = (None, None, 0)

    def on_loop_head(self, eng, st, ctx, block):
        self.end(st, self.f.short())

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        super().on_exit(eng, st, kind, ret, ctx, ins)
        if kind == "return":
            self.end(st, self.f.short())

    def on_write(self, eng, st, ctx, ins, loc, val):
        if not self.pixel(loc, eng):
            return
        if val.op == "x":
            st.cl = (st.cl[0], "x", st.cl[2])
            return
        old = eng.load(st, loc)
        d = add(val, neg(old))
        w = site(ctx, ins)
        k, wr, pu = st.cl
        if wr is not None:
            self.bad.append(("a pixel is changed twice", w))
        if self.kind == "raw":
            ok = self.param(d) or val.op == "+" and len(val.args) == 2 and any(self.param(a) for a in val.args)
            if not ok:
                self.bad.append(("a pixel is not changed by exactly the given amount", w))
            else:
                self.good += 1
            st.cl = (k, "x", pu)
        elif self.kind == "mark":
            if isc(val):
                ok = val.args[0] == -1 and k == "pos"
            elif isc(d):
                ok = d.args[0] == -1 and k == "neg"
            elif val.op == "+" and len(val.args) == 2 and any(isc(a) for a in val.args):
                ok = k == "neg" and [a for a in val.args if isc(a)][0].args[0] == -1
            else:
                st.cl = (k, "x", pu)        # (joined value: judged in the first round)
                return
            if not ok:
                self.bad.append(("marking does not turn a face pixel into -1 / count a marked pixel down by one", w))
            else:
                self.good += 1
            st.cl = (k, "x", pu)
        else:
            if self.param(val) or val.op == "p" and val.args[0] == self.ps.get("n"):
                if k != "last":
                    self.bad.append(("a pixel is released although other edges may still cover it", w))
                else:
                    self.good += 1
                st.cl = (k, "sub", pu)
            else:
                ok = (isc(d) and d.args[0] == 1 or val.op == "+" and any(isc(a) and a.args[0] == 1 for a in val.args)) and k == "more"
                if not ok:
                    self.bad.append(("un-marking does not count a pixel covered by several edges up by one", w))
                else:
                    self.good += 1
                st.cl = (k, "x", pu)

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if method in ("push_back", "emplace_back") and any(x.op == "p" and x.args[0] == self.ps.get("P") for x in subterms(loc)):
            st.cl = st.cl[:2] + (st.cl[2] + 1,)


def primitives(prog, rep):
    n = 0
    for f in prog.fns.values():
        ts = [prog.tstr(f.vars[v]["t"]) for v in f.params]
        if not any("Scanlines" in t for t in ts) or not any("MultiArray<2, int" in t and not t.startswith("const") for t in ts) or f.cls:
            continue
        kind = "remove" if any("PointArray" in t for t in ts) else "raw" if len(ts) == 3 else "mark"
        c = Pix(prog, f, kind)
        run_engine(prog, c, f, rep)
        n += 1
        for t, w in dict.fromkeys(c.bad):
            rep.bad("pixel", f.name, t, w)
        if not c.good and not c.bad:
            rep.bad("pixel", f.name, "no pixel of the edge is changed", f.short())
        for i in range(min(c.good, 20)):
            rep.ok("pixel", f.name)
    if n < 2:
        raise AnalysisBroken("pixel primitives not found")


# ------------------------------------------------------------------ lookups
def pixel_read(t):
    return any(x.op in ("elt", "obj") and root(x).op == "obj" and x.op == "elt" and any(is_li(y) for y in subterms(root(x))) or
               x.op in ("r", "m", "f") and "MultiArray" in str(x.args[:3]) and any(is_li(y) for y in subterms(x))
               for x in subterms(t))


def via_table(t):
    """t is a table entry (whatever the index)"""
    return t.op in ("ld", "elt", "r", "f", "m") and any(x.op == "fld" and x.args[1] == LUT or "LabelLUT" in str(x.args[:3]) or
                                                        x.op == "fld" and x.args[1].endswith("::faceLabelLUT_") for x in subterms(t))


class Look(Recorder):
    stop = frozenset({"GeoMap::face", "LabelLUT::operator[]", "GeoMap::Face::boundingBox", "contourPoly"})

    def __init__(self, prog):
        self.bad, self.good = [], 0
        super().__init__(prog)

    def inline(self, eng, fn, ctx, ins):
        return False if fn.name in self.stop else super().inline(eng, fn, ctx, ins)

    def start(self, eng):
        return None

    def on_assume(self, eng, st, ctx, cond, val):
        if cond.op == "<" and any(pixel_read(a) for a in cond.args) and any(isc(a) for a in cond.args):
            a, b = cond.args
            if isc(a) and a.args[0] in (0, -1):
                st.cl = val
            elif isc(b) and b.args[0] in (0, 1):
                st.cl = not val

    def use(self, st, t, w):
        if not pixel_read(t):
            return
        if st.cl is not True:
            self.bad.append(("an edge marking may be taken for a face label", w))
        elif not via_table(t):
            self.bad.append(("a pixel's label is used without looking up its survivor", w))
        else:
            self.good += 1

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if f["n"] == "GeoMap::face" and args:
            v = args[0][1] if args[0][0] == "V" else eng.rval(st, args[0])
            self.use(st, v, site(ctx, ins))

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        if kind == "return" and ret is not None:
            v = eng.rval(st, ret)
            for x in subterms(truth(v)):
                if x.op == "==" and any(pixel_read(a) for a in x.args):
                    for a in x.args:
                        self.use(st, a, site(ctx, ins))


def lookups(prog, rep):
    for n in ("GeoMap::faceAt", "GeoMap::Face::contains"):
        for f in prog.byname.get(n, []):
            c = Look(prog)
            run_engine(prog, c, f, rep)
            for t, w in dict.fromkeys(c.bad):
                rep.bad("lookup", n, t, w)
            for i in range(c.good):
                rep.ok("lookup", n)
            if not c.good and not c.bad:
                rep.ok("lookup", n)

    class Acc(Recorder):
        def inline(self, eng, fn, ctx, ins):
            return False if fn.name == "LabelLUT::operator[]" else super().inline(eng, fn, ctx, ins)

        def start(self, eng):
            return None

        def on_assume(self, eng, st, ctx, cond, val):
            if cond.op == "<" and any(isc(a) for a in cond.args):
                a, b = cond.args
                if isc(a) and a.args[0] == -1:
                    st.cl = val
                elif isc(b) and b.args[0] == 0:
                    st.cl = not val
                elif isc(a) and a.args[0] == 0:
                    st.cl = val if val else None
    for f in prog.fns.values():
        if f.cls == "GeoMap::LabelImageAccessor" and last(f.name) == "operator()" or \
                f.cls.endswith("LookupNewLabel") and last(f.name) == "operator()":
            c = Acc(prog)
            e = run_engine(prog, c, f, rep)
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind != "return":
                    continue
                lv = leaves(e, e.rval(st, ret))
                tab = [v.op in ("r", "f", "m", "ld", "elt") and any(
                    x.op == "fld" and ("abel" in x.args[1]) for x in subterms(v)) for v in lv]
                if cl is True and not all(tab):
                    rep.bad("lookup", f.name, "a face label is not translated", f.short())
                elif cl is False and any(tab):
                    rep.bad("lookup", f.name, "an edge marking is translated like a face label", f.short())
                elif cl is None and len(lv) == 1:
                    rep.bad("lookup", f.name, "face labels and edge markings are not told apart", f.short())
                else:
                    rep.ok("lookup", f.name)


# ------------------------------------------------------------------ initialisation and relabelling
class Init(Recorder):
    """state: (image known, allocated, identity, mark seen, pixel rewrite, table reset after rewrite)"""
    fields = frozenset({LI, LUT})

    def __init__(self, prog):
        self.bad, self.marks = [], set()
        super().__init__(prog)

    def start(self, eng):
        return (None, False, False, False, False)

    def inline(self, eng, fn, ctx, ins):
        if fn.cls == "LabelLUT" or any("MultiArray<2, int" in self.prog.tstr(fn.vars[v]["t"]) for v in fn.params):
            return False
        if fn.name in ("GeoMap::Face::scanLines", SL, "GeoMap::Face::embedContour", "GeoMap::Face::contains", "contourPoly", "contourArea"):
            return False
        return super().inline(eng, fn, ctx, ins)

    def set(self, st, i, v):
        l = list(st.cl)
        l[i] = v
        st.cl = tuple(l)

    def on_assume(self, eng, st, ctx, cond, val):
        v = li_fact(cond, val)
        if v is not None and st.cl[0] is None:
            self.set(st, 0, v)

    def rewrite(self, eng, st, w):
        self.set(st, 4, True)
        if st.cl[3]:
            self.bad.append(("init", "pixels are overwritten after the edges were marked", w))

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op == "fld" and loc.args[1] == LI and root(loc).op != "new":
            if not is_null(val):
                self.set(st, 1, True)
            else:
                self.set(st, 1, False)
        elif root(loc).op not in ("var", "tmp") and pixel_like(loc):
            self.rewrite(eng, st, site(ctx, ins))

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if f["n"] == "LabelLUT::initIdentity":
            a = args[0][1] if args[0][0] == "V" else eng.rval(st, args[0])
            ok = any(x.op == "m" and x.args[0] == "size" for x in subterms(a)) or any(x.op == "p" for x in subterms(a)) or \
                any(x.op == "fld" for x in subterms(a))
            self.set(st, 2, "late" if st.cl[4] else True)
            if not ok:
                self.bad.append(("init", "the table is not set up for all faces", site(ctx, ins)))
            return
        if inlined:
            return
        ts = [self.prog.tstr(t) for t in f.get("pt", ())]
        if any(mentions_li(eng, st, a) for a in args):
            if any("Scanlines" in t for t in ts) and any("MultiArray" in t for t in ts):
                self.set(st, 3, True)
                e = edge_of(eng, st, args[0])
                self.marks.add(e)
            elif f["m"] in ALGOS or any("Scanlines" in t for t in ts):
                self.rewrite(eng, st, site(ctx, ins))


def mentions_li(eng, st, a):
    v = a[1]
    for t in (v, eng.argval(st, a) if a[0] == "L" else v):
        if any(x.op == "fld" and x.args[1] == LI for x in subterms(t)):
            return True
        if any(x.op in ("mk", "new") and "MultiArray" in str(x.args[:1]) for x in subterms(t)):
            return True
        if any(x.op == "r" and any(isinstance(y, str) and "MultiArrayRange" in y for y in x.args) for x in subterms(t)):
            return True
    return False


def pixel_like(loc):
    if any(is_li(x) for x in subterms(loc)):
        return loc.op in ("elt", "obj")
    return False


def initialise(prog, rep):
    for n in ("GeoMap::setHasLabelImage", "GeoMap::embedFaces"):
        for f in prog.byname.get(n, []):
            c = Init(prog)
            run_engine(prog, c, f, rep)
            for r, t, w in dict.fromkeys(c.bad):
                rep.bad(r, n, t, w)
            if not c.marks:
                rep.bad("init", n, "the edges are not marked in the new label image", f.short())
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind == "return" and cl[1]:
                    if not cl[2]:
                        rep.bad("init", n, "a new label image is used with an old table of merged labels", f.short())
                    else:
                        rep.ok("init", n)
    for f in prog.byname.get("GeoMap::changeFaceLabels", []):
        c = Init(prog)
        run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind == "return" and cl[0] is not False:
                if not cl[4]:
                    rep.bad("relabel", f.name, "pixels keep their old face labels", f.short())
                elif cl[2] != "late":
                    rep.bad("relabel", f.name, "the table of merged labels is not reset after rewriting the pixels", f.short())
                else:
                    rep.ok("relabel", f.name)


OPS = ("GeoMap::mergeEdges", "GeoMap::splitEdge", "GeoMap::removeBridge", "GeoMap::mergeFaces")


def run(prog, rep, tier):
    for name in OPS:
        for f in prog.byname.get(name, []):
            c = Bal(prog)
            run_engine(prog, c, f, rep)
            balance(prog, rep, f, c)
    primitives(prog, rep)
    lookups(prog, rep)
    initialise(prog, rep)
    for r in ("unmark", "mark", "noimage", "redirect", "release", "pixel", "lookup", "init", "relabel"):
        rep.need(r, 1)
