"""C14: copy operations transfer every data member and share no mutable part."""
from ..core import *
from ..program import Program
from .c01 import strip

TITLE = "copies are complete and independent"
GROUPS = ["geomap", "python_bindings"]
TECHNIQUE = "static analysis: per-member transfer analysis of every user-written copy operation on all paths; type rule for implicit ones"
EXPLANATION = ("Every user-written copy constructor, copy-like constructor of a cell and assignment operator is executed "
               "abstractly on all paths; at each normal exit every data member (enumerated from the class definition, so "
               "new members are included) has to hold the source's member, or what the member's ownership demands: owned "
               "objects are duplicated from the source's object, per-cell loops run over all live cells of the source and "
               "put a copy made for the new map into the same slot, back pointers refer to the copy, iterators into owned "
               "arrays are rebased. Classes copied member by member must not have members that share mutable state.")
RULES = {"member": "each data member of the copy equals the source's at every normal exit (or is deliberately fresh)",
         "owned": "owned objects are duplicated from the source's object, never shared",
         "each": "loops duplicating owned elements visit every live element of the source and put the copy into the same place",
         "parent": "back pointers and iterators of the copy refer to the copy",
         "implicit": "classes copied member by member contain no member that shares mutable state"}

FRESH, SAME, PARENT = "fresh", "same", "parent"
HOOKF = {h: FRESH for h in HOOKS}
TABLE = {
    "GeoMap": dict(HOOKF, sigmaMappingArray_="array", sigmaInverseMappingArray_="array",
                   sigmaMapping_=("mid", "sigmaMappingArray_"), sigmaInverseMapping_=("mid", "sigmaInverseMappingArray_"),
                   nodes_=("cells", "GeoMap::Node"), edges_=("cells", "GeoMap::Edge"), faces_=("cells", "GeoMap::Face"),
                   nodeMap_=FRESH,      # filled by the nodes' copy constructor (see C03)
                   labelImage_="owned", faceLabelLUT_="lut", splitInfo_="owned", edgePreferences_="owned"),
    "GeoMap::Node": dict(map_=PARENT),
    "GeoMap::Edge": dict(map_=PARENT, scanLines_=FRESH),
    "GeoMap::Face": dict(map_=PARENT, anchors_="anchors"),
    "FaceColorStatistics": dict(map_=FRESH, connections_=FRESH, merged_=FRESH, mergedSS_=FRESH, label1_=FRESH,
                                label2_=FRESH, functors_="functors", superSampled_="owned"),
    "CellStatistics": dict(lastChanges_=FRESH, tempFaceStatistics_=FRESH, tempEdgeStatistics_=FRESH,
                           tempMergedEdges_=FRESH, node1Label_=FRESH, node2Label_=FRESH, edge1Label_=FRESH,
                           edge2Label_=FRESH, nodePoints_=FRESH),
    "vigra::cellimage::GeoMap": dict(cells="cells2", nodeList_=("re", ("anchor",)), edgeList_=("re", ("start", "end")),
                                     faceList_=("re", ("contours",))),
}
# arrays of one mutable object per element shared on purpose: images, parent handles
VALUE = ("GeoMap::Dart", "GeoMap::DartPosition", "vigra::cellimage::GeoMap::DartTraverser")
IMPLICIT = {"LabelLUT", "vigra::PointArray", "vigra::Polygon", "vigra::BBoxPolygon", "vigra::Scanlines",
            "vigra::ScanlineSegment", "detail::PlannedSplits", "StatisticFunctor",
            "vigra::cellimage::GeoMap::CellInfo", "vigra::cellimage::GeoMap::NodeInfo",
            "vigra::cellimage::GeoMap::EdgeInfo", "vigra::cellimage::GeoMap::FaceInfo", "CellStatistics",
            "vigra::QuantileStatistics", "PolylineStatistics", "QuantileStatistics"}
SHARED_OK = {("CellStatistics", "segmentationData"), ("CellStatistics", "edgeProtection")}
CTOR_CELLS = {"GeoMap::Node::Node", "GeoMap::Edge::Edge", "GeoMap::Face::Face"}
REPARENT = "vigra::cellimage::GeoMap::DartTraverser::reparent"
ENDS = ("inRange", "atEnd")


def fields_of(prog, cls, inst=None):
    """(class, field, type) of a class including repo bases"""
    out, todo, seen = [], [cls], set()
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        rs = prog.recs.get(c, [])
        for r in rs[:1]:
            for x in r["fields"]:
                out.append((c, x["n"], x["t"]))
            for b in r.get("bases", ()):
                if b["n"] in prog.recs and prog.recs[b["n"]][0]["file"].startswith(REPO):
                    todo.append(b["n"])
    return out


class Copy(Recorder):
    def __init__(self, prog, f, rep, other, dest):
        super().__init__(prog)
        self.f, self.rep, self.other, self.dest = f, rep, other, dest
        self.cls = f.cls.split("<")[0]
        self.modes = TABLE.get(self.cls, {})
        self.errs = {}
        self.good = set()
        self.missed = set()
        self.flds = {"%s::%s" % (c, n): (n, t) for c, n, t in fields_of(prog, self.cls)}
        self.loopf = {n for n, m in self.modes.items() if isinstance(m, tuple) and m[0] in ("cells", "re") or m in ("anchors", "functors")}
        self.loopf |= {"contours"}
        self.news = {}
        self.src = T("obj", T("p", other))
        self.small = {}

    def inline(self, eng, fn, ctx, ins):
        if fn.name in CTOR_CELLS or fn.name == REPARENT:
            return False
        if fn.file.startswith(REPO) and len(fn.ins) < 400:
            return True
        return None

    # state: tuple of facts
    #  ("null", F) other.F is null/empty     ("open", F, elem) a round of the loop over F is pending
    #  ("done", F) loop finished             ("new", ptr, name, args)   ("copy", dstfield, srcfield)
    def put(self, st, *e):
        if e not in st.cl:
            st.cl = st.cl + (e,)

    def drop(self, st, *p):
        st.cl = tuple(x for x in st.cl if x[:len(p)] != p)

    def err(self, rule, what, where):
        self.errs.setdefault((rule, what), where)

    def ofield(self, t):
        """t is (the content of) a field of the source -> its name"""
        t = strip(t)
        if t.op == "ld":
            t = t.args[0]
        if t.op == "fld" and t.args[0] is self.src:
            return last(t.args[1])
        return None

    def tfield(self, loc):
        if loc.op == "fld" and loc.args[0] is self.dest:
            return last(loc.args[1])
        return None

    def container(self, eng, t):
        """the loop container (field name) an iterator/size belongs to, innermost first"""
        found = None
        for x in allsub(eng, t):
            if x.op == "iter" and x.args[1].op == "fld" and last(x.args[1].args[1]) in self.loopf:
                n = last(x.args[1].args[1])
                if n == "contours" or found is None:
                    found = n
            if x.op == "m" and x.args[0] in ("size", "empty"):
                for y in allsub(eng, x.args[1]):
                    if y.op == "fld" and last(y.args[1]) in self.loopf:
                        n = last(y.args[1])
                        if n == "contours" or found is None:
                            found = n
        return found

    def on_assume(self, eng, st, ctx, cond, val):
        if st.cl == "dead":
            return
        c, v = cond, val
        while c.op == "!":
            c, v = c.args[0], not v
        n = self.ofield(c)
        if n is not None:
            if not v:
                self.put(st, "null", n)
            return
        if c.op == "==" and ZERO in c.args:
            o = [a for a in c.args if a is not ZERO]
            if o and self.ofield(o[0]) is not None:
                if v:
                    self.put(st, "null", self.ofield(o[0]))
                return
        rnd = None
        if c.op == "m" and c.args[0] in ("size", "empty"):
            k = self.container(eng, c)
            more = v if c.args[0] == "size" else not v
            if k is None:
                return
            if not more:
                self.put(st, "null", k)
            if more:
                if ("done", k) in st.cl and k != "contours":
                    return
                self.drop(st, "done", k)
                self.drop(st, "at", k)
                self.put(st, "at", k, ZERO)
                return               # may be a guard as well as the first round of an index loop
            rnd = (k, more, c)
        elif c.op == "m" and c.args[0] in ENDS:
            k = self.container(eng, c)
            if k is None:
                return
            rnd = (k, v if c.args[0] == "inRange" else not v, c)
        elif c.op in ("==", "<", "<="):
            k = self.container(eng, c)
            if k is None:
                # a null test of an element
                if c.op == "==" and ZERO in c.args and v:
                    self.skip(eng, st, [a for a in c.args if a is not ZERO])
                return
            if c.op == "==" and ZERO in c.args and not any(x.op == "m" and x.args[0] == "size" for x in c.args):
                if v:
                    self.skip(eng, st, c.args)
                return
            rnd = (k, (not v) if c.op == "==" else v, c)
        else:
            if not v:
                self.skip(eng, st, [c])
            return
        k, more, c = rnd
        if ("done", k) in st.cl and k != "contours":
            return              # a complete loop went before: what follows is another loop or a guard
        self.finish(st, k, ctx)
        if more:
            self.drop(st, "done", k)
            if k == "faceList_":
                self.drop(st, "done", "contours")
            self.put(st, "open", k)
            self.step(eng, st, k, c, ctx)
        else:
            self.drop(st, "at", k)
            if any(e[0] == "miss" and e[1] == k for e in st.cl):
                self.missed.update(e[1:] for e in st.cl if e[0] == "miss" and e[1] == k)
                self.drop(st, "miss", k)        # another loop may do it
            else:
                self.put(st, "done", k)

    def skip(self, eng, st, ts):
        """a null element was seen: nothing to do in this round"""
        for t in ts:
            x = strip(t)
            if x.op == "ld":
                x = x.args[0]
            if x.op == "obj":
                x = strip(x.args[0])
            n = None
            if x.op == "elt":
                b = x.args[0]
                n = last(b.args[1]) if b.op == "fld" else None
            elif x.op == "m" and x.args[0] == "deref" or x.op == "phi":
                n = self.container(eng, x)
                if x.op == "phi" and n is None:
                    for y in allsub(eng, x):
                        if y.op == "elt" and y.args[0].op == "fld" and last(y.args[0].args[1]) in self.loopf:
                            n = last(y.args[0].args[1])
            if n in self.loopf and ("open", n) in st.cl:
                self.drop(st, "open", n)

    def finish(self, st, k, ctx):
        for e in st.cl:
            if e[0] == "open" and e[1] == k:
                need = self.need(k)
                did = {x[2] for x in st.cl if x[0] == "did" and x[1] == k}
                if k == "faceList_" and ("done", "contours") in st.cl:
                    did.add("contours")
                if not need <= did:
                    self.put(st, "miss", k, "an element of %s is not duplicated%s" % (
                        k, "" if len(need) == 1 else " completely (%s missing)" % ", ".join(sorted(need - did))), ctx.fn.short())
                else:
                    self.good.add(("each", k))
        self.drop(st, "open", k)
        self.drop(st, "did", k)

    def need(self, k):
        m = self.modes.get(k)
        if isinstance(m, tuple) and m[0] == "re":
            return frozenset(m[1])
        return frozenset({"el"})

    def on_ctor(self, eng, st, ctx, ins, f, loc, args, inlined):
        if st.cl == "dead":
            return
        if loc.op == "new":
            self.news[loc] = ("new", loc, f.get("n"), tuple(a[1] for a in args))

    def on_copy(self, eng, st, dst, src):
        if st.cl == "dead":
            return
        n = self.tfield(dst)
        if n is not None:
            self.drop(st, "cp", n)
            if src.op == "fld" and src.args[0] is self.src and last(src.args[1]) == n:
                self.put(st, "cp", n)
        if dst.op == "new":
            self.news[dst] = ("new", dst, "copy", (src,))

    def made(self, st, val):
        v = strip(val)
        if v.op == "&":
            v = v.args[0]
        if v.op == "new":
            return self.news.get(v, ("new", v, None, ()))
        return None

    def on_write(self, eng, st, ctx, ins, loc, val):
        if st.cl == "dead":
            return
        where = site(ctx, ins)
        n = self.tfield(loc)
        if n is not None:
            if self.modes.get(n) == "array":
                for m, md in self.modes.items():
                    if isinstance(md, tuple) and md[0] == "mid" and md[1] == n:
                        self.drop(st, "mid", m)
            md = self.modes.get(n)
            if isinstance(md, tuple) and md[0] == "mid":
                self.put(st, "mid", n)
            if n == "cells":
                self.put(st, "cells")
            if n == "cellImage":
                self.drop(st, "cells")
            return
        if loc.op == "elt" and loc.args[0].op == "fld" and loc.args[0].args[0] is self.dest:
            n = last(loc.args[0].args[1])
            md = self.modes.get(n)
            if isinstance(md, tuple) and md[0] == "cells":
                self.cell(eng, st, n, md[1], loc.args[1], val, where)
            elif md == "functors":
                e = self.made(st, val)
                if e is None:
                    if strip(val) is not ZERO:
                        self.err("owned", "an element of %s is not an object of its own" % n, where)
                elif len(e[3]) != 1 or not self.is_elem(eng, e[3][0], n, loc.args[1]):
                    self.err("each", "an element of %s is not a copy of the source's element at the same index" % n, where)
                else:
                    self.put(st, "did", n, "el")
        # dart of a cell-image element given its new parent
        if loc.op == "fld" and last(loc.args[1]) == "segmentation_":
            pass

    def is_elem(self, eng, a, n, idx):
        """a refers to the object held at [idx] of the (source's or already copied) container n"""
        a = strip(a)
        if a.op == "obj":
            a = strip(a.args[0])
        if a.op == "ld":
            a = a.args[0]
        if a.op == "elt":
            b = a.args[0]
            return b.op == "fld" and last(b.args[1]) == n and (a.args[1] is idx or self.merged(a.args[1], idx))
        return any(x.op == "phi" for x in subterms(a))

    def merged(self, a, b):
        return any(x.op == "phi" for x in subterms(a)) or any(x.op == "phi" for x in subterms(b))

    def cell(self, eng, st, n, cls, idx, val, where):
        e = self.made(st, val)
        if e is None:
            if not is_null(strip(val)):
                self.err("owned", "a slot of %s is filled with a cell that is not a new copy" % n, where)
            return
        _, obj, name, args = e
        if name not in CTOR_CELLS or not name.startswith(cls + "::") or len(args) != 2:
            self.err("each", "a slot of %s is not filled by the cell's copy constructor" % n, where)
            return
        par = args[0]
        if not (par.op == "&" and par.args[0] is self.dest or T("obj", par) is self.dest or par.op == "p" and par.args[0] == "this"):
            self.err("parent", "cells in %s are not copied for the new map" % n, where)
            return
        x = args[1]
        exact = not any(y.op == "phi" for y in subterms(x)) and not any(y.op == "phi" for y in subterms(idx))
        if n not in [last(y.args[1]) for y in allsub(eng, x) if y.op == "fld" and isinstance(y.args[1], str)]:
            self.err("each", "the cells put into %s do not come from the source's %s" % (n, n), where)
            return
        if exact:
            i = strip(idx)
            ok = i.op == "ld" and i.args[0].op == "fld" and i.args[0].args[1] == cls + "::label_" and self.sameobj(i.args[0].args[0], x)
            ok = ok or i.op == "ld" and i.args[0].op == "fld" and i.args[0].args[1] == cls + "::label_" and obj in subterms(i)
            ok = ok or i.op == "mk" and i.args[0] == cls + "::label_" and tuple(i.args[1:3]) == tuple(obj.args[:2])
            xs = x.args[0] if x.op == "obj" else x
            xs = xs.args[0] if xs.op == "ld" else xs
            if not ok and xs.op == "elt" and xs.args[1] is i:
                ok = True
            if not ok and isc(i) and any(y.op == "elt" and y.args[1] is i for y in subterms(x)):
                ok = True
            if not ok:
                self.err("each", "a cell is put into a slot of %s other than its own label" % n, where)
                return
            self.good.add(("each", n + " slot"))
        self.put(st, "did", n, "el")

    def sameobj(self, a, b):
        def norm(t):
            t = strip(t)
            while t.op in ("obj",) and t.args[0].op == "ld":
                return t.args[0].args[0]
            return t
        return a is b or norm(a) is norm(b) or str(norm(a)) == str(norm(b))

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if st.cl == "dead":
            return
        n = self.tfield(loc)
        where = site(ctx, ins)
        if n is None:
            return
        md = self.modes.get(n)
        if isinstance(md, tuple) and md[0] == "cells":
            if m in ("resize", "assign") and args:
                a = args[0][1] if args[0][0] == "V" else eng.rval(st, args[0])
                if a.op == "m" and a.args[0] == "size" and self.ofield(a.args[1]) == n:
                    self.put(st, "sized", n)
                else:
                    self.err("each", "%s is not given the source's size" % n, where)
            elif m == "push_back":
                self.put(st, "sized", n)
                v = eng.rval(st, args[0])
                e = self.made(st, v)
                if e is not None:
                    if e[2] not in CTOR_CELLS or n not in [last(y.args[1]) for a in e[3] for y in allsub(eng, a) if y.op == "fld" and isinstance(y.args[1], str)]:
                        self.err("each", "a slot of %s is not filled by the cell's copy constructor" % n, where)
                    else:
                        self.put(st, "did", n, "el")
                        self.good.add(("each", n + " slot"))
            elif m not in ("reserve",):
                self.err("each", "%s is changed by %s" % (n, m), where)
        elif md == "array":
            if m not in ("reserve",):
                for k, x in self.modes.items():
                    if isinstance(x, tuple) and x[0] == "mid" and x[1] == n and ("mid", k) in st.cl:
                        self.drop(st, "mid", k)
            if m == "assign" and len(args) == 2:
                if all(self.range_of(eng, st, a) == n for a in args):
                    self.put(st, "copy", n)
        elif md == "anchors":
            if m == "push_back":
                self.anchor(eng, st, args[0], where)
            elif m not in ("reserve",):
                self.err("each", "%s is changed by %s" % (n, m), where)

    def anchor(self, eng, st, a, where):
        if a[0] == "L":
            mp = eng.load(st, T("fld", a[1], "GeoMap::Dart::map_"))
            lb = eng.load(st, T("fld", a[1], "GeoMap::Dart::label_"))
        else:
            self.put(st, "did", "anchors_", "el")
            return
        if not (mp.op == "p" and mp.args[0] != self.other):
            self.err("parent", "an anchor of the copied face is not a dart of the new map", where)
            return
        l = strip(lb)
        ok = any(y.op == "fld" and y.args[1] == "GeoMap::Dart::label_" and any(
            z.op == "fld" and last(z.args[1]) == "anchors_" and z.args[0] is self.src for z in allsub(eng, y)) for y in allsub(eng, l))
        if not ok or l.op in ("neg", "+", "*"):
            self.err("each", "an anchor of the copied face is not the source's anchor dart", where)
            return
        self.put(st, "did", "anchors_", "el")

    def range_of(self, eng, st, a):
        v = a[1] if a[0] == "V" else eng.rval(st, a)
        if v.op == "iter" and v.args[1].op == "fld" and v.args[1].args[0] is self.src:
            return last(v.args[1].args[1])
        return None

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if st.cl == "dead":
            return
        if f.get("m") == "operator=" and obj is not None and self.tfield(obj) is not None and len(args) == 1:
            n = self.tfield(obj)
            self.drop(st, "cp", n)
            if args[0][0] == "L" and self.ofield(args[0][1]) == n or args[0][0] == "V" and self.ofield(args[0][1]) == n:
                self.put(st, "cp", n)
        if f.get("n") == "std::copy" and len(args) == 3:
            v = [a[1] if a[0] == "V" else eng.rval(st, a) for a in args]
            if all(x.op == "iter" for x in v):
                a, b, c = v
                if self.range_of(eng, st, ("V", a)) and a.args[1] is b.args[1] and a.args[0] == "begin" and b.args[0] == "end" and \
                        c.args[0] == "begin" and c.args[1].op == "fld" and c.args[1].args[0] is self.dest and \
                        last(c.args[1].args[1]) == last(a.args[1].args[1]):
                    self.put(st, "copy", last(a.args[1].args[1]))
        if f.get("n") == REPARENT and obj is not None:
            v = args[0][1]
            if not (T("obj", v) is self.dest or v.op == "p" and v.args[0] == "this"):
                self.err("parent", "a dart of the copy is given a parent other than the copy", site(ctx, ins))
                return
            if obj.op == "fld":
                n = last(obj.args[1])
                k = self.container(eng, obj.args[0])
                if k is not None:
                    self.put(st, "did", k, n)
            else:
                k = self.container(eng, obj)
                if k == "contours":
                    self.put(st, "did", k, "el")

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        if kind == "return" and st.cl != "dead":
            self.check_exit(eng, st, ctx)

    def check_exit(self, eng, st, ctx):
        w = self.f.short()
        null = {e[1] for e in st.cl if e[0] == "null"}
        done = {e[1] for e in st.cl if e[0] == "done"}
        for q, (n, t) in sorted(self.flds.items()):
            md = self.modes.get(n, SAME)
            if md == FRESH:
                continue
            loc = T("fld", self.dest, q)
            v = strip(eng.load(st, loc))
            same = self.ofield(v) == n or ("cp", n) in st.cl
            if md == SAME or isinstance(md, tuple) and md[0] == "re":
                if not same:
                    self.err("member", "%s is not taken over from the source" % n, w)
                    continue
                self.good.add(("member", n))
                ty = self.prog.tstr(t)
                if ty.endswith("*") and n not in ("segmentationData", "edgeProtection"):
                    self.err("owned", "the copy shares the object %s points to" % n, w)
                if md != SAME and n not in done:
                    self.err("each", "the darts in %s are not given their new parent" % n, w)
            elif md == PARENT:
                if not (v.op == "p" and v.args[0] != self.other):
                    self.err("parent", "%s does not refer to the new map" % n, w)
                else:
                    self.good.add(("parent", n))
            elif md == "array":
                if same or ("copy", n) in st.cl and self.sized(v, n) or \
                        v.op == "mk" and len(v.args) >= 3 and all(self.range_of(eng, st, ("V", a)) == n for a in v.args[1:3]):
                    self.good.add(("member", n))
                else:
                    self.err("member", "the contents of %s are not taken over from the source" % n, w)
            elif md == "cells2":
                ok = v.op == "+" and any(x.op == "m" and x.args[0] == "upperLeft" for x in v.args) and \
                    any(x.op == "mk" and [a.args[0] for a in x.args[1:] if isc(a)] == [2, 2] for x in v.args)
                if not ok or ("cells",) not in st.cl:
                    self.err("parent", "%s does not point into the copied cell image at offset (2,2)" % n, w)
                else:
                    self.good.add(("parent", n))
            elif md == "owned":
                if is_null(v):
                    if n in null or "faces_" in null and n == "labelImage_":
                        self.good.add(("owned", n))
                    else:
                        self.err("owned", "%s is dropped although the source has one" % n, w)
                    continue
                e = self.made(st, v)
                if e is None:
                    self.err("owned", "%s is shared with the source instead of duplicated" % n, w)
                elif not e[3] or not (e[3][0].op == "obj" and self.ofield(e[3][0].args[0]) == n or self.ofield(e[3][0]) == n):
                    self.err("owned", "%s is not a copy of the source's object" % n, w)
                else:
                    self.good.add(("owned", n))
            elif md == "lut":
                if same or null & {"labelImage_", "faces_"}:
                    self.good.add(("member", n))
                else:
                    self.err("member", "%s is not taken over from the source" % n, w)
            elif md == "anchors":
                if n not in done and n not in null:
                    self.err("each", "the source's %s are not all transferred" % n, w)
                else:
                    self.good.add(("each", n))
            elif md == "functors":
                if n not in done and n not in null:
                    self.err("each", "the source's %s are not all duplicated" % n, w)
                else:
                    self.good.add(("each", n))
            elif md[0] == "cells":
                if n in null:
                    self.good.add(("each", n))
                elif n not in done:
                    ms = [m for m in self.missed if m[0] == n]
                    if ms:
                        self.err("each", ms[0][1], ms[0][2])
                    self.err("each", "the cells in the source's %s are not all copied" % n, w)
                elif ("sized", n) not in st.cl:
                    self.err("each", "%s is not given the source's size" % n, w)
                else:
                    self.good.add(("each", n))
            elif md[0] == "mid":
                arr = md[1]
                ok = ("mid", n) in st.cl and v.op == "+" and len(v.args) == 2
                if ok:
                    it = [x for x in v.args if x.op == "iter"]
                    off = [x for x in v.args if x.op != "iter"]
                    ok = len(it) == 1 and it[0].args[0] == "begin" and self.tfield(it[0].args[1]) == arr and \
                        off[0].op in ("/", ">>") and isc(off[0].args[1]) and off[0].args[1].args[0] == (2 if off[0].op == "/" else 1) and \
                        any(x.op == "m" and x.args[0] == "size" or x.op == "mk" for x in subterms(off[0]))
                if not ok:
                    self.err("parent", "%s is not the middle of the copy's own %s" % (n, arr), w)
                else:
                    self.good.add(("parent", n))

    def sized(self, v, n):
        return any(x.op == "m" and x.args[0] == "size" and self.ofield(x.args[1]) == n for x in subterms(v))

    def cursor(self, c):
        if c.op == "m" and c.args[0] in ENDS:
            return strip(c.args[1])
        if c.op == "==":
            r = [a for a in c.args if not (a.op == "iter" and a.args[0] == "end" or a.op == "m" and a.args[0] == "size")]
            return strip(r[0]) if len(r) == 1 else None
        return strip(c.args[0])

    def moved(self, x):
        if x.op == "mk":
            return any(self.moved(strip(a)) for a in x.args[1:2] if isinstance(a, Term))
        return x.op in ("adv", "+") or x.op == "iter" and x.args[0] != "begin"

    def step(self, eng, st, k, c, ctx):
        """loops start at the first element and advance by one"""
        x = self.cursor(c)
        if x is None:
            return
        old = [e[2] for e in st.cl if e[0] == "at" and e[1] == k]
        self.drop(st, "at", k)
        ok = True
        if x.op == "phi":
            for s in eng.phi_in.get(x, ()):
                s = strip(s)
                if any(y is x for y in subterms(s)):
                    ok = ok and (s is x or s.op == "adv" and strip(s.args[0]) is x or s.op == "+" and delta(x, s) == 1)
        elif not old:
            ok = x is ZERO or not isc(x) and not self.moved(x)
        elif old[0] != "*" and old[0] is not x and not any(y.op == "phi" for y in subterms(x)):
            o = old[0]
            ok = x.op == "adv" and strip(x.args[0]) is o or not x.op == "adv" and delta(o, x) == 1 or \
                x.op == "mk" or x.op == "iter" or x is ZERO
        if not ok:
            self.err("each", "the loop over %s does not visit every element" % k, ctx.fn.short())
        self.put(st, "at", k, x if not old and x.op != "phi" else "*")


def run_copy(prog, rep, f, other, dest=T("obj", T("p", "this"))):
    c = Copy(prog, f, rep, other, dest)
    e = run_engine(prog, c, f, rep)
    for (rule, what), w in sorted(c.errs.items()):
        rep.bad(rule, f.name, what, w)
    for rule, n in sorted(c.good):
        rep.ok(rule, "%s %s" % (f.name, n))
    return c


def copy_functions(prog):
    for f in prog.fns.values():
        if not f.file.startswith(REPO) or f.implicit:
            continue
        cls = f.cls.split("<")[0] if f.cls else ""
        if f.kind != "ctor" and not f.name.endswith("::operator=") and f.name != "vigra::cellimage::GeoMap::deepCopy":
            continue
        ps = [prog.tstr(f.vars[v]["t"]) for v in f.params]
        if not ps:
            continue
        own = [i for i, p in enumerate(ps) if p.replace("const ", "").rstrip(" &").split("<")[0] == cls and "&" in p]
        if len(own) != 1 or own[0] != len(ps) - 1 or len(ps) > 2:
            continue
        if len(ps) == 2 and "*" not in ps[0]:
            continue
        if cls not in prog.recs:
            continue
        yield f, f.vars[f.params[-1]]["name"]


def run(prog, rep, tier):
    ci = Program(["cellimage"])
    rep.notes.append("cellimage program analysed as well")
    n = 0
    for p in (prog, ci):
        for f, other in copy_functions(p):
            if f.cls.startswith("vigra::CellPyramid"):
                continue            # histories: C19
            if f.name in ("vigra::cellimage::GeoMap::GeoMap", "vigra::cellimage::GeoMap::operator="):
                delegates(p, rep, f)
                continue
            run_copy(p, rep, f, other)
            n += 1
        implicit(p, rep)
    rebase(ci, rep)
    for r, k in (("member", 20), ("owned", 4), ("each", 8), ("parent", 6), ("implicit", 8)):
        rep.need(r, k)


def delegates(prog, rep, f):
    """calls deepCopy with its own parameter on every path"""
    class D(Recorder):
        def start(self, eng):
            return (0,)

        def inline(self, eng, fn, ctx, ins):
            return False if fn.name.endswith("::deepCopy") else None

        def on_call(self, eng, st, ctx, ins, g, obj, args, inlined):
            if g.get("n", "").endswith("::deepCopy"):
                a = args[0][1]
                st.cl = (st.cl[0] + 1 if a is T("obj", T("p", f.vars[f.params[0]]["name"])) else -9,)
    d = D(prog)
    run_engine(prog, d, f, rep)
    xs = {cl for kind, cl, *_ in d.exits if kind == "return"}
    if not xs or any(c != (1,) for c in xs):
        # a user-written body: judge it like any other copy
        run_copy(prog, rep, f, f.vars[f.params[0]]["name"])
    else:
        rep.ok("member", f)


def implicit(prog, rep):
    for name in sorted(IMPLICIT):
        for r in prog.recs.get(name, []):
            for x in r["fields"]:
                ty = prog.tstr(x["t"])
                bad = None
                base = ty.replace("const ", "").strip()
                if (base.endswith("*") or base.endswith("&") or "shared_ptr" in ty or "intrusive_ptr" in ty) and (name, x["n"]) not in SHARED_OK:
                    bad = "its member %s (%s) is shared by copies" % (x["n"], ty[:60])
                if "*>" in ty.replace(" ", "") and (name, x["n"]) not in SHARED_OK:
                    bad = "its member %s (%s) holds pointers shared by copies" % (x["n"], ty[:60])
                if bad:
                    rep.bad("implicit", name, bad, "%s:%d" % (os.path.relpath(r["file"], REPO), r["line"]))
                else:
                    rep.ok("implicit", name + "::" + x["n"])


def rebase(prog, rep):
    """reparent: the circulator moves to the same offset in the new parent's cell image, then the parent is replaced"""
    fs = prog.byname.get(REPARENT, [])
    if not fs:
        raise AnalysisBroken("DartTraverser::reparent not found")
    f = fs[0]
    par = f.vars[f.params[0]]["name"]

    class P(Recorder):
        def on_ctor(self, eng, st, ctx, ins, g, loc, args, inlined):
            if "irculator" in g.get("n", "") and args:
                self.mk.append([a[1] for a in args])

        def on_write(self, eng, st, ctx, ins, loc, val):
            if loc.op == "fld" and last(loc.args[1]) == "segmentation_":
                self.seg.append(val)
                st.cl = st.cl + ("seg",)
            if loc.op == "fld" and last(loc.args[1]) == "neighborCirc_":
                st.cl = st.cl + ("circ",)
    c = P(prog)
    c.mk, c.seg = [], []
    run_engine(prog, c, f, rep)
    newp = T("p", par)
    for kind, cl, *_ in c.exits:
        if kind != "return":
            continue
        if "seg" not in cl or any(v is not newp for v in c.seg):
            rep.bad("parent", f, "the dart does not refer to the new parent", f.short())
        elif "circ" not in cl and not c.mk:
            rep.bad("parent", f, "the dart's position is not moved to the new parent's cell image", f.short())
        else:
            ok = not c.mk
            for a in c.mk:
                s = str(a[0])
                t = a[0]
                if any(x.op == "fld" and last(x.args[1]) == "cells" and x.args[0] is T("obj", newp) for x in subterms(t)) and \
                        any(x.op == "fld" and last(x.args[1]) == "cells" and x.args[0] is not T("obj", newp) for x in subterms(t)) and \
                        any(x.op == "fld" and last(x.args[1]) == "neighborCirc_" for x in subterms(t)):
                    ok = True
            if ok:
                rep.ok("parent", f)
            else:
                rep.bad("parent", f, "the dart's position is not the old offset in the new parent's cell image", f.short())
