from ..core import *
from .c01 import strip

TITLE = "cell-image Euler operations keep counts, labels and sizes consistent"
GROUPS = ["cellimage"]
TECHNIQUE = "static analysis: path-sensitive effect pairing of every Euler operation of the cell image"
EXPLANATION = ("Every path of removeIsolatedNode, removeBridge, mergeFaces and mergeEdges of the cell-image segmentation is "
               "followed: which cells are invalidated, which counts change, which scans relabel which pixels to which "
               "cell, whose sizes and bounds are added to whom, how node degrees and anchors and the contour lists "
               "change, and which preconditions hold on the paths that succeed.")
RULES = {"removed": "the operation invalidates exactly the cells it is defined to remove",
         "count": "each cell count drops by the number of invalidated cells of its kind",
         "pixels": "every pixel of a removed cell is relabelled to the cell that is returned",
         "size": "the survivor's size grows by the size of every removed cell",
         "bounds": "the survivor's bounds grow by the bounds of every removed cell",
         "degree": "both end nodes of a removed edge lose one degree and turn their anchor away from it",
         "contours": "the contour list of the survivor describes the merged contour",
         "ends": "the surviving edge ends where the merged edge ended",
         "refuse": "the operation succeeds only under its precondition, checked before anything changes",
         "scan": "a cell's scan covers its own bounds, label and type",
         "init": "every initialised cell is counted once"}
G = "vigra::cellimage::GeoMap::"
LISTS = {G + "nodeList_": "node", G + "edgeList_": "edge", G + "faceList_": "face"}
COUNTS = {G + "nodeCount_": "node", G + "edgeCount_": "edge", G + "faceCount_": "face"}
TYPES = {"node": 2, "edge": 1, "face": 0}
LABEL, SIZE, BOUNDS = G + "CellInfo::label", G + "CellInfo::size", G + "CellInfo::bounds"
DEG, ANCHOR, CONT = G + "NodeInfo::degree", G + "NodeInfo::anchor", G + "FaceInfo::contours"
START, END = G + "EdgeInfo::start", G + "EdgeInfo::end"
TL = "vigra::cellimage::CellPixel::typeLabel_"
DT = G + "DartTraverser::"
OPS = {"removeIsolatedNode": (["node"], "face"), "removeBridge": (["edge"], "face"),
       "mergeFaces": (["edge", "face"], "face"), "mergeEdges": (["edge", "node"], "edge")}
MOD = {DT + x for x in ("isSingular", "startNodeLabel", "edgeLabel", "leftFaceLabel", "rightFaceLabel", "endNodeLabel", "nextPhi",
                        "prevPhi", "nextSigma", "prevSigma", "nextAlpha", "prevAlpha", "carefulNextSigma", "operator==",
                        "operator!=", "tryNextSigma", "tryPrevSigma")}
MOVES = {"nextPhi", "prevPhi", "nextSigma", "prevSigma", "nextAlpha", "prevAlpha", "carefulNextSigma"}


def isfld(t, n):
    return t.op == "fld" and t.args[1] == n


def norm(i):
    """the label of the cell stored at index i is i"""
    i = strip(i)
    while i.op == "ld" and isfld(i.args[0], LABEL):
        c = cellof(i.args[0].args[0])
        if not c:
            break
        i = c[1]
    return i


def cellof(loc):
    """an element of one of the cell lists -> (kind, index)"""
    loc = strip(loc)
    if loc.op in ("obj", "ld"):
        loc = loc.args[0]
    if loc.op == "elt" and loc.args[0].op == "fld" and loc.args[0].args[1] in LISTS:
        return (LISTS[loc.args[0].args[1]], norm(loc.args[1]))
    return None


def fname(t):
    if t.op in ("f", "r", "m"):
        for a in t.args:
            if isinstance(a, str):
                return a
    return None


def anchorof(t):
    """an index found by findComponentAnchor(face, dart) -> face"""
    t = strip(t)
    if t.op in ("r", "f") and any(isinstance(a, str) and a == G + "findComponentAnchor" for a in t.args):
        for a in t.args:
            if hasattr(a, "op"):
                c = cellof(a)
                if c:
                    return c
    return None


class C(Recorder):
    fields = frozenset(set(COUNTS) | {LABEL, SIZE, BOUNDS, DEG, TL, START, END})

    def __init__(self, prog, f):
        super().__init__(prog)
        self.f = f
        self.errs = []

    def start(self, eng):
        return ()

    def inline(self, eng, fn, ctx, ins):
        if fn.name in MOD or last(fn.name) in ("findComponentAnchor", "cellScanIterator", "removeNodeFromContours", "checkConsistency"):
            return False
        if "LabelScanIterator::" in fn.name or "LabelScanIterator<" in fn.name:
            return False
        return super().inline(eng, fn, ctx, ins)

    def put(self, st, e):
        if e not in st.cl:
            st.cl = st.cl + (e,)

    def drop(self, st, *k):
        st.cl = tuple(x for x in st.cl if x[0] not in k)

    def err(self, st, rule, what):
        self.errs.append((rule, what))
        self.put(st, ("err", rule, what))

    # -------------------------------------------------------------- effects
    def on_write(self, eng, st, ctx, ins, loc, val):
        if st.cl == "dead":
            return
        if root(loc).op in ("var", "tmp"):
            return
        l = strip(loc)
        if l.op != "fld":
            return
        n, o = l.args[1], l.args[0]
        if n in COUNTS:
            d = delta(eng.load(st, loc), val)
            self.put(st, ("cnt", COUNTS[n], d, sum(1 for x in st.cl if x[0] == "cnt")))
        elif n == LABEL:
            c = cellof(o)
            if any(x.op == "f" and "vigra::NumericTraits::max" in x.args for x in subterms(val)):
                if ("rm", c) in st.cl:
                    self.err(st, "removed", "a cell is invalidated twice")
                self.put(st, ("rm", c))
            else:
                self.err(st, "removed", "the label of a cell changes")
        elif n == SIZE:
            c = cellof(o)
            d = add(val, neg(eng.load(st, loc)))
            for x in (d.args if d.op == "+" else (d,)):
                y = strip(x)
                r = cellof(y.args[0].args[0]) if y.op == "ld" and isfld(y.args[0], SIZE) else None
                if r is None:
                    self.err(st, "size", "the size of a cell changes by something else than a removed cell's size")
                elif ("size", c, r) in st.cl:
                    self.err(st, "size", "a cell's size is added twice")
                else:
                    self.put(st, ("size", c, r))
        elif n == DEG:
            c = cellof(o)
            self.put(st, ("deg", c, delta(eng.load(st, loc), val), sum(1 for x in st.cl if x[0] == "deg")))
        elif n == TL:
            self.pixel(eng, st, ctx, ins, val)
        elif n == DT + "neighborCirc_":
            if o.op == "fld" and o.args[1] in (START, END):
                self.put(st, ("end", last(o.args[1]), cellof(o.args[0]), self.who(eng, st, val), self.moved(st, val)))
            elif o.op == "elt" and isfld(o.args[0], CONT):
                self.contour(st, cellof(o.args[0].args[0]), o.args[1], self.who(eng, st, val))
        elif n == BOUNDS:
            self.err(st, "bounds", "the bounds of a cell are overwritten")

    def who(self, eng, st, val):
        """what a traverser was derived from"""
        out = set()
        for x in allsub(eng, val):
            if x.op == "out" or x.op == "var":
                out.add(next((str(a) for a in x.args if not isinstance(a, int)), "?"))
            if x.op == "fld" and x.args[1] in (START, END):
                out.add(last(x.args[1]))
        return tuple(sorted(out))

    def moved(self, st, val):
        for x in subterms(val):
            if x.op == "out":
                v = [str(a) for a in x.args if not isinstance(a, int)]
                for e in st.cl:
                    if e[0] == "mv" and e[1] in v:
                        return e[2]
        return None

    def contour(self, st, face, idx, who):
        a = anchorof(idx)
        self.put(st, ("cset", face, a, who))
        if a:
            self.drop(st, "c1")
            self.put(st, ("c1", "assigned"))

    def pixel(self, eng, st, ctx, ins, val):
        cur = [x for x in st.cl if x[0] == "cur"]
        v, ty, cell = strip(val), 0, None
        parts = v.args if v.op in ("|", "+") else (v,)
        for p in parts:
            if isc(p):
                ty = p.args[0]
            elif p.op == "<<" and isc(p.args[1]) and p.args[1].args[0] == 2:
                y = p.args[0]
                cell = cellof(y.args[0].args[0]) if y.op == "ld" and isfld(y.args[0], LABEL) else None
            elif p.op == "*" and any(isc(a) and a.args[0] == 4 for a in p.args):
                y = [a for a in p.args if not isc(a)][0]
                cell = cellof(y.args[0].args[0]) if y.op == "ld" and isfld(y.args[0], LABEL) else None
            else:
                ty = None
        if not cur:
            self.err(st, "pixels", "pixels are written outside a scan of a removed cell")
            return
        if cell is None or ty != TYPES.get(cell[0]):
            self.err(st, "pixels", "pixels get a label and type that do not belong to one cell")
            return
        self.put(st, ("px", cur[-1][1], cell))
        self.drop(st, "rnd")
        self.put(st, ("rnd", 1))

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if st.cl == "dead":
            return
        l = strip(loc)
        if isfld(l, BOUNDS):
            c = cellof(l.args[0])
            r = strip(args[0][1]) if args else None
            if r is not None and r.op == "ld":
                r = r.args[0]
            r = cellof(r.args[0]) if r is not None and isfld(r, BOUNDS) else None
            if m != "operator|=":
                if m not in ("area", "upperLeft", "lowerRight", "size", "width", "height", "contains", "isEmpty", "intersects"):
                    self.err(st, "bounds", "the bounds of a cell change by %s" % m)
            elif r is None:
                self.err(st, "bounds", "the bounds of a cell grow by something else than a removed cell's bounds")
            else:
                self.put(st, ("bounds", c, r))
        elif isfld(l, CONT):
            c = cellof(l.args[0])
            if m == "erase":
                a = [anchorof(x) for y in args for x in subterms(strip(eng.argval(st, y) if y[0] == "L" else y[1]))]
                a = [x for x in a if x]
                self.put(st, ("erase", c, a[0] if a else None, sum(1 for x in st.cl if x[0] == "erase")))
            elif m == "push_back":
                v = args[0][1]
                s = strip(v)
                if s.op == "elt" and isfld(s.args[0], CONT):
                    self.put(st, ("pushed", c, cellof(s.args[0].args[0])))
                    st.cl = tuple(x for x in st.cl if x[0] != "rp") + (("rp", 1 + sum(x[1] for x in st.cl if x[0] == "rp")),)
                else:
                    t = eng.argval(st, args[0]) if args[0][0] == "L" else v
                    self.put(st, ("cpush", c, self.who(eng, st, t) or (str(v),), sum(1 for x in st.cl if x[0] == "cpush")))
            elif m in ("insert", "swap", "clear", "resize", "pop_back", "assign"):
                self.put(st, ("cother", c, m))

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if st.cl == "dead":
            return
        n = f["n"]
        if n == G + "cellScanIterator":
            self.finish(st)
            c = cellof(args[0][1])
            ok = len(args) == 4 and isc(args[1][1]) and c and args[1][1].args[0] == TYPES[c[0]]
            if not ok:
                self.err(st, "pixels", "a scan with the wrong cell type")
            if not is_null(strip(args[3][1])):
                self.err(st, "pixels", "only the pixels inside the original image are relabelled")
            if not any(isfld(x, G + "cells") for x in subterms(strip(args[2][1]))):
                self.err(st, "pixels", "the scan does not walk over the cell image")
            self.put(st, ("cur", c))
        elif n.startswith(DT) and last(n) in MOVES and obj is not None:
            o = strip(obj)
            if isfld(o, ANCHOR):
                k = cellof(o.args[0])
                if ("nodeg", k) in st.cl:
                    self.err(st, "degree", "the anchor of a node without edges is turned")
                self.put(st, ("nok", k))
            elif o.op == "elt" and isfld(o.args[0], CONT):
                if anchorof(o.args[1]):
                    was = [x[1] for x in st.cl if x[0] == "c1"]
                    self.drop(st, "c1")
                    self.put(st, ("c1", "moved" if was and was[-1] == "assigned-on" else "turned"))
            elif root(o).op == "var":
                k = ("mv", str(o))
                st.cl = tuple(x for x in st.cl if x[:2] != k) + (k + (last(n),),)
        elif n == G + "removeNodeFromContours":
            c = strip(args[0][1])
            if c.op == "obj":
                c = c.args[0]
            who = cellof(c.args[0]) if isfld(c, CONT) else None
            side = None
            if who:
                s = {last(fname(x)) for x in allsub(eng, who[1]) if fname(x) and fname(x).startswith(DT)}
                side = "L" if "leftFaceLabel" in s else "R" if "rightFaceLabel" in s else None
            self.put(st, ("unlink", side, bool([x for x in st.cl if x[0] == "end"])))

    # -------------------------------------------------------------- conditions
    def finish(self, st):
        if ("rnd", 0) in st.cl:
            self.err(st, "pixels", "a pixel of the scan is skipped")
        self.drop(st, "rnd")

    def on_assume(self, eng, st, ctx, cond, val):
        if st.cl == "dead":
            return
        c, v = cond, val
        while c.op == "!":
            c, v = c.args[0], not v
        names = {last(fname(x)) for x in subterms(c) if fname(x)}
        if "inRange" in names or "atEnd" in names:
            if "atEnd" in names:
                v = not v
            self.finish(st)
            if v:
                self.put(st, ("rnd", 0))
            else:
                cur = [x for x in st.cl if x[0] == "cur"]
                if cur:
                    if not any(x[0] == "px" and x[1] == cur[-1][1] for x in st.cl) and not any(x[0] == "err" for x in st.cl):
                        st.cl = "dead"          # a cell has pixels
                        return
                    self.drop(st, "cur")
                    self.put(st, ("done", cur[-1][1]))
            return
        an = [x for x in subterms(strip(c)) if isfld(x, ANCHOR) and cellof(x.args[0])]
        if an:
            k = cellof(an[0].args[0])
            if "isSingular" in names:
                if not any(x[0] in ("px", "done") for x in st.cl):
                    self.err(st, "degree", "the anchor is tested before the edge's pixels are relabelled")
                if not v:
                    self.put(st, ("nok", k))
            else:
                self.put(st, ("nok", k))
            return
        if "isSingular" in names:
            if any(x.op == "p" and x.args[0] != "this" for x in subterms(c)) and not any(isfld(x, CONT) for x in subterms(c)):
                self.put(st, ("argsing", v))
            return
        dg = [x for x in subterms(strip(c)) if isfld(x, DEG)]
        if dg:
            k = cellof(dg[0].args[0])
            if c.op == "==" and any(isc(a) for a in c.args):
                v = not v
            elif c.op == "<" and not is_null(c.args[0]):
                v = None
            # truth of the degree after the decrement
            if v is False:
                self.put(st, ("nok", k))
                self.put(st, ("nodeg", k))
            return
        if "operator==" in names or "operator!=" in names:
            if any(fname(x) in (DT + "operator==", DT + "operator!=") for x in subterms(c)):
                self.put(st, ("same", v if "operator==" in names else not v))
                return
        if anchorof(c):          # an index of zero
            self.drop(st, "skip")
            self.put(st, ("skip", not v, anchorof(c)))
            return
        if c.op == "==":
            kinds, contour = [], False
            for a in c.args:
                s = strip(a)
                k = None
                if s.op == "ld" and isfld(s.args[0], LABEL):
                    q = cellof(s.args[0].args[0])
                    k = q[0] if q else None
                elif fname(s) and fname(s).startswith(DT):
                    k = {"leftFaceLabel": "face", "rightFaceLabel": "face", "edgeLabel": "edge", "startNodeLabel": "node",
                         "endNodeLabel": "node"}.get(last(fname(s)))
                    contour |= any(isfld(x, CONT) for x in subterms(s))
                kinds.append(k)
            if kinds[0] and kinds[0] == kinds[1]:
                if contour:
                    if kinds[0] == "edge":
                        was = [x[1] for x in st.cl if x[0] == "c1"]
                        self.drop(st, "c1")
                        self.put(st, ("c1", ("assigned-on" if was and was[-1] == "assigned" else "on") if v else "off"))
                else:
                    self.put(st, ("eq", kinds[0], v))
                    if kinds[0] == "node" and v:
                        self.drop(st, "c1")
                        self.put(st, ("c1", "loop"))
                return
            for a, b in (c.args, c.args[::-1]):
                if anchorof(a):
                    self.drop(st, "skip")
                    self.put(st, ("skip", v, anchorof(a)))
                    return
        sz = [x for x in subterms(strip(c)) if (x.op == "m" and x.args[0] in ("size", "empty") or x.op == "iter" and x.args[0] == "end")
              and any(isfld(y, CONT) for y in subterms(x))]
        if sz:
            over = v if c.op == "==" else not v
            q = [cellof(y.args[0]) for x in sz for y in subterms(x) if isfld(y, CONT)]
            self.round(st)
            if over:
                self.put(st, ("all", q[0]))
            if not any(x[0] == "started" for x in st.cl):
                self.put(st, ("started",))
                o = [strip(a) for a in c.args if hasattr(a, "op")]
                if c.op in ("==", "<") and not any(a is ZERO or a.op == "iter" and a.args[0] in ("begin", "cbegin") for a in o) and \
                        not (c.op == "<" and False):
                    self.err(st, "contours", "the first contours of the merged face are left out")

    def round(self, st):
        k = [x for x in st.cl if x[0] == "skip"]
        n = sum(x[1] for x in st.cl if x[0] == "rp")
        if k:
            if k[-1][1] and n:
                self.err(st, "contours", "the merged contour of the removed face is kept as a separate contour")
            if not k[-1][1] and n != 1:
                self.err(st, "contours", "a contour of the removed face is handed over %d times" % n)
        elif n:
            self.err(st, "contours", "the merged contour of the removed face is kept as a separate contour")
        for x in k:
            self.put(st, ("skipped", x[2]))
        self.drop(st, "skip", "rp")

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        self.exits.append((kind, st.cl, st, ret, ctx, ins))


NOEFFECT = {"argsing", "eq", "same", "mv", "c1", "skip", "started", "nodeg", "all", "rp", "cur", "rnd", "skipped", "nok"}


def check_op(prog, rep, f, op):
    rmk, sk = OPS[op]
    c = C(prog, f)
    e = run_engine(prog, c, f, rep)
    seen = set()
    for rule, what in sorted(set(c.errs)):
        rep.bad(rule, f, what, f.short())
    for kind, cl, st, ret, ctx, ins in c.exits:
        if cl == "dead":
            continue
        eff = [x for x in cl if x[0] not in NOEFFECT]
        if kind == "throw":
            if (ins.get("f") or {}).get("m", "throw") in ("throw_precondition_error", "throw"):
                if eff:
                    rep.bad("refuse", f, "the operation is refused after it has changed something (%s)" % eff[0][0], site(ctx, ins))
                else:
                    rep.ok("refuse", f)
            continue
        if kind != "return":
            continue
        r = ret[1] if isinstance(ret, tuple) else ret
        s = cellof(r) if r is not None else None
        key = (frozenset(cl), s)
        if key in seen:
            continue
        seen.add(key)
        bad = [(x[1], x[2]) for x in cl if x[0] == "err"]
        B = lambda rule, what: bad.append((rule, what))
        rms = [x[1] for x in cl if x[0] == "rm"]
        if None in rms or sorted(x[0] for x in rms if x) != sorted(rmk):
            B("removed", "removes %s instead of one %s" % (", ".join(x[0] if x else "?" for x in rms) or "nothing", " and one ".join(rmk)))
            rms = [x for x in rms if x]
        if s is None or s[0] != sk or s in rms:
            B("removed", "the result is not the surviving %s" % sk)
        for k in ("node", "edge", "face"):
            d = [x[2] for x in cl if x[0] == "cnt" and x[1] == k]
            if None in d or sum(d) != -rmk.count(k):
                B("count", "%sCount_ changes by %s instead of %d" % (k, d, -rmk.count(k)))
        if op == "mergeFaces" and s and len(rms) == 2:
            g = [x for x in rms if x[0] == "face"]
            n = [{last(fname(y)) for y in subterms(q[1]) if fname(y) and fname(y).startswith(DT) and "Face" in fname(y)} for q in (s, g[0])] if g else []
            if n and sorted(map(sorted, n)) not in ([["leftFaceLabel"], ["rightFaceLabel"]],):
                B("removed", "the two faces merged are not the two sides of the dart")
        for r_ in rms:
            t = [x[2] for x in cl if x[0] == "px" and x[1] == r_]
            if ("done", r_) not in cl:
                B("pixels", "the pixels of the removed %s are not all relabelled" % r_[0])
            elif any(x != s for x in t):
                B("pixels", "the pixels of the removed %s are not relabelled to the cell returned" % r_[0])
            n = sum(1 for x in cl if x[0] == "size" and x[1] == s and x[2] == r_)
            if n != 1:
                B("size", "the size of the removed %s is added %d times to the cell returned" % (r_[0], n))
            if op != "removeIsolatedNode" and ("bounds", s, r_) not in cl:
                B("bounds", "the bounds of the removed %s are not added to the cell returned" % r_[0])
        for x in cl:
            if x[0] == "done" and x[1] not in rms:
                B("pixels", "the pixels of a cell that is not removed are relabelled")
            elif x[0] in ("size", "bounds") and (x[1] != s or x[2] not in rms):
                B(x[0], "the %s of a cell not involved changes" % x[0])
            elif x[0] == "cur":
                B("pixels", "a scan is left before all pixels are relabelled")
        if op in ("mergeFaces", "removeBridge"):
            deg = [x for x in cl if x[0] == "deg"]
            nodes = [x[1] for x in deg]
            if len(deg) != 2 or len(set(nodes)) != 2 or any(x[2] != -1 for x in deg):
                B("degree", "the end nodes of the removed edge do not each lose one degree")
            for n in set(nodes):
                if ("nok", n) not in cl:
                    B("degree", "a node's anchor is left on the removed edge")
        if op == "removeIsolatedNode":
            er = [x for x in cl if x[0] == "erase"]
            if len(er) != 1 or er[0][1] != s or er[0][2] != s:
                B("contours", "the node's contour is not removed from its face")
            if [x for x in cl if x[0] in ("cpush", "pushed", "cset", "cother")]:
                B("contours", "other contours change")
            if ("argsing", True) not in cl:
                B("refuse", "a node with edges is accepted")
        elif op == "removeBridge":
            cs = [x for x in cl if x[0] == "cset"]
            cp = [x for x in cl if x[0] == "cpush"]
            if len(cs) != 1 or cs[0][1] != s or cs[0][2] != s or len(cp) != 1 or cp[0][1] != s:
                B("contours", "the contour is not split into two contours of the face")
            elif cs[0][3] == cp[0][2]:
                B("contours", "both contours start at the same end of the bridge")
            elif sum(1 for x in cl if x[0] == "mv") < 2:
                B("contours", "the new contour anchors still lie on the removed edge")
            if ("argsing", False) not in cl:
                B("refuse", "a dart without edge is accepted")
            if ("eq", "face", True) not in cl:
                B("refuse", "an edge between two different faces is accepted")
        elif op == "mergeFaces":
            if ("eq", "face", False) not in cl:
                B("refuse", "an edge with the same face on both sides is accepted")
            g = [x for x in rms if x[0] == "face"]
            if g:
                pu = [x for x in cl if x[0] == "pushed"]
                if any(x[1] != s or x[2] != g[0] for x in pu):
                    B("contours", "contours are not handed over from the removed face to the survivor")
                sk_ = [x for x in cl if x[0] == "skip"]
                er = [x for x in cl if x[0] == "erase" and x[1] == g[0] and x[2] == g[0]]
                other = [x for x in cl if x[0] == "cother" and x[1] == s]
                if other and not er:
                    B("contours", "the merged contour of the removed face is kept as a separate contour")
                if not other and ("all", g[0]) not in cl:
                    B("contours", "the contours of the removed face are not all handed over")
                for x in [x[-1] for x in cl if x[0] in ("skip", "skipped")]:
                    if x != g[0]:
                        B("contours", "the wrong contour of the removed face is left out")
            c1 = [x[1] for x in cl if x[0] == "c1"]
            if not c1 or c1[-1] not in ("off", "loop", "moved"):
                B("contours", "the survivor's contour still starts on the removed edge")
        else:
            ends = {x[1]: x for x in cl if x[0] == "end"}
            if set(ends) != {"start", "end"} or any(x[2] != s for x in ends.values()):
                B("ends", "the surviving edge does not get both a new start and a new end")
            else:
                if ends["start"][3] == ends["end"][3]:
                    B("ends", "start and end of the surviving edge are the same dart")
                if any(x[4] not in ("nextAlpha", "prevAlpha") for x in ends.values()):
                    B("ends", "the surviving edge still ends at the removed node")
            un = [x for x in cl if x[0] == "unlink"]
            sides = {x[1] for x in un}
            if any(x[2] for x in un):
                B("contours", "the contour anchors are turned after the edge ends have changed")
            if not ("L" in sides and "R" in sides or len(sides) == 1 and sides <= {"L", "R"} and ("eq", "face", True) in cl):
                B("contours", "a contour of one of the adjacent faces may still start at the removed node")
            if ("eq", "edge", False) not in cl:
                B("refuse", "a node with a single edge is accepted")
            if ("same", True) not in cl:
                B("refuse", "a node with more than two edges is accepted")
        for rule, what in sorted(set(bad)):
            rep.bad(rule, f, what, f.short())
        done = {b[0] for b in bad}
        for rule in ("removed", "count", "pixels", "size", "bounds", "degree", "contours", "ends", "refuse"):
            if rule not in done:
                rep.ok(rule, f)


# ------------------------------------------------------------------ removeNodeFromContours
def check_unlink(prog, rep):
    for f in prog.byname.get(G + "removeNodeFromContours", []):
        class U(Recorder):
            def inline(self, eng, fn, ctx, ins):
                return False

            def start(self, eng):
                return ()

            def on_assume(self, eng, st, ctx, cond, val):
                c, v = cond, val
                while c.op == "!":
                    c, v = c.args[0], not v
                if c.op == "==" and any(fname(x) == DT + "startNodeLabel" for a in c.args for x in subterms(a)):
                    st.cl = tuple(x for x in st.cl if x[0] != "hit") + (("hit", v),)
                elif any(x.op == "iter" and x.args[0] == "end" or x.op == "m" and x.args[0] == "size" for x in subterms(c)):
                    self.end(st)
                    if v == (c.op == "=="):
                        st.cl = st.cl + (("done",),)

            def end(self, st):
                h = [x[1] for x in st.cl if x[0] == "hit"]
                n = sum(1 for x in st.cl if x[0] == "mv")
                if h and (n == 1) != h[-1] or not h and n:
                    bad.append("contours starting at the removed node are not turned, or others are")
                if h:
                    good.append(1)
                st.cl = tuple(x for x in st.cl if x[0] not in ("hit", "mv"))

            def on_call(self, eng, st, ctx, ins, fn, obj, args, inlined):
                if fn["n"].startswith(DT) and last(fn["n"]) in MOVES:
                    if last(fn["n"]) not in ("nextPhi", "prevPhi"):
                        bad.append("the contour anchor leaves its contour")
                    st.cl = st.cl + (("mv", len(st.cl)),)
        bad, good = [], []
        c = U(prog)
        run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind == "return" and ("done",) not in cl:
                bad.append("not all contours are visited")
        if not good:
            bad.append("no contour is ever turned")
        for b in sorted(set(bad)):
            rep.bad("contours", f, b, f.short())
        if not bad:
            rep.ok("contours", f)


# ------------------------------------------------------------------ scans
def check_scan(prog, rep):
    for f in prog.byname.get(G + "cellScanIterator", []):
        ps = [f.vars[v]["name"] for v in f.params]

        class B(Recorder):
            def on_ctor(self, eng, st, ctx, ins, fn, loc, args, inlined):
                if "LabelScanIterator" in fn["n"] and len(args) >= 3:
                    got.append([[strip(y) for y in allsub(eng, eng.argval(st, x) if x[0] == "L" else x[1])] for x in args])
        got = []
        run_engine(prog, B(prog), f, rep)
        has = lambda sub, n: any(isfld(x, n) and any(y.op == "p" and y.args[0] == ps[0] for y in subterms(x)) for x in sub)
        if not got:
            rep.bad("scan", f, "no scan is made", f.short())
        for a in got:
            if not (has(a[0], BOUNDS) and has(a[1], BOUNDS) and (len(a) < 4 or has(a[3], BOUNDS))):
                rep.bad("scan", f, "the scan does not cover the cell's bounds", f.short())
            elif not has(a[2], LABEL):
                rep.bad("scan", f, "the scan does not look for the cell's label", f.short())
            elif not any(x.op == "p" and x.args[0] == ps[1] for x in a[2]):
                rep.bad("scan", f, "the scan does not look for the cell's type", f.short())
            else:
                rep.ok("scan", f)
    for k, ty in (("node", 2), ("edge", 1), ("face", 0)):
        for f in prog.byname.get(G + k + "ScanIterator", []):
            class S(Recorder):
                def inline(self, eng, fn, ctx, ins):
                    return False

                def on_call(self, eng, st, ctx, ins, fn, obj, args, inlined):
                    if fn["n"] == G + "cellScanIterator":
                        got.append((cellof(args[0][1]), args[1][1], args))
            got = []
            run_engine(prog, S(prog), f, rep)
            ps = [f.vars[v]["name"] for v in f.params]
            if len(got) == 1 and got[0][0] and got[0][0][0] == k and isc(got[0][1]) and got[0][1].args[0] == ty and \
                    got[0][0][1] is T("p", ps[0]):
                rep.ok("scan", f)
            else:
                rep.bad("scan", f, "the %s scan does not scan the %s with the given label" % (k, k), f.short())


# ------------------------------------------------------------------ initialisation
def check_init(prog, rep):
    for k, name in (("node", "initNodeList"), ("edge", "initEdgeList"), ("face", "initFaceList")):
        for f in prog.byname.get(G + name, []):
            class I(Recorder):
                fields = frozenset(set(COUNTS) | {LABEL})

                def start(self, eng):
                    return (0, 0)

                def inline(self, eng, fn, ctx, ins):
                    if fn.name in MOD:
                        return False
                    return super().inline(eng, fn, ctx, ins)

                def on_write(self, eng, st, ctx, ins, loc, val):
                    if root(loc).op in ("var", "tmp") or loc.op != "fld":
                        return
                    a, b = st.cl
                    if loc.args[1] in COUNTS:
                        d = delta(eng.load(st, loc), val)
                        if COUNTS[loc.args[1]] != k or d != 1:
                            bad.append("a cell count changes by %s" % d)
                        else:
                            st.cl = (a, min(b + 1, 3))
                            seen.append(1)
                    elif loc.args[1] == LABEL:
                        q = cellof(loc.args[0])
                        if q and q[0] == k and not any("max" in str(x) for x in (val,) if x.op == "f"):
                            st.cl = (min(a + 1, 3), b)
                            if not norm(val) is q[1]:
                                bad.append("a cell is stored under another label than its own")

                def on_loop_head(self, eng, st, ctx, block):
                    self.bal(st)

                def bal(self, st):
                    if st.cl[0] != st.cl[1]:
                        bad.append("a cell is initialised without being counted, or counted without being initialised")
                    st.cl = (0, 0)

                def on_exit(self, eng, st, kind, ret, ctx, ins):
                    if kind == "return":
                        self.bal(st)
            bad, seen = [], []
            run_engine(prog, I(prog), f, rep)
            if not seen:
                bad.append("no cell is ever counted")
            for b in sorted(set(bad)):
                rep.bad("init", f, b, f.short())
            if not bad:
                rep.ok("init", f)


def run(prog, rep, tier):
    n = 0
    for op in OPS:
        for f in prog.byname.get(G + op, []):
            n += 1
            check_op(prog, rep, f, op)
    check_unlink(prog, rep)
    check_scan(prog, rep)
    check_init(prog, rep)
    if n < 4:
        raise AnalysisBroken("only %d Euler operations found" % n)
    for r in ("removed", "count", "pixels", "size", "bounds", "degree", "contours", "ends", "refuse", "scan", "init"):
        rep.need(r, 1)
