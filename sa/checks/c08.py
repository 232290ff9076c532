from ..core import *
from .c01 import strip

TITLE = "face areas and bounds survive topological changes"
GROUPS = ["geomap"]
EXPLANATION = ("Cache-coherence analysis over all paths: the lazily computed area and bounding box of a face are computed from "
               "scratch over its contours and marked valid only afterwards; on every path of a face merge the survivor's "
               "valid caches are extended by exactly the merged face's values (taken before the topology changes), or "
               "invalidated; embedding a contour adds exactly that contour's area after relabelling; pixel areas are "
               "folded, counted and reset exactly once; map copies take over value and validity together.")
RULES = {"lazy": "area()/boundingBox() return the cached value only if it is marked valid, else compute it anew and mark it",
         "merge-area": "mergeFaces adds the merged face's area to a valid area of the survivor exactly once",
         "merge-bbox": "mergeFaces extends a valid bounding box of the survivor by the merged face's, read before any change",
         "merge-pixel": "mergeFaces adds the merged face's pixel area to the survivor's exactly once",
         "merge-outer": "when the survivor lay in a hole of the merged face, the outer contour of the merged face comes first",
         "embed": "embedding a contour adds the contour's area to a valid area after the contour was relabelled",
         "pixels": "pixels handed to a face raise its pixel area by exactly their number",
         "count": "pixel areas are reset for every face before the pixels of the label image are counted",
         "copy": "copying a face copies area, bounding box, pixel area and their validity",
         "init": "a new face has no valid caches and pixel area 0",
         "contour": "contourArea sums the signed areas of exactly the non-bridge darts of the contour",
         "valid": "validity is only claimed where the value was computed"}
F = "GeoMap::Face::"
AREA, BBOX, PAREA, FFLAGS, ANCH = F + "area_", F + "boundingBox_", F + "pixelArea_", F + "flags_", F + "anchors_"
LEFT = {"GeoMap::Edge::leftFaceLabel_", "GeoMap::Edge::rightFaceLabel_"}


def flds(t, n):
    return any(x.op == "fld" and x.args[1] == n for x in subterms(t))


def bits(prog):
    out = {}
    for e in prog.enums.values():
        for c in e["consts"]:
            n = c["n"].split("::")[-1]
            if n in ("BOUNDING_BOX_VALID", "AREA_VALID"):
                out[n] = int(c["v"]) & 0xffffffff
    return out


def bitmask(t):
    """flags & constant -> constant, plain flags -> None, anything else -> 0"""
    if t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] == FFLAGS:
        return None
    if t.op == "|":          # bits set by hand do not count
        o = [a for a in t.args if not isc(a)]
        return bitmask(o[0]) if len(o) == 1 else 0
    if t.op == "&":
        m, o = 0xffffffff, []
        for a in t.args:
            if isc(a):
                m &= a.args[0] & 0xffffffff
            elif a.op == "~" and isc(a.args[0]):
                m &= ~a.args[0].args[0] & 0xffffffff
            else:
                o.append(a)
        if len(o) == 1:
            x = bitmask(o[0])
            return m if x is None else m & x
    return 0


def validity(cond, val):
    """(flag object, bits, valid?) decided by cond==val"""
    neg_ = False
    while cond.op == "!":
        cond, val = cond.args[0], not val
    if cond.op == "==" and any(isc(a) for a in cond.args):
        c = [a for a in cond.args if isc(a)][0].args[0]
        o = [a for a in cond.args if not isc(a)]
        if len(o) == 1 and bitmask(o[0]):
            return obj_of(o[0]), bitmask(o[0]), val if c else not val
        return None
    b = bitmask(cond)
    if b:
        return obj_of(cond), b, val
    return None


def obj_of(t):
    for x in subterms(t):
        if x.op == "fld" and x.args[1] == FFLAGS:
            return x.args[0]


def flagwrite(val, mask):
    """value written to flags: True sets the bits, False clears them, None leaves them"""
    if isc(val):
        return bool(val.args[0] & mask)
    if val.op == "|":
        c = [a.args[0] for a in val.args if isc(a)]
        if c and any(x & mask for x in c):
            return True
        if not all(isc(a) or flagwrite(a, mask) is None for a in val.args):
            return any(flagwrite(a, mask) for a in val.args)
        return None
    if val.op == "&":
        c = [a.args[0] & 0xffffffff for a in val.args if isc(a)]
        for a in val.args:
            if a.op == "~" and isc(a.args[0]):
                c.append(~a.args[0].args[0] & 0xffffffff)
        if c and any(not (x & mask) for x in c):
            return False
        return None
    return None


def calls_in(eng, t, name):
    return [x for x in allsub(eng, t) if x.op in ("r", "f") and name in x.args]


class Base(Recorder):
    fields = frozenset({AREA, BBOX, PAREA, FFLAGS})
    stop = frozenset({"contourArea", F + "area", F + "boundingBox", "GeoMap::associatePixels"})

    def inline(self, eng, fn, ctx, ins):
        if fn.name in self.stop:
            return False
        if fn.cls == "GeoMap::Face" and not eng.fninfo(fn)["loops"]:
            return True
        return super().inline(eng, fn, ctx, ins)


# ---------------------------------------------------------------- lazy getters
class Lazy(Base):
    """state: None unknown, 'valid', 'stale', 'fresh' (reset), 'done' (marked after reset)"""

    def __init__(self, prog, field, bit, source):
        self.field, self.bit, self.source = field, bit, source
        self.bad, self.good, self.used = [], 0, False
        self.stop = frozenset({"contourArea", "vigra::BBoxPolygon::boundingBox"})
        super().__init__(prog)

    def start(self, eng):
        return None

    def on_assume(self, eng, st, ctx, cond, val):
        v = validity(cond, val)
        if v and v[1] & self.bit and st.cl is None:
            st.cl = "valid" if v[2] else "stale"

    def fresh(self, eng, val):
        lv = leaves(eng, val)
        return any(isc(x) and x.args[0] == 0 or x.op == "empty" or not flds(x, self.field) for x in lv) and \
            not all(flds(x, self.field) for x in lv)

    def upd(self, eng, st, ctx, ins, val, acc):
        if st.cl == "valid":
            self.bad.append(("the cached value is changed although it is valid", site(ctx, ins)))
            return
        if acc:
            self.used = True
            if st.cl not in ("fresh", "done"):
                self.bad.append(("the value is accumulated onto an old one", site(ctx, ins)))
        else:
            if calls_in(eng, val, self.source):
                self.used = True
            st.cl = "fresh"

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op != "fld":
            return
        if loc.args[1] == self.field:
            self.upd(eng, st, ctx, ins, val, not self.fresh(eng, val) or
                     val.op == "+" and any(x.op == "phi" and flds(x, self.field) for x in val.args))
        elif loc.args[1] == FFLAGS:
            if flagwrite(val, self.bit):
                if st.cl != "fresh":
                    self.bad.append(("marked valid without having been computed anew", site(ctx, ins)))
                st.cl = "done"

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if loc.op == "fld" and loc.args[1] == self.field:
            for a in args:
                if calls_in(eng, eng.argval(st, a) if a[0] == "L" else a[1], self.source):
                    self.used = True
            if method == "operator=":
                st.cl = "fresh"
            else:
                self.upd(eng, st, ctx, ins, ZERO, True)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if f["n"] == self.source:
            self.used = True

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        super().on_exit(eng, st, kind, ret, ctx, ins)
        if kind != "return":
            return
        if st.cl not in ("valid", "done"):
            self.bad.append(("returned although it is neither marked valid nor computed anew (%s)" % st.cl, site(ctx, ins)))
        elif ret is None:
            pass
        elif ret[0] == "L" and ret[1].op == "fld" and ret[1].args[1] == self.field:
            self.good += 1
        else:
            v = ret[1] if ret[0] == "V" else eng.rval(st, ret)
            cur = eng.load(st, fld(this_of(ctx), self.field)) if this_of(ctx) is not None else None
            if v is cur or flds(v, self.field) or any(flds(x, self.field) for x in leaves(eng, v)) or \
                    st.cl == "done" and isc(v) or \
                    any(x.op == "phi" for x in leaves(eng, v)) or calls_in(eng, v, self.source):
                self.good += 1
            else:
                self.bad.append(("something else than the cached value is returned: %s" % v, site(ctx, ins)))


def this_of(ctx):
    return None


# ---------------------------------------------------------------- mergeFaces
class Merge(Base):
    """events: as(obj,bits,valid) / area|bbox|parea writes / call / clear / mod / gone / hook"""
    reads = frozenset({"GeoMap::postMergeFacesHook"})
    fields = Base.fields | {"GeoMap::Face::map_"}
    stop = Base.stop | {"GeoMap::removeIsolatedNode", "GeoMap::detachDart"}
    topo = {SIGMA, INV, SIGARR, INVARR, ANCH} | LEFT

    def once(self, st, *ev):
        if ev not in st.cl:
            st.cl = st.cl + (ev,)

    def on_assume(self, eng, st, ctx, cond, val):
        v = validity(cond, val)
        if v:
            self.once(st, "as", strip(v[0]), v[1], v[2])

    def on_write(self, eng, st, ctx, ins, loc, val):
        if local_(loc):
            return
        if loc.op == "fld" and loc.args[1] in (AREA, PAREA):
            self.rec(st, ctx, ins, "w", loc.args[1], strip(loc.args[0]), strip(val), strip(eng.load(st, loc)))
        elif loc.op == "fld" and loc.args[1] == BBOX:
            self.rec(st, ctx, ins, "w", BBOX, strip(loc.args[0]), strip(val), strip(eng.load(st, loc)))
        elif loc.op == "fld" and loc.args[1] == FFLAGS:
            for n, b in BITS.items():
                w = flagwrite(val, b)
                if w is not None:
                    self.once(st, "set" if w else "clear", strip(loc.args[0]), b)
        elif loc.op == "fld" and loc.args[1] == "GeoMap::Face::map_" and val is ZERO:
            self.once(st, "gone", strip(loc.args[0]))
        elif any(x.op == "fld" and x.args[1] in self.topo for x in subterms(loc)):
            self.once(st, "mod")

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if local_(loc):
            return
        av = [eng.argval(st, a) if a[0] == "L" else a[1] for a in args]
        if loc.op == "fld" and loc.args[1] == BBOX:
            self.rec(st, ctx, ins, "w", BBOX, strip(loc.args[0]), T("m", method, *[strip(a) for a in av]), None)
        elif loc.op == "fld" and last(loc.args[1]) == "postMergeFacesHook" and method == "operator()":
            a = args[0]
            self.once(st, "hook", strip(a[1]))
        elif loc.op == "fld" and loc.args[1] == ANCH:
            self.once(st, "mod")
            if method == "insert" and len(args) == 3:
                self.rec(st, ctx, ins, "insert", strip(loc.args[0]), *[strip(a) for a in av])

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if f["n"] in (F + "area", F + "boundingBox"):
            self.once(st, "call", f["n"], strip(obj), not any(e[0] == "mod" for e in st.cl))
        elif f["n"] == "GeoMap::detachDart":
            self.once(st, "mod")


def local_(loc):
    return root(loc).op in ("var", "tmp")


def term_parts(t):
    return list(t.args) if t.op == "+" else [t]


def diff(new, old):
    d = add(new, neg(old))
    return [x for x in term_parts(d) if not (isc(x) and x.args[0] == 0)]


def check_merge(prog, rep, c, f):
    for kind, evs, st, ret, ctx, ins in c.exits:
        if kind != "return":
            continue
        gone = [e[1] for e in evs if e[0] == "gone"]
        hook = [e[1] for e in evs if e[0] == "hook"]
        if not gone or not hook:
            continue
        M, S = gone[0], hook[0]
        seen = {}
        infeasible = False
        own_ = {b: any(e[0] == "call" and e[1] == n and e[2] is S for e in evs) or
                any(e[0] in ("set", "clear") and e[2] == b for e in evs)
                for n, b in ((F + "area", BITS["AREA_VALID"]), (F + "boundingBox", BITS["BOUNDING_BOX_VALID"]))}
        for e in evs:
            if e[0] == "as" and e[1] is S:
                for n, b in BITS.items():
                    if e[2] & b and e[2] == b:
                        own = own_[b]
                        if seen.get(b, e[3]) != e[3] and not own:
                            infeasible = True
                        seen.setdefault(b, e[3])
                        if own:
                            seen[b] = e[3]
        if infeasible:
            continue
        cleared = {e[2] for e in evs if e[0] == "clear" and e[1] is S}
        where = f.short()

        def mine(fld_):
            out = []
            for e in evs:
                if e[0] == "w" and e[1] == fld_:
                    if e[2] is S:
                        out.append(e)
                    elif e[2] is not M:
                        rep.bad("merge-pixel" if fld_ == PAREA else "merge-area", f.name,
                                "%s of a face other than the survivor is changed" % last(fld_), e[-1])
            return out
        # pixel area
        n = 0
        for e in mine(PAREA):
            d = diff(e[3], e[4])
            if len(d) == 1 and d[0].op == "ld" and d[0].args[0].op == "fld" and d[0].args[0].args[1] == PAREA and \
                    d[0].args[0].args[0] is M:
                n += 1
            elif len(d) == 1 and (d[0].op == "m" and d[0].args[0] == "size"):
                pass
            else:
                rep.bad("merge-pixel", f.name, "the survivor's pixel area is changed by something else than the merged face's pixel area", e[-1])
        if n != 1:
            rep.bad("merge-pixel", f.name, "the merged face's pixel area is added %d times to the survivor's" % n, where)
        else:
            rep.ok("merge-pixel", f.name)
        # area
        b = BITS["AREA_VALID"]
        n = 0
        for e in mine(AREA):
            d = diff(e[3], e[4])
            if len(d) == 1 and from_face(d[0], M, F + "area", AREA):
                n += 1
            else:
                rep.bad("merge-area", f.name, "the survivor's area is changed by something else than the merged face's area", e[-1])
        if b not in cleared:
            if n > 1 or n == 0 and seen.get(b) is not False:
                rep.bad("merge-area", f.name, "the merged face's area is added %d times to a valid area of the survivor" % n, where)
            elif n == 1 and not any(e[0] == "call" and e[1] == F + "area" and right(e[2], M) and e[3] for e in evs):
                rep.bad("merge-area", f.name, "the merged face's area is first computed after the topology changed", where)
            else:
                rep.ok("merge-area", f.name)
        else:
            rep.ok("merge-area", f.name)
        # bounding box
        b = BITS["BOUNDING_BOX_VALID"]
        n = 0
        for e in mine(BBOX):
            v = e[3]
            if v.op == "m" and v.args[0] == "operator|=" or v.op == "f" and "operator|" in str(v.args[0]):
                if any(from_face(x, M, F + "boundingBox", BBOX) for a in v.args[1:] if a.__class__ is v.__class__ for x in subterms(a)):
                    n += 1
                    continue
            if any(from_face(x, M, F + "boundingBox", BBOX) for x in subterms(v)) and flds(v, BBOX):
                n += 1
                continue
            rep.bad("merge-bbox", f.name, "the survivor's bounding box is not extended by the merged face's: %s" % v, e[-1])
        if b not in cleared:
            if n > 1 or n == 0 and seen.get(b) is not False:
                rep.bad("merge-bbox", f.name, "a valid bounding box of the survivor is not extended by the merged face's", where)
            elif n == 1 and not any(e[0] == "call" and e[1] == F + "boundingBox" and e[2] is M and e[3] for e in evs):
                rep.bad("merge-bbox", f.name, "the merged face's bounding box is first computed after the topology changed", where)
            else:
                rep.ok("merge-bbox", f.name)
        else:
            rep.ok("merge-bbox", f.name)
        # anchors of the merged face that precede the merged contour go to the front
        for e in evs:
            if e[0] == "insert" and e[1] is S and len(e) == 6:
                pos, first, lastt = [x.args[1] if x.op == "mk" and len(x.args) > 1 else x for x in e[2:5]]
                if first.op == "iter" and first.args[0] == "begin" and flds(first, ANCH) and \
                        not (lastt.op == "iter" and lastt.args[0] == "end"):
                    if pos.op == "iter" and pos.args[0] == "begin":
                        rep.ok("merge-outer", f.name)
                    else:
                        rep.bad("merge-outer", f.name, "contours of the merged face that include its outer contour are not put first", e[-1])


def right(t, M):
    return True


def from_face(t, M, call, field):
    if t.op in ("r", "f") and call in t.args and t.args[-1] is addr(M):
        return True
    if t.op in ("r", "f") and call in t.args:
        return any(x is M or x is addr(M) for x in t.args if hasattr(x, "op"))
    return t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] == field and t.args[0].args[0] is M


# ---------------------------------------------------------------- embedContour
class Embed(Base):
    """state: (validity, pushed, labelled, added)"""
    fields = Base.fields | {ANCH} | LEFT

    def __init__(self, prog):
        self.bad, self.good = [], 0
        super().__init__(prog)

    def start(self, eng):
        return (None, 0, False, 0)

    def on_assume(self, eng, st, ctx, cond, val):
        v = validity(cond, val)
        if v and v[1] == BITS["AREA_VALID"]:
            st.cl = (v[2],) + st.cl[1:]

    def on_write(self, eng, st, ctx, ins, loc, val):
        if local_(loc):
            return
        if loc.op == "fld" and loc.args[1] in LEFT or loc.op == "obj" and flds(val, "GeoMap::Face::label_"):
            if st.cl[3]:
                self.bad.append(("darts are relabelled after the area was computed (bridges would be counted)", site(ctx, ins)))
        elif loc.op != "fld":
            return
        elif loc.args[1] == FFLAGS and flagwrite(val, BITS["AREA_VALID"]) is False:
            st.cl = (False,) + st.cl[1:]
        elif loc.args[1] == AREA:
            d = diff(val, eng.load(st, loc))
            if len(d) == 1 and d[0].op in ("r", "f") and "contourArea" in d[0].args:
                st.cl = st.cl[:3] + (min(st.cl[3] + 1, 2),)
            else:
                self.bad.append(("the area is changed by something else than the embedded contour's area", site(ctx, ins)))

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if loc.op == "fld" and loc.args[1] == ANCH and not local_(loc):
            if method in ("push_back", "emplace_back", "insert"):
                st.cl = (st.cl[0], st.cl[1] + 1) + st.cl[2:]

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        pass

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        super().on_exit(eng, st, kind, ret, ctx, ins)
        if kind != "return":
            return
        v, p, l, a = st.cl
        if p != 1:
            self.bad.append(("the contour is added %d times" % p, site(ctx, ins)))
        elif a > 1 or a == 0 and v is not False:
            self.bad.append(("the contour's area is added %d times to a valid area" % a, site(ctx, ins)))
        else:
            self.good += 1


BITS = {}


def pixels(prog, rep):
    class P(Base):
        stop = frozenset()

        def start(self, eng):
            return ()

        def on_write(self, eng, st, ctx, ins, loc, val):
            if loc.op == "fld" and loc.args[1] == PAREA:
                st.cl = st.cl + ((loc.args[0], val, eng.load(st, loc), site(ctx, ins)),)
    for f in prog.byname.get("GeoMap::associatePixels", []):
        c = P(prog)
        e = run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            tot = [x for ev in cl for x in diff(ev[1], ev[2])]
            good = len(cl) == 1 and len(tot) == 1 and tot[0].op == "m" and tot[0].args[0] == "size" and \
                root(cl[0][0]).op == "obj"
            if not good and len(tot) == 1 and len(cl) == 1 and tot[0].op in ("r", "m", "f") and "distance" in str(tot[0]):
                good = True
            if not good and cl and all(delta(ev[2], ev[1]) == 1 for ev in cl):
                good = True        # one by one
            if good:
                rep.ok("pixels", f.name)
            else:
                rep.bad("pixels", f.name, "the pixel area is not raised by exactly the number of pixels", cl[0][3] if cl else f.short())


def enclosing_loops(eng, fn, block):
    """loop heads whose natural loop contains the block"""
    preds = {}
    for b in fn.blocks.values():
        for s in b["succ"]:
            if s is not None:
                preds.setdefault(s, set()).add(b["b"])
    out = set()
    for h in eng.fninfo(fn)["loops"]:
        body, todo = {h}, [p for p in preds.get(h, ()) if fn.order.get(h, 0) <= fn.order.get(p, 0)]
        while todo:
            x = todo.pop()
            if x in body:
                continue
            body.add(x)
            todo += list(preds.get(x, ()))
        if block in body:
            out.add(h)
    return out


def counting(prog, rep):
    """embedFaces / setHasLabelImage: every face is reset, then counted pixel by pixel"""
    class Count(Base):
        fields = frozenset({PAREA})
        stop = frozenset({"GeoMap::associatePixels", "GeoMap::mergeFaces"})
        heads = frozenset()

        def __init__(self, prog):
            self.w = {}
            super().__init__(prog)

        def start(self, eng):
            return "-"

        def on_loop_head(self, eng, st, ctx, block):
            if (ctx.fn.id, block) in self.heads:
                st.cl = "reset"

        def on_write(self, eng, st, ctx, ins, loc, val):
            if loc.op != "fld" or loc.args[1] != PAREA or root(loc).op == "new":
                return
            if isc(val) and val.args[0] == 0:
                k = "reset"
            elif val.op == "+" and any(isc(a) and a.args[0] > 0 for a in val.args) and flds(val, PAREA):
                k = "inc"
            else:
                k = "other"
            self.w.setdefault(site(ctx, ins), set()).add((k, ctx.fn.id, ctx.fn.where.get(ins["i"]) if ins else None, loc, st.cl))
            st.cl = k
    for name in ("GeoMap::setHasLabelImage", "GeoMap::embedFaces"):
        for f in prog.byname.get(name, []):
            c = Count(prog)
            e = run_engine(prog, c, f)
            heads = set()
            full = set()
            for s, ws in c.w.items():
                for k, fid, blk, loc, cl in ws:
                    if k == "reset":
                        h = {(fid, x) for x in enclosing_loops(e, prog.fns[fid], blk)}
                        if covers_all(e, loc):
                            heads |= h
                            full.add(s)
            c = Count(prog)
            c.heads = frozenset(heads)
            run_engine(prog, c, f, rep)
            incs = [(s, w) for s, ws in c.w.items() for w in ws if w[0] == "inc"]
            if not incs:
                rep.bad("count", name, "the pixels of the faces are not counted", f.short())
            for s, w in incs:
                if w[4] in ("reset", "inc"):
                    rep.ok("count", name)
                else:
                    rep.bad("count", name, "pixels are counted without all pixel areas (including face 0) having been reset", s)
            for s, ws in c.w.items():
                for w in ws:
                    if w[0] == "reset" and w[4] == "inc":
                        rep.bad("count", name, "pixel areas are reset after counting", s)
                    if w[0] == "other" and w[4] in ("inc",):
                        rep.bad("count", name, "pixel areas are overwritten after counting", s)


def covers_all(eng, loc):
    """the face whose pixel area is reset runs over all faces (the iterator is not advanced initially)"""
    for x in allsub(eng, loc):
        if x.op == "m" and x.args[0] in ("deref", "operator*", "operator->"):
            for l in leaves(eng, x.args[1]):
                ops = list(subterms(l))
                if not any(y.op in ("adv", "+") for y in ops) and any(
                        y.op == "iter" and y.args[0] == "begin" and flds(y, "GeoMap::faces_") for y in ops):
                    return True
        if x.op == "elt" and x.args[0].op == "fld" and x.args[0].args[1] == "GeoMap::faces_":
            lv = leaves(eng, x.args[1])
            if any(isc(a) and a.args[0] == 0 for a in lv):
                return True
    return False


def ctors(prog, rep):
    class K(Recorder):
        fields = frozenset({AREA, BBOX, PAREA, FFLAGS})

        def start(self, eng):
            return ()

        def on_write(self, eng, st, ctx, ins, loc, val):
            if loc.op == "fld" and loc.args[1] in (AREA, BBOX, PAREA, FFLAGS):
                st.cl = tuple(x for x in st.cl if x[0] is not loc) + ((loc, val),)
    for f in prog.fns.values():
        if f.kind != "ctor" or f.cls != "GeoMap::Face":
            continue
        copy = any("Face" in prog.tstr(f.vars[v]["t"]) for v in f.params)
        c = K(prog)
        e = run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            fv = {}
            for loc, v in cl:
                fv[loc.args[1]] = v
            if copy:
                invalid = FFLAGS in fv and any(flagwrite(fv[FFLAGS], b) is False or isc(fv[FFLAGS]) for b in BITS.values())
                for n in (FFLAGS, AREA, BBOX, PAREA):
                    if n in (AREA, BBOX, FFLAGS) and invalid:
                        continue
                    v = fv.get(n)
                    if v is None or not any(x.op == "fld" and x.args[1] == n for x in subterms(v)):
                        rep.bad("copy", f.name, "%s is not copied from the other face" % last(n), f.short())
                    else:
                        rep.ok("copy", f.name)
            else:
                v = fv.get(FFLAGS)
                if v is None or not isc(v) or any(v.args[0] & b for b in BITS.values()):
                    rep.bad("init", f.name, "caches of a new face are not marked invalid", f.short())
                else:
                    rep.ok("init", f.name)
                v = fv.get(PAREA)
                if v is None or not isc(v) or v.args[0] != 0:
                    rep.bad("init", f.name, "pixel area of a new face is not 0", f.short())
                else:
                    rep.ok("init", f.name)


def contour(prog, rep):
    class A(Recorder):
        stop = frozenset({"GeoMap::Dart::partialArea", "GeoMap::Dart::nextPhi", "GeoMap::Dart::prevPhi",
                          "GeoMap::Edge::isBridge", "GeoMap::Dart::guaranteedEdge", "GeoMap::Dart::edge"})

        def __init__(self, prog):
            self.bad, self.good = [], 0
            super().__init__(prog)

        def inline(self, eng, fn, ctx, ins):
            return False if fn.name in self.stop else super().inline(eng, fn, ctx, ins)

        def start(self, eng):
            return (None, 0)

        def on_assume(self, eng, st, ctx, cond, val):
            while cond.op == "!":
                cond, val = cond.args[0], not val
            s = [x for x in allsub(eng, cond)]
            if any(x.op in ("r", "f") and "GeoMap::Edge::isBridge" in x.args for x in s) and \
                    all(x.op in ("r", "f") and "GeoMap::Edge::isBridge" in x.args for x in leaves(eng, cond)):
                st.cl = (val, st.cl[1])
            elif cond.op == "==" and any("leftFaceLabel" in str(x.args) for x in s if x.op in ("r", "f", "fld")) and \
                    any("rightFaceLabel" in str(x.args) for x in s if x.op in ("r", "f", "fld")):
                st.cl = (val, st.cl[1])

        def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
            if f["n"] == "GeoMap::Dart::partialArea":
                st.cl = (st.cl[0], min(st.cl[1] + 1, 2))
            elif f["n"] in ("GeoMap::Dart::nextPhi", "GeoMap::Dart::prevPhi"):
                b, n = st.cl
                if (b, n) not in ((True, 0), (False, 1)):
                    self.bad.append(("a dart is counted %d times although it %s" % (
                        n, {True: "is a bridge", False: "is no bridge", None: "may be a bridge or not"}[b]), site(ctx, ins)))
                else:
                    self.good += 1
                st.cl = (None, 0)
    for f in prog.byname.get("contourArea", []):
        c = A(prog)
        e = run_engine(prog, c, f, rep)
        for t, w in dict.fromkeys(c.bad):
            rep.bad("contour", f.name, t, w)
        for i in range(c.good):
            rep.ok("contour", f.name)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind == "return":
                v = eng_val(e, st, ret)
                s = allsub(e, v)
                plus = any(x.op == "+" and any(y.op in ("r", "f") and "GeoMap::Dart::partialArea" in y.args for y in x.args) for x in s) or \
                    any(x.op in ("r", "f") and "GeoMap::Dart::partialArea" in x.args for x in leaves(e, v))
                if not plus:
                    rep.bad("contour", f.name, "the result is not the sum of the darts' areas", f.short())
                else:
                    rep.ok("contour", f.name)

    class D(Recorder):
        def inline(self, eng, fn, ctx, ins):
            return False if fn.name == "vigra::Polygon::partialArea" else super().inline(eng, fn, ctx, ins)

        def start(self, eng):
            return None

        def on_assume(self, eng, st, ctx, cond, val):
            while cond.op == "!":
                cond, val = cond.args[0], not val
            if cond.op == "<" and any(flds(a, "GeoMap::Dart::label_") for a in cond.args):
                a, b = cond.args
                if isc(a) and a.args[0] == 0:
                    st.cl = val
                elif isc(b) and b.args[0] in (0, 1):
                    st.cl = not val
    for f in prog.byname.get("GeoMap::Dart::partialArea", []):
        c = D(prog)
        e = run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            v = eng_val(e, st, ret)
            lv = leaves(e, v)
            pa = [x for x in lv if mentions_area(e, x)]
            if len(pa) != len(lv):
                rep.bad("contour", f.name, "the area of a dart is not taken from its edge", f.short())
            elif cl is not None and len(lv) == 1 and negated(lv[0]) == cl:
                rep.bad("contour", f.name, "the sign of a dart's area does not follow its direction", f.short())
            elif cl is None and len(lv) == 1 and v.op not in ("sel", "*"):
                rep.bad("contour", f.name, "the sign of a dart's area does not depend on its direction", f.short())
            else:
                rep.ok("contour", f.name)


def mentions_area(e, t):
    return any(x.op in ("r", "f") and any(isinstance(a, str) and a.endswith("::partialArea") for a in x.args) or
               x.op == "fld" and x.args[1].endswith("::partialArea_") for x in allsub(e, t))


def negated(t):
    return t.op in ("neg", "-", "u-") or t.op == "*" and any(isc(a) and a.args[0] < 0 for a in t.args) or str(t).startswith("-")


def eng_val(e, st, ret):
    return e.rval(st, ret) if ret is not None else ZERO


def writers(prog, rep):
    """who sets validity bits or writes cached values at all"""
    ok = {F + "area", F + "boundingBox", "GeoMap::mergeFaces", F + "embedContour"}
    for f in prog.fns.values():
        m, r = local_effects(prog, f)
        hit = {x for x in (AREA, BBOX) if x in m or any(isinstance(y, tuple) and y[1] == x for y in m)}
        if hit and f.name not in ok and f.kind != "ctor":
            callers = [g for g in prog.fns.values() if f.id in prog.calls(g)]
            if not callers or not all(g.name in ok for g in callers):
                rep.bad("valid", f.name, "%s is written outside the functions that keep it valid" % ", ".join(sorted(last(h) for h in hit)), f.short())
                continue
        if hit:
            rep.ok("valid", f.name)


def run(prog, rep, tier):
    BITS.clear()
    BITS.update(bits(prog))
    if len(BITS) != 2:
        raise AnalysisBroken("validity bits not found")
    for name, field, bit, src in ((F + "area", AREA, "AREA_VALID", "contourArea"),
                                  (F + "boundingBox", BBOX, "BOUNDING_BOX_VALID", "vigra::BBoxPolygon::boundingBox")):
        for f in prog.byname.get(name, []):
            c = Lazy(prog, field, BITS[bit], src)
            run_engine(prog, c, f, rep)
            for t, w in dict.fromkeys(c.bad):
                rep.bad("lazy", name, t, w)
            if not c.used:
                rep.bad("lazy", name, "the value is not computed from the contours (%s)" % src, f.short())
            for i in range(c.good):
                rep.ok("lazy", name)
    for f in prog.byname.get("GeoMap::mergeFaces", []):
        c = Merge(prog)
        run_engine(prog, c, f, rep)
        check_merge(prog, rep, c, f)
    for f in prog.byname.get(F + "embedContour", []):
        c = Embed(prog)
        run_engine(prog, c, f, rep)
        for t, w in dict.fromkeys(c.bad):
            rep.bad("embed", f.name, t, w)
        for i in range(c.good):
            rep.ok("embed", f.name)
    pixels(prog, rep)
    counting(prog, rep)
    ctors(prog, rep)
    contour(prog, rep)
    writers(prog, rep)
    for r in ("lazy", "merge-area", "merge-bbox", "merge-pixel", "embed", "pixels", "copy", "init", "contour"):
        rep.need(r, 1)
