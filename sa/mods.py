"""What counts as a change of a map's observable state."""
from .core import *

STATE_CLASSES = ("GeoMap", "GeoMap::Node", "GeoMap::Edge", "GeoMap::Face")
# fields that hold derived data only
CACHES = {"GeoMap::Edge::scanLines_", "vigra::Polygon::length_", "vigra::Polygon::lengthValid_",
          "vigra::Polygon::partialArea_", "vigra::Polygon::partialAreaValid_",
          "vigra::BBoxPolygon::boundingBox_", "vigra::BBoxPolygon::boundingBoxValid_",
          "GeoMap::Face::pixelArea_"}
POINTS = {"vigra::PointArray::points_"}
OWNERS = {"GeoMap::labelImage_"}


def owner(n):
    return n.rsplit("::", 1)[0]


def local(loc):
    return root(loc).op in ("var", "tmp")


def cachefill(ctx):
    """inside a const member of the cell itself: lazily computed value"""
    for c in ctx.chain():
        if c.fn.const and c.fn.cls in ("GeoMap::Edge", "GeoMap::Face", "GeoMap::Node", "GeoMap") or \
                c.fn.const and c.fn.cls.startswith("vigra::"):
            return True
    return False


def is_label_pixel(loc):
    r = root(loc)
    if loc.op == "elt" and r.op == "obj":
        for t in subterms(r):
            if t.op == "fld" and t.args[1] == "GeoMap::labelImage_":
                return True
    if loc.op == "obj":
        t = loc.args[0]
        return any(x.op == "fld" and x.args[1] == "GeoMap::labelImage_" for x in subterms(t)) and t.op in ("m", "r", "f")
    return False


def mod_field(prog, loc):
    """name of the piece of map state stored at loc, or None"""
    if local(loc):
        return None
    if is_label_pixel(loc):
        return "label image pixel"
    l = loc
    while l.op in ("fld", "elt"):
        if l.op == "fld":
            n = l.args[1]
            if n in CACHES:
                return None
            if n in POINTS or owner(n) in STATE_CLASSES:
                return last(n)
            if n == "GeoMap::Dart::label_":
                return "contour anchor"
        l = l.args[0]
    return None


class ModRec(Recorder):
    """state: (mods, hooks) -- first modification, hook calls with results"""
    fields = frozenset({SIGMA, INV, SIGARR, INVARR} | set(CELLS) | set(COUNTS) | set(MAPF) | set(LABELF) |
                       {"GeoMap::Node::anchor_", "GeoMap::Node::position_", "GeoMap::nodeMap_",
                        "GeoMap::Edge::startNodeLabel_", "GeoMap::Edge::endNodeLabel_", "GeoMap::Edge::leftFaceLabel_",
                        "GeoMap::Edge::rightFaceLabel_", "GeoMap::Edge::flags_", "GeoMap::Face::flags_",
                        "GeoMap::Face::anchors_", "GeoMap::Face::area_", "GeoMap::Face::boundingBox_",
                        "GeoMap::Face::pixelArea_", "GeoMap::labelImage_", "GeoMap::faceLabelLUT_",
                        "GeoMap::edgesSorted_", "GeoMap::splitInfo_", "GeoMap::edgePreferences_"})
    reads = frozenset("GeoMap::" + h for h in HOOKS)

    def mod(self, eng, st, ctx, ins, what, loc):
        pass

    def hook(self, eng, st, ctx, ins, name, args, res):
        pass

    def inline(self, eng, fn, ctx, ins):
        if fn.const and fn.cls in ("GeoMap::Face", "GeoMap::Edge") and eng.fninfo(fn)["loops"]:
            return False
        return super().inline(eng, fn, ctx, ins)

    def on_write(self, eng, st, ctx, ins, loc, val):
        w = mod_field(self.prog, loc)
        if w is not None and not cachefill(ctx):
            if eng.load(st, loc) is val:
                return
            self.mod(eng, st, ctx, ins, w, loc)

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if loc.op == "fld" and owner(loc.args[1]) == "GeoMap" and last(loc.args[1]) in HOOKS:
            if method == "operator()":
                self.hook(eng, st, ctx, ins, last(loc.args[1]), args, None)
            return
        w = mod_field(self.prog, loc)
        if w is not None and not cachefill(ctx) and method not in ("reserve", "shrink_to_fit"):
            self.mod(eng, st, ctx, ins, w, loc)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if inlined or f.get("repo") and not any(True for a in args):
            return
        if not inlined:
            fn = self.prog.fns.get(f.get("id"))
            m = f["m"]
            # functions given the label image by non-const reference
            for a, pt in zip(args, f.get("pt", ())):
                ty = self.prog.ttype(pt)
                if ty["c"] == "ref" and a[0] == "L" and not ty["s"].startswith("const "):
                    if a[1].op == "obj" and a[1].args[0].op == "ld" and a[1].args[0].args[0].op == "fld" \
                            and a[1].args[0].args[0].args[1] == "GeoMap::labelImage_":
                        self.mod(eng, st, ctx, ins, "label image pixel", a[1])
