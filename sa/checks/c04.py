from ..mods import *

TITLE = "refused operations change nothing"
GROUPS = ["geomap"]
EXPLANATION = ("Effect-before-refusal analysis: path-sensitive dataflow over each map operation with its helpers inlined; "
               "no path may change map state (cells, counts, labels, orbits, anchors, contours, points, flags, label image) "
               "and then leave through a refused precondition or with the empty result of a vetoed operation.")
RULES = {"throw": "no change of map state precedes a failing precondition",
         "veto": "no change of map state precedes the empty result of a vetoed operation"}

# single operations; composites that call several of these are not transactions
OPS = ["GeoMap::addNode", "GeoMap::addEdge", "GeoMap::removeEdge", "GeoMap::sortEdgesDirectly",
       "GeoMap::sortEdgesEventually", "GeoMap::setSigmaMapping", "GeoMap::initializeMap", "GeoMap::setHasLabelImage",
       "GeoMap::changeFaceLabels", "GeoMap::removeIsolatedNode", "GeoMap::mergeEdges", "GeoMap::splitEdge",
       "GeoMap::removeBridge", "GeoMap::mergeFaces", "GeoMap::Node::setPosition", "GeoMap::setEdgePreferences"]


class C(ModRec):
    def start(self, eng):
        return None

    def mod(self, eng, st, ctx, ins, what, loc):
        r = root(loc)
        if r.op == "new":
            return           # an object under construction; its registration is what counts
        if st.cl is None:
            st.cl = (what, site(ctx, ins))

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        self.exits.append((kind, st.cl, st, ret, ctx, ins))
        if kind == "throw":
            self.exits[-1] += (eng.throw_cond, lookup(eng, ctx.fn) and ctx.parent is not None)


def lookup(eng, fn):
    """an accessor: changes nothing, yields a value"""
    return not eng.modset(fn) and eng.prog.tstr(fn.ret) != "void"


def about_argument(c):
    """the failing condition talks about the arguments themselves"""
    if c is None:
        return True
    p = False
    for t in subterms(c):
        if t.op in ("elt", "phi", "r", "x", "out", "uninit", "new") or t.op == "f" and str(t.args[0]).startswith("GeoMap"):
            return False
        if t.op == "fld" and t.args[1].startswith(("GeoMap::Edge::", "GeoMap::Node::", "GeoMap::Face::")) \
                and not t.args[1].endswith("::map_"):
            return False
        if t.op == "p" and t.args[0] != "this":
            p = True
    return p


def run(prog, rep, tier):
    n = 0
    for op in OPS:
        for f in prog.byname.get(op, []):
            n += 1
            c = C(prog)
            e = run_engine(prog, c, f, rep)
            for kind, ev, st, ret, ctx, ins, *more in c.exits:
                if kind == "throw":
                    m = (ins.get("f") or {}).get("m", "throw")
                    if m not in ("throw_precondition_error", "throw"):
                        continue
                    if more[1] and not about_argument(more[0]):
                        continue      # consistency guard of a lookup, cannot fail on a consistent map
                    if ev is not None:
                        rep.bad("throw", op, "%s changed before a precondition is checked in %s" % (ev[0], ctx.fn.name),
                                "%s then %s" % (ev[1], site(ctx, ins)))
                    else:
                        rep.ok("throw", "%s %s" % (op, site(ctx, ins)))
                elif kind == "return" and f.name not in ("GeoMap::removeEdge",):
                    rv = retval(st, e, ret)
                    if rv is not None and is_null(rv):
                        if ev is not None:
                            rep.bad("veto", op, "%s changed although the result is empty" % ev[0], ev[1])
                        else:
                            rep.ok("veto", op)
    if n < 14:
        raise AnalysisBroken("only %d operations found" % n)
    rep.need("throw", 10)
    rep.need("veto", 3)
