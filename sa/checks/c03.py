from ..core import *
from .c01 import same

TITLE = "node index mirrors the live nodes"
GROUPS = ["geomap"]
EXPLANATION = ("Effect-pairing analysis: along each path of each operation (helpers inlined) every node creation, removal "
               "and change of position is paired with the matching change of the spatial index, with the node's own "
               "label and its old/new position; erased entries are identified by the node's label; copying indexes each "
               "node exactly once; lookups test for 'nothing found' before using the result.")
RULES = {"create": "each new node is entered into the index with its own label and position, exactly once",
         "remove": "each removed node's entry is looked up by its position and erased",
         "move": "a change of position replaces the entry: old one dropped before, new one inserted with the new position",
         "own": "an erased entry is known to carry the node's own label",
         "lookup": "a lookup result is compared with 'not found' before it is used"}
POS = "GeoMap::Node::position_"
NM = "GeoMap::nodeMap_"
PAYLOAD = "vigra::PositionedObject::payload"
Q = {"nearest", "equal_range", "lower_bound", "upper_bound", "find", "begin"}
M2 = "vigra::Map2D::"
OPS = ["GeoMap::addNode", "GeoMap::removeIsolatedNode", "GeoMap::mergeEdges", "GeoMap::splitEdge", "GeoMap::removeBridge",
       "GeoMap::mergeFaces", "GeoMap::Node::setPosition", "GeoMap::nearestNode"]


def has_call(fn, names):
    return any(e["o"] == "call" and "f" in e and e["f"]["n"] in names for e in fn.ins.values())


class C(GeoRec):
    kinds = frozenset({"pos", "mapnull", "cells"})
    names = frozenset({M2 + "insert", M2 + "erase", M2 + "nearest", M2 + "equal_range"})
    modular = frozenset({M2 + x for x in ("insert", "erase", "nearest", "equal_range", "search", "end", "begin", "size")})

    def rec(self, st, ctx, ins, kind, *args):
        if kind in ("slot", "bulk") or kind in ("mapnull", "push") and args[0] != "N":
            return
        super().rec(st, ctx, ins, kind, *args)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if obj is None or not f["n"].startswith(M2) or obj.op != "fld" or obj.args[1] != NM:
            return
        vals = tuple(eng.argval(st, x) if x[0] == "L" else x[1] for x in args)
        m = f["m"]
        if m == "insert":
            self.rec(st, ctx, ins, "insert", *vals)
        elif m == "erase":
            own = any(x[0] == "own" for x in st.cl)
            self.rec(st, ctx, ins, "erase", own, *vals)
        elif m in Q and any(has_call(c.fn, {M2 + "erase"}) for c in ctx.chain()):
            self.rec(st, ctx, ins, "look", *vals)

    def on_assume(self, eng, st, ctx, cond, val):
        """the entry about to be erased carries / does not carry the label"""
        if cond.op != "==" or not any(t.op == "fld" and t.args[1] == PAYLOAD or
                                      t.op == "fieldof" and t.args[0] == PAYLOAD for t in subterms(cond)):
            return
        cl = tuple(x for x in st.cl if x[0] != "own")
        st.cl = cl + (("own", ""),) if val else cl

    def on_loop_head(self, eng, st, ctx, block):
        if any(x[0] == "own" for x in st.cl):
            st.cl = tuple(x for x in st.cl if x[0] != "own")


def field(v, name):
    """field of a by-value object term"""
    if v.op == "obj{}":
        a = v.args
        for i in range(0, len(a) - 1, 2):
            if a[i] == name:
                return a[i + 1]
    return None


def pos_of(t, o=None):
    return any(x.op == "fld" and x.args[1] == POS and (o is None or same(x.args[0], o)) for x in subterms(t))


def values(e, t):
    """a term and what it may stand for (inputs of merged values)"""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.append(x)
        if x.op == "phi":
            todo += list(e.phi_in.get(x, ()))
    leaves = [x for x in out if x.op != "phi"]
    return leaves or out


def eqv(e, a, b):
    """same value up to read versions"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    return all(any(same(x, y) for y in values(e, b)) for x in values(e, a))


def run(prog, rep, tier):
    n = 0
    roots = [f for op in OPS for f in prog.byname.get(op, [])]
    ctors = [f for f in prog.fns.values() if f.cls == "GeoMap::Node" and f.kind == "ctor" and not f.implicit]
    if len(roots) < 8 or len(ctors) < 2:
        raise AnalysisBroken("operations or constructors not found")
    copy_inserts = set()
    for f in roots + ctors:
        c = C(prog)
        e = run_engine(prog, c, f, rep)
        for kind, evs, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            n += 1
            op = f.name
            inserts = [x for x in evs if x[0] == "insert"]
            looks = [x for x in evs if x[0] == "look"]
            tr = "; ".join("%s@%s" % (x[0], x[-1]) for x in evs)
            for x in evs:
                if x[0] == "erase":
                    if not x[1]:
                        rep.bad("own", op, "the erased index entry is not checked to be the node's own", x[-1], tr)
                    else:
                        rep.ok("own", op)
            used = []
            if f in ctors:
                ni = [x for x in inserts]
                if f in ctors and is_copy(prog, f):
                    copy_inserts.add(len(ni))
                    if len(ni) > 1:
                        rep.bad("create", op, "a copied node is indexed %d times" % len(ni), f.short())
                    for x in ni:
                        entry(rep, e, st, op, x, None)
                elif len(ni) == 0:
                    pass      # checked at the operations that create nodes
                continue
            news = [x for x in evs if x[0] == "push"]
            for x in news:
                o = deref(x[3])
                mine = [i for i in inserts if is_entry(e, st, i, o)]
                used += mine
                if len(mine) != 1:
                    rep.bad("create", op, "a new node is entered into the index %d times with its label and position" % len(mine),
                            x[-1], tr)
                else:
                    rep.ok("create", op)
            for x in evs:
                if x[0] == "mapnull":
                    o = x[2]
                    if not any(pos_of(v, o) for l in looks for v in l[1:-1] if isinstance(v, Term)):
                        rep.bad("remove", op, "a removed node stays in the index", x[-1], tr)
                    else:
                        rep.ok("remove", op)
                if x[0] == "pos" and root(x[2]).op != "new":
                    o, new = x[2], x[3]
                    i = evs.index(x)
                    before = [l for l in looks if any(x[4] is t for v in l[1:-1] if isinstance(v, Term) for t in subterms(v)) or
                              evs.index(l) < i and any(pos_of(v, o) for v in l[1:-1] if isinstance(v, Term))]
                    ins_ = [y for y in inserts if y not in used]
                    good = [y for y in ins_ if eqv(e, entry_pos(y), new) or entry_pos(y) is not None and pos_of(entry_pos(y), o) and evs.index(y) > i]
                    if not before:
                        rep.bad("move", op, "the index entry of the old position is not dropped before the node moves", x[-1], tr)
                    elif len(good) != 1:
                        rep.bad("move", op, "the moved node is entered %d times with its new position" % len(good), x[-1], tr)
                    else:
                        lab = entry_label(good[0])
                        if lab is None or not any(t.op == "fld" and t.args[1] == "GeoMap::Node::label_" for t in subterms(lab)):
                            rep.bad("move", op, "the moved node is entered with another label", good[0][-1], tr)
                        else:
                            rep.ok("move", op)
                        used += good
            extra = [y for y in inserts if y not in used]
            if extra and not news and not any(x[0] == "pos" for x in evs):
                rep.bad("create", op, "an index entry is added although no node is created or moved", extra[0][-1], tr)
        if f.name == "GeoMap::nearestNode":
            lookup(prog, rep, e, c, f)
    # copying a map
    for f in prog.fns.values():
        if f.name == "GeoMap::GeoMap" and f.copy:
            i = [x for x in f.ins.values() if x["o"] == "init" and x.get("f") == NM and x.get("written")]
            copied = bool(i) or copy_inserts == {0} and has_call(f, {M2 + "insert"})
            if copy_inserts:
                if copied and max(copy_inserts):
                    rep.bad("create", "GeoMap::GeoMap", "copying a map indexes each node twice", f.short())
                elif not copied and 0 in copy_inserts:
                    rep.bad("create", "GeoMap::GeoMap", "copying a map leaves the nodes out of the index", f.short())
                else:
                    rep.ok("create", "GeoMap::GeoMap(copy)")
    rep.need("create", 3)
    rep.need("remove", 3)
    rep.need("move", 1)


def is_copy(prog, f):
    return any("Node" in prog.tstr(f.vars[v]["t"]) for v in f.params)


def entry_pos(x):
    return field(x[1], "vigra::PositionedObject::position") if isinstance(x[1], Term) else None


def entry_label(x):
    return field(x[1], "vigra::PositionedObject::payload") if isinstance(x[1], Term) else None


def is_entry(e, st, x, o):
    p, l = entry_pos(x), entry_label(x)
    if p is None:
        return True          # unknown way of building the entry
    return eqv(e, p, e.load(st, T("fld", o, POS))) and l is e.load(st, T("fld", o, "GeoMap::Node::label_"))


def entry(rep, e, st, op, x, o):
    p, l = entry_pos(x), entry_label(x)
    this = T("obj", T("p", "this"))
    if p is not None and p is not e.load(st, T("fld", this, POS)):
        rep.bad("create", op, "a copied node is indexed at another position", x[-1])
    elif l is not None and l is not e.load(st, T("fld", this, "GeoMap::Node::label_")):
        rep.bad("create", op, "a copied node is indexed with another label", x[-1])
    else:
        rep.ok("create", op)


def lookup(prog, rep, e, c, f):
    for kind, evs, st, ret, ctx, ins in c.exits:
        if kind != "return":
            continue
        rv = retval(st, e, ret)
        if rv is None or is_null(rv):
            continue
        ok = any(cc.op == "==" and not v and ("::end" in show(cc) or "iter(end" in show(cc) or "end(" in show(cc))
                 for cc, v in st.facts.items())
        if not ok:
            rep.bad("lookup", f.name, "the result of the lookup is used without testing for 'not found'", f.short())
        else:
            rep.ok("lookup", f.name)
