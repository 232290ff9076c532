from ..core import *

TITLE = "cell counts equal live cells"
GROUPS = ["geomap"]
EXPLANATION = ("Path-sensitive dataflow over the map operations with all helpers that touch the cell arrays or counters "
               "inlined: on every path to every return, counter changes are balanced against slots filled/emptied, the "
               "emptied slot is the removed cell's own, and the operation's Euler deltas are exact.")
RULES = {"balance": "per path: change of each counter = slots filled - slots emptied",
         "own-slot": "the slot emptied is the one named by the label of the cell being detached from the map",
         "euler": "per path: (dN,dE,dF) is the delta documented for that operation (0 when it returns empty/false)",
         "isolated": "nodes are removed exactly where their last dart went away",
         "resize": "cell arrays only ever grow", "copy": "a copied map takes over each counter and each slot of the source",
         "embed": "each preliminary contour is kept in its slot or uninitialised, exactly once",
         "relabel": "relabelling never puts two faces into one slot"}

NULLOK = {"GeoMap::mergeFaces": ({0, -1}, {-1}, {-1}), "GeoMap::removeBridge": ({0, -1, -2}, {-1}, {0}),
          "GeoMap::mergeEdges": ({-1}, {-1}, {0})}
FIX = {"GeoMap::addNode": ({1}, {0}, {0}), "GeoMap::addEdge": ({0}, {1}, {0}), "GeoMap::splitEdge": ({1}, {1}, {0}),
       "GeoMap::sortEdgesDirectly": ({0}, {0}, {0}), "GeoMap::sortEdgesEventually": ({0}, {0}, {0}),
       "GeoMap::setSigmaMapping": ({0}, {0}, {0}), "GeoMap::setHasLabelImage": ({0}, {0}, {0}),
       "GeoMap::Node::setPosition": ({0}, {0}, {0}), "GeoMap::Face::embedContour": ({0}, {0}, {0}),
       "GeoMap::changeFaceLabels": ({0}, {0}, {0})}


def iso_term(c):
    """branch condition of the form: the neighbour around the node is the dart's own edge,
    the node has no anchor (any more), or the node's degree is ..."""
    def orbit(t):
        if t.op == "abs" and t.args[0].op == "ld" and t.args[0].args[0].op == "elt":
            el = t.args[0].args[0]
            if el.args[0].op == "fld" and el.args[0].args[1] in (SIGMA, INV):
                return not any(x.op in ("m", "iter") for x in subterms(el.args[1]))
        return False
    if c.op == "==":
        return orbit(c.args[0]) or orbit(c.args[1])
    if c.op == "ld" and c.args[0].op == "fld" and c.args[0].args[1] == "GeoMap::Node::anchor_":
        return True
    return c.op in ("f", "r") and any(isinstance(a, str) and a.startswith(("GeoMap::Node::has", "GeoMap::Node::degree",
                                                                             "GeoMap::Node::isIso")) for a in c.args)


class C(GeoRec):
    def __init__(self, prog, iso=False):
        self.iso = iso
        super().__init__(prog, {"cnt", "cells", "mapnull"} | ({"hook", "sigma", "anchor"} if iso else set()))
        for k in ("sigma", "anchor"):
            for f in self.KF[k]:
                self.f2k.pop(f, None)
        self.reads = self.reads

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if self.iso and loc.op == "fld" and last(loc.args[1]) in HOOKS:
            if last(loc.args[1]) == "removeNodeHook":
                st.cl = st.cl + (("rnh", sum(1 for x in st.cl if x[0] == "rnh"), ""),)
            return
        super().on_mutate(eng, st, ctx, ins, loc, method, args)

    def on_assume(self, eng, st, ctx, cond, val):
        if self.iso and ctx is not None:
            c, v = cond, val
            if c.op == "r" and any(isinstance(a, str) and "signal" in a for a in c.args):
                st.cl = st.cl + (("hookres", v, ""),)
            elif iso_term(c):
                # truth of "this end is isolated now"
                if c.op == "ld":
                    v = not v            # anchor_ != 0
                if not any(e[0] == "iso" and e[1] is c for e in st.cl):
                    st.cl = st.cl + (("iso", c, v, ""),)


def deltas(evs):
    d = {"N": 0, "E": 0, "F": 0}
    s = {"N": 0, "E": 0, "F": 0}
    odd = []
    for e in evs:
        if e[0] == "cnt":
            if isinstance(e[3], int):
                d[e[1]] += e[3]
            else:
                odd.append(e)
        elif e[0] == "push":
            if not is_null(e[3]):
                s[e[1]] += 1
        elif e[0] == "slot":
            s[e[1]] += -1 if is_null(e[4]) else 1
        elif e[0] in ("bulk", "algo"):
            odd.append(e)
    return d, s, odd


def run(prog, rep, tier):
    ops = [f for n in list(NULLOK) + list(FIX) + ["GeoMap::removeIsolatedNode", "GeoMap::removeEdge"]
           for f in prog.byname.get(n, [])]
    have = {f.name for f in ops}
    for n in list(NULLOK) + list(FIX):
        if n not in have:
            raise AnalysisBroken("operation %s not found" % n)
    for f in ops:
        if f.name == "GeoMap::changeFaceLabels":
            continue
        c = C(prog)
        e = run_engine(prog, c, f, rep)
        for kind, evs, st, ret, ctx, ins in c.exits:
            where = f.short() if ins is None else site(ctx, ins)
            d, s, odd = deltas(evs)
            tr = "; ".join("%s %s %s" % (x[0], x[1], x[-1]) for x in evs)
            if kind != "return":
                continue
            for x in odd:
                if x[0] == "bulk" and x[3] == "resize":
                    continue
                rep.bad("balance", f.name, "cells of kind %s replaced wholesale (%s)" % (x[1], x[0]), x[-1], tr)
            if d != s:
                rep.bad("balance", f.name, "counters change by %s but cells by %s" % (d, s), where, tr)
            else:
                rep.ok("balance", f.name)
            rv = retval(st, e, ret)
            want = None
            if f.name in NULLOK:
                want = ({0}, {0}, {0}) if is_null(rv) else NULLOK[f.name]
            elif f.name in FIX:
                want = FIX[f.name]
            elif f.name == "GeoMap::removeIsolatedNode":
                k = e.known(st, truth(rv)) if rv is not None else None
                want = ({-1}, {0}, {0}) if k else ({0}, {0}, {0}) if k is False else ({0, -1}, {0}, {0})
            elif f.name == "GeoMap::removeEdge":
                want = ({0, -1, -2}, {-1, 0}, {-1, 0})
            got = (d["N"], d["E"], d["F"])
            if want and not all(g in w for g, w in zip(got, want)):
                rep.bad("euler", f.name, "returns %s after changing (nodes,edges,faces) by %s, allowed %s" %
                        ("an empty result" if rv is not None and is_null(rv) else "normally", got, tuple(sorted(w) for w in want)),
                        where, tr)
            elif want:
                rep.ok("euler", f.name)
            # own slot
            for x in evs:
                if x[0] == "slot" and is_null(x[4]):
                    ok = any(m[0] == "mapnull" and m[1] == x[1] and
                             T("ld", T("fld", m[2], CLS_OF[x[1]] + "::label_")) is x[3] for m in evs)
                    if ok:
                        rep.ok("own-slot", f.name)
                    else:
                        rep.bad("own-slot", f.name, "slot of kind %s emptied is not that of a cell detached here" % x[1], x[-1], tr)
            for m in evs:
                if m[0] == "mapnull" and not any(x[0] == "slot" and x[1] == m[1] and is_null(x[4]) and
                                                 T("ld", T("fld", m[2], CLS_OF[m[1]] + "::label_")) is x[3] for x in evs):
                    rep.bad("own-slot", f.name, "cell of kind %s detached but still listed" % m[1], m[-1], tr)
            for x in evs:
                if x[0] == "bulk" and x[3] == "resize" and x[2].op == "obj":
                    n = "GeoMap::" + {"N": "nodes_", "E": "edges_", "F": "faces_"}[x[1]]
                    old = T("m", "size", T("ld", T("fld", x[2], n)))
                    if e.known(st, lt(old, x[4])):
                        rep.ok("resize", f.name)
                    else:
                        rep.bad("resize", f.name, "resize of kind %s not guarded to grow" % x[1], x[-1], tr)
    # nodes go exactly with their last dart
    for name, ends in (("GeoMap::removeBridge", 2), ("GeoMap::mergeFaces", 1)):
        for f in prog.byname[name]:
            c = C(prog, iso=True)
            e = run_engine(prog, c, f, rep)
            for kind, evs, st, ret, ctx, ins in c.exits:
                if kind != "return" or is_null(retval(st, e, ret)):
                    continue
                rem = sum(1 for x in evs if x[0] == "cnt" and x[1] == "N")
                tried = sum(1 for x in evs if x[0] == "rnh")
                yes = {x[1] for x in evs if x[0] == "iso" and x[2]}
                dec = {x[1] for x in evs if x[0] == "iso"}
                tr = "; ".join(str(x[:3]) for x in evs if x[0] in ("iso", "cnt", "rnh"))[:400]
                if max(rem, tried) > len(yes):
                    rep.bad("isolated", name, "removes %d node(s) where only %d lost their last dart" % (max(rem, tried), len(yes)), f.short(), tr)
                elif tried < min(len(yes), ends) and rem < min(len(yes), ends):
                    rep.bad("isolated", name, "leaves a node that lost its last dart", f.short(), tr)
                elif len(dec) < ends:
                    rep.bad("isolated", name, "does not decide whether %d end node(s) lost their last dart" % ends, f.short(), tr)
                else:
                    rep.ok("isolated", name)
    relabel(prog, rep)
    copy(prog, rep)
    embed(prog, rep)
    rep.need("balance", 15)
    rep.need("euler", 15)
    rep.need("own-slot", 6)


class Rel(GeoRec):
    """writes into a local array of face pointers that later becomes the map's"""
    def __init__(self, prog):
        super().__init__(prog, {"cells", "cnt"})

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op == "elt" and root(loc).op in ("var", "tmp") and not is_null(val):
            cur = eng.load(st, loc)
            self.rec(st, ctx, ins, "lslot", loc.args[0], eng.known(st, truth(cur)) is False or is_null(cur))
        super().on_write(eng, st, ctx, ins, loc, val)


def relabel(prog, rep):
    for f in prog.byname["GeoMap::changeFaceLabels"]:
        c = Rel(prog)
        e = run_engine(prog, c, f, rep)
        for kind, evs, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            bulk = [x for x in evs if x[0] == "bulk" and x[1] == "F"]
            lsl = [x for x in evs if x[0] == "lslot"]
            if any(x[0] == "cnt" for x in evs):
                rep.bad("euler", f.name, "relabelling changes a cell counter", f.short())
            if bulk and lsl:
                for x in lsl:
                    if x[2]:
                        rep.ok("relabel", f.name)
                    else:
                        rep.bad("relabel", f.name, "a face is stored into a slot not known to be empty", x[-1])
            elif any(x[0] == "slot" for x in evs) and not bulk:
                rep.bad("relabel", f.name, "faces are moved within the live array", f.short())


def copy(prog, rep):
    for f in prog.byname["GeoMap::GeoMap"]:
        if not f.copy:
            c = C(prog)
            e = run_engine(prog, c, f, rep)
            for kind, evs, st, ret, ctx, ins in c.exits:
                if kind == "return":
                    for n, k in COUNTS.items():
                        v = e.load(st, T("fld", T("obj", T("p", "this")), n))
                        if v is ZERO:
                            rep.ok("copy", f.name)
                        else:
                            rep.bad("copy", f.name, "a new map starts with a %s counter of %s" % (k, v), f.short())
            continue
        c = C(prog)
        e = run_engine(prog, c, f, rep)
        src = None
        for v in f.params:
            src = T("obj", T("p", f.vars[v]["name"]))
        stored = set()
        for kind, evs, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            for n, k in COUNTS.items():
                v = e.load(st, T("fld", T("obj", T("p", "this")), n))
                if v is T("ld", T("fld", src, n)):
                    rep.ok("copy", "%s %s" % (f.name, n))
                else:
                    rep.bad("copy", f.name, "%s of the copy is %s" % (last(n), "not taken from the source"), f.short(), str(v))
            for x in evs:
                if x[0] == "slot" and not is_null(x[4]):
                    stored.add(x[1])
        for k in "NEF":
            if k in stored:
                rep.ok("copy", "%s slots %s" % (f.name, k))
            else:
                rep.bad("copy", f.name, "cells of kind %s are counted but not copied" % k, f.short())


class Emb(GeoRec):
    def __init__(self, prog):
        super().__init__(prog, {"cells", "cnt", "mapnull"})
        self.bad = []

    def key(self, eng, st, ctx):
        return st.cl

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        super().on_call(eng, st, ctx, ins, f, obj, args, inlined)

    def on_loop_head(self, eng, st, ctx, block):
        evs = st.cl
        fills = [i for i, x in enumerate(evs) if x[0] == "algo" and x[1] in ("fill", "fill_n", "transform")]
        if not fills:
            return
        if not self.loop_relevant(eng, ctx, block):
            return
        head = ("head", ctx.fn.id, block, "")
        if head in evs:
            i = evs.index(head)
            body = evs[i + 1:]
            keep = sum(1 for x in body if x[0] == "slot" and x[1] == "F" and not is_null(x[4]))
            gone = sum(1 for x in body if x[0] == "mapnull" and x[1] == "F")
            dec = sum(x[3] for x in body if x[0] == "cnt" and x[1] == "F" and isinstance(x[3], int))
            self.bad.append((keep, gone, dec, ctx.fn.short()))
            st.cl = evs[:i + 1]
        else:
            st.cl = evs + (head,)

    def loop_relevant(self, eng, ctx, block):
        key = (ctx.fn.id, block)
        c = self.__dict__.setdefault("_lr", {})
        if key not in c:
            blocks = natural_loop(ctx.fn, block)
            hit = False
            for b in blocks:
                for e in ctx.fn.blocks[b]["els"]:
                    if e["o"] == "call" and "f" in e:
                        g = self.prog.fns.get(e["f"]["id"])
                        if g is not None and g.id in self.rel and g.kind != "ctor":
                            hit = True
                    if e["o"] == "asg" or (e["o"] == "call" and e.get("f", {}).get("m") in ("operator=", "reset", "swap")):
                        p, rt = chain_base(ctx.fn, e["a"] if e["o"] == "asg" else e.get("obj", -1))
                        if "GeoMap::faces_" in p:
                            hit = True
            c[key] = hit
        return c[key]


def natural_loop(fn, head):
    preds = {}
    for b in fn.blocks.values():
        for s in b["succ"]:
            if s is not None:
                preds.setdefault(s, []).append(b["b"])
    body = {head}
    work = [p for p in preds.get(head, ()) if fn.order.get(p, -1) >= fn.order.get(head, 0)]
    while work:
        b = work.pop()
        if b in body:
            continue
        body.add(b)
        work += preds.get(b, ())
    return body


def embed(prog, rep):
    for f in prog.byname["GeoMap::initializeMap"]:
        c = Emb(prog)
        e = run_engine(prog, c, f, rep)
        if not c.bad:
            # the faces are rebuilt some other way: no verdict from this rule
            continue
        for keep, gone, dec, where in c.bad:
            if (keep, gone) == (1, 0) and dec == 0 or (keep, gone) == (0, 1) and dec == -1:
                rep.ok("embed", where)
            else:
                rep.bad("embed", "GeoMap::initializeMap",
                        "a preliminary contour is kept %d times, uninitialised %d times, face count changes by %d" % (keep, gone, dec), where)
