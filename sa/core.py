"""Event recording over the map's core state."""
import os
from .engine import *
from .program import REPO, AnalysisBroken

CELLS = {"GeoMap::nodes_": "N", "GeoMap::edges_": "E", "GeoMap::faces_": "F"}
COUNTS = {"GeoMap::nodeCount_": "N", "GeoMap::edgeCount_": "E", "GeoMap::faceCount_": "F"}
CELLCLS = {"GeoMap::Node": "N", "GeoMap::Edge": "E", "GeoMap::Face": "F"}
CLS_OF = {v: k for k, v in CELLCLS.items()}
MAPF = {c + "::map_": k for c, k in CELLCLS.items()}
LABELF = {c + "::label_": k for c, k in CELLCLS.items()}
SIGMA, INV = "GeoMap::sigmaMapping_", "GeoMap::sigmaInverseMapping_"
SIGARR, INVARR = "GeoMap::sigmaMappingArray_", "GeoMap::sigmaInverseMappingArray_"
HOOKS = {"removeNodeHook", "preMergeEdgesHook", "postMergeEdgesHook", "preSplitEdgeHook", "postSplitEdgeHook",
         "preRemoveBridgeHook", "postRemoveBridgeHook", "preMergeFacesHook", "postMergeFacesHook",
         "associatePixelsHook"}

# the operations a user of the map calls (name -> number of overloads); helpers
# that are not in this table are analysed as part of their callers
MAP_OPS = ["GeoMap::addNode", "GeoMap::addEdge", "GeoMap::removeEdge", "GeoMap::sortEdgesDirectly",
           "GeoMap::sortEdgesEventually", "GeoMap::splitParallelEdges", "GeoMap::setSigmaMapping",
           "GeoMap::initializeMap", "GeoMap::setHasLabelImage", "GeoMap::changeFaceLabels",
           "GeoMap::removeIsolatedNode", "GeoMap::mergeEdges", "GeoMap::splitEdge", "GeoMap::removeBridge",
           "GeoMap::mergeFaces", "GeoMap::Node::setPosition", "GeoMap::Face::embedContour"]


def site(ctx, ins):
    f = ctx.fn.file
    if f.startswith(REPO):
        f = os.path.relpath(f, REPO)
    return "%s:%d" % (f, ins["l"] if ins else ctx.fn.line)


def last(name):
    return name.split("::")[-1]


ALGOS = {"fill", "fill_n", "copy", "copy_backward", "sort", "stable_sort", "swap", "swap_ranges", "iter_swap",
         "transform", "rotate", "remove", "remove_if", "replace", "replace_if", "generate", "reverse", "unique",
         "transformMultiArray", "copyMultiArray", "initMultiArray", "move"}


class Recorder(Client):
    """Property state = the tuple of events recorded on the path."""
    fields = frozenset()          # writing these makes a function part of its callers
    reads = frozenset()           # ... or mentioning these
    names = frozenset()           # ... or calling functions with these qualified names
    modular = frozenset()         # functions never inlined (verified on their own)
    depth_limit = 24

    def __init__(self, prog):
        self.prog = prog
        self.rel = relevant(prog, self.fields, self.reads, self.names)
        self.exits = []           # (kind, events, state, ret, ctx, ins)

    def start(self, eng):
        return ()

    def inline(self, eng, fn, ctx, ins):
        if fn.name in self.modular:
            return False
        if fn.id in self.rel:
            return True
        return None

    def rec(self, st, ctx, ins, kind, *args):
        s = site(ctx, ins)
        n = 0
        for e in st.cl:
            if e[0] == kind and e[-1] == s:
                if e[1:-1] == args:
                    n += 2
                n += 1
        if n >= 3:
            return
        st.cl = st.cl + ((kind,) + args + (s,),)

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        self.exits.append((kind, st.cl, st, ret, ctx, ins))


def reach(prog):
    """function id -> set of function ids reachable through resolved calls"""
    r = prog.__dict__.get("_reach")
    if r is None:
        r = {}
        for f in prog.fns.values():
            r[f.id] = {c for c in prog.calls(f)}
        changed = True
        while changed:
            changed = False
            for k, s in r.items():
                n = len(s)
                for c in list(s):
                    if c in r and c != k:
                        s |= r[c]
                if len(s) != n:
                    changed = True
        prog._reach = r
    return r


def relevant(prog, fields, reads, names):
    """ids of functions that may (transitively) write one of `fields`, mention
    one of `reads` or call one of `names`"""
    key = (frozenset(fields), frozenset(reads), frozenset(names))
    cache = prog.__dict__.setdefault("_rel", {})
    if key in cache:
        return cache[key]
    direct = set()
    for f in prog.fns.values():
        m, r = local_effects(prog, f)
        hit = bool(r & key[1])
        if not hit:
            for x in m:
                if x in key[0] or (isinstance(x, tuple) and x[1] in key[0]):
                    hit = True
        if not hit:
            for e in f.ins.values():
                if e["o"] == "init" and e.get("f") in key[0]:
                    hit = True
                if e["o"] in ("call", "ctor") and "f" in e and e["f"]["n"] in key[2]:
                    hit = True
        if hit:
            direct.add(f.id)
    rc = reach(prog)
    out = set(direct)
    for f in prog.fns.values():
        if rc[f.id] & direct:
            out.add(f.id)
    cache[key] = out
    return out


def run_engine(prog, client, fn, rep=None, init=None):
    e = Engine(prog, client)
    e.run(fn, init)
    client.eng = e
    if rep is not None:
        rep.engine(e)
    return e


def delta(old, new):
    """integer difference of two terms, or None"""
    def off(t):
        return (t.args[0], t.args[1].args[0]) if t.op == "+" and len(t.args) == 2 and isc(t.args[1]) else (t, 0)
    (a, i), (b, j) = off(old), off(new)
    if a is b:
        return j - i
    d = add(new, neg(old))
    return d.args[0] if isc(d) else None


class GeoRec(Recorder):
    """events of the map's core data structures; subclasses pick kinds"""
    kinds = frozenset()
    KF = {"cnt": set(COUNTS), "cells": set(CELLS), "mapnull": set(MAPF), "sigma": {SIGMA, INV, SIGARR, INVARR},
          "anchor": {"GeoMap::Node::anchor_"}, "pos": {"GeoMap::Node::position_"},
          "nodemap": {"GeoMap::nodeMap_"},
          "nlabel": {"GeoMap::Edge::startNodeLabel_", "GeoMap::Edge::endNodeLabel_"},
          "flabel": {"GeoMap::Edge::leftFaceLabel_", "GeoMap::Edge::rightFaceLabel_"},
          "flags": {"GeoMap::Edge::flags_", "GeoMap::Face::flags_"},
          "label": set(LABELF),
          "anchors": {"GeoMap::Face::anchors_"},
          "area": {"GeoMap::Face::area_", "GeoMap::Face::boundingBox_"}, "parea": {"GeoMap::Face::pixelArea_"},
          "limg": {"GeoMap::labelImage_"}, "lut": {"GeoMap::faceLabelLUT_"},
          "phase": {"GeoMap::edgesSorted_", "GeoMap::splitInfo_", "GeoMap::edgePreferences_"}}

    def __init__(self, prog, kinds=None):
        if kinds is not None:
            self.kinds = frozenset(kinds)
        fs, rd = set(), set()
        for k in self.kinds:
            fs |= self.KF.get(k, set())
            if k == "hook":
                rd |= {"GeoMap::" + h for h in HOOKS}
        self.fields = frozenset(fs) | frozenset(self.fields)
        self.reads = frozenset(rd) | frozenset(self.reads)
        self.f2k = {f: k for k in self.kinds for f in self.KF.get(k, ())}
        super().__init__(prog)

    def on_write(self, eng, st, ctx, ins, loc, val):
        if root(loc).op in ("var", "tmp"):
            return
        if loc.op == "fld":
            n = loc.args[1]
            k = self.f2k.get(n)
            if k is None:
                return
            o = loc.args[0]
            if k == "cnt":
                d = delta(eng.load(st, loc), val)
                self.rec(st, ctx, ins, "cnt", COUNTS[n], o, d if d is not None else val)
            elif k == "mapnull":
                if val is ZERO:
                    self.rec(st, ctx, ins, "mapnull", MAPF[n], o)
            elif k == "cells":
                self.rec(st, ctx, ins, "bulk", CELLS[n], o, "=", val)
            else:
                self.rec(st, ctx, ins, k, last(n), o, val, eng.load(st, loc))
        elif loc.op == "elt":
            b = loc.args[0]
            if b.op == "fld":
                n = b.args[1]
                k = self.f2k.get(n)
                if k is None:
                    return
                if k == "cells":
                    self.rec(st, ctx, ins, "slot", CELLS[n], b.args[0], loc.args[1], val)
                elif n == SIGMA:
                    self.rec(st, ctx, ins, "S", loc.args[1], val)
                elif n == INV:
                    self.rec(st, ctx, ins, "I", loc.args[1], val)
                else:
                    self.rec(st, ctx, ins, "elt", last(n), loc, val)

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if root(loc).op in ("var", "tmp"):
            return
        if loc.op == "fld":
            n = loc.args[1]
            k = self.f2k.get(n)
            if k is None:
                if "hook" in self.kinds and n.startswith("GeoMap::") and last(n) in HOOKS and method == "operator()":
                    self.rec(st, ctx, ins, "hook", last(n), loc.args[0],
                             T("r", ctx.id, ins["i"], "hook"),
                             *[addr(a[1]) if a[0] == "L" else a[1] for a in args])
                return
            if k == "cells":
                if method == "push_back":
                    self.rec(st, ctx, ins, "push", CELLS[n], loc.args[0], eng.rval(st, args[0]))
                else:
                    self.rec(st, ctx, ins, "bulk", CELLS[n], loc.args[0], method,
                             *[eng.argval(st, a) if a[0] == "L" else a[1] for a in args])
            else:
                self.rec(st, ctx, ins, "mut", last(n), loc.args[0], method,
                         *[eng.argval(st, a) if a[0] == "L" else a[1] for a in args])

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if not inlined and obj is None and not f.get("repo") and args and f["m"] in ALGOS:
            # library algorithms working on iterators of our containers
            for a in args:
                v = a[1] if a[0] == "V" else st.store.get(a[1], a[1])
                for t in (v,) + (v.args if v.op == "+" else ()):
                    if t.op == "iter" and t.args[1].op == "fld" and t.args[1].args[1] in self.f2k:
                        self.rec(st, ctx, ins, "algo", f["m"], last(t.args[1].args[1]),
                                 *[eng.argval(st, x) if x[0] == "L" else x[1] for x in args])
                        return


def is_null(v):
    return v is ZERO or (v.op == "empty")


def retval(st, eng, ret):
    if ret is None:
        return None
    return eng.rval(st, ret)


def leaves(e, t):
    """what a merged value may stand for"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and e.phi_in.get(x):
            todo += list(e.phi_in[x])
        else:
            out.append(x)
    return out


def allsub(e, t):
    """all subterms, looking through merged values"""
    seen, todo = set(), [t]
    while todo:
        for x in subterms(todo.pop()):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo += list(e.phi_in.get(x, ()))
    return seen
