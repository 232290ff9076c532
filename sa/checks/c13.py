"""C13: what pickling writes is what unpickling reads, part by part."""
from ..core import *
from .c01 import strip
from .c14 import fields_of

TITLE = "pickling restores everything that is saved"
GROUPS = ["geomap", "python_bindings"]
TECHNIQUE = "static analysis: writer/reader position tables derived from both sides by path-sensitive dataflow, compared part by part"
EXPLANATION = ("The tuple returned by each getstate/getinitargs is decomposed position by position into the object parts it was "
               "computed from (lists: what is appended for each cell, once per cell, all cells); setstate and the constructor "
               "function are decomposed into which position (and sub-position) of the state reaches which part; both tables "
               "have to agree, cover every data member of the saved classes, and loops on both sides have to step through all "
               "elements in the same order.")
RULES = {"writer": "every part of the object is written to the state, lists once per cell over all cells",
         "reader": "every position of the state is restored into the part it was written from",
         "members": "every data member of a pickled value class is saved and restored (or reset when derived)",
         "initargs": "constructor arguments are written in the order of the constructor's parameters",
         "refuse": "parts that may be absent are tested before use"}
INITARGS = {"DSLPickleSuite": ("a_", "b_", "pos_"), "BoxPickleSuite": ("begin", "end"),
            "vigra::Diff2DPickleSuite": ("x", "y"), "vigra::Rect2DPickleSuite": ("upperLeft", "lowerRight")}
DERIVED = {"sorted_": 0}
STOP = {"GeoMap_setSigmaMapping", "GeoMap::initializeMap", "GeoMap::changeFaceLabels", "GeoMap::dart", "GeoMap::addNode",
        "GeoMap::addEdge", "GeoMap::Edge::setFlag", "GeoMap::Face::setFlag", "EdgeProtection::attachHooks",
        "GeoMap_sigmaMapping", "GeoMap::node", "GeoMap::face", "GeoMap::edge", "GeoMap::Dart::leftFace",
        "GeoMap::Dart::leftFaceLabel", "GeoMap::Dart::rightFace"}


class P(Recorder):
    """common: resolves Python object accesses to paths in the state; rounds of loops"""
    def __init__(self, prog, f):
        super().__init__(prog)
        self.f = f
        self.ps = [f.vars[v]["name"] for v in f.params]
        self.errs = {}

    def err(self, rule, what, where):
        self.errs.setdefault((rule, what), where)

    def inline(self, eng, fn, ctx, ins):
        if fn.name in STOP:
            return False
        if fn.file.startswith(REPO) and len(fn.ins) < 300:
            return True
        return None

    def put(self, st, *e):
        if e not in st.cl:
            st.cl = st.cl + (e,)

    def drop(self, st, *p):
        st.cl = tuple(x for x in st.cl if x[:len(p)] != p)

    def content(self, st, t):
        t = strip(t)
        n = 0
        while n < 12:
            n += 1
            if t.op in ("var", "tmp") or t.op == "ld":
                l = t.args[0] if t.op == "ld" else t
                v = st.store.get(l)
                if v is None or v is t:
                    return t
                t = strip(v)
            else:
                return t
        return t

    def path(self, eng, st, t, depth=0):
        """(root term, (idx, ...)) of a Python object expression"""
        if depth > 20:
            return None
        t = self.content(st, t)
        o = t.op
        if o == "p":
            return t, ()
        if o in ("ld", "obj", "&"):
            return self.path(eng, st, t.args[0], depth + 1)
        if o == "elt":
            b = self.path(eng, st, t.args[0], depth + 1)
            return b and (b[0], b[1] + (t.args[1],))
        if o == "m" and t.args[0] in ("operator()", "operator object", "operator[]", "deref", "operator*"):
            b = self.path(eng, st, t.args[1], depth + 1)
            if b and t.args[0] == "operator[]":
                return b[0], b[1] + (t.args[2],)
            return b
        if o in ("mk", "f", "r", "x", "copyof", "cast") or o == "phi":
            if o == "phi":
                out = None
                for l in eng.phi_in.get(t, ()):
                    if l is t or strip(l).op == "empty":
                        continue
                    q = self.path(eng, st, l, depth + 1)
                    out = out or q
                return out
            for a in t.args[1:]:
                if isinstance(a, Term) and not isc(a):
                    q = self.path(eng, st, a, depth + 1)
                    if q:
                        return q
        return None

    def tags(self, eng, t):
        out = set()
        for x in allsub(eng, t):
            if x.op == "fld" and isinstance(x.args[1], str):
                out.add(x.args[1])
            elif x.op in ("f", "r", "m", "mk", "str"):
                out |= {a for a in x.args if isinstance(a, str)}
        return out


# ------------------------------------------------------------------ writers
class Writer(P):
    LISTS = {"nodes_": None, "edges_": None, "faces_": None, "segments_": None}

    def __init__(self, prog, f):
        super().__init__(prog, f)
        self.app = {}          # list variable -> list of appended terms (None objects excluded)
        self.tuples = {}
        self.firsts = {}
        self.saved = {}
        self.gaps = False
        self.whole = None

    def kind(self, eng, c):
        k = None
        for x in allsub(eng, c):
            if x.op == "fld" and last(x.args[1]) in self.LISTS:
                k = last(x.args[1])
            elif self.whole is not None and x is self.whole:
                k = "elements"
        return k

    def on_assume(self, eng, st, ctx, cond, val):
        c, v = cond, val
        while c.op == "!":
            c, v = c.args[0], not v
        k = more = None
        if c.op == "m" and c.args[0] in ("inRange", "atEnd"):
            k, more = self.kind(eng, c.args[1]), v == (c.args[0] == "inRange")
        elif c.op == "<" and self.gapcond(eng, c):
            pass
        elif c.op in ("<", "==") and any(x.op == "m" and x.args[0] == "size" for x in c.args) or \
                c.op == "==" and any(x.op == "iter" and x.args[0] == "end" for x in c.args):
            sz = [x for x in c.args if x.op in ("m", "iter")]
            k = None
            for x in sz:
                k = k or self.kind(eng, x)
            more = v if c.op == "<" else not v
            if c.op == "==" and any("anchors_" in str(x) for x in sz):
                k = None
            o = [x for x in c.args if x not in sz]
            if k and o:
                if isc(o[0]):
                    self.firsts.setdefault(k, set()).add(o[0].args[0])
        elif c.op == "m" and c.args[0] == "size":
            k, more = self.kind(eng, c.args[1]), v
            if v:
                return
        if self.gapcond(eng, c):
            if c.op == "<" and not v or c.op == "==" and v or c.op not in ("<", "==") and not v:
                self.drop(st, "pad")
                self.put(st, "gapok")
            return
        if k is None:
            return
        self.close(st, k, ctx)
        self.drop(st, "pad")
        self.drop(st, "gapok")
        if more:
            self.put(st, "open", k)
        else:
            self.put(st, "done", k)

    def gapcond(self, eng, c):
        t = self.tags(eng, c)
        return "boost::python::len" in t and any(last(x) == "label_" for x in t)

    def close(self, st, k, ctx):
        n = {}
        for e in st.cl:
            if e[0] == "app" and e[1] == k:
                n[e[2]] = e[3]
        if ("open", k) in st.cl:
            for lst in set(n) | {l for (kk, l) in self.lists if kk == k}:
                self.lists.add((k, lst))
                if n.get(lst, 0) != 1:
                    self.err("writer", "a round over %s appends %d entries to %s" % (k, n.get(lst, 0), lst), ctx.fn.short())
                else:
                    self.good.add((k, lst))
        self.drop(st, "open", k)
        self.drop(st, "app", k)

    def start(self, eng):
        return ()

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if m != "append" or loc.op not in ("var", "tmp"):
            return
        v = self.content(st, args[0][1])
        nm = self.vname(loc)
        if v.op == "empty":
            self.pads.add(nm)
            self.put(st, "pad", nm)
            self.drop(st, "gapok")
            return
        if nm in self.pads or self.gaps:
            if ("pad", nm) in st.cl or ("gapok",) not in st.cl:
                self.err("writer", "cells are appended to %s without filling all gaps of missing labels" % nm, site(ctx, ins))
        for x in allsub(eng, v):
            k = self.kind(eng, x.args[0]) if x.op == "elt" else None
            if k and isc(x.args[1]):
                self.saved.setdefault(k, set()).add(x.args[1].args[0])
        self.app.setdefault(nm, []).append((v, self.tags(eng, v)))
        for e in st.cl:
            if e[0] == "open":
                k = e[1]
                self.lists.add((k, nm))
                old = [x[3] for x in st.cl if x[:3] == ("app", k, nm)]
                self.drop(st, "app", k, nm)
                self.put(st, "app", k, nm, min((old[0] if old else 0) + 1, 3))

    def vname(self, loc):
        return str(loc)

    def islist(self, eng, st, l):
        c = self.content(st, l)
        if c.op == "phi":
            return any(strip(x).op in ("empty", "mut") for x in eng.phi_in.get(c, ()))
        return c.op in ("empty", "mut") or self.vname(l) in self.app or \
            any(x.op in ("f", "r") and "GeoMap_sigmaMapping" in x.args for x in subterms(c))

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if f.get("n") == "boost::python::make_tuple":
            parts = []
            for a in args:
                l = a[1]
                if l.op == "var" and self.islist(eng, st, l):
                    parts.append(("list", self.vname(l), l))
                else:
                    parts.append(("val", self.content(st, l), l))
            self.tuples.setdefault(site(ctx, ins) + "#%d" % ins["i"], []).append((parts, st))
            self.order.append((site(ctx, ins) + "#%d" % ins["i"], ctx.fn.id))

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        super().on_exit(eng, st, kind, ret, ctx, ins)


def run_writer(prog, rep, f, whole=None, gaps=False):
    w = Writer(prog, f)
    w.whole, w.gaps = whole, gaps
    w.lists, w.good, w.pads, w.order = set(), set(), set(), []
    e = run_engine(prog, w, f, rep)
    # second pass with all lists known, so that rounds appending nothing are seen
    lists = set(w.lists)
    pads = set(w.pads)
    w = Writer(prog, f)
    w.whole, w.gaps = whole, gaps
    w.lists, w.good, w.pads, w.order = lists, set(), set(), []
    e = run_engine(prog, w, f, rep)
    for (rule, what), wh in sorted(w.errs.items()):
        rep.bad(rule, f.name, what, wh)
    for k, cs in sorted(w.firsts.items()):
        if 0 not in cs:
            rep.bad("writer", f, "the loop over %s starts at element %d" % (k, min(cs)), f.short())
    for k, js in sorted(w.saved.items()):
        if k in w.firsts and 0 not in js:
            rep.bad("writer", f, "the element saved for %s is not the one the loop has tested" % k, f.short())
    for g in w.good:
        rep.ok("writer", "%s %s" % (f.name, g[1]))
    return w, e


def const_mask(t, full):
    """every & with a constant keeps the bits in full"""
    for x in subterms(t):
        if x.op == "&" and len(x.args) == 2:
            for a in x.args:
                if isc(a) and (a.args[0] & full) != full:
                    return False
    return True


# ------------------------------------------------------------------ the map
def geomap(prog, rep):
    gi = prog.byname.get("GeoMapPickleSuite::getinitargs")
    gs = prog.byname.get("GeoMapPickleSuite::getstate")
    ss = prog.byname.get("GeoMapPickleSuite::setstate")
    cg = prog.byname.get("createGeoMap")
    if not (gi and gs and ss and cg):
        raise AnalysisBroken("the map's pickle suite was not found")
    # --- initargs
    f = gi[0]
    w, e = run_writer(prog, rep, f, gaps=True)
    fin = [(k, p) for k, ps in w.tuples.items() for p, st in ps if len(p) == 3 and p[0][0] == "list"]
    edge = [(k, p, st) for k, ps in w.tuples.items() for p, st in ps if not (len(p) == 3 and p[0][0] == "list")]
    if not fin:
        rep.bad("writer", f, "nodes, edges and image size are not returned", f.short())
    EP = {"start": "GeoMap::Edge::startNodeLabel_", "end": "GeoMap::Edge::endNodeLabel_"}
    order = None
    for k, p in fin[:1]:
        parts = []
        for kind, n, l in p:
            if kind == "list":
                tg = set()
                for v, t in w.app.get(n, []):
                    tg |= t
                ks = {kk for kk, nm in w.good if nm == n}
                if n not in w.pads:
                    rep.bad("writer", f, "missing cells leave no gap in %s" % n, f.short())
                parts.append("nodes" if "nodes_" in ks and "GeoMap::Node::position_" in tg else "edges" if "edges_" in ks else "?")
            else:
                parts.append("size" if any(x.op == "fld" and x.args[1] == "GeoMap::imageSize_" for x in subterms(n)) else "?")
        if parts != ["nodes", "edges", "size"]:
            rep.bad("initargs", f, "constructor arguments are written as (%s)" % ", ".join(parts), f.short())
        else:
            rep.ok("initargs", f)
    epos = {}
    for k, p, st in edge:
        for i, (kind, n, l) in enumerate(p):
            t = w.tags(e, n) if isinstance(n, Term) else set()
            for nm, fld_ in EP.items():
                if fld_ in t and not (set(EP.values()) - {fld_}) & t:
                    epos[nm] = i
            if not (set(EP.values()) & t):
                epos["points"] = i
    if set(epos) != {"start", "end", "points"}:
        rep.bad("writer", f, "an edge is not written as start node, end node and points", f.short())
    # --- the constructor
    f = cg[0]

    class C(P):
        def on_call(self, eng, st, ctx, ins, g, obj, args, inlined):
            n = g.get("n")
            if n == "GeoMap::addNode":
                self.use(eng, st, "node", [args[0]], args[1][1] if len(args) > 1 else None, site(ctx, ins))
            elif n == "GeoMap::addEdge":
                self.use(eng, st, "edge", args[:3], args[3][1] if len(args) > 3 else None, site(ctx, ins))
            elif n == "GeoMap::node":
                pass

        def use(self, eng, st, kind, args, label, where):
            ps = []
            for a in args:
                ps.append(self.arg(eng, st, a[1]))
            self.seen.append((kind, ps, self.content(st, label) if label is not None else None, where))

        def arg(self, eng, st, t, depth=0):
            for x in list(subterms(t)) + list(subterms(self.content(st, t))):
                c = self.content(st, x)
                for y in [c] + [z for z in allsub(eng, c)]:
                    if y.op in ("elt", "m"):
                        q = self.path(eng, st, y)
                        if q and q[0].op == "p" and q[0].args[0] in self.ps:
                            if q[0].args[0] == self.ps[1] and len(q[1]) < 2:
                                continue
                            return q
            # through node(label)
            return None
    c = C(prog, f)
    c.seen = []
    e = run_engine(prog, c, f, rep)
    kinds = {k for k, *_ in c.seen}
    if kinds != {"node", "edge"}:
        rep.bad("reader", f, "nodes or edges are not added by the constructor", f.short())
    exact = 0
    for kind, ps, label, where in c.seen:
        ph = lambda t: any(x.op == "phi" for x in subterms(t))
        if label is None or isc(label) and label.args[0] == 0 and kind == "edge":
            rep.bad("reader", f, "a %s is not created under the label of its list position" % kind, where)
            continue
        if kind == "node":
            q = ps[0]
            if q is None or len(q[1]) != 1:
                continue
            i = q[1][0]
            if ph(i) or ph(label):
                continue
            if q[0].args[0] != c.ps[0] or i is not label:
                rep.bad("reader", f, "a node is not created under the label of its list position", where)
            else:
                exact += 1
                rep.ok("reader", f)
        else:
            want = [epos.get("start"), epos.get("end"), epos.get("points")]
            for q, wn, nm in zip(ps, want, ("start", "end", "points")):
                if q is None or len(q[1]) != 2 or not isc(q[1][1]):
                    continue
                if q[1][0] is not label and isc(q[1][0]) == isc(label):
                    rep.bad("reader", f, "an edge is not created under the label of its list position", where)
                if q[1][1].args[0] != wn:
                    rep.bad("reader", f, "an edge's %s are read from position %s but written at position %s" % (
                        nm, q[1][1].args[0], wn), where)
                else:
                    rep.ok("reader", f)
    start_end(prog, rep, f, epos)
    # --- state
    f = gs[0]
    w, e = run_writer(prog, rep, f)
    tag = {}
    sub = {}
    fins = [p for k, ps in w.tuples.items() for p, st in ps if len(p) >= 5]
    subs = [(p, st) for k, ps in w.tuples.items() for p, st in ps if len(p) < 5]
    for p in fins[:1]:
        for i, (kind, n, l) in enumerate(p):
            if kind == "list":
                t = set()
                for v, tt in w.app.get(n, []):
                    t |= tt
                    if "GeoMap::Edge::flags_" in tt and not const_mask(v, 0xffffffff) or \
                            "GeoMap::Face::flags_" in tt and not const_mask(v, 0x0fffffff):
                        rep.bad("writer", f, "flag bits are lost when saving", f.short())
                ks = {kk for kk, nm in w.good if nm == n}
                c = w.content(fins_state(w, p), l) if False else None
                if "GeoMap::Edge::flags_" in t and "edges_" in ks:
                    tag["edgeflags"] = i
                elif "GeoMap::Face::flags_" in t and "faces_" in ks:
                    tag["faceflags"] = i
                elif "GeoMap::Face::anchors_" in t and "faces_" in ks:
                    tag["anchors"] = i
                elif "GeoMap::Face::label_" in t and "faces_" in ks:
                    tag["labels"] = (i,)
                else:
                    s = None
                    for k2, ps in w.tuples.items():
                        for p2, st2 in ps:
                            if p2 is p:
                                s = st2
                    v = w.content(s, l) if s else None
                    if v is not None and "GeoMap_sigmaMapping" in w.tags(e, v):
                        tag["sigma"] = i
            else:
                t = w.tags(e, n)
                if "boost::python::make_tuple" in t or n.op == "f" and "make_tuple" in str(n.args[0]):
                    for p2, st2 in subs:
                        for j, (k3, n3, l3) in enumerate(p2):
                            if k3 == "list":
                                tt = set().union(*[x for v, x in w.app.get(n3, [])] or [set()])
                                if "GeoMap::Face::label_" in tt:
                                    tag["labels"] = (i, j)
                            elif "GeoMap::faces_" in w.tags(e, n3):
                                tag["maxlabel"] = (i, j)
                elif "GeoMap_sigmaMapping" in t:
                    tag["sigma"] = i
                elif "GeoMap::edgesSorted_" in t:
                    tag["sorted"] = i
                elif "GeoMap::labelImage_" in t:
                    tag["limg"] = i
                elif "GeoMap::faces_" in t:
                    tag["init"] = i
                elif "__dict__" in t:
                    tag["dict"] = i
        size = len(p)
    need = ["sigma", "sorted", "init", "limg", "edgeflags", "faceflags", "anchors", "labels", "maxlabel", "dict"]
    for n in need:
        if n not in tag:
            rep.bad("writer", f, "the state does not contain the %s part" % n, f.short())
        else:
            rep.ok("writer", f)
    # --- reading the state
    f = ss[0]
    r = Reader(prog, f)
    e = run_engine(prog, r, f, rep)
    for (rule, what), wh in sorted(r.errs.items()):
        rep.bad(rule, f.name, what, wh)
    for n, cs in sorted(r.firsts.items()):
        if 0 not in cs:
            rep.bad("reader", f, "%s are restored starting at element %d" % (n, min(cs)), f.short())
    norm = lambda q: tuple(i.args[0] + (size if k == 0 and i.args[0] < 0 else 0) for k, i in enumerate(q))
    for n in need:
        got = {norm(q) for q in r.use.get(n, set())}
        want = tag.get(n)
        want = want if isinstance(want, tuple) else (want,)
        if not got:
            rep.bad("reader", f, "the %s part of the state is not restored" % n, f.short())
        elif got != {want}:
            rep.bad("reader", f, "the %s part is restored from position %s but written at %s" % (n, sorted(got), want), f.short())
        else:
            rep.ok("reader", f)
    for kind, cl, st, ret, ctx, ins in r.exits:
        if kind != "return":
            continue
        ev = {x[0] for x in cl}
        if "sigma" not in ev or "dict" not in ev:
            rep.bad("reader", f, "the sigma permutation or the attributes are not restored on some path", f.short())
        isinit = ("init", True) in cl
        if isinit and "initmap" not in ev:
            rep.bad("reader", f, "the faces of an initialised map are not restored", f.short())
        if not isinit and "initmap" in ev:
            rep.bad("reader", f, "a graph without faces is restored as an initialised map", f.short())
        if "initmap" in ev and "sigma" in ev:
            o = [x[0] for x in cl if x[0] in ("sigma", "initmap", "relabel")]
            if o.index("sigma") > o.index("initmap"):
                rep.bad("reader", f, "faces are built before the sigma permutation is restored", f.short())
        if isinit and ("has", True) in cl and "relabel" not in ev:
            rep.bad("reader", f, "face labels are not restored", f.short())
        rep.ok("reader", f)


def fins_state(w, p):
    return None


def start_end(prog, rep, f, epos):
    """the start node given to addEdge is looked up under the start label's position"""
    class S(P):
        def on_return_from(self, eng, st, ctx, ins, fn, ret):
            pass

        def on_call(self, eng, st, ctx, ins, g, obj, args, inlined):
            if g.get("n") == "GeoMap::node":
                q = self.path(eng, st, args[0][1])
                self.look.append((ins["i"], q))
            if g.get("n") == "GeoMap::addEdge":
                for j in (0, 1):
                    t = self.content(st, args[j][1])
                    ids = set()
                    for x in [t] + list(allsub(eng, t)):
                        for y in [x] + list(subterms(self.content(st, x))):
                            if y.op in ("f", "r") and "GeoMap::node" in y.args:
                                for a in y.args:
                                    if isinstance(a, Term):
                                        q = self.path(eng, st, a)
                                        if q and q[1] and isc(q[1][-1]):
                                            ids.add(q[1][-1].args[0])
                    # anchors constructed from nodes: look at the fields of the temporary
                    for l, v in st.store.items():
                        if l.op == "fld" and l.args[0] is args[j][1]:
                            for y in allsub(eng, v):
                                if y.op in ("f", "r") and "GeoMap::node" in y.args:
                                    for a in y.args:
                                        if isinstance(a, Term):
                                            q = self.path(eng, st, a)
                                            if q and q[1] and isc(q[1][-1]):
                                                ids.add(q[1][-1].args[0])
                    self.res.append((j, ids, site(ctx, ins)))
    c = S(prog, f)
    c.look, c.res = [], []
    run_engine(prog, c, f, rep)
    for j, ids, wh in c.res:
        want = epos.get(("start", "end")[j])
        if ids and want is not None:
            if ids != {want}:
                rep.bad("reader", f, "the %s node of an edge is read from position %s but written at %s" % (
                    ("start", "end")[j], sorted(ids), want), wh)
            else:
                rep.ok("reader", f)


def sigma(prog, rep):
    """saving and restoring the sigma permutation: one entry per dart, same order, centred, flag passed through"""
    def get(n):
        fs = [f for f in prog.byname.get(n, []) if f.file.startswith(REPO)]
        if not fs:
            raise AnalysisBroken("%s not found" % n)
        return fs[0]
    f = get("GeoMap_sigmaMapping")

    class W(P):
        def on_assume(self, eng, st, ctx, cond, val):
            c, v = cond, val
            while c.op == "!":
                c, v = c.args[0], not v
            its = [x for x in c.args if isinstance(x, Term)] if c.op in ("==", "<") else []
            t = self.tags(eng, c)
            if c.op == "==" and len(its) == 2 and all(self.isit(eng, x) for x in its):
                more = not v
            elif c.op == "<" and len(its) == 2 and all(self.isit(eng, x) or "sigmaMappingArray_" in str(x) and x.op == "m" for x in its) \
                    and not any(isc(y) for x in its for y in x.args if isinstance(y, Term)):
                more = v
            elif c.op == "<" and "GeoMap::sigmaMappingArray_" in t and any(x.op == "m" and x.args[0] == "size" for x in its):
                more = v
            else:
                if any(x.op == "fld" and x.args[1] == "GeoMap::edges_" for x in allsub(eng, c)):
                    if c.op == "==" and ZERO in c.args:
                        v = not v
                    self.drop(st, "live")
                    self.put(st, "live", v)
                return
            n = [e[1] for e in st.cl if e[0] == "n"]
            if ("open",) in st.cl and (not n or n[0] != 1):
                self.err("writer", "a round over the sigma permutation saves %d entries" % (n[0] if n else 0), ctx.fn.short())
            st.cl = (("open",),) if more else ()
            self.rounds += more

        def isit(self, eng, x):
            return any(y.op == "iter" for y in allsub(eng, x)) and not any(y.op == "m" and y.args[0] == "deref" for y in subterms(x))

        def on_mutate(self, eng, st, ctx, ins, loc, m, args):
            if m != "append":
                return
            n = [e[1] for e in st.cl if e[0] == "n"]
            self.drop(st, "n")
            self.put(st, "n", min((n[0] if n else 0) + 1, 3))
            v = self.content(st, args[0][1])
            if isc(v):
                if v.args[0] != 0 or ("live", True) in st.cl:
                    self.err("writer", "the successor of a live dart is not saved", site(ctx, ins))
            elif "GeoMap::sigmaMappingArray_" not in self.tags(eng, v):
                self.err("writer", "something else than the sigma permutation is saved", site(ctx, ins))
    w = W(prog, f)
    w.rounds = 0
    run_engine(prog, w, f, rep)
    for (rule, what), wh in sorted(w.errs.items()):
        rep.bad(rule, f, what, wh)
    if not w.errs:
        rep.ok("writer", f)
    f = get("GeoMap_setSigmaMapping")

    class S(P):
        def inline(self, eng, fn, ctx, ins):
            return False if fn.name == "GeoMap::setSigmaMapping" else super().inline(eng, fn, ctx, ins)

        def on_write(self, eng, st, ctx, ins, loc, val):
            q = self.path(eng, st, val)
            if q and q[0] is T("p", self.ps[1]) and len(q[1]) == 1:
                i = q[1][0]
                if isc(i):
                    self.consts.add(i.args[0])
                for x in subterms(loc):
                    if x.op == "elt" and isc(x.args[1]) and isc(i) and x.args[1] is not i:
                        self.err("reader", "an entry of the permutation is restored from another position", site(ctx, ins))
                if any(x.op in ("f", "r") and "boost::python::len" in x.args for x in subterms(i)):
                    self.err("reader", "the permutation is restored in another order", site(ctx, ins))

        def on_call(self, eng, st, ctx, ins, g, obj, args, inlined):
            if g.get("n") == "GeoMap::setSigmaMapping":
                if self.content(st, args[1][1]) is not T("p", self.ps[2]):
                    self.err("reader", "whether the edges were sorted is not passed on", site(ctx, ins))
                self.put(st, "set")
    w = S(prog, f)
    w.consts = set()
    run_engine(prog, w, f, rep)
    if w.consts and 0 not in w.consts:
        w.err("reader", "the permutation is restored starting at element %d" % min(w.consts), f.short())
    if any(x[0] == "return" and ("set",) not in x[1] for x in w.exits):
        w.err("reader", "the permutation is not given to the map", f.short())
    for (rule, what), wh in sorted(w.errs.items()):
        rep.bad(rule, f, what, wh)
    if not w.errs:
        rep.ok("reader", f)
    f = get("GeoMap::setSigmaMapping")

    class M(P):
        def inline(self, eng, fn, ctx, ins):
            return False if fn.name == "GeoMap::resizeSigmaMapping" else super().inline(eng, fn, ctx, ins)

        def on_write(self, eng, st, ctx, ins, loc, val):
            if loc.op == "fld" and loc.args[1] == "GeoMap::edgesSorted_":
                if self.content(st, val) is not T("p", self.ps[1]):
                    self.err("reader", "whether the edges were sorted is not restored", site(ctx, ins))
                self.put(st, "sorted")

        def on_call(self, eng, st, ctx, ins, g, obj, args, inlined):
            if (g.get("n") or "").endswith("std::copy"):
                src = [self.content(st, a[1]) for a in args[:2]]
                par = T("p", self.ps[0])
                for t in src:
                    if not any(x.op == "m" and x.args[0] == "size" and any(y is par for y in subterms(x)) for x in allsub(eng, t)):
                        self.err("reader", "the centre of the given permutation is not derived from its size", site(ctx, ins))
    w = M(prog, f)
    run_engine(prog, w, f, rep)
    if any(x[0] == "return" and ("sorted",) not in x[1] for x in w.exits):
        w.err("reader", "whether the edges were sorted is not restored", f.short())
    for (rule, what), wh in sorted(w.errs.items()):
        rep.bad(rule, f, what, wh)
    if not w.errs:
        rep.ok("reader", f)


class Reader(P):
    """GeoMap setstate: which position of the state reaches which part"""
    def __init__(self, prog, f):
        super().__init__(prog, f)
        self.use = {}
        self.state = f.vars[f.params[1]]["name"]
        self.firsts = {}

    def at(self, eng, st, t):
        """constant prefix of the position in the state a value comes from, and the element index"""
        q = self.path(eng, st, t)
        if q is None or q[0] is not T("p", self.state):
            return None
        pre, rest = [], list(q[1])
        return q[1]

    def sink(self, eng, st, n, t, depth, where):
        q = None
        for x in [t] + [y for y in subterms(t)]:
            q = self.at(eng, st, x)
            if q is not None:
                break
        if q is None:
            return None
        if len(q) < depth:
            return None
        pre = q[:len(q) - 1] if n in ("edgeflags", "faceflags", "anchors", "labels") else q
        if not all(isc(i) for i in pre):
            return None
        self.use.setdefault(n, set()).add(pre)
        return q

    def on_assume(self, eng, st, ctx, cond, val):
        c, v = cond, val
        while c.op == "!":
            c, v = c.args[0], not v
        if c.op == "m" and c.args[0] in ("inRange", "atEnd"):
            k = [last(x.args[1]) for x in allsub(eng, c) if x.op == "fld" and last(x.args[1]) in ("edges_", "faces_", "nodes_")]
            if k:
                self.round(st, k[0], v == (c.args[0] == "inRange"), ctx)
            return
        if any(x.op == "fld" and x.args[1] == "GeoMap::faceCount_" for x in allsub(eng, c)):
            self.round(st, "faces_", v if c.op == "<" or c.op != "==" else not v, ctx)
            return
        q = self.at(eng, st, c)
        if q is not None and len(q) == 2:
            if c is strip(c) and c.op not in ("==", "<"):
                self.drop(st, "anch")
                self.put(st, "anch", v)
            return
        if c.op in ("==", "<"):
            for a in c.args:
                q2 = self.at(eng, st, a)
                if q2 is not None and len(q2) == 2:
                    self.drop(st, "anch")
                    if c.op == "==" and ZERO in c.args:
                        self.put(st, "anch", not v)
                    return
        if q is not None and len(q) == 1 and isc(q[0]):
            self.use.setdefault("init", set()).add(q)
            self.put(st, "init", v)
            return
        if any(x.op in ("f", "r") and "boost::python::len" in x.args for x in subterms(c)):
            self.put(st, "has", v if c.op == "<" and not isc(c.args[1]) else not v if c.op == "<" else v)

    def round(self, st, k, more, ctx):
        if ("open", k) in st.cl:
            need = {"edges_": {"edgeflags"}, "faces_": {"faceflags", "labels"}}.get(k, set())
            got = {e[1] for e in st.cl if e[0] == "got"}
            if ("has", False) in st.cl:
                need = need - {"labels"}
            if need - got:
                self.err("reader", "%s of some %s are not restored" % (", ".join(sorted(need - got)), k), ctx.fn.short())
        self.drop(st, "open", k)
        self.drop(st, "got")
        if more:
            self.put(st, "open", k)

    def idx(self, eng, q, n, where):
        i = q[-1]
        if isc(i):
            self.firsts.setdefault(n, set()).add(i.args[0])
        else:
            for x in allsub(eng, i):
                if x.op == "phi":
                    for l in eng.phi_in.get(x, ()):
                        l = strip(l)
                        if x in subterms(l) and l is not x and delta(x, l) not in (1, None):
                            self.err("reader", "%s are not read one after the other" % n, where)
            if i.op == "+":
                self.err("reader", "%s are read at a shifted index" % n, where)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        n = f.get("n")
        where = site(ctx, ins)
        if n == "GeoMap_setSigmaMapping":
            self.sink(eng, st, "sigma", args[1][1], 1, where)
            if len(args) > 2:
                self.sink(eng, st, "sorted", args[2][1], 1, where)
            self.put(st, "sigma")
        elif n == "GeoMap::setSigmaMapping":
            self.put(st, "sigma")
        elif n == "GeoMap::initializeMap":
            self.sink(eng, st, "limg", args[0][1], 1, where)
            self.put(st, "initmap")
        elif n in ("GeoMap::Edge::setFlag", "GeoMap::Face::setFlag"):
            k = "edgeflags" if "Edge" in n else "faceflags"
            q = self.sink(eng, st, k, args[0][1], 2, where)
            if q:
                self.idx(eng, q, k, where)
            full = 0xffffffff if k == "edgeflags" else 0x0fffffff
            if not const_mask(args[0][1], full):
                self.err("reader", "flag bits are lost when restoring %s" % k, where)
            if len(args) > 1 and args[1][1] is ZERO:
                self.err("reader", "%s are cleared instead of set" % k, where)
            self.put(st, "got", k)
        elif n == "GeoMap::face" and ("open", "faces_") in st.cl and args[0][1] is ZERO:
            if ("anch", False) not in st.cl:
                self.err("reader", "a face with a contour is restored as the infinite face", where)
        elif n == "GeoMap::Dart::rightFace" and ("open", "faces_") in st.cl:
            self.err("reader", "the face right of the saved contour is restored instead of the face left of it", where)
        elif n == "GeoMap::dart":
            if self.content(st, args[0][1]).op in ("neg", "-") and ("open", "faces_") in st.cl:
                self.err("reader", "the face right of the saved contour is restored instead of the face left of it", where)
            if ("anch", True) not in st.cl and ("open", "faces_") in st.cl:
                self.err("reader", "the contour of a face is used without testing that there is one", where)
            q = self.sink(eng, st, "anchors", args[0][1], 2, where)
            if q:
                self.idx(eng, q, "anchors", where)
        elif n == "GeoMap::changeFaceLabels":
            self.sink(eng, st, "maxlabel", args[1][1], 2, where)
            self.put(st, "relabel")

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op == "elt" and loc.args[0].op == "var":
            q = self.sink(eng, st, "labels", val, 2, site(ctx, ins))
            if q:
                self.idx(eng, q, "labels", site(ctx, ins))
            t = self.tags(eng, loc.args[1])
            if any("label_" in x or "leftFaceLabel" in x for x in t):
                self.put(st, "got", "labels")

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if m == "update":
            self.sink(eng, st, "dict", args[0][1], 1, site(ctx, ins))
            self.put(st, "dict")


# ------------------------------------------------------------------ statistics
class StatR(P):
    def __init__(self, prog, f):
        super().__init__(prog, f)
        self.w = {}
        self.firsts = {}
        self.obj = T("obj", T("p", self.ps[0]))

    def on_write(self, eng, st, ctx, ins, loc, val):
        names = [last(x.args[1]) for x in subterms(loc) if x.op == "fld" and isinstance(x.args[1], str)]
        if root(loc) is not self.obj and not any(x is self.obj for x in subterms(loc)):
            return
        q = self.path(eng, st, val)
        if q and q[0].op == "p" and q[0].args[0] == self.ps[1]:
            for x in subterms(loc):
                if x.op == "elt" and len(q[1]) > 1:
                    if q[1][1] is not x.args[1] and q[1][1].op != "iter" and x.args[1].op != "iter":
                        self.err("members", "an element of %s is restored from another element" % "/".join(names), site(ctx, ins))
                    if isc(q[1][1]):
                        self.firsts.setdefault(names[-1], set()).add(q[1][1].args[0])
            self.w.setdefault(tuple(names), set()).add(tuple(i.args[0] if isc(i) else "i" for i in q[1]))
        elif isc(val):
            self.w.setdefault(tuple(names), set()).add(("const", val.args[0]))
        self.put(st, "w", names[-1] if names else "?")

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if loc.op == "fld" and loc.args[0] is self.obj and m in ("resize", "push_back", "clear", "assign"):
            self.put(st, "w", last(loc.args[1]))
            if m == "resize":
                t = args[0][1]
                q = None
                for x in [t] + list(subterms(self.content(st, t))):
                    q = q or self.path(eng, st, x)
                self.sizes.setdefault(last(loc.args[1]), set()).add(
                    tuple(i.args[0] if isc(i) else "i" for i in q[1]) if q else None)


def stats(prog, rep):
    for cls, base in (("PolylineStatistics", None), ("QuantileStatistics", "PolylineStatistics")):
        g = prog.byname.get(cls + "PickleSuite::getstate")
        s = prog.byname.get(cls + "PickleSuite::setstate")
        if not (g and s):
            raise AnalysisBroken("pickle suite of %s not found" % cls)
        w, e = run_writer(prog, rep, g[0])
        pos, pairs, lists = {}, {}, {}
        n = 0
        for k, fid in dict.fromkeys(w.order):
            p, st = w.tuples[k][0]
            vals = [x[1] for x in p]
            vals = [v.args[0] if isinstance(v, Term) and v.op == "ld" else v for v in vals]
            if all(isinstance(v, Term) and v.op == "fld" and v.args[0].op == "obj" and v.args[0].args[0].op == "p" for v in vals):
                for i, v in enumerate(vals):
                    pos[last(v.args[1])] = n + i
                n += len(p)
            elif all(x[0] == "list" for x in p):
                for i, x in enumerate(p):
                    lists[x[1]] = n + i
                n += len(p)
            else:
                for i, v in enumerate(vals):
                    for x in allsub(e, v) if isinstance(v, Term) else ():
                        if x.op == "fld" and last(x.args[1]) in ("first", "second"):
                            pairs[last(x.args[1])] = i
        r = StatR(prog, s[0])
        r.sizes = {}
        er = run_engine(prog, r, s[0], rep)
        for (rule, what), wh in sorted(r.errs.items()):
            rep.bad(rule, s[0], what, wh)
        for m, cs in sorted(r.firsts.items()):
            if 0 not in cs:
                rep.bad("members", s[0], "%s is restored starting at element %d" % (m, min(cs)), s[0].short())
        flds = [x[1] for x in fields_of(prog, cls)]
        for m in flds:
            if m in DERIVED:
                got = r.w.get((m,), set())
                ok = bool(got) and all(x == ("const", DERIVED[m]) for x in got) and all(
                    ("w", m) in x[1] for x in r.exits if x[0] == "return")
                if ok:
                    rep.ok("members", cls + "::" + m)
                else:
                    rep.bad("members", s[0], "the derived member %s is not reset when a state is restored" % m, s[0].short())
            elif m == "segments_":
                k = [lists[l] for kk, l in w.good if kk == "segments_" and l in lists]
                if not k:
                    rep.bad("members", g[0], "%s is not saved" % m, g[0].short())
                    continue
                k = k[0]
                okpos = {k, k - n}
                bad = None
                for c in ("first", "second"):
                    got = set()
                    for nm, qs in r.w.items():
                        if nm and c in nm and m in nm:
                            got |= qs
                    got = {q for q in got if q and q[0] != "const"}
                    want = pairs.get(c)
                    if not got or any(len(q) != 3 or q[0] not in okpos or q[2] != want for q in got) or want is None:
                        bad = "the %s part of %s is not restored from where it is saved" % (c, m)
                if not r.sizes.get(m) or any(q is None or len(q) != 1 or q[0] not in okpos for q in r.sizes[m]):
                    bad = "%s is not given the saved number of elements" % m
                if bad:
                    rep.bad("members", s[0], bad, s[0].short())
                else:
                    rep.ok("members", cls + "::" + m)
            else:
                if m not in pos:
                    rep.bad("members", g[0], "%s is not saved" % m, g[0].short())
                    continue
                got = r.w.get((m,), set())
                if not got or any(q not in ((pos[m],), (pos[m] - n,)) for q in got):
                    rep.bad("members", s[0], "%s is saved at position %d but restored from %s" % (m, pos[m], sorted(map(str, got))), s[0].short())
                elif not all(("w", m) in x[1] for x in r.exits if x[0] == "return"):
                    rep.bad("members", s[0], "%s is not restored on some path" % m, s[0].short())
                else:
                    rep.ok("members", cls + "::" + m)
        ctor_derived(prog, rep, cls)


def ctor_derived(prog, rep, cls):
    """derived flags have a defined value in a new object"""
    for f in prog.fns.values():
        if f.kind != "ctor" or f.cls != cls or f.implicit:
            continue
        ps = [prog.tstr(f.vars[v]["t"]) for v in f.params]
        if ps and cls in ps[0]:
            continue
        for c, m, t in fields_of(prog, cls):
            if m not in DERIVED:
                continue

            class K(Recorder):
                def on_write(self, eng, st, ctx, ins, loc, val):
                    if loc.op == "fld" and last(loc.args[1]) == m:
                        st.cl = ("set",)

                def inline(self, eng, fn, ctx, ins):
                    return True if fn.file.startswith(REPO) and len(fn.ins) < 300 else None
            k = K(prog)
            run_engine(prog, k, f, rep)
            if any(x[0] == "return" and "set" not in x[1] for x in k.exits):
                rep.bad("members", f, "%s has no defined value in a new object" % m, f.short())
            else:
                rep.ok("members", f)


def protection(prog, rep):
    g = prog.byname.get("EdgeProtectionPickleSuite::getstate")
    s = prog.byname.get("EdgeProtectionPickleSuite::setstate")
    if not (g and s):
        raise AnalysisBroken("pickle suite of EdgeProtection not found")
    w, e = run_writer(prog, rep, g[0])
    pos = None
    for k, ps in w.tuples.items():
        for p, st in ps:
            for i, (kind, n, l) in enumerate(p):
                if isinstance(n, Term) and "EdgeProtection::map_" in w.tags(e, n):
                    pos = i
    if pos is None:
        rep.bad("writer", g[0], "the map is not saved", g[0].short())
        return

    class R(P):
        def on_assume(self, eng, st, ctx, cond, val):
            c, v = cond, val
            while c.op == "!":
                c, v = c.args[0], not v
            if c.op == "==" and ZERO in c.args:
                c = [a for a in c.args if a is not ZERO][0]
                v = not v
            q = self.path(eng, st, c)
            if q and q[0] is T("p", self.ps[1]):
                self.put(st, "has", v)

        def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
            if f.get("n") == "EdgeProtection::attachHooks":
                q = self.path(eng, st, args[0][1])
                self.seen.append((tuple(i.args[0] if isc(i) else None for i in q[1]) if q else None,
                                  ("has", True) in st.cl, site(ctx, ins)))
                self.put(st, "att")
    r = R(prog, s[0])
    r.seen = []
    run_engine(prog, r, s[0], rep)
    for q, tested, wh in r.seen:
        if q is None or q not in ((pos,), (pos - 1,)):
            rep.bad("reader", s[0], "the protection is attached to something else than the saved map", wh)
        elif not tested:
            rep.bad("refuse", s[0], "the saved map may be absent (detached protection) but is used without a test", wh)
        else:
            rep.ok("reader", s[0])
            rep.ok("refuse", s[0])
    for x in r.exits:
        if x[0] == "return" and ("att",) not in x[1] and ("has", False) not in x[1]:
            rep.bad("reader", s[0], "the protection is not attached to the saved map", s[0].short())


def anchors(prog, rep):
    """the contour of a face is only read after testing that there is one"""
    for f in prog.byname.get("GeoMapPickleSuite::getstate", []):
        class A(P):
            def inline(self, eng, fn, ctx, ins):
                if fn.name == "GeoMap::Face::contour":
                    return False
                return super().inline(eng, fn, ctx, ins)

            def on_assume(self, eng, st, ctx, cond, val):
                if any(x.op == "fld" and x.args[1] == "GeoMap::Face::anchors_" for x in allsub(eng, cond)):
                    self.put(st, "t")

            def on_call(self, eng, st, ctx, ins, g, obj, args, inlined):
                if g.get("n") == "GeoMap::Face::contour":
                    (self.good if ("t",) in st.cl else self.bad).add(site(ctx, ins))
        a = A(prog, f)
        a.good, a.bad = set(), set()
        run_engine(prog, a, f, rep)
        for s in a.bad:
            rep.bad("refuse", f, "the first contour of a face is read without testing that the face has one", s)
        for s in a.good - a.bad:
            rep.ok("refuse", f)


def initargs(prog, rep):
    seen = set()
    for f in prog.fns.values():
        if not f.name.endswith("PickleSuite::getinitargs") or not f.file.startswith(REPO):
            continue
        suite = f.name.rsplit("::", 1)[0]
        if suite == "GeoMapPickleSuite":
            continue
        me = T("p", f.vars[f.params[0]]["name"])
        w, e = run_writer(prog, rep, f, whole=T("obj", me) if suite == "ArrayPickleSuite" else None)
        ps = [p for k, l in w.tuples.items() for p, st in l]
        if suite in INITARGS:
            want = INITARGS[suite]
            seen.add(suite)
            for p in ps:
                got = []
                for kind, n, l in p:
                    ns = set()
                    for x in subterms(n) if isinstance(n, Term) else ():
                        if x.op == "fld":
                            ns.add(last(x.args[1]))
                        elif x.op in ("m", "f", "r", "iter"):
                            ns |= {last(a) for a in x.args if isinstance(a, str)}
                    h = [c for c in want if c in ns or c.rstrip("_") in ns]
                    got.append(h[0] if len(h) == 1 else "?")
                if tuple(got) != want:
                    rep.bad("initargs", f, "constructor arguments are written as (%s) instead of (%s)" % (", ".join(got), ", ".join(want)), f.short())
                else:
                    rep.ok("initargs", f)
            if not ps:
                rep.bad("initargs", f, "no constructor arguments are written", f.short())
        elif suite == "ArrayPickleSuite":
            seen.add(suite)
            ok = False
            for p in ps:
                for kind, n, l in p:
                    st = [st for k, ll in w.tuples.items() for pp, st in ll if pp is p][0]
                    v = n if isinstance(n, Term) else w.content(st, l)
                    if any(x is me for x in subterms(v)):
                        ok = True
            if not ok:
                ok = any(any(x is me for x in allsub(e, v)) for l in w.app.values() for v, t in l)
            if ok:
                rep.ok("initargs", f)
            else:
                rep.bad("initargs", f, "the points of the array are not written", f.short())
    # the constructor of the straight line class stores its parameters in order
    for f in prog.fns.values():
        if f.kind == "ctor" and f.cls.split("<")[0] == "vigra::DigitalStraightLine" and len(f.params) == 3:
            class K(Recorder):
                def on_write(self, eng, st, ctx, ins, loc, val):
                    if loc.op == "fld" and last(loc.args[1]) in ("a_", "b_", "pos_"):
                        self.w[last(loc.args[1])] = val
            k = K(prog)
            k.w = {}
            run_engine(prog, k, f, rep)
            want = {n: T("p", f.vars[v]["name"]) for n, v in zip(("a_", "b_", "pos_"), f.params)}
            if any(strip(k.w.get(n, ZERO)) is not v for n, v in want.items()):
                rep.bad("initargs", f, "the constructor does not store its parameters in the order they are saved", f.short())
            else:
                rep.ok("initargs", f)
    for s in set(INITARGS) - seen:
        raise AnalysisBroken("pickle suite %s not found" % s)


def run(prog, rep, tier):
    geomap(prog, rep)
    sigma(prog, rep)
    anchors(prog, rep)
    stats(prog, rep)
    protection(prog, rep)
    initargs(prog, rep)
    for r, n in (("writer", 8), ("reader", 12), ("members", 8), ("initargs", 5), ("refuse", 2)):
        rep.need(r, n)
