from ..core import *

TITLE = "successor and predecessor are mutually inverse"
GROUPS = ["geomap"]
EXPLANATION = ("Symbolic effect analysis of every write to the successor/predecessor tables along each path of each map "
               "operation (helpers inlined): writes are collected into groups; each group must write mirror images into "
               "both tables and permute the darts (what it drops belongs to a removed edge, what it adds to a new one). "
               "Sorting loops: each link is mirrored and the links of one node form one closed chain. Resizing/copying/"
               "bulk loading: both tables get the same treatment. Node anchors and end-node labels follow.")
RULES = {"mirror": "each change of the successor table is mirrored in the predecessor table and vice versa",
         "orbit": "each group of changes is a permutation of the live darts; dropped darts belong to removed edges",
         "removed": "the darts of a removed edge have been taken out of their orbits",
         "chain": "sorting links consecutive darts and closes the cycle",
         "bulk": "bulk changes (resize, copy, load) treat both tables alike",
         "anchor": "no node keeps a dart as anchor that left its orbit",
         "ends": "split and merged edges get the node labels of their new ends"}
SORT = {"GeoMap::sortEdgesDirectly", "GeoMap::sortEdgesEventually"}
OPS = ["GeoMap::addEdge", "GeoMap::removeEdge", "GeoMap::mergeEdges", "GeoMap::splitEdge", "GeoMap::removeBridge",
       "GeoMap::mergeFaces"]
DEBUG = os.environ.get("SA_DEBUG")
ANCH = "GeoMap::Node::anchor_"


def canon(t, vs, vi, memo=None):
    """replace table reads by S(x,v)/I(x,v); cancel inverse pairs read in the epoch (vs,vi)"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if not isinstance(t, Term):
        return t
    r = t
    if t.op == "ld" and t.args[0].op == "elt" and t.args[0].args[0].op == "fld" \
            and t.args[0].args[0].args[1] in (SIGMA, INV):
        k = "S" if t.args[0].args[0].args[1] == SIGMA else "I"
        ver = t.args[1] if len(t.args) > 1 else None
        x = canon(t.args[0].args[1], vs, vi, memo)
        cur = ver is (vs if k == "S" else vi)
        r = mkSI(k, x, "cur" if cur else (ver.id if ver is not None else 0))
    elif any(isinstance(a, Term) for a in t.args):
        na = tuple(canon(a, vs, vi, memo) if isinstance(a, Term) else a for a in t.args)
        if na != t.args:
            r = T(t.op, *na)
    memo[t] = r
    return r


def mkSI(k, x, v):
    o = "I" if k == "S" else "S"
    if x.op == o and x.args[1] == v:
        return x.args[0]
    return T(k, x, v)


def mentions(t, names):
    return any(x.op == "fld" and x.args[1] in names for x in subterms(t))


def clean(t):
    return not any(x.op in ("phi", "stale", "x", "r", "out") for x in subterms(t))


def direct(t):
    """a read of one of the tables or of a node's anchor"""
    if t.op != "ld":
        return False
    l = t.args[0]
    if l.op == "elt":
        return l.args[0].op == "fld" and l.args[0].args[1] in (SIGMA, INV)
    return False


def anchor_read(t):
    return t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] == ANCH


class C(GeoRec):
    kinds = frozenset({"sigma", "mapnull", "cells", "anchor", "nlabel"})
    depth_limit = 30
    modular = frozenset(OPS)

    def keeps_content(self, eng, fn):
        """resizes the tables (checked on its own by the bulk rule)"""
        return fn.id in resizers(self.prog, eng)

    def __init__(self, prog, sort=False):
        self.sort = sort
        self.loops = {}
        super().__init__(prog)

    def start(self, eng):
        # pend: open group; log: closed facts (D darts, new darts, other events)
        return (("pend", ()), ("log", ()), ("eq", ()), ("chain", None), ("prev", ()))

    # -- helpers on the state
    def get(self, st):
        return dict(st.cl)

    def put(self, st, d):
        st.cl = tuple((k, d[k]) for k in ("pend", "log", "eq", "chain", "prev"))

    def rec(self, st, ctx, ins, kind, *args):
        d = self.get(st)
        s = site(ctx, ins)
        if kind in ("S", "I"):
            eng = self.cur
            vs, vi = st.ver.get(("elt", SIGMA)), st.ver.get(("elt", INV))
            if not d["pend"]:
                d["pend"] = (("ver", vs, vi),)
            if len(d["pend"]) > (4 if self.sort else 40):
                return
            d["pend"] = d["pend"] + ((kind, args[0], args[1], s),)
            if self.sort:
                self.close_sort(st, d)
            else:
                self.close(eng, st, d)
            self.put(st, d)
            return
        if kind == "slot" or kind == "bulk":
            return
        if kind == "push" and args[0] != "E" and args[0] != "N":
            return
        ev = (kind,) + args + (s,)
        if ev in d["log"] or len(d["log"]) > 60:
            return
        d["log"] = d["log"] + (ev,)
        self.put(st, d)

    def on_write(self, eng, st, ctx, ins, loc, val):
        self.cur = eng
        super().on_write(eng, st, ctx, ins, loc, val)

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        self.cur = eng
        super().on_mutate(eng, st, ctx, ins, loc, method, args)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if inlined or obj is not None or f.get("repo") or f["m"] not in ALGOS:
            return
        vals = [eng.argval(st, x) if x[0] == "L" else x[1] for x in args]
        for v in vals:
            if isinstance(v, Term) and mentions(v, (SIGMA, INV, SIGARR, INVARR)):
                d = self.get(st)
                ev = ("algo", f["m"]) + tuple(vals) + (site(ctx, ins),)
                if ev not in d["log"] and sum(1 for e in d["log"] if e[0] == "algo") < 6:
                    d["log"] = d["log"] + (ev,)
                    self.put(st, d)
                return

    def on_assume(self, eng, st, ctx, cond, val):
        c = cond
        if self.sort:
            return
        if c.op == "==" and any(anchor_read(x) for x in c.args) and len(self.get(st)["eq"]) < 12:
            d = self.get(st)
            d["eq"] = d["eq"] + ((c, val),)
            self.put(st, d)
        elif c.op in ("==", "<") and any(direct(x) for x in c.args) and not any(x.op == "phi" for x in subterms(c)) and \
                (c.op == "==" or ctx.parent is None):
            d = self.get(st)
            ev = (c, val)
            if ev not in d["eq"] and len(d["eq"]) < 12:
                d["eq"] = d["eq"] + (ev,)
                self.put(st, d)
        elif c.op == "==" and any(x.op == "fld" and x.args[1] in ("GeoMap::Edge::startNodeLabel_", "GeoMap::Edge::endNodeLabel_")
                                  for x in subterms(c)) and ctx.parent is None:
            d = self.get(st)
            if len(d["eq"]) < 12:
                d["eq"] = d["eq"] + ((c, val),)
                self.put(st, d)

    # -- sorting loops: links (a -> b)
    def close_sort(self, st, d):
        p = d["pend"]
        ss = [e for e in p if e[0] == "S"]
        ii = [e for e in p if e[0] == "I"]
        if len(ss) == 1 and len(ii) == 1 and ss[0][1] is ii[0][2] and ss[0][2] is ii[0][1]:
            d["pend"] = ()
            a, b = ss[0][1], ss[0][2]
            ch = d["chain"]
            if ch == "sat":
                return
            if not clean(a) or not clean(b):
                d["chain"] = "sat"
                return
            if ch is None:
                ch = (a, a, 0)
            x0, last_, n = ch
            if not clean(x0) or not clean(last_):
                d["chain"] = "sat"
                return
            if last_ is not a:
                self.flag(d, ("broken", "link starts at %s instead of the previous dart %s" % (show(a), show(last_)), ss[0][3]))
                d["chain"] = "sat"
                return
            i0, i1 = idx(last_), idx(b)
            if b is not x0 and i0 is not None and i1 is not None and i1 - i0 != 1:
                self.flag(d, ("broken", "link skips from %s to %s" % (show(last_), show(b)), ss[0][3]))
                d["chain"] = "sat"
            elif b is x0:
                d["chain"] = None
            elif n >= 2:
                d["chain"] = "sat"
            else:
                d["chain"] = (x0, b, n + 1)

    def flag(self, d, ev):
        if ev not in d["log"]:
            d["log"] = d["log"] + (ev,)

    def on_loop_head(self, eng, st, ctx, block):
        pass

    # -- groups
    def rewriter(self, d, vs, vi, prev=True):
        memo = {}
        rules = {}
        for c, val in d["eq"]:
            if c.op == "==" and val:
                a, b = canon(c.args[0], vs, vi, memo), canon(c.args[1], vs, vi, memo)
                if a is b:
                    continue
                # rewrite the larger to the smaller
                big, small = (a, b) if depth(a) > depth(b) else (b, a)
                if big.op in ("S", "I"):
                    rules[big] = small
                    # S(x)=y  =>  I(y)=x
                    o = "I" if big.op == "S" else "S"
                    rules.setdefault(T(o, small, big.args[1]), big.args[0])

        facts = dict(rules)
        for k, v in d["prev"] if prev else ():
            # links made by the previous group
            k, v = norm(canon(k, vs, vi, memo), facts), norm(canon(v, vs, vi, memo), facts)
            rules[T("S", k, "cur")] = v
            rules[T("I", v, "cur")] = k

        def rw(t, k=0):
            t = canon(t, vs, vi, memo)
            return norm(t, rules)
        return rw, rules

    def close(self, eng, st, d):
        p = d["pend"]
        vs, vi = p[0][1], p[0][2]
        sw, iw, where = {}, {}, {}
        rw, rules = self.rewriter(d, vs, vi)
        for e in p[1:]:
            k, v = rw(e[1]), rw(e[2])
            (sw if e[0] == "S" else iw)[k] = v
        if len(sw) != len(iw):
            return
        for k, v in sw.items():
            if iw.get(v) is not k:
                return
        news = set()
        for e in d["log"]:
            if e[0] == "push" and e[1] == "E":
                o = e[3]
                l = rw(eng.load(st, T("fld", deref(o), "GeoMap::Edge::label_")))
                news |= {l, neg(l)}
        A, B = set(sw), set(sw.values())
        # a dart taken out of its orbit by an earlier group may be linked again
        free = {rw(e[1]): e for e in d["log"] if e[0] == "D" and not any(x.op in ("S", "I") for x in subterms(e[1]))}
        again = {x for x in free if x in A and x in B}
        news |= again

        def sig(x):
            return norm(mkSI("S", x, "cur"), rules)

        old = {sig(a) for a in A if a not in news}
        D = old - B
        sD = {sig(x) for x in D}
        N = news & (A | B)
        ok = B == (((old | sD) - D) | N)
        if not ok:
            return
        d["pend"] = ()
        raw = {}
        for e in p[1:]:
            if e[0] == "S":
                raw[rw(e[1])] = (e[1], e[2])
        keep = []
        if A <= news - again:
            # only new darts were linked: what is known about the others stays true
            keep = [kv for kv in d["prev"] if rw(kv[0]) not in A]
            for c, val in d["eq"]:
                for t, o in (c.args, c.args[::-1]) if c.op == "==" and val else ():
                    if direct(t) and t.args[0].args[0].args[1] == SIGMA and (t.args[1] if len(t.args) > 1 else None) is vs:
                        keep.append((t.args[0].args[1], o))
        d["prev"] = tuple(raw.values()) + tuple(keep)
        if again:
            d["log"] = tuple(e for e in d["log"] if e not in [free[x] for x in again])
        for x in sorted(D, key=lambda t: t.id):
            self.flag(d, ("D", x, sig(x), p[-1][3]))
        if any(a in news for a in A):
            self.flag(d, ("N", tuple(sorted(N, key=lambda t: t.id)), p[-1][3]))
        if not D and len(A) == 1 and A == B:
            self.flag(d, ("fix", next(iter(A)), p[-1][3]))
        self.flag(d, ("grp", p[-1][3]))


class CtorRec(C):
    kinds = frozenset({"sigma"})

    def rec(self, st, ctx, ins, kind, *args):
        if kind == "sigma":
            super().rec(st, ctx, ins, kind, *args)

    def on_assume(self, eng, st, ctx, cond, val):
        pass


def resizers(prog, eng):
    """functions that replace the storage of the tables but link no darts"""
    r = prog.__dict__.get("_resizers")
    if r is None:
        r = set()
        for f in prog.fns.values():
            m = eng.modset(f)
            if (SIGARR in m or INVARR in m) and ("elt", SIGMA) not in m and ("elt", INV) not in m \
                    and f.cls == "GeoMap" and f.name not in OPS and f.name not in SORT and f.kind not in ("ctor", "dtor"):
                r.add(f.id)
        prog._resizers = r
    return r


def idx(t):
    """constant index of the array element a term was read from"""
    while isinstance(t, Term):
        if t.op == "elt":
            return t.args[1].args[0] if isc(t.args[1]) else None
        if t.op == "ld" or t.op == "fld" or t.op == "fieldof":
            t = t.args[0] if t.op != "fieldof" else t.args[1]
            continue
        return None
    return None


_depth = {}


def depth(t):
    r = _depth.get(t)
    if r is None:
        r = _depth[t] = 1 + max([depth(a) for a in t.args if isinstance(a, Term)] or [0])
    return r


def norm(t, rules):
    for _ in range(6):
        n = norm1(t, rules)
        if n is t:
            return t
        t = n
    return t


def norm1(t, rules):
    if t in rules:
        return rules[t]
    if t.op in ("S", "I"):
        x = norm1(t.args[0], rules)
        if x is not t.args[0]:
            return mkSI(t.op, x, t.args[1])
        return t
    if t.op in ("neg", "u-", "*") and any(isinstance(a, Term) for a in t.args):
        na = tuple(norm1(a, rules) if isinstance(a, Term) else a for a in t.args)
        if na != t.args:
            return T(t.op, *na)
    return t


def run(prog, rep, tier):
    import time
    n = 0
    for op in OPS + sorted(SORT):
        fs = prog.byname.get(op, [])
        if not fs:
            raise AnalysisBroken("%s not found" % op)
        for f in fs:
            c = C(prog, op in SORT)
            t0 = time.time()
            e = run_engine(prog, c, f, rep)
            if DEBUG:
                print(op, e.steps, len(c.exits), time.time() - t0)
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind != "return":
                    continue
                d = dict(cl)
                check_exit(c, e, rep, op, f, d, st)
                n += 1
    bulk(prog, rep)
    if n < 20:
        raise AnalysisBroken("only %d exits" % n)
    rep.need("orbit", 8)
    rep.need("mirror", 8)


def check_exit(c, e, rep, op, f, d, st):
    tr = "; ".join("%s[%s]=%s@%s" % (x[0], show(x[1])[-60:], show(x[2])[-60:], x[3].split(":")[-1]) for x in d["pend"][1:])
    if d["pend"]:
        ss = {(canon(x[1], 0, 0), canon(x[2], 0, 0)) for x in d["pend"][1:] if x[0] == "S"}
        ii = {(canon(x[2], 0, 0), canon(x[1], 0, 0)) for x in d["pend"][1:] if x[0] == "I"}
        if ss != ii:
            rep.bad("mirror", op, "successor and predecessor tables are not changed as mirror images", d["pend"][-1][3], tr)
        else:
            rep.bad("orbit", op, "changes of the dart order drop or duplicate a dart", d["pend"][-1][3], tr)
        return
    for x in d["log"]:
        if x[0] == "broken":
            rep.bad("chain", op, x[1], x[-1])
    if op in SORT:
        if d["chain"] not in (None, "sat") and clean(d["chain"][0]) and clean(d["chain"][1]):
            rep.bad("chain", op, "the cycle of darts around a node is not closed", f.short(), show(d["chain"][1]))
        else:
            rep.ok("chain", op)
            rep.ok("mirror", op)
        return
    rep.ok("mirror", op)
    D = [x for x in d["log"] if x[0] == "D"]
    gone = [x for x in d["log"] if x[0] == "mapnull" and x[1] == "E"]
    goneN = [x for x in d["log"] if x[0] == "mapnull" and x[1] == "N"]
    anch = [x for x in d["log"] if x[0] == "anchor"]
    if D and not gone:
        rep.bad("orbit", op, "a dart is taken out of its orbit although its edge stays", D[0][-1], show(D[0][1]))
    elif gone:
        # the removed edge's label: the table index used to reset its slot
        labs = set()
        for x in gone:
            o = x[2]
            labs |= edge_labels(o)
        rw, _ = c.rewriter(d, None, None, False)
        labs = {absn(l) for l in labs} | {absn(rw(l)) for l in labs}
        have = {absn(x[1]) for x in D}
        if labs and not have <= labs:
            rep.bad("orbit", op, "the detached darts are not those of the removed edge", D[0][-1],
                    "%s vs %s" % ([show(h) for h in have], [show(l) for l in labs]))
        elif not D:
            rep.bad("removed", op, "an edge is removed without detaching its darts", gone[0][-1])
        else:
            # both ends
            ds = {x[1] for x in D}
            facts = {(a, v) for a, v in d["eq"]}
            one = [x for x in ds if neg(x) not in ds]
            if one and not fixpoint(d, neg(one[0])):
                rep.bad("removed", op, "only one of the two darts of a removed edge is detached", gone[0][-1], show(one[0]))
            else:
                rep.ok("removed", op)
                rep.ok("orbit", op)
    else:
        rep.ok("orbit", op)
    # anchors
    loose = []
    rw, _ = c.rewriter(d, None, None, False)
    for x in D:
        dd = x[1]
        if not any(c_.op == "==" and not v and any(same(a, dd) or same(rw(a), dd) for a in c_.args) and any(anchor_read(a) for a in c_.args)
                   for c_, v in d["eq"]):
            loose.append(x)
    moved = {(a[2], a[-1]) for a in anch if not any(same(a[3], x[1]) for x in D)}
    if len(loose) > len(moved) + len(goneN):
        rep.bad("anchor", op, "a node may keep a detached dart as its anchor", loose[0][-1], show(loose[0][1]))
    elif D:
        rep.ok("anchor", op)
    if op == "GeoMap::splitEdge" and any(x[0] == "grp" for x in d["log"]):
        split_ends(e, rep, op, d, st)
    if op == "GeoMap::mergeEdges" and gone:
        merge_ends(e, rep, op, d, st)


def strip(t, memo=None):
    """forget read versions"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = t
    if t.op == "ld":
        r = T("ld", strip_loc(t.args[0], memo))
    elif t.op in ("S", "I"):
        r = T(t.op, strip(t.args[0], memo))
    elif any(isinstance(a, Term) for a in t.args):
        na = tuple(strip(a, memo) if isinstance(a, Term) else a for a in t.args)
        r = T(t.op, *na)
    memo[t] = r
    return r


def strip_loc(l, memo):
    if any(isinstance(a, Term) for a in l.args):
        return T(l.op, *[strip(a, memo) if isinstance(a, Term) else a for a in l.args])
    return l


def same(a, b):
    return strip(a) is strip(b) or strip(canon(a, 0, 0)) is strip(b)


def absn(t):
    n = neg(t)
    return min(strip(t), strip(n), key=lambda x: x.id)


def edge_labels(o):
    """dart labels (up to sign) denoted by the location of a removed edge"""
    out = set()
    t = o
    if t.op == "obj":
        t = t.args[0]
    if t.op == "ld" and t.args[0].op == "elt":
        i = t.args[0].args[1]
        if i.op in ("abs", "f") and i.args and isinstance(i.args[-1], Term):
            i = i.args[-1]
        out.add(canon(i, 0, 0))
        out.add(i)
    return out


def fixpoint(d, x):
    return any(c.op == "==" and v and mentions(c, (SIGMA, INV)) for c, v in d["eq"])


def split_ends(e, rep, op, d, st):
    newE = [x[3] for x in d["log"] if x[0] == "push" and x[1] == "E"]
    newN = [x[3] for x in d["log"] if x[0] == "push" and x[1] == "N"]
    if len(newE) != 1 or len(newN) != 1:
        return
    eo, no = deref(newE[0]), deref(newN[0])
    el = e.load(st, T("fld", eo, "GeoMap::Edge::label_"))
    nl = e.load(st, T("fld", no, "GeoMap::Node::label_"))
    a = e.load(st, T("fld", no, ANCH))
    es = e.load(st, T("fld", eo, "GeoMap::Edge::startNodeLabel_"))
    ee = e.load(st, T("fld", eo, "GeoMap::Edge::endNodeLabel_"))
    old = [x for x in d["log"] if x[0] == "nlabel" and x[2] is not eo]
    if es is not nl and ee is not nl:
        rep.bad("ends", op, "the new edge does not end in the new node", "", show(es))
    else:
        rep.ok("ends", op)
    upd = [x for x in old if x[3] is nl]
    if not upd:
        rep.bad("ends", op, "the split edge does not end in the new node", "")
    else:
        want = "endNodeLabel_" if es is nl else "startNodeLabel_"
        if upd[-1][1] != want:
            rep.bad("ends", op, "the split edge's %s is set instead of %s" % (upd[-1][1], want), upd[-1][-1])
        else:
            rep.ok("ends", op)
    if isc(a) and a.args[0] == 0:
        rep.bad("anchor", op, "the new node gets no anchor", "")
    else:
        rep.ok("anchor", op)
    # the node at the old end
    fa = [(c, v) for c, v in d["eq"] if any(mentions(x, (ANCH,)) for x in c.args if isinstance(x, Term))]
    other = [x for x in d["log"] if x[0] == "anchor" and x[2] is not no]
    ok = any(c.op == "==" and not v for c, v in fa) or any(same(x[3], neg(el)) or x[3] is el or x[3] is neg(el) for x in other)
    if not ok:
        rep.bad("anchor", op, "the node at the old end may keep the moved dart as its anchor", "")
    else:
        rep.ok("anchor", op)


def merge_ends(e, rep, op, d, st):
    nl = [x for x in d["log"] if x[0] == "nlabel"]
    if len(nl) != 1:
        rep.bad("ends", op, "the surviving edge gets %d new end labels" % len(nl), nl[-1][-1] if nl else "")
        return
    which = nl[0][1]
    so = nl[0][2]
    for c, v in d["eq"]:
        if c.op != "==":
            continue
        for a in c.args:
            if a.op == "ld" and a.args[0].op == "fld" and a.args[0].args[0] is so:
                nm = last(a.args[0].args[1])
                if nm not in ("startNodeLabel_", "endNodeLabel_"):
                    continue
                want = nm if v else ("endNodeLabel_" if nm == "startNodeLabel_" else "startNodeLabel_")
                if which != want:
                    rep.bad("ends", op, "the end of the surviving edge away from the removed node is relabelled", nl[0][-1])
                    return
    rep.ok("ends", op)


def norm_arrays(t, memo=None):
    """identify the two tables with each other"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    m = {INV: SIGMA, INVARR: SIGARR}
    r = t
    if t.op == "ld":
        r = T("ld", norm_arrays(t.args[0], memo))
    elif t.op == "iter":
        r = T("iter", t.args[0], norm_arrays(t.args[1], memo) if isinstance(t.args[1], Term) and t.args[1].op == "fld" else T("base"))
    elif t.op in ("out", "w"):
        r = T("any")
    elif t.op == "var":
        r = T("anyvar")
    elif t.op in ("mk",):
        r = T("mk", *[norm_arrays(a, memo) if isinstance(a, Term) else a for a in t.args[:2]])
    else:
        na = tuple(norm_arrays(a, memo) if isinstance(a, Term) else m.get(a, a) if isinstance(a, str) else a for a in t.args)
        if t.op == "+":
            r = T(t.op, *sorted(na, key=lambda x: x.id))
        else:
            r = T(t.op, *na)
    memo[t] = r
    return r


def which(vals):
    s = [v for v in vals if isinstance(v, Term) and mentions(v, (SIGMA, SIGARR))]
    i = [v for v in vals if isinstance(v, Term) and mentions(v, (INV, INVARR))]
    return len(s), len(i)


def bulk(prog, rep):
    """functions that treat the tables as a whole"""
    rs = resizers(prog, Engine(prog, Client()))
    for f in [prog.fns[i] for i in sorted(rs)] + prog.byname.get("GeoMap::setSigmaMapping", []):
            name = f.name
            c = C(prog)
            c.close = lambda *a: None
            if f.id in rs:
                c.keeps_content = lambda *a: False
            e = run_engine(prog, c, f, rep)
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind != "return":
                    continue
                d = dict(cl)
                if f.id in rs:
                    resize_rule(rep, name, d)
                else:
                    load_rule(prog, rep, name, d, e)
    for f in prog.fns.values():
        if f.name == "GeoMap::GeoMap" and any(x["o"] == "init" and x.get("f") == SIGARR for x in f.ins.values()):
            fl = {x.get("f") for x in f.ins.values() if x["o"] == "init"}
            for a, b in ((SIGARR, INVARR), (SIGMA, INV)):
                if (a in fl) != (b in fl):
                    rep.bad("bulk", f.name, "constructor sets up only one of the two tables", f.short())
                else:
                    rep.ok("bulk", f.short())
            c = CtorRec(prog)
            e = run_engine(prog, c, f, rep)
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind == "return":
                    resize_rule(rep, f.name, dict(cl), ctor=True)


def resize_rule(rep, name, d, ctor=False):
    # last value of each of the four members and the copies made
    fin = {}
    for x in d["log"]:
        if x[0] == "sigma":
            fin[x[1]] = (x[3], x[-1])
    algo = [x for x in d["log"] if x[0] == "algo"]
    cs = [x for x in algo if which(x[2:-1])[0] and (not which(x[2:-1])[1] or "sigmaMappingArray_" in show(x[2]) and "nverse" not in show(x[2]))]
    ci = [x for x in algo if x not in cs]
    ok = True
    for a, b in (("sigmaMappingArray_", "sigmaInverseMappingArray_"), ("sigmaMapping_", "sigmaInverseMapping_")):
        if (a in fin) != (b in fin):
            rep.bad("bulk", name, "only one of %s and %s is replaced" % (a, b), (fin.get(a) or fin.get(b))[1])
            ok = False
        elif a in fin:
            x, y = norm_arrays(fin[a][0]), norm_arrays(fin[b][0])
            if x is not y and simple(x) and simple(y):
                rep.bad("bulk", name, "%s and %s are set up differently" % (a, b), fin[b][1], "%s / %s" % (show(fin[a][0]), show(fin[b][0])))
                ok = False
    if len(cs) != len(ci):
        rep.bad("bulk", name, "the two tables are not copied alike", (cs or ci)[-1][-1])
        ok = False
    else:
        for x, y in zip(cs, ci):
            for u, v in zip(x[2:-1], y[2:-1]):
                if isinstance(u, Term) and isinstance(v, Term) and norm_arrays(u) is not norm_arrays(v) \
                        and simple(norm_arrays(u)) and simple(norm_arrays(v)):
                    rep.bad("bulk", name, "the two tables are copied to different places", y[-1],
                            "%s / %s" % (show(u), show(v)))
                    ok = False
    if ok:
        rep.ok("bulk", name)


def simple(t):
    return not any(x.op in ("phi", "r", "x", "uninit") for x in subterms(t))


def load_rule(prog, rep, name, d, e):
    algo = [x for x in d["log"] if x[0] == "algo"]
    wr = d["pend"][1:]
    ss = [x for x in wr if x[0] == "S"]
    ii = [x for x in wr if x[0] == "I"]
    into = [x for x in algo if mentions(x[-2], (SIGMA, SIGARR)) and x[1] == "copy"]
    if not wr:
        return           # path with no edges
    if ss and not into:
        return
    pairs = set()
    bad = None
    for x in ii:
        k = canon(x[1], None, None)
        v = x[2]
        if k.op == "S":
            if strip(k.args[0]) is not strip(v):
                bad = (x, "predecessor of successor(%s) is set to %s" % (show(k.args[0])[-40:], show(v)[-40:]))
            pairs.add(strip(v))
        else:
            pairs.add(strip(v))
    pairs = {p for p in pairs if clean(p) and len(ii) <= 4}
    if bad:
        rep.bad("mirror", name, "predecessor entry does not name the dart it was derived from", bad[0][3], bad[1])
    else:
        rep.ok("mirror", name)
    for p in list(pairs):
        if strip(neg(p)) not in pairs:
            rep.bad("bulk", name, "predecessors are rebuilt for one direction of the edges only", ii[0][3], show(p)[-60:])
            return
    rep.ok("bulk", name)
