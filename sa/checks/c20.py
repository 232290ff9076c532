"""C20: pixel accesses of the rasterisation code stay inside the image."""
from ..core import *

TITLE = "rasterisation touches only pixels inside the image"
GROUPS = ["geomap", "python_bindings"]
EXPLANATION = ("Order-constraint dataflow (a zone analysis restricted to <= and <): along every path of the drawing, filling, "
               "marking and un-marking functions, with helpers inlined, the analysis keeps which integer variables are "
               "known to be at least 0 / below the image extent, and the distance between a moving pixel iterator and the "
               "column and row counters it runs along with; at every pixel access both coordinates have to be bounded on "
               "both sides by the extent of the matching axis, or the access has to be dominated by a successful inside "
               "test of that position.")
RULES = {"pixel": "pixel coordinates are bounded by 0 and the image extent in both axes",
         "iterator": "pixel iterators stand at the (bounded) column and row counters when they are written through",
         "rows": "only existing scan lines are read",
         "guard": "label lookups at computed positions happen only after an inside test of that position",
         "clip": "image regions are clipped to the image before they are traversed"}
RASTER = {"vigra::fillScannedPoly", "vigra::drawScannedPoly", "markEdgeInLabelImage", "removeEdgeFromLabelImage",
          "rawAddEdgeToLabelImage"}
GUARD = {"drawLabelImage", "GeoMap::Face::contains", "GeoMap::faceAt", "GeoMap::embedFaces"}
CLIP = {"FaceColorStatistics::rescanFace"}
IMG = ("MultiArray", "NumpyArray", "BasicImage<", "BasicImage ")
SEGB, SEGE = "vigra::ScanlineSegment::begin", "vigra::ScanlineSegment::end"
CAP = 4


def lin(t, k=1, out=None):
    """linear form: {term: coefficient}, constants under None"""
    if out is None:
        out = {}
    if isc(t):
        out[None] = out.get(None, 0) + k * int(t.args[0])
    elif t.op == "+":
        for a in t.args:
            lin(a, k, out)
    elif t.op == "neg":
        lin(t.args[0], -k, out)
    else:
        out[t] = out.get(t, 0) + k
    return {a: c for a, c in out.items() if c}


def ladd(a, b, k=1):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) + k * c
    return {t: c for t, c in r.items() if c}


def lconst(a):
    """the constant a linear form stands for, None if it is not one"""
    if not a:
        return 0
    return a[None] if len(a) == 1 and None in a else None


def freeze(a):
    return tuple(sorted(((t if t is not None else ZERO, T("k"), C(c)) if t is not None else (ZERO, T("kc"), C(c))
                         for t, c in a.items()), key=lambda x: (x[0].id, x[1].id)))


def thaw(x):
    return {(None if tag.op == "kc" else t): c.args[0] for t, tag, c in x}


def dim(t):
    """0 / 1: the axis whose extent t is"""
    if t.op == "m" and t.args[0] in ("size", "shape") and len(t.args) == 3 and isc(t.args[2]):
        return int(t.args[2].args[0])
    if t.op == "m" and t.args[0] in ("width", "height"):
        return 0 if t.args[0] == "width" else 1
    if t.op == "m" and t.args[0] in ("operator[]", "at") and len(t.args) == 3 and isc(t.args[2]):
        return int(t.args[2].args[0])
    if t.op == "ld" and t.args[0].op == "elt" and isc(t.args[0].args[1]) and t.args[0].args[1].args[0] in (0, 1):
        if any(x.op == "fld" and x.args[1].startswith("vigra::Scan") for x in subterms(t)):
            return None
        return int(t.args[0].args[1].args[0])
    if t.op == "elt" and isc(t.args[1]) and t.args[1].args[0] in (0, 1):
        return int(t.args[1].args[0])
    if t.op in ("ld", "fld") and str(t).split(".")[-1].split("::")[-1] in ("x", "y") and ("ds" in str(t) or "ize" in str(t)):
        return 0 if str(t).endswith("x") else 1
    return None


def is_start(t):
    return t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1].endswith("Scanlines::startIndex_")


def is_lineend(t):
    l = lin(t)
    return len(l) == 2 and all(c == 1 for c in l.values()) and any(x is not None and is_start(x) for x in l) \
        and any(x is not None and x.op == "m" and x.args[0] == "size" for x in l)


def canon(t):
    """extents of an image do not depend on its contents"""
    if t.op == "m" and len(t.args) > 1 and isinstance(t.args[1], Term) and t.args[1].op == "ld" and len(t.args[1].args) > 1 \
            and t.args[0] in ("size", "shape", "width", "height") and dim(t) is not None:
        return T(t.op, t.args[0], T("ld", t.args[1].args[0]), *t.args[2:])
    return t


def symbol(t):
    if t.phis:
        return False
    return dim(t) is not None or is_start(t) or is_lineend(t)


class Z(Recorder):
    """cl: (constraints, offsets, flags)
    constraints: frozenset of (a, b, k): a - b <= k, k in {0,-1}; a, b locations or symbols (ZERO included)
    offsets: frozenset of (iterator loc, counter loc, linear form) - iterator position minus counter
    flags: frozenset of ("seen"|"row", iterator loc)"""
    fields = frozenset()

    def __init__(self, prog, raster):
        self.raster = raster
        self.bad = {}
        self.good = {}
        self.scopes = {}
        self.lins = {}
        self.helper = {}
        self.rowbase = set()
        super().__init__(prog)

    def start(self, eng):
        return (frozenset(), frozenset(), frozenset())

    def inline(self, eng, fn, ctx, ins):
        if fn.file.startswith(REPO) and self.touches(fn):
            return True
        if fn.name.startswith("vigra::Scanlines::") or fn.name.startswith("vigra::detail"):
            return None
        return super().inline(eng, fn, ctx, ins)

    def touches(self, fn, depth=4):
        """helpers that take part in the rasterisation are analysed in their callers"""
        if not self.raster:
            return fn.name.endswith("intVPos")
        if fn.name in RASTER:
            return True
        k = self.helper.get(fn.id)
        if k is None:
            ps = [self.prog.tstr(fn.vars[v]["t"]) for v in fn.params]
            k = any(p.split()[-1] in ("&", "*") and ("int" in p or "long" in p) for p in ps) or \
                any(x in p for p in ps for x in IMG + ("Scanline", "MultiIterator"))
            self.helper[fn.id] = k
        return k and fn.cls == ""

    # ---------------------------------------------------------------- constraints
    @staticmethod
    def close(cs):
        d = {}
        for a, b, k in cs:
            if a is b:
                continue
            kk = d.get((a, b))
            if kk is None or k < kk:
                d[a, b] = k
        syms = {x for a, b in d for x in (a, b)}
        for s in syms:
            if s.op not in ("var", "c") and nonneg(s) and d.get((ZERO, s), 1) > 0:
                d[ZERO, s] = 0
        todo = True
        while todo:
            todo = False
            for (a, b), k in list(d.items()):
                for (b2, c), k2 in list(d.items()):
                    if b2 is b and c is a and k + k2 < 0:
                        return None
                    if b2 is b and c is not a:
                        n = max(k + k2, -1)
                        o = d.get((a, c))
                        if o is None or n < o:
                            d[a, c] = n
                            todo = True
        return frozenset((a, b, k) for (a, b), k in d.items() if a.op == "var" or b.op == "var")

    joins = True

    def key(self, eng, st, ctx):
        return st.cl == "dead"

    def join(self, eng, x, y):
        if x == "dead" or y == "dead":
            return y if x == "dead" else x
        dy = {(a, b): k for a, b, k in self.full(y[0], x[0])}
        cs = frozenset((a, b, max(k, dy[a, b])) for a, b, k in self.full(x[0], y[0]) if (a, b) in dy)
        fx, fy = x[2], y[2]
        fl = (fx & fy) | {f for f in fx | fy if f[0] in ("seen", "rowbad")}
        return (cs, x[1] & y[1], fl)

    def full(self, cs, other):
        """closure that also mentions the symbols of the other side"""
        syms = {s for c in other for s in c[:2] if s.op not in ("var", "c")}
        syms -= {s for c in cs for s in c[:2]}
        if not syms:
            return cs
        r = self.close(list(cs) + [(ZERO, s, 0) for s in syms if nonneg(s)])
        return r if r is not None else cs

    def locs(self, st, t):
        """locations that hold t at present"""
        return [l for l, v in st.store.items() if l.op == "var" and v is t]

    def nodes(self, eng, st, t):
        """(node, offset) pairs with t = node + offset"""
        if isc(t):
            return [(ZERO, int(t.args[0]))] + [(l, 0) for l in self.locs(st, t)]
        out = []
        lt = lin(t)
        base = frozenset((x, c) for x, c in lt.items() if x is not None)
        k = lt.get(None, 0)
        for l, v in st.store.items():
            if l.op == "var":
                if v is t:
                    out.append((l, 0))
                elif base and not isc(v):
                    lv = self.lins.get(v)
                    if lv is None:
                        x = lin(v)
                        lv = self.lins[v] = (frozenset((y, c) for y, c in x.items() if y is not None), x.get(None, 0))
                    if lv[0] == base:
                        out.append((l, k - lv[1]))
        if symbol(canon(t)):
            out.append((canon(t), 0))
        elif k:
            bt = canon(add_all({x: c for x, c in lt.items() if x is not None}))
            if symbol(bt):
                out.append((bt, k))
        return out

    def le(self, eng, st, a, b, k):
        """constraints that follow from a - b <= k"""
        out = []
        if a.op == "f" or a.op == "max" or a.op == "min":
            pass
        m = minmax(a)
        if m and m[0] == "max":
            for x in m[1]:
                out += self.le(eng, st, x, b, k)
        m = minmax(b)
        if m and m[0] == "min":
            for x in m[1]:
                out += self.le(eng, st, a, x, k)
        for na, ka in self.nodes(eng, st, a):
            for nb, kb in self.nodes(eng, st, b):
                # na + ka - nb - kb <= k
                d = k - ka + kb
                if d <= 0 and na is not nb:
                    out.append((na, nb, max(d, -1)))
                if nb is ZERO and d > 0 or na is ZERO and d > 0:
                    pass
        # a segment never ends before it begins
        for x, y, sgn in ((a, SEGE, 1), (b, SEGB, -1)):
            pass
        return out

    def facts_on(self, eng, st, t, depth=0):
        """constraints with a placeholder for the value t"""
        X = T("var", "?", "?")
        cs = st.cl[0]
        out = []
        if isc(t):
            k = int(t.args[0])
            out.append((ZERO, X, max(min(-k, 1), -1)))
            out.append((X, ZERO, max(min(k, 1), -1)))
            for n in self.locs(st, t):
                out += [(X, b, c) for a, b, c in cs if a is n] + [(a, X, c) for a, b, c in cs if b is n]
            return [(a, b, k2) for a, b, k2 in out if k2 <= 0]
        m = minmax(t)
        if m and depth < 3:
            parts = [self.facts_on(eng, st, x, depth + 1) for x in m[1]]
            parts = [set(self.close_x(p)) for p in parts]
            if m[0] == "max":
                ups = [{(b, k) for a, b, k in p if a is X} for p in parts]
                for p in parts:
                    out += [c for c in p if c[1] is X]
            else:
                ups = [{(a, k) for a, b, k in p if b is X} for p in parts]
                for p in parts:
                    out += [c for c in p if c[0] is X]
            n0 = {}
            for u in ups:
                best = {}
                for n, k in u:
                    best[n] = min(k, best.get(n, 1))
                for n, k in best.items():
                    n0.setdefault(n, []).append(k)
            for n, ks in n0.items():
                if len(ks) == len(ups):
                    out.append((X, n, max(ks)) if m[0] == "max" else (n, X, max(ks)))
        for n, k in self.nodes(eng, st, t):
            # t = n + k
            if k <= 0:
                out.append((X, n, max(k, -1)))
            if k >= 0:
                out.append((n, X, max(-k, -1)))
            for a, b, c in cs:
                if a is n:
                    out.append((X, b, c + k))
                if b is n:
                    out.append((a, X, c - k))
        # what is known about the value itself on this path
        for f, v in st.facts.items():
            if f.op == "<" and len(f.args) == 2:
                a, b = f.args
                if a is t or b is t:
                    for p, q, k in ([(a, b, -1)] if v else [(b, a, 0)]):
                        if p is t:
                            for n, kn in self.nodes(eng, st, q):
                                out.append((X, n, k + kn))
                        if q is t:
                            for n, kn in self.nodes(eng, st, p):
                                out.append((n, X, k - kn))
        if t.op == "phi" and depth < 2 and not self.locs(st, t):
            parts = None
            for l in leaves(eng, t):
                p = {}
                for a, b, k in self.close_x(self.facts_on(eng, st, l, depth + 2)):
                    if k <= 0 and (a, b) not in p or p.get((a, b), 1) > k:
                        p[a, b] = k
                parts = p if parts is None else {c: max(k, p[c]) for c, k in parts.items() if c in p}
            for (a, b), k in (parts or {}).items():
                out.append((a, b, k))
        # begin <= end of the same segment
        sib = sibling(t)
        if sib is not None:
            o, isend = sib
            for n, k in self.nodes(eng, st, o):
                if k == 0:
                    out.append((n, X, 0) if isend else (X, n, 0))
                    for a, b, c in cs:
                        if isend and b is n:
                            out.append((a, X, c))
                        if not isend and a is n:
                            out.append((X, b, c))
            for f, v in st.facts.items():
                if f.op == "<" and len(f.args) == 2:
                    a, b = f.args
                    for p, q, k in ([(a, b, -1)] if v else [(b, a, 0)]):
                        if isend and q is o:
                            out += [(n, X, k - kn) for n, kn in self.nodes(eng, st, p)]
                        if not isend and p is o:
                            out += [(X, n, k + kn) for n, kn in self.nodes(eng, st, q)]
        return [(a, b, max(k, -1)) for a, b, k in out if k <= 0]

    def close_x(self, cs):
        r = self.close([(a, b, max(k, -1)) for a, b, k in cs if k <= 0])
        return r if r is not None else frozenset()

    # ---------------------------------------------------------------- events
    def isint(self, ctx, loc):
        return loc.op == "var"

    def setcl(self, st, cs=None, off=None, fl=None):
        a, b, c = st.cl
        st.cl = (a if cs is None else cs, b if off is None else off, c if fl is None else fl)

    def on_write(self, eng, st, ctx, ins, loc, val):
        if st.cl == "dead" or root(loc).op != "var":
            return
        if loc.op != "var":
            if ("in", root(loc)) in st.cl[2]:
                self.setcl(st, None, None, st.cl[2] - {("in", root(loc))})
            return
        old = st.store.get(loc)
        new = val
        if ("in", loc) in st.cl[2]:
            self.setcl(st, None, None, st.cl[2] - {("in", loc)})
        it = self.itval(eng, st, new)
        if it is not None:
            self.set_iter(eng, st, loc, it)
            return
        ads = self.advance(eng, st, loc, old, new)
        if ads:
            return
        X = T("var", "?", "?")
        fx = self.facts_on(eng, st, new)
        cs = [c for c in st.cl[0] if c[0] is not loc and c[1] is not loc]
        cs += [(loc if a is X else a, loc if b is X else b, k) for a, b, k in fx
               if not (a is loc or b is loc)]
        off = set()
        for i, x, d in st.cl[1]:
            if x is loc:
                if old is None:
                    continue
                d = ladd(ladd(thaw(d), lin(old)), lin(new), -1)
                off.add((i, x, freeze(d)))
            else:
                off.add((i, x, d))
        have = {(i, x) for i, x, d in off}
        fl = st.cl[2]
        for tag, i, o in [f for f in fl if f[0] == "abs"]:
            if (i, loc) not in have:
                d = ladd(thaw(o), lin(new), -1)
                if lconst(d) is not None and abs(lconst(d)) <= CAP:
                    off.add((i, loc, freeze(d)))
        cs = self.close(cs)
        self.setcl(st, cs if cs is not None else frozenset(), frozenset(off))

    def on_init(self, eng, st, ctx, ins, loc, val):
        if st.cl == "dead":
            return
        self.forget(st, {loc})
        self.on_write(eng, st, ctx, ins, loc, val)

    def forget(self, st, dead):
        cs, off, fl = st.cl
        st.cl = (frozenset(c for c in cs if c[0] not in dead and c[1] not in dead),
                 frozenset(o for o in off if o[0] not in dead and o[1] not in dead),
                 frozenset(f for f in fl if f[1] not in dead))

    def on_return_from(self, eng, st, ctx, ins, fn, ret):
        if st.cl == "dead":
            return
        live, c = set(), ctx
        while c is not None:
            live.add(c.id)
            c = c.parent
        vs = {x for c in st.cl[0] for x in c[:2]} | {x for o in st.cl[1] for x in o[:2]} | {f[1] for f in st.cl[2]}
        self.forget(st, {v for v in vs if v.op == "var" and v.args[0] not in live})

    def on_assume(self, eng, st, ctx, cond, val):
        if st.cl == "dead":
            return
        out = []
        if cond.op == "<" and len(cond.args) == 2:
            a, b = cond.args
            out = self.le(eng, st, a, b, -1) if val else self.le(eng, st, b, a, 0)
            # the other end of the same segment
            for x, y, k in ([(a, b, -1)] if val else [(b, a, 0)]):
                s = sibling(x)
                if s is not None and s[1]:
                    out += self.le(eng, st, s[0], y, k)
                s = sibling(y)
                if s is not None and not s[1]:
                    out += self.le(eng, st, x, s[0], k)
        elif cond.op == "==" and val and len(cond.args) == 2:
            a, b = cond.args
            out = self.le(eng, st, a, b, 0) + self.le(eng, st, b, a, 0)
        elif not val and cond.op == "phi" or cond.op == "ld" and not val:
            out = self.le(eng, st, cond, ZERO, 0) + self.le(eng, st, ZERO, cond, 0)
        elif val and inside_test(cond) and self.rect_ok(eng, cond):
            self.setcl(st, None, None, st.cl[2] | {("in", l) for l in self.locs(st, cond.args[-1])})
        if out:
            cs = self.close(list(st.cl[0]) + out)
            if cs is None:
                st.cl = "dead"           # contradicts what is known: no such path
            else:
                self.setcl(st, cs)

    def scope(self, eng, fn, head):
        k = (fn.id, head)
        if k not in self.scopes:
            preds = {}
            for b in fn.blocks.values():
                for s in b["succ"]:
                    if s is not None:
                        preds.setdefault(s, []).append(b["b"])
            body, todo = {head}, []
            for p in preds.get(head, ()):
                if fn.order.get(head, 0) <= fn.order.get(p, 0):
                    todo.append(p)
            while todo:
                x = todo.pop()
                if x not in body:
                    body.add(x)
                    todo += preds.get(x, [])
            self.scopes[k] = {e.get("v") for b in body for e in fn.blocks[b]["els"] if e["o"] == "decl"}
        return self.scopes[k]

    def on_loop_head(self, eng, st, ctx, block):
        if st.cl == "dead":
            return
        dead = {eng.varloc(ctx, v) for v in self.scope(eng, ctx.fn, block) if v is not None}
        cs = frozenset((a, b, k) for a, b, k in st.cl[0]
                       if a not in dead and b not in dead)
        off, fl = set(), set()
        for i, x, d in st.cl[1]:
            c = lconst(thaw(d))
            if c is None or abs(c) > CAP or i in dead or x in dead:
                continue
            off.add((i, x, d))
        for f in st.cl[2]:
            if f[0] != "abs" and f[1] not in dead:
                fl.add(f)
        self.setcl(st, cs, frozenset(off), frozenset(fl))

    # ---------------------------------------------------------------- iterators
    def itval(self, eng, st, v):
        """position an iterator value stands for: (kind, base, linear form)"""
        if v.op == "iter" and v.args[0] == "begin":
            return ("begin", v.args[1], {})
        if v.op == "+":
            l = lin(v)
            for t in l:
                if t is not None and l[t] == 1:
                    if t.op == "iter" and t.args[0] == "begin":
                        return ("begin", t.args[1], ladd(l, {t: 1}, -1))
                    if self.isrow(st, t):
                        return ("row", t, ladd(l, {t: 1}, -1))
        if self.isrow(st, v):
            return ("row", v, {})
        return None

    def isrow(self, st, t):
        return t in self.rowbase

    def set_iter(self, eng, st, loc, it):
        kind, base, o = it
        off = {x for x in st.cl[1] if x[0] is not loc}
        fl = {x for x in st.cl[2] if x[1] is not loc}
        fl.add(("abs", loc, freeze(o)))
        fl.add(("seen", loc))
        fl.add(("x" if kind == "begin" else "y", loc))
        if kind == "begin" and base.op == "var":
            if ("y", base) in fl:
                ok = self.counter_ok(st, base, 1)
                fl.add(("rowok" if ok else "rowbad", loc))
        for l, v in st.store.items():
            if l.op == "var":
                d = ladd(o, lin(v), -1)
                c = lconst(d)
                if c is not None and abs(c) <= CAP:
                    off.add((loc, l, freeze(d)))
        self.setcl(st, None, frozenset(off), frozenset(fl))

    def shift(self, st, loc, d):
        off = set()
        for i, x, o in st.cl[1]:
            off.add((i, x, freeze(ladd(thaw(o), d))) if i is loc else (i, x, o))
        fl = set()
        for f in st.cl[2]:
            fl.add((f[0], f[1], freeze(ladd(thaw(f[2]), d))) if f[0] == "abs" and f[1] is loc else f)
        self.setcl(st, None, frozenset(off), frozenset(fl))

    def advance(self, eng, st, loc, old, new):
        if ("seen", loc) not in st.cl[2]:
            return False
        if new.op == "adv":
            self.shift(st, loc, {None: 1 if "++" in str(new.args[1]) else -1})
            return True
        if new.op == "mut":
            return True                 # done in on_mutate
        src = [l for l, v in st.store.items() if l.op == "var" and v is new and l is not loc and ("seen", l) in st.cl[2]]
        off = {x for x in st.cl[1] if x[0] is not loc}
        fl = {f for f in st.cl[2] if f[1] is not loc}
        fl.add(("seen", loc))
        if src:
            off |= {(loc, x, d) for i, x, d in st.cl[1] if i is src[0]}
            fl |= {(f[0], loc) + f[2:] for f in st.cl[2] if f[1] is src[0]}
        self.setcl(st, None, frozenset(off), frozenset(fl))
        return True

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if st.cl == "dead":
            return
        if ("in", root(loc)) in st.cl[2]:
            self.setcl(st, None, None, st.cl[2] - {("in", root(loc))})
        if method in ("operator()", "operator[]", "set", "operator*"):
            self.access(eng, st, ctx, ins, method, loc, args)
            return
        if ("seen", loc) not in st.cl[2]:
            return
        v = [eng.argval(st, a) if a[0] == "L" else a[1] for a in args]
        if method in ("operator+=", "operator-=") and v:
            self.shift(st, loc, lin(v[0], 1 if method == "operator+=" else -1))
        elif method in ("operator++", "operator--"):
            self.shift(st, loc, {None: 1 if method == "operator++" else -1})
        else:
            off = frozenset(x for x in st.cl[1] if x[0] is not loc)
            fl = frozenset(f for f in st.cl[2] if f[1] is not loc)
            self.setcl(st, None, off, fl | {("seen", loc)})

    def bounded(self, cs, n, k, axis):
        lo = any(a is ZERO and b is n and c - k <= 0 for a, b, c in cs)
        hi = any(a is n and dim(b) == axis and b.op != "var" and c + k <= -1 for a, b, c in cs)
        return lo and hi

    def counter_ok(self, st, it, axis):
        for i, x, d in st.cl[1]:
            if i is it:
                c = lconst(thaw(d))
                if c is not None and self.bounded(st.cl[0], x, c, axis):
                    return True
        return False

    # ---------------------------------------------------------------- accesses
    def coord_ok(self, eng, st, t, axis):
        X = T("var", "?", "?")
        cs = self.close_x(self.facts_on(eng, st, t))
        return self.bounded(cs, X, 0, axis)

    def verdict(self, ok, rule, ctx, ins, what):
        if ok:
            self.good[rule, site(ctx, ins)] = ctx.fn
        else:
            self.bad.setdefault((rule, site(ctx, ins)), (ctx.fn, what))

    def pixel(self, eng, st, ctx, ins, img, x, y):
        if self.inside(eng, st, (x, y)):
            self.verdict(True, "guard", ctx, ins, "")
            return
        for t, axis in ((x, 0), (y, 1)):
            if not self.coord_ok(eng, st, t, axis):
                self.verdict(False, "pixel", ctx, ins, "the %s coordinate %s of a pixel access is not kept inside the image" % (
                    "xy"[axis], t))
                return
        self.verdict(True, "pixel", ctx, ins, "")

    def inside(self, eng, st, p):
        """an inside test of this position succeeded on the path"""
        q = p
        if isinstance(p, tuple) and p[0].op == "fieldof" and p[1].op == "fieldof" and p[0].args[1] is p[1].args[1] \
                and p[0].args[0].endswith("x") and p[1].args[0].endswith("y"):
            q = p[0].args[1]
        if not isinstance(q, tuple) and any(("in", l) in st.cl[2] for l in self.locs(st, q)):
            return True
        for f, v in st.facts.items():
            if not v or not inside_test(f):
                continue
            if isinstance(p, tuple):
                a = f.args[-1]
                if a.op == "mk" and len([x for x in a.args if isinstance(x, Term)]) >= 2:
                    l = [x for x in a.args if isinstance(x, Term)][-2:]
                    if l[0] is p[0] and l[1] is p[1]:
                        return True
                if q is a or {base_of(p[0]), base_of(p[1])} == {a}:
                    return self.rect_ok(eng, f)
            elif any(x is p for x in f.args[1:]):
                return self.rect_ok(eng, f)
        return False

    def rect_ok(self, eng, f):
        """a rectangle made from the extents has them in the right order"""
        for t in allsub(eng, f.args[1]):
            if t.op == "mk":
                ds = [dim(x) for x in t.args if isinstance(x, Term)]
                ds = [d for d in ds if d is not None]
                if len(ds) >= 2 and ds[-2:] != [0, 1]:
                    return False
        return True

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if st.cl == "dead" or inlined:
            return
        self.access(eng, st, ctx, ins, f["m"], obj, args)

    def access(self, eng, st, ctx, ins, m, obj, args):
        tyobj = self.prog.ttype(ins["objt"])["s"] if "objt" in ins else ""
        av = [eng.argval(st, a) if a[0] == "L" else a[1] for a in args]
        if m == "operator[]" and obj is not None and obj.op == "fld" and obj.args[1].endswith("Scanlines::scanLines_") and av:
            if self.raster and not ctx.fn.name.startswith("vigra::ScanlinesIter"):
                self.row_access(eng, st, ctx, ins, av[0])
            return
        if any(x in tyobj for x in IMG) and "Iterator" not in tyobj:
            if m == "operator()" and len(av) == 2:
                self.pixel(eng, st, ctx, ins, obj, av[0], av[1])
            elif m == "operator[]" and len(av) == 1:
                p = av[0]
                xy = coords(p)
                if self.inside(eng, st, p) or xy and self.inside(eng, st, xy):
                    self.verdict(True, "guard", ctx, ins, "")
                elif xy:
                    self.pixel(eng, st, ctx, ins, obj, *xy)
                elif not self.raster:
                    self.verdict(False, "guard", ctx, ins,
                                 "the label image is read at a position that was not tested to be inside (%s)" % p)
            return
        if "Accessor" in tyobj and m == "set":
            if len(args) == 3:
                xy = coords(av[2])
                if xy and not self.inside(eng, st, xy) or not xy and not self.inside(eng, st, av[2]):
                    self.verdict(False, "guard", ctx, ins, "a pixel is set at a position that was not tested to be inside")
                else:
                    self.verdict(True, "guard", ctx, ins, "")
            elif len(args) == 2 and args[1][0] == "L":
                self.through(eng, st, ctx, ins, args[1][1])
        if m == "operator*" and obj is not None and self.raster and ("seen", obj) in st.cl[2]:
            self.through(eng, st, ctx, ins, obj)

    def through(self, eng, st, ctx, ins, it):
        if ("x", it) not in st.cl[2]:
            if ("seen", it) in st.cl[2]:
                self.verdict(False, "iterator", ctx, ins, "a pixel is written through an iterator of unknown position")
            return
        if ("rowbad", it) in st.cl[2]:
            self.verdict(False, "iterator", ctx, ins, "a pixel is written in a row that is not known to be inside the image")
        elif not self.counter_ok(st, it, 0):
            self.verdict(False, "iterator", ctx, ins, "a pixel is written through an iterator whose column is not known to be "
                         "inside the image (not in step with a clipped column counter)")
        else:
            self.verdict(True, "iterator", ctx, ins, "")

    def row_access(self, eng, st, ctx, ins, idx):
        """scanlines[y]: startIndex <= y < endIndex"""
        l = lin(idx)
        s = [t for t, c in l.items() if t is not None and c == -1 and is_start(t)]
        if not s:
            return
        y = add_all(ladd(l, {s[0]: 1}))
        X = T("var", "?", "?")
        cs = self.close_x(self.facts_on(eng, st, y))
        lo = any(b is X and is_start(a) for a, b, k in cs)
        hi = any(a is X and b.op != "var" and is_lineend(b) and k <= -1 for a, b, k in cs)
        self.verdict(lo and hi, "rows", ctx, ins, "scan line %s is read, which is not known to exist" % y)


def add_all(l):
    r = ZERO
    for t, c in sorted(l.items(), key=lambda x: x[0].id if x[0] is not None else -1):
        if t is None:
            r = add(r, C(c))
            continue
        for _ in range(abs(c)):
            r = add(r, t if c > 0 else neg(t))
    return r


def nonneg(s):
    return dim(s) is not None


def minmax(t):
    if t.op in ("max", "min"):
        return t.op, [x for x in t.args if isinstance(x, Term)]
    if t.op in ("f", "r"):
        n = [x for x in t.args if isinstance(x, str)]
        n = n[0].split("::")[-1] if n else ""
        if n in ("max", "min"):
            return n, [x for x in t.args if isinstance(x, Term) and x.op not in ("rv", "nv")]
    return None


def sibling(t):
    """(the other bound of the same scan line segment, t is the end)"""
    if t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] in (SEGB, SEGE):
        e = t.args[0].args[1] == SEGE
        return T("ld", T("fld", t.args[0].args[0], SEGB if e else SEGE), *t.args[1:]), e
    return None


def inside_test(f):
    return f.op == "m" and f.args[0] in ("isInside", "contains") and len(f.args) == 3


def base_of(t):
    while t.op in ("fld", "ld", "elt"):
        t = t.args[0]
    return t


def coords(p):
    if p.op == "mk":
        l = [x for x in p.args if isinstance(x, Term) and x.op not in ("rv", "nv")]
        if len(l) == 2:
            return tuple(l)
    return None


class Clip(Recorder):
    def __init__(self, prog):
        self.bad, self.good = {}, 0
        super().__init__(prog)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if f["m"] in ("upperLeft", "lowerRight", "left", "right", "top", "bottom") and obj is not None and not inlined:
            c = eng.load(st, obj)
            s = allsub(eng, c)
            if any(x in str(t.args[0]).split("::")[-1] or x in [str(a).split("::")[-1] for a in t.args if isinstance(a, str)]
                   for t in s if t.op in ("m", "mut", "r", "f") for x in ("operator&", "operator&=")):
                self.good += 1
            else:
                self.bad[site(ctx, ins)] = (ctx.fn, "a region of the image is traversed that was not clipped to the image")


def run(prog, rep, tier):
    for n in sorted(RASTER | GUARD):
        for f in prog.byname.get(n, ()):
            if f.implicit or not f.blocks:
                continue
            if n == "drawLabelImage" or n in GUARD:
                c = Z(prog, False)
            else:
                c = Z(prog, True)
            c.rowbase = rowbases(prog, f)
            rep.engine(run_engine(prog, c, f))
            rules = {}
            for (rule, s), fn in c.good.items():
                if (rule, s) not in c.bad:
                    rep.ok(rule, "%s at %s" % (f.short(), s))
            for (rule, s), (fn, what) in sorted(c.bad.items()):
                rep.bad(rule, fn, what, s)
    for n in sorted(CLIP):
        for f in prog.byname.get(n, ()):
            c = Clip(prog)
            rep.engine(run_engine(prog, c, f))
            for s, (fn, what) in c.bad.items():
                rep.bad("clip", fn, what, s)
            if c.good and not c.bad:
                rep.ok("clip", f.short())
    rep.need("pixel", 3)
    rep.need("guard", 3)


def rowbases(prog, f):
    out = set()
    for v in f.params:
        if "Iterator" in prog.tstr(f.vars[v]["t"]):
            out.add(T("p", f.vars[v]["name"]))
    return out
