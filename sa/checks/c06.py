from fractions import Fraction
from ..core import *
from .c01 import strip

TITLE = "polygon caches never go stale"
GROUPS = ["geomap", "python_bindings"]
TECHNIQUE = ("static analysis: path-sensitive cache-coherence analysis of the polygon classes; incremental updates are "
             "compared with the change of the point list by algebraic normal form")
EXPLANATION = ("Every member function that changes the points of a polygon or edge is analysed on all paths: at each exit "
               "every cache (length, partial area, bounding box) is invalidated, or is known to be invalid already, or was "
               "changed by exactly the amount that the change of the point list implies (normal form of the update "
               "expressions); lazy getters compute over all points before they mark the value valid; swaps, copies and "
               "constructors move value and validity together; code outside the classes that writes points directly "
               "invalidates the caches.")
RULES = {"length": "a valid length is changed by exactly the lengths of the segments added and removed",
         "area": "a valid partial area is changed by exactly the (halved) cross products of the segments added and removed",
         "bbox": "a valid bounding box is extended by the new points and invalidated when a removed point may have defined it",
         "move": "swap, copy and assignment hand over value and validity together with the points",
         "ctor": "a constructor claims validity only for an empty polygon with zero values or for copied values",
         "lazy": "lazy getters compute the value anew over all points before marking it valid",
         "claim": "validity is claimed only together with a computed value",
         "raw": "code outside the polygon classes that writes points directly invalidates the caches",
         "scan": "the cached scan lines of an edge follow concatenation and splitting",
         "all": "invalidateProperties() and clear() leave no cache of the polygon valid"}
PTS = "vigra::PointArray::points_"
P, B, E = "vigra::Polygon::", "vigra::BBoxPolygon::", "GeoMap::Edge::"
CACHE = {"length": (P + "length_", P + "lengthValid_"), "area": (P + "partialArea_", P + "partialAreaValid_"),
         "bbox": (B + "boundingBox_", B + "boundingBoxValid_")}
SCAN = E + "scanLines_"
FLAGS = {v: k for k, (f, v) in CACHE.items()}
VALUES = {f: k for k, (f, v) in CACHE.items()}
GET = {P + "length", P + "partialArea", B + "boundingBox", E + "scanLines", P + "contains", B + "contains",
       P + "nearestPoint", P + "arcLengthList"}
CLS = ("vigra::Polygon", "vigra::BBoxPolygon", "vigra::PointArray")
ACC = {"operator[]", "begin", "end", "rbegin", "rend", "front", "back"}
LEN, AREA = "length", "area"


def fld(o, n):
    return T("fld", o, n)


# ------------------------------------------------------------------ normal forms
def num(t):
    """numeric constant or None"""
    if isc(t):
        return Fraction(t.args[0])
    if t.op == "flt":
        try:
            return Fraction(str(float(t.args[0])))
        except (ValueError, TypeError):
            return None
    return None


def padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + k * c
        if not out[m]:
            del out[m]
    return out


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            out[k] = out.get(k, 0) + c * d
            if not out[k]:
                del out[k]
    return out


def off(t):
    """(base, constant offset) of an index or iterator"""
    k = 0
    while True:
        if t.op == "mk" and len(t.args) == 2 and isinstance(t.args[0], str):
            t = t.args[1]
        elif t.op == "+" and isc(t.args[1]):
            k += t.args[1].args[0]
            t = t.args[0]
        elif t.op == "adv" and t.args[1] in ("operator++", "operator--"):
            k += 1 if t.args[1] == "operator++" else -1
            t = t.args[0]
        else:
            return t, k


def point(l):
    """canonical name of the point stored at l"""
    if l.op == "obj" and l.args[0].op == "m":
        m = l.args[0]
        if m.args[0] in ("back", "front"):
            return ("last" if m.args[0] == "back" else "first", m.args[1])
        if m.args[0] == "deref":
            b, k = off(m.args[1])
            return at(b, k)
    if l.op == "elt":
        f, i = l.args
        if f.op == "fld" and f.args[1] == PTS:
            b, k = off(i)
            if b.op == "m" and b.args[0] == "size":
                if k == -1:
                    return ("last", b.args[1])
                return ("fromend", b.args[1], k)
            if isc(b) and b.args[0] + k == 0:
                return ("first", T("ld", f))
            return ("at", b, k)
        b, k = off(f)
        if b.op == "var":
            b = T("p", b.args[-1])
        if isc(i):
            return at(b, k + i.args[0])
    return ("loc", l)


def at(b, k):
    if b.op == "iter" and len(b.args) == 3:
        if b.args[0] == "begin" and k == 0:
            return ("first", b.args[2])
        if b.args[0] == "end" and k == -1:
            return ("last", b.args[2])
    return ("at", b, k)


def pval(t):
    return point(t.args[0]) if t.op == "ld" else ("val", t)


def pkey(p):
    return tuple(x.id if isinstance(x, Term) else x for x in p)


def atom(t):
    if t.op == "m" and t.args[0] in ("magnitude", "norm") and len(t.args) == 2:
        d = t.args[1]
        if d.op == "f" and d.args[0].endswith("operator-") and len(d.args) == 4:
            return ("seg", frozenset((pkey(pval(d.args[2])), pkey(pval(d.args[3])))))
    if t.op == "f" and last(t.args[0]) == "norm" and t.args[-1].op == "f":
        d = t.args[-1]
        if d.args[0].endswith("operator-") and len(d.args) == 4:
            return ("seg", frozenset((pkey(pval(d.args[2])), pkey(pval(d.args[3])))))
    if t.op == "ld" and t.args[0].op == "elt" and isc(t.args[0].args[1]) and len(t.args) == 1:
        o = t.args[0].args[0]
        if not (o.op == "fld" and o.args[1] == PTS):
            return ("xy", pkey(point(o)), t.args[0].args[1].args[0])
    if t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] in VALUES:
        return ("own", strip(t).id)
    if t.op == "r" and len(t.args) >= 4 and t.args[2] in (P + "length", P + "partialArea"):
        return ("call", last(t.args[2]), ptr(t.args[3]).id)
    return ("t", t.id)


def ptr(t):
    t = strip(t)
    return t.args[0] if t.op == "obj" else t


def poly(t, depth=0):
    n = num(t)
    if n is not None:
        return {(): n} if n else {}
    if t.op == "+":
        out = {}
        for a in t.args:
            out = padd(out, poly(a, depth + 1))
        return out
    if t.op == "neg":
        return padd({}, poly(t.args[0]), -1)
    if t.op == "*" and depth < 40:
        return pmul(poly(t.args[0], depth + 1), poly(t.args[1], depth + 1))
    if t.op == "/" and num(t.args[1]):
        return pmul(poly(t.args[0], depth + 1), {(): 1 / num(t.args[1])})
    if t.op in ("cast", "todouble", "tofloat") and isinstance(t.args[-1], Term):
        return poly(t.args[-1], depth + 1)
    return {(atom(t),): Fraction(1)}


def seg(a, b):
    """length of the segment between two points"""
    if pkey(a) == pkey(b):
        return {}
    return {(("seg", frozenset((pkey(a), pkey(b)))),): Fraction(1)}


def cross(a, b):
    """signed area contribution of the segment a -> b"""
    x = lambda p, k: ("xy", pkey(p), k)
    h = Fraction(1, 2)
    mono = lambda u, v: tuple(sorted((u, v), key=repr))
    return padd({mono(x(b, 0), x(a, 1)): h}, {mono(x(b, 1), x(a, 0)): -h})


def both(a, b, k=1):
    """expected (length, area) contribution of the segment a -> b"""
    return {LEN: padd({}, seg(a, b), k), AREA: padd({}, cross(a, b), k)}


def plus(*ds):
    out = {LEN: {}, AREA: {}}
    for d in ds:
        for k in out:
            out[k] = padd(out[k], d[k])
    return out


NONE = {LEN: {}, AREA: {}}


# ------------------------------------------------------------------ path recorder
class Rec(Recorder):
    """state: (facts, events)"""
    def __init__(self, prog):
        super().__init__(prog)

    def start(self, eng):
        return (frozenset(), ())

    def inline(self, eng, fn, ctx, ins):
        if fn.name in GET:
            return False
        if fn.cls in CLS or fn.cls == "GeoMap::Edge":
            return not eng.fninfo(fn)["loops"] or None
        return super().inline(eng, fn, ctx, ins)

    def ev(self, st, ctx, ins, *a):
        f, e = st.cl
        s = site(ctx, ins)
        if sum(x[-1] == s for x in e) < 3:
            st.cl = (f, e + (a + (s,),))

    def on_assume(self, eng, st, ctx, cond, val):
        f, e = st.cl
        while cond.op == "!":
            cond, val = cond.args[0], not val
        if len(f) < 40 and not any(x[0] == "pts" for x in e):
            side = self.side(eng, st, cond, val)
            f = f | {(cond, bool(val))}
            if side:
                f = f | {side}
            st.cl = (f, e)
        elif any(x.op == "fld" and (x.args[1] in FLAGS or x.args[1] == SCAN) for x in allsub(eng, cond)) or \
                cond.op in ("p",):
            st.cl = (f | {(cond, bool(val))}, e)

    def side(self, eng, st, cond, val):
        """('off', point, axis, which): the point is not on that side of the box; ('in', new, old, axis, 'lt')"""
        if cond.op not in ("==", "<"):
            return None
        a, b = cond.args
        def coord(t):
            if t.op == "ld" and t.args[0].op == "elt" and isc(t.args[0].args[1]):
                return t.args[0].args[0], t.args[0].args[1].args[0]
        ca, cb = coord(a), coord(b)
        if not ca or not cb or ca[1] != cb[1]:
            return None
        wa, wb = self.corner(eng, st, ca[0]), self.corner(eng, st, cb[0])
        k = ca[1]
        if cond.op == "==" and not val:
            if wa and not wb:
                return ("off", pkey(point(cb[0])), k, wa)
            if wb and not wa:
                return ("off", pkey(point(ca[0])), k, wb)
        if cond.op == "<" and wa is None and wb is None and not val:
            return ("nlt", pkey(point(ca[0])), pkey(point(cb[0])), k)     # not a < b
        if cond.op == "<" and wa is None and wb is None:
            return ("nlt", pkey(point(cb[0])), pkey(point(ca[0])), k)
        if cond.op == "<" and val:
            if wb == "end" and not wa:        # p < end: strictly inside that side
                return ("off", pkey(point(ca[0])), k, "end")
            if wa == "begin" and not wb:
                return ("off", pkey(point(cb[0])), k, "begin")
        return None

    def corner(self, eng, st, loc):
        """'begin'/'end' if loc is that corner of the cached bounding box"""
        for t in (loc, eng.load(st, loc)):
            for x in subterms(t):
                if x.op in ("iter", "m") and last(x.args[0]) in ("begin", "end") and \
                        any(y.op == "fld" and y.args[1] == B + "boundingBox_" for y in subterms(x)):
                    return last(x.args[0])
        return None

    def changed(self, st, ctx, ins, o, kind, *a):
        self.ev(st, ctx, ins, "pts", o, kind, *a)

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op == "fld":
            o, n = loc.args
            if n in VALUES and VALUES[n] != "bbox":
                old = eng.load(st, loc)
                self.ev(st, ctx, ins, "val", o, VALUES[n], old, val)
            elif n in VALUES:
                self.ev(st, ctx, ins, "box", o, "=", val)
            elif n in FLAGS:
                self.ev(st, ctx, ins, "flag", o, FLAGS[n], val)
            elif n == PTS:
                self.changed(st, ctx, ins, o, "=", val)
            return
        l = loc
        while l.op in ("elt", "fld") and not (l.op == "fld" and l.args[1] == PTS):
            up = l.args[0]
            if l.op == "elt" and up.op == "fld" and up.args[1] == PTS:
                if l is loc:
                    self.changed(st, ctx, ins, up.args[0], "set", l, self.argpoint(eng, st, ("V", val)))
                else:
                    self.changed(st, ctx, ins, up.args[0], "any")
                return
            l = up
        o = self.iterated(loc)
        if o is not None:
            self.changed(st, ctx, ins, o, "any")

    def iterated(self, loc):
        for x in subterms(loc):
            if x.op == "iter" and len(x.args) == 3 and x.args[1].op == "fld" and x.args[1].args[1] == PTS:
                return x.args[1].args[0]
            if x.op == "m" and x.args[0] in ("back", "front", "at") and x.args[1].op == "ld" and \
                    x.args[1].args[0].op == "fld" and x.args[1].args[0].args[1] == PTS:
                return x.args[1].args[0].args[0]
        return None

    def argpoint(self, eng, st, a):
        return point(a[1]) if a[0] == "L" else pval(a[1])

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if loc.op == "fld" and loc.args[1] == PTS:
            o = loc.args[0]
            if m == "push_back":
                self.changed(st, ctx, ins, o, "push", self.argpoint(eng, st, args[0]))
            elif m == "insert" and len(args) == 2:
                self.changed(st, ctx, ins, o, "insert", eng.rval(st, args[0]), self.argpoint(eng, st, args[1]))
            elif m == "insert" and len(args) == 3:
                self.changed(st, ctx, ins, o, "range", *[eng.rval(st, a) for a in args])
            elif m == "erase" and len(args) == 1:
                self.changed(st, ctx, ins, o, "erase", eng.rval(st, args[0]))
            elif m == "clear":
                self.changed(st, ctx, ins, o, "clear")
            elif m in ("reserve", "shrink_to_fit"):
                pass
            elif m == "swap":
                self.changed(st, ctx, ins, o, "any")
            else:
                self.changed(st, ctx, ins, o, "any")
        elif loc.op == "fld" and loc.args[1] == B + "boundingBox_":
            if m == "operator|=":
                a = args[0]
                if a[0] == "V" and a[1].op == "r" and a[1].args[2] == B + "boundingBox":
                    self.ev(st, ctx, ins, "box", loc.args[0], "|=box", ptr(a[1].args[3]))
                else:
                    self.ev(st, ctx, ins, "box", loc.args[0], "|=", pkey(self.argpoint(eng, st, a)))
            else:
                self.ev(st, ctx, ins, "box", loc.args[0], "=", ZERO)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        n = last(f["n"])
        if n == "reverse" and obj is None and args:
            a = eng.rval(st, args[0])
            o = self.iterated(a)
            if o is not None:
                b = eng.rval(st, args[1]) if len(args) > 1 else a
                whole = a.op == "iter" and b.op == "iter" and a.args[0] == "begin" and b.args[0] == "end"
                self.changed(st, ctx, ins, o, "reverse" if whole else "any")
            return
        if not inlined and obj is None and n in ALGOS:
            for a in args[-1:] if n.startswith("copy") else args[:1]:
                o = self.iterated(eng.rval(st, a))
                if o is not None:
                    self.changed(st, ctx, ins, o, "any")


def facts_of(cl):
    return {c: v for c, v in [x for x in cl[0] if len(x) == 2]}


def known(fs, pred):
    for c, v in fs.items():
        r = pred(c, v)
        if r is not None:
            return r
    return None


def truthy(t):
    return lambda c, v: v if c is t else None


def nonempty(fs, K):
    s = T("m", "size", K)
    def p(c, v):
        if c is s:
            return v
        if c.op == "m" and c.args[0] == "empty" and c.args[1] is K:
            return not v
        if c.op == "<" and c.args[1] is s and isc(c.args[0]) and c.args[0].args[0] >= 0:
            return True if v else (False if c.args[0].args[0] == 0 else None)
        if c.op == "<" and c.args[0] is s and isc(c.args[1]) and c.args[1].args[0] == 1:
            return not v
    return known(fs, p)


def expected(ev, fs, contract):
    """(coefficient, {length, area}) change implied by one change of the points, None if undetermined"""
    o, kind = ev[1], ev[2]
    F = fld(o, PTS)
    K = T("ld", F)
    size = T("m", "size", K)
    if kind == "push":
        ne = nonempty(fs, K)
        if ne is None:
            return None
        return 1, both(("last", K), ev[3]) if ne else NONE
    if kind == "set":
        l, x = ev[3], ev[4]
        i = l.args[1]
        b, k = off(i)
        old = point(l)
        if isc(i):
            prev = i.args[0] > 0
        elif old[0] == "last":
            prev = known(fs, lambda c, v: v if c is T("<", ONE, size) else None)
        else:
            prev = known(fs, lambda c, v: v if c is truth(i) or c is lt(ZERO, i) else None)
        if old[0] == "last":
            nxt = False
        else:
            conds = (lt(i, add(size, C(-1))), lt(add(i, ONE), size))
            ncond = (eq(i, add(size, C(-1))), eq(add(i, ONE), size))
            nxt = known(fs, lambda c, v: v if c in conds else (not v) if c in ncond else None)
        if prev is None or nxt is None:
            return None
        parts = []
        if prev:
            pp = point(T("elt", F, add(i, C(-1))))
            parts += [both(pp, x), both(pp, old, -1)]
        if nxt:
            nn = point(T("elt", F, add(i, ONE)))
            parts += [both(x, nn), both(old, nn, -1)]
        return 1, plus(*parts) if parts else NONE
    if kind == "insert":
        b, k = off(ev[3])
        x = ev[4]
        if b.op == "iter":
            return None
        beg, end = T("iter", "begin", F, K), T("iter", "end", F, K)
        def isprev(c, v):
            if c.op == "<" and strip(c.args[0]) is strip(beg) and c.args[1] is b:
                return v
            if c.op == "==" and set(map(strip, c.args)) == {strip(beg), strip(b)}:
                return not v
        def isnext(c, v):
            if c.op == "==" and set(map(strip, c.args)) == {strip(end), strip(b)}:
                return not v
            if c.op == "<" and c.args[0] is b and strip(c.args[1]) is strip(end):
                return v
            if c.op == "<" and c.args[0].op == "f" and isc(c.args[1]) and c.args[1].args[0] == 1:
                d = c.args[0]
                if d.args[0].endswith("operator-") and strip(d.args[-2]) is strip(end) and d.args[-1] is b:
                    return not v
            if c.op == "f" and c.args[0].endswith("operator-") and strip(c.args[-2]) is strip(end) and c.args[-1] is b:
                return v
            if c.op == "<" and isc(c.args[0]) and c.args[0].args[0] == 0 and c.args[1].op == "f":
                d = c.args[1]
                if d.args[0].endswith("operator-") and strip(d.args[-2]) is strip(end) and d.args[-1] is b:
                    return v
        if k:
            return None
        prev, nxt = known(fs, isprev), known(fs, isnext)
        if prev is None or nxt is None:
            return None
        pp, nn = ("at", b, -1), ("at", b, 0)
        parts = ([both(pp, x)] if prev else []) + ([both(x, nn)] if nxt else []) + \
                ([both(pp, nn, -1)] if prev and nxt else [])
        return 1, plus(*parts) if parts else NONE
    if kind == "range":
        p, a, b = ev[3:6]
        (pb, pk), (ab, ak), (bb, bk) = off(p), off(a), off(b)
        if not (pb.op == ab.op == bb.op == "iter") or pk or pb.args[1] is not F:
            return None
        src = ab.args[1]
        if bb.args[1] is not src or src.op != "fld" or src.args[1] != PTS or src is F:
            return None
        dirs = {("begin", "end"): 1, ("rbegin", "rend"): -1}
        sign = dirs.get((ab.args[0], bb.args[0]))
        if sign is None:
            return None
        q = ptr(src.args[0])
        other = {LEN: {(("call", "length", q.id),): Fraction(1)},
                 AREA: {(("call", "partialArea", q.id),): Fraction(sign)}}
        S = T("ld", src)
        if pb.args[0] == "end" and bk == 0:
            skip, join = ak, (("last", K), ("first" if sign > 0 else "last", S))
        elif pb.args[0] == "begin" and ak == 0:
            skip, join = -bk, (("last" if sign > 0 else "first", S), ("first", K))
        else:
            return None
        if skip == 1:
            ks = {pkey(x) for x in join}
            def same(c, v):
                if v and (c.op == "==" or c.op == "f" and c.args[0].endswith("operator==")):
                    if {pkey(pval(t)) for t in c.args[-2:]} == ks:
                        return True
            if contract or known(fs, same):
                return 1, other
            return None
        if skip == 0:
            ne = nonempty(fs, K)
            if ne is None:
                return None
            return 1, plus(other, both(*join)) if ne else other
        return None
    if kind == "reverse":
        return -1, NONE
    if kind == "clear":
        return 0, NONE
    return None


def applied(evs, o, cache):
    """(coefficient, polynomial) actually applied to the cached value; None: not linear"""
    a, rest = Fraction(1), {}
    for e in evs:
        if e[0] != "val" or e[1] is not o or e[2] != cache:
            continue
        old, new = e[3], e[4]
        p = poly(new)
        ol = poly(old)
        if len(ol) != 1:
            # old value is itself an expression built on this path
            d = padd(p, ol, -1)
            if len(d) <= len(p):
                rest = padd(rest, d)
                continue
            nd = padd(p, ol, 1)
            if not nd:
                a, rest = -a, padd({}, rest, -1)
                continue
            if not any(m in p for m in ol):
                a, rest = Fraction(0), p
                continue
            return None
        (mo, co), = ol.items()
        if mo == ():
            a, rest = Fraction(0), p
            continue
        c = p.get(mo, Fraction(0)) / co
        r = dict(p)
        r.pop(mo, None)
        if any(set(mo) & set(m) for m in r):
            return None
        a, rest = a * c, padd(r, rest, c) if c else r
    return a, rest


def has_cache(prog, f, eng, o, cache, evs):
    if o.op == "obj" and o.args[0].op == "p":
        n = o.args[0].args[0]
        if n == "this":
            c = f.cls
            return c != "vigra::PointArray" and (cache != "bbox" or c != "vigra::Polygon")
        for v in f.params:
            if f.vars[v].get("name") == n:
                return typed(prog.tstr(f.vars[v]["t"]), cache)
    return any(e[1] is o and (e[0] in ("val", "flag") and e[2] == cache or e[0] == "box" and cache == "bbox") for e in evs)


def typed(t, cache):
    if "Edge" in t or "BBoxPolygon" in t:
        return True
    if "Polygon" in t:
        return cache != "bbox"
    return False


def name_of(o):
    return show(o)


def judge(prog, rep, f, c, contract):
    n = 0
    for kind, cl, st, ret, ctx, ins in c.exits:
        if kind != "return":
            continue
        evs = cl[1]
        fs = facts_of(cl)
        e = c.eng
        objs = []
        for x in evs:
            if x[1] not in objs:
                objs.append(x[1])
        for o in objs:
            pts = [x for x in evs if x[0] == "pts" and x[1] is o]
            now = e.load(st, fld(o, PTS))
            if pts and pts[-1][2] == "=":
                now = pts[-1][3]
            for cache in CACHE:
                if not has_cache(prog, f, e, o, cache, evs):
                    continue
                vf, ff = CACHE[cache]
                val, valid = e.load(st, fld(o, vf)), T("ld", fld(o, ff))
                if o.op in ("var", "tmp") or f.kind == "ctor":
                    valid = e.load(st, fld(o, ff))
                for x in evs:
                    if x[1] is o and x[0] == "flag" and x[2] == cache:
                        valid = x[3]
                    elif x[1] is o and (x[0] == "val" and x[2] == cache or x[0] == "box" and x[2] == "=" and cache == "bbox"):
                        val = x[-2]
                if valid is ZERO:
                    if pts:
                        rep.ok(cache, f)
                        n += 1
                    continue
                init = T("ld", fld(o, ff))
                if f.kind == "ctor" and o.op == "obj" and o.args[0] is T("p", "this") or (
                        is_empty(now) or now.op == "ld" and now.args[0].op == "fld" and now.args[0].args[1] == PTS and
                        now.args[0].args[0] is not o):
                    ctor(rep, f, e, o, cache, val, valid, now, ins)
                    n += 1
                    continue
                if not pts:
                    if isc(valid) and valid.args[0] and not any(x[0] in ("val", "box") for x in evs) :
                        rep.bad("claim", f, "%s of %s is marked valid without being computed" % (cache, name_of(o)), None)
                    continue
                if fs.get(init) is False and not isc(valid):
                    rep.ok(cache, f)
                    n += 1
                    continue
                n += 1
                if strip(valid) is not strip(init) and not isc(valid):
                    rep.bad(cache, f, "validity of the cached %s becomes %s while the points change" % (cache, show(valid)),
                            pts[0][-1])
                    continue
                if cache == "bbox":
                    why = bbox(cl, evs, o, pts)
                else:
                    why = linear(evs, fs, o, cache, pts, contract)
                if why:
                    rep.bad(cache, f, why, pts[-1][-1])
                else:
                    rep.ok(cache, f)
    return n


def linear(evs, fs, o, cache, pts, contract):
    got = applied(evs, o, cache)
    if len(pts) > 1:
        return "several changes of the points while the %s stays valid" % cache
    want = expected(pts[0], fs, contract)
    if want is None:
        return "the %s stays marked valid although the points changed (%s)" % (cache, pts[0][2])
    k, d = want
    if cache == LEN and k == -1:
        k = 1
    if got is None or got[0] != k or padd(got[1], d[cache], -1):
        return "the valid %s is not changed by what the points changed (%s)" % (cache, pts[0][2])
    return None


def bbox(cl, evs, o, pts):
    boxes = [x for x in evs if x[0] == "box" and x[1] is o]
    added = {x[3] for x in boxes if x[2] == "|="}
    ranges = {x[3] for x in boxes if x[2] == "|=box"}
    F = fld(o, PTS)
    for p in pts:
        kind = p[2]
        if kind == "reverse":
            continue
        if kind == "push":
            if pkey(p[3]) not in added:
                return "the valid bounding box is not extended by the appended point"
        elif kind == "insert":
            if pkey(p[4]) not in added:
                return "the valid bounding box is not extended by the inserted point"
        elif kind == "range":
            b = off(p[4])[0]
            if b.op != "iter" or b.args[1].op != "fld" or ptr(b.args[1].args[0]) not in ranges:
                return "the valid bounding box is not extended by the appended points"
        elif kind in ("set", "erase"):
            if kind == "set":
                old, x = pkey(point(p[3])), pkey(p[4])
                if x not in added:
                    return "the valid bounding box is not extended by the new position of the point"
            else:
                b, k = off(p[3])
                old, x = pkey(at(b, k)), None
            side = {y for y in cl[0] if len(y) > 2}
            for axis in (0, 1):
                for w in ("begin", "end"):
                    if ("off", old, axis, w) in side:
                        continue
                    if x and (("nlt", x, old, axis) if w == "end" else ("nlt", old, x, axis)) in side:
                        continue
                    return "the bounding box stays valid although the removed point may have defined its %s" % w
        elif kind == "clear":
            if not (boxes and boxes[-1][2] == "=" and boxes[-1][3].op == "empty"):
                return "the bounding box stays valid although all points are removed"
        else:
            return "the bounding box stays marked valid although the points changed (%s)" % kind
    return None


def ctor(rep, f, e, o, cache, val, valid, now, ins):
    vf, ff = CACHE[cache]
    rule = "ctor" if f.kind == "ctor" else "move"
    if isc(valid) and valid.args[0]:
        if now.op == "empty" or now.op == "mk" and len(now.args) == 1 or is_empty(now):
            if cache == "bbox" and (val.op == "empty" or is_empty(val)) or cache != "bbox" and num(val) == 0:
                return rep.ok(rule, f)
        return rep.bad(rule, f, "%s is marked valid by a constructor that does not compute it" % cache, None)
    src = now.args[0].args[0] if now.op == "ld" and now.args[0].op == "fld" else None
    if valid.op == "ld" and valid.args[0].op == "fld" and valid.args[0].args[1] == ff:
        q = valid.args[0].args[0]
        if val.op == "ld" and val.args[0].op == "fld" and val.args[0].args[1] == vf and val.args[0].args[0] is q \
                and (src is None or src is q):
            return rep.ok(rule, f)
    if valid.op == "uninit":
        return rep.bad(rule, f, "%s validity is not initialised" % cache, None)
    rep.bad(rule, f, "value and validity of the cached %s do not move together with the points" % cache, None)


def is_empty(t):
    return t.op in ("empty", "mk") and all(isinstance(a, str) or a.op == "empty" for a in t.args)


# ------------------------------------------------------------------ lazy getters
class Lazy(Recorder):
    """state: (valid?, phase)"""

    def __init__(self, prog, cache):
        self.cache = cache
        self.vf, self.ff = CACHE[cache]
        self.bad, self.sums, self.used, self.conds = [], [], False, {}
        super().__init__(prog)

    def start(self, eng):
        return (None, 0)

    def inline(self, eng, fn, ctx, ins):
        if fn.cls == "vigra::PointArray":
            return True
        return super().inline(eng, fn, ctx, ins)

    def on_assume(self, eng, st, ctx, cond, val):
        while cond.op == "!":
            cond, val = cond.args[0], not val
        if val:
            self.conds[cond] = True
        if strip(cond) is T("ld", fld(T("obj", T("p", "this")), self.ff)) and st.cl[1] == 0:
            st.cl = ("valid" if val else "stale", st.cl[1])

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op != "fld" or loc.args[0] is not T("obj", T("p", "this")):
            return
        if loc.args[1] == self.vf:
            self.used = True
            old = eng.load(st, loc)
            if st.cl[1] == 0:
                if any(x.op == "fld" and x.args[1] == self.vf for x in allsub(eng, val)):
                    self.bad.append(("the cached %s is updated instead of computed anew" % self.cache, site(ctx, ins)))
                st.cl = (st.cl[0], "fresh")
            d = padd(poly(val), poly(old), -1)
            if num(old) == 0 and num(val) is None or old.op == "phi":
                self.sums.append((d, self.conds, site(ctx, ins)))
        elif loc.args[1] == self.ff:
            if isc(val) and val.args[0] and st.cl[1] == 0 and st.cl[0] != "valid":
                self.bad.append(("the %s is marked valid before it was computed" % self.cache, site(ctx, ins)))

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if loc is fld(T("obj", T("p", "this")), self.vf):
            self.used = True
            if st.cl[1] == 0:
                self.bad.append(("the cached %s is updated instead of computed anew" % self.cache, site(ctx, ins)))
            a = args[0] if args else None
            if m == "operator|=" and a:
                self.sums.append((point(a[1]) if a[0] == "L" else pval(a[1]), self.conds, site(ctx, ins)))

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        if kind == "return" and st.cl[0] != "valid" and st.cl[1] == 0:
            self.bad.append(("the %s is returned although it is not marked valid" % self.cache, None))


def index_ok(eng, b, k, first, facts, size_of):
    """points b+k are visited: from `first` upwards in steps of one, below size"""
    if isc(b):
        return b.args[0] + k == first or b.args[0] + k in (0, 1)
    if b.op != "phi":
        return True
    ls = leaves(eng, b)
    consts = [x for x in ls if isc(x)]
    for x in ls:
        if isc(x):
            continue
        bb, kk = off(x)
        if bb is b and kk != 1:
            return False
    if consts and min(x.args[0] for x in consts) + k > first:
        return False
    tops = [c for c, v in facts.items() if v and c.op == "<" and off(c.args[0])[0] is b]
    if tops:
        good = False
        for c in tops:
            s, d = off(c.args[1])
            if s.op == "m" and s.args[0] == "size" and off(c.args[0])[1] - d == k:
                good = True
            elif not (s.op == "m" and s.args[0] == "size"):
                good = True
        return good
    return True


def lazy(prog, rep):
    for cache, fn in ((LEN, P + "length"), (AREA, P + "partialArea"), ("bbox", B + "boundingBox")):
        for f in prog.byname.get(fn, []):
            c = Lazy(prog, cache)
            e = run_engine(prog, c, f, rep)
            bad = list(c.bad)
            for d, facts, s in c.sums:
                if cache == "bbox":
                    p = d
                    if p[0] == "at" and not index_ok(e, p[1], p[2], 0, facts, None):
                        bad.append(("the bounding box does not cover all points", s))
                elif cache == LEN:
                    w = pairs(d)
                    if w is False:
                        bad.append(("what is summed up is not the length of a segment", s))
                    elif w and not segment_ok(e, w, facts):
                        bad.append(("the length does not sum all segments between consecutive points", s))
            for why, s in bad:
                rep.bad("lazy", f, why, s)
            if not bad and c.used:
                rep.ok("lazy", f)
    for f in prog.byname.get("vigra::partialArea", []):
        area_fn(prog, rep, f)


def pairs(d):
    if len(d) != 1:
        return False
    (m, c), = d.items()
    if c != 1 or len(m) != 1 or m[0][0] != "seg":
        return None if len(m) == 1 and m[0][0] == "t" else False
    return sorted(m[0][1], key=repr)


def byid(i):
    return _terms.get(i)


_terms = {}


def unkey(p):
    return tuple(_tid(x) if isinstance(x, int) and n in (1,) else x for n, x in enumerate(p))


def _tid(i):
    from .. import terms
    if len(_terms) != len(terms._tab):
        _terms.clear()
        for t in terms._tab.values():
            _terms[t.id] = t
    return _terms.get(i)


def segment_ok(e, w, facts):
    if len(w) != 2:
        return False
    a, b = [unkey(x) for x in w]
    names = {a[0], b[0]}
    if names == {"first", "at"}:
        x = a if a[0] == "at" else b
        return isc(x[1]) and x[1].args[0] + x[2] == 1 or not isc(x[1])
    if names == {"at"}:
        if a[1] is not b[1]:
            if isc(a[1]) and isc(b[1]):
                return abs(a[1].args[0] + a[2] - b[1].args[0] - b[2]) == 1
            return any("iter" in x.op or x.op in ("phi", "adv") for x in (a[1], b[1]))
        if abs(a[2] - b[2]) != 1:
            return False
        hi = max(a[2], b[2])
        return index_ok(e, a[1], hi, 1, facts, None)
    return names <= {"loc", "val"}


class AreaFn(Recorder):
    def __init__(self, prog):
        self.sums, self.rets, self.conds = [], [], {}
        super().__init__(prog)

    def on_assume(self, eng, st, ctx, cond, val):
        if val:
            self.conds[cond] = True

    def inline(self, eng, fn, ctx, ins):
        if fn.cls in CLS:
            return not eng.fninfo(fn)["loops"] or None
        return super().inline(eng, fn, ctx, ins)

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op == "var" and (val.op in ("+", "neg", "*", "/") or val.op == "phi"):
            old = eng.load(st, loc)
            if not any(x.op == "elt" for x in subterms(val)):
                return
            self.sums.append((loc, padd(poly(val), poly(old), -1), self.conds, site(ctx, ins)))

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        if kind == "return" and ret is not None:
            self.rets.append(eng.rval(st, ret))


def area_fn(prog, rep, f):
    c = AreaFn(prog)
    e = run_engine(prog, c, f, rep)
    scale = set()
    for loc, d, facts, s in c.sums:
        xs = [a for m in d for a in m if a[0] == "xy"]
        if not xs or any(len(m) != 2 or any(a[0] != "xy" for a in m) for m in d):
            continue
        ps = sorted({a[1] for a in xs}, key=repr)
        if len(ps) != 2:
            rep.bad("lazy", f, "what is summed up is not the area of a segment", s)
            continue
        a, b = [unkey(p) for p in ps]
        if {a[0], b[0]} - {"first", "at"}:
            continue
        pos = lambda p: 0 if p[0] == "first" else (p[1].args[0] + p[2] if isc(p[1]) else p[2])
        prev, cur = sorted((a, b), key=pos)
        ok = False
        for k in (1, 2):
            if not padd(d, cross(prev, cur), -k):
                scale.add(k)
                ok = True
        if not ok:
            rep.bad("lazy", f, "what is summed up is not the signed area of a segment", s)
        elif not segment_ok(e, ps, facts):
            rep.bad("lazy", f, "the area does not sum all segments between consecutive points", s)
        else:
            rep.ok("lazy", f)
    if len(scale) == 1:
        k = scale.pop()
        for r in c.rets:
            p = poly(r)
            cs = {c_ for m, c_ in p.items() if m}
            if cs and cs != {Fraction(1, k)}:
                if all(len(m) == 1 and m[0][0] == "t" for m in p if m):
                    rep.bad("lazy", f, "the signed area is scaled by %s" % max(cs), None)


# ------------------------------------------------------------------ direct writes elsewhere
class Raw(Recorder):
    def __init__(self, prog, f):
        self.f = f
        self.found = set()
        self.where = {}
        super().__init__(prog)

    def start(self, eng):
        return frozenset()

    def inline(self, eng, fn, ctx, ins):
        n = last(fn.name)
        if fn.cls in CLS:
            return n in ACC or n == "invalidateProperties" or fn.kind == "ctor" and not eng.fninfo(fn)["loops"]
        if fn.name in ("GeoMap::edge", "GeoMap::Dart::edge", "GeoMap::Dart::guaranteedEdge"):
            return None
        if fn.cls == "GeoMap::Edge" and n == "concatenate":
            return False
        return super().inline(eng, fn, ctx, ins)

    def on_write(self, eng, st, ctx, ins, loc, val):
        o = None
        l = loc
        while l.op in ("elt", "fld"):
            if l.op == "fld" and l.args[1] == PTS:
                o = l.args[0]
                break
            l = l.args[0]
        if o is None:
            for x in subterms(loc):
                if x.op == "iter" and len(x.args) == 3 and x.args[1].op == "fld" and x.args[1].args[1] == PTS or \
                        x.op == "m" and x.args[0] in ("back", "front") and x.args[1].op == "ld" and \
                        x.args[1].args[0].op == "fld" and x.args[1].args[0].args[1] == PTS:
                    y = x.args[1] if x.op == "iter" else x.args[1].args[0]
                    o = y.args[0]
        if loc.op == "fld" and loc.args[1] in FLAGS and val is ZERO:
            st.cl = st.cl - {(strip(loc.args[0]), FLAGS[loc.args[1]])}
            return
        if o is None or loc.op == "fld" and loc.args[1] == PTS:
            return
        self.found.add(site(ctx, ins))
        for cache, (vf, ff) in CACHE.items():
            if not self.typed(ctx, o, cache):
                continue
            if eng.load(st, fld(o, ff)) is ZERO:
                continue
            self.where.setdefault((strip(o), cache), site(ctx, ins))
            st.cl = st.cl | {(strip(o), cache)}

    def typed(self, ctx, o, cache):
        if o.op in ("var", "tmp"):
            t = None
            for c in self.chain(ctx):
                if o.op == "var":
                    for v, d in c.fn.vars.items():
                        if d.get("name") == o.args[-1]:
                            t = self.prog.tstr(d["t"])
            return typed(t, cache) if t else False
        if o.op == "obj" and o.args[0].op == "p":
            for v in self.f.params:
                if self.f.vars[v].get("name") == o.args[0].args[0]:
                    return typed(self.prog.tstr(self.f.vars[v]["t"]), cache)
            return self.f.cls == "GeoMap::Edge"
        if o.op == "new":
            return True
        return any(x.op in ("elt", "fld", "r", "m") for x in subterms(o))

    def chain(self, ctx):
        while ctx is not None:
            yield ctx
            ctx = getattr(ctx, "parent", None)

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        if kind == "return":
            self.exits.append(st.cl)


def nonconst_acc(prog, f):
    for ins in f.ins.values():
        g = ins.get("f")
        if isinstance(g, dict) and g["n"].startswith(("vigra::PointArray::", "vigra::Polygon::")) and last(g["n"]) in ACC \
                and not g["id"].startswith("_ZNK"):
            return True
    return False


def raw(prog, rep):
    n = 0
    for f in prog.fns.values():
        if f.cls in CLS or f.kind in ("dtor",):
            continue
        if not nonconst_acc(prog, f):
            continue
        c = Raw(prog, f)
        run_engine(prog, c, f, rep)
        if not c.found:
            continue
        n += 1
        left = set().union(*c.exits) if c.exits else set()
        if not left:
            rep.ok("raw", f)
        for o, cache in sorted(left, key=lambda x: (x[0].id, x[1])):
            rep.bad("raw", f, "points of %s are written directly while its cached %s may stay valid" %
                    (show(o), cache), c.where.get((o, cache)))
    return n


# ------------------------------------------------------------------ scan lines of edges
CHANGERS = {"split", "insert", "erase", "push_back", "extend", "swap", "reverse", "clear"}


class Scan(Recorder):
    """state: edges (terms) whose points changed since the scan lines were reset"""
    names = frozenset({P + "split", B + "split"})

    def start(self, eng):
        return frozenset()

    def inline(self, eng, fn, ctx, ins):
        if fn.cls in CLS or fn.name in GET:
            return False
        return super().inline(eng, fn, ctx, ins)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        n = f["n"]
        if obj is not None and last(n) in CHANGERS and n.rsplit("::", 1)[0] in CLS and obj.op == "obj":
            if not is_null(eng.load(st, fld(obj, SCAN))):
                st.cl = st.cl | {(strip(obj), site(ctx, ins))}

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op == "fld" and loc.args[1] == SCAN:
            o = strip(loc.args[0])
            st.cl = frozenset(x for x in st.cl if x[0] is not o)

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if loc.op == "fld" and loc.args[1] == SCAN and m in ("reset", "operator="):
            o = strip(loc.args[0])
            st.cl = frozenset(x for x in st.cl if x[0] is not o)

    def on_assume(self, eng, st, ctx, cond, val):
        while cond.op == "!":
            cond, val = cond.args[0], not val
        if not val and cond.op == "ld" and cond.args[0].op == "fld" and cond.args[0].args[1] == SCAN:
            o = strip(cond.args[0].args[0])
            st.cl = frozenset(x for x in st.cl if x[0] is not o)


class Cat(Rec):
    """concatenation: what is done with the scan lines of both edges"""

    def inline(self, eng, fn, ctx, ins):
        if fn.name.startswith("vigra::Scanlines"):
            return False
        return super().inline(eng, fn, ctx, ins)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        n = f["n"]
        if n.startswith("vigra::Scanlines::") and obj is not None:
            m = last(n)
            if m in ("operator+=", "merge", "reverse", "normalize"):
                a = None
                if args:
                    a = args[0][1]
                    if args[0][0] == "V":
                        a = T("val", a)
                self.ev(st, ctx, ins, "scan", obj, m, a)
            return
        if obj is not None and obj is fld(T("obj", T("p", "this")), SCAN) and last(n) == "reset":
            self.ev(st, ctx, ins, "scan", obj, "reset", None)
            return
        super().on_call(eng, st, ctx, ins, f, obj, args, inlined)


def scan(prog, rep):
    for f in prog.byname.get("GeoMap::splitEdge", []):
        c = Scan(prog)
        run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            if not cl:
                rep.ok("scan", f)
            for o, s in cl:
                rep.bad("scan", f, "cached scan lines of %s survive a change of its points" % show(o), s)


def run(prog, rep, tier):
    n = 0
    for f in prog.fns.values():
        edge = f.name == E + "concatenate"
        if not edge and (f.cls not in CLS[:2] or f.const or f.kind == "dtor" or f.static):
            continue
        if f.implicit:
            continue
        c = (Cat if edge else Rec)(prog)
        c.eng = run_engine(prog, c, f, rep)
        n += judge(prog, rep, f, c, edge)
        if edge:
            concat(rep, f, c)
        if last(f.name) in ("invalidateProperties", "clear"):
            everything(prog, rep, f, c)
    rep.note("points-changing exits", n) if hasattr(rep, "note") else None
    lazy(prog, rep)
    scan(prog, rep)
    raw(prog, rep)
    rep.need("length", 3)
    rep.need("area", 3)
    rep.need("bbox", 2)
    rep.need("lazy", 2)
    rep.need("ctor", 1)


def everything(prog, rep, f, c):
    for kind, cl, st, ret, ctx, ins in c.exits:
        if kind != "return":
            continue
        o = T("obj", T("p", "this"))
        for cache, (vf, ff) in CACHE.items():
            if cache == "bbox" and f.cls == "vigra::Polygon":
                continue
            v = c.eng.load(st, fld(o, ff))
            if v is ZERO or any(x[0] == "pts" for x in cl[1]):
                rep.ok("all", f)
            else:
                rep.bad("all", f, "the cached %s stays valid" % cache, None)


def concat(rep, f, c):
    this = T("ld", fld(T("obj", T("p", "this")), SCAN))
    for kind, cl, st, ret, ctx, ins in c.exits:
        if kind != "return":
            continue
        fs = facts_of(cl)
        have = [v for k, v in fs.items() if strip(k) is this]
        sc = [x for x in cl[1] if x[0] == "scan"]
        if have and not have[0] or any(x[2] == "reset" for x in sc):
            rep.ok("scan", f)
            continue
        rev = fs.get(T("p", "reverse"))
        own = lambda t: t.op == "obj" and strip(t.args[0]) is this
        joined = [x for x in sc if x[2] in ("operator+=", "merge") and own(x[1])]
        if not joined:
            rep.bad("scan", f, "cached scan lines are not extended by those of the appended edge", None)
            continue
        flips = sum(1 for x in sc[:sc.index(joined[0])] if x[2] == "reverse" and not own(x[1]))
        if any(x[2] == "reverse" and own(x[1]) for x in sc) or len(joined) > 1:
            rep.bad("scan", f, "the edge's own scan lines are changed", joined[0][-1])
        elif rev is not None and flips % 2 != int(rev):
            rep.bad("scan", f, "scan lines of the other edge are %sreversed although it is appended %s" %
                    ("" if flips else "not ", "backwards" if rev else "forwards"), joined[0][-1])
        elif joined[0][2] == "merge" and not any(x[2] == "normalize" and own(x[1]) for x in sc):
            rep.bad("scan", f, "joined scan lines are not normalised", joined[0][-1])
        else:
            rep.ok("scan", f)
