from ..core import *
from ..program import Program
from .c01 import strip

TITLE = "region statistics follow merges"
GROUPS = ["geomap", "python_bindings"]
TECHNIQUE = "static analysis: path-sensitive contribution analysis of the statistics callbacks (each cell folded exactly once)"
EXPLANATION = ("All paths of the pre/post callbacks that keep per-face and per-edge statistics: before a merge the temporary "
               "aggregate receives each of the two cells (and, for cell images, the pixels of the removed edge or node) "
               "exactly once; after it the survivor receives the aggregate and the removed cell's entry is dropped; pixels "
               "handed over are accumulated once each; the bookkeeping of supersampled faces (flag, count, array) moves "
               "together; the accumulating functor adds every component.")
RULES = {"pre": "before a face merge the aggregate contains each of the two faces exactly once",
         "sampling": "the sampling flag of the aggregate is that of the samples it contains",
         "early": "nothing but the temporaries changes before the operation is certain",
         "post": "after the merge the survivor owns the aggregate and the other face's entry is released and cleared",
         "count": "the number of supersampled faces follows the flags, and the flag array is dropped at zero",
         "pixels": "every pixel handed over is accumulated once, with its own value, for the face that received it",
         "scan": "re-scanning a face accumulates exactly the pixels that carry the face's label, within its bounding box",
         "init": "initially every face has a functor, every labelled pixel is accumulated, then faces with few samples are refined",
         "attach": "the pre-merge, post-merge and pixel callbacks are all connected",
         "cpre": "cell image: the aggregate contains the surviving cells and the removed boundary exactly once",
         "cpost": "cell image: the survivor's statistics are replaced by the aggregate",
         "tree": "cell image: a merged edge's label is linked at the end of the survivor's list",
         "functor": "the accumulator adds, removes and merges all of its components"}
F = "FaceColorStatistics::"
MERGED, FUN, SS, CNT, MSS = F + "merged_", F + "functors_", F + "superSampled_", F + "superSampledCount_", F + "mergedSS_"
L1, L2 = F + "label1_", F + "label2_"
MOD = {"GeoMap::Dart::leftFaceLabel", "GeoMap::Dart::rightFaceLabel", "GeoMap::Dart::leftFace", "GeoMap::Dart::rightFace",
       "GeoMap::Dart::edge", "GeoMap::Dart::guaranteedEdge", F + "rescanFace", "GeoMap::Face::pixelArea", "GeoMap::Face::label"}


def isfld(t, n):
    return t.op == "fld" and t.args[1] == n


def funidx(loc):
    """loc = *functors_[i] -> i"""
    if loc.op == "obj":
        t = loc.args[0]
        if t.op == "ld":
            t = t.args[0]
        if t.op == "elt" and isfld(t.args[0], FUN):
            return t.args[1]
    return None


def ssidx(t):
    """t = (*superSampled_)[i] -> i"""
    t = strip(t)
    if t.op == "ld":
        t = t.args[0]
    if t.op == "elt" and any(isfld(x, SS) for x in subterms(t.args[0])):
        return t.args[1]
    return None


class Fcs(Recorder):
    fields = frozenset({MERGED, FUN, SS, CNT, MSS, L1, L2})

    def inline(self, eng, fn, ctx, ins):
        if fn.name in MOD:
            return False
        if fn.name.startswith("GeoMap::"):
            return False
        return super().inline(eng, fn, ctx, ins)

    def __init__(self, prog, f):
        super().__init__(prog)
        self.f = f
        self.ps = [f.vars[v]["name"] for v in f.params]

    def add(self, st, e):
        if sum(1 for x in st.cl if x == e) < 2:
            st.cl = st.cl + (e,)

    def fact(self, st, e, val):
        st.cl = tuple(x for x in st.cl if not (x[0] == "A" and x[1] == e)) + (("A", e, val),)

    def on_assume(self, eng, st, ctx, cond, val):
        c = cond
        while c.op == "!":
            c, val = c.args[0], not val
        if c.op == "==" and any(is_null(a) for a in c.args):
            c, val = [a for a in c.args if not is_null(a)][0], not val
        elif c.op == "<" and is_null(c.args[0]):
            c = c.args[1]
        k = self.ckey(eng, st, c)
        if k is None and c.op in ("==", "<"):
            a, b = self.ckey(eng, st, c.args[0]), self.ckey(eng, st, c.args[1])
            if a and b:
                if c.op == "==":
                    a, b = sorted((a, b))
                k = (c.op, a, b)
        if k is not None:
            old = [x for x in st.cl if x[0] == "A" and x[1] == k]
            if old and old[0][2] != val:
                st.cl = "dead"
                return
            self.fact(st, k, val)

    def ckey(self, eng, st, c):
        i = ssidx(c)
        if i is not None:
            return ("ss", self.side(eng, st, i))
        s = strip(c)
        if s.op in ("ld",) and isfld(s.args[0], SS) or (s.op == "m" and s.args[0] == "get" and any(isfld(x, SS) for x in subterms(s))):
            return ("arr",)
        if s.op == "ld" and isfld(s.args[0], MSS):
            return ("mss",)
        if any(isfld(x, CNT) for x in subterms(s)):
            return ("cnt",)
        if any((x.op in ("f", "r") and "GeoMap::Face::pixelArea" in x.args) or isfld(x, "GeoMap::Face::pixelArea_") for x in subterms(s)):
            if s.op == "+":
                return ("areas",)
            return ("area", self.side(eng, st, s))
        return None


# ------------------------------------------------------------------ preMergeFaces
class Pre(Fcs):
    def side(self, eng, st, t):
        out = set()
        for x in allsub(eng, t):
            if x.op in ("f", "r"):
                n = [a for a in x.args if isinstance(a, str)]
                if any(a.startswith("GeoMap::Dart::left") for a in n):
                    out.add("L")
                elif any(a.startswith("GeoMap::Dart::right") for a in n):
                    out.add("R")
        return out.pop() if len(out) == 1 else "?"

    def on_write(self, eng, st, ctx, ins, loc, val):
        if st.cl == "dead" or root(loc).op in ("var", "tmp"):
            return
        if isfld(loc, MERGED):
            v = strip(val)
            i = None
            if v.op == "ld":
                i = funidx(v.args[0])
            if i is not None:
                self.add(st, ("copy", self.side(eng, st, i)))
            elif v.op == "mk" and len(v.args) == 1 or v.op == "empty":
                self.add(st, ("reset",))
            else:
                self.add(st, ("set", str(v)))
        elif isfld(loc, L1) or isfld(loc, L2):
            self.add(st, ("lab", last(loc.args[1]), self.side(eng, st, val)))
        elif isfld(loc, MSS):
            i = ssidx(val)
            v = "0" if is_null(val) else ("ss", self.side(eng, st, i)) if i is not None else str(val)
            st.cl = tuple(x for x in st.cl if x[0] != "mss") + (("mss", v),)
        elif isfld(loc, CNT) or isfld(loc, FUN) or ssidx(loc) is not None or isfld(loc, SS) or funidx(loc) is not None:
            self.add(st, ("early", site(ctx, ins)))
        elif loc.op == "elt" and isfld(loc.args[0], FUN):
            self.add(st, ("early", site(ctx, ins)))

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if st.cl == "dead":
            return
        if isfld(loc, MERGED):
            if m == "reset":
                self.add(st, ("reset",))
            elif m == "operator()":
                i = funidx(args[0][1]) if args and args[0][0] == "L" else None
                self.add(st, ("fold", self.side(eng, st, i) if i is not None else "?"))
            else:
                self.add(st, ("set", m))
        elif funidx(loc) is not None or isfld(loc, FUN) or isfld(loc, SS):
            if m not in ("get", "operator*", "operator->", "operator[]"):
                self.add(st, ("early", site(ctx, ins)))

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if st.cl != "dead" and f["n"] == F + "rescanFace" and len(args) == 2:
            if isfld(args[1][1], MERGED):
                self.add(st, ("scan", self.side(eng, st, args[0][1])))
            else:
                self.add(st, ("early", site(ctx, ins)))

    def on_delete(self, eng, st, ctx, ins, ptr):
        self.add(st, ("early", site(ctx, ins)))


def check_pre(prog, rep, f):
    c = Pre(prog, f)
    e = run_engine(prog, c, f, rep)
    seen = set()
    for kind, cl, st, ret, ctx, ins in c.exits:
        if kind != "return" or cl == "dead" or cl in seen:
            continue
        seen.add(cl)
        if ret is not None and is_null(retval(st, e, ret)):
            continue                       # a veto: nothing will be merged
        facts = {x[1]: x[2] for x in cl if x[0] == "A"}
        for x in cl:
            if x[0] == "early":
                rep.bad("early", f, "statistics change before the operation is certain", x[1])
        rep.ok("early", f)
        got, first, bad = {}, None, None
        for x in cl:
            if x[0] in ("copy", "reset"):
                if got:
                    bad = "the aggregate is overwritten after it received a face"
                got, first = {}, x[0]
                if x[0] == "copy":
                    got[x[1]] = [("copy")]
            elif x[0] in ("fold", "scan"):
                if first is None:
                    bad = "the aggregate still contains the previous merge"
                got.setdefault(x[1], []).append(x[0])
            elif x[0] == "set":
                bad = "the aggregate is set to %s" % x[1]
        for s in "LR":
            n = len(got.get(s, []))
            if n == 0 and facts.get(("area", s)) is False and first is not None:
                got[s] = ["none"]
            elif n != 1:
                bad = bad or "the %s face enters the aggregate %d times" % ({"L": "left", "R": "right"}[s], n)
        if "?" in got:
            bad = bad or "an unknown face enters the aggregate"
        if bad:
            rep.bad("pre", f, bad, f.short())
            continue
        rep.ok("pre", f)
        labs = {x[1]: x[2] for x in cl if x[0] == "lab"}
        if sorted(labs.values()) != ["L", "R"]:
            rep.bad("pre", f, "the labels of the two faces are not remembered", f.short())
        if facts.get(("arr",)) is False:
            continue
        kinds = {s: got[s][0] for s in "LR"}
        mss = [x[1] for x in cl if x[0] == "mss"]
        mss = mss[-1] if mss else None
        k = sorted(kinds.values())
        good, why = True, ""
        eq = facts.get(("==", ("ss", "L"), ("ss", "R")))
        if "copy" not in k:
            good, why = mss == "0", "re-scanned faces are not marked as normally sampled"
        elif k == ["copy", "fold"]:
            zero = facts.get(("ss", "L")) is False or facts.get(("ss", "R")) is False
            good = eq is True and (mss in (("ss", "L"), ("ss", "R")) or (mss == "0" and zero))
            why = "differently sampled faces are mixed, or the sampling flag is not theirs"
        else:
            x = [s for s in "LR" if kinds[s] == "copy"][0]
            y = "R" if x == "L" else "L"
            lt = facts.get(("<", ("ss", x), ("ss", y)))
            gt = facts.get(("<", ("ss", y), ("ss", x)))
            smaller = lt is True or (gt is False and eq is False)
            good = mss == ("ss", x) and smaller
            why = "the finer sampled face is not the one that is re-scanned, or the sampling flag is not the kept face's"
        if good:
            rep.ok("sampling", f)
        else:
            rep.bad("sampling", f, why, f.short())


# ------------------------------------------------------------------ postMergeFaces
class Post(Fcs):
    def side(self, eng, st, t):
        t = strip(t)
        if any(isfld(x, "GeoMap::Face::label_") or (x.op in ("f", "r") and "GeoMap::Face::label" in x.args) for x in subterms(t)):
            return "S"
        eq = None
        for x in st.cl:
            if x[0] == "A" and x[1][0] == "same":
                eq = (x[1][1], x[2])
        if t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] in (L1, L2):
            n = 1 if t.args[0].args[1] == L1 else 2
            if eq is None:
                return "?"
            return "S" if (eq[0] == n) == eq[1] else "M"
        return "?"

    def on_assume(self, eng, st, ctx, cond, val):
        if st.cl == "dead":
            return
        c, v = cond, val
        while c.op == "!":
            c, v = c.args[0], not v
        if c.op == "==":
            a, b = strip(c.args[0]), strip(c.args[1])
            for x, y in ((a, b), (b, a)):
                if x.op == "ld" and x.args[0].op == "fld" and x.args[0].args[1] in (L1, L2) and self.side(eng, st, y) == "S":
                    n = 1 if x.args[0].args[1] == L1 else 2
                    for q in st.cl:
                        if q[0] == "A" and q[1][0] == "same" and (q[1][1] == n) != (q[2] == v):
                            st.cl = "dead"
                            return
                    self.fact(st, ("same", n), v)
                    return
        super().on_assume(eng, st, ctx, cond, val)

    def on_write(self, eng, st, ctx, ins, loc, val):
        if st.cl == "dead" or root(loc).op in ("var", "tmp"):
            return
        i = funidx(loc)
        if i is not None:
            v = strip(val)
            good = v.op == "ld" and isfld(v.args[0], MERGED)
            self.add(st, ("take" if good else "clobber", self.side(eng, st, i)))
        elif loc.op == "elt" and isfld(loc.args[0], FUN):
            self.add(st, ("null" if is_null(val) else "clobber", self.side(eng, st, loc.args[1])))
        elif isfld(loc, CNT):
            d = delta(eng.load(st, loc), val)
            self.add(st, ("cnt", sum(1 for x in st.cl if x[0] == "cnt"), d))
            st.cl = tuple(x for x in st.cl if not (x[0] == "A" and x[1] == ("cnt",)))
        elif isfld(loc, SS):
            self.add(st, ("drop",) if is_null(val) else ("clobber", "array"))
        elif ssidx(loc) is not None:
            v = strip(val)
            self.add(st, ("flag", self.side(eng, st, ssidx(loc)), "mss" if v.op == "ld" and isfld(v.args[0], MSS) else "0" if is_null(v) else "?"))

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if st.cl == "dead":
            return
        if isfld(loc, SS) and m == "reset":
            self.add(st, ("drop",) if not args or is_null(args[0][1]) else ("clobber", "array"))
        elif isfld(loc, FUN) and m not in ("operator[]", "at", "size"):
            self.add(st, ("clobber", m))
        elif funidx(loc) is not None:
            self.add(st, ("clobber", self.side(eng, st, funidx(loc))))

    def on_delete(self, eng, st, ctx, ins, ptr):
        if st.cl == "dead":
            return
        p = strip(ptr)
        if p.op == "ld" and p.args[0].op == "elt" and isfld(p.args[0].args[0], FUN):
            self.add(st, ("del", self.side(eng, st, p.args[0].args[1])))


def check_post(prog, rep, f):
    c = Post(prog, f)
    run_engine(prog, c, f, rep)
    seen = set()
    for kind, cl, st, ret, ctx, ins in c.exits:
        if kind != "return" or cl == "dead" or cl in seen:
            continue
        seen.add(cl)
        ev = [x for x in cl if x[0] != "A"]
        facts = {x[1]: x[2] for x in cl if x[0] == "A"}
        names = lambda k: [x[1] for x in ev if x[0] == k]
        if names("take") != ["S"]:
            rep.bad("post", f, "the survivor does not receive the aggregate exactly once", f.short())
        elif names("clobber"):
            rep.bad("post", f, "another face's statistics change", f.short())
        elif names("del") != ["M"] or names("null") != ["M"]:
            rep.bad("post", f, "the removed face's statistics are not released and cleared exactly once", f.short())
        elif [x[0] for x in ev if x[0] in ("del", "null")] != ["del", "null"]:
            rep.bad("post", f, "the removed face's entry is cleared before it is released", f.short())
        else:
            rep.ok("post", f)
        if facts.get(("arr",)) is False:
            if names("cnt"):
                rep.bad("count", f, "the count changes without supersampled faces", f.short())
            continue
        s, m, g = facts.get(("ss", "S")), facts.get(("ss", "M")), facts.get(("mss",))
        d = sum(x[2] if x[2] is not None else 99 for x in ev if x[0] == "cnt")
        if ("arr",) in facts or ev:
            # delta expected from the branch facts; None = the path did not find out
            ds = 0 if s is False or g is True else -1 if (s is True and g is False) else None
            dm = -1 if m is True else 0 if m is False else None
            flag = [x for x in ev if x[0] == "flag" and x[1] == "S"]
            if ds is None or dm is None:
                rep.bad("count", f, "the flags of the two faces are not both taken into account", f.short())
            elif d != ds + dm:
                rep.bad("count", f, "the count of supersampled faces changes by %d instead of %d" % (d, ds + dm), f.short())
            elif len(flag) != 1 or flag[0][2] not in ("mss",) and not (flag[0][2] == "0" and g is False):
                rep.bad("count", f, "the survivor's sampling flag is not replaced by the aggregate's", f.short())
            elif ("drop",) in ev and facts.get(("cnt",)) is not False:
                rep.bad("count", f, "the flag array is dropped although supersampled faces remain", f.short())
            elif ("drop",) not in ev and facts.get(("cnt",)) is not True and d:
                rep.bad("count", f, "the flag array is kept when the last supersampled face is gone", f.short())
            elif ("drop",) in ev and order(ev):
                rep.bad("count", f, "the flag array is used after it was dropped", f.short())
            else:
                rep.ok("count", f)


def order(ev):
    i = ev.index(("drop",))
    return any(x[0] == "flag" for x in ev[i:])


# ------------------------------------------------------------------ associatePixels
class Assoc(Post):
    """events: reset/scan/feed of the face's functor, loop completion"""
    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if st.cl == "dead":
            return
        i = funidx(loc)
        if i is not None:
            s = self.side(eng, st, i)
            if m == "reset":
                self.add(st, ("reset", s))
            elif m == "operator()":
                st.cl = tuple(x for x in st.cl if x[0] != "done")
                self.add(st, ("feed", s, self.pixel(eng, st, args)))
            else:
                self.add(st, ("clobber", m))
            return
        super().on_mutate(eng, st, ctx, ins, loc, m, args)

    def pixel(self, eng, st, args):
        """the value is the original image at the current pixel's (x, y)"""
        v = args[0][1]
        if v.op == "obj":
            v = v.args[0]
        if v.op == "ld":
            v = v.args[0]
            v = v.args[0] if v.op == "obj" else v
        if v.op == "m" and v.args[0] in ("operator()", "operator[]") and any(isfld(x, F + "originalImage_") for x in subterms(v)):
            a = [x for x in v.args[2:]]
            if len(a) == 1 and a[0].op == "mk":
                a = [x for x in a[0].args if hasattr(x, "op")]
            if len(a) == 2:
                fx, fy = [self.coord(x) for x in a]
                if fx and fy and (fx[0], fy[0]) == ("x", "y") and fx[1] is fy[1]:
                    self.cursors.add(fx[1])
                    return "ok"
        return "?"

    cursors = None

    def coord(self, t):
        t = strip(t)
        if t.op == "ld" and t.args[0].op == "fld":
            return last(t.args[0].args[1]), t.args[0].args[0]
        if t.op == "fieldof":
            return last(t.args[0]), t.args[1]
        return None

    def on_write(self, eng, st, ctx, ins, loc, val):
        if st.cl != "dead" and funidx(loc) is not None:
            v = strip(val)
            if v.op in ("mk", "empty") and len(v.args) <= 1:
                self.add(st, ("reset", self.side(eng, st, funidx(loc))))
                return
        super().on_write(eng, st, ctx, ins, loc, val)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if st.cl != "dead" and f["n"] == F + "rescanFace" and len(args) == 2:
            i = funidx(args[1][1])
            self.add(st, ("scan", self.side(eng, st, i) if i is not None else "?",
                          any(x.op == "p" and x.args[0] == self.ps[0] for x in subterms(args[0][1]))))

    def on_assume(self, eng, st, ctx, cond, val):
        if st.cl == "dead":
            return
        c, v = cond, val
        while c.op == "!":
            c, v = c.args[0], not v
        if c.op in ("==", "<"):
            px = lambda t: any(x.op == "p" and x.args[0] == self.ps[1] for x in allsub(eng, t))
            its = [a for a in c.args if a.op == "iter" and a.args[0] == "end" and px(a)]
            sz = [a for a in c.args if a.op == "m" and a.args[0] == "size" and px(a)]
            area = [a for a in c.args if self.ckey(eng, st, a) and self.ckey(eng, st, a)[0] == "area"]
            if sz and area:
                self.fact(st, ("allnew",), v if c.op == "==" else None)
                return
            if its or (sz and not area):
                done = v if c.op == "==" else not v
                other = [a for a in c.args if a not in its + sz]
                st.cl = tuple(x for x in st.cl if x[0] not in ("done", "round"))
                if done:
                    self.add(st, ("done",))
                else:
                    self.add(st, ("round",))
                # where the walk starts
                if not any(x[0] == "start" for x in st.cl):
                    self.add(st, ("start",))
                    for a in other:
                        a = strip(a)
                        if not (a is ZERO or a.op == "iter" and a.args[0] == "begin"):
                            self.add(st, ("skip",))
                return
        if c.op == "m" and c.args[0] == "size" and any(x.op == "p" and x.args[0] == self.ps[1] for x in allsub(eng, c)):
            st.cl = tuple(x for x in st.cl if x[0] not in ("done", "round"))
            self.add(st, ("round",) if v else ("done",))
            if ("start",) not in st.cl:
                self.add(st, ("start",))
            return
        super().on_assume(eng, st, ctx, cond, val)

    def on_loop_head(self, eng, st, ctx, block):
        """one round of the pixel loop feeds exactly one pixel"""
        if st.cl == "dead":
            return
        n = sum(1 for x in st.cl if x[0] == "feed")
        if ("round",) in st.cl:
            if n != 1:
                self.errs.append("a pixel is accumulated %d times" % n)
            st.cl = tuple(x for x in st.cl if x[0] not in ("feed", "round")) + \
                ((("fed",),) if ("fed",) not in st.cl else ())
            st.cl = tuple(dict.fromkeys(st.cl))


def check_assoc(prog, rep, f):
    c = Assoc(prog, f)
    c.errs, c.cursors = [], set()
    feeds = []
    om = c.on_mutate

    def wrap(eng, st, ctx, ins, loc, m, args):
        om(eng, st, ctx, ins, loc, m, args)
        if st.cl != "dead":
            feeds.extend(x for x in st.cl if x[0] == "feed")
    c.on_mutate = wrap
    run_engine(prog, c, f, rep)
    for x in set(feeds):
        if x[1] != "S":
            rep.bad("pixels", f, "pixels are accumulated for a face that did not receive them", f.short())
        elif x[2] != "ok":
            rep.bad("pixels", f, "the value accumulated is not the image at the pixel's own position", f.short())
        else:
            rep.ok("pixels", f)
    for w in set(c.errs):
        rep.bad("pixels", f, w, f.short())
    seen = set()
    for kind, cl, st, ret, ctx, ins in c.exits:
        if kind != "return" or cl == "dead" or cl in seen:
            continue
        seen.add(cl)
        ev = [x for x in cl if x[0] != "A"]
        facts = {x[1]: x[2] for x in cl if x[0] == "A"}
        scan = [x for x in ev if x[0] == "scan"]
        reset = [x for x in ev if x[0] == "reset"]
        done = ("done",) in ev
        bad = None
        if [x for x in ev if x[0] == "clobber"]:
            bad = "another face's statistics change"
        elif ("skip",) in ev:
            bad = "the first pixels are skipped"
        elif scan:
            if len(scan) != 1 or len(reset) != 1 or scan[0][1:] != ("S", True) or ev.index(reset[0]) > ev.index(scan[0]):
                bad = "the face is re-scanned without a reset, or the wrong face is"
            elif done or ("fed",) in ev:
                bad = "pixels are accumulated in addition to re-scanning the face"
        elif reset:
            if facts.get(("allnew",)) is not True or not done:
                bad = "the samples of a face are dropped although it has other pixels than those handed over"
        elif not done:
            bad = "the pixels handed over are not all accumulated"
        if bad:
            rep.bad("pixels", f, bad, f.short())
        else:
            rep.ok("pixels", f)
        # flags
        flag = [x for x in ev if x[0] == "flag"]
        d = sum(x[2] if x[2] is not None else 99 for x in ev if x[0] == "cnt")
        if flag or d or reset or scan:
            if [x[1:] for x in flag] != [("S", "0")] or d != -1 or not reset:
                rep.bad("count", f, "sampling flag, count and samples of a face do not change together", f.short())
            elif facts.get(("ss", "S")) is not True:
                rep.bad("count", f, "the count is lowered for a face that was not supersampled", f.short())
            elif ("drop",) in ev and facts.get(("cnt",)) is not False:
                rep.bad("count", f, "the flag array is dropped although supersampled faces remain", f.short())
            elif ("drop",) not in ev and facts.get(("cnt",)) is not True:
                rep.bad("count", f, "the flag array is kept when the last supersampled face is gone", f.short())
            else:
                rep.ok("count", f)
        elif ("drop",) in ev:
            rep.bad("count", f, "the flag array is dropped although supersampled faces remain", f.short())


# ------------------------------------------------------------------ rescanFace
class Scan(Recorder):
    def __init__(self, prog, f):
        super().__init__(prog)
        self.f, self.bad, self.good = f, [], 0
        self.ps = [f.vars[v]["name"] for v in f.params]

    def start(self, eng):
        return (None, 0)

    def isf(self, loc):
        return loc.op == "obj" and loc.args[0] is T("p", self.ps[1])

    def on_assume(self, eng, st, ctx, cond, val):
        c, v = cond, val
        while c.op == "!":
            c, v = c.args[0], not v
        if c.op == "==" and any(self.islab(strip(a)) for a in c.args):
            self.end(st)
            st.cl = (v, 0)

    def islab(self, a):
        return any(isfld(x, "GeoMap::Face::label_") or (x.op in ("f", "r") and "GeoMap::Face::label" in x.args) for x in subterms(a))

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if self.isf(loc):
            if m != "operator()":
                self.bad.append("the functor is changed by %s" % m)
            elif st.cl[0] is not True:
                self.bad.append("a pixel is accumulated without its label being the face's")
            else:
                st.cl = (st.cl[0], min(st.cl[1] + 1, 3))
                self.val(eng, args)

    def val(self, eng, args):
        t = args[0][1]
        if not any(isfld(x, F + "originalImage_") for x in subterms(t)):
            self.bad.append("the value accumulated does not come from the original image")
            return
        for m in subterms(t):
            if m.op == "m" and m.args[0] == "operator()":
                a = m.args[2:]
                if len(a) == 2:
                    n = []
                    for x in a:
                        k = {last(y.args[0]) for y in subterms(x) if y.op == "fieldof" and isinstance(y.args[0], str)} | \
                            {last(y.args[1]) for y in subterms(x) if y.op == "fld" and isinstance(y.args[1], str)}
                        n.append("x" in k and "y" not in k and "x" or "y" in k and "x" not in k and "y" or "?")
                    if n == ["y", "x"]:
                        self.bad.append("x and y of the pixel are exchanged")

    def end(self, st):
        k, n = st.cl
        if k is True:
            if n != 1:
                self.bad.append("a pixel of the face is accumulated %d times" % n)
            else:
                self.good += 1

    def on_loop_head(self, eng, st, ctx, block):
        if st.cl[0] is not None:
            self.end(st)
            st.cl = (None, 0)

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        if kind == "return":
            self.end(st)


def check_scan(prog, rep, f):
    c = Scan(prog, f)
    run_engine(prog, c, f, rep)
    for w in sorted(set(c.bad)):
        rep.bad("scan", f, w, f.short())
    if not c.good:
        rep.bad("scan", f, "no pixel with the face's label is ever accumulated", f.short())
    elif not c.bad:
        rep.ok("scan", f)
    bb = Names(prog, f, "GeoMap::Face::boundingBox")
    if bb:
        rep.ok("scan", f)


def Names(prog, f, name):
    rc = reach(prog)
    for i in f.ins.values():
        if i["o"] in ("call", "ctor") and "f" in i:
            if i["f"]["n"] == name:
                return True
    return any(prog.fns[x].name == name for x in rc[f.id] if x in prog.fns)


def check_roi(prog, rep):
    """the integer rectangle of a bounding box includes its last row and column"""
    for f in prog.byname.get("detail::intPos", []):
        if "Box" not in prog.tstr(f.vars[f.params[0]]["t"]):
            continue
        c = Recorder(prog)
        e = run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            v = retval(st, e, ret)
            one = lambda a: hasattr(a, "op") and a.op in ("c", "flt") and a.args[0] in (1, 1.0, 1.5)
            if any(any(one(a) for a in x.args) for x in subterms(v) if x.op not in ("elt", "c", "flt")):
                rep.ok("scan", f)
            else:
                rep.bad("scan", f, "the last row and column of the bounding box are left out", f.short())


# ------------------------------------------------------------------ initialisation
def check_init(prog, rep):
    for f in prog.byname.get("detail::InitFaceFunctors::operator()", []):
        class I(Recorder):
            def start(self, eng):
                return (None, 0)

            def on_assume(self, eng, st, ctx, cond, val):
                c, v = cond, val
                while c.op == "!":
                    c, v = c.args[0], not v
                if c.op == "<":
                    if c.args[1] is ZERO:
                        st.cl = (not v, st.cl[1])
                    elif isc(c.args[0]) and c.args[0].args[0] == -1:
                        st.cl = (v, st.cl[1])
                    else:
                        st.cl = ("odd", st.cl[1])

            def on_mutate(self, eng, st, ctx, ins, loc, m, args):
                if m == "operator()" and loc.op == "obj":
                    t = str(loc)
                    good = any(x.op == "p" and x.args[0] == f.vars[f.params[0]]["name"] for x in subterms(loc)) and \
                        any(x.op == "p" and x.args[0] == f.vars[f.params[1]]["name"] for x in subterms(args[0][1]))
                    st.cl = (st.cl[0], st.cl[1] + 1 if good and st.cl[1] < 3 else 9)
        c = I(prog)
        run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            pos, n = cl
            if (pos is True and n == 1) or (pos is False and n == 0):
                rep.ok("init", f)
            else:
                rep.bad("init", f, "a labelled pixel is accumulated %s times" % (n if n < 9 else "wrong"), f.short())
    for f in prog.byname.get("FaceColorStatistics::FaceColorStatistics", []):
        if f.implicit or len(f.params) < 2:
            continue

        class K(Recorder):
            def inline(self, eng, fn, ctx, ins):
                return False

            def on_new(self, eng, st, ctx, ins, *a):
                self.rec(st, ctx, ins, "new")

            def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
                n = last(f["n"])
                if n in ("inspectTwoImages", "ensureMinSampleCount", "attachHooks"):
                    self.rec(st, ctx, ins, n)

            def on_assume(self, eng, st, ctx, cond, val):
                c, v = cond, val
                while c.op == "!":
                    c, v = c.args[0], not v
                if "minSampleCount" in str(c):
                    self.rec(st, ctx, ins=None, kind="A", *()) if False else None
                    st.cl = st.cl + (("min", v, ""),)
        c = K(prog)
        run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            n = [x[0] for x in cl]
            if n.count("inspectTwoImages") != 1:
                rep.bad("init", f, "the pixels are accumulated %d times" % n.count("inspectTwoImages"), f.short())
            elif "new" in n and n.index("new") > n.index("inspectTwoImages"):
                rep.bad("init", f, "pixels are accumulated before the functors exist", f.short())
            elif "ensureMinSampleCount" in n and n.index("ensureMinSampleCount") < n.index("inspectTwoImages"):
                rep.bad("init", f, "sample counts are checked before the pixels are accumulated", f.short())
            elif "ensureMinSampleCount" not in n and ("min", False, "") not in cl:
                rep.bad("init", f, "faces with few samples are not refined", f.short())
            elif n.count("attachHooks") != 1:
                rep.bad("attach", f, "a new object is not connected to the map exactly once", f.short())
            else:
                rep.ok("init", f)
    # refinement: one count per refined face
    for f in prog.byname.get("FaceColorStatistics::ensureMinSampleCount", []):
        class E(Recorder):
            def inline(self, eng, fn, ctx, ins):
                return False

            def start(self, eng):
                return (None, 0, False, None)          # few samples?, count changes, array taken over

            def on_assume(self, eng, st, ctx, cond, val):
                c, v = cond, val
                while c.op == "!":
                    c, v = c.args[0], not v
                few, n, tk, cn = st.cl
                if c.op == "<" and "count" in str(c.args) and any(x.op == "m" and x.args[0] == "count" for x in subterms(c)):
                    a = c.args[0]
                    lt = any(x.op == "m" and x.args[0] == "count" for x in subterms(a))
                    # count < min  |  min < count
                    w = v if lt else (None if not v else False)
                    if few is None:
                        few = w
                elif strip(c).op == "ld" and isfld(strip(c).args[0], CNT) or any(isfld(x, CNT) for x in subterms(c)):
                    cn = v
                st.cl = (few, n, tk, cn)

            def on_write(self, eng, st, ctx, ins, loc, val):
                few, n, tk, cn = st.cl
                if isfld(loc, CNT):
                    d = delta(eng.load(st, loc), val)
                    n += d if d is not None else 9
                    cn = None
                elif isfld(loc, SS):
                    tk = True
                st.cl = (few, max(-3, min(n, 3)), tk, cn)

            def on_mutate(self, eng, st, ctx, ins, loc, m, args):
                if isfld(loc, SS) and m in ("reset", "operator=", "swap"):
                    st.cl = st.cl[:2] + (True,) + st.cl[3:]

            def head(self, st, eng, ctx, block):
                few, n, tk, cn = st.cl
                if few is True and n != 1 or few is not True and n:
                    self.errs.add("refining a face changes the number of supersampled faces by %d" % n)
                elif few is True:
                    self.good += 1
                st.cl = (None, 0, tk, cn)

            def on_loop_head(self, eng, st, ctx, block):
                if block in self.outer.get(ctx.fn.id, ()):
                    self.head(st, eng, ctx, block)
        from .c08 import enclosing_loops
        c = E(prog)
        c.errs, c.good = set(), 0
        c.outer = {f.id: outer_heads(f)}
        run_engine(prog, c, f, rep)
        for w in sorted(c.errs):
            rep.bad("count", f, w, f.short())
        ok = not c.errs and c.good
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind == "return" and cl[3] is not False and not cl[2]:
                rep.bad("count", f, "the flags of supersampled faces are not kept", f.short())
                ok = False
        if ok:
            rep.ok("count", f)


def outer_heads(f):
    """heads of loops that are not nested in another loop"""
    succ = {b: [s for s in blk["succ"] if s is not None] for b, blk in f.blocks.items()} if isinstance(f.blocks, dict) else None
    return _outer(f, succ)


def _outer(f, succ):
    idom = None
    # back edges by DFS
    color, back = {}, []
    st = [(f.entry, iter(succ[f.entry]))]
    color[f.entry] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                back.append((b, s))
            elif s not in color:
                color[s] = 1
                st.append((s, iter(succ.get(s, ()))))
                break
        else:
            color[b] = 2
            st.pop()
    pred = {}
    for b, ss in succ.items():
        for s in ss:
            pred.setdefault(s, []).append(b)
    loops = {}
    for b, h in back:
        body, todo = {h, b}, [b]
        while todo:
            x = todo.pop()
            if x == h:
                continue
            for p in pred.get(x, ()):
                if p not in body:
                    body.add(p)
                    todo.append(p)
        loops.setdefault(h, set()).update(body)
    return {h for h in loops if not any(h in bd and o != h for o, bd in loops.items())}


# ------------------------------------------------------------------ hooks
def check_attach(prog, rep):
    want = {"preMergeFacesHook": "preMergeFaces", "postMergeFacesHook": "postMergeFaces", "associatePixelsHook": "associatePixels"}
    for f in prog.byname.get(F + "attachHooks", []):
        class H(Recorder):
            def on_mutate(self, eng, st, ctx, ins, loc, m, args):
                if m == "connect" and loc.op == "fld" and last(loc.args[1]) in HOOKS:
                    ms = set()
                    for a in args:
                        v = a[1] if a[0] == "V" else eng.argval(st, a)
                        for y in subterms(v):
                            if y.op == "fn" and y.args and y.args[0] in prog.fns:
                                ms.add(last(prog.fns[y.args[0]].name))
                    self.rec(st, ctx, ins, "conn", last(loc.args[1]), tuple(sorted(ms)))
        c = H(prog)
        run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            got = {}
            for x in cl:
                if x[0] == "conn":
                    got.setdefault(x[1], []).append(x[2])
            for h, m in want.items():
                if len(got.get(h, [])) != 1:
                    rep.bad("attach", f, "%s is connected %d times" % (h, len(got.get(h, []))), f.short())
                elif got[h][0] and got[h][0] != (m,):
                    rep.bad("attach", f, "%s calls %s" % (h, got[h][0]), f.short())
                else:
                    rep.ok("attach", f)


# ------------------------------------------------------------------ cell image
C = "CellStatistics::"
TF, TE, FS, ES, ME = C + "tempFaceStatistics_", C + "tempEdgeStatistics_", C + "faceStatistics_", C + "edgeStatistics_", C + "mergedEdges_"
E1, E2 = C + "edge1Label_", C + "edge2Label_"
DT = "vigra::cellimage::GeoMap::DartTraverser::"


class Cell(Recorder):
    fields = frozenset({TF, TE, FS, ES, ME, E1, E2})

    def inline(self, eng, fn, ctx, ins):
        if fn.name.startswith(C):
            return True
        return False

    def which(self, eng, t):
        """what an index or iterator denotes"""
        out = set()
        for x in allsub(eng, t):
            if x.op in ("f", "r"):
                for a in x.args:
                    if isinstance(a, str) and a.startswith("vigra::cellimage::"):
                        out.add(last(a))
            if x.op == "fld" and x.args[1] in (E1, E2):
                out.add(last(x.args[1]))
        return out

    def entry(self, eng, st, loc):
        """faceStatistics_[i] / edgeStatistics_[i] -> (array, what)"""
        if loc.op == "elt" and loc.args[0].op == "fld" and loc.args[0].args[1] in (FS, ES):
            return last(loc.args[0].args[1]), self.idx(eng, st, loc.args[1])
        return None

    def idx(self, eng, st, t):
        w = self.which(eng, t)
        if "leftFaceLabel" in w:
            return "left"
        if "rightFaceLabel" in w:
            return "right"
        s = strip(t)
        if any(x.op == "fld" and last(x.args[1]) == "label" for x in subterms(s)) and any(x.op == "p" for x in subterms(s)):
            return "survivor"
        for n in ("edge1Label_", "edge2Label_"):
            if n in w:
                return n
        for x in st.cl:
            if x[0] == "lab" and x[2] is s:
                return x[1]
        return "?"

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        n, m = f["n"], f["m"]
        if m == "inspectCell" and len(args) == 2 and args[1][1].op == "fld" and args[1][1].args[1] in (TF, TE):
            v = args[0][1] if args[0][0] == "V" else eng.argval(st, args[0])
            w = self.which(eng, v)
            k = "edge" if "edgeScanIterator" in w else "node" if "nodeScanIterator" in w else "face" if "faceScanIterator" in w else "?"
            src = [last(x.args[1]) for x in allsub(eng, v) if x.op == "fld" and last(x.args[1]).startswith(("prepared", "gradient", "smoothed", "edge"))]
            self.rec(st, ctx, ins, "scan", last(args[1][1].args[1]), k, tuple(sorted(set(src) & {"preparedOriginal_", "gradientMagnitude_", "smoothedOriginal_"})))
            return
        if obj is not None and obj.op == "fld" and obj.args[1] in (TF, TE) and not inlined:
            self.op(eng, st, ctx, ins, last(obj.args[1]), m, args)
        elif obj is not None and self.entry(eng, st, obj) and m == "operator=" and not inlined:
            v = args[0][1]
            self.rec(st, ctx, ins, "store", *self.entry(eng, st, obj),
                     last(v.args[1]) if v.op == "fld" else last(v.args[0].args[1]) if v.op == "ld" and v.args[0].op == "fld" else "?")

    def op(self, eng, st, ctx, ins, tmp, m, args):
        if m == "operator=":
            e = self.entry(eng, st, args[0][1]) if args else None
            self.rec(st, ctx, ins, "copy", tmp, *(e or ("?", "?")))
        elif m in ("operator()", "merge"):
            e = self.entry(eng, st, args[0][1]) if args and args[0][0] == "L" else None
            self.rec(st, ctx, ins, "fold", tmp, *(e or ("value", str(args[0][1])[:40])))
        elif m == "reset":
            self.rec(st, ctx, ins, "reset", tmp, "", "")

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op == "fld" and loc.args[1] in (E1, E2):
            st.cl = tuple(x for x in st.cl if not (x[0] == "lab" and x[1] == last(loc.args[1]))) + \
                (("lab", last(loc.args[1]), strip(val), ""),)
        if loc.op == "fld" and loc.args[1] in (TF, TE):
            v = strip(val)
            e = self.entry(eng, st, v.args[0]) if v.op == "ld" else None
            if e is None and v.op in ("mk", "empty"):
                self.rec(st, ctx, ins, "reset", last(loc.args[1]), "", "")
            else:
                self.rec(st, ctx, ins, "copy", last(loc.args[1]), *(e or ("?", "?")))
        e = self.entry(eng, st, loc)
        if e:
            v = strip(val)
            self.rec(st, ctx, ins, "store", *e, last(v.args[0].args[1]) if v.op == "ld" and v.args[0].op == "fld" else "?")

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if loc.op == "fld" and loc.args[1] in (TF, TE):
            self.op(eng, st, ctx, ins, last(loc.args[1]), m, args)

    def on_assume(self, eng, st, ctx, cond, val):
        c, v = cond, val
        while c.op == "!":
            c, v = c.args[0], not v
        if c.op == "==" and any(is_null(a) for a in c.args):
            c, v = [a for a in c.args if not is_null(a)][0], not v
        w = self.which(eng, c)
        if c.op in ("f", "r") and ("leftFaceLabel" in w or "rightFaceLabel" in w):
            self.rec(st, ctx, None, "border", "left" if "leftFaceLabel" in w else "right", not v)


def aggregate(cl, tmp):
    """contributions after the last (re)start, or None when started twice"""
    out, started, twice = [], False, False
    for x in cl:
        if x[0] in ("copy", "reset") and x[1] == tmp:
            if out:
                twice = True
            started = True
            out = [(x[2], x[3])] if x[0] == "copy" else []
        elif x[0] == "fold" and x[1] == tmp:
            out.append((x[2], x[3]))
        elif x[0] == "scan" and x[1] == tmp:
            out.append(("scan:" + "".join(x[3]), x[2]))
    return (sorted(out) if started and not twice else None)


def check_cells(rep):
    prog = Program(["cellimage"])
    A = ("faceStatistics_", "left")
    B = ("faceStatistics_", "right")
    W = ("scan:preparedOriginal_", "edge")
    G = ("scan:gradientMagnitude_", "node")
    want = {"preMergeFaces": ("tempFaceStatistics_", [sorted([A, B, W])]),
            "preRemoveBridge": ("tempFaceStatistics_", [sorted([A, W]), sorted([B, W])]),
            "preMergeEdges": ("tempEdgeStatistics_", [sorted([("edgeStatistics_", "edge1Label_"), ("edgeStatistics_", "edge2Label_"), G])])}
    for m, (tmp, w) in want.items():
        for f in prog.byname.get(C + m, []):
            c = Cell(prog)
            run_engine(prog, c, f, rep)
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind != "return":
                    continue
                if any(x[0] == "store" for x in cl):
                    rep.bad("cpre", f, "statistics change before the operation", f.short())
                got = aggregate(cl, tmp)
                if m == "preMergeEdges" and any(x[0] == "border" and x[2] for x in cl):
                    # border edges keep the maximum
                    if got is not None and len(got) == 1 and got[0][0] == "value":
                        rep.ok("cpre", f)
                    else:
                        rep.bad("cpre", f, "a border edge does not get the border value", f.short())
                elif got in w:
                    rep.ok("cpre", f)
                else:
                    rep.bad("cpre", f, "the aggregate consists of %s" % (got,), f.short())
                if m == "preMergeEdges":
                    labs = {x[1]: x[2] for x in cl if x[0] == "lab"}
                    if len(labs) != 2 or len(set(labs.values())) != 2:
                        rep.bad("tree", f, "the labels of the two edges are not both remembered", f.short())
                    else:
                        rep.ok("tree", f)
    for m, a, t in (("postMergeFaces", "faceStatistics_", "tempFaceStatistics_"), ("postRemoveBridge", "faceStatistics_", "tempFaceStatistics_"),
                    ("postMergeEdges", "edgeStatistics_", "tempEdgeStatistics_")):
        for f in prog.byname.get(C + m, []):
            c = Cell(prog)
            if m == "postMergeEdges":
                c = Tree(prog)
            run_engine(prog, c, f, rep)
            seen = set()
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind != "return" or cl in seen:
                    continue
                seen.add(cl)
                s = [x[1:4] for x in cl if x[0] == "store"]
                if s == [(a, "survivor", t)]:
                    rep.ok("cpost", f)
                else:
                    rep.bad("cpost", f, "the survivor does not receive the aggregate exactly once", f.short())
                if m == "postMergeEdges":
                    w = [x for x in cl if x[0] == "link"]
                    if len(w) != 1:
                        rep.bad("tree", f, "the merged edge is linked %d times" % len(w), f.short())
                    elif not w[0][1]:
                        rep.bad("tree", f, "the merged edge is not linked at the end of the survivor's list", f.short())
                    elif not w[0][2]:
                        rep.bad("tree", f, "the label linked is not the merged edge's", f.short())
                    else:
                        rep.ok("tree", f)
    # accumulator
    comp = ("count_", "sum_", "squareSum_")
    for m, sign in (("merge", 1), ("operator()", 1), ("remove", -1), ("reset", 0)):
        for f in prog.byname.get("StatisticFunctor::" + m, []):
            class A2(Recorder):
                fields = frozenset({"StatisticFunctor::" + x for x in comp})

                def start(self, eng):
                    return ()

                def on_write(self, eng, st, ctx, ins, loc, val):
                    if loc.op == "fld" and last(loc.args[1]) in comp and root(loc).op not in ("var", "tmp"):
                        st.cl = st.cl + ((last(loc.args[1]), strip(eng.load(st, loc)), strip(val), loc),)

                def on_mutate(self, eng, st, ctx, ins, loc, m, args):
                    if loc.op == "fld" and last(loc.args[1]) in comp:
                        k = {"operator+=": 1, "operator-=": -1}.get(m)
                        v = strip(eng.argval(st, args[0]) if args[0][0] == "L" else args[0][1]) if args else ZERO
                        old = strip(eng.load(st, loc))
                        st.cl = st.cl + ((last(loc.args[1]), old, add(old, v if k == 1 else neg(v)) if k else T("x", m), loc),)
            c = A2(prog)
            run_engine(prog, c, f, rep)
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind != "return":
                    continue
                w = {}
                for x in cl:
                    w.setdefault(x[0], []).append(x)
                bad = None
                for k in comp:
                    if len(w.get(k, [])) != 1:
                        bad = "%s changes %d times" % (k, len(w.get(k, [])))
                        break
                    _, old, new, loc = w[k][0]
                    d = add(new, neg(old))
                    if sign == 0:
                        if any(x.op in ("p", "ld") for x in subterms(new)):
                            bad = "%s is not reset" % k
                    elif k == "count_" and isc(d):
                        if d.args[0] != sign:
                            bad = "count_ changes by %s" % d
                    elif any(x.op == "fld" and last(x.args[1]) in comp for x in subterms(d)):
                        o = [x for x in subterms(d) if x.op == "fld" and last(x.args[1]) in comp]
                        if any(last(x.args[1]) != k for x in o):
                            bad = "%s is combined with another component" % k
                        if d.op == "neg" or (d.op == "*" and isc(d.args[0])):
                            bad = "%s is subtracted" % k
                    elif k != "count_":
                        ps = [x for x in subterms(d) if x.op == "p"]
                        neg_ = d.op == "neg" or (d.op == "*" and any(isc(a) and a.args[0] < 0 for a in d.args)) or str(d).startswith("-")
                        if not ps:
                            bad = "%s does not depend on the value" % k
                        elif neg_ != (sign < 0):
                            bad = "%s changes in the wrong direction" % k
                if bad:
                    rep.bad("functor", f, bad, f.short())
                else:
                    rep.ok("functor", f)


class Tree(Cell):
    """postMergeEdges: list of merged edges"""
    def inline(self, eng, fn, ctx, ins):
        return fn.name.startswith(C) and last(fn.name) not in ("protectEdge",)

    def on_assume(self, eng, st, ctx, cond, val):
        c, v = cond, val
        while c.op == "!":
            c, v = c.args[0], not v
        if c.op == "==":
            a, b = strip(c.args[0]), strip(c.args[1])
            for x, y in ((a, b), (b, a)):
                if x.op == "ld" and x.args[0].op == "elt" and isfld(x.args[0].args[0], ME) and x.args[0].args[1] is y:
                    st.cl = tuple(q for q in st.cl if q[0] != "end") + ((("end", y),) if v else ())
                if x.op == "ld" and x.args[0].op == "fld" and x.args[0].args[1] in (E1, E2) and self.idx(eng, st, y) == "survivor":
                    st.cl = st.cl + (("is", last(x.args[0].args[1]), v),)

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op == "elt" and isfld(loc.args[0], ME):
            i, v = strip(loc.args[1]), strip(val)
            atend = ("end", i) in st.cl
            other = None
            for x in st.cl:
                if x[0] == "is":
                    surv = x[1] if x[2] else ("edge2Label_" if x[1] == "edge1Label_" else "edge1Label_")
                    other = "edge2Label_" if surv == "edge1Label_" else "edge1Label_"
            good = other is not None and v.op == "ld" and v.args[0].op == "fld" and last(v.args[0].args[1]) == other
            st.cl = tuple(q for q in st.cl if q[0] != "end") + (("link", atend, good),)
            return
        super().on_write(eng, st, ctx, ins, loc, val)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        super().on_call(eng, st, ctx, ins, f, obj, args, inlined)


def run(prog, rep, tier):
    for n, fn in (("preMergeFaces", check_pre), ("postMergeFaces", check_post), ("associatePixels", check_assoc), ("rescanFace", check_scan)):
        for f in prog.byname.get(F + n, []):
            fn(prog, rep, f)
    check_roi(prog, rep)
    check_init(prog, rep)
    check_attach(prog, rep)
    check_cells(rep)
    for r in ("pre", "post", "pixels", "init", "attach", "cpre", "cpost", "functor", "count"):
        rep.need(r, 1)
