from ..core import *
from .c01 import strip

TITLE = "pyramid levels are reproduced by the recorded history"
GROUPS = ["cellimage"]
TECHNIQUE = "static analysis: path-sensitive symbolic bookkeeping of history, checkpoints and level index"
EXPLANATION = ("Every path of the pyramid's operations is followed with a symbolic history: what is appended, what is "
               "performed, how the level index moves, what an exception leaves behind; and every path of the replay: "
               "which checkpoint is restored, which recorded operation is performed at which index, and which elementary "
               "operations each recorded operation type stands for.")
RULES = {"record": "an operation performed on the top level is recorded exactly once, with its own type and dart",
         "fail": "an operation that throws leaves no record behind",
         "index": "the top level's index moves by one with each recorded level",
         "composite": "composite operations collect the operations performed between begin and end, in order",
         "dispatch": "replaying a record performs the elementary operations that the record's type stands for",
         "replay": "going to a level performs exactly the records between its own index and the goal, in order",
         "checkpoint": "checkpoints are stored under their own level index and only used for levels at or above it",
         "cut": "cutting removes exactly the records and checkpoints above the remaining level",
         "dart": "a recorded dart is restored at the same position and direction",
         "levels": "levels below levelCount() are available, and only those"}
P = "vigra::CellPyramid::"
L, O = P + "Level::", P + "Operation::"
HIST, CKPT, TOP, COMP = P + "history_", P + "checkpoints_", P + "topLevel_", P + "composing_"
INDEX, SUB, SEG, STAT, PYR = L + "index_", L + "subIndex_", L + "segmentation_", L + "cellStatistics_", L + "pyramid_"
G = "vigra::cellimage::GeoMap::"
DT = G + "DartTraverser::"
START, END, DEG = G + "EdgeInfo::start", G + "EdgeInfo::end", G + "NodeInfo::degree"
TYPES = ["RemoveIsolatedNode", "MergeFaces", "RemoveBridge", "MergeEdges", "RemoveEdge", "RemoveEdgeWithEnds", "Composite"]
OPS = {"removeIsolatedNode": "RemoveIsolatedNode", "mergeFaces": "MergeFaces", "removeBridge": "RemoveBridge",
       "mergeEdges": "MergeEdges", "removeEdge": "RemoveEdge", "removeEdgeWithEnds": "RemoveEdgeWithEnds"}


def isfld(t, n):
    return t.op == "fld" and t.args[1] == n


def unld(t):
    t = strip(t)
    while t.op in ("ld", "obj"):
        t = t.args[0]
    return t


def strs(t):
    return [a for a in t.args if isinstance(a, str)]


def base(t):
    """the container a modified container value stems from"""
    t = strip(t)
    for _ in range(40):
        if t.op in ("push", "ld", "obj", "addr"):
            t = t.args[0]
        elif t.op == "mut":
            t = next((a for a in t.args if hasattr(a, "op")), t)
        else:
            return t
    return t


def container(t):
    """H: the history, L: the list of its last (composite) record"""
    b = base(t)
    if isfld(b, HIST):
        return "H"
    if b.op == "fieldof" and b.args[0].endswith("opList"):       # of a record just constructed
        i = [x for x in b.args[1].args if isinstance(x, int)]
        return ("L", tuple(i[:2])) if len(i) >= 2 else None
    if b.op == "fld" and b.args[1].endswith("opList"):
        o = b.args[0]
        while o.op == "fld" and o.args[1].endswith("::"):        # anonymous union
            o = o.args[0]
        return ("L", o)
    return None


def enumval(prog, name):
    for k, v in prog.enums.items():
        if strs_tail(k).endswith("OperationType"):
            for x in v["consts"]:
                if x["n"].split("::")[-1] == name:
                    return int(x["v"])
    return None


def strs_tail(k):
    return str(k).split("::")[-1]


def performers(prog):
    """the methods of a level that replay a record"""
    out = []
    for f in prog.fns.values():
        if f.cls == P + "Level" and f.kind == "method" and not f.name.endswith("operator="):
            if any("::Operation" in prog.tstr(f.vars[v]["t"]) for v in f.params):
                out.append(f)
    rec = [f for f in out if f.id in reach(prog).get(f.id, ())]
    return rec or out


class Base(Recorder):
    def __init__(self, prog, f, perf):
        super().__init__(prog)
        self.f, self.perf = f, perf
        self.pn = {p.name for p in perf}

    def start(self, eng):
        return ()

    def ev(self, st, *e):
        st.cl = st.cl + (e,) if len(st.cl) < 40 else st.cl

    def inline(self, eng, fn, ctx, ins):
        if fn.name in self.pn or fn.name in self.stop:
            return False
        if fn.name.startswith(P):
            return True
        return None
    stop = frozenset()


# ------------------------------------------------------------------ history
class H(Base):
    """symbolic history: what the records look like that are appended"""
    stop = frozenset({P + "storeCheckpoint", L + "gotoLevel", L + "operator=", O + "Operation", O + "operator=", O + "~Operation", O + "assign"})

    def setd(self, st, loc, d):
        st.cl = tuple(x for x in st.cl if not (x[0] == "env" and x[1] is loc)) + (("env", loc, d),)

    def desc(self, st, loc):
        l = strip(loc)
        for x in st.cl:
            if x[0] == "env" and x[1] is l:
                return x[2]
        l = unld(loc)
        for x in st.cl:
            if x[0] == "env" and x[1] is l:
                return x[2]
        w = self.which(loc)
        if w == "back":
            b = [x[2] for x in st.cl if x[0] == "env" and x[1] == "back"]
            return b[-1] if b else "old"
        if w == "lback":
            b = [x[2] for x in st.cl if x[0] == "push" and x[1] == "L"]
            return b[-1] if b else "oldlast"
        if w == "item0":
            return "item0"
        return None

    def which(self, loc):
        """names the record a location denotes"""
        l = unld(loc)
        if l.op == "m" or l.op == "f" or l.op == "r":
            n = strs(l)
            c = next((container(a) for a in l.args if hasattr(a, "op") and container(a)), None)
            if any(last(x) == "back" for x in n):
                return "back" if c == "H" else "lback" if c else None
            if any(last(x) == "front" for x in n) and c and c != "H":
                return "item0"
        if l.op == "elt":
            c = container(l.args[0])
            if c == "H":
                i = strip(l.args[1])
                if any(x.op == "m" and any(last(s) == "size" for s in strs(x)) for x in subterms(i)):
                    return "back"
            elif c and l.args[1] is ZERO:
                return "item0"
        if l.op in ("adv", "+", "iter") and container(l) is None:
            pass
        return None

    def on_ctor(self, eng, st, ctx, ins, f, loc, args, inlined):
        if not f["n"].startswith(O + "Operation") and f["n"] != P + "Operation::Operation":
            return
        l = strip(loc)
        if not args:
            self.setd(st, l, ("comp", (), (ctx.id, ins["i"])))
        elif len(args) == 1:
            d = self.desc(st, args[0][1])
            if isinstance(d, tuple) and d[0] == "comp":
                d = d[:2] + ((ctx.id, ins["i"]),)
            self.setd(st, l, d)
        else:
            t = args[0][1]
            if args[0][0] == "L":
                t = eng.argval(st, args[0])
            d = args[1][1] if args[1][0] == "V" else eng.argval(st, args[1])
            ps = {x.args[0] for y in (d, args[1][1]) for x in subterms(y) if x.op == "p"}
            self.setd(st, l, ("op", t.args[0] if isc(t) else str(t), bool(ps - {"this"})))

    def on_copy(self, eng, st, dst, src):
        if st.cl == "dead":
            return
        d = self.desc(st, src)
        if d is not None:
            self.setd(st, strip(dst), d)

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if isfld(strip(loc), CKPT):
            a = [eng.argval(st, x) if x[0] == "L" else x[1] for x in args]
            if m in ("erase", "clear", "insert", "emplace"):
                self.ev(st, "ck", m, self.ckarg(eng, st, m, a))
            return
        c = container(loc)
        if c is None:
            if m in ("push_back", "emplace_back") and args:
                # a list owned by a fresh record
                pass
        if c is None:
            return
        if m in ("push_back", "emplace_back"):
            d = self.desc(st, args[0][1])
            if c == "H":
                st.cl = tuple(x for x in st.cl if not (x[0] == "env" and x[1] == "back")) + (("env", "back", d),)
                self.ev(st, "push", "H", d)
            else:
                o = c[1]
                old = next((x[2] for x in st.cl if x[0] == "env" and isinstance(x[2], tuple) and x[2][0] == "comp" and x[2][2] == o), None) \
                    if isinstance(o, tuple) else self.desc(st, o)
                if isinstance(old, tuple) and old[0] == "comp":
                    new = ("comp", old[1] + (d,), old[2])
                    st.cl = tuple(("env", x[1], new) if x[0] == "env" and x[2] == old else x for x in st.cl)
                elif old == "old":
                    self.ev(st, "push", "L", d)
                else:
                    self.ev(st, "bad", "a record is appended to an unknown list")
        elif m == "pop_back":
            self.ev(st, "pop", c if c == "H" else "L")
        elif m in ("erase", "resize", "clear", "swap", "assign", "insert"):
            a = [eng.argval(st, x) if x[0] == "L" else x[1] for x in args]
            self.ev(st, "cut" if c == "H" else "bad", m if c == "H" else "the list of a composite record is changed by %s" % m,
                    self.cutarg(eng, st, m, a))

    def topidx(self, eng, st, t):
        """is t the (current) index of the top level"""
        t = strip(t)
        cur = strip(eng.load(st, T("fld", T("fld", self.this(), TOP), INDEX)))
        if t is cur:
            return True
        g = [x[1] for x in st.cl if x[0] == "goto"]
        return bool(g and g[-1] is t)

    def this(self):
        return T("obj", T("p", "this"))

    def cutarg(self, eng, st, m, a):
        if m == "resize" and a:
            return self.topidx(eng, st, a[0])
        if m == "erase" and len(a) == 2:
            b, e = (self.unmk(x) for x in a)
            if not (e.op == "iter" and e.args[0] == "end"):
                return False
            parts = b.args if b.op == "+" else (b,)
            it = [x for x in parts if x.op == "iter" and x.args[0] == "begin"]
            rest = [x for x in parts if x not in it]
            if len(it) == 1 and len(rest) == 1:
                return self.topidx(eng, st, rest[0])
        return False

    def unmk(self, t):
        while t.op == "mk" and len([x for x in t.args if hasattr(x, "op")]) == 1:
            t = [x for x in t.args if hasattr(x, "op")][0]
        return t

    def ckarg(self, eng, st, m, a):
        if m == "erase" and len(a) == 2:
            b, e = (self.unmk(x) for x in a)
            k = keyof(b, "upper_bound")
            if e.op == "iter" and e.args[0] == "end" and k is not None and self.topidx(eng, st, k):
                return "above"
        if m == "erase" and len(a) == 1:
            if self.topidx(eng, st, a[0]):
                return "top"
        return None

    def on_write(self, eng, st, ctx, ins, loc, val):
        l = strip(loc)
        if isfld(l, INDEX) and isfld(l.args[0], TOP):
            self.ev(st, "idx", delta(strip(eng.load(st, loc)), strip(val)))
        elif isfld(l, COMP):
            self.ev(st, "compd", delta(strip(eng.load(st, loc)), strip(val)))
        elif isfld(l, HIST) or isfld(l, CKPT):
            self.ev(st, "bad", "%s is replaced" % last(l.args[1]))
        elif isfld(l, TOP):
            self.ev(st, "settop", val)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        n = f["n"]
        if n in self.pn:
            self.ev(st, "perf", self.desc(st, args[0][1]), bool(obj is not None and isfld(unld(obj), TOP)))
        elif n == P + "storeCheckpoint":
            a = unld(args[0][1])
            self.ev(st, "store", "top" if isfld(a, TOP) else "ck" if any(isfld(x, CKPT) for x in subterms(a)) else "?")
        elif n == O + "operator=":
            d = self.desc(st, args[0][1])
            if isinstance(d, tuple) and d[0] == "comp":
                d = d[:2] + ((ctx.id, ins["i"]),)
            if obj is not None and self.which(obj) == "back":
                st.cl = tuple(x for x in st.cl if not (x[0] == "env" and x[1] == "back")) + (("env", "back", d),)
                self.ev(st, "setback", d)
            elif obj is not None:
                self.setd(st, unld(obj), d)
        elif n == L + "gotoLevel":
            t = args[0][1] if args[0][0] == "V" else eng.argval(st, args[0])
            self.ev(st, "goto", strip(t), bool(obj is not None and isfld(unld(obj), TOP)))
        elif n == L + "operator=":
            if obj is not None and isfld(unld(obj), TOP):
                self.ev(st, "settop", unld(args[0][1]))

    def on_assume(self, eng, st, ctx, cond, val):
        c, v = strip(cond), val
        while c.op == "!":
            c, v = c.args[0], not v
        k = lambda t: self.compoff(t)
        if k(c) is not None:
            self.ev(st, "comp", k(c), v)
            return
        if c.op == "==" and len(c.args) == 2:
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if isc(x) and k(y) is not None:
                    self.ev(st, "comp", k(y) - x.args[0], not v)
                    return
        if c.op == "<" and c.args[0] is ZERO and k(c.args[1]) is not None:
            self.ev(st, "comp", k(c.args[1]), v)
            return
        if c.op == "<" and isc(c.args[1]) and c.args[1].args[0] == 1 and k(c.args[0]) is not None:
            self.ev(st, "comp", k(c.args[0]), not v)
            return
        if any(x.op == "m" and any(last(s) == "size" for s in strs(x)) and any(isinstance(container(a), tuple) for a in x.args if hasattr(a, "op"))
               for x in subterms(c)) and c.op == "==" and any(isc(x) and x.args[0] == 1 for x in c.args):
            self.ev(st, "single", v)
            return
        if c.op in ("==", "<"):
            self.ev(st, "cond", c, v)

    def compoff(self, t):
        if t.op == "ld" and isfld(t.args[0], COMP):
            return 0
        if t.op == "+" and len(t.args) == 2 and isc(t.args[1]) and t.args[0].op == "ld" and isfld(t.args[0].args[0], COMP):
            return t.args[1].args[0]
        return None


def keyof(t, meth):
    """container.upper_bound(key) -> key"""
    t = strip(t)
    if t.op == "m" and any(last(s) == meth for s in strs(t)):
        a = [x for x in t.args if hasattr(x, "op")]
        if any(isfld(base(x), CKPT) for x in a):
            r = [x for x in a if not isfld(base(x), CKPT)]
            return strip(r[-1]) if r else None
    return None


def before(t):
    """the element before checkpoints_.upper_bound(key) -> key"""
    for x in subterms(strip(t)):
        if x.op == "adv" and any("--" in s for s in strs(x)) or x.op in ("f", "m", "r") and any(last(s) == "prev" for s in strs(x)) \
                or x.op == "+":
            for y in x.args:
                if hasattr(y, "op"):
                    k = keyof(y, "upper_bound")
                    if k is not None:
                        return k
    return None


def get(cl, k):
    return [x[1:] for x in cl if x[0] == k]


def total(cl, k):
    s = 0
    for x in get(cl, k):
        if x[0] is None:
            return None
        s += x[0]
    return s


def run_h(prog, rep, f, perf):
    c = H(prog, f, perf)
    run_engine(prog, c, f, rep)
    return c


def common(rep, f, cl):
    ok = True
    for (w, *_) in get(cl, "bad"):
        rep.bad("composite", f, w)
        ok = False
    return ok


def composing(cl, off):
    r = [v for d, v in get(cl, "comp") if d == off]
    return r[0] if r and len(set(r)) == 1 else None


def stores(rep, f, cl):
    """checkpoints of the top level are taken between complete levels only"""
    seen = False
    for i, x in enumerate(cl):
        if x[0] == "store" and x[1] == "?":
            rep.bad("checkpoint", f, "a checkpoint of a level that does not belong to the history is stored")
            return
        if x[0] == "store" and x[1] == "top":
            rest = [y for y in cl[i:] if y[0] in ("idx", "perf", "push", "pop")]
            if rest:
                rep.bad("checkpoint", f, "a checkpoint is taken before the level is complete")
                return
            seen = True
    if seen:
        rep.ok("checkpoint", f)


def ops(prog, rep, perf):
    n = 0
    for name, ty in OPS.items():
        for f in prog.byname.get(P + name, []):
            n += 1
            k = TYPES.index(ty) if enumval(prog, ty) is None else enumval(prog, ty)
            c = run_h(prog, rep, f, perf)
            thrown = {True: False, False: False}
            late = {True: False, False: False}
            for kind, cl, st, ret, ctx, ins in c.exits:
                common(rep, f, cl)
                comp = composing(cl, 0)
                pl = [d for w, d in get(cl, "push") if w == "L"]
                ph = [d for w, d in get(cl, "push") if w == "H"]
                pf = get(cl, "perf")
                if kind == "throw":
                    if not pf:
                        continue
                    if comp is None:
                        continue
                    thrown[comp] = True
                    pops = [w[0] for w in get(cl, "pop")]
                    if len(ph) != pops.count("H") or len(pl) != pops.count("L"):
                        rep.bad("fail", f, "an operation that fails %s does not remove exactly its own record" %
                                ("inside a composite" if comp else "is recorded and"))
                    elif total(cl, "idx") != 0:
                        rep.bad("fail", f, "an operation that fails moves the level index")
                    else:
                        rep.ok("fail", f)
                    continue
                if comp is None:
                    rep.bad("record", f, "the operation is recorded without regard to an open composite")
                    continue
                mine, other = (pl, ph) if comp else (ph, pl)
                want = ("op", k, True)
                if mine != [want] or other or get(cl, "pop") or get(cl, "setback") or get(cl, "cut"):
                    what = "not recorded exactly once" if len(mine) != 1 or other else \
                        "recorded with another type or dart" if mine != [want] else "recorded and the history is changed otherwise"
                    rep.bad("record", f, "the operation is %s%s" % (what, " inside a composite" if comp else ""))
                elif [(d, t) for d, t in pf] != [(want, True)]:
                    rep.bad("record", f, "what is performed on the top level is not the one recorded operation")
                else:
                    rep.ok("record", f)
                i = [j for j, x in enumerate(cl) if x[0] == "perf"]
                p = [j for j, x in enumerate(cl) if x[0] == "push"]
                if i and p and p[0] < i[0]:
                    late[comp] = True
                if total(cl, "idx") != (0 if comp else 1):
                    rep.bad("index", f, "the level index moves by %s for an operation%s" %
                            (total(cl, "idx"), " inside a composite" if comp else ""))
                else:
                    rep.ok("index", f)
                if total(cl, "compd") != 0:
                    rep.bad("composite", f, "an elementary operation opens or closes a composite")
                if comp and get(cl, "store"):
                    rep.bad("checkpoint", f, "a checkpoint is taken inside a composite")
                stores(rep, f, cl)
            for comp in (True, False):
                if late[comp] and not thrown[comp]:
                    rep.bad("fail", f, "a failing operation's record is not removed%s" % (" inside a composite" if comp else ""))
    if n != len(OPS):
        raise AnalysisBroken("pyramid operations not found")


def composites(prog, rep, perf):
    def fn(n):
        r = prog.byname.get(P + n, [])
        if not r:
            raise AnalysisBroken(n + " not found")
        return r
    for f in fn("beginComposite"):
        for kind, cl, st, ret, ctx, ins in run_h(prog, rep, f, perf).exits:
            if kind == "throw":
                continue
            common(rep, f, cl)
            comp = composing(cl, 0)
            ph = [d for w, d in get(cl, "push")]
            if comp is None or [d[:2] if d else d for d in ph] != ([] if comp else [("comp", ())]):
                rep.bad("composite", f, "beginning a composite does not append one empty composite record (unless one is open)")
            elif total(cl, "compd") != 1 or get(cl, "idx") or get(cl, "perf") or get(cl, "pop") or get(cl, "cut") or get(cl, "store"):
                rep.bad("composite", f, "beginning a composite does more or less than opening it")
            else:
                rep.ok("composite", f)
    for f in fn("changeIntoComposite"):
        for kind, cl, st, ret, ctx, ins in run_h(prog, rep, f, perf).exits:
            if kind == "throw":
                continue
            common(rep, f, cl)
            comp = composing(cl, 0)
            back = [x[2][:2] if x[2] else x[2] for x in cl if x[0] == "env" and x[1] == "back"]
            if total(cl, "compd") != 1 or get(cl, "push") or get(cl, "perf") or get(cl, "pop") or get(cl, "cut") or get(cl, "store"):
                rep.bad("composite", f, "changing the last record into a composite does more or less than opening it")
            elif comp is None or comp and (back or total(cl, "idx") or get(cl, "ck")):
                rep.bad("composite", f, "an open composite is changed into a composite again")
            elif not comp and back != [("comp", ("old",))]:
                rep.bad("composite", f, "the last record is not replaced by a composite containing just that record")
            elif not comp and total(cl, "idx") != -1:
                rep.bad("index", f, "re-opening the last level does not take the level index back")
            elif not comp and get(cl, "ck") != [("erase", "top")] or not comp and [x[0] for x in cl if x[0] in ("ck", "idx")] != ["ck", "idx"]:
                rep.bad("checkpoint", f, "the checkpoint of the re-opened level remains")
            else:
                rep.ok("composite", f)
    for f in fn("endComposite"):
        for kind, cl, st, ret, ctx, ins in run_h(prog, rep, f, perf).exits:
            if kind == "throw":
                continue
            common(rep, f, cl)
            comp = composing(cl, -1)
            sb = [d for (d,) in get(cl, "setback")]
            if total(cl, "compd") != -1 or comp is None or get(cl, "push") or get(cl, "perf") or get(cl, "pop") or get(cl, "cut"):
                rep.bad("composite", f, "ending a composite does more or less than closing it")
            elif sb and (sb != ["item0"] or get(cl, "single") != [(True,)]):
                rep.bad("composite", f, "a composite is replaced by something else than its only operation")
            elif comp and (sb or get(cl, "idx") or get(cl, "store")):
                rep.bad("composite", f, "ending an inner composite completes the level")
            elif not comp and total(cl, "idx") != 1:
                rep.bad("index", f, "ending a composite does not complete the level")
            else:
                rep.ok("composite", f)
            stores(rep, f, cl)


def cuts(prog, rep, perf):
    fs = prog.byname.get(P + "cutAbove", [])
    if len(fs) < 1:
        raise AnalysisBroken("cutAbove not found")
    for f in fs:
        c = run_h(prog, rep, f, perf)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind == "throw":
                if (get(cl, "cut") or get(cl, "ck") or get(cl, "settop") or get(cl, "goto")) and not (get(cl, "cut") and get(cl, "ck")):
                    rep.bad("cut", f, "the pyramid is changed before the cut is refused")
                continue
            conds = get(cl, "cond")
            istop = lambda x: x.op == "ld" and isfld(x.args[0], INDEX) and isfld(x.args[0].args[0], TOP)
            size = lambda x: any(y.op == "m" and any(last(s) == "size" for s in strs(y)) for y in subterms(x))
            top = [v for x, v in conds if x.op == "==" and any(istop(a) for a in x.args) and any(size(a) for a in x.args)]
            if True not in top:
                rep.bad("cut", f, "a cut is accepted although the top level is not at the end of the history")
                continue
            cut = get(cl, "cut")
            ck = [x for x in get(cl, "ck")]
            if cut:
                if not (get(cl, "settop") or get(cl, "goto")):
                    rep.bad("cut", f, "the history is cut without moving the top level")
                    continue
                order = [x[0] for x in cl if x[0] in ("settop", "goto", "cut", "ck")]
                good = len(cut) == 1 and cut[0][1] and ck == [("erase", "above")] and order[0] in ("settop", "goto")
                if not good:
                    rep.bad("cut", f, "not exactly the records and checkpoints above the new top level are removed")
                    continue
                s = get(cl, "settop")
                g = get(cl, "goto")
                tgt = s[-1][0] if s else g[-1][0]
                if not any(x.op == "p" and x.args[0] != "this" for x in subterms(tgt)) or g and not g[-1][1]:
                    rep.bad("cut", f, "the top level moves to another level than the given one")
                    continue
                rep.ok("cut", f)
            else:
                if get(cl, "settop") or get(cl, "goto") or ck:
                    rep.bad("cut", f, "the top level moves but the records above it remain")
                    continue
                arg = lambda x: x.op == "p" or x.op == "ld" and isfld(x.args[0], INDEX) and unld(x.args[0].args[0]).op == "p"
                stay = [1 for x, v in conds if x.op == "==" and v and any(istop(a) for a in x.args) and any(arg(a) for a in x.args)]
                stay += [1 for x, v in conds if x.op == "<" and not v and arg(x.args[0]) and istop(x.args[1])]
                stay += [1 for x, v in conds if x.op == "<" and v and istop(x.args[0]) and arg(x.args[1])]
                if not stay:
                    rep.bad("cut", f, "records above the given level remain")
                else:
                    rep.ok("cut", f)
            if any(w[0] == "?" for w in get(cl, "store")):
                rep.bad("checkpoint", f, "a checkpoint of a level that does not belong to the history is stored")


# ------------------------------------------------------------------ store
class S(Base):
    def inline(self, eng, fn, ctx, ins):
        return True if fn.name.startswith(P) and not fn.name.endswith("::Level") else None

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        l = strip(loc)
        if isfld(l, CKPT):
            a = [eng.argval(st, x) if x[0] == "L" else x[1] for x in args]
            self.ev(st, "ck", m, tuple(strip(x) for x in a))
        elif isfld(l, HIST):
            self.ev(st, "bad", m)

    def on_write(self, eng, st, ctx, ins, loc, val):
        l = strip(loc)
        if isfld(l, INDEX) or isfld(l, CKPT) or isfld(l, HIST):
            self.ev(st, "bad", "=")


def store(prog, rep, perf):
    fs = prog.byname.get(P + "storeCheckpoint", [])
    if not fs:
        raise AnalysisBroken("storeCheckpoint not found")
    for f in fs:
        c = S(prog, f, perf)
        run_engine(prog, c, f, rep)
        pn = f.vars[f.params[0]]["name"]
        level = T("obj", T("p", pn))
        some = False
        for kind, cl, st, ret, ctx, ins in c.exits:
            for m, a in get(cl, "ck"):
                if m in ("count", "find", "end", "begin", "size", "lower_bound", "upper_bound", "empty"):
                    continue
                flat = [x for y in a for x in ([z for z in y.args if hasattr(z, "op") and not (z.op in ("nv", "rv"))]
                                               if y.op in ("f", "mk") and any("pair" in s for s in strs(y)) else [y])]
                flat = [x for x in flat if x.op not in ("nv", "rv")]
                key = flat[-2] if len(flat) >= 2 else None
                val = flat[-1] if flat else None
                kok = key is not None and unld(key) is T("fld", level, INDEX)
                vok = val is not None and unld(val) is T("p", pn)
                if m in ("insert", "emplace", "insert_or_assign", "emplace_hint") and kok and vok:
                    some = True
                    rep.ok("checkpoint", f)
                else:
                    rep.bad("checkpoint", f, "a checkpoint is not stored under its own level index")
            if get(cl, "bad"):
                rep.bad("checkpoint", f, "storing a checkpoint changes the history")
        if not some and not rep.viol:
            rep.bad("checkpoint", f, "no checkpoint is ever stored")


# ------------------------------------------------------------------ replay
class Re(Base):
    stop = frozenset({L + "operator="})

    def idx(self, eng, st):
        return strip(eng.load(st, T("fld", T("obj", T("p", "this")), INDEX)))

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        n = f["n"]
        if n == L + "operator=":
            self.restore(st, args[0][1])
        elif n in self.pn:
            a = unld(args[0][1])
            i, good = None, False
            if a.op == "elt" and isfld(base(a.args[0]), HIST):
                i = strip(a.args[1])
            elif a.op == "+":
                it = [x for x in a.args if x.op == "iter" and x.args[0] == "begin" and isfld(base(x.args[1]), HIST)]
                rest = [x for x in a.args if x not in it]
                i = strip(rest[0]) if len(it) == 1 and len(rest) == 1 else None
            elif a.op == "m" and any(last(s) == "at" for s in strs(a)):
                r = [x for x in a.args if hasattr(x, "op") and not isfld(base(x), HIST)]
                i = strip(r[-1]) if r else None
            good = i is not None and i is self.idx(eng, st)
            k = [x for x in st.cl if x[0] == "below"]
            self.ev1(st, "perf", good, bool(k and k[-1][1]), any(x[0] in ("restored", "fine") for x in st.cl))

    def restore(self, st, src):
        k = before(src)
        g = k is not None and k.op == "p" and k.args[0] == self.goal
        s = any(isfld(x, "std::pair::second") or x.op == "fld" and last(str(x.args[1])) == "second" for x in subterms(strip(src)))
        if not (g and s):
            self.ev1(st, "err", "checkpoint", "a level is taken from a checkpoint other than the last one at or below the goal")
        if any(x[0] in ("perf",) for x in st.cl):
            self.ev1(st, "err", "replay", "a checkpoint is restored after operations have been performed")
        self.ev1(st, "restored")

    def ev1(self, st, *e):
        if st.cl == "dead":
            return
        if e[0] == "err":
            self.errs.add(e[1:])
        if e[0] == "below":
            st.cl = tuple(x for x in st.cl if x[0] != "below")
        if e[0] == "perf":
            for i, w in enumerate(("the record performed is not the one at the level's own index",
                                   "a record is performed although the goal is reached",
                                   "records are performed on a level that may lie above the goal")):
                if not e[1 + i]:
                    self.ev1(st, "err", "replay", w)
            if ("pend",) in st.cl:
                self.ev1(st, "err", "replay", "two records are performed for one level")
            e = ("pend",)
            st.cl = tuple(x for x in st.cl if x[0] != "below")
        if e not in st.cl:
            st.cl = st.cl + (e,)

    def on_write(self, eng, st, ctx, ins, loc, val):
        l = strip(loc)
        if isfld(l, INDEX) and unld(l.args[0]) is T("p", "this"):
            if delta(strip(eng.load(st, loc)), strip(val)) != 1 or ("pend",) not in st.cl:
                self.ev1(st, "err", "replay", "the level index moves without a record being performed")
            st.cl = tuple(x for x in st.cl if x[0] not in ("pend", "below"))
            self.ev1(st, "stepped")
        elif isfld(l, PYR) or isfld(l, SEG) or isfld(l, STAT) or isfld(l, SUB):
            if unld(l.args[0]) is T("p", "this"):
                self.ev1(st, "err", "replay", "the level is changed otherwise")

    def on_assume(self, eng, st, ctx, cond, val):
        c, v = strip(cond), val
        while c.op == "!":
            c, v = c.args[0], not v
        if c.op not in ("<", "==") or len(c.args) != 2:
            return
        i = self.idx(eng, st)
        g = lambda x: x.op == "p" and x.args[0] == self.goal
        a, b = c.args
        if c.op == "<" and a is i and g(b):
            self.ev1(st, "below", v)
            if v and not ("fine",) in st.cl:
                self.ev1(st, "fine")
        elif c.op == "<" and g(a) and b is i:
            if not v:
                self.ev1(st, "fine")
            elif ("stepped",) in st.cl:
                self.ev1(st, "err", "replay", "the replay runs past the goal")
            elif ("restored",) in st.cl or ("fine",) in st.cl:
                st.cl = "dead"
        elif c.op == "==" and (a is i and g(b) or b is i and g(a)):
            if v:
                self.ev1(st, "fine")
            # at or below the goal: different means below
            if v or ("fine",) in st.cl or ("restored",) in st.cl:
                self.ev1(st, "below", not v)


def isindex(e, t):
    return all(any(isfld(y, INDEX) and unld(y.args[0]) is T("p", "this") for y in subterms(x)) for x in leaves(e, t))


def replay(prog, rep, perf):
    n = 0
    for name in ("gotoLevel", "approachLevel"):
        for f in prog.byname.get(L + name, []):
            n += 1
            c = Re(prog, f, perf)
            c.goal = f.vars[f.params[0]]["name"]
            c.errs = set()
            run_engine(prog, c, f, rep)
            some = False
            for r, w in sorted(c.errs):
                rep.bad(r, f, w)
            for kind, cl, st, ret, ctx, ins in c.exits:
                if cl == "dead" or kind == "throw":
                    continue
                if get(cl, "err"):
                    continue
                some = True
                if ("pend",) in cl:
                    rep.bad("replay", f, "a record is performed without moving the level index")
                    continue
                bl = [x[1] for x in cl if x[0] == "below"]
                if not any(x[0] in ("restored", "fine") for x in cl):
                    rep.bad("replay", f, "a level above the goal stays where it is")
                    continue
                if name == "gotoLevel":
                    if bl != [False]:
                        rep.bad("replay", f, "the replay may stop before the goal is reached")
                        continue
                else:
                    rv = retval(st, c.eng, ret)
                    goal = T("p", c.goal)
                    good = True
                    for x in leaves(c.eng, rv):
                        x = strip(x)
                        if isc(x):
                            good &= bl == [not x.args[0]]
                        elif x.op == "==" and goal in x.args:
                            good &= isindex(c.eng, [y for y in x.args if y is not goal][0])
                        elif x.op == "!" and x.args[0].op == "<" and x.args[0].args[1] is goal:
                            good &= isindex(c.eng, x.args[0].args[0])
                        else:
                            good = False
                    if not good:
                        rep.bad("replay", f, "the result does not say whether the goal was reached")
                        continue
                rep.ok("replay", f)
            if not some and not rep.viol:
                raise AnalysisBroken("no path of %s" % name)
    if n < 2:
        raise AnalysisBroken("gotoLevel/approachLevel not found")


# ------------------------------------------------------------------ dispatch
ELEM = ("RemoveIsolatedNode", "MergeFaces", "RemoveBridge", "MergeEdges")
SEGOP = {G + n[0].lower() + n[1:]: n for n in ELEM}
STATOP = {"CellStatistics::%s%s" % (w, n): (w, n) for n in ELEM for w in ("pre", "post")}


class D(Base):
    def start(self, eng):
        return (("left", frozenset(range(7))),)

    def inline(self, eng, fn, ctx, ins):
        if fn.name in self.pn or fn.name in STATOP or fn.name in SEGOP:
            return False
        if fn.name.startswith(DT) and last(fn.name) in ("leftFaceLabel", "rightFaceLabel", "edgeLabel", "startNodeLabel"):
            return False
        if fn.name.startswith(P):
            return True
        return None

    def on_ctor(self, eng, st, ctx, ins, f, loc, args, inlined):
        if last(f["n"]) != "DartTraverser":
            return
        l = strip(loc)
        if len(args) == 1:
            w = self.who(st, args[0][1])
            if w:
                self.ev(st, "dart", l, w)
        elif len(args) == 2:
            a = [strip(x[1] if x[0] == "V" else eng.argval(st, x)) for x in args]
            s = [x for x in subterms(a[0]) if isfld(x, SEG) and unld(x.args[0]) is T("p", "this")]
            p = a[1].op == "ld" and a[1].args[0].op == "fld" and a[1].args[0].args[1].endswith("param") and \
                any(x.op == "p" and x.args[0] == self.opn for x in subterms(a[1]))
            if s and p:
                self.ev(st, "dart", l, "param")

    def on_copy(self, eng, st, dst, src):
        if st.cl == "dead":
            return
        w = self.who(st, src)
        if w:
            self.ev(st, "dart", strip(dst), w)

    def who(self, st, loc):
        l = strip(loc)
        for t in (l, unld(l)):
            for x in st.cl:
                if x[0] == "dart" and x[1] is t:
                    return x[2]
        l = unld(l)
        if isfld(l, G + "NodeInfo::anchor"):
            return self.side(l)
        return None

    def side(self, t):
        s = {last(x.args[1]) for x in subterms(strip(t)) if x.op == "fld" and x.args[1] in (START, END)}
        return s.pop() if len(s) == 1 else None

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        n = f["n"]
        if st.cl == "dead":
            return
        if n in self.pn:
            a = args[0][1]
            while a.op in ("ld", "obj"):
                a = a.args[0]
            ok = self.element(eng, a)
            self.ev(st, "sub" if ok else "wrongsub")
            if any(x[0] == "rnd" for x in st.cl):
                st.cl = tuple(x for x in st.cl if x[0] not in ("rnd", "sub")) + (("rnd", 1 if ok else 2),)
        elif n in SEGOP:
            o = obj is not None and isfld(unld(obj), SEG)
            self.ev(st, "seg", SEGOP[n], self.who(st, args[0][1]) if o else None, T("r", ctx.id, ins["i"]))
        elif n in STATOP:
            w, x = STATOP[n]
            if w == "pre":
                self.ev(st, "pre", x, self.who(st, args[0][1]))
            else:
                v = strip(args[0][1])
                rs = [y for y in subterms(v) if y.op == "r" and any(s in SEGOP for s in strs(y))]
                self.ev(st, "post", x, rs[0].args[:2] if rs else None)

    def element(self, eng, a):
        """is this an element of a walk through the record's list from begin to end"""
        while a.op == "m" and any(last(s) in ("deref", "operator*") for s in strs(a)):
            a = [x for x in a.args if hasattr(x, "op")][0]
            while a.op in ("ld", "obj"):
                a = a.args[0]
        inc = lambda x: x.op == "+" and len(x.args) == 2 and any(isc(y) and y.args[0] == 1 for y in x.args) or \
            x.op == "adv" and any("++" in s for s in strs(x))
        t = a.args[1] if a.op == "elt" else a
        begin = lambda x: x is ZERO if a.op == "elt" else x.op == "iter" and x.args[0] in ("begin", "cbegin")
        if t.op == "phi":
            first = all(begin(x) or a.op == "elt" and isc(x) and x.args[0] == 1 or inc(x) and any(begin(y) or y is t for y in x.args if hasattr(y, "op")) for x in leaves(eng, t))
        else:
            first = begin(t)
        if a.op == "elt":
            b = base(a.args[0])
        else:
            bs = [base(y.args[1]) for x in allsub(eng, a) for y in subterms(x) if y.op == "iter"]
            b = bs[0] if bs else a
        return first and b.op == "fld" and b.args[1].endswith("opList") and \
            any(x.op == "p" and x.args[0] == self.opn for x in subterms(b))

    def on_write(self, eng, st, ctx, ins, loc, val):
        if st.cl == "dead":
            return
        l = strip(loc)
        if isfld(l, SUB):
            self.ev(st, "subidx", delta(strip(eng.load(st, loc)), strip(val)))
        elif isfld(l, INDEX):
            self.ev(st, "index")

    def on_assume(self, eng, st, ctx, cond, val):
        if st.cl == "dead":
            return
        c, v = strip(cond), val
        while c.op == "!":
            c, v = c.args[0], not v
        ty = lambda t: t.op == "ld" and isfld(t.args[0], O + "type") and any(x.op == "p" and x.args[0] == self.opn for x in subterms(t))
        k = None
        if ty(c):
            k, v = 0, not v
        elif c.op == "==":
            a, b = c.args
            if ty(a) and isc(b):
                k = b.args[0]
            elif ty(b) and isc(a):
                k = a.args[0]
        if k is not None:
            left = [x[1] for x in st.cl if x[0] == "left"][0]
            left = left & {k} if v else left - {k}
            if not left:
                st.cl = "dead"
                return
            st.cl = (("left", left),) + tuple(x for x in st.cl if x[0] != "left")
            return
        if c.op == "<" and any(ty(x) for x in c.args):
            left = [x[1] for x in st.cl if x[0] == "left"][0]
            a, b = c.args
            f = (lambda x: x < b.args[0]) if ty(a) and isc(b) else (lambda x: a.args[0] < x) if ty(b) and isc(a) else None
            if f:
                left = frozenset(x for x in left if f(x) == v)
                if not left:
                    st.cl = "dead"
                    return
                st.cl = (("left", left),) + tuple(x for x in st.cl if x[0] != "left")
            return
        names = {last(s) for x in subterms(c) if x.op in ("f", "r", "m") for s in strs(x)}
        if "leftFaceLabel" in names and "rightFaceLabel" in names and c.op == "==":
            self.ev(st, "bridge", v)
            return
        dg = [x for x in subterms(c) if isfld(x, DEG)]
        if dg:
            z = c.op == "ld" or c.op == "fld"
            if c.op == "==" and ZERO in c.args or c.op == "<" and isc(c.args[1]) and c.args[1].args[0] == 1:
                self.ev(st, "deg0", self.side(dg[0]), v)
            elif z or c.op == "<" and c.args[0] is ZERO:
                self.ev(st, "deg0", self.side(dg[0]), not v)
            return
        s = {last(x.args[1]) for x in subterms(c) if x.op == "fld" and x.args[1] in (START, END)}
        if len(s) == 2 and c.op == "==":
            self.ev(st, "same", v)
            return
        if any(x.op == "iter" for x in allsub(eng, c)) or any(x.op == "fld" and x.args[1].endswith("opList") for x in allsub(eng, c)):
            # end of the walk?
            more = (not v) if c.op == "==" else v
            r = [x[1] for x in st.cl if x[0] == "rnd"]
            if r and r[-1] != 1:
                self.ev(st, "skip")
            st.cl = tuple(x for x in st.cl if x[0] != "rnd") + ((("rnd", 0),) if more else (("ended",),) if ("ended",) not in st.cl else ())


def triples(cl):
    """groups the elementary operations; None if they are not complete"""
    out, cur = [], None
    for x in cl:
        if x[0] == "pre":
            if cur:
                return None
            cur = [x[1], x[2], 0]
        elif x[0] == "seg":
            if not cur or cur[2] != 0 or (x[1], x[2]) != (cur[0], cur[1]):
                return None
            cur[2], cur[3:] = 1, [x[3]]
        elif x[0] == "post":
            if not cur or cur[2] != 1 or x[1] != cur[0] or x[2] != cur[3].args[:2]:
                return None
            cur[2] = 2
            out.append((cur[0], cur[1]))
            cur = None
    return None if cur else out


def dispatch(prog, rep, perf):
    for f in perf:
        c = D(prog, f, perf)
        c.opn = f.vars[[v for v in f.params if "::Operation" in prog.tstr(f.vars[v]["t"])][0]]["name"]
        run_engine(prog, c, f, rep)
        val = {t: (i if enumval(prog, t) is None else enumval(prog, t)) for i, t in enumerate(TYPES)}
        back = {v: k for k, v in val.items()}
        seen = set()
        for kind, cl, st, ret, ctx, ins in c.exits:
            if cl == "dead" or kind == "throw":
                continue
            left = [x[1] for x in cl if x[0] == "left"][0]
            for k in left:
                ty = back.get(k, str(k))
                seen.add(ty)
                err = None
                tr = triples(cl)
                if get(cl, "index"):
                    err = "replaying a record changes the level index itself"
                elif ty == "Composite":
                    if any(x[0] in ("pre", "seg", "post", "wrongsub", "skip") for x in cl) or ("ended",) not in cl or \
                            [1 for x in cl if x[0] == "rnd"]:
                        err = "not every operation of the list is performed, in order"
                elif [1 for x in cl if x[0] in ("sub", "wrongsub", "rnd")]:
                    err = "a list is performed for an elementary operation"
                elif tr is None:
                    err = "segmentation and statistics are not updated by the same operation on the same dart"
                elif len(tr) != len([x for x in get(cl, "subidx") if x[0] == 1]) or total(cl, "subidx") != len(tr):
                    err = "the number of elementary operations is not counted"
                elif ty in ELEM:
                    if tr != [(ty, "param")]:
                        err = "another operation than the recorded one is performed"
                else:
                    br = [v for (v,) in get(cl, "bridge")]
                    if len(set(br)) != 1:
                        err = "an edge is removed regardless of the faces on its sides"
                    elif tr[:1] != [("RemoveBridge" if br[0] else "MergeFaces", "param")]:
                        err = "an edge is removed by the wrong operation"
                    elif ty == "RemoveEdge":
                        if len(tr) != 1:
                            err = "removing an edge performs further operations"
                    else:
                        err = ends(cl, tr)
                if err:
                    rep.bad("dispatch", f, "%s: %s" % (ty, err))
                else:
                    rep.ok("dispatch", "%s %s" % (f.name, ty))
        for ty in TYPES:
            if ty not in seen and not rep.viol:
                rep.bad("dispatch", f, "%s: records of this type cannot be replayed" % ty)


def ends(cl, tr):
    if any(x[0] != "RemoveIsolatedNode" or x[1] not in ("start", "end") for x in tr[1:]):
        return "another operation is performed after removing the edge"
    done = [x[1] for x in tr[1:]]
    i0 = [i for i, x in enumerate(cl) if x[0] == "post"][0]
    if any(x[0] == "deg0" for x in cl[:i0]):
        return "the degree of an end node is tested before the edge is removed"
    deg = {}
    for s, v in get(cl, "deg0"):
        if s not in deg:
            deg[s] = v
    same = [v for (v,) in get(cl, "same")]
    s, e = deg.get("start"), deg.get("end")
    need = set()
    if same and same[0]:
        if len(done) != (1 if (s or e) else 0) or s is None and e is None:
            return "the end node of a loop is not removed exactly if it is isolated"
        return None
    if done.count("start") > 1 or done.count("end") > 1:
        return "an end node is removed twice"
    if not same and "end" in done and "start" in done:
        return "the end node of a loop is removed twice"
    for w, d in (("start", s), ("end", e)):
        if d is None:
            # not tested: only fine if the node cannot be isolated or is the other one
            if same and not same[0] or w not in done and not same:
                return "an end node that became isolated remains"
        elif d != (w in done):
            return "an end node is removed although it is not isolated" if not d else "an end node that became isolated remains"
    return None


# ------------------------------------------------------------------ rest
class M(Base):
    stop = frozenset({L + "gotoLevel"})

    def on_ctor(self, eng, st, ctx, ins, f, loc, args, inlined):
        if last(f["n"]) == "Level" and len(args) == 1 and root(loc).op == "new":
            k = before(args[0][1])
            self.ev(st, "copy", k)

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if f["n"] == L + "gotoLevel":
            t = strip(args[0][1] if args[0][0] == "V" else eng.argval(st, args[0]))
            self.ev(st, "goto", t, bool(obj is not None and root(obj).op == "new"))
        elif f["n"] == P + "storeCheckpoint":
            self.ev(st, "store", isfld(unld(args[0][1]), TOP))

    def on_assume(self, eng, st, ctx, cond, val):
        c, v = strip(cond), val
        if c.op == "<":
            a, b = c.args
            n = lambda t: any(x.op == "m" and any(last(s) == "size" for s in strs(x)) and any(isfld(base(y), HIST) for y in x.args if hasattr(y, "op"))
                              for x in subterms(t))
            if a.op == "p" and n(b):
                d = delta([x for x in subterms(b) if x.op == "m"][0], b)
                self.ev(st, "low", a.args[0], d, v)
            elif b.op == "p" and n(a):
                d = delta([x for x in subterms(a) if x.op == "m"][0], a)
                self.ev(st, "high", b.args[0], d, v)


def misc(prog, rep, perf):
    for f in prog.byname.get(P + "levelCount", []):
        c = M(prog, f, perf)
        run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            v = strip(retval(st, c.eng, ret))
            m = [x for x in subterms(v) if x.op == "m" and any(last(s) == "size" for s in strs(x)) and
                 any(isfld(base(y), HIST) for y in x.args if hasattr(y, "op"))]
            if m and delta(m[0], v) == 1:
                rep.ok("levels", f)
            else:
                rep.bad("levels", f, "the number of levels is not the number of records plus one")
    for name in ("getLevel", "getLastCheckpointBefore"):
        for f in prog.byname.get(P + name, []):
            c = M(prog, f, perf)
            run_engine(prog, c, f, rep)
            pn = f.vars[f.params[0]]["name"]
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind == "throw":
                    continue
                good = any(n == pn and d == 1 and v for n, d, v in get(cl, "low")) or \
                    any(n == pn and d == 0 and not v for n, d, v in get(cl, "high"))
                if not good:
                    rep.bad("levels", f, "an invalid level index is accepted")
                    continue
                k = [x[0] for x in get(cl, "copy")]
                if len(k) != 1 or k[0] is None or k[0].op != "p" or k[0].args[0] != pn:
                    rep.bad("checkpoint", f, "a level is taken from a checkpoint other than the last one at or below the goal")
                    continue
                if name == "getLevel":
                    g = get(cl, "goto")
                    if len(g) != 1 or not g[0][1] or not (g[0][0].op == "p" and g[0][0].args[0] == pn):
                        rep.bad("replay", f, "the level returned is not the requested one")
                        continue
                rep.ok("levels", f)
    for f in prog.byname.get(P + "CellPyramid", []):
        if f.implicit or any("CellPyramid" in prog.tstr(f.vars[v]["t"]) for v in f.params):
            continue
        c = M(prog, f, perf)
        run_engine(prog, c, f, rep)
        this = T("obj", T("p", "this"))
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind == "throw":
                continue
            e = c.eng
            i = e.load(st, T("fld", T("fld", this, TOP), INDEX))
            p = strip(e.load(st, T("fld", T("fld", this, TOP), PYR)))
            k = e.load(st, T("fld", this, COMP))
            if i is not ZERO or k is not ZERO or not (p.op == "p" and p.args[0] == "this"):
                rep.bad("index", f, "a new pyramid does not start at level 0 outside a composite")
            elif (True,) not in get(cl, "store"):
                rep.bad("checkpoint", f, "a new pyramid has no checkpoint for level 0")
            else:
                rep.ok("checkpoint", f)


def bits(t):
    """sum of shifted parts -> {shift: part}"""
    t = strip(t)
    todo, out = [t], {}
    while todo:
        x = todo.pop()
        if x.op in ("|", "+"):
            todo += [y for y in x.args]
        elif x.op == "<<" and isc(x.args[1]):
            out[x.args[1].args[0]] = x.args[0]
        elif x.op == "*" and any(isc(y) for y in x.args):
            k = [y.args[0] for y in x.args if isc(y)][0]
            out[k.bit_length() - 1] = [y for y in x.args if not isc(y)][0]
        else:
            out[0] = x
    return out


class Sr(Base):
    def on_ctor(self, eng, st, ctx, ins, f, loc, args, inlined):
        if last(f["n"]) == "NeighborhoodCirculator":
            self.ev(st, "circ", tuple(strip(x[1] if x[0] == "V" else eng.argval(st, x)) for x in args))


def part(t):
    """(x >> s) & mask -> (s, width or None)"""
    t = strip(t)
    m = None
    for _ in range(6):
        if t.op == "&" and any(isc(y) for y in t.args):
            k = [y.args[0] for y in t.args if isc(y)][0]
            if k & (k + 1):
                return None
            m = k.bit_length()
            t = [y for y in t.args if not isc(y)][0]
        elif t.op == ">>" and isc(t.args[1]):
            return (t.args[1].args[0], m) if t.args[0].op in ("p", "ld") else None
        elif t.op in ("p", "ld"):
            return (0, m)
        elif t.op in ("cast", "mk") and len([y for y in t.args if hasattr(y, "op")]) == 1:
            t = [y for y in t.args if hasattr(y, "op")][0]
        else:
            return None
    return None


def darts(prog, rep, perf):
    fs = prog.byname.get(DT + "serialize", [])
    cs = [f for f in prog.byname.get(DT + "DartTraverser", []) if len(f.params) == 2 and not f.implicit and
          "unsigned int" in prog.tstr(f.vars[f.params[1]]["t"]) + " " and "*" in prog.tstr(f.vars[f.params[0]]["t"])]
    if not fs or not cs:
        raise AnalysisBroken("dart serialisation not found")
    enc = {}
    for f in fs:
        c = Sr(prog, f, perf)
        run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            for sh, t in bits(retval(st, c.eng, ret)).items():
                s = {last(y) for x in subterms(t) for y in strs(x)}
                w = "dir" if "direction" in s else "x" if "x" in s else "y" if "y" in s else "?"
                if w in ("x", "y") and not ("center" in s and "upperLeft" in s):
                    w = "?"
                enc[w] = sh
    for f in cs:
        c = Sr(prog, f, perf)
        run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            dec = {}
            for (a,) in get(cl, "circ"):
                if len(a) < 2:
                    continue
                d2 = [x for x in subterms(a[0]) if x.op == "mk" and any("Diff2D" in s or "Point2D" in s for s in strs(x))]
                if d2:
                    xs = [y for y in d2[0].args if hasattr(y, "op")]
                    if len(xs) == 2:
                        dec["x"], dec["y"] = part(xs[0]), part(xs[1])
                dec["dir"] = part(a[1])
                if not any(last(s) == "upperLeft" for x in subterms(a[0]) for s in strs(x)):
                    dec["x"] = None
            lim = sorted(enc.values()) + [32]
            good = set(enc) == {"x", "y", "dir"}
            for w, sh in enc.items():
                p = dec.get(w)
                nxt = lim[lim.index(sh) + 1]
                if p is None or p[0] != sh or (p[1] if p[1] is not None else 32 - sh) != nxt - sh:
                    good = False
            if good:
                rep.ok("dart", f)
            else:
                rep.bad("dart", f, "position and direction are not read back as they are written", detail="%s %s" % (enc, dec))


def run(prog, rep, tier):
    perf = performers(prog)
    if not perf:
        raise AnalysisBroken("no method replays a record")
    ops(prog, rep, perf)
    composites(prog, rep, perf)
    cuts(prog, rep, perf)
    store(prog, rep, perf)
    replay(prog, rep, perf)
    dispatch(prog, rep, perf)
    misc(prog, rep, perf)
    darts(prog, rep, perf)
    rep.need("dispatch", 7)
    rep.need("record", 6)
    rep.need("fail", 6)
    rep.need("cut", 2)
    rep.need("replay", 2)
