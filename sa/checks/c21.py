from ..core import *
from .c01 import strip
from ..check import Sub
from . import c07

TITLE = "merged-label lookup is transitively consistent"
GROUPS = ["geomap"]
TECHNIQUE = "static analysis: path-sensitive shape/effect analysis of the table's linked lists"
EXPLANATION = ("All paths of the label table's operations: relabelling walks the merged list of the absorbed label from its "
               "head, one link at a time, redirects every element including the last one, and splices the list in front of "
               "the survivor's list without losing or looping it; appending and initialisation keep both arrays the same "
               "size and the identity; the list iterator follows the links and stops at the self-reference; nothing else "
               "writes the two arrays.")
RULES = {"redirect": "relabelling redirects every element of the absorbed list to the survivor, from head to tail",
         "splice": "the absorbed list is linked in front of the survivor's remaining list, which stays reachable",
         "identity": "initialisation and appending map every label to itself in both arrays",
         "lookup": "the lookup returns the entry of the label asked for",
         "iter": "iteration starts at the survivor, follows the links and ends exactly at the self-reference",
         "record": "each face merge records the removed face's label with the survivor's in the table, exactly once; "
                   "(re)initialising the faces resets it",
         "owner": "only the table's own operations write its arrays"}
LUT, PREV = "LabelLUT::labelLUT_", "LabelLUT::prevMerged_"
IT = "LabelLUT::MergedIterator::"


class R(Recorder):
    fields = frozenset({LUT, PREV, IT + "currentLabel_", IT + "atEnd_"})
    names = frozenset()

    def arr(self, eng, st, loc):
        if loc.op == "elt":
            b = loc.args[0]
            for _ in range(4):
                if b.op == "fld" and b.args[1] in (LUT, PREV):
                    return b.args[1]
                if b.op == "obj":
                    b = b.args[0]
                elif b.op == "ld":
                    b = b.args[0]
                else:
                    break
        if loc.op == "obj" and loc.args[0].op == "m" and loc.args[0].args[0] == "deref":
            for x in subterms(loc.args[0]):
                if x.op == "iter" and x.args[1].op == "fld" and x.args[1].args[1] in (LUT, PREV):
                    return "?"
        return None

    def on_assume(self, eng, st, ctx, cond, val):
        c = cond
        if c.op == "!":
            c, val = c.args[0], not val
        if c.op == "<" and c.args[1].op == "p":
            e = ("empty",) if c.args[0] is ZERO and not val else ("bound", c.args[1]) if not val else None
        elif c.op == "p":
            e = ("empty",) if not val else None
        elif c.op == "==" and any(x.op == "p" for x in c.args) and val and isc(c.args[0]) + isc(c.args[1]) == 0:
            e = ("bound", [x for x in c.args if x.op == "p"][0])
        elif any(x.op == "fld" and x.args[1].startswith(IT) for x in subterms(c)):
            e = ("A", c, val)
        else:
            e = None
        if e and e not in st.cl:
            st.cl = st.cl + (e,)


class Rel(R):
    """state: (frontier, end, splice writes, facts)"""
    def __init__(self, prog, rep, f):
        super().__init__(prog)
        self.rep, self.f, self.errs, self.good = rep, f, [], 0
        self.frm, self.to = [T("p", f.vars[v]["name"]) for v in f.params]

    def start(self, eng):
        self.front, self.ends = set(), {}
        return (False, 0, (), ())

    def nxt(self, t):
        """t = prev[c] -> c"""
        t = strip(t)
        if t.op == "ld" and t.args[0].op == "elt" and t.args[0].args[0].op == "fld" and t.args[0].args[0].args[1] == PREV:
            return t.args[0].args[1]
        return None

    def same(self, eng, x, y):
        x, y = strip(x), strip(y)
        if x is y:
            return True
        return x.op == "phi" and any(strip(z) is y for z in self.ins(eng, x))

    def ins(self, eng, x):
        out = set()
        for k, v in eng.phi_in.items():
            if strip(k) is x:
                out |= set(v)
        return out

    def inchain(self, eng, x):
        seen, todo = set(), [strip(x)]
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t is self.frm:
                continue
            c = self.nxt(t)
            if c is not None:
                todo.append(strip(c))
            elif t.op == "phi" and self.ins(eng, t):
                todo += [strip(z) for z in self.ins(eng, t)]
            else:
                return False
        return self.frm in seen

    def follows(self, eng, x, fr):
        """x is the element after the one redirected last"""
        x = strip(x)
        if not fr:
            return self.same(eng, x, self.frm)
        return any(self.follows1(eng, x, f) for f in self.front)

    def follows1(self, eng, x, f):
        for z in [x] + ([strip(z) for z in self.ins(eng, x)] if x.op == "phi" else []):
            c = self.nxt(z)
            if c is not None and (self.same(eng, c, f) or self.same(eng, f, c)):
                return True
        return False

    def err(self, rule, what, ctx, ins):
        e = (rule, what, site(ctx, ins))
        if e not in self.errs:
            self.errs.append(e)

    def on_write(self, eng, st, ctx, ins, loc, val):
        a = self.arr(eng, st, loc)
        if a is None:
            return
        if a == "?":
            self.err("redirect", "the arrays are written through an iterator the analysis cannot follow", ctx, ins)
            return
        fr, end, w, facts = st.cl
        i = loc.args[1]
        if a == LUT:
            if strip(val) is not self.to:
                self.err("redirect", "an element is redirected to %s instead of the survivor" % val, ctx, ins)
            elif fr and any(self.same(eng, i, x) for x in self.front):
                self.front.add(strip(i))
            elif self.inchain(eng, i) and self.follows(eng, i, fr):
                self.front.add(strip(i))
                st.cl = (True, end, w, facts)
            elif strip(i) is self.to:
                pass
            else:
                self.err("redirect", "the element redirected (%s) is not the next one of the absorbed list" % i, ctx, ins)
        else:
            if not end and strip(i) is not self.to:
                return self.err("splice", "a link inside the lists (%s) is overwritten" % i, ctx, ins)
            st.cl = (fr, end, w + ((strip(i), strip(val)),) if len(w) < 4 else w, facts)

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if loc.op == "fld" and loc.args[1] in (LUT, PREV):
            self.err("splice", "the size of the table changes while relabelling", ctx, ins)

    def on_assume(self, eng, st, ctx, cond, val):
        fr, end, w, facts = st.cl
        c = cond
        if c.op == "!":
            c, val = c.args[0], not val
        cs = [c]
        if c.op == "phi":
            cs = [x for x in self.ins(eng, strip(c)) if x.op == "=="]
            if not all(self.isendcond(eng, x) for x in cs):
                cs = []
        for c in cs:
            if c.op != "==":
                continue
            a, b = strip(c.args[0]), strip(c.args[1])
            y = self.isendcond(eng, c)
            if y is not None and val:
                k = 1 if len(cs) == 1 and y is self.frm else 2
                end = max(end, k)
                self.ends.setdefault(end, set()).add(y)
            for x, y in ((a, b), (b, a)):
                n = self.nxt(x)
                if n is not None and strip(n) is y and y is self.to:
                    facts = tuple(set(facts) | {("single", val)})
            if {a, b} == {self.frm, self.to}:
                facts = tuple(set(facts) | {("noop", val)})
        st.cl = (fr, end, w, tuple(sorted(facts)))

    def isendcond(self, eng, c):
        """c compares an element of the absorbed list with its own link -> the element"""
        a, b = strip(c.args[0]), strip(c.args[1])
        for x, y in ((a, b), (b, a)):
            n = self.nxt(x)
            if n is not None and strip(n) is y and y is not self.to and self.inchain(eng, y):
                return y
            if x.op == "phi" and y.op == "phi" and self.inchain(eng, y):
                # correlated loop variables: every value of x is the link of a value of y
                ys = {y} | {strip(z) for z in self.ins(eng, y)}
                xs = {strip(z) for z in self.ins(eng, x)}
                if xs and all(self.nxt(z) is not None and strip(self.nxt(z)) in ys or z is x for z in xs):
                    return y
        return None

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        if kind != "return":
            return
        fr, end, w, facts = st.cl
        if ("noop", True) in facts and not fr and not w:
            self.good += 1
            return
        if not fr:
            return self.err("redirect", "a path leaves without redirecting anything", ctx, ins)
        if not end:
            return self.err("redirect", "the walk stops without having reached the end of the absorbed list", ctx, ins)
        if not all(any(self.same(eng, x, f) or self.same(eng, f, x) for f in self.front) for x in self.ends[end]):
            return self.err("redirect", "the last element of the absorbed list is not redirected", ctx, ins)
        m = {}
        head_written = False
        for i, v in w:
            if i is self.to:
                if v is not self.frm:
                    return self.err("splice", "the survivor is not linked to the head of the absorbed list but to %s" % v, ctx, ins)
                head_written = True
            elif self.isend(eng, i, end):
                if v is i or self.isend(eng, v, end):
                    m.pop("tail", None)
                else:
                    n = self.nxt(v)
                    if n is None or strip(n) is not self.to:
                        return self.err("splice", "the end of the absorbed list is linked to %s" % v, ctx, ins)
                    m["tail"] = v
            else:
                return self.err("splice", "a link inside the lists (%s) is overwritten" % i, ctx, ins)
        if not head_written:
            return self.err("splice", "the absorbed list is not linked to the survivor", ctx, ins)
        single = ("single", True) in facts
        if ("single", True) in facts and ("single", False) in facts:
            return
        if single and "tail" in m:
            return self.err("splice", "the absorbed list is linked back to a survivor without a list (cycle)", ctx, ins)
        if not single and "tail" not in m:
            return self.err("splice", "the survivor's list is lost", ctx, ins)
        if not single and ("single", False) not in facts:
            return self.err("splice", "the absorbed list may be linked back to the survivor itself (cycle)", ctx, ins)
        self.good += 1

    def isend(self, eng, i, end=None):
        return not (end == 2 and i is self.frm) and any(self.isend0(eng, i, x) for x in self.ends[end])

    def isend0(self, eng, i, end):
        if self.same(eng, i, end) or self.same(eng, end, i):
            return True
        n = self.nxt(i)
        if n is not None and (self.same(eng, n, end) or self.same(eng, end, n)):
            return True
        if i.op == "phi":
            return all(self.isend1(eng, z, end) for z in self.ins(eng, i))
        return False

    def isend1(self, eng, z, end):
        z = strip(z)
        n = self.nxt(z)
        return self.same(eng, z, end) or self.inchain(eng, z) or (n is not None and self.inchain(eng, n))


class Plain(R):
    def on_write(self, eng, st, ctx, ins, loc, val):
        a = self.arr(eng, st, loc)
        if a:
            self.rec(st, ctx, ins, "W", a, loc.args[1] if loc.op == "elt" else None, val)
        elif loc.op == "fld" and loc.args[1] in (LUT, PREV):
            src = [x.args[1] for x in subterms(val) if x.op == "fld" and x.args[1] in (LUT, PREV)]
            self.rec(st, ctx, ins, "FA", loc.args[1], src[0] if src else None)
        elif loc.op == "fld" and loc.args[1] in self.fields:
            self.rec(st, ctx, ins, "F", loc.args[1], loc.args[0], val)

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        if loc.op == "fld" and loc.args[1] in (LUT, PREV):
            self.rec(st, ctx, ins, "M", loc.args[1], m, *[eng.argval(st, a) if a[0] == "L" else a[1] for a in args])

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if not inlined and not f.get("repo") and args:
            for a in args:
                v = a[1] if a[0] == "V" else st.store.get(a[1], a[1])
                if v.op == "iter" and v.args[1].op == "fld" and v.args[1].args[1] in (LUT, PREV):
                    self.rec(st, ctx, ins, "C", v.args[1].args[1], f["m"], *[eng.argval(st, x) if x[0] == "L" else x[1] for x in args])
                    return


def run(prog, rep, tier):
    one = lambda n: prog.byname.get(n, [])
    for f in one("LabelLUT::relabel"):
        c = Rel(prog, rep, f)
        run_engine(prog, c, f, rep)
        for rule, what, s in c.errs:
            rep.bad(rule, f, what, s)
        if c.good and not c.errs:
            rep.ok("redirect", f)
            rep.ok("splice", f)
    # -- identity
    for n in ("LabelLUT::initIdentity", "LabelLUT::appendOne"):
        for f in one(n):
            c = Plain(prog)
            run_engine(prog, c, f, rep)
            for kind, evs, st, ret, ctx, ins in c.exits:
                if kind == "return":
                    ident(rep, f, c, evs, n.endswith("appendOne"), T("p", f.vars[f.params[0]]["name"]) if f.params else None)
    for f in one("LabelLUT::LabelLUT"):
        if f.implicit or len(f.params) != 1 or "LabelLUT" in prog.tstr(f.vars[f.params[0]]["t"]):
            continue
        if any(i["o"] == "call" and i["f"]["n"] == "LabelLUT::initIdentity" for i in f.ins.values()):
            rep.ok("identity", f)
        else:
            c = Plain(prog)
            run_engine(prog, c, f, rep)
            for kind, evs, st, ret, ctx, ins in c.exits:
                if kind == "return":
                    ident(rep, f, c, evs, False, T("p", f.vars[f.params[0]]["name"]), True)
    # -- lookup
    for f in one("LabelLUT::operator[]"):
        c = Plain(prog)
        e = run_engine(prog, c, f, rep)
        for kind, evs, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            v = strip(retval(st, e, ret))
            if v.op == "ld" and v.args[0].op == "elt" and v.args[0].args[0].op == "fld" and \
                    v.args[0].args[0].args[1] == LUT and v.args[0].args[1] is T("p", f.vars[f.params[0]]["name"]):
                rep.ok("lookup", f)
            else:
                rep.bad("lookup", f, "the lookup returns %s" % v, f.short())
    # -- iterator
    for f in one(IT + "MergedIterator"):
        if f.implicit or len(f.params) != 2:
            continue
        c = Plain(prog)
        run_engine(prog, c, f, rep)
        for kind, evs, st, ret, ctx, ins in c.exits:
            w = {x[1]: x[3] for x in evs if x[0] == "F"}
            if w.get(IT + "currentLabel_") is T("p", f.vars[f.params[1]]["name"]) and is_null(w.get(IT + "atEnd_", ONE)):
                rep.ok("iter", f)
            else:
                rep.bad("iter", f, "a new iterator does not stand at the label asked for", f.short())
    for f in one(IT + "operator++"):
        if f.params:
            continue
        c = Plain(prog)
        run_engine(prog, c, f, rep)
        for kind, evs, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            w = {x[1]: strip(x[3]) for x in evs if x[0] == "F"}
            atend = None
            for x in evs:
                if x[0] == "A" and x[1].op == "==":
                    a, b = strip(x[1].args[0]), strip(x[1].args[1])
                    for p, q in ((a, b), (b, a)):
                        if link(p) is not None and link(p) is q and cur(q):
                            atend = x[2]
            moved = w.get(IT + "currentLabel_")
            okmove = moved is None or cur(moved) or (link(moved) is not None and cur(link(moved)))
            end = w.get(IT + "atEnd_")
            setend = end is not None and not is_null(end) and end.op != "=="
            if end is not None and end.op == "==" and atend is None:
                a, b = strip(end.args[0]), strip(end.args[1])
                good = (link(a) is b and cur(b)) or (link(b) is a and cur(a))
                good = good and okmove and moved is not None
            elif atend is None and any(x[0] == "A" and x[1].op == "ld" and x[1].args[0].op == "fld" and x[1].args[0].args[1] == IT + "atEnd_" and x[2] for x in evs):
                good = not w or moved is None
            elif atend is True:
                good = setend and okmove
            elif atend is False:
                good = not setend and moved is not None and not cur(moved) and okmove
            else:
                good = False
            if good:
                rep.ok("iter", f)
            else:
                rep.bad("iter", f, "advancing does not follow the link or misses the end of the list", f.short())
    for f in one(IT + "operator*"):
        c = Plain(prog)
        e = run_engine(prog, c, f, rep)
        for kind, evs, st, ret, ctx, ins in c.exits:
            if cur(strip(retval(st, e, ret))):
                rep.ok("iter", f)
            else:
                rep.bad("iter", f, "the iterator does not yield its current label", f.short())
    for nm, want in (("atEnd", True), ("inRange", False)):
        for f in one(IT + nm):
            c = Plain(prog)
            e = run_engine(prog, c, f, rep)
            for kind, evs, st, ret, ctx, ins in c.exits:
                v = retval(st, e, ret)
                k = None
                for x in evs:
                    if x[0] == "A" and isflag(strip(x[1])):
                        k = x[2]
                pos = True
                while v.op == "!":
                    v, pos = v.args[0], not pos
                v = strip(v)
                if isflag(v) and pos == want:
                    rep.ok("iter", f)
                elif k is not None and (v in (ZERO, ONE) or isc(v)) and ((v is not ZERO) == pos) == (k == want):
                    rep.ok("iter", f)
                elif v.op == "==" and any(isflag(strip(a)) for a in v.args) and any(is_null(a) for a in v.args) and pos != want:
                    rep.ok("iter", f)
                else:
                    rep.bad("iter", f, "the end of the iteration is reported from %s" % v, f.short())
    for f in one("LabelLUT::mergedBegin"):
        c = Plain(prog)
        e = run_engine(prog, c, f, rep)
        got = set()
        for x in f.ins.values():
            if x["o"] == "ctor" and x.get("f", {}).get("n", "").startswith(IT):
                got.add(x["i"])
        b = Begin(prog, f)
        run_engine(prog, b, f, rep)
        if b.good and not b.badv:
            rep.ok("iter", f)
        else:
            rep.bad("iter", f, "the list of merged labels does not start at the label asked for, or uses the wrong array", f.short())
    # -- the map's use of the table
    sub = Sub(rep, {"redirect": "record", "relabel": "record", "lookup": "lookup"})
    for name in ("GeoMap::mergeFaces", "GeoMap::removeBridge", "GeoMap::mergeEdges", "GeoMap::splitEdge"):
        for f in prog.byname.get(name, []):
            c = c07.Bal(prog)
            run_engine(prog, c, f, rep)
            c07.balance(prog, sub, f, c)
    c07.lookups(prog, sub)
    c07.initialise(prog, sub)
    # -- owner
    for f in prog.fns.values():
        if f.cls in ("LabelLUT",) or f.implicit or f.name.startswith("LabelLUT::"):
            continue
        m, r = local_effects(prog, f)
        hit = [x for x in m if (x in (LUT, PREV)) or (isinstance(x, tuple) and x[1] in (LUT, PREV))]
        if hit:
            rep.bad("owner", f, "writes the arrays of the label table directly", f.short())
    rep.ok("owner", "LabelLUT")
    for r in ("redirect", "splice", "lookup"):
        rep.need(r, 1)
    rep.need("identity", 2)
    rep.need("iter", 4)


class Begin(Plain):
    names = frozenset({IT + "MergedIterator"})

    def __init__(self, prog, f):
        super().__init__(prog)
        self.good, self.badv, self.f = 0, [], f

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op == "fld" and loc.args[1] == IT + "currentLabel_":
            if strip(val) is T("p", self.f.vars[self.f.params[0]]["name"]):
                self.good += 1
            else:
                self.badv.append(val)

    def on_ctor(self, eng, st, ctx, ins, f, loc, args, inlined):
        if f["n"] == IT + "MergedIterator" and len(args) == 2 and "LabelLUT::LabelLUT" not in f["n"]:
            if not any(x.op == "fld" and x.args[1] == PREV for x in subterms(args[0][1])):
                self.badv.append(args[0][1])


def isflag(v):
    return v.op == "ld" and v.args[0].op == "fld" and v.args[0].args[1] == IT + "atEnd_"


def cur(v):
    return v.op == "ld" and v.args[0].op == "fld" and v.args[0].args[1] == IT + "currentLabel_"


def link(v):
    """v = prevMerged[x] -> x"""
    if v.op == "ld" and v.args[0].op == "elt" and any(
            x.op == "fld" and x.args[1] == IT + "prevMerged_" for x in subterms(v.args[0].args[0])):
        return v.args[0].args[1]
    return None


def ident(rep, f, c, evs, append, size, ctor=False):
    for a in (LUT, PREV):
        ms = [e for e in evs if e[0] == "M" and e[1] == a]
        ws = [e for e in evs if e[0] == "W" and e[1] == a]
        cs = [e for e in evs if e[0] == "C" and e[1] == a]
        if append:
            v = strip(ms[0][3]) if len(ms) == 1 and ms[0][2] in ("push_back", "emplace_back") else None
            good = not ws and v is not None and v.op == "m" and v.args[0] == "size" and \
                v.args[1].args[0].op == "fld" and v.args[1].args[0].args[1] in (LUT, PREV) and pushed_before(evs, ms[0], v)
            if good:
                rep.ok("identity", f)
            else:
                rep.bad("identity", f, "appending does not map the new label of %s to itself" % last(a), f.short())
            continue
        # resize to the given size; every element written with its own index, starting at 0, up to size
        if size is None:
            good = False
        else:
            sized = ctor or any(e[2] in ("resize", "assign") and e[3] is size for e in ms)
            good = sized and all(e[2] in ("resize", "assign", "clear", "reserve") for e in ms)
            empty = ("empty",) in evs
            io = [e for e in cs if e[2] == "iota" and strip(e[-2]) is ZERO]
            wgood = ws and all(strip(e[2]) is strip(e[3]) for e in ws) and strip(ws[0][2]) is ZERO
            ks = [e[2].args[0] for e in ws if isc(e[2])]
            wgood = wgood and ks == list(range(len(ks)))
            other = PREV if a == LUT else LUT
            if any(e[0] == "FA" and e[1] == a and e[2] == other for e in evs) and not ws:
                # copied from the other array, which is checked on its own
                wgood, sized, full0 = True, True, True
                good = not [e for e in ms if e[2] not in ("resize", "assign", "clear", "reserve")]
            # built by appending to an emptied array
            if ms and [e[2] for e in ms if e[2] != "reserve"][:1] == ["clear"] and not ws:
                pb = [e for e in ms if e[2] in ("push_back", "emplace_back")]
                good = all(e[2] in ("clear", "reserve", "push_back", "emplace_back") for e in ms)
                wgood = bool(pb) and all(grown(e[3], k) for k, e in enumerate(pb))
                ws = pb
            full = ("bound", size) in evs
            good = good and (bool(io) or (empty and not ws) or (wgood and bool(full)))
        if good:
            rep.ok("identity", f)
        else:
            rep.bad("identity", f, "%s is not initialised to the identity over the whole size" % last(a), f.short())


def grown(v, k):
    """the value appended in round k is k (counted, or taken from an array that grew alike)"""
    v = strip(v)
    if isc(v):
        return v.args[0] == k
    return v.op == "phi" or (v.op == "m" and v.args[0] == "size" and any(
        x.op == "fld" and x.args[1] in (LUT, PREV) for x in subterms(v)))


def pushed_before(evs, m, v):
    """the size used is that of an array not yet appended to"""
    arr = v.args[1].args[0].args[1]
    for e in evs:
        if e is m:
            return True
        if e[0] == "M" and e[1] == arr and arr != m[1]:
            # content version tells whether the size was taken before
            return len(v.args[1].args) == 1
    return True
