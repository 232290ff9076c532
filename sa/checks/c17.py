import re
from ..core import *
from .c16 import receivers
from .c01 import strip

TITLE = "protected edges are never removed by merging"
GROUPS = ["geomap"]
EXPLANATION = ("Path analysis of the protection observer and of the flag bookkeeping: every path on which the removal callback "
               "agrees has established that no protection bit is set; every path on which the edge-merge callback agrees has "
               "compared the flags of the two edges; all three vetoing callbacks are connected on every path that attaches "
               "to a map; protection masks cover every protection flag; a split edge's new part takes over the flags; "
               "parallel edges hand their flags to the survivor before they are removed; flag setting and clearing touch "
               "exactly the given bits.")
RULES = {"remove": "the removal callback agrees only if no protection bit of the edge is set",
         "merge": "the edge-merge callback agrees only if both edges carry equal flags",
         "attach": "attaching connects removal callbacks to face merge and bridge removal and the merge callback to edge merge",
         "mask": "the protection mask contains every protection flag",
         "bits": "setting/clearing/querying flags affects exactly the given bits",
         "split": "the new edge of a split carries the flags of the split edge",
         "survivor": "before a parallel edge is removed its flags are added to the surviving edge",
         "complete": "merging two faces completely gives up when one of the common edges is protected",
         "clear": "only flags unrelated to protection are cleared by operations"}
FLAGS = "GeoMap::Edge::flags_"
NEED = {"preMergeFacesHook": "remove", "preRemoveBridgeHook": "remove", "preMergeEdgesHook": "merge"}


def flagld(t):
    return t.op == "ld" and t.args[0].op == "fld" and t.args[0].args[1] == FLAGS


class R(Recorder):
    """result analysis of a boolean callback"""
    reads = frozenset({FLAGS, SIGMA, "GeoMap::edges_", "GeoMap::Dart::label_"})
    modular = frozenset({"GeoMap::edge"})

    def inline(self, eng, fn, ctx, ins):
        if fn.name in ("GeoMap::edge", "GeoMap::Dart::guaranteedEdge"):
            return False
        if fn.cls.startswith(("GeoMap::Dart", "GeoMap::Edge", "EdgeProtection")):
            return True
        return super().inline(eng, fn, ctx, ins)


def masked(t, mask):
    """t is flags & m with m covering mask"""
    if t.op == "&b" or t.op == "&" and len(t.args) == 2:
        c = [a for a in t.args if isc(a)]
        o = [a for a in t.args if not isc(a)]
        return bool(c and o and flagld(o[0]) and (c[0].args[0] & mask) == mask)
    return flagld(t)


def free(e, st, rv, mask, want):
    """rv == want implies that no protection bit is set"""
    rv = truth(rv)
    if isc(rv):
        if bool(rv.args[0]) != want:
            return True
        for f, v in st.facts.items():
            if not v and masked(f, mask):
                return True
            if v and f.op == "==" and ZERO in f.args and any(masked(a, mask) for a in f.args):
                return True
        return False
    if rv.op == "!":
        return free(e, st, rv.args[0], mask, not want)
    if rv.op == "==" and ZERO in rv.args and want:
        return any(masked(a, mask) for a in rv.args) or free(e, st, ONE, mask, True)
    if not want and masked(rv, mask):
        return True
    if rv.op == "&&" and want:
        return any(free(e, st, a, mask, True) for a in rv.args) or free(e, st, ONE, mask, True)
    if rv.op == "||" and not want:
        return any(free(e, st, a, mask, False) for a in rv.args)
    return free(e, st, ONE, mask, True)


def equal_flags(e, st, rv, want):
    rv = truth(rv)

    def cmp(t):
        return t.op == "==" and len([a for a in t.args if flagld(a)]) == 2 and t.args[0] is not t.args[1]
    if isc(rv):
        if bool(rv.args[0]) != want:
            return True
        return any(v and cmp(f) for f, v in st.facts.items())
    if rv.op == "!":
        return equal_flags(e, st, rv.args[0], not want)
    if cmp(rv):
        return want
    if rv.op == "&&" and want:
        return any(equal_flags(e, st, a, True) for a in rv.args)
    if rv.op in ("^b", "-", "+") and not want:
        return len([t for t in subterms(rv) if flagld(t)]) >= 2
    return any(v and cmp(f) for f, v in st.facts.items())


class A(Recorder):
    """attach: connects on the path"""
    def inline(self, eng, fn, ctx, ins):
        return True if fn.cls == "EdgeProtection" else None

    def start(self, eng):
        return frozenset()

    def hit(self, st, ctx, ins, method, loc):
        if method == "connect" and loc is not None and loc.op == "fld" and last(loc.args[1]) in NEED:
            st.cl = st.cl | {(last(loc.args[1]), frozenset(receivers(ctx.fn, ins)))}

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        self.hit(st, ctx, ins, f["m"], obj)

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        self.hit(st, ctx, ins, method, loc)


class S(GeoRec):
    kinds = frozenset({"flags", "cells"})


class P(Recorder):
    """splitParallelEdges: setFlag(flags) before removal; cl = handed-over darts' flags seen"""
    fields = frozenset({FLAGS})
    modular = frozenset({"GeoMap::mergeFaces", "GeoMap::removeBridge", "GeoMap::mergeEdges", "GeoMap::splitEdge",
                         "GeoMap::removeEdge"})

    def start(self, eng):
        self.bad, self.good = [], 0
        return False

    def inline(self, eng, fn, ctx, ins):
        if fn.name in self.modular:
            return False
        if fn.name in ("GeoMap::Edge::setFlag", "GeoMap::Edge::flags"):
            return True
        return super().inline(eng, fn, ctx, ins)

    def on_loop_head(self, eng, st, ctx, block):
        pass

    def on_write(self, eng, st, ctx, ins, loc, val):
        if loc.op == "fld" and loc.args[1] == FLAGS:
            for v in allsub(eng, val):
                if v.op in ("|b", "|") and sum(1 for a in v.args if any(flagld(x) for x in allsub(eng, a))) >= 2:
                    st.cl = True

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if f["n"] in ("GeoMap::mergeFaces", "GeoMap::removeEdge") or f["n"] == "GeoMap::removeBridge":
            if st.cl is not True:
                self.bad.append(site(ctx, ins))
            else:
                self.good += 1
            st.cl = False


class F(Recorder):
    """mergeFacesCompletely: edges chosen for removal are known to be unprotected"""
    reads = frozenset({FLAGS})
    modular = P.modular

    def __init__(self, prog, mask):
        self.mask = mask
        self.bad, self.good, self.tested = [], 0, False
        super().__init__(prog)

    def inline(self, eng, fn, ctx, ins):
        if fn.name in self.modular:
            return False
        if fn.name in ("GeoMap::Edge::flag", "GeoMap::Edge::flags"):
            return True
        return super().inline(eng, fn, ctx, ins)

    def start(self, eng):
        return False

    def on_assume(self, eng, st, ctx, cond, val):
        lv = leaves(eng, cond)
        if all(masked(x, self.mask) for x in lv):
            self.tested = True
            st.cl = not val
        elif cond.op == "==" and ZERO in cond.args and any(masked(a, self.mask) for a in cond.args):
            self.tested = True
            st.cl = val

    def on_loop_head(self, eng, st, ctx, block):
        st.cl = False

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if method == "push_back" and root(loc).op == "var" and args and "int" == self.prog.tstr(
                ctx.fn.ins[ins["args"][0]].get("t")).replace("const ", "").replace(" &", ""):
            if st.cl is not True:
                self.bad.append(site(ctx, ins))
            else:
                self.good += 1


def run(prog, rep, tier):
    en = next((e for n, e in prog.enums.items() if any(v[0] == "ALL_PROTECTION" for v in consts(e))), None)
    if en is None:
        raise AnalysisBroken("protection flags not found")
    vals = dict(consts(en))
    prot = 0
    for n, v in vals.items():
        if n.endswith("_PROTECTION") and n != "ALL_PROTECTION":
            prot |= v
    for n, v in python_flags().items():
        if n != "ALL_PROTECTION":
            prot |= v
    if prot & ~vals["ALL_PROTECTION"]:
        rep.bad("mask", en["n"], "ALL_PROTECTION leaves out a protection flag", en["n"])
    else:
        rep.ok("mask", en["n"])
    mask = prot | vals["ALL_PROTECTION"]
    verdict = {}

    def judge(name):
        if name in verdict:
            return verdict[name]
        out = set()
        for f in prog.byname.get(name, []):
            if prog.tstr(f.ret) not in ("bool", "_Bool"):
                continue
            c = R(prog)
            e = run_engine(prog, c, f, rep)
            ex = [(st, retval(st, e, ret)) for kind, cl, st, ret, ctx, ins in c.exits if kind == "return"]
            if ex and all(free(e, st, rv, mask, True) for st, rv in ex):
                out.add("remove")
            if ex and all(equal_flags(e, st, rv, True) for st, rv in ex):
                out.add("merge")
        verdict[name] = out
        return out
    for f in prog.byname.get("EdgeProtection::attachHooks", []):
        c = A(prog)
        e = run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            for h, want in NEED.items():
                rs = [r for hh, r in cl if hh == h]
                if not rs:
                    rep.bad("attach", f.name, "%s is not connected on some path" % h, f.short())
                    continue
                names = set().union(*rs)
                if not names:
                    continue           # connected in a way not understood
                if any(want in judge(n) for n in names):
                    rep.ok(want, "%s: %s" % (h, sorted(names)))
                else:
                    rep.bad(want, sorted(names)[0], "the callback for %s may agree although a protected edge is affected" % h,
                            f.short())
    ctor = [f for f in prog.fns.values() if f.cls == "EdgeProtection" and f.kind == "ctor" and not f.implicit and f.params]
    for f in ctor:
        c = A(prog)
        e = run_engine(prog, c, f, rep)
        full = [x for x in c.exits if x[0] == "return" and len({h for h, r in x[1]}) == 3]
        partial = [x for x in c.exits if x[0] == "return" and not x[1] and not any(
            (not v if not (k.op == "==" and ZERO in k.args) else v) and any(t.op == "p" or t.op == "var" for t in subterms(k)) for k, v in x[2].facts.items())]
        if not full or partial:
            rep.bad("attach", f.name, "constructing protection for a map does not attach to it", f.short())
        else:
            rep.ok("attach", f.name)
    # bits
    for f in prog.byname.get("GeoMap::Edge::setFlag", []):
        c = S(prog)
        e = run_engine(prog, c, f, rep)
        flag = f.vars[f.params[0]]["name"]
        for kind, evs, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            w = [x for x in evs if x[0] == "flags"]
            on = None
            for k, v in st.facts.items():
                if len(f.params) > 1 and any(t.op in ("p", "ld", "var") and f.vars[f.params[1]]["name"] in map(str, t.args) or
                                             f.vars[f.params[1]]["name"] in show(t) for t in [k]):
                    on = v if k.op != "!" else not v
            if len(w) != 1:
                rep.bad("bits", f.name, "flags are not changed on some path", f.short())
                continue
            v, old = w[0][3], w[0][4]
            opn = v.op
            txt = show(v)
            isor = opn in ("|b", "|")
            isand = opn in ("&b", "&")
            if on is True and not (isor and old in v.args) or on is False and not (isand and old in v.args and any(
                    a is not old and a.op in ("~", "~b") or isc(a) for a in v.args)):
                rep.bad("bits", f.name, "setting or clearing flags changes other bits: %s" % txt, f.short())
            else:
                rep.ok("bits", f.name)
    for f in prog.byname.get("GeoMap::Edge::flag", []):
        c = R(prog)
        e = run_engine(prog, c, f, rep)
        for kind, cl, st, ret, ctx, ins in c.exits:
            if kind == "return":
                rv = retval(st, e, ret)
                if rv.op in ("&b", "&") and any(flagld(a) for a in rv.args):
                    rep.ok("bits", f.name)
                elif not any(flagld(t) for t in subterms(rv)) or rv.op in ("|b", "|", "^b", "^"):
                    rep.bad("bits", f.name, "querying flags does not mask the flags", f.short())
    # split
    for f in prog.byname.get("GeoMap::splitEdge", []):
        if len(f.params) < 3 and not any(e["o"] == "new" for e in f.ins.values()):
            continue
        c = S(prog)
        e = run_engine(prog, c, f, rep)
        for kind, evs, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            new = [x for x in evs if x[0] == "push" and x[1] == "E"]
            for x in new:
                v = e.load(st, T("fld", deref(x[3]), FLAGS))
                if any(flagld(t) and root(t.args[0]) is not root(deref(x[3])) and root(t.args[0]).op != "new" for t in subterms(v)) and \
                        (flagld(v) or v.op in ("|", "|b", "phi")):
                    rep.ok("split", f.name)
                else:
                    rep.bad("split", f.name, "the new edge does not carry the flags of the split edge", x[-1], show(v))
            for x in evs:
                if x[0] == "flags" and root(x[2]).op != "new" and flagld(x[4]) and x[3] is not x[4] and x[3].op not in ("|", "|b"):
                    rep.bad("split", f.name, "the flags of the split edge are changed", x[-1])
    for f in prog.byname.get("GeoMap::splitParallelEdges", []):
        c = P(prog)
        e = run_engine(prog, c, f, rep)
        if c.bad:
            rep.bad("survivor", f.name, "a parallel edge is removed without handing its flags to the survivor", c.bad[0])
        for i in range(c.good):
            rep.ok("survivor", f.name)
    for f in prog.byname.get("mergeFacesCompletely", []):
        c = F(prog, mask)
        e = run_engine(prog, c, f, rep)
        if c.bad or not c.tested:
            rep.bad("complete", f.name, "a protected edge is chosen for removal", c.bad[0] if c.bad else f.short())
        else:
            rep.ok("complete", f.name)
    for f in prog.byname.get("GeoMap::mergeEdges", []):
        c = S(prog)
        e = run_engine(prog, c, f, rep)
        for kind, evs, st, ret, ctx, ins in c.exits:
            for x in evs:
                if x[0] == "flags" and x[1] == "flags_" and x[3].op not in ("|", "|b") and not flagld(x[3]):
                    rep.bad("clear", f.name, "edge flags are dropped while merging edges", x[-1])
        rep.ok("clear", f.name)


def consts(e):
    return [(c["n"].split("::")[-1], int(c["v"])) for c in e["consts"]]


def python_flags():
    """protection flags the Python side defines"""
    p = os.path.join(REPO, "python/maputils/flag_constants.py")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"([A-Z_]+_PROTECTION)\s*=\s*(0[xX][0-9a-fA-F]+|\d+)\s*(#.*)?$", l.strip())
            if m:
                out[m.group(1)] = int(m.group(2), 0)
    return out
