from ..mods import *

TITLE = "callbacks bracket operations"
GROUPS = ["geomap"]
EXPLANATION = ("Typestate of the callback signals over the inlined control flow of each operation (path-sensitive "
               "dataflow): on each path the order of pre-callbacks, their answers, the first and last change of map "
               "state, and post-callbacks; plus the combiner that turns individual answers into one.")
RULES = {"pre": "success: pre-callback called exactly once, answered true, before any change of the map",
         "post": "success: post-callback called exactly once after the last change; never on an empty result",
         "veto": "an empty result needs a false answer; after a false answer nothing else is called",
         "node": "a node is only removed after the node-removal callback for that very node said yes",
         "survivor": "post-callback receives the cell the operation returns; pre-callback the edge concerned",
         "combiner": "the combiner asks each callback at most once, stops at the first false and returns false exactly then",
         "signal": "each vetoable signal uses the combiner"}

OPS = {"GeoMap::mergeEdges": ("preMergeEdgesHook", "postMergeEdgesHook", True),
       "GeoMap::splitEdge": ("preSplitEdgeHook", "postSplitEdgeHook", False),
       "GeoMap::removeBridge": ("preRemoveBridgeHook", "postRemoveBridgeHook", True),
       "GeoMap::mergeFaces": ("preMergeFacesHook", "postMergeFacesHook", True)}
VETO = {"removeNodeHook", "preMergeEdgesHook", "preRemoveBridgeHook", "preMergeFacesHook"}
LATE_OK = {"pixelArea_"}


class C(ModRec):
    # state: tuple of ("mod",what,site) compressed / ("hook",name,arg,res,site) / ("gone",K,obj,site)
    def mod(self, eng, st, ctx, ins, what, loc):
        if what in LATE_OK:
            return
        if root(loc).op == "new":
            # a cell under construction: counts from its registration on
            pass
        ev = st.cl
        if ev and ev[-1][0] == "mod":
            return
        if sum(1 for e in ev if e[0] == "mod") >= 6:
            return
        st.cl = ev + (("mod", what, site(ctx, ins)),)

    def on_write(self, eng, st, ctx, ins, loc, val):
        super().on_write(eng, st, ctx, ins, loc, val)
        if loc.op == "fld" and loc.args[1] in MAPF and val is ZERO and not local(loc):
            st.cl = st.cl + (("gone", MAPF[loc.args[1]], loc.args[0], site(ctx, ins)),)

    def on_assume(self, eng, st, ctx, cond, val):
        if cond.op == "r" and isinstance(cond.args[2], str) and "signal" in cond.args[2]:
            ev = list(st.cl)
            for i in range(len(ev) - 1, -1, -1):
                x = ev[i]
                if x[0] == "hook" and x[5].args[:2] == cond.args[:2]:
                    ev[i] = x[:6] + (val,) + x[6:]
                    st.cl = tuple(ev)
                    return

    def hook(self, eng, st, ctx, ins, name, args, res):
        if sum(1 for e in st.cl if e[0] == "hook") >= 8:
            return
        r = T("r", ctx.id, ins["i"], "boost::signals2::signal::operator()",
              *[eng.argval(st, a) if a[0] == "L" else a[1] for a in args])
        a0 = addr(args[0][1]) if args and args[0][0] == "L" else (args[0][1] if args else None)
        lab = None
        if args and args[0][0] == "L" and name in VETO and name != "removeNodeHook":
            lab = eng.load(st, T("fld", args[0][1], "GeoMap::Dart::label_"))
        a1 = addr(args[1][1]) if len(args) > 1 and args[1][0] == "L" else None
        st.cl = st.cl + (("hook", name, a0, lab, a1, r, site(ctx, ins)),)


def res_known(e, st, ev):
    """answer of a callback on this path, if it was looked at"""
    return ev[6] if len(ev) > 7 else None


def run(prog, rep, tier):
    for op, (pre, post, vetoable) in OPS.items():
        fs = prog.byname.get(op, [])
        if not fs:
            raise AnalysisBroken("%s not found" % op)
        for f in fs:
            c = C(prog)
            e = run_engine(prog, c, f, rep)
            for kind, evs, st, ret, ctx, ins in c.exits:
                tr = " ; ".join("%s %s@%s" % (x[0], x[1], x[-1]) for x in evs)
                hooks = [x for x in evs if x[0] == "hook"]
                pres = [x for x in hooks if x[1] == pre]
                posts = [x for x in hooks if x[1] == post]
                vetoed = [x for x in hooks if x[1] in VETO and res_known(e, st, x) is False]
                if kind != "return":
                    continue
                rv = retval(st, e, ret)
                empty = rv is not None and is_null(rv)
                if empty:
                    if posts:
                        rep.bad("post", op, "post-callback called although the result is empty", posts[0][-1], tr)
                    else:
                        rep.ok("post", op)
                    if not vetoed:
                        rep.bad("veto", op, "empty result without a callback having refused", f.short(), tr)
                    elif evs[-1] is not vetoed[0]:
                        rep.bad("veto", op, "something happens after a callback refused", evs[-1][-1], tr)
                    else:
                        rep.ok("veto", op)
                    continue
                # success
                i0 = next((i for i, x in enumerate(evs) if x[0] == "mod"), len(evs))
                if len(pres) != 1:
                    rep.bad("pre", op, "%s called %d times on a successful path" % (pre, len(pres)), f.short(), tr)
                elif evs.index(pres[0]) > i0:
                    rep.bad("pre", op, "map changed (%s) before %s" % (evs[i0][1], pre), evs[i0][-1], tr)
                elif vetoable and res_known(e, st, pres[0]) is not True:
                    rep.bad("pre", op, "%s: answer not respected" % pre, pres[0][-1], tr)
                else:
                    rep.ok("pre", op)
                if len(posts) != 1:
                    rep.bad("post", op, "%s called %d times on a successful path" % (post, len(posts)), f.short(), tr)
                else:
                    ip = evs.index(posts[0])
                    late = [x for x in evs[ip + 1:] if x[0] in ("mod", "gone") or x[0] == "hook" and x[1] != "associatePixelsHook"]
                    if late:
                        rep.bad("post", op, "map changed (%s) after %s" % (late[0][1], post), late[0][-1], tr)
                    else:
                        rep.ok("post", op)
                for x in evs:
                    if x[0] == "gone" and x[1] == "N":
                        hs = [h for h in hooks if h[1] == "removeNodeHook" and deref(h[2]) is x[2]]
                        if not hs or res_known(e, st, hs[-1]) is not True:
                            rep.bad("node", op, "node removed without its removal callback having agreed", x[-1], tr)
                        else:
                            rep.ok("node", op)
                if op == "GeoMap::mergeEdges":
                    hs = [h for h in hooks if h[1] == "removeNodeHook"]
                    if len(hs) != 1 or evs.index(hs[0]) > i0:
                        rep.bad("node", op, "node-removal callback not asked exactly once before the change", f.short(), tr)
                # survivor
                if len(posts) == 1 and len(pres) == 1:
                    s = deref(posts[0][2])
                    if any(x[0] == "gone" and x[2] is s for x in evs):
                        rep.bad("survivor", op, "%s receives a removed cell" % post, posts[0][-1], tr)
                    retcell = deref(posts[0][4]) if op == "GeoMap::splitEdge" and posts[0][4] is not None else s
                    lab = e.load(st, T("fld", retcell, CLS_OF["F" if "Face" in post or "Bridge" in post else "E"] + "::label_"))
                    if rv is not None and rv.op == "ld" and rv.args[0].op == "elt":
                        if rv.args[0].args[1] is lab:
                            rep.ok("survivor", op)
                        else:
                            rep.bad("survivor", op, "%s does not receive the cell that is returned" % post, posts[0][-1], tr)
                    elif rv is not None and deref(rv) is retcell:
                        rep.ok("survivor", op)
                    if pres[0][3] is not None:
                        lab = pres[0][3]
                        el = T("abs", lab.args[0] if lab.op == "neg" else lab)
                        gone = [x[2] for x in evs if x[0] == "gone" and x[1] == "E"]
                        def edge_of(o):
                            return o.op == "obj" and o.args[0].op == "ld" and o.args[0].args[0].op == "elt" and o.args[0].args[0].args[1] is el
                        want = [s] if op == "GeoMap::mergeEdges" else gone
                        if want and all(o.op == "obj" and o.args[0].op == "ld" and o.args[0].args[0].op == "elt" for o in want):
                            if any(edge_of(o) for o in want):
                                rep.ok("survivor", op + " pre")
                            else:
                                rep.bad("survivor", op, "%s is told about a different edge than the one affected" % pre, pres[0][-1], tr)
                    if op == "GeoMap::splitEdge" and deref(pres[0][2]) is not s:
                        rep.bad("survivor", op, "%s and %s are told about different edges" % (pre, post), posts[0][-1], tr)
    for f in prog.byname.get("GeoMap::removeIsolatedNode", []):
        c = C(prog)
        e = run_engine(prog, c, f, rep)
        for kind, evs, st, ret, ctx, ins in c.exits:
            if kind != "return":
                continue
            tr = " ; ".join("%s %s@%s" % (x[0], x[1], x[-1]) for x in evs)
            hooks = [x for x in evs if x[0] == "hook"]
            gone = [x for x in evs if x[0] in ("gone", "mod")]
            ans = [res_known(e, st, h) for h in hooks]
            rv = retval(st, e, ret)
            k = e.known(st, truth(rv))
            if len(hooks) != 1 or hooks[0][1] != "removeNodeHook":
                rep.bad("node", f.name, "node-removal callback asked %d times" % len(hooks), f.short(), tr)
            elif gone and (ans[0] is not True or evs.index(hooks[0]) > evs.index(gone[0])):
                rep.bad("node", f.name, "node removed without its callback having agreed first", gone[0][-1], tr)
            elif not gone and ans[0] is True:
                rep.bad("node", f.name, "node not removed although its callback agreed", f.short(), tr)
            elif k is not None and k != ans[0]:
                rep.bad("node", f.name, "result does not reflect the callback's answer", f.short(), tr)
            else:
                rep.ok("node", f.name)
    combiner(prog, rep)
    for r in prog.recs["GeoMap"]:
        for fl in r["fields"]:
            if fl["n"] in VETO:
                if "interruptable_accumulator" in prog.tstr(fl["t"]):
                    rep.ok("signal", fl["n"])
                else:
                    rep.bad("signal", "GeoMap", "%s does not stop at a refusal" % fl["n"], "src/geomap/cppmap.hxx")
    for r, n in (("pre", 4), ("post", 8), ("veto", 3), ("node", 4), ("signal", 4), ("combiner", 2)):
        rep.need(r, n)


class Comb(Client):
    def __init__(self):
        self.exits = []
        self.double = set()

    def start(self, eng):
        return ()

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if f["m"] == "operator*" and obj is not None:
            if st.cl and st.cl[-1][0] == "ask" and (len(st.cl) < 2 or True) and not any(x[0] == "adv" for x in st.cl[-1:]):
                self.double.add(site(ctx, ins))
            st.cl = (st.cl + (("ask", T("x", ctx.id, ins["i"])),))[-3:]

    def on_write(self, eng, st, ctx, ins, loc, val):
        if val.op == "adv":
            st.cl = (st.cl + (("adv", val.args[1]),))[-3:]

    def on_assume(self, eng, st, ctx, cond, val):
        t = cond
        if any(x.op == "m" and x.args[0] == "deref" for x in subterms(t)):
            st.cl = (st.cl + (("ans", val),))[-3:]

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        if method == "operator++":
            st.cl = (st.cl + (("adv", method),))[-3:]

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        self.exits.append((kind, st.cl, st, ret))


def combiner(prog, rep):
    fs = prog.byname.get("interruptable_accumulator::operator()", [])
    if not fs:
        rep.bad("combiner", "interruptable_accumulator", "no combiner is used by the signals", "src/geomap/cppmap.hxx")
        return
    for f in fs:
        c = Comb()
        e = run_engine(prog, c, f, rep)
        for kind, evs, st, ret in c.exits:
            v = e.known(st, truth(retval(st, e, ret)))
            lastans = next((x[1] for x in reversed(evs) if x[0] == "ans"), None)
            end = evs[-1] if evs else None
            if v is None:
                rep.bad("combiner", f.name, "answer not determined by the callbacks", f.short(), str(evs))
            elif v is False and not (end and end[0] == "ans" and end[1] is False):
                rep.bad("combiner", f.name, "refuses although the last callback asked agreed (or asks on after a refusal)", f.short(), str(evs))
            elif v is True and (lastans is False):
                rep.bad("combiner", f.name, "agrees although a callback refused", f.short(), str(evs))
            else:
                rep.ok("combiner", f.name)
        for d in c.double:
            rep.bad("combiner", f.name, "asks a callback twice", d)
