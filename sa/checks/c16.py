from ..core import *
from ..program import operands
from .c01 import strip

TITLE = "observers detach when told to and when destroyed"
GROUPS = ["geomap", "python_bindings"]
TECHNIQUE = "static: typestate of connections over the control flow of each observer class, plus destructor call graph"
EXPLANATION = ("For every class that keeps connections to a map's callbacks: each connection made with the object itself as "
               "receiver is kept in a member; the detaching function visits every kept connection from the first to the "
               "last and disconnects it before forgetting it; the destructor detaches on every path; copies do not take "
               "over connections.")
RULES = {"kept": "the result of connecting the object itself is stored in a connection member",
         "all": "detaching disconnects every kept connection before the list is emptied",
         "dtor": "destruction detaches on every path (own or base class destructor)",
         "copy": "a user-written copy constructor does not copy connections"}


def conn_fields(prog):
    out = {}
    for n, rl in prog.recs.items():
        for r in rl:
            for f in r["fields"]:
                s = prog.tstr(f["t"])
                if "signals2::connection" in s or "signals2::scoped_connection" in s or "signals::connection" in s:
                    out.setdefault(n, {})[n + "::" + f["n"]] = s
    return out


def closure(fn, i, seen=None):
    """instructions an instruction's value is computed from (within fn)"""
    seen = set() if seen is None else seen
    todo = [i]
    while todo:
        i = todo.pop()
        if i in seen or i not in fn.ins:
            continue
        seen.add(i)
        e = fn.ins[i]
        todo += list(operands(e))
        if e["o"] == "var":
            for d in fn.ins.values():
                if d["o"] == "decl" and d.get("v") == e.get("v"):
                    todo.append(d["i"])
                if d["o"] in ("asg", "assign") and isinstance(d.get("a"), int) and d["a"] in fn.ins and \
                        fn.ins[d["a"]]["o"] == "var" and fn.ins[d["a"]].get("v") == e.get("v"):
                    todo.append(d["b"])
                if d["o"] == "call" and "f" in d and d["f"]["m"] == "operator=" and d.get("obj") in fn.ins and \
                        fn.ins[d["obj"]]["o"] == "var" and fn.ins[d["obj"]].get("v") == e.get("v"):
                    todo += d["args"]
    return seen


def receivers(fn, e):
    """repo member functions named in the arguments of a connect call"""
    out = set()
    for a in e["args"]:
        for i in closure(fn, a):
            x = fn.ins[i]
            if x["o"] == "fun" and x["f"].get("repo"):
                out.add(x["f"]["n"])
    return out


def binds_this(fn, e):
    return any(fn.ins[i]["o"] == "this" for a in e["args"] for i in closure(fn, a))


class D(Recorder):
    """typestate of a detach function; cl: (state, container)"""
    def __init__(self, prog, fields):
        self.F = fields
        self.bad = []
        super().__init__(prog)

    def start(self, eng):
        self.e = eng
        return ("start", None)

    def inline(self, eng, fn, ctx, ins):
        return True if fn.file.startswith(REPO) and fn.cls in self.classes else None

    def about(self, t):
        seen, todo = set(), [t]
        while todo:
            for x in subterms(todo.pop()):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "fld" and x.args[1] in self.F:
                    return x.args[1]
                if x.op == "phi":
                    todo += list(self.e.phi_in.get(x, ()))
        return None

    def on_assume(self, eng, st, ctx, cond, val):
        f = self.about(cond)
        if f is None:
            return
        s = show(cond)
        if any(t.op in ("m", "f", "r") and "connected" in str(t.args[:3]) for t in subterms(cond)):
            if not val and st.cl[0] == "need":
                st.cl = ("done", f)
            return
        at = ()
        if cond.op == "<":
            a, b = cond.args
            at = (a, b)
            if self.about(b) and not self.about(a):      # i < size
                if isc(a) and a.args[0] != 0 and st.cl[0] == "start" and val:
                    self.bad.append((ctx, "the first connections are skipped"))
                more = val
            elif self.about(a) and isc(b):
                more = not val
                if b.args[0] > 0:
                    self.bad.append((ctx, "the first connections are skipped"))
            else:
                return
        elif cond.op == "==":
            a, b = cond.args
            more = not val          # it == end / size == 0
        elif cond.op == "m" and cond.args[0] == "size":
            more = val
            if val:
                return              # "if not empty" in front of the loop
        elif cond.op in ("phi", "+"):
            more = val
        else:
            return
        if more:
            st.cl = ("need", f) + at
        else:
            st.cl = ("ex", f)

    def on_loop_head(self, eng, st, ctx, block):
        if st.cl[0] == "need":
            self.bad.append((ctx, "a connection is passed over"))
        st.cl = st.cl[:2]

    def visit(self, eng, st, ctx, ins, f, obj, args, inlined=False):
        if f["m"] == "disconnect" and obj is not None and self.about(obj):
            if len(st.cl) == 4 and obj.op == "elt":
                # the loop condition low < high must be about the element visited: [low] or [high - 1]
                i = strip(obj.args[1])
                a, b = (strip(x) for x in st.cl[2:])
                if not (delta(i, a) == 0 or delta(i, b) == 1):
                    self.bad.append((ctx, "the loop does not reach all connections"))
            st.cl = ("done", self.about(obj)) if st.cl[0] == "need" or obj.op != "fld" else ("ex", self.about(obj))
        if obj is None and f["m"] in ("for_each",):
            for a in args:
                v = a[1] if a[0] == "V" else st.store.get(a[1], a[1])
                if self.about(v):
                    st.cl = ("ex", self.about(v))

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        self.visit(eng, st, ctx, ins, f, obj, args)

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        self.visit(eng, st, ctx, ins, {"m": method}, loc, args)
        if loc.op == "fld" and loc.args[1] in self.F and method in ("clear", "resize", "erase", "pop_back", "swap", "assign"):
            if st.cl[0] in ("start", "need") or st.cl[0] == "done" and method != "pop_back":
                self.bad.append((ctx, "connections are forgotten before they are disconnected"))

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        if kind == "return":
            if st.cl[0] == "start":
                self.bad.append((ctx, "some path returns without looking at the connections"))
            elif st.cl[0] in ("need", "done"):
                self.bad.append((ctx, "some path returns before the last connection"))
        self.exits.append((kind, st.cl))


class K(Recorder):
    """destructor: must-call of a detach function"""
    def __init__(self, prog, detach):
        self.detach = detach
        super().__init__(prog)

    def start(self, eng):
        return False

    def inline(self, eng, fn, ctx, ins):
        if fn.id in self.detach:
            return False
        return True if self.prog and fn.id in self.via else None

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        if f.get("id") in self.detach:
            st.cl = True


def run(prog, rep, tier):
    cf = conn_fields(prog)
    if not cf:
        raise AnalysisBroken("no class with connections found")
    allf = {f for d in cf.values() for f in d}
    rc = reach(prog)
    # connect calls
    nconn = 0
    for fn in prog.fns.values():
        for e in fn.ins.values():
            if e["o"] != "call" or "f" not in e or e["f"]["m"] != "connect" or "signals2" not in e["f"]["n"]:
                continue
            if not binds_this(fn, e):
                continue
            nconn += 1
            kept = False
            for x in fn.ins.values():
                if x["o"] == "call" and "f" in x and x["f"]["m"] in ("push_back", "operator=", "insert", "emplace_back", "push_front"):
                    ob = x.get("obj")
                    if ob in fn.ins and any(fn.ins[i]["o"] == "mem" and fn.ins[i]["f"] in allf for i in closure(fn, ob)) and \
                            any(e["i"] in closure(fn, a) for a in x["args"]):
                        kept = True
                if x["o"] == "init" and isinstance(x.get("f"), str) and x["f"] in allf and e["i"] in closure(fn, x["i"]):
                    kept = True
                if x["o"] == "return" or x["o"] == "ret":
                    if any(e["i"] in closure(fn, y) for y in operands(x)):
                        kept = True         # handed to the caller
                if x["o"] == "call" and "f" in x and x["f"].get("repo") and any(e["i"] in closure(fn, a) for a in x["args"]):
                    kept = True             # handed to a helper
            if kept:
                rep.ok("kept", "%s:%d" % (fn.short(), e["l"]))
            else:
                rep.bad("kept", fn.name, "a connection with the object as receiver is not kept", "%s:%d" % (os.path.relpath(fn.file, REPO), e["l"]))
    # classes
    for cls, fields in sorted(cf.items()):
        methods = [f for f in prog.fns.values() if f.cls == cls]
        scoped = all("scoped_connection" in s for s in fields.values())
        detach = set()
        direct = [f for f in methods if f.kind not in ("ctor",) and any(
            e["o"] == "call" and "f" in e and e["f"]["m"] == "disconnect" and "signals2" in e["f"]["n"] or
            e["o"] in ("fun", "memfn") and "f" in e and isinstance(e["f"], dict) and e["f"]["m"] == "disconnect" and "signals2" in e["f"]["n"]
            for e in f.ins.values())]
        top = [f for f in methods if f.kind not in ("ctor", "dtor") and (f in direct or rc[f.id] & {d.id for d in direct})
               and f.name.split("::")[-1] not in ("attachHooks",)]
        dt = [f for f in methods if f.kind == "dtor" and not f.implicit]
        inst = {}
        for f in top or [x for x in dt if x in direct]:
            if f.name in inst and inst[f.name] >= 2:
                continue
            inst[f.name] = inst.get(f.name, 0) + 1
            if not any(g is not f and f.id in rc[g.id] for g in top) or f in direct:
                c = D(prog, fields)
                c.classes = {cls}
                e = run_engine(prog, c, f, rep)
                # helpers that detach one connection are judged in their callers
                if any(g is not f and f.id in rc[g.id] for g in top) and f.params:
                    continue
                detach.add(f.id)
                if c.bad:
                    rep.bad("all", f.name, c.bad[0][1], f.short())
                else:
                    rep.ok("all", f.name)
        detach |= {f.id for f in top if rc[f.id] & detach}
        if scoped:
            rep.ok("dtor", cls)
            continue
        if not detach:
            rep.bad("all", cls, "no function of the class disconnects its connections", cls)
        for d in dt[:2]:
            if d in direct and not top:
                rep.ok("dtor", cls)
                continue
            c = K(prog, detach)
            c.via = {f.id for f in methods} - detach
            e = run_engine(prog, c, d, rep)
            miss = [x for x in c.exits if x[0] == "return" and not x[1]]
            if miss:
                rep.bad("dtor", cls, "the destructor does not detach from the map on every path", d.short())
            else:
                rep.ok("dtor", cls)
        if not dt:
            rep.bad("dtor", cls, "the destructor does not detach from the map on every path", cls)
        for f in methods:
            if f.kind == "ctor" and f.copy and not f.implicit:
                for e in f.ins.values():
                    if e["o"] == "init" and e.get("f") in fields and e.get("written"):
                        rep.bad("copy", cls, "the copy takes over the connections of the original", f.short())
                        break
                else:
                    rep.ok("copy", cls)
    rep.need("kept", 6)
    rep.need("all", 2)
