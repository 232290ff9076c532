"""C15: whatever is allocated has exactly one owner, which releases it exactly once."""
from ..core import *
from ..program import Program
from .c01 import strip
from .c11 import exports

TITLE = "owned memory is released exactly once"
GROUPS = ["geomap", "python_bindings"]
TECHNIQUE = "static analysis: ownership dataflow of raw pointers (allocation, hand-over, overwrite, release) on all paths"
EXPLANATION = ("The raw-pointer members that own memory are found from the code (they receive the result of a new expression or are "
               "deleted somewhere). For each of them: destruction releases it on every path (arrays: every element from the first to "
               "the last), every overwrite is preceded by a release or keeps the old value for a later release, nothing is released "
               "twice or left dangling, and the class's copy operations are written by hand or forbidden. Every new expression is "
               "followed on all paths (error exits included) until a smart pointer, an owning member, the map's own cell lists or "
               "the Python wrapper takes it over; functions returning such a pointer are registered so that Python takes it over.")
RULES = {"destroy": "destruction releases an owned object on every path, arrays from the first to the last element",
         "overwrite": "an owning member is only overwritten when its old object has been or will be released, or there is none",
         "twice": "no path releases an object twice or leaves a released object in a member",
         "copy": "classes owning raw memory write or forbid their copy operations",
         "owner": "every allocated object is taken over by an owner on every path",
         "handed": "functions returning an allocated object are registered with Python as handing it over",
         "form": "objects allocated singly are released singly, arrays as arrays"}
SMART = ("shared_ptr", "auto_ptr", "scoped_ptr", "unique_ptr", "intrusive_ptr")
TAKES = ("managingPyObject", "manage_new_object", "new_reference", "release", "reset")


def fld_of(t):
    """(object, field, index or None) of a value loaded from a raw-pointer member"""
    t = strip(t)
    if t.op == "ld":
        t = t.args[0]
    if t.op == "fld" and isinstance(t.args[1], str):
        return up(t.args[0]), t.args[1], None
    if t.op == "elt" and t.args[0].op == "fld":
        return up(t.args[0].args[0]), t.args[0].args[1], t.args[1]
    return None


def up(o):
    """the object an anonymous union or struct lies in"""
    while o.op == "fld" and not last(o.args[1]):
        o = o.args[0]
    return o


def news(t):
    return {x for x in subterms(t) if x.op == "&" and len(x.args) == 1 and x.args[0].op == "new"} | \
        ({t} if t.op == "&" and t.args[0].op == "new" else set())


class Own(Recorder):
    """state entries:
       ("new", ptr)   allocated, no owner yet          ("own", ptr)  owner found before the new expression was complete
       ("del", o, F, i)  value of the member released  ("old", val, o, F) overwritten value not yet released
       ("open",F)/("done",F)/("n",F,k) rounds of a loop over an owning array"""
    def __init__(self, prog, f, owning, ctor):
        super().__init__(prog)
        self.f, self.owning, self.ctor = f, owning, ctor
        self.errs = {}
        self.found = {}
        self.firsts = {}
        self.renewed = {}
        self.guards = {}
        self.notes = set()
        self.this = T("obj", T("p", "this"))

    def start(self, eng):
        return ()

    def inline(self, eng, fn, ctx, ins):
        if not fn.file.startswith(REPO) or len(fn.ins) > 400:
            return None if not fn.file.startswith(REPO) else False
        if fn.id in self.writers and fn.kind not in ("ctor", "dtor") and \
                self.prog.ttype(fn.ret)["c"] != "ptr" and not writes(self.prog, fn, self.owning):
            return False        # judged on its own
        if fn.id in self.writers or fn.kind == "ctor" and fn.id in self.sinks:
            d, c = 0, ctx
            while c is not None:
                d, c = d + 1, c.parent
            return d < 6
        return None

    def err(self, rule, what, where):
        self.errs.setdefault((rule, what), where)

    def put(self, st, *e):
        if e not in st.cl:
            st.cl = st.cl + (e,)

    def drop(self, st, *p):
        st.cl = tuple(x for x in st.cl if x[:len(p)] != p)

    # ---------------------------------------------------------------- new
    def take(self, st, t):
        for p in news(t):
            if ("new", p) in st.cl:
                self.drop(st, "new", p)
            else:
                self.put(st, "own", p)

    def on_new(self, eng, st, ctx, ins, ptr):
        if ins.get("place"):
            return
        self.notes.add(("new", site(ctx, ins)))
        if ("own", ptr) in st.cl:
            self.drop(st, "own", ptr)
            return
        if ("new", ptr) in st.cl:
            self.err("owner", "an object allocated in an earlier round is lost", site(ctx, ins))
        self.put(st, "new", ptr)
        if ins.get("arr"):
            self.put(st, "arr", ptr)

    def on_ctor(self, eng, st, ctx, ins, f, loc, args, inlined):
        n = f.get("n") or ""
        if any(s in n for s in SMART):
            for a in args:
                self.take(st, eng.rval(st, a))

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        n = last(f.get("n") or "")
        cls = f.get("n") or ""
        if n in TAKES or any(s in cls for s in SMART):
            for a in args:
                self.take(st, eng.rval(st, a))

    def on_mutate(self, eng, st, ctx, ins, loc, m, args):
        for a in args:
            t = eng.rval(st, a)
            if not news(t):
                continue
            if loc.op == "fld" and m in ("push_back", "insert", "assign", "resize") or m in ("reset", "operator="):
                self.take(st, t)
                if loc.op == "fld" and m in ("push_back", "insert") and strip(t).op == "&":
                    self.found.setdefault(loc.args[1], set()).add("array")

    # ---------------------------------------------------------------- members
    def on_write(self, eng, st, ctx, ins, loc, val):
        if ins["o"] == "call" and last(ins.get("f", {}).get("n") or "") == "reset":
            self.take(st, val)          # smart pointer given a new object
        k = fld_of(loc) if loc.op in ("fld", "elt") else None
        if k is None:
            return
        o, F, i = k
        if F not in self.owning and "(anonymous union" in F:
            for G in self.owning:       # another member of the same union
                if G.rsplit("::", 1)[0] == F.rsplit("::", 1)[0]:
                    F = G
                    loc = T("fld", loc.args[0], G)
        val = strip(val)
        nw = news(val) if val.op == "&" else set()
        if nw and i is not None:
            self.renewed.setdefault(F, set()).add(i.args[0] if isc(i) else "?")
        if nw:
            self.found.setdefault(F, set()).add("array" if i is not None else "single")
            self.take(st, val)
            self.guard_at(eng, st, o, F, site(ctx, ins))
        if F not in self.owning:
            return
        w = site(ctx, ins)
        if ("del", o, F, i) in st.cl:
            self.drop(st, "del", o, F, i)
            self.notes.add(("overwrite", w))
            return
        c = ctx
        while c is not None and not (c.fn.kind == "ctor" and root(loc) is root(eng.this_loc(c, st))):
            c = c.parent
        if c is not None:
            return              # first value of a member of an object under construction
        old = eng.load(st, loc)
        if ("none", o, F) in st.cl:
            self.drop(st, "none", o, F)
            self.notes.add(("overwrite", w))
            return
        if self.absent(eng, st, o, F, old):
            self.notes.add(("overwrite", w))
            return
        if nw or val is ZERO or val is not old:
            self.put(st, "old", old, F, w)

    def absent(self, eng, st, o, F, old):
        if old is ZERO or eng.known(st, truth(old)) is False:
            return True
        for e in st.cl:
            if e[0] == "ne":
                for a, b in ((e[1], e[2]), (e[2], e[1])):
                    if old in subterms(a) and eng.known(st, truth(b)) is True:
                        return True
        g = self.owning.get(F)
        if g and g.get("guard") and ("some", o, F) not in st.cl:
            gf, k = g["guard"]
            v = eng.load(st, T("fld", o, gf))
            if eng.known(st, eq(v, C(k))) is False:
                return True
        return False

    def guard_at(self, eng, st, o, F, where):
        g = self.owning.get(F)
        if g and g.get("guard"):
            gf, k = g["guard"]
            v = strip(eng.load(st, T("fld", o, gf)))
            if isc(v) and v.args[0] == k or eng.known(st, eq(v, C(k))) is True:
                self.notes.add(("guard", where))
            else:
                self.guards[(o, F)] = where
                self.put(st, "gd", o, F, where)

    def on_delete(self, eng, st, ctx, ins, ptr):
        ptr = strip(ptr)
        w = site(ctx, ins)
        if ptr is ZERO:
            return
        for p in news(ptr) if ptr.op == "&" else ():
            if ("new", p) in st.cl:
                if (("arr", p) in st.cl) != bool(ins.get("arr")):
                    self.err("form", "an object is released in another form than it was allocated", w)
                self.drop(st, "new", p)
                return
        olds = [x for x in st.cl if x[0] == "old" and x[1] is ptr]
        if olds:
            self.drop(st, "old", ptr)
            self.notes.add(("overwrite", w))
            return
        k = fld_of(ptr)
        if k is None:
            return
        o, F, i = k
        self.found.setdefault(F, set()).add("array" if i is not None else "single")
        if ins.get("arr"):
            self.err("form", "%s is released as an array but allocated singly" % F, w)
        if i is not None and isc(i):
            self.firsts.setdefault(F, set()).add(i.args[0])
        now = strip(eng.load(st, T("fld", o, F))) if i is None else None
        if ("del", o, F, i) in st.cl and (i is None or not any(x.op == "phi" for x in subterms(i))):
            self.err("twice", "%s is released twice" % F, w)
        if F not in self.owning:
            return
        self.put(st, "del", o, F, i)
        n = [x[2] for x in st.cl if x[:2] == ("n", F)]
        if ("open", F) in st.cl:
            self.drop(st, "n", F)
            self.put(st, "n", F, min((n[0] if n else 0) + 1, 2))
        self.notes.add(("delete", w))

    # ---------------------------------------------------------------- loops over owning arrays
    def on_assume(self, eng, st, ctx, cond, val):
        c, v = cond, val
        while c.op == "!":
            c, v = c.args[0], not v
        F = more = None
        if c.op in ("<", "=="):
            for x in c.args:
                if x.op == "m" and x.args[0] == "size":
                    for y in subterms(x):
                        if y.op == "fld" and y.args[1] in self.owning:
                            F = y.args[1]
                elif x.op == "iter" and x.args[0] == "end":
                    for y in subterms(x):
                        if y.op == "fld" and y.args[1] in self.owning:
                            F = y.args[1]
            more = v if c.op == "<" else not v
        elif c.op == "m" and c.args[0] == "size" and not v:
            for y in subterms(c):
                if y.op == "fld" and y.args[1] in self.owning:
                    F, more = y.args[1], False
        elif c.op == "m" and c.args[0] == "size" and v:
            for y in subterms(c):
                if y.op == "fld" and y.args[1] in self.owning:
                    F, more = y.args[1], True
        elif c.op == "m" and c.args[0] == "empty" and v:
            for y in subterms(c):
                if y.op == "fld" and y.args[1] in self.owning:
                    F, more = y.args[1], False
        if F is None and c.op == "==" and not v and len(c.args) == 2:
            a, b = c.args
            if any(y.op == "fld" and y.args[1] in self.owning for y in subterms(c)) and \
                    any(y.op == "p" for y in subterms(c)):
                self.put(st, "ne", a, b)
        if F is None and c.op == "==" and len(c.args) == 2:
            for a, b in (c.args, c.args[::-1]):
                q = fld_of(a) if isc(b) else None
                for G, g in self.owning.items():
                    if q and g.get("guard") and g["guard"] == (q[1], b.args[0]):
                        self.put(st, "some" if v else "none", q[0], G)
        if F is None:
            # remember tests of tag members, to recognise guards
            if self.f.kind == "dtor" and c.op == "==" and any(isc(a) for a in c.args):
                k = [a for a in c.args if isc(a)][0]
                for a in c.args:
                    q = fld_of(a)
                    if q and q[0] is self.this and not isc(a):
                        self.put(st, "tag", q[1], k.args[0], v)
            return
        n = [x[2] for x in st.cl if x[:2] == ("n", F)]
        if ("open", F) in st.cl:
            e = [x for x in st.cl if x[0] == "nul"]
            if (n[0] if n else 0) != 1 and not e:
                self.put(st, "miss", F)
        self.drop(st, "open", F)
        self.drop(st, "n", F)
        self.drop(st, "nul")
        st.cl = tuple(x for x in st.cl if not (x[0] == "del" and x[2] == F and x[3] is not None)) if self.f.kind == "dtor" else st.cl
        self.put(st, "open" if more else "done", F)


def relevant_fns(prog):
    """functions containing new or delete, those handing a pointer to a smart pointer, and their callers chain"""
    w, s = set(), set()
    for f in prog.fns.values():
        if not f.file.startswith(REPO):
            continue
        for e in f.ins.values():
            if e["o"] in ("new", "del"):
                w.add(f.id)
            elif e["o"] == "ctor" and any(x in (e.get("f", {}).get("n") or "") for x in SMART) and f.kind == "ctor":
                s.add(f.id)
            elif e["o"] == "call" and last(e.get("f", {}).get("n") or "") == "reset" and f.kind == "ctor":
                s.add(f.id)
    return w, s


def callers(prog, ids, rounds=3):
    ids = set(ids)
    for _ in range(rounds):
        add_ = set()
        for f in prog.fns.values():
            if f.id in ids or not f.file.startswith(REPO):
                continue
            for e in f.ins.values():
                if e["o"] in ("call", "ctor") and e.get("f", {}).get("id") in ids and \
                        prog.fns.get(e["f"]["id"]) is not None and prog.fns[e["f"]["id"]].kind != "dtor":
                    add_.add(f.id)
        if not add_:
            break
        ids |= add_
    return ids


def analyse(prog, rep, f, owning, W, S):
    c = Own(prog, f, owning, f.kind == "ctor")
    c.writers, c.sinks = W, S
    c.eng = run_engine(prog, c, f, rep)
    return c


def one_program(prog, rep):
    W0, S = relevant_fns(prog)
    direct = [prog.fns[i] for i in sorted(W0)]
    # ---- discovery
    owning = {}
    for f in direct:
        if f.kind != "ctor" and not any(e["o"] == "mem" and "*" in prog.tstr(e["ft"]) for e in f.ins.values() if "ft" in e):
            continue            # touches no raw-pointer member
        c = analyse(prog, Sil(), f, {}, W0, S)
        for F, k in c.found.items():
            if not rawptr(prog, F, k):
                continue
            owning.setdefault(F, {"kind": set()})["kind"] |= k
    # functions that write an owning member directly
    names = {last(F) for F in owning}
    WF = set(W0)
    for f in prog.fns.values():
        if f.file.startswith(REPO) and any(e["o"] == "mem" and e.get("f") in owning for e in f.ins.values()):
            pass
    for f in prog.fns.values():
        if f.file.startswith(REPO) and writes(prog, f, owning):
            WF.add(f.id)
    # ---- guards of tagged unions, from the destructors
    dt = {}
    for F in owning:
        cls = F.rsplit("::", 1)[0]
        ds = [f for f in prog.fns.values() if f.kind == "dtor" and f.name.rsplit("::", 1)[0] == cls and not f.implicit]
        if not ds:      # anonymous unions: the enclosing class
            cls2 = cls.rsplit("::", 1)[0]
            ds = [f for f in prog.fns.values() if f.kind == "dtor" and f.name.rsplit("::", 1)[0] == cls2 and not f.implicit]
            cls = cls2 if ds else cls
        owning[F]["cls"] = cls
        dt[F] = ds
        if not ds:
            rep.bad("destroy", cls, "%s owns memory but the class has no destructor releasing it" % F, cls)
    for F, ds in dt.items():
        for d in ds:
            c = analyse(prog, Sil(), d, {F: {}}, WF, S)
            tags = set()
            for x in c.exits:
                deleted = any(e[0] == "del" and e[2] == F for e in x[1])
                for e in x[1]:
                    if e[0] == "tag":
                        tags.add((deleted, e[1], e[2], e[3]))
            for (dl, gf, k, v) in tags:
                if dl and v and (False, gf, k, False) in tags:
                    owning[F]["guard"] = (gf, k)
    # ---- destruction
    for F, ds in dt.items():
        arr = "array" in owning[F]["kind"]
        for d in ds:
            c = analyse(prog, rep, d, owning, WF, S)
            for (rule, what), w in sorted(c.errs.items()):
                rep.bad(rule, d, what, w)
            bad = None
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind != "return":
                    continue
                if arr:
                    if ("miss", F) in cl:
                        bad = "an element of %s is not released" % F
                    elif ("done", F) not in cl:
                        bad = "not all elements of %s are released" % F
                    continue
                if any(e[0] == "del" and e[2] == F for e in cl):
                    continue
                o = c.this
                v = c.eng.load(st, T("fld", o, F))
                if c.absent(c.eng, st, o, F, v):
                    continue
                bad = "%s is not released on some path" % F
            if arr and 0 not in c.firsts.get(F, {0}):
                bad = "the elements of %s are released starting at element %d" % (F, min(c.firsts[F]))
            if arr and F not in c.firsts and not any(n[0] == "delete" for n in c.notes):
                bad = "the elements of %s are not released" % F
            if bad:
                rep.bad("destroy", d, bad, d.short())
            else:
                rep.ok("destroy", d)
    # ---- copy operations
    seen = set()
    for F in owning:
        cls = owning[F]["cls"]
        if cls in seen:
            continue
        seen.add(cls)
        for r in prog.recs.get(cls, []):
            for sp, flag in (("copyctor", "usercopy"), ("copyassign", "userassign")):
                ms = [m for m in r["methods"] if m.get("sp") == sp]
                ok = any(not m.get("implicit") and not m.get("defaulted") or m.get("deleted") for m in ms)
                if not ok or any(m.get("defaulted") and not m.get("deleted") for m in ms):
                    rep.bad("copy", cls, "%s owns memory but its %s is generated by the compiler" % (
                        cls, "copy constructor" if sp == "copyctor" else "assignment"), "%s:%d" % (r["file"], r["line"]))
                else:
                    rep.ok("copy", cls)
    # ---- hand-written copy constructors must not share what the original owns
    for F in owning:
        cls = owning[F]["cls"]
        ids = {m.get("id") for r in prog.recs.get(cls, []) for m in r["methods"] if m.get("sp") == "copyctor"}
        for f in prog.fns.values():
            if f.kind != "ctor" or f.implicit or f.id not in ids:
                continue
            c = analyse(prog, rep, f, owning, WF, S)
            bad = None
            for kind, cl, st, ret, ctx, ins in c.exits:
                if kind != "return":
                    continue
                if "array" in owning[F]["kind"]:
                    if F not in c.renewed:
                        v = c.eng.load(st, T("fld", c.this, F))
                        if any(y.op == "fld" and y.args[1] == F and y.args[0] is not c.this for y in allsub(c.eng, v)):
                            bad = "the objects in %s are shared with the original" % F
                    elif 0 not in c.renewed[F] and any(isinstance(x, int) for x in c.renewed[F]):
                        bad = "the first objects in %s are shared with the original" % F
                    continue
                for l, v in list(st.store.items()):
                    q = fld_of(l) if l.op == "fld" else None
                    if q and q[0] is c.this and q[1] == F:
                        ls = [strip(x) for x in leaves(c.eng, strip(v))]
                        if any(news(x) for x in ls):
                            continue
                        for x in ls:
                            w = fld_of(x)
                            if w and w[1] == F and w[0] is not c.this and not c.absent(c.eng, st, w[0], F, x):
                                bad = "%s is shared with the original" % F
            if bad:
                rep.bad("copy", f, bad, f.short())
            else:
                rep.ok("copy", f)
    # ---- every function with new, delete or a write to an owning member
    ex = exports(prog)
    regs = policies(prog)
    ret_raw = set()
    helpers = {i for i in WF if private_helper(prog, prog.fns[i], WF)}
    for g in list(prog.fns.values()):
        if g.file.startswith(REPO) and any(e["o"] == "call" and e.get("f", {}).get("id") in helpers for e in g.ins.values()) \
                and any(writes(prog, prog.fns[e["f"]["id"]], owning) for e in g.ins.values()
                        if e["o"] == "call" and e.get("f", {}).get("id") in helpers):
            WF.add(g.id)
    todo = [prog.fns[i] for i in sorted(WF) if prog.fns[i].kind != "dtor" or prog.fns[i] not in sum(dt.values(), [])]
    for f in todo:
        c = analyse(prog, rep, f, owning, WF, S)
        for (rule, what), w in sorted(c.errs.items()):
            rep.bad(rule, f, what, w)
        lost = {}
        for kind, cl, st, ret, ctx, ins in c.exits:
            r = strip(c.eng.rval(st, ret)) if ret is not None and kind == "return" else None
            for e in cl:
                if e[0] == "new":
                    if r is not None and e[1] in news(r):
                        rt = prog.tstr(f.ret) if getattr(f, "ret", None) is not None else "*"
                        if any(s in rt for s in SMART):
                            continue
                        ret_raw.add(f.id)
                        continue
                    lost[("owner", "an allocated object has no owner on a path that %s" % (
                        "returns" if kind == "return" else "is left with an error"))] = f.short()
                elif e[0] == "old":
                    lost[("overwrite", "%s is overwritten without releasing its old object" % e[2])] = e[3]
                elif e[0] == "gd":
                    o, F, wh = e[1:]
                    gf, k = owning[F]["guard"]
                    v = strip(c.eng.load(st, T("fld", o, gf)))
                    if not (isc(v) and v.args[0] == k or c.eng.known(st, eq(v, C(k))) is True):
                        lost[("overwrite", "%s is set although %s says there is none" % (F, last(gf)))] = wh
                elif e[0] == "del" and kind == "return" and not (f.kind == "dtor"):
                    if e[2] in owning:
                        lost[("twice", "%s still refers to the released object" % e[2])] = f.short()
        if private_helper(prog, f, WF):
            lost = {k: w for k, w in lost.items() if k[0] != "overwrite"}
        for (rule, what), w in lost.items():
            rep.bad(rule, f, what, w)
        for n in c.notes:
            rule = {"new": "owner", "overwrite": "overwrite", "delete": "twice", "guard": "overwrite"}[n[0]]
            if not any(r == rule for r, _ in lost):
                rep.ok(rule, f)
    # ---- returned raw pointers
    for i in sorted(ret_raw):
        f = prog.fns[i]
        callers_ = [g for g in prog.fns.values() if g.file.startswith(REPO) and any(
            e["o"] == "call" and e.get("f", {}).get("id") == i for e in g.ins.values())]
        if i in ex:
            if regs.get(i):
                rep.ok("handed", f)
            else:
                rep.bad("handed", f, "returns a new object but is not registered as a constructor or with manage_new_object", f.short())
        elif callers_:
            rep.ok("handed", f)
            for g in callers_:
                if g.id in WF:
                    continue
                c = analyse(prog, rep, g, owning, WF | {i}, S)
                for kind, cl, st, ret, ctx, ins in c.exits:
                    r = strip(c.eng.rval(st, ret)) if ret is not None and kind == "return" else None
                    for e in cl:
                        if e[0] == "new" and kind == "return":
                            if r is not None and e[1] in news(r):
                                if g.id in ex and not regs.get(g.id):
                                    rep.bad("handed", g, "returns a new object but is not registered as a constructor or with manage_new_object", g.short())
                                continue
                            rep.bad("owner", g, "an object returned by %s is lost" % f.name, g.short())
                rep.ok("owner", g)
    return owning


def rawptr(prog, F, kinds):
    """the member is a raw pointer, or an array or container of raw pointers"""
    cls, n = F.rsplit("::", 1)
    for r in prog.recs.get(cls, []):
        for fd in r["fields"]:
            if fd["n"] in (n, F):
                t = prog.ttype(fd["t"])
                return t["c"] == "ptr" or "*" in t["s"] and not any(x in t["s"] for x in SMART)
    return False


def private_helper(prog, f, WF):
    """a private member function all of whose callers are judged with it in place"""
    cls, n = f.name.rsplit("::", 1) if "::" in f.name else ("", f.name)
    acc = {m.get("acc") for r in prog.recs.get(cls, []) for m in r["methods"] if m["n"] == n}
    return bool(acc) and "public" not in acc


class Sil:
    def __getattr__(self, n):
        return lambda *a, **k: None


def writes(prog, f, owning):
    mem = {}
    for e in f.ins.values():
        if e["o"] in ("mem", "fld", "member"):
            n = e.get("f") or e.get("n")
            if isinstance(n, str) and n in owning:
                mem[e["i"]] = n
    if not mem:
        return False
    for e in f.ins.values():
        if e["o"] == "bin" and e.get("op") == "=" or e["o"] in ("assign", "asg", "store"):
            return True
    return False


def policies(prog):
    """function id -> registered as constructor or with a hand-over policy"""
    out = {}
    for f in prog.fns.values():
        if not f.file.startswith(REPO):
            continue
        for e in f.ins.values():
            if e["o"] != "call":
                continue
            n = e.get("f", {}).get("n") or ""
            if not n.startswith("boost::python::"):
                continue
            ids = [f.ins[a]["f"]["id"] for a in argrefs(f, e) if f.ins.get(a, {}).get("o") == "fun"]
            if not ids:
                continue
            ok = last(n) == "make_constructor"
            for a in argrefs(f, e):
                x = f.ins.get(a)
                if x is not None and "t" in x and "manage_new_object" in prog.tstr(x["t"]):
                    ok = True
            for i in ids:
                out[i] = out.get(i) or ok
    return out


def argrefs(f, e):
    """instructions an argument is built from"""
    todo = [a for a in e.get("args", []) if isinstance(a, int)]
    out = []
    while todo:
        a = todo.pop()
        out.append(a)
        x = f.ins.get(a)
        if x is None or x["o"] in ("call",):
            continue
        for k in ("a", "init", "e"):
            if isinstance(x.get(k), int):
                todo.append(x[k])
        if x["o"] == "ctor":
            todo += [y for y in x.get("args", []) if isinstance(y, int)]
    return out


def run(prog, rep, tier):
    o1 = one_program(prog, rep)
    o2 = one_program(Program(["cellimage"]), rep)
    rep.note = sorted(o1) + sorted(o2)
    for r, n in (("destroy", 2), ("owner", 8), ("copy", 2), ("overwrite", 1), ("twice", 1), ("handed", 1)):
        rep.need(r, n)
