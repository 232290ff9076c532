"""Path-sensitive (property-simulation style) dataflow over an inlined CFG.

Abstract state: value numbers for locations, field versions, a set of branch
facts, and the client's (finite) property state.  States reaching the same
program point with the same property state are merged; differing values become
phi terms, so the iteration terminates.  No path is handed to a solver and no
code is executed."""
import heapq
from .terms import *
from .program import AnalysisBroken, operands

SMART = {"boost::shared_ptr", "std::shared_ptr", "std::auto_ptr", "std::unique_ptr",
         "boost::scoped_ptr", "std::auto_ptr_ref", "boost::intrusive_ptr", "std::__shared_ptr",
         "boost::python::handle"}
THROWERS = {"throw_precondition_error": 1, "throw_postcondition_error": 1,
            "throw_invariant_error": 1, "throw_runtime_error": 0, "throw_error_already_set": 0}
OPAQUE_REC = {"vigra::SafeFilterIterator", "vigra::FilterIterator"}
ITERATORISH = ("iterator", "Iterator", "traverser")


class Ctx:
    __slots__ = ("id", "fn", "parent", "block", "idx", "ins", "prio", "depth", "this")
    _n = 0

    def __init__(self, fn, parent=None, block=None, idx=None, ins=None, prio=()):
        self.fn, self.parent, self.block, self.idx, self.ins = fn, parent, block, idx, ins
        self.prio = prio
        self.depth = parent.depth + 1 if parent else 0
        Ctx._n += 1
        self.id = Ctx._n

    def chain(self):
        c = self
        while c:
            yield c
            c = c.parent


class State:
    __slots__ = ("store", "ver", "facts", "cl", "temps", "trail")

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.ver = dict(self.ver)
        s.facts = dict(self.facts)
        s.cl = self.cl
        s.temps = dict(self.temps)
        s.trail = self.trail
        return s


class Client:
    """Property-specific part.  All callbacks may set st.cl (hashable)."""
    split_facts = ()

    def start(self, eng):
        return None

    joins = False                 # property states with equal keys are joined (else they have to be equal)

    def join(self, eng, a, b):
        return a

    def keeps_content(self, eng, fn):
        """calls of fn may be skipped: nothing the analysis looks at changes"""
        return False

    def inline(self, eng, fn, ctx, ins):
        return None

    def on_write(self, eng, st, ctx, ins, loc, val):
        pass

    def on_init(self, eng, st, ctx, ins, loc, val):
        """a local variable (or parameter of an inlined function) is initialised"""
        pass

    def on_call(self, eng, st, ctx, ins, f, obj, args, inlined):
        pass

    def on_return_from(self, eng, st, ctx, ins, fn, ret):
        pass

    def on_mutate(self, eng, st, ctx, ins, loc, method, args):
        pass

    def on_ctor(self, eng, st, ctx, ins, f, loc, args, inlined):
        pass

    def on_copy(self, eng, st, dst, src):
        pass

    def on_delete(self, eng, st, ctx, ins, ptr):
        pass

    def on_new(self, eng, st, ctx, ins, ptr):
        pass

    def on_deref(self, eng, st, ctx, ins, ptr):
        pass

    def on_dtor(self, eng, st, ctx, ins):
        pass

    def on_assume(self, eng, st, ctx, cond, val):
        pass

    def on_loop_head(self, eng, st, ctx, block):
        pass

    def on_exit(self, eng, st, kind, ret, ctx, ins):
        pass

    def key(self, eng, st, ctx):
        return st.cl


def map_terms(x, fn):
    if isinstance(x, Term):
        return fn(x)
    if isinstance(x, tuple):
        return tuple(map_terms(y, fn) for y in x)
    if isinstance(x, frozenset):
        return frozenset(map_terms(y, fn) for y in x)
    return x


def fresh_name(ctx, ins):
    return (ctx.id, ins["i"])


def L(x):
    return ("L", x)


def V(x):
    return ("V", x)


class Engine:
    MAXKEYS = 1500
    MAXSTEPS = 300000

    def __init__(self, prog, client):
        self.prog = prog
        self.client = client
        self.ctxs = {}
        self.tables = {}
        self.heap = []
        self.inq = set()
        self.steps = 0
        self.nodes = set()
        self.inlined = set()
        self.exits = 0
        self.opaque_calls = set()
        self.phi_in = {}
        self.ucmp, self.scmp = set(), set()   # comparisons made on unsigned / signed operands

    # ------------------------------------------------------------------ run
    def run(self, fn, init=None):
        self.root = fn
        self.dirty = {}
        self.boolparams = [T("p", fn.vars[v]["name"]) for v in fn.params
                           if self.prog.tstr(fn.vars[v]["t"]) in ("bool", "const bool")]
        ctx = Ctx(fn)
        self.rootctx = ctx
        st = State()
        st.store, st.ver, st.facts, st.temps, st.trail = {}, {}, {}, {}, ()
        st.cl = None
        for v in fn.params:
            var = fn.vars[v]
            ty = self.prog.ttype(var["t"])
            name = var["name"] or ("arg%d" % v)
            loc = self.varloc(ctx, v)
            if ty["c"] == "ref":
                st.store[loc] = addr(T("obj", T("p", name)))
            elif ty["c"] == "rec" and self.structured(var["t"]):
                # by-value record parameter: an unknown object
                for f, ft in self.rec_fields(var["t"]):
                    st.store[T("fld", loc, f)] = T("ld", T("fld", T("obj", T("p", name)), f))
            else:
                st.store[loc] = T("p", name)
        st.cl = self.client.start(self)
        if init:
            init(self, st, ctx)
        self.arrive(ctx, fn.entry, 0, st)
        while self.heap:
            prio, _, node = heapq.heappop(self.heap)
            self.inq.discard(node)
            ctx, b, idx = node
            dirty = self.dirty.pop(node, ())
            for ent in dirty:
                if ent[1]:
                    ent[1] = False
                    self.steps += 1
                    if self.steps > self.MAXSTEPS:
                        raise AnalysisBroken("state explosion in %s" % fn.name)
                    self.exec_block(ctx, b, idx, ent[0].copy())

    # ----------------------------------------------------------- worklist
    def arrive(self, ctx, block, idx, st):
        node = (ctx, block, idx)
        nid = (ctx.id, block, idx)
        self.nodes.add((ctx.fn.id, block))
        tab = self.tables.setdefault(node, {})
        # stale facts / client terms about this node's own phis
        def is_stale(t):
            return nid in t.phis
        bad = [f for f in st.facts if is_stale(f)]
        for f in bad:
            del st.facts[f]
        if idx == 0 and block in self.fninfo(ctx.fn)["loops"]:
            self.client.on_loop_head(self, st, ctx, block)
        if st.cl is not None:
            st.cl = map_terms(st.cl, lambda t: T("stale", t) if is_stale(t) and t.op != "stale" else t)
        if idx == 0 and self.client.joins:
            # a conditional expression is a variable assigned in both branches
            for e in self.fninfo(ctx.fn)["sels"].get(block, ()):
                loc = T("var", ctx.id, "?:%d" % e["i"], "?:")
                c = st.temps.pop((ctx.id, ("?", e["c"])), None)
                if c is None:
                    c = st.temps.get((ctx.id, e["c"]))
                c = self.known(st, truth(self.rval(st, c))) if c is not None else None
                v = st.temps.get((ctx.id, e["a"] if c else e["b"])) if c is not None else None
                if v is None:
                    st.store.pop(loc, None)
                    continue
                v = self.rval(st, v)
                self.client.on_init(self, st, ctx, e, loc, v)
                st.store[loc] = v
        extra = self.join_key(ctx, block, idx, st)
        key = (self.client.key(self, st, ctx), extra)
        ent = tab.get(key)
        if ent is None:
            if len(tab) > self.MAXKEYS:
                raise AnalysisBroken("too many property states at %s block %d (%s)" % (ctx.fn.name, block, self.root.name))
            ent = tab[key] = [st, True]
            self.dirty.setdefault(node, []).append(ent)
        else:
            m = self.merge(ent[0], st, nid)
            if m is None:
                return
            ent[0] = m
            if not ent[1]:
                ent[1] = True
                self.dirty.setdefault(node, []).append(ent)
        if node not in self.inq:
            self.inq.add(node)
            self._seq = getattr(self, "_seq", 0) + 1
            heapq.heappush(self.heap, (ctx.prio + (ctx.fn.order.get(block, 9999), idx), self._seq, node))

    def join_key(self, ctx, block, idx, st):
        fn = ctx.fn
        info = self.fninfo(fn)
        out = []
        for r in info["joinconds"].get(block, ()):
            q = st.temps.get((ctx.id, ("?", r)))
            if q is not None:
                out.append(q[1] is ONE)
                continue
            v = st.temps.get((ctx.id, r))
            out.append(self.known(st, truth(self.rval(st, v))) if v is not None else None)
        if block == fn.exit:
            r = st.temps.get((ctx.id, "ret"))
            if r is not None and r[0] == "V" and (isc(r[1]) or (r[1].op == "&" and len(r[1].args) == 1)):
                out.append(r[1] if isc(r[1]) else "nn")
            elif r is not None and r[0] == "V":
                k = self.known(st, truth(r[1]))
                out.append(("k", k))
        for sf in self.client.split_facts:
            out.append(self.known(st, sf))
        for sf in self.boolparams:
            out.append(st.facts.get(sf))
        return tuple(out)

    def fninfo(self, fn):
        i = fn.info
        if i is None:
            jc = {}
            for b in fn.blocks.values():
                l = []
                for e in b["els"]:
                    if e["o"] == "logic":
                        l.append(e["a"])
                    elif e["o"] == "sel":
                        l.append(e["c"])
                if l:
                    # keep those computed in another block
                    l = [r for r in l if fn.where.get(r) != b["b"]]
                    if l:
                        jc[b["b"]] = l
            loops = set()
            for b in fn.blocks.values():
                for s in b["succ"]:
                    if s is not None and fn.order.get(s, 0) <= fn.order.get(b["b"], 0):
                        loops.add(s)
            sels = {}
            for b in fn.blocks.values():
                for e in b["els"]:
                    if e["o"] == "sel" and not e.get("lv") and fn.where.get(e["c"]) != b["b"]:
                        sels.setdefault(b["b"], []).append(e)
            i = {"sels": sels, "joinconds": jc, "loops": loops, "size": len(fn.ins)}
            fn.info = i
        return i

    def merge(self, a, b, nid):
        """merge b into a; None if nothing changes"""
        changed = False
        store = {}
        for loc, va in a.store.items():
            vb = b.store.get(loc)
            if vb is None:
                if loc.op in ("fld", "elt", "obj"):
                    if root(loc).op in ("var", "tmp"):
                        changed = True
                        continue
                    vb = self.load(b, loc)
                else:
                    changed = True
                    continue
            if va is vb:
                store[loc] = va
            else:
                ph = T("phi", nid, loc)
                store[loc] = ph
                pi = self.phi_in.setdefault(ph, set())
                pi.add(va)
                pi.add(vb)
                pi.discard(ph)
                if va is not ph:
                    changed = True
        for loc, vb in b.store.items():
            if loc not in a.store and loc.op in ("fld", "elt", "obj") and root(loc).op not in ("var", "tmp"):
                va = self.load(a, loc)
                if va is vb:
                    continue
                ph = T("phi", nid, loc)
                store[loc] = ph
                pi = self.phi_in.setdefault(ph, set())
                pi.add(va)
                pi.add(vb)
                pi.discard(ph)
                changed = True
        ver = {}
        for k in set(a.ver) | set(b.ver):
            x, y = a.ver.get(k), b.ver.get(k)
            if x is y:
                ver[k] = x
            else:
                ph = T("phi", nid, T("ver", str(k)))
                ver[k] = ph
                if x is not ph:
                    changed = True
        facts = {}
        moved = None
        for f, v in a.facts.items():
            if b.facts.get(f) == v:
                facts[f] = v
                continue
            # the same fact about a variable whose value differs
            if moved is None:
                ma, mb = {}, {}
                for loc, ph in store.items():
                    if loc.op == "var" and ph.op == "phi" and ph.args[0] == nid:
                        va, vb = a.store.get(loc), b.store.get(loc)
                        if va is not None and vb is not None and not isc(va) and not isc(vb):
                            ma[va] = ph
                            mb[vb] = ph
                moved = (ma, {subst(g, mb): w for g, w in b.facts.items()} if mb else {})
            f2 = subst(f, moved[0]) if moved[0] else f
            if moved[1].get(f2) == v and not isc(f2):
                facts[f2] = v
                if f2 is f:
                    continue
            changed = True
        temps = {}
        for k, va in a.temps.items():
            vb = b.temps.get(k)
            if vb is None:
                continue
            if va == vb:
                temps[k] = va
            else:
                ph = None
                if k[1] == "ret":
                    pa = a.temps.get((k[0], "args"))
                    if pa is not None and pa == b.temps.get((k[0], "args")):
                        ph = pa[1]       # pure function: its result is a function of its inputs
                if ph is None:
                    ph = T("phi", nid, T("t", k[0], k[1]))
                    if va[0] == "V" and vb[0] == "V":
                        pi = self.phi_in.setdefault(ph, set())
                        pi.add(va[1])
                        pi.add(vb[1])
                        pi.discard(ph)
                nv = ("V", ph)
                if va[0] == "L" and vb[0] == "L":
                    nv = ("L", T("obj", ph))
                temps[k] = nv
                if va != nv:
                    changed = True
        cl = a.cl
        if self.client.joins and a.cl != b.cl:
            cl = self.client.join(self, a.cl, b.cl)
            if cl != a.cl:
                changed = True
        if not changed:
            return None
        s = State()
        s.store, s.ver, s.facts, s.temps = store, ver, facts, temps
        s.cl = cl
        s.trail = a.trail
        return s

    # ------------------------------------------------------------ locations
    def varloc(self, ctx, v):
        var = ctx.fn.vars[v]
        if var.get("local"):
            return T("var", ctx.id, v, var["name"])
        return T("glob", var["name"])

    def structured(self, t):
        r = self.prog.rec_of(t)
        return r is not None and r["n"] not in OPAQUE_REC

    def rec_fields(self, t):
        r = self.prog.rec_of(t)
        return self.prog.all_fields(r) if r else []

    def verkey(self, loc):
        if loc.op == "fld":
            return loc.args[1]
        if loc.op == "elt":
            b = loc.args[0]
            return ("elt", b.args[1] if b.op == "fld" else b.id)
        if loc.op == "obj":
            return "*"
        return ("g", loc.id)

    def load(self, st, loc):
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc.op in ("var", "tmp", "new"):
            return T("uninit", loc)
        if loc.op == "fld" and loc.args[0] in st.store and root(loc).op in ("var", "tmp"):
            return T("fieldof", loc.args[1], st.store[loc.args[0]])
        ver = st.ver.get(self.verkey(loc))
        if loc.op == "elt" and ver is None and loc.args[0].op in ("var", "tmp"):
            v = st.store.get(loc.args[0])
            if v is not None and v.op == "ld" and v.args[0].op == "fld":
                return T("eltof", loc.args[1], v)
        if ver is None:
            return T("ld", loc)
        if root(loc).op in ("var", "tmp") and loc.op == "fld":
            return T("ld", loc)
        return T("ld", loc, ver)

    def rval(self, st, x):
        return self.load(st, x[1]) if x[0] == "L" else x[1]

    def asloc(self, st, x, ctx, ins, k=0):
        if x[0] == "L":
            return x[1]
        loc = T("tmp", ctx.id, ins["i"] * 16 + k + 100000)
        st.store[loc] = x[1]
        return loc

    def raw_store(self, st, ctx, ins, loc, val):
        if loc.op in ("var", "tmp"):
            st.store[loc] = val
            return
        vk = self.verkey(loc)
        rt = root(loc)
        if rt.op not in ("var", "tmp"):
            kill = []
            for k in st.store:
                if k is not loc and k.op == loc.op and self.verkey(k) == vk and not distinct_loc(k, loc):
                    kill.append(k)
            for k in kill:
                del st.store[k]
            st.ver[vk] = T("w", ctx.id, ins["i"])
        elif loc.op == "elt":
            for k in [k for k in st.store if k is not loc and k.op == "elt" and k.args[0] is loc.args[0]
                      and not distinct_loc(k, loc)]:
                del st.store[k]
            st.ver[vk] = T("w", ctx.id, ins["i"])
        st.store[loc] = val

    def write(self, st, ctx, ins, loc, val):
        self.client.on_write(self, st, ctx, ins, loc, val)
        self.raw_store(st, ctx, ins, loc, val)

    def havoc(self, st, ctx, ins, loc, why="h"):
        """unknown modification of the object at loc"""
        val = T("out", ctx.id, ins["i"], loc, why)
        self.kill_under(st, loc)
        if loc.op in ("var", "tmp", "new", "glob"):
            st.store[loc] = val
        else:
            self.raw_store(st, ctx, ins, loc, val)
        st.ver[("elt", loc.args[1] if loc.op == "fld" else loc.id)] = T("w", ctx.id, ins["i"])

    def kill_under(self, st, loc):
        for k in [k for k in st.store if k is not loc and under(k, loc)]:
            del st.store[k]

    def copy_obj(self, st, ctx, ins, dst, src, t, event=False, init=False):
        """member-wise copy of a structured record"""
        self.client.on_copy(self, st, dst, src)
        for f, ft in self.rec_fields(t):
            s, d = T("fld", src, f), T("fld", dst, f)
            ty = self.prog.ttype(ft)
            if ty["c"] == "rec" and self.structured(ft):
                self.copy_obj(st, ctx, ins, d, s, ft, event)
            else:
                v = self.load(st, s)
                if event:
                    self.write(st, ctx, ins, d, v)
                elif root(d).op in ("var", "tmp"):
                    st.store[d] = v
                else:
                    self.raw_store(st, ctx, ins, d, v)

    # -------------------------------------------------------------- facts
    def known(self, st, c):
        c = truth(c)
        if isc(c):
            return bool(c.args[0])
        if c.op == "!":
            r = self.known(st, c.args[0])
            return None if r is None else not r
        f = st.facts
        if c in f:
            return f[c]
        if c.op == "&&":
            a, b = self.known(st, c.args[0]), self.known(st, c.args[1])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if c.op == "||":
            a, b = self.known(st, c.args[0]), self.known(st, c.args[1])
            if a or b: return True
            if a is False and b is False: return False
            return None
        if c.op == "==":
            a, b = c.args
            if f.get(T("<", a, b)) or f.get(T("<", b, a)):
                return False
            ra, rb = self.rep(st, a), self.rep(st, b)
            if (ra is not a or rb is not b):
                x = eq(ra, rb)
                if isc(x):
                    return bool(x.args[0])
                if x in f:
                    return f[x]
        elif c.op == "<":
            a, b = c.args
            if f.get(T("<", b, a)) is True or f.get(eq(a, b)) is True:
                return False
            ra, rb = self.rep(st, a), self.rep(st, b)
            if (ra is not a or rb is not b):
                x = lt(ra, rb)
                if isc(x):
                    return bool(x.args[0])
                if x in f:
                    return f[x]
        else:
            ra = self.rep(st, c)
            if ra is not c and isc(ra):
                return bool(ra.args[0])
        return None

    def rep(self, st, t):
        """constant equal to t if some fact says so"""
        for f, v in st.facts.items():
            if v and f.op == "==":
                if f.args[0] is t and isc(f.args[1]):
                    return f.args[1]
                if f.args[1] is t and isc(f.args[0]):
                    return f.args[0]
        return t

    def assume(self, st, c, val, ctx=None):
        """False if contradictory"""
        c = truth(c)
        if isc(c):
            return bool(c.args[0]) == val
        if c.op == "!":
            return self.assume(st, c.args[0], not val, ctx)
        k = self.known(st, c)
        if k is not None:
            return k == val
        if c.op == "&&" and val:
            return self.assume(st, c.args[0], True, ctx) and self.assume(st, c.args[1], True, ctx)
        if c.op == "||" and not val:
            return self.assume(st, c.args[0], False, ctx) and self.assume(st, c.args[1], False, ctx)
        st.facts[c] = val
        self.client.on_assume(self, st, ctx, c, val)
        return True

    # ---------------------------------------------------------- execution
    def exec_block(self, ctx, b, idx, st):
        fn = ctx.fn
        blk = fn.blocks[b]
        els = blk["els"]
        tid = ctx.id
        n = len(els)
        while idx < n:
            e = els[idx]
            r = self.exec_ins(ctx, e, st, b, idx)
            if r == "stop" or st.cl == "dead":
                return
            idx += 1
        if b == fn.exit:
            self.leave(ctx, st)
            return
        # keep only temporaries needed elsewhere
        cross = fn.cross
        for k in [k for k in st.temps if k[0] == tid and k[1] not in cross and k[1] not in ("ret", "args") and not isinstance(k[1], tuple)]:
            if blk.get("term", {}).get("c") != k[1]:
                del st.temps[k]
        succ = blk["succ"]
        term = blk.get("term")
        live = [s for s in succ if s is not None]
        if not live:
            return
        if term and "c" in term and len(succ) == 2 and term["cls"] not in ("SwitchStmt", "CXXTryStmt"):
            cv = st.temps.get((tid, term["c"]))
            c = truth(self.rval(st, cv)) if cv is not None else T("x", tid, b)
            for s, val in ((succ[0], True), (succ[1], False)):
                if s is None:
                    continue
                s2 = st.copy()
                if not self.assume(s2, c, val, ctx):
                    continue
                s2.trail = (s2.trail + ((fn.name, term["l"], val),))[-12:]
                if term["cls"] == "ConditionalOperator":
                    s2.temps[(tid, ("?", term["c"]))] = V(ONE if val else ZERO)
                s2.temps.pop((tid, term["c"]), None) if term["c"] not in cross else None
                self.arrive(ctx, s, 0, s2)
            return
        if term and term["cls"] == "SwitchStmt" and "c" in term:
            cv = st.temps.get((tid, term["c"]))
            c = self.rval(st, cv) if cv is not None else T("x", tid, b)
            cases = []
            for s in live:
                lab = fn.blocks[s].get("label", {})
                if "case" in lab:
                    cases.append(eq(c, C(int(lab["case"]))))
            for s in live:
                lab = fn.blocks[s].get("label", {})
                s2 = st.copy()
                ok = True
                if "case" in lab:
                    ok = self.assume(s2, eq(c, C(int(lab["case"]))), True, ctx)
                else:
                    for x in cases:
                        if not self.assume(s2, x, False, ctx):
                            ok = False
                            break
                if ok:
                    self.arrive(ctx, s, 0, s2)
            return
        if not term and len(live) > 1:
            # exceptions that leave the function are not followed (as in functions without handlers)
            live = live[:1] + [s for s in live[1:] if s != fn.exit]
        for s in live:
            self.arrive(ctx, s, 0, st.copy() if len(live) > 1 else st)

    def leave(self, ctx, st):
        ret = st.temps.get((ctx.id, "ret"))
        if ctx.parent is None:
            self.exits += 1
            self.client.on_exit(self, st, "return", ret, ctx, None)
            return
        p = ctx.parent
        ins = ctx.ins
        # copy out a record result
        if ins["o"] == "ctor":
            res = ("L", self.this_loc(ctx, st))
        elif ret is None:
            res = ("V", T("void"))
        else:
            res = ret
            rt = self.prog.ttype(ctx.fn.ret)
            if ret[0] == "L" and rt["c"] == "rec":
                dst = T("tmp", p.id, ins["i"])
                if self.structured(ctx.fn.ret):
                    self.copy_obj(st, ctx, ins, dst, ret[1], ctx.fn.ret)
                    res = ("L", dst)
                else:
                    res = ("V", self.load(st, ret[1]))
        cid = ctx.id
        for k in [k for k in st.temps if k[0] == cid]:
            del st.temps[k]
        for k in [k for k in st.store if root(k).op in ("var", "tmp") and root(k).args[0] == cid]:
            del st.store[k]
        st.temps[(p.id, ins["i"])] = res
        self.client.on_return_from(self, st, p, ins, ctx.fn, res)
        self.arrive(p, ctx.block, ctx.idx + 1, st)

    def throw(self, ctx, st, ins, cond=None):
        # the enclosing handlers, if any, were given explicit edges by the front end
        self.throw_cond = cond
        self.client.on_exit(self, st, "throw", None, ctx, ins)
        self.exits += 1

    # ---------------------------------------------------------------- ops
    def exec_ins(self, ctx, e, st, b, idx):
        o = e["o"]
        tid = ctx.id
        temps = st.temps
        g = lambda r: temps.get((tid, r)) or self.shared(ctx, r) or ("V", T("x", tid, r))
        res = None
        if o in ("fun", "memfn", "fieldptr"):
            res = V(T("fn", e["f"]["id"] if isinstance(e["f"], dict) else e["f"]))
        elif o == "this":
            res = V(addr(self.this_loc(ctx, st)))
        elif o == "lit":
            res = V(self.lit(e))
        elif o == "str":
            res = V(T("str", e["v"]))
        elif o == "var":
            var = ctx.fn.vars[e["v"]]
            loc = self.varloc(ctx, e["v"])
            if "const" in var:
                res = V(C(int(var["const"])))
            elif var.get("ref"):
                if loc in st.store:
                    res = L(deref(st.store[loc]))
                else:
                    res = L(T("obj", T("ld", loc)))
            else:
                res = L(loc)
        elif o == "mem":
            bb = g(e["b"])
            if e["arrow"]:
                ptr = self.rval(st, bb)
                self.client.on_deref(self, st, ctx, e, ptr)
                base = deref(ptr)
            else:
                base = self.asloc(st, bb, ctx, e)
            loc = T("fld", base, e["f"])
            if e.get("ref"):
                res = L(deref(self.load(st, loc)))
            else:
                res = L(loc)
        elif o == "load":
            x = g(e["a"])
            res = V(self.rval(st, x))
        elif o in ("pass",):
            res = g(e["a"])
        elif o == "cast":
            res = self.cast(ctx, e, st, g(e["a"]))
        elif o == "bin":
            a, bv = self.rval(st, g(e["a"])), self.rval(st, g(e["b"]))
            res = V(self.bin_typed(ctx, e, a, bv))
        elif o == "logic":
            a = g(e["a"])
            bt = temps.get((tid, e["b"]))
            ka = self.known(st, truth(self.rval(st, a)))
            if e["op"] == "&&":
                if ka is False:
                    res = V(ZERO)
                elif bt is None:
                    res = V(T("x", tid, e["i"]))
                elif ka is True:
                    res = V(truth(self.rval(st, bt)))
                else:
                    res = V(T("&&", truth(self.rval(st, a)), truth(self.rval(st, bt))))
            else:
                if ka is True:
                    res = V(ONE)
                elif bt is None:
                    res = V(T("x", tid, e["i"]))
                elif ka is False:
                    res = V(truth(self.rval(st, bt)))
                else:
                    res = V(T("||", truth(self.rval(st, a)), truth(self.rval(st, bt))))
        elif o == "sel":
            c = temps.pop((tid, ("?", e["c"])), None)
            c = (c[1] is ONE) if c is not None else self.known(st, truth(self.rval(st, g(e["c"]))))
            loc = T("var", tid, "?:%d" % e["i"], "?:")
            if self.client.joins and loc in st.store and not e.get("lv"):
                res = L(loc)
            elif c is True and (tid, e["a"]) in temps:
                res = g(e["a"])
            elif c is False and (tid, e["b"]) in temps:
                res = g(e["b"])
            else:
                res = V(T("x", tid, e["i"]))
            if e.get("lv") and res[0] == "V":
                res = L(T("obj", res[1]))
        elif o == "un":
            res = self.unary(ctx, e, st, g(e["a"]))
        elif o == "sub":
            bv, iv = g(e["a"]), self.rval(st, g(e["b"]))
            base = self.rval(st, bv) if bv[0] == "V" else bv[1]
            if bv[0] == "V":
                base = deref(base)
            res = L(T("elt", base, iv))
        elif o == "asg":
            res = self.assign(ctx, e, st, g(e["a"]), g(e["b"]))
        elif o == "decl":
            self.decl(ctx, e, st, g)
        elif o == "init":
            self.init_member(ctx, e, st, g)
        elif o == "call":
            return self.call(ctx, e, st, b, idx, g)
        elif o == "ctor":
            return self.ctor(ctx, e, st, b, idx, g)
        elif o == "new":
            res = self.new(ctx, e, st, g)
        elif o == "del":
            ptr = self.rval(st, g(e["a"]))
            self.client.on_delete(self, st, ctx, e, ptr)
        elif o == "ret":
            if "a" in e:
                x = g(e["a"])
                rt = self.prog.ttype(ctx.fn.ret)
                if rt["c"] == "ref":
                    x = L(self.asloc(st, x, ctx, e)) if x[0] == "V" else x
                elif rt["c"] == "rec" and x[0] == "L" and not self.structured(ctx.fn.ret):
                    x = V(self.load(st, x[1]))
                elif rt["c"] != "rec" and x[0] == "L":
                    x = V(self.load(st, x[1]))
                temps[(tid, "ret")] = x
        elif o == "throw":
            self.throw(ctx, st, e)
            return "stop"
        elif o == "dtor":
            self.client.on_dtor(self, st, ctx, e)
        elif o == "list":
            args = [self.rval(st, g(a)) for a in e.get("args", ())]
            res = V(T("list", *args)) if args else V(ZERO)
        else:
            args = [self.rval(st, g(a)) for a in e.get("args", ())]
            res = V(T("x", tid, e["i"], *args))
        if res is not None:
            temps[(tid, e["i"])] = res

    def this_loc(self, ctx, st):
        if ctx.parent is None:
            return T("obj", T("p", "this"))
        v = st.store.get(T("var", ctx.id, -1, "this"))
        return deref(v) if v is not None else T("obj", T("x", ctx.id, "this"))

    def shared(self, ctx, r):
        """constant expressions (default arguments) are emitted once per function, at their first use"""
        e = ctx.fn.ins.get(r)
        while e is not None and e["o"] in ("pass", "cast"):
            e = ctx.fn.ins.get(e.get("a"))
        if e is not None and e["o"] == "lit":
            return V(self.lit(e))
        return None

    def lit(self, e):
        v = e["v"]
        if e.get("f"):
            try:
                f = float(v)
                return C(int(f)) if f == int(f) else T("flt", v)
            except Exception:
                return T("flt", v)
        try:
            return C(int(v))
        except ValueError:
            return T("lit", v)

    def cast(self, ctx, e, st, x):
        ck = e["ck"]
        if ck in ("ToVoid",):
            return V(T("void"))
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            return V(truth(self.rval(st, x)))
        if ck == "NullToPointer":
            return V(ZERO)
        if ck == "ArrayToPointerDecay":
            return V(addr(x[1])) if x[0] == "L" else x
        if ck == "FloatingToIntegral":
            v = self.rval(st, x)
            return V(v if isc(v) else T("toint", v))
        if ck == "IntegralCast":
            v = self.rval(st, x)
            if isc(v) and isinstance(v.args[0], int):
                ty = self.prog.ttype(e.get("t"))
                if ty["c"] == "uint" and v.args[0] < 0:
                    bits = 64 if "long" in ty["s"] else 32
                    return V(C(v.args[0] % (1 << bits)))
            return V(v)
        # DerivedToBase, NoOp, ConstructorConversion, UserDefinedConversion...
        return x

    def bin_typed(self, ctx, e, a, b):
        op = e["op"]
        la = ctx.fn.ins.get(e["a"])
        uns = la is not None and self.prog.ttype(la.get("t"))["c"] == "uint"
        if uns and op in ("<", ">", "<=", ">="):
            r = self.bin_unsigned(op, a, b)
            self.ucmp.add(r if r.op != "!" else r.args[0])
            return r
        r = binop(op, a, b)
        if op in ("<", ">", "<=", ">="):
            self.scmp.add(r if r.op != "!" else r.args[0])
        return r

    def bin_unsigned(self, op, a, b):
        # unsigned comparisons with zero / one
        if op == ">":
            op, a, b = "<", b, a
        elif op == "<=":
            return lnot(self.ult(b, a))
        elif op == ">=":
            return lnot(self.ult(a, b))
        return self.ult(a, b)

    def ult(self, a, b):
        if a is ZERO:
            return truth(b) if not isc(b) else lt(a, b)
        if b is ZERO:
            return ZERO
        if b is ONE:
            return lnot(truth(a))
        return lt(a, b)

    def unary(self, ctx, e, st, x):
        op = e["op"]
        if op == "*":
            ptr = self.rval(st, x)
            self.client.on_deref(self, st, ctx, e, ptr)
            return L(deref(ptr))
        if op == "&":
            return V(addr(x[1])) if x[0] == "L" else V(T("&t", x[1]))
        if op in ("pre++", "post++", "pre--", "post--"):
            loc = self.asloc(st, x, ctx, e)
            old = self.load(st, loc)
            new = add(old, ONE if "++" in op else C(-1))
            self.write(st, ctx, e, loc, new)
            return V(old) if op.startswith("post") else L(loc)
        v = self.rval(st, x)
        if op == "!":
            return V(lnot(v))
        if op == "-":
            return V(neg(v))
        if op == "+":
            return V(v)
        if op == "~":
            if isc(v):
                return V(C(~v.args[0]))
            return V(T("~", v))
        return V(T(op, v))

    def assign(self, ctx, e, st, a, b):
        loc = self.asloc(st, a, ctx, e)
        if e["op"] == "=":
            t = e.get("t")
            if b[0] == "L" and self.prog.ttype(t)["c"] == "rec" and self.structured(t):
                self.copy_obj(st, ctx, e, loc, b[1], t, event=True)
                return L(loc)
            val = self.rval(st, b)
        else:
            val = self.bin_typed(ctx, dict(e, op=e["op"][:-1]), self.load(st, loc), self.rval(st, b))
        self.write(st, ctx, e, loc, val)
        return L(loc)

    def decl(self, ctx, e, st, g):
        var = ctx.fn.vars[e["v"]]
        loc = self.varloc(ctx, e["v"])
        if "init" not in e:
            return
        x = g(e["init"])
        if var.get("ref"):
            st.store[loc] = addr(self.asloc(st, x, ctx, e))
            return
        t = var["t"]
        if x[0] == "L" and self.prog.ttype(t)["c"] == "rec" and self.structured(t):
            self.kill_under(st, loc)
            self.copy_obj(st, ctx, e, loc, x[1], t)
            self.move_value(st, loc, x[1])
            return
        v = self.rval(st, x)
        self.client.on_init(self, st, ctx, e, loc, v)
        st.store[loc] = v

    def move_value(self, st, dst, src):
        if src in st.store:
            st.store[dst] = st.store[src]

    def init_member(self, ctx, e, st, g):
        thisloc = self.this_loc(ctx, st)
        if "a" not in e:
            return
        x = g(e["a"])
        if "f" in e:
            loc = T("fld", thisloc, e["f"])
            t = e["ft"]
            ty = self.prog.ttype(t)
            if ty["c"] == "ref":
                st.store[loc] = addr(self.asloc(st, x, ctx, e))
                return
            if x[0] == "L" and ty["c"] == "rec" and self.structured(t):
                self.copy_obj(st, ctx, e, loc, x[1], t, event=False)
                self.client.on_write(self, st, ctx, e, loc, T("copyof", x[1]))
                return
            self.write(st, ctx, e, loc, self.rval(st, x))
        elif "base" in e:
            if x[0] == "L":
                a = ctx.fn.ins.get(e["a"])
                t = a.get("t") if a else None
                if t is not None:
                    self.copy_obj(st, ctx, e, thisloc, x[1], t)
        elif e.get("deleg") and x[0] == "L":
            a = ctx.fn.ins.get(e["a"])
            self.copy_obj(st, ctx, e, thisloc, x[1], a.get("t"))

    def new(self, ctx, e, st, g):
        if "init" in e:
            x = g(e["init"])
            loc = x[1] if x[0] == "L" else T("new", ctx.id, e["i"])
            if x[0] == "V":
                st.store[loc] = x[1]
        else:
            loc = T("new", ctx.id, e["i"])
        ptr = addr(loc)
        self.client.on_new(self, st, ctx, e, ptr)
        return V(ptr)

    # --------------------------------------------------------------- calls
    def should_inline(self, fn, ctx, ins):
        if fn is None or not fn.blocks or fn.cls in OPAQUE_REC:
            return False
        for c in ctx.chain():
            if c.fn is fn:
                return False
        if ctx.depth > 24:
            return False
        d = self.client.inline(self, fn, ctx, ins)
        if d is not None:
            return d
        info = self.fninfo(fn)
        return info["size"] <= 90 and len(fn.blocks) <= 8 and not info["loops"]

    def push(self, ctx, fn, e, st, b, idx, thisloc, args):
        key = (ctx.id, b, idx, fn.id)
        c2 = self.ctxs.get(key)
        if c2 is None:
            c2 = Ctx(fn, ctx, b, idx, e, ctx.prio + (ctx.fn.order.get(b, 9999), idx))
            self.ctxs[key] = c2
        self.inlined.add(fn.id)
        # clear what an earlier visit of this context may have left
        for k in [k for k in st.store if root(k).op in ("var", "tmp") and root(k).args[0] == c2.id]:
            del st.store[k]
        if thisloc is not None:
            st.store[T("var", c2.id, -1, "this")] = addr(thisloc)
        for i, v in enumerate(fn.params):
            var = fn.vars[v]
            loc = T("var", c2.id, v, var["name"])
            if i >= len(args):
                st.store[loc] = T("x", c2.id, v)
                continue
            x = args[i]
            if var.get("ref"):
                st.store[loc] = addr(self.asloc(st, x, ctx, e, i + 1))
            elif x[0] == "L" and self.prog.ttype(var["t"])["c"] == "rec" and self.structured(var["t"]):
                self.copy_obj(st, c2, e, loc, x[1], var["t"])
                self.move_value(st, loc, x[1])
            else:
                v = self.rval(st, x)
                self.client.on_init(self, st, c2, e, loc, v)
                st.store[loc] = v
        if fn.kind != "ctor" and self.is_pure(f_of(fn), fn):
            av = [self.argval(st, a) if a[0] == "L" else a[1] for a in args]
            if thisloc is not None:
                av.insert(0, self.argval(st, L(thisloc)) if root(thisloc).op in ("var", "tmp") else addr(thisloc))
            st.temps[(c2.id, "args")] = V(T("f", fn.name, self.read_versions(st, None, fn), *av))
        # the caller's own temporaries stay; continue in the callee
        self.arrive(c2, fn.entry, 0, st)
        return "stop"

    def resolve(self, f):
        return self.prog.fns.get(f["id"])

    def call(self, ctx, e, st, b, idx, g):
        f = e.get("f")
        args = [g(a) for a in e["args"]]
        objloc = None
        objv = None
        if "obj" in e:
            objv = g(e["obj"])
            if e.get("arrow"):
                ptr = self.rval(st, objv)
                self.client.on_deref(self, st, ctx, e, ptr)
                objloc = deref(ptr)
            else:
                objloc = self.asloc(st, objv, ctx, e)
        if f is None:
            for i, a in enumerate(args):
                pass
            self.client.on_call(self, st, ctx, e, {"n": "<indirect>", "m": "<indirect>", "id": ""}, objloc, args, False)
            st.temps[(ctx.id, e["i"])] = V(T("x", ctx.id, e["i"], *[self.rval(st, a) for a in args]))
            return
        m = f["m"]
        if m in THROWERS and not f.get("repo"):
            if THROWERS[m]:
                c = truth(self.rval(st, args[0]))
                s2 = st.copy()
                if self.assume(s2, c, False, ctx):
                    s2.trail = (s2.trail + ((ctx.fn.name, e["l"], "throw"),))[-12:]
                    self.throw(ctx, s2, e, c)
                if not self.assume(st, c, True, ctx):
                    return "stop"
                st.temps[(ctx.id, e["i"])] = V(T("void"))
                return
            self.throw(ctx, st, e)
            return "stop"
        fn = self.resolve(f)
        if fn is not None and self.client.keeps_content(self, fn):
            st.temps[(ctx.id, e["i"])] = V(T("void"))
            return
        if fn is not None and not (f.get("virt") and not e.get("nonvirt")) and self.should_inline(fn, ctx, e):
            self.client.on_call(self, st, ctx, e, f, objloc, args, True)
            return self.push(ctx, fn, e, st, b, idx, objloc, args)
        res = self.model(ctx, e, st, f, objloc, args, fn)
        if res == "stop":
            return "stop"
        st.temps[(ctx.id, e["i"])] = res

    def ctor(self, ctx, e, st, b, idx, g):
        f = e["f"]
        args = [g(a) for a in e["args"]]
        t = e["t"]
        op = "new" if e["i"] in ctx.fn.heap else "tmp"
        loc = T(op, ctx.id, e["i"])
        fn = self.resolve(f)
        cls = f.get("cls", "")
        if self.structured(t):
            if fn is not None and self.should_inline(fn, ctx, e) and not (e.get("copy") and fn.implicit):
                self.kill_under(st, loc)
                self.client.on_ctor(self, st, ctx, e, f, loc, args, True)
                return self.push(ctx, fn, e, st, b, idx, loc, args)
            self.client.on_ctor(self, st, ctx, e, f, loc, args, False)
            self.kill_under(st, loc)
            if e.get("copy") and args:
                src = self.asloc(st, args[0], ctx, e)
                self.copy_obj(st, ctx, e, loc, src, t)
            else:
                # unknown constructor: all fields unknown functions of the args
                av = [self.rval(st, a) if a[0] == "V" else T("&", a[1]) for a in args]
                for fl, ft in self.rec_fields(t):
                    st.store[T("fld", loc, fl)] = T("mk", fl, ctx.id, e["i"], *av)
                self.opaque_effects(ctx, e, st, f, None, args, fn)
            st.temps[(ctx.id, e["i"])] = L(loc)
            return
        self.client.on_ctor(self, st, ctx, e, f, loc, args, False)
        if cls in SMART:
            val = self.rval(st, args[0]) if args else ZERO
        elif e.get("copy") and args:
            val = self.rval(st, args[0])
        elif e.get("default") or not args:
            val = T("empty", cls)
        else:
            val = T("mk", cls, *[self.rval(st, a) for a in args])
        if op == "new":
            st.store[loc] = val
            st.temps[(ctx.id, e["i"])] = L(loc)
        else:
            st.temps[(ctx.id, e["i"])] = V(val)

    # ------------------------------------------------- library models
    def model(self, ctx, e, st, f, objloc, args, fn):
        m, cls, n = f["m"], f.get("cls", ""), f["n"]
        cl = self.client
        ret_t = self.prog.ttype(e.get("t"))
        lv = e.get("lv")
        if cls in SMART and objloc is not None:
            content = self.load(st, objloc)
            if m in ("get", "operator->"):
                cl.on_call(self, st, ctx, e, f, objloc, args, False)
                return V(content)
            if m == "operator*":
                cl.on_deref(self, st, ctx, e, content)
                return L(deref(content))
            if m == "operator[]":
                return L(T("elt", deref(content), self.rval(st, args[0])))
            if m.startswith("operator bool") or "unspecified_bool" in m or m.startswith("operator ") and "bool" in ret_t["s"]:
                return V(truth(content))
            if m == "operator!":
                return V(lnot(content))
            if m == "operator=":
                self.write(st, ctx, e, objloc, self.rval(st, args[0]))
                return L(objloc)
            if m == "reset":
                self.write(st, ctx, e, objloc, self.rval(st, args[0]) if args else ZERO)
                return V(T("void"))
            if m == "release":
                self.write(st, ctx, e, objloc, ZERO)
                return V(content)
            if m.startswith("operator "):     # auto_ptr -> auto_ptr_ref
                return V(content)
        if objloc is None and f["n"].split("::")[0] in ("boost", "std", "__gnu_cxx") and m in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and len(args) == 2:
            a, b2 = self.rval(st, args[0]), self.rval(st, args[1])
            return V(binop(m[8:], a, b2))
        if m == "swap" and n.startswith("std::") and len(args) == 2 and args[0][0] == "L" and args[1][0] == "L":
            cl.on_call(self, st, ctx, e, f, objloc, args, False)
            self.swap(ctx, e, st, args[0][1], args[1][1], self.prog.strip_ref(f["pt"][0]))
            return V(T("void"))
        if m in ("abs", "fabs", "labs") and len(args) == 1:
            v = self.rval(st, args[0])
            return V(C(abs(v.args[0])) if isc(v) else T("abs", v.args[0] if v.op == "neg" else v))
        if m in ("max", "min") and len(args) == 2:
            a, b2 = self.rval(st, args[0]), self.rval(st, args[1])
            if isc(a) and isc(b2):
                r = C((max if m == "max" else min)(a.args[0], b2.args[0]))
            else:
                if b2.id < a.id:
                    a, b2 = b2, a
                r = T(m, a, b2)
            return V(r)
        if n in ("std::move", "std::forward") and len(args) == 1:
            return args[0]
        is_lib = not f.get("repo") or cls in OPAQUE_REC
        if objloc is not None and is_lib:
            return self.lib_method(ctx, e, st, f, objloc, args)
        # repo function not inlined, or library free function
        cl.on_call(self, st, ctx, e, f, objloc, args, False)
        self.opaque_calls.add(n)
        if n == "std::__addressof" or m == "addressof":
            return V(addr(args[0][1])) if args[0][0] == "L" else args[0]
        avals = []
        for a in args:
            if a[0] == "V":
                avals.append(a[1])
            else:
                avals.append(self.argval(st, a))
        pure = self.is_pure(f, fn)
        if objloc is not None:
            avals.insert(0, T("&", objloc) if objloc.op != "obj" else objloc.args[0])
        modified = self.opaque_effects(ctx, e, st, f, objloc, args, fn)
        if pure and not modified:
            rd = self.read_versions(st, f, fn)
            term = T("f", n, rd, *avals)
        else:
            term = T("r", ctx.id, e["i"], n, *avals)
        return self.result(ctx, e, st, term)

    def argval(self, st, a):
        """value number of an argument object (structured: its address and current field values)"""
        loc = a[1]
        v = st.store.get(loc)
        if v is not None:
            return v
        sub = sorted([(k.args[1], self.load(st, k)) for k in st.store if k.op == "fld" and k.args[0] is loc],
                     key=lambda x: x[0])
        if sub:
            return T("obj{}", *[x for p in sub for x in p])
        return self.load(st, loc)

    def result(self, ctx, e, st, term):
        t = e.get("t")
        ty = self.prog.ttype(t)
        if e.get("lv"):
            return L(T("obj", term))
        if ty["c"] == "rec" and self.structured(t):
            loc = T("tmp", ctx.id, e["i"])
            self.kill_under(st, loc)
            st.store[loc] = term
            for fl, ft in self.rec_fields(t):
                st.store[T("fld", loc, fl)] = T("fieldof", fl, term)
            return L(loc)
        return V(term)

    def is_pure(self, f, fn):
        if fn is not None:
            return not self.modset(fn)
        if f["n"].startswith(("rand", "std::rand")):
            return False
        return True

    def read_versions(self, st, f, fn):
        if fn is None:
            return T("nv")
        vs = []
        for k in sorted(self.readset(fn), key=str):
            v = st.ver.get(k)
            if v is not None:
                vs.append(T("vv", str(k), v))
        return T("rv", *vs)

    def swap(self, ctx, e, st, a, b, t):
        ty = self.prog.ttype(t)
        if ty["c"] == "rec" and self.structured(t):
            for fl, ft in self.rec_fields(t):
                x, y = T("fld", a, fl), T("fld", b, fl)
                vx, vy = self.load(st, x), self.load(st, y)
                self.write(st, ctx, e, x, vy)
                self.write(st, ctx, e, y, vx)
            return
        va, vb = self.load(st, a), self.load(st, b)
        self.kill_under(st, a)
        self.kill_under(st, b)
        self.write(st, ctx, e, a, vb)
        self.write(st, ctx, e, b, va)
        for l in (a, b):
            st.ver[("elt", l.args[1] if l.op == "fld" else l.id)] = T("w", ctx.id, e["i"])

    CONST_NAMES = {"begin", "end", "rbegin", "rend", "front", "back", "at", "operator[]", "data", "find",
                   "lower_bound", "upper_bound", "size", "empty", "operator*", "operator->", "get", "c_str",
                   "base", "inRange", "atEnd", "upperLeft", "lowerRight", "accessor", "nearest", "traverser_begin", "traverser_end"}

    def lib_method(self, ctx, e, st, f, loc, args):
        m = f["m"]
        cl = self.client
        content = self.load(st, loc)
        avals = [self.argval(st, a) if a[0] == "L" else a[1] for a in args]
        tyobj = self.prog.ttype(e.get("objt"))["s"] if "objt" in e else ""
        if m == "size" and avals:
            return V(T("m", "size", content, *avals))
        if m == "size":
            return V(self.size_of(content))
        if m == "empty":
            return V(lnot(self.size_of(content)))
        if m in ("operator[]", "at") and avals:
            cl.on_call(self, st, ctx, e, f, loc, args, False)
            base = loc
            if any(x in tyobj for x in ITERATORISH) and "vector" not in tyobj.split("iterator")[0][:12]:
                base = self.iter_base(st, loc, content)
            l = T("elt", base, avals[0])
            return L(l) if e.get("lv") else V(self.load(st, l))
        if m == "push_back" and avals:
            cl.on_mutate(self, st, ctx, e, loc, m, args)
            n = self.size_of(content)
            v = args[0]
            val = avals[0]
            self.raw_store(st, ctx, e, loc, T("push", content, val))
            el = T("elt", loc, n)
            a0 = args[0]
            ins0 = ctx.fn.ins.get(e["args"][0])
            if a0[0] == "L" and ins0 is not None and self.structured(ins0.get("t")):
                for fl, ft in self.rec_fields(ins0.get("t")):
                    st.store[T("fld", el, fl)] = self.load(st, T("fld", a0[1], fl))
            else:
                st.store[el] = val
            return V(T("void"))
        if m == "resize" and avals and "vector" in f.get("cls", ""):
            cl.on_mutate(self, st, ctx, e, loc, m, args)
            self.raw_store(st, ctx, e, loc, T("resized", content, avals[0]))
            return V(T("void"))
        if m == "swap" and len(args) == 1 and args[0][0] == "L":
            cl.on_mutate(self, st, ctx, e, loc, m, args)
            other = args[0][1]
            vb = self.load(st, other)
            self.kill_under(st, loc)
            self.kill_under(st, other)
            self.write(st, ctx, e, loc, vb)
            self.write(st, ctx, e, other, content)
            for l in (loc, other):
                st.ver[("elt", l.args[1] if l.op == "fld" else l.id)] = T("w", ctx.id, e["i"])
            return V(T("void"))
        if m == "operator=" and len(args) == 1:
            self.kill_under(st, loc)
            self.write(st, ctx, e, loc, self.rval(st, args[0]))
            st.ver[("elt", loc.args[1] if loc.op == "fld" else loc.id)] = T("w", ctx.id, e["i"])
            return L(loc)
        if m in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and len(args) == 1:
            return V(binop(m[8:], content, avals[0]))
        if m in ("operator+", "operator-") and len(args) == 1 and any(x in tyobj for x in ITERATORISH):
            return V(binop(m[8:], content, avals[0]))
        if m in ("operator++", "operator--") and any(x in tyobj for x in ITERATORISH):
            new = T("adv", content, m)
            if not args:
                self.write(st, ctx, e, loc, new)
                return L(loc)
            self.write(st, ctx, e, loc, new)
            return V(content)
        if m == "operator*" or m == "operator->":
            cl.on_call(self, st, ctx, e, f, loc, args, False)
            base = T("m", "deref", content)
            return L(T("obj", base)) if m == "operator*" and e.get("lv") else V(base if m == "operator->" else T("ld", T("obj", base)))
        const = f.get("const") or m in self.CONST_NAMES
        if const:
            cl.on_call(self, st, ctx, e, f, loc, args, False)
            if m in ("begin", "end", "rbegin", "rend"):
                term = T("iter", m, loc, content)
                return V(term)
            term = T("m", m, content, *avals)
            # reads of mutable contents reachable through the object are not versioned
            return self.result(ctx, e, st, term)
        # a mutating method of a library object
        cl.on_mutate(self, st, ctx, e, loc, m, args)
        if cls_is_signal(f):
            # registered callbacks: assumed not to modify the map themselves
            term = T("r", ctx.id, e["i"], f["n"], *avals)
            return self.result(ctx, e, st, term)
        self.opaque_args(ctx, e, st, f, args)
        if m == "operator()" and any(x in tyobj for x in ("MultiArray", "NumpyArray", "BasicImage<")):
            pass                        # element access does not change the array itself
        else:
            old = content
            self.kill_under(st, loc)
            self.raw_store(st, ctx, e, loc, T("empty", f.get("cls", "")) if m == "clear" else T("mut", m, old, *avals))
            st.ver[("elt", loc.args[1] if loc.op == "fld" else loc.id)] = T("w", ctx.id, e["i"])
        term = T("r", ctx.id, e["i"], f["n"], *avals)
        ty = self.prog.ttype(e.get("t"))
        if e.get("lv") and ty["c"] == "rec" and m.startswith("operator"):
            return L(loc)
        return self.result(ctx, e, st, term)

    def size_of(self, content):
        if content.op == "push":
            return add(self.size_of(content.args[0]), ONE)
        if content.op == "empty":
            return ZERO
        if content.op == "resized":
            return content.args[1]
        return T("m", "size", content)

    def iter_base(self, st, loc, content):
        """storage an iterator object refers to: follow copies back to a field"""
        if content.op == "ld":
            return content.args[0]
        if content.op == "phi":
            return loc
        return loc

    def opaque_args(self, ctx, e, st, f, args):
        mod = False
        for i, a in enumerate(args):
            if i >= len(f.get("pt", ())):
                break
            ty = self.prog.ttype(f["pt"][i])
            if ty["c"] == "ref" and a[0] == "L":
                sub = self.prog.ttype(ty["sub"])
                if not sub["const"] and not sub["s"].startswith("const ") and not ty["s"].endswith("&&"):
                    if root(a[1]).op in ("var", "tmp", "new", "glob") or not self.structured(ty["sub"]):
                        self.client.on_write(self, st, ctx, e, a[1], T("out", ctx.id, e["i"], i))
                        self.havoc(st, ctx, e, a[1], i)
                        mod = True
        return mod

    def opaque_effects(self, ctx, e, st, f, objloc, args, fn):
        """effects of a call that is not inlined"""
        mod = False
        if fn is None:
            return self.opaque_args(ctx, e, st, f, args)
        ms = self.modset(fn)
        for k in ms:
            mod = True
            for l in [l for l in st.store if l.op in ("fld", "elt") and self.verkey(l) == k
                      and root(l).op not in ("var", "tmp")]:
                del st.store[l]
            st.ver[k] = T("w", ctx.id, e["i"])
        # locals passed by non-const reference
        for i, a in enumerate(args):
            if i >= len(f.get("pt", ())):
                break
            ty = self.prog.ttype(f["pt"][i])
            if ty["c"] == "ref" and a[0] == "L" and root(a[1]).op in ("var", "tmp"):
                sub = self.prog.ttype(ty["sub"])
                if not sub["const"] and not sub["s"].startswith("const "):
                    self.havoc(st, ctx, e, a[1], i)
                    mod = True
        if objloc is not None and root(objloc).op in ("var", "tmp") and not f.get("const"):
            self.havoc(st, ctx, e, objloc, "this")
            mod = True
        return mod

    # ---------------------------------------------- mod / read summaries
    def modset(self, fn):
        c = self.prog.__dict__.setdefault("_mod", None)
        if c is None:
            self._summaries()
        return self.prog._mod.get(fn.id, frozenset())

    def readset(self, fn):
        if self.prog.__dict__.get("_read") is None:
            self._summaries()
        return self.prog._read.get(fn.id, frozenset())

    def _summaries(self):
        prog = self.prog
        mod, read = {}, {}
        for f in prog.fns.values():
            m, r = local_effects(prog, f)
            mod[f.id], read[f.id] = m, r
        changed = True
        while changed:
            changed = False
            for f in prog.fns.values():
                for c in prog.calls(f):
                    if c in mod and c != f.id:
                        if not mod[c] <= mod[f.id]:
                            mod[f.id] = mod[f.id] | mod[c]
                            changed = True
                        if not read[c] <= read[f.id]:
                            read[f.id] = read[f.id] | read[c]
                            changed = True
        prog._mod = {k: frozenset(v) for k, v in mod.items()}
        prog._read = {k: frozenset(v) for k, v in read.items()}


def f_of(fn):
    return {"n": fn.name}


def cls_is_signal(f):
    return f.get("cls", "").startswith("boost::signals2::signal") and f["m"] == "operator()"


def under(k, loc):
    while k.op in ("fld", "elt"):
        k = k.args[0]
        if k is loc:
            return True
    return False


def addr(loc):
    if loc.op == "obj":
        return loc.args[0]
    return T("&", loc)


def deref(t):
    if t.op == "&" and len(t.args) == 1:
        return t.args[0]
    return T("obj", t)


def chain_base(f, i):
    """field path of an lvalue instruction: list of field names, outermost last, plus the root instruction"""
    path = []
    while True:
        e = f.ins.get(i)
        if e is None:
            return path, None
        if e["o"] == "mem":
            path.append(e["f"])
            i = e["b"]
        elif e["o"] in ("pass", "cast", "load"):
            i = e["a"]
        elif e["o"] == "sub":
            path.append("[]")
            i = e["a"]
        elif e["o"] == "call" and e.get("f", {}).get("m") in ("operator[]", "operator*", "operator->", "get", "begin", "end", "front", "back", "at") and "obj" in e:
            path.append("[]")
            i = e["obj"]
        elif e["o"] == "un" and e["op"] in ("*", "&", "pre++", "pre--"):
            path.append("*")
            i = e["a"]
        else:
            return path, e


def local_effects(prog, f):
    """(fields possibly written, fields read) by the instructions of f itself"""
    mod, read = set(), set()

    def target(i):
        path, rt = chain_base(f, i)
        for n, p in enumerate(path):
            if p in ("[]", "*"):
                continue
            # local object fields do not matter
            if rt is not None and rt["o"] == "var" and f.vars[rt["v"]].get("local") and not f.vars[rt["v"]].get("ref") \
                    and "[]" not in path[n:] and "*" not in path[n:] and not arrow_in(path, n, i):
                if prog.ttype(f.vars[rt["v"]]["t"])["c"] == "rec":
                    return
            mod.add(p)
            if n > 0 and path[n-1] == "[]":
                mod.add(("elt", p))
            return

    def arrow_in(path, n, i):
        return False

    for e in f.ins.values():
        o = e["o"]
        if o == "mem":
            read.add(e["f"])
        if o == "asg":
            target(e["a"])
        elif o == "un" and ("++" in e["op"] or "--" in e["op"]):
            target(e["a"])
        elif o == "call" and "obj" in e and "f" in e:
            g = e["f"]
            if not g.get("const") and not g.get("repo") and g["m"] not in Engine.CONST_NAMES and not cls_is_signal(g):
                target(e["obj"])
        if o in ("call",) and "f" in e and not e["f"].get("repo"):
            for a, pt in zip(e["args"], e["f"]["pt"]):
                ty = prog.ttype(pt)
                if ty["c"] == "ref":
                    sub = prog.ttype(ty["sub"])
                    if not sub["const"] and not sub["s"].startswith("const "):
                        target(a)
    return mod, read
