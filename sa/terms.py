"""Hash-consed terms (value numbers) and small algebraic normalisation."""


class Term:
    __slots__ = ("op", "args", "id", "phis", "size", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
EMPTY = frozenset()


def T(op, *args):
    k = (op,) + tuple(a.id if isinstance(a, Term) else ("s", a) for a in args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_tab)
        ph = EMPTY
        size = 1
        for a in args:
            if isinstance(a, Term):
                size += a.size
                if a.phis:
                    ph = ph | a.phis if ph else a.phis
        if op == "phi":
            ph = ph | {args[0]}
        t.phis = ph
        t.size = size
        _tab[k] = t
        if size > 400:      # cut runaway terms: an opaque but unique name
            t2 = T("big", t.id)
            t2.phis = ph
            _tab[k] = t2
            return t2
    return t


def C(n):
    return T("c", n)


ZERO, ONE = C(0), C(1)


def isc(t):
    return t.op == "c"


def neg(a):
    if a.op == "neg":
        return a.args[0]
    if isc(a):
        return C(-a.args[0])
    return T("neg", a)


def _lin(t):
    """splits t into (base, constant)"""
    if t.op == "+" and isc(t.args[1]):
        return t.args[0], t.args[1].args[0]
    if isc(t):
        return None, t.args[0]
    return t, 0


def add(a, b):
    if isc(a) and isc(b):
        return C(a.args[0] + b.args[0])
    if isc(a):
        a, b = b, a
    if isc(b):
        base, k = _lin(a)
        k += b.args[0]
        return base if k == 0 else T("+", base, C(k))
    if b.op == "neg" and b.args[0] is a or a.op == "neg" and a.args[0] is b:
        return ZERO
    if b.id < a.id:
        a, b = b, a
    ba, ka = _lin(a)
    bb, kb = _lin(b)
    if ka or kb:
        return add(add(ba, bb), C(ka + kb))
    # (x + -y) + y  ->  x
    for x, y in ((a, b), (b, a)):
        if x.op == "+" and not isc(x.args[1]):
            ny = neg(y)
            if x.args[0] is ny:
                return x.args[1]
            if x.args[1] is ny:
                return x.args[0]
    return T("+", a, b)


def binop(op, a, b):
    if op == "+":
        return add(a, b)
    if op == "-":
        if a is b:
            return ZERO
        return add(a, neg(b))
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return lnot(eq(a, b))
    if op == "<":
        return lt(a, b)
    if op == ">":
        return lt(b, a)
    if op == ">=":
        return lnot(lt(a, b))
    if op == "<=":
        return lnot(lt(b, a))
    if isc(a) and isc(b) and isinstance(a.args[0], int) and isinstance(b.args[0], int):
        x, y = a.args[0], b.args[0]
        try:
            if op == "*": return C(x * y)
            if op == "/" : return C(int(x / y)) if y else T("/", a, b)
            if op == "%": return C(x % y) if x >= 0 and y > 0 else T(op, a, b)
            if op == "&": return C(x & y)
            if op == "|": return C(x | y)
            if op == "<<": return C(x << y)
            if op == ">>": return C(x >> y)
        except Exception:
            pass
    if op in ("*", "&", "|", "^"):
        if b.id < a.id:
            a, b = b, a
        if op == "&" and (a is ZERO or b is ZERO):
            return ZERO
        if op == "|" and a is ZERO:
            return b
        if op == "|" and b is ZERO:
            return a
        if op == "*" and (a is ONE):
            return b
        if op == "*" and (b is ONE):
            return a
        if op == "*" and (a is ZERO or b is ZERO):
            return ZERO
        if op == "*" and a.op == "neg":
            return neg(binop("*", a.args[0], b))
        if op == "*" and b.op == "neg":
            return neg(binop("*", a, b.args[0]))
        if op in ("&", "|") and a is b:
            return a
    return T(op, a, b)


def eq(a, b):
    if a is b:
        return ONE
    if isc(a) and isc(b):
        return C(int(a.args[0] == b.args[0]))
    if a is ZERO:
        return lnot(truth(b))
    if b is ZERO:
        return lnot(truth(a))
    if a.op == "neg" and b.op == "neg":
        a, b = a.args[0], b.args[0]
    # addresses of distinct objects
    if a.op == "&" and b.op == "&" and distinct_loc(a.args[0], b.args[0]):
        return ZERO
    if b.id < a.id:
        a, b = b, a
    return T("==", a, b)


def lt(a, b):
    if a is b:
        return ZERO
    if isc(a) and isc(b):
        return C(int(a.args[0] < b.args[0]))
    ba, ka = _lin(a)
    bb, kb = _lin(b)
    if ba is not None and ba is bb:
        return C(int(ka < kb))
    return T("<", a, b)


BOOLOPS = ("!", "==", "<", "&&", "||")


def truth(t):
    """canonical boolean term for 't is non-zero'"""
    if isc(t):
        return ONE if t.args[0] else ZERO
    if t.op in ("&", ) and len(t.args) == 1:
        return ONE             # address of something
    if t.op == "neg":
        return truth(t.args[0])
    return t


def lnot(t):
    t = truth(t)
    if isc(t):
        return ZERO if t.args[0] else ONE
    if t.op == "!":
        return t.args[0]
    return T("!", t)


def root(loc):
    while loc.op in ("fld", "elt", "base"):
        loc = loc.args[0]
    return loc


def distinct_loc(a, b):
    """definitely different storage"""
    if a is b:
        return False
    ra, rb = root(a), root(b)
    local = ("var", "tmp", "new")
    if ra is rb:
        if a.op == "fld" and b.op == "fld" and a.args[0] is b.args[0]:
            return a.args[1] != b.args[1]
        if a.op == "elt" and b.op == "elt" and a.args[0] is b.args[0]:
            return distinct_val(a.args[1], b.args[1])
        if a.op == "fld" and b.op == "fld":
            return a.args[1] != b.args[1]
        return False
    if ra.op in local and rb.op in local:
        return True
    if ra.op in ("var", "tmp") or rb.op in ("var", "tmp"):
        return True
    if ra.op == "new" or rb.op == "new":
        # a fresh object differs from anything that existed at function entry
        o = rb if ra.op == "new" else ra
        if o.op == "obj" and o.args[0].op == "p":
            return True
    return False


def distinct_val(a, b):
    if isc(a) and isc(b):
        return a.args[0] != b.args[0]
    ba, ka = _lin(a)
    bb, kb = _lin(b)
    if ba is not None and ba is bb and ka != kb:
        return True
    if neg(a) is b:
        return True            # labels are non-zero
    return False


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, Term):
                st.append(a)


def show(t, depth=0):
    if not isinstance(t, Term):
        return str(t)
    if depth > 7:
        return ".."
    a = t.args
    s = lambda x: show(x, depth + 1)
    if t.op == "c":
        return str(a[0])
    if t.op == "p":
        return str(a[0])
    if t.op == "fld":
        b = a[0]
        if b.op == "obj":
            return s(b.args[0]) + "->" + a[1].split("::")[-1]
        return s(b) + "." + a[1].split("::")[-1]
    if t.op == "elt":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if t.op == "obj":
        return "*" + s(a[0])
    if t.op == "&" and len(a) == 1:
        return "&" + s(a[0])
    if t.op == "ld":
        return s(a[0]) + ("'" if len(a) > 1 else "")
    if t.op == "var":
        return str(a[2])
    if t.op in ("tmp", "new"):
        return "%s#%s" % (t.op, a[1])
    if t.op == "m":
        return "%s.%s(%s)" % (s(a[1]), a[0], ", ".join(map(s, a[2:])))
    if t.op == "neg":
        return "-" + s(a[0])
    if t.op == "!":
        return "!" + s(a[0])
    if t.op in ("+", "*", "==", "<", "-", "/", "|", "%") or t.op == "&":
        return "(" + s(a[0]) + t.op + s(a[1]) + ")"
    if t.op == "phi":
        return "phi(%s)" % (s(a[1]),)
    return t.op + "(" + ", ".join(map(s, a)) + ")"


def subst(t, m):
    """replace subterms"""
    r = m.get(t)
    if r is not None:
        return r
    if not any(isinstance(a, Term) for a in t.args):
        return t
    na = [subst(a, m) if isinstance(a, Term) else a for a in t.args]
    if all(x is y for x, y in zip(na, t.args)):
        return t
    if t.op == "==":
        return eq(*na)
    if t.op == "<":
        return lt(*na)
    if t.op == "+":
        r = na[0]
        for x in na[1:]:
            r = add(r, x)
        return r
    return T(t.op, *na)
