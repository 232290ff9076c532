"""Linear facts of a path and the bounds they entail (a small polyhedral
domain: Fourier-Motzkin elimination over the handful of terms involved)."""
from fractions import Fraction
from .engine import *


def lin(t, k=1, out=None):
    """linear form: {term: coefficient}, constants under None"""
    if out is None:
        out = {}
    if isc(t) and not isinstance(t.args[0], str):
        out[None] = out.get(None, 0) + k * int(t.args[0])
    elif t.op == "+":
        for a in t.args:
            lin(a, k, out)
    elif t.op == "neg":
        lin(t.args[0], -k, out)
    elif t.op == "*" and len(t.args) == 2 and isc(t.args[0]) and not isinstance(t.args[0].args[0], str):
        lin(t.args[1], k * int(t.args[0].args[0]), out)
    else:
        out[t] = out.get(t, 0) + k
    return {a: c for a, c in out.items() if c}


def sub(a, b):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) - c
    return {t: c for t, c in r.items() if c}


def infeasible(cs, limit=4000):
    """no assignment satisfies all sum <= 0 constraints (dict form, constant under None)"""
    cs = {frozenset(c.items()) for c in cs}
    while True:
        live = []
        vs = {}
        for f in cs:
            d = dict(f)
            names = [t for t in d if t is not None]
            if not names:
                if d.get(None, 0) > 0:
                    return True
                continue
            live.append(d)
            for t in names:
                vs.setdefault(t, [0, 0])[d[t] > 0] += 1
        if not live:
            return False
        v = min(vs, key=lambda t: (vs[t][0] * vs[t][1], t.id))
        pos = [d for d in live if d.get(v, 0) > 0]
        negs = [d for d in live if d.get(v, 0) < 0]
        new = [d for d in live if v not in d]
        for p in pos:
            for n in negs:
                a, b = Fraction(-n[v]), Fraction(p[v])
                r = {}
                for t, c in p.items():
                    r[t] = r.get(t, 0) + a * c
                for t, c in n.items():
                    r[t] = r.get(t, 0) + b * c
                r = {t: c for t, c in r.items() if c}
                m = max((abs(c) for t, c in r.items()), default=1)
                new.append({t: c / m for t, c in r.items()})
        cs = {frozenset(c.items()) for c in new}
        if len(cs) > limit:
            return False


def is_size(t):
    return t.op == "m" and t.args[0] in ("size", "length", "max_size")


def abs_arg(t):
    if t.op in ("f", "r", "m"):
        n = [x for x in t.args if isinstance(x, str)]
        if n and n[0].split("::")[-1] in ("abs", "labs", "llabs", "fabs"):
            a = [x for x in t.args if isinstance(x, Term) and x.op not in ("rv", "nv")]
            return a[-1] if a else None
    if t.op == "abs":
        return t.args[0]
    return None


def constraints(eng, facts, nonneg, minsize=None):
    """list of linear forms (<= 0) that hold under the facts [(cond, value)]; nonneg(term): known to be >= 0;
    minsize(term): a lower bound of a container size"""
    out = []
    todo = [(c, v) for c, v in facts]
    flat = []
    while todo:
        c, v = todo.pop()
        if c.op == "!":
            todo.append((c.args[0], not v))
        elif c.op == "&&" and v or c.op == "||" and not v:
            todo += [(x, v) for x in c.args]
        else:
            flat.append((c, v))
    late = []
    for c, v in flat:
        if c.op == "==" and len(c.args) == 2:
            if v:
                d = sub(lin(c.args[0]), lin(c.args[1]))
                out += [d, {t: -k for t, k in d.items()}]
            else:
                late.append(("ne", c.args[0], c.args[1]))
            continue
        if c.op == "<" and len(c.args) == 2:
            a, b = c.args
            if c in eng.ucmp and c not in eng.scmp:
                late.append((v, a, b))
                continue
            out.append(le(a, b, -1) if v else le(b, a, 0))
            continue
        if v is True and is_size(c):
            out.append(le(ONE, c, 0))
        elif v is False:
            out += [lin(c), {t: -k for t, k in lin(c).items()}]
        elif v is True:
            late.append(("ne", c, ZERO))
    terms = {t for d in out for t in d if t is not None}
    for x in late:
        for y in x[1:]:
            terms |= {t for t in lin(y) if t is not None}
    def axioms(ts):
        for t in ts:
            a = abs_arg(t)
            if a is not None:
                out.extend([le(a, t, 0), le(neg(a), t, 0), le(ZERO, t, 0)])
            if is_size(t) or nonneg(t):
                out.append(le(C(minsize(t) if minsize else 0), t, 0))
    axioms(terms)
    # unsigned comparisons hold as integers only where no side falls below zero (sums are assumed not to pass 2^32)
    for _ in range(3):
        for x in late:
            if x[0] == "ne":
                # a neighbouring bound becomes strict
                for p, q in ((x[1], x[2]), (x[2], x[1])):
                    if entails(out, le(p, q, 0)):
                        out.append(le(p, q, -1))
                continue
            v, a, b = x
            if v:
                # a <u b: if the right side is a true natural number, so is the left, and it is smaller
                if entails(out, le(ZERO, b, 0)):
                    out += [le(ZERO, a, 0), le(a, b, -1)]
            elif entails(out, le(ZERO, a, 0)) and entails(out, le(ZERO, b, 0)):
                out.append(le(b, a, 0))
    return out


def le(a, b, k):
    """a - b <= k as a form <= 0"""
    d = sub(lin(a), lin(b))
    d[None] = d.get(None, 0) - k
    return {t: c for t, c in d.items() if c}


def entails(cs, goal):
    """the forms cs (<= 0) imply goal (<= 0) over the integers"""
    n = {t: -c for t, c in goal.items()}
    n[None] = n.get(None, 0) + 1
    n = {t: c for t, c in n.items() if c}
    return infeasible(list(cs) + [n])
