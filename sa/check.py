"""Check driver: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback
from .program import Program, AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obl = []            # (rule, site)
        self.viol = {}           # key -> detail
        self.functions = set()
        self.notes = []
        self.stats = {"steps": 0, "nodes": 0, "exits": 0}
        self.mins = {}

    def ok(self, rule, site=""):
        self.obl.append((rule, getattr(site, "name", None) or str(site), True))

    def bad(self, rule, fn, what, where="", detail=None):
        """rule: short id; fn: function name; what: stable description of the construct"""
        if hasattr(fn, "short"):
            where = where or fn.short()
            fn = fn.name
        key = "%s|%s|%s" % (rule, fn, what)
        self.obl.append((rule, "%s: %s" % (fn, what), False))
        if key not in self.viol:
            self.viol[key] = {"rule": rule, "function": fn, "construct": what, "where": str(where), "detail": detail}

    def need(self, rule, n):
        """the rule must have had at least n instances"""
        self.mins[rule] = n

    def engine(self, eng):
        self.stats["steps"] += eng.steps
        self.stats["nodes"] += len(eng.nodes)
        self.stats["exits"] += eng.exits
        for i in eng.inlined:
            self.functions.add(i)
        self.functions.add(eng.root.id)


class Sub:
    """passes selected rules of another property's analysis on to a report"""
    def __init__(self, rep, rules):
        self.rep, self.rules, self.functions, self.notes = rep, rules, rep.functions, rep.notes

    def ok(self, rule, site=""):
        if rule in self.rules:
            self.rep.ok(self.rules[rule], site)

    def bad(self, rule, fn, what, where="", detail=None):
        if rule in self.rules:
            self.rep.bad(self.rules[rule], fn, what, where, detail)

    def need(self, rule, n):
        pass

    def engine(self, eng):
        self.rep.engine(eng)


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, _, what = rest[4:].partition(" :: ")
                    out[key.strip()] = what.strip()
    return out


def main(prop, title, groups, fn, explanation, rules, tier):
    t0 = time.time()
    rep = Report(prop)
    code = 0
    try:
        prog = Program(groups)
        fn(prog, rep, tier)
        counts = {}
        for r, s, good in rep.obl:
            counts[r] = counts.get(r, 0) + 1
        for r, n in rep.mins.items():
            if counts.get(r, 0) < n and not rep.viol:
                raise AnalysisBroken("rule %s: only %d instances found, expected at least %d" % (r, counts.get(r, 0), n))
        if not rep.obl:
            raise AnalysisBroken("no rule instance found")
    except AnalysisBroken as ex:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, ex))
        if not rep.viol:
            return 3
        counts = {}
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 3
    kn = known(prop)
    evdir = os.environ.get("GEOMAP_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, "replay")
    nv = 0
    kf = []
    for key, d in sorted(rep.viol.items()):
        if key in kn:
            kf.append({"key": key, "what": kn[key]})
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kn[key], d["where"]))
            continue
        nv += 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, nv))
        with open(path, "w") as fh:
            json.dump(dict(d, property=prop, key=key, command="bin/check %s" % prop), fh, indent=1)
        print("%s: [%s] %s: %s" % (d["where"], d["rule"], d["function"], d["construct"]))
        if d.get("detail"):
            print("    " + str(d["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    good = sum(1 for o in rep.obl if o[2])
    cov = {"explanation": explanation, "units_parsed": len(prog.units), "functions_in_program": len(prog.fns),
           "functions_analysed": len(rep.functions), "cfg_nodes": rep.stats["nodes"],
           "abstract_steps": rep.stats["steps"], "exits_checked": rep.stats["exits"],
           "obligations": len(rep.obl), "discharged": good, "rules": rules,
           "obligations_by_rule": counts, "sites": sorted({"%s @ %s" % (r, s) for r, s, g in rep.obl})[:200],
           "known_findings": kf}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": nv}
    with open(os.path.join(evdir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d obligations, %d discharged, %d violations, %d known findings, %d functions, %.1fs" %
          (prop, title, len(rep.obl), good, nv, len(kf), len(rep.functions), time.time() - t0))
    return code
