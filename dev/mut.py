#!/usr/bin/env python3
"""Development aid: applies textual edits (from a file of blocks) to a scratch copy
of the sources and runs checks on it.  usage: mut.py FILE [CHECK...]
block:  ### name [expected checks]\n@@ relative/path\n<<<<\nold\n====\nnew\n>>>>"""
import os, re, subprocess, sys, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def blocks(p):
    out = []
    for b in open(p).read().split("\n### ")[0:]:
        b = b.lstrip("# ")
        if not b.strip(): continue
        head, _, rest = b.partition("\n")
        eds = []
        cur = None
        for m in re.finditer(r"@@ (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>", rest, re.S):
            eds.append(m.groups())
        out.append((head, eds))
    return out
def one(i, head, eds, checks):
    d = "/tmp/mut/%d_%d" % (os.getpid(), i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/src", d + "/src")
    shutil.copytree("/repo/python", d + "/python")
    for f, a, b in eds:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(a) < 1:
            return head, "NO MATCH for %r" % a[:60]
        s = s.replace(a, b, 1)
        open(p, "w").write(s)
    res = []
    env = dict(os.environ, GEOMAP_REPO=d, GEOMAP_IR=d + "/ir", GEOMAP_EVIDENCE=d + "/ev")
    if os.environ.get("COMPILE"):
        r = subprocess.run("g++ -std=gnu++14 -fsyntax-only -w -I%s/src/geomap %s/src/geomap/*.cxx" % (d, d), shell=True, capture_output=True, text=True)
        if r.returncode: res.append("DOES NOT COMPILE " + r.stderr[:300])
    words = head.split()
    exp = [w for w in words[1:] if re.match(r"C\d\d$", w)]
    for c in checks or exp:
        r = subprocess.run([V + "/bin/check", c], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if re.search(r": \[[\w-]+\] ", l)]
        res.append("%s=%d%s %s" % (c, r.returncode, "" if (r.returncode == 1) == (c in exp) else " <<<<<", " | ".join(x[:150] for x in v[:2]) or (r.stdout.splitlines() or [""])[-1][:100] if r.returncode else ""))
    shutil.rmtree(d, ignore_errors=True)
    return head, "  ".join(res)
bl = blocks(sys.argv[1])
only = os.environ.get("ONLY")
with cf.ThreadPoolExecutor(6) as ex:
    futs = [ex.submit(one, i, h, e, sys.argv[2:]) for i, (h, e) in enumerate(bl) if not only or re.search(only, h)]
    for f in futs:
        h, r = f.result()
        print("%-40s %s" % (h, r), flush=True)
