#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from dev/seeds/<id>.txt (meta, edits, demo) and confirms it on a scratch copy."""
import sys, os, re, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = open(V + "/dev/seeds/h.hxx").read()
DEMO = '''#!/bin/bash
# cwd: the repository, built
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O0 -w -DBOOST_BIND_GLOBAL_PLACEHOLDERS %s -I"$R/src/geomap" -I"$R/src/cellimage" "$D/demo.cxx" \\
    "$R/_build/repo/src/geomap/liblibgeomap.a" -lvigraimpex -o "$T/demo" || exit 99
cd "$T" && timeout 120 ./demo
'''
PYDEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD/_build/python" PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$D/demo.py"
'''
def run(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = "/tmp/seedw/base"
def lib(d):
    os.makedirs(d + "/_build/repo/src/geomap", exist_ok=True)
    r = run("cd %s && for f in cppmap cppmap_utils crackedgemap; do (g++ -std=gnu++14 -O0 -w -fPIC -DBOOST_BIND_GLOBAL_PLACEHOLDERS -Isrc/geomap -c src/geomap/$f.cxx -o $f.o || touch fail) & done; wait; rm -f _build/repo/src/geomap/*.a; test ! -e fail && ar rcs _build/repo/src/geomap/liblibgeomap.a *.o" % d)
    return r.returncode == 0, r.stderr
for name in sys.argv[1:]:
    txt = open("%s/dev/seeds/%s.txt" % (V, name)).read()
    head, _, rest = txt.partition("\n@@ ")
    meta = dict(l.split(": ", 1) for l in head.strip().splitlines())
    eds = re.findall(r"@@ (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>", "@@ " + rest, re.S)
    m = re.search(r"\n%%DEMO(PY)?\n(.*)", txt, re.S)
    out = "%s/seeded/%s" % (V, name)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    d = "/tmp/seedw/" + name
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/seedw", exist_ok=True)
    run("git -C /repo worktree prune; mkdir -p %s && cd /repo && git archive HEAD src | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm b" % (d, d, d))
    for f, a, b in eds:
        s = open(d + "/" + f).read()
        if s.count(a) != 1:
            print(name, "MATCHES", s.count(a), a[:80]); sys.exit(1)
        open(d + "/" + f, "w").write(s.replace(a, b))
    diff = run("git diff", cwd=d).stdout
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    if m.group(1):
        open(out + "/demo.sh", "w").write(PYDEMO); open(out + "/demo.py", "w").write(m.group(2))
    else:
        open(out + "/demo.sh", "w").write(DEMO % meta.get("flags", "")); open(out + "/demo.cxx", "w").write(m.group(2)); open(out + "/h.hxx", "w").write(H)
    os.chmod(out + "/demo.sh", 0o755)
    r0 = run(out + "/demo.sh", cwd="/repo")
    if m.group(1):
        print(name, "clean", r0.returncode, r0.stderr[-300:], "(python demo: confirm with vcheck --bug)")
    else:
        ok, err = lib(d)
        if not ok: print(name, "DOES NOT BUILD", err[-500:])
        r1 = run(out + "/demo.sh", cwd=d)
        print(name, "clean", r0.returncode, (r0.stdout + r0.stderr)[-200:].strip(), "| patched", r1.returncode, (r1.stdout + r1.stderr)[-200:].strip())
    shutil.rmtree(d, ignore_errors=True)
    chk = run("git -C /repo apply %s/patch.diff && %s/bin/check %s; git -C /repo checkout -- ." % (out, V, meta["property"]), env=dict(os.environ, GEOMAP_EVIDENCE="/tmp/seedw/ev"))
    print("    check", meta["property"], "|".join(l[:160] for l in chk.stdout.splitlines()[:3]), chk.stderr[:200])
