import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa.program import *; from sa.core import *
p=Program(["geomap"])
c=GeoRec(p,set(sys.argv[2].split(",")))
e=Engine(p,c); e.MAXSTEPS=int(sys.argv[3])
try: e.run(p.byname[sys.argv[1]][0])
except AnalysisBroken as ex: print(ex)
import collections
h=collections.Counter()
old=e.exec_block
for n,t in e.tables.items():
    print(n[0].fn.name, n[1], n[2], len(t)) if len(t)>3 else None
# diff on repeated merges
cnt=collections.Counter()
om=e.merge
def m(a,b,nid):
    r=om(a,b,nid)
    if r is not None:
        cnt[nid]+=1
        if cnt[nid]==60:
            print("MERGE",nid)
            for k in a.store:
                if k in b.store and a.store[k] is not b.store[k]: print("  ST",k,a.store[k],"|",b.store[k], r.store.get(k))
            for k in a.store:
                if k not in b.store: print("  NOTB",k)
            for k in set(a.ver)|set(b.ver):
                if a.ver.get(k) is not b.ver.get(k): print("  VER",k,a.ver.get(k),b.ver.get(k))
            for k in a.temps:
                if a.temps[k]!=b.temps.get(k): print("  T",k,a.temps[k],b.temps.get(k))
            for k in a.facts:
                if a.facts[k]!=b.facts.get(k): print("  F",k,a.facts[k],b.facts.get(k))
    return r
e2=Engine(p,GeoRec(p,set(sys.argv[2].split(",")))); e2.MAXSTEPS=int(sys.argv[3]); om=e2.merge; e2.merge=m
try: e2.run(p.byname[sys.argv[1]][0])
except AnalysisBroken as ex: print(ex)
for n,t in e.tables.items():
    if len(t)>10 and n[0].depth==0:
        for k in list(t)[:6]: print("KEY",n[1],k)
        break
