import sys,time; sys.path.insert(0,'/verif')
from sa.program import *; from sa.engine import *
p=Program(["geomap"])
for f in sorted(p.fns.values(), key=lambda f:f.name):
    if f.name.startswith("GeoMap::") and (len(sys.argv)<2 or f.name in sys.argv[1:]):
        t=time.time(); e=Engine(p,Client())
        try:
            e.run(f); t=time.time()-t
            if t>0.3: print(f.name, t, e.steps, len(e.nodes))
        except Exception as x: print(f.name, "EXC", type(x), x)
