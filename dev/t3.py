import sys,time; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa.program import *; from sa.core import *
kinds=sys.argv[2].split(",")
p=Program(sys.argv[1].split(","))
for name in sys.argv[3:]:
    for f in p.byname[name]:
        print("==",f, f.line)
        t=time.time(); c=GeoRec(p,kinds); e=run_engine(p,c,f)
        for x in c.exits:
            print("  EXIT",x[0],"ret",x[3] and retval(x[2],e,x[3]), x[5] and x[5]["l"])
            for ev in x[1]: print("      ",ev)
        print("  %.2fs %d steps"%(time.time()-t,e.steps))
