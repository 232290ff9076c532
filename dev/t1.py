import sys,time; sys.path.insert(0,'/verif')
from sa.program import *; from sa.engine import *
p=Program(["geomap"])
class Dbg(Client):
    def on_write(self,eng,st,ctx,ins,loc,val):
        if root(loc).op not in("var","tmp"): print("  %s:%d write %r = %r"%(ctx.fn.name,ins["l"],loc,val))
    def on_mutate(self,eng,st,ctx,ins,loc,m,args):
        print("  %s:%d mutate %r .%s"%(ctx.fn.name,ins["l"],loc,m))
    def on_exit(self,eng,st,kind,ret,ctx,ins): print("EXIT",kind,ret, ins and ins["l"])
for name in sys.argv[1:]:
    for f in p.byname[name]:
        print("==",f)
        t=time.time(); e=Engine(p,Dbg()); e.run(f); print(time.time()-t, e.steps, len(e.nodes))
