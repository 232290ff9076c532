import sys; sys.path.insert(0,'/verif')
from sa.program import *
def dump(p, f):
    print(f.id, f.short(), [f.vars[x]["name"] for x in f.params], "entry",f.entry,"exit",f.exit)
    for b in sorted(f.blocks.values(), key=lambda b:-b["b"]):
        print(" B%d %s -> %s term=%s" % (b["b"], b.get("label",""), b["succ"], b.get("term")))
        for e in b["els"]:
            d={k:v for k,v in e.items() if k not in("i","o","t","B","lv","objt")}
            if isinstance(d.get("f"),dict): d["f"]=d["f"]["n"]
            if "v" in d and e["o"] in("var","decl"): d["v"]=f.vars[d["v"]]["name"]
            print("   %%%d%s = %s %s : %s"%(e["i"],"&" if e.get("lv") else "",e["o"],d,p.tstr(e.get("t",-1))[:60]))
if __name__=="__main__":
    p=Program(sys.argv[1].split(","))
    for f in p.byname.get(sys.argv[2],[]): dump(p,f)
