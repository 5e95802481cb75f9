import sys, prove, solve, ir
mod=ir.load(); cs=prove.load_specs(sys.argv[1].split(","))
pool=solve.Pool()
orig=solve.run_plan
log=[]
def rp(text,plan):
    r=orig(text,plan); log.append((r[2],r[0],r[1],text)); return r
solve.run_plan=rp
r=prove.prove_function(mod,cs,sys.argv[2],pool,hints={} if len(sys.argv)>3 else prove.load_hints())
m={o.text:o for o in r.obls if o.text}
print(r.time)
for t,s,tool,text in sorted(log,key=lambda x:-x[0])[:12]:
    o=m.get(text); print("%.2f %s %s %s"%(t,s,tool,o.name() if o else text[-300:].replace("\n"," ")[:300]))
