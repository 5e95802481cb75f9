import sys
import prove, solve, ir, lib, vc, z3
pool=solve.Pool()
mod=ir.load()
cs=prove.load_specs(sys.argv[1].split(","))
fn=sys.argv[2]; pat=sys.argv[3]
eng=vc.Engine(mod,dict(cs,**cs[fn].view),lib.TRUSTED)
removed={}
import re
for it in range(12):
    eng.verify(fn,removed)
    c=[o for o in eng.obls if o.kind=='inv']
    r=[pool.one(solve.smt2(eng.background,o.facts,o.goal),solve.QUICK) for o in c]
    ch=False
    for i,o in enumerate(c):
        if r[i][0]!='unsat':
            k,l=o.cand
            if l not in removed.setdefault(k,set()):
                removed[k].add(l); ch=True
                if re.search(pat,l):
                    print(it,o.label,o.line,r[i],o.path)
                    open('/tmp/w/dbg_%s_%d.smt2'%(re.sub(r'\W','_',o.label),it),'w').write(solve.smt2(eng.background,o.facts,o.goal))
    if not ch: break
for o in eng.obls:
    if o.kind!='inv' and re.search(pat,o.label) and o.goal is not None:
        t=solve.smt2(eng.background,o.facts,o.goal)
        open('/tmp/w/dbg_%s_%d.smt2'%(re.sub(r'\W','_',o.label),o.line),'w').write(t)
for n,o in enumerate(eng.obls):
    if o.kind!='inv' and o.kind!='variant' and o.alts is not None and (len(sys.argv)<5 or n==int(sys.argv[4])):
        print(n,o.line,o.path)
        for w,f in o.alts:
            gl=f()
            r=[(l,pool.one(solve.smt2(eng.background,o.facts,g),[("z3-ematch",3)])) for l,g in gl]
            bad=[l for l,x in r if x[0]!="unsat"]
            print('  ',w,len(r),bad)
            for l,g in gl:
                if l in bad and re.search(pat,l):
                    open('/tmp/w/dbg_%s_%d_%s.smt2'%(re.sub(r'\W','_',l),n,w),'w').write(solve.smt2(eng.background,o.facts,g))
