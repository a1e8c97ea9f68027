import sys, re, collections
from build import build
from runner import run_all
import gen_core
b=build()
for prof in sys.argv[1:]:
    ps=[gen_core.program("%s/%d/%d"%(prof,1,i),prof) for i in range(800)]
    obs=run_all([p.job(b) for p in ps])
    c=collections.Counter()
    for o in obs:
        if o["rc"]==1:
            errs=set(re.sub(r'[0-9A-Fx"-]+','#',l.split(": ",1)[1])[:50] for l in o["out"].decode().split("\n") if "error: " in l)
            for e in errs: c[e]+=1
            if len(errs)==1: c["only "+list(errs)[0]]+=1
    print(prof, sum(o["rc"]==0 for o in obs)); 
    for k,v in c.most_common(14): print("   ",v,k)
