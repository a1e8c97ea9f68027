import sys, json, time
from build import build
from runner import run_all
from tla import judge
import gen_elf, gen_core, gen_expr, gen_data, gen_sym, gen_ins, gen_mac, gen_arm, gen_front
G={'C12':gen_expr.program,'C14':gen_data.program,'C15':gen_data.tables,'C07':gen_sym.program,'C20':gen_ins.program20,'C19':gen_ins.program19,'C21':gen_ins.program21,'C16':gen_mac.program,'C17':gen_arm.program17,'C18':gen_arm.program18,'C19a':gen_arm.program19,'C10':gen_front.program10,'C13':gen_front.program13,'C11':gen_front.program11,'C08f':gen_front.program08,'C22':gen_elf.program,'C22p':lambda s: gen_elf.program(s,'psx')}
MOD={'C20':'InsRun','C19':'InsRun','C21':'InsRun','C16':'MacRun','C17':'ArmRun','C18':'ArmRun','C19a':'ArmRun','C22':'ElfRun','C22p':'ElfRun'}
binary = build()
prof, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ps = [(G[prof]("%s/%d/%d" % (prof, seed, i)) if prof in G else gen_core.program("%s/%d/%d" % (prof, seed, i), prof)) for i in range(n)]
t=time.time(); jobs=[p.job(binary) for p in ps]; obs = run_all(jobs); print("run", time.time()-t)
cases=[p.case(o) for p,o in zip(ps,obs)]
t=time.time(); res, st = judge(MOD.get(prof,"Front" if prof in ("C10","C11","C13","C08f") else "AsmRun"), cases); print("tlc", time.time()-t, st["states"], "outside", sum(1 for x in st["info"] if x==["outside"]), "ok", sum(1 for o in obs if o["rc"]==0))
bad=[i for i,r in enumerate(res) if r]
import collections
print(len(bad), collections.Counter(tuple(sorted(res[i]["why"])) for i in bad))
if prof in MOD:
    for i in bad[:int(sys.argv[4]) if len(sys.argv)>4 else 4]:
        print("=== case", i, {k:v for k,v in res[i].items() if k!="exp"}, "rc", obs[i]["rc"])
        b=cases[i]["obs"].get("bytes",[]); ex=iter(res[i].get("exp",[]))
        for k,l in enumerate(jobs[i]["src"]["main.asm"].decode().split("\n")): print("%3d %s"%(k+1,l))
        print(obs[i]["out"].decode()[:1500])
        for l,e in zip(cases[i].get("lines",[]),res[i].get("exp",[])):
            if l["k"]=="ins" and l["ln"] in res[i].get("bad",[]): print(l["ln"],"exp",[bytes(x).hex() for x in e])
        print("got",[(x["o"],bytes(x["b"]).hex()[:300]) for x in b])
    sys.exit()
for i in bad[:int(sys.argv[4]) if len(sys.argv)>4 else 2]:
    print("=== case", i, res[i]["why"], "expect ok", res[i]["ok"], "rc", obs[i]["rc"], "pass", res[i]["pass"])
    for n,b in jobs[i]["src"].items():
        print(n)
        for k,l in enumerate(b.decode(errors="replace").split("\n")): print("%3d %s"%(k+1,l))
    print(obs[i]["out"].decode()); print("exp diag", sorted(res[i]["diag"]), res[i]["u"]); print("obs", sorted(obs[i]["d"]))
    if "files" in res[i]["why"]:
        ef={bytes(a).decode():bytes(b) for a,b in res[i]["files"]}
        for n in sorted(set(ef)|set(obs[i]["files"])):
            a,b=ef.get(n),obs[i]["files"].get(n)
            if a!=b: print(n,"\n exp",a and a.hex(),"\n got",b and b.hex())
    if "list" in res[i]["why"] or "sym" in res[i]["why"]:
        c=cases[i]["obs"]
        f=lambda r:("%x"%(r["a"][0]|r["a"][1]<<16),r["w"],r["x"],r["f"],r["l"])
        e=[f(r) for r in res[i]["lst"]]; o=[f(r) for r in c["lst"]]
        for k in range(max(len(e),len(o))):
            a=e[k] if k<len(e) else None; b=o[k] if k<len(o) else None
            if not a or not b or a[:3]!=b[:3] or (a[3]!=-1 and a[3:]!=b[3:]): print("LST exp",a,"got",b)
        e=[(tuple(a),bytes(t)) for a,t in res[i]["sym"]]; o=[(tuple(a),bytes(t)) for a,t in c["sym"]]
        for x in e:
            if x not in o: print("SYM missing",x)
        for x in o:
            if x not in e: print("SYM extra",x)
        print(o)
