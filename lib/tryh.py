import sys, time
from build import build
from runner import run_all
from tla import judge
import gen_hist
n, seed = int(sys.argv[1]), sys.argv[2]
mod = sys.argv[3] if len(sys.argv) > 3 else "HistRun"
b = build("harness")
t=time.time()
its = gen_hist.histories(seed, n) if mod == "HistRun" else gen_hist.after(mod)(seed, n)
print("gen", time.time()-t); t=time.time()
jobs=[i.job(b) for i in its]; obs=run_all(jobs); print("run", time.time()-t); t=time.time()
cases=[i.case(o) for i,o in zip(its,obs)]
res, st = judge(mod, cases); print("tlc", time.time()-t)
bad=[i for i,r in enumerate(res) if r]
print(len(bad), "giveups", sum(x["sched"][1] for o in obs for x in o["runs"] if x["sched"]), "switches", sum(x["sched"][0] for o in obs for x in o["runs"] if x["sched"]))
for i in bad[:int(sys.argv[4]) if len(sys.argv)>4 else 4]:
    print("=====", i, res[i].get("why"))
    for k,j in enumerate(jobs[i]["runs"]):
        o=obs[i]["runs"][k]
        a=obs[i]["alone"][k] if "alone" in obs[i] else None
        w = mod != "HistRun" or any(x.startswith(str(k+1)+" ") for x in res[i]["why"])
        print("--- run", k+1, j.get("mode"), j.get("args"), j.get("sched","")[:60], "rc", o["rc"], "DIFFERS" if w else "")
        print(j["src"].get("main.asm",b"(none)").decode(errors="replace")[:700])
        if w:
            print("got:", o["out"].decode(errors="replace")[:500])
            if a:
                print("alone:", a["rc"], a["out"].decode(errors="replace")[:500])
                for n in set(o["files"])|set(a["files"]):
                    if o["files"].get(n)!=a["files"].get(n): print(n, o["files"].get(n,b"")[:60], a["files"].get(n,b"")[:60])
                if o["sym"] is not None and o["sym"]!=a["sym"]: print("SYM", o["sym"][:500], a["sym"][:500])
                if o["temp"] is not None and o["temp"].replace(o["root"].encode(),b"")!=a["temp"].replace(a["root"].encode(),b""): print("TEMP", o["temp"][:900].decode(errors="replace"), "\n", a["temp"][:900].decode(errors="replace"))
