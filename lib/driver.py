"""Runs the suites of one property: generate, run the assembler, judge with TLC, report."""
import collections, hashlib, json, os, shutil, sys, time
from build import build, BuildError, VERIF
from runner import run_all, run_one
from tla import judge, run_tlc, ToolError, WORK

OUT = os.environ.get("VERIF_OUT", VERIF)
EVID = os.path.join(OUT, "evidence")
REPL = os.path.join(OUT, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")

def jsonable(o):
    if isinstance(o, bytes):
        try:
            return o.decode("ascii")
        except UnicodeDecodeError:
            return {"hex": o.hex()}
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    return o

class Suite:
    """name; module: TLA+ module that judges; items(seed, n): objects with job(binary) and case(obs)."""
    def __init__(self, name, module, items, quick, thorough, binary="cli", chunk=4000, timeout=600):
        self.name, self.module, self.items, self.n = name, module, items, {"quick": quick, "thorough": thorough}
        self.binary, self.chunk, self.timeout = binary, chunk, timeout

def write_replay(prop, suite, seed, idx, item, job, obs, rej):
    d = os.path.join(REPL, prop, "%s-%s-%d" % (suite.name, seed, idx))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for g in ("src", "files"):
        for n, b in job.get(g, {}).items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
    info = {"property": prop, "suite": suite.name, "seed": seed, "index": idx,
            "command": ["armips", job.get("main", "")] + job.get("args", []), "why": rej.get("why"),
            "specification": rej, "observed": {k: v for k, v in obs.items()}}
    with open(os.path.join(d, "report.json"), "w") as f:
        json.dump(jsonable(info), f, indent=1)
    return d

def known():
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known:"):
                r.append(l)
    return r

def run(prop, suites, level, rule, extra=None, assumptions=()):
    """extra: functions (tier, seed) -> dict of coverage counts with optional 'violations': [text]."""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVID, exist_ok=True)
    ev = os.path.join(EVID, prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "distinct_nontrivial": 0,
           "rule": rule, "samples": [], "suites": {}}
    violations = []
    try:
        bins = {}
        for s in suites:
            if s.binary not in bins:
                bins[s.binary] = build(s.binary)
        for s in suites:
            ts = time.time()
            items = s.items(seed, s.n[tier])
            jobs = [it.job(bins[s.binary]) for it in items]
            obs = run_all(jobs)
            keep = [i for i, o in enumerate(obs) if o is not None]
            items, jobs, obs = ([x[i] for i in keep] for x in (items, jobs, obs))
            # a crash or a time-out may be the machine's doing: such runs are repeated alone
            for i, o in enumerate(obs):
                if o["rc"] not in (0, 1):
                    obs[i] = run_one(jobs[i])
            cases = [it.case(o) for it, o in zip(items, obs)]
            res, st = judge(s.module, cases, timeout=s.timeout, chunk=s.chunk)
            bad = [i for i, r in enumerate(res) if r]
            # what is rejected is observed again before it is reported
            again = []
            for i in bad[:40]:
                o = run_one(jobs[i])
                again.append((i, o, items[i].case(o)))
            confirmed = []
            if again:
                res2, _ = judge(s.module, [c for _, _, c in again], timeout=s.timeout, chunk=s.chunk)
                confirmed = [(i, o, r) for (i, o, _), r in zip(again, res2) if r]
                if not confirmed:
                    raise ToolError("rejections of %s/%s did not recur" % (prop, s.name))
            for i, o, r in confirmed[:5]:
                violations.append(write_replay(prop, s, seed, i, items[i], jobs[i], o, r))
            srcs = set()
            nontriv = 0
            for j, o in zip(jobs, obs):
                h = hashlib.sha256(repr((sorted(j.get("src", {}).items()), sorted(j.get("files", {}).items()), j.get("args"))).encode()).digest()
                if h not in srcs:
                    srcs.add(h)
                    if o["rc"] == 0 or o["d"]:
                        nontriv += 1
            okn = sum(1 for o in obs if o["rc"] == 0)
            cov["suites"][s.name] = {"programs": len(items), "distinct": len(srcs), "assembled": okn, "rejected_by_assembler": len(items) - okn,
                                     "states": st["distinct"], "not_conforming": len(bad), "wall_s": round(time.time() - ts, 1)}
            cov["states"] += st["distinct"]
            cov["transitions"] += st["states"]
            cov["traces_validated_against_impl"] += len(items)
            cov["evaluations"] += len(items)
            cov["distinct_nontrivial"] += nontriv
            for j in ([k for k in range(len(obs)) if obs[k]["rc"] == 0][:1] + [k for k in range(len(obs)) if obs[k]["rc"] == 1][:1]):
                cov["samples"].append({"suite": s.name, "source": jsonable(jobs[j].get("src", {})), "exit": obs[j]["rc"],
                                       "diagnostics": obs[j]["out"][:300].decode(errors="replace")})
        for f in extra or ():
            r = f(tier, seed)
            for v in r.pop("violations", []):
                violations.append(v)
            cov["states"] += r.pop("states", 0)
            cov["transitions"] += r.pop("transitions", 0)
            cov["traces_validated_against_impl"] += r.pop("traces", 0)
            cov["suites"].update(r)
    except (BuildError, ToolError) as e:
        print("ERROR: %s" % str(e)[:6000])
        return 2
    rec = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": list(assumptions),
           "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(ev, "w") as f:
        json.dump(rec, f, indent=1)
    for k in known():
        if "property=%s " % prop in k + " ":
            print("KNOWN-FINDING: " + k[len("known:"):].strip())
    for n, s in cov["suites"].items():
        print("%s %s: %s" % (prop, n, json.dumps(s)))
    if violations:
        for v in violations:
            print("VIOLATION property=%s replay=%s" % (prop, v))
        return 1
    print("%s: held on %d programs (%d specification states), %.1f s" % (prop, cov["traces_validated_against_impl"], cov["states"], time.time() - t0))
    return 0
