"""Runs TLC on a specification with a file of cases; collects the verdicts."""
import json, os, re, subprocess, shutil, tempfile, hashlib
from build import VERIF, BUILD

JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(os.environ.get("VERIF_OUT", VERIF), "work")

class ToolError(Exception):
    pass

def classes():
    d = os.path.join(SPEC, "java", "vf")
    src = [os.path.join(d, n) for n in sorted(os.listdir(d)) if n.endswith(".java")]
    h = hashlib.sha256(b"".join(open(n, "rb").read() for n in src)).hexdigest()[:16]
    out = os.path.join(BUILD, "classes-" + h)
    if not os.path.exists(os.path.join(out, ".done")):
        os.makedirs(out, exist_ok=True)
        r = subprocess.run(["javac", "-cp", JAR + ":" + DEPS, "-d", out] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ToolError("javac: " + r.stdout.decode())
        open(os.path.join(out, ".done"), "w").close()
    return out

def run_tlc(module, env=None, workers=8, timeout=800, heap="8g", cfg=None, extra=(), accel=True):
    """Returns TLC's output; raises ToolError unless it finished without any error."""
    os.makedirs(WORK, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc", dir=WORK)
    tmp = os.path.join(meta, "tmp")
    os.makedirs(tmp)
    cls = classes()
    e = dict(os.environ)
    e.update(env or {})
    e["SPECDIR"] = SPEC
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides" + (":vf.I64Overrides" if accel else ""),
           "-DTLA-Library=" + SPEC,
           "-cp", cls + ":" + JAR + ":" + DEPS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", os.path.join(SPEC, cfg or module + ".cfg")] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if "Model checking completed. No error has been found." not in out:
        k = out.find("Error:")
        if "Invariant" in out:
            os.makedirs(WORK, exist_ok=True)
            open(os.path.join(WORK, "tlc-error.txt"), "w").write(out)
        raise ToolError("TLC failed on %s:\n%s" % (module, (out[-2500:] if "analysis failed" in out else out[k:k + 1200] + out[-800:]) if k >= 0 else out[-2500:]))
    return out

def front(cases, timeout):
    """First stage of the cases that are source text: spec/Front turns them into command lists.  Returns (cases for Asm, kept indices, states)."""
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix="f", dir=WORK)
    try:
        p = os.path.join(d, "cases.json")
        with open(p, "w") as f:
            json.dump([{k: c[k] for k in ("srcs", "files", "labels", "equs")} for c in cases], f)
        out = run_tlc("FrontRun", {"CASES": p, "OUTDIR": d}, timeout=timeout)
        res, keep = [], []
        for i, c in enumerate(cases):
            q = os.path.join(d, "cmd%d.json" % (i + 1))
            if not os.path.exists(q):
                raise ToolError("no command list for case %d" % i)
            r = json.load(open(q))
            # text outside of the specification
            if r["odd"] or (r["open"] and not r["deep"]):
                continue
            n = {k: v for k, v in c.items() if k not in ("srcs", "equs")}
            # nesting without end is an error, wherever it is reported
            n["prog"] = [{"op": "perr", "f": x[0], "l": x[1]} for x in c["obs"]["d"] if x[2] == "e"] or [{"op": "perr", "f": 0, "l": 0}] if r["deep"] else r["prog"]
            n["funcs"] = {} if "none" in r["funcs"] else r["funcs"]
            res.append(n)
            keep.append(i)
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        return res, keep, (int(m.group(1)), int(m.group(2)))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def judge(module, cases, workers=8, timeout=800, chunk=4000, cfg=None):
    """cases: list of JSON-able objects. Returns (verdicts, stats): per case None or the rejection record."""
    res = []
    stats = {"states": 0, "distinct": 0, "info": []}
    if module == "Front":
        for base in range(0, len(cases), chunk):
            part = cases[base:base + chunk]
            prog, keep, n = front(part, timeout)
            r, st = judge("AsmRun", prog, workers, timeout, chunk, cfg)
            v = [None] * len(part)
            info = [["outside"]] * len(part)
            for k, i in enumerate(keep):
                v[i], info[i] = r[k], st["info"][k]
            res += v
            stats["info"] += info
            stats["states"] += n[0] + st["states"]
            stats["distinct"] += n[1] + st["distinct"]
        return res, stats
    for base in range(0, len(cases), chunk):
        part = cases[base:base + chunk]
        os.makedirs(WORK, exist_ok=True)
        d = tempfile.mkdtemp(prefix="j", dir=WORK)
        try:
            p = os.path.join(d, "cases.json")
            with open(p, "w") as f:
                json.dump(part, f)
            out = run_tlc(module, {"CASES": p, "OUTDIR": d}, workers, timeout, cfg=cfg)
            ver = {}
            for m in re.finditer(r'"VERDICT (\d+) (\d+)([^"]*)"', out):
                ver[int(m.group(1))] = (int(m.group(2)), m.group(3).split())
            if len(ver) != len(part):
                raise ToolError("%s: %d verdicts for %d cases\n%s" % (module, len(ver), len(part), out[-3000:]))
            for i in range(1, len(part) + 1):
                n, info = ver[i]
                stats["info"].append(info)
                if n == 0:
                    res.append(None)
                else:
                    rp = os.path.join(d, "rej%d.json" % i)
                    res.append(json.load(open(rp)) if os.path.exists(rp) else {"why": ["rejected"]})
            m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
            if m:
                stats["states"] += int(m.group(1))
                stats["distinct"] += int(m.group(2))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return res, stats
