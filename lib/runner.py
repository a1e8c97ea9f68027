"""Runs the assembler on cases, each in a scratch directory of its own, and records what it did."""
import multiprocessing as mp
import os, re, resource, shutil, subprocess, tempfile

SCRATCH = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
DIAG = re.compile(rb"^(.+)\((\d+)\) (fatal error|error|warning|notice): ")
SEV = {b"fatal error": "e", b"error": "e", b"warning": "w", b"notice": "n"}

_limited = False
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 20, 1 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.nice(0)

def parse_diags(out, names):
    d = []
    bad = []
    for line in out.split(b"\n"):
        m = DIAG.match(line)
        if m:
            n = m.group(1).decode(errors="replace")
            idx = names.index(n) if n in names else -1
            x = [idx, int(m.group(2)), SEV[m.group(3)]]
            if x not in d:
                d.append(x)
        elif re.match(rb"^(fatal error|error|warning|notice): ", line):
            x = [-1, 0, SEV[line.split(b":")[0]]]
            if x not in d:
                d.append(x)
    return d

def place(job, d):
    for group in ("src", "files"):
        for n, b in job.get(group, {}).items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)

def collect(job, d, rc, out):
    obs = {"rc": rc, "out": out, "d": parse_diags(out, job.get("names", list(job["src"]))), "files": {}, "sym": None, "temp": None}
    for dp, _, fs in os.walk(d):
        for n in fs:
            rel = os.path.relpath(os.path.join(dp, n), d)
            with open(os.path.join(dp, n), "rb") as f:
                b = f.read(job.get("cap", 70000))
            if rel in job["src"] and b == job["src"][rel]:
                continue
            if rel == job.get("sym"):
                obs["sym"] = b
            elif rel == job.get("temp"):
                obs["temp"] = b
            else:
                obs["files"][rel] = b
    return obs

def execute(cmd, d, timeout):
    try:
        r = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, preexec_fn=None if _limited else _limits, close_fds=not _limited)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 999, b"timeout"

def run_one(job):
    """job: binary, src: {name: bytes}, main, files: {name: bytes}, args: [..], names: source names in order,
    sym, temp: output names to set apart.  Returns obs dict with bytes.
    A job with "runs" is a history: these jobs one after the other in one process (binary: the harness);
    each may have "mode" and "sched".  Its obs is that of the last one, with those of all in "runs"."""
    d = tempfile.mkdtemp(prefix="asm", dir=SCRATCH)
    try:
        if "runs" in job:
            os.makedirs(d + "/all")
            obs = run_history(job, d + "/all")
            if "alone" in job:
                obs["alone"] = []
                for i, j in enumerate(job["alone"]):
                    os.makedirs("%s/s%02d" % (d, i))
                    obs["alone"].append(run_history(j, "%s/s%02d" % (d, i)))
            return obs
        place(job, d)
        rc, out = execute([job["binary"], job["main"]] + job.get("args", []), d, job.get("timeout", 10))
        return collect(job, d, rc, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_history(job, d):
    lines = []
    for i, j in enumerate(job["runs"]):
        os.makedirs("%s/%02d" % (d, i))
        place(j, "%s/%02d" % (d, i))
        lines.append("\x1f".join(["%s/%02d" % (d, i), "%s/%02d.txt" % (d, i), j.get("mode", "cli"), j.get("sched", "-")]
                                 + ([] if "noinput" in j else [j["main"]]) + j.get("args", [])))
    with open(d + "/script", "w", newline="") as f:
        f.write("\n".join(lines) + "\n")
    rc, out = execute([job["binary"], d + "/script"], d, job.get("timeout", 10) + 2 * len(lines))
    codes = out.split(b"\n")[:-1]
    res = []
    for i, j in enumerate(job["runs"]):
        # what was not reached has no result; what ended the process has that of the process
        c = int(codes[i].split()[0]) if i < len(codes) and re.match(rb"^-?\d+ \d+ \d+$", codes[i]) else rc if i == len(codes) else 998
        t = "%s/%02d.txt" % (d, i)
        o = open(t, "rb").read(200000) if os.path.exists(t) else b""
        r = collect(j, "%s/%02d" % (d, i), c, o)
        r["root"] = "%s/%02d/" % (d, i)
        r["sched"] = [int(x) for x in codes[i].split()[1:]] if i < len(codes) and len(codes[i].split()) == 3 else []
        res.append(r)
    r = dict(res[-1])
    r["runs"] = res
    return r

MAX_TIMEOUTS = 12
_hung = None

def _init(hung):
    # the limits are inherited by the assembler
    global _limited, _hung
    _limits()
    _limited, _hung = True, hung

def _one(j):
    if _hung.value >= MAX_TIMEOUTS:
        return None
    o = run_one(j)
    if o["rc"] == 999:
        with _hung.get_lock():
            _hung.value += 1
    return o

def run_all(jobs, workers=8):
    """Observations in order; None for runs skipped because too many before them did not end."""
    hung = mp.Value("i", 0)
    with mp.Pool(workers, _init, (hung,)) as pool:
        return pool.map(_one, jobs, chunksize=8)
