"""matrix.py [id...]: runs the check of each seeded bug's property against a scratch copy that has the bug."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/mxwt"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
if not os.path.isdir(WT): sh("git clone -q /repo %s" % WT)
sh("git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", cwd=WT)
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    sh("git checkout -q -- .", cwd=WT)
    r = sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=WT)
    if r.returncode: print(i, "patch does not apply"); continue
    t = time.time()
    env = dict(os.environ, VERIF_REPO=WT, VERIF_BUILD="/tmp/mxbuild", VERIF_OUT="/tmp/mxout", VERIF_SEED="1", VERIF_TIER="quick")
    r = sh("python3 %s/checks/run.py %s" % (V, m["property"]), env=env, cwd=V)
    out = r.stdout.decode(errors="replace")
    print(i, m["property"], "CAUGHT" if r.returncode == 1 and "VIOLATION property=" in out else "MISSED rc=%d" % r.returncode,
          "%.0fs" % (time.time() - t), "" if r.returncode in (0, 1) else out[-1500:], flush=True)
sh("git checkout -q -- .", cwd=WT)
