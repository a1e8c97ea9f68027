"""Builds the assembler from /repo's current working tree, out of tree, with ccache."""
import os, subprocess, sys, hashlib, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

class BuildError(Exception):
    pass

def _run(cmd, env, log):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    log.append("$ " + " ".join(cmd) + "\n" + r.stdout.decode(errors="replace"))
    return r.returncode == 0

def _env():
    env = dict(os.environ)
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS"):
        env.pop(k, None)
    env.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="",
               CCACHE_MAXSIZE="400M", LC_ALL="C.UTF-8", HOME=env.get("HOME", "/root"))
    return env

def source_hash():
    h = hashlib.sha256()
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "Tests"))
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()

def build(target="cli"):
    """Returns the path of the freshly built assembler (or harness)."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(target)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def _build(target):
    log = []
    env = _env()
    want = source_hash()
    cm = os.path.join(BUILD, "cm")
    stamp = os.path.join(BUILD, "stamp-" + target)
    binary = os.path.join(cm, "armips") if target == "cli" else os.path.join(BUILD, "harness")
    hsrc = os.path.join(VERIF, "harness", "harness.cpp")
    if target != "cli":
        want += hashlib.sha256(open(hsrc, "rb").read()).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(binary):
        return binary
    if os.path.exists(stamp):
        os.unlink(stamp)
    # a fresh build directory on each change: mtimes in /repo mean nothing, ccache goes by content
    other = [t for t in ("cli", "harness") if t != target and os.path.exists(os.path.join(BUILD, "stamp-" + t))
             and open(os.path.join(BUILD, "stamp-" + t)).read()[:64] == want[:64] and os.path.exists(os.path.join(cm, "armips"))]
    if not other:
        shutil.rmtree(cm, ignore_errors=True)
    launcher = ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"] if shutil.which("ccache") else []
    ok = _run(["cmake", "-S", REPO, "-B", cm, "-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc",
               "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_BUILD_TYPE=None",
               "-DCMAKE_CXX_FLAGS=-O1 -Wno-error -w", "-DARMIPS_USE_STD_FILESYSTEM=ON"] + launcher, env, log)
    ok = ok and _run(["ninja", "-C", cm, "armips-bin"], env, log)
    if not ok or not os.path.exists(os.path.join(cm, "armips")):
        raise BuildError("\n".join(log)[-6000:])
    if target != "cli":
        objs = []
        for src in (hsrc, os.path.join(REPO, "Main/CommandLineInterface.cpp")):
            objs.append(os.path.join(BUILD, os.path.basename(src) + ".o"))
            ok = ok and _run((["ccache"] if launcher else []) + ["/usr/bin/g++", "-std=c++17", "-O1", "-w",
                             "-DARMIPS_USE_STD_FILESYSTEM", "-DARMIPS_REGEXP=1", "-I", REPO,
                             "-I", os.path.join(REPO, "ext/tinyformat"), "-c", src, "-o", objs[-1]], env, log)
        ok = ok and _run(["/usr/bin/g++"] + objs + [os.path.join(cm, "libarmips.a"), "-lpthread", "-ldl", "-o", binary], env, log)
        if not ok:
            raise BuildError("\n".join(log)[-6000:])
    with open(stamp, "w") as f:
        f.write(want)
    return binary

if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "cli"))
