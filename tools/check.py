#!/usr/bin/env python3
"""Runs the check of one property: rebuilds what it needs from /repo's working tree, then searches.

usage: check.py ID [quick|thorough] [--replay FILE] [--only SUB] [--scale X] [--seed N]
exit 0: property held on everything explored; exit 1 + VIOLATION line: broken; anything else: the check itself failed.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from registry import CHECKS, FLAVOURS

def sh(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)

def die(msg, log=None):
    print("CHECK-ERROR:", msg)
    if log and os.path.exists(log):
        with open(log, "rb") as f:
            print(f.read()[-4000:].decode("utf8", "replace"))
    sys.exit(3)

SRC_EXT = (".cpp", ".hpp", ".h", ".c", ".cc", ".hh", ".inl", ".in", ".txt", ".cmake", ".glsl")
def source_hashes():
    h = {}
    for top in ("/repo/modules", "/repo/3rdparty", "/repo/cmake", "/repo/apps", "/repo/samples"):
        for d, dirs, files in os.walk(top):
            dirs[:] = [x for x in dirs if x not in (".git", "data", "test")]
            for f in files:
                if f.endswith(SRC_EXT):
                    p = os.path.join(d, f)
                    with open(p, "rb") as fd:
                        h[p] = hashlib.sha1(fd.read()).hexdigest()
    with open("/repo/CMakeLists.txt", "rb") as fd:
        h["/repo/CMakeLists.txt"] = hashlib.sha1(fd.read()).hexdigest()
    return h

def drop_stale(flavour, bdir, hashes):
    """Build tools go by modification times; a source whose content changed without a newer time forces a clean build."""
    stamp = os.path.join(bdir, "vp_sources.json")
    if not os.path.exists(stamp):
        return
    try:
        old = json.load(open(stamp))
        t = os.path.getmtime(stamp)
        stale = set(old) != set(hashes) or any(hashes[p] != old[p] and os.path.getmtime(p) <= t + 1 for p in hashes)
    except (OSError, ValueError):
        stale = True
    if stale:
        for d in (bdir, os.path.join(ROOT, "build", "bin-" + flavour)):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)

def build_libs(flavour, libs):
    fl = FLAVOURS[flavour]
    bdir = os.path.join(ROOT, "build", flavour)
    os.makedirs(bdir, exist_ok=True)
    log = os.path.join(bdir, "vp_build.log")
    with open(os.path.join(ROOT, "build", ".lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hashes = source_hashes()
        drop_stale(flavour, bdir, hashes)
        open(log, "wb").close()
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            if sh([os.path.join(ROOT, "tools", "configure.sh"), bdir, fl["cxx"], fl["ld"]], log) != 0:
                die("configuring /repo failed", log)
        targets = ["lib/" + l for l in libs]
        if sh(["ninja", "-C", bdir] + targets, log) != 0:
            die("building /repo failed", log)
        with open(os.path.join(bdir, "vp_sources.json"), "w") as f:
            json.dump(hashes, f)
    return bdir

def build_harness(pid, flavour, bdir, spec):
    fl = FLAVOURS[flavour]
    src = os.path.join(ROOT, "harness", spec["src"])
    out = os.path.join(ROOT, "build", "bin-" + flavour)
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, os.path.splitext(spec["src"])[0])
    dep = exe + ".d"
    inc = []
    for m in ["utils", "features2d", "imgproc", "datasets", "video", "vptz", "world"]:
        inc += ["-I%s/modules/%s/include" % (bdir, m), "-I/repo/modules/%s/include" % m]
    inc += ["-I/repo/3rdparty/ofdis/include", "-I/repo/3rdparty/bsds500/include", "-I/usr/include/eigen3", "-I" + os.path.join(ROOT, "harness")]
    libs = []
    for l in spec["libs"]:
        libs.append(os.path.join(bdir, "lib", l))
    # static third-party archives come after the shared libs that need them
    cvlibs = ["-lopencv_" + x for x in ("core", "imgproc", "imgcodecs", "highgui", "features2d", "video", "videoio", "calib3d")]
    cmd = ["g++", "-std=gnu++14", "-DLITIV_BUILD", "-DLITIV_DEBUG=0", "-DNDEBUG", "-DLV_IMPORT_API", "-DDATASETS_LITIV2018_DATA_VERSION=2"] + inc + \
          ["-isystem", "/usr/include/opencv4", "-include", "/opt/vp/support/compat/opencv4_compat.hpp", "-fopenmp", "-w", "-fpermissive", "-march=x86-64-v3"] + \
          fl["cxx"].split() + spec.get("cxx", []) + ["-MD", "-MF", dep, "-rdynamic", src, "-o", exe] + libs + \
          ["-Wl,-rpath," + os.path.join(bdir, "lib"), "-Wl,--unresolved-symbols=ignore-in-shared-libs", "-Wl,--allow-shlib-undefined"] + cvlibs + ["-lGLU", "-lGLEW", "-lGL", "-lglfw", "-lpthread"]
    fresh = False
    if os.path.exists(exe) and os.path.exists(dep):
        t = os.path.getmtime(exe)
        deps = [d for d in open(dep).read().replace("\\\n", " ").split()[1:]] + libs + [os.path.join(ROOT, "tools", "check.py"), os.path.join(ROOT, "tools", "registry.py")]
        try:
            fresh = all(os.path.getmtime(d) <= t for d in deps)
        except OSError:
            fresh = False
    if not fresh:
        log = exe + ".log"
        open(log, "wb").close()
        if sh(cmd, log) != 0:
            die("compiling the harness against /repo failed", log)
    return exe

def main():
    a = sys.argv[1:]
    if not a or a[0] not in CHECKS:
        die("unknown property %r" % (a[:1],))
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if a and a[0] in ("quick", "thorough"):
        tier = a.pop(0)
    extra = {}
    while a:
        extra[a[0].lstrip("-")] = a[1]
        a = a[2:]
    seed = extra.get("seed", os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    ev = os.path.join(ROOT, "evidence", pid + ".json")
    if "replay" not in extra and "only" not in extra and os.path.exists(ev):
        os.remove(ev)
    rcs, outs = [], []
    for flavour, src in [(spec.get("flavour", "asan"), spec)]:
        bdir = build_libs(flavour, spec["libs"])
        exe = build_harness(pid, flavour, bdir, spec)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=32"
        env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
        env["OMP_NUM_THREADS"] = "2"
        env["OPENCV_LOG_LEVEL"] = "ERROR"
        env.pop("DISPLAY", None)
        tb = time.time() - t0
        cmd = [exe, "--prop", pid, "--tier", tier, "--seed", str(seed), "--replay-dir", rdir, "--known", os.path.join(ROOT, "known_findings.txt")]
        if "replay" in extra:
            cmd += ["--replay", extra["replay"]]
        else:
            cmd += ["--out", ev if "only" not in extra else "/dev/null"]
        extra.setdefault("scale", str(spec.get("qscale" if tier == "quick" else "tscale", 1)))
        for k in ("only", "scale", "jobs"):
            if k in extra:
                cmd += ["--" + k, extra[k]]
        print("[%s %s seed=%s] build %.1fs" % (pid, tier, seed, tb), flush=True)
        rc = subprocess.call(cmd, env=env)
    if "replay" in extra:
        sys.exit(rc)
    if rc not in (0, 1):
        die("runner ended with code %d" % rc)
    if os.path.exists(ev):
        j = json.load(open(ev))
        j["coverage"]["build_s"] = round(tb, 1)
        j["wall_s"] = round(time.time() - t0, 1)
        j["assumptions"] = spec.get("assumptions", [])
        json.dump(j, open(ev, "w"), indent=1)
    print("[%s] total %.1fs exit %d" % (pid, time.time() - t0, rc))
    sys.exit(rc)

if __name__ == "__main__":
    main()
