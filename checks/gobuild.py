"""Builds the Go package from /repo's current sources (library included, with the address sanitizer) with the harness of checks/go and runs all units."""
import os, sys, json, glob, struct, subprocess, shutil, time, hashlib
from checks import cbuild

HANG = 120
def build(env):
    V, R, W = env["V"], env["REPO"], env["W"]
    lib, gp = W + "/lib", W + "/gopath"
    os.makedirs(lib); os.makedirs(gp + "/src/ecgo"); os.makedirs(gp + "/src/vp")
    cc = ["gcc", "-std=gnu11", "-g", "-O1", "-w", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer", "-DSAFE_CLEAN", "-ftrivial-auto-var-init=pattern", "-I", R + "/include", "-I", R + "/src"]
    jobs, objs = [], []
    for s in sorted(glob.glob(R + "/src/*.c")):
        o = lib + "/" + os.path.basename(s) + ".o"; objs.append(o); jobs.append([*cc, "-c", s, "-o", o])
    cbuild.compile_all(env, jobs)
    cbuild.compile_all(env, [["gcc", "-shared", "-fsanitize=address", *objs, "-o", lib + "/libecc.so", "-lgmp"]])
    for s in glob.glob(R + "/ecgo/*.go"):
        if not s.endswith("_test.go"): shutil.copy(s, gp + "/src/ecgo/")
    for s in glob.glob(V + "/checks/go/*"): shutil.copy(s, gp + "/src/vp/")
    e = dict(os.environ, GOPATH=gp, GO111MODULE="off", GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local", GOCACHE=W + "/gocache", CGO_ENABLED="1", HOME=os.environ.get("HOME", "/root"),
             CGO_CFLAGS="-g -O1 -w -I%s/include -fsanitize=address -finstrument-functions" % R, CGO_LDFLAGS="-L%s -fsanitize=address" % lib)
    r = subprocess.run(["go", "build", "-o", W + "/vp", "vp"], env=e, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode: raise cbuild.BuildError("go build failed\n" + r.stdout[-4000:])
    subprocess.run(["chmod", "-R", "u+rwX", W + "/gocache"]); shutil.rmtree(W + "/gocache", ignore_errors=True)
    return dict(os.environ, LD_LIBRARY_PATH=lib, ASAN_OPTIONS="detect_leaks=0:exitcode=77:max_malloc_fill_size=4096:malloc_fill_byte=190:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:quarantine_size_mb=16", GOTRACEBACK="single", GOMAXPROCS="2")

class Run:
    def __init__(s, W, e, check, tier, u, start, stop, tag):
        s.u, s.start, s.shm, s.out, s.err = u, start, "%s/s%s" % (W, tag), "%s/o%s.json" % (W, tag), "%s/e%s" % (W, tag)
        open(s.shm, "wb").write(struct.pack("q", start) + bytes(4088))
        s.p = subprocess.Popen([W + "/vp", "-check", check, "-tier", tier, "-unit", str(u), "-start", str(start), "-stop", str(stop), "-shm", s.shm, "-out", s.out], env=e, stdin=subprocess.DEVNULL, stdout=open(s.err, "w"), stderr=subprocess.STDOUT)
        s.last, s.beat, s.hung = -1, time.time(), False
    def where(s):
        b = open(s.shm, "rb").read(); return struct.unpack("q", b[:8])[0], b[16:].split(b"\0")[0].decode("utf8", "replace")
    def poll(s):
        c, _ = s.where()
        if c != s.last: s.last, s.beat = c, time.time()
        if time.time() - s.beat > HANG and not s.hung: s.hung = True; s.p.kill()
        return s.p.poll()
    def result(s):
        """(json or None, description of the crash)"""
        if s.p.returncode == 0 and os.path.exists(s.out): return json.load(open(s.out)), None
        ls = [l.strip() for l in open(s.err, errors="replace") if l.strip()]
        key = [l for l in ls if "Assert" in l or "ERROR: Add" in l or "fatal error" in l or "SIG" in l or l.startswith("panic") or "double-free" in l]
        fr = [l for l in ls if " in " in l and ("/src/" in l or "ecgo" in l) and l.startswith("#")][:6]
        c, n = s.where()
        return None, (c, "%s %s: %s" % (n, "does not end within %d s" % HANG if s.hung else "ended the process", " | ".join(dict.fromkeys(key[:3] + fr))[:900] or " | ".join(ls[-3:])[:500]))

def run_go(env, check):
    W, tier = env["W"], env["tier"]; e = build(env)
    names = subprocess.check_output([W + "/vp", "-check", check, "-tier", tier, "-list"], env=e, text=True).splitlines()
    if env["replay"]:
        u, k = names.index(env["replay"]["unit"]), env["replay"]["case"]; text = ""; bad = []
        for start in (k, 0):
            r = Run(W, e, check, tier, u, start, k, "r%d" % start)
            while r.poll() is None: time.sleep(0.05)
            res, crash = r.result()
            if res is None: bad.append(crash[1])
            else: bad += [v[1] for v in res["Viol"] or []]
            if bad: break
        return dict(violations=bad, text="\n".join(bad) or "held")
    S = dict(states=0, transitions=0, traces=0, outcomes=0, units_total=len(names), units_complete=0, violations=[], samples=[], notes=[], known=[], per_unit=[])
    only = os.environ.get("VERIF_ONLY"); order = [i for i, n in enumerate(names) if not only or only in n]
    run = []; jobs = int(os.environ.get("VERIF_JOBS", "8")); bad = {}; crashes = {}; tag = 0
    def viol(u, case, msg):
        bad[u] = 1
        if len(S["violations"]) < 20: S["violations"].append(dict(unit=names[u], case=case, message=msg))
    while order or run:
        while order and len(run) < jobs:
            if len(S["violations"]) >= 20: order = []; break
            tag += 1; run.append(Run(W, e, check, tier, order.pop(0), 0, -1, tag))
        time.sleep(0.02)
        for r in list(run):
            if r.poll() is None: continue
            run.remove(r); res, crash = r.result()
            if res is None:
                viol(r.u, crash[0], crash[1]); crashes[r.u] = crashes.get(r.u, 0) + 1
                if crashes[r.u] < 4: tag += 1; run.append(Run(W, e, check, tier, r.u, crash[0] + 1, -1, tag))
                continue
            n = int(res["Names"][0]); S["states"] += n; S["traces"] += n; S["transitions"] += res["Trans"]; S["outcomes"] += 1
            for v in res["Viol"] or []: viol(r.u, v[0], v[1])
            S["samples"] += [names[r.u] + ": " + x for x in res["Samples"] or []][:1] if len(S["samples"]) < 40 else []
            S["per_unit"].append("%s: %d cases, %.1f s" % (names[r.u], n, res["Secs"]))
            if res["Done"] and r.u not in bad: S["units_complete"] += 1
            for f in (r.shm, r.out, r.err): os.unlink(f)
    return S

def go(check): return lambda env: run_go(env, check)
