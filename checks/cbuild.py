"""Builds and runs a C/C++ harness together with /repo's current library sources."""
import os, json, glob, subprocess, concurrent.futures as cf

SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
REPO_FLAGS = ["-std=gnu11", "-g", "-O1", "-w", "-DSAFE_CLEAN", "-ftrivial-auto-var-init=pattern"]
HARN_FLAGS = ["-std=gnu++17", "-g", "-O1", "-w"]

class BuildError(Exception): pass

def compile_all(env, jobs):
    def one(j):
        r = env["sh"](j)
        return j, r
    with cf.ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode != 0:
                raise BuildError(" ".join(j)[:1500] + "\n" + "\n".join(l for l in r.stdout.splitlines() if "error" in l or "undefined" in l or "multiple" in l)[:3000])

def run_harness(env, srcs, repo_srcs=None, san=SAN, repo_extra=(), harn_extra=(), libs=("-lgmp",), repo_cc="gcc",
                link_extra=(), args=(), extra_objs=()):
    V, R, W = env["V"], env["REPO"], env["W"]
    if repo_srcs is None:
        repo_srcs = sorted(glob.glob(R + "/src/*.c"))
    jobs, objs = [], []
    for s in repo_srcs:
        o = W + "/r_" + os.path.basename(s) + ".o"; objs.append(o)
        jobs.append([repo_cc, *REPO_FLAGS, *san, *repo_extra, "-I", R + "/include", "-I", R + "/src", "-c", s, "-o", o])
    for s in srcs:
        o = W + "/h_" + os.path.basename(s) + ".o"; objs.append(o)
        if s.endswith(".c"):
            jobs.append(["gcc", "-std=gnu11", "-g", "-O1", "-w", *san, *harn_extra, "-I", R + "/include", "-I", V + "/lib", "-c", V + "/checks/" + s, "-o", o])
        else:
            jobs.append(["g++", *HARN_FLAGS, *san, *harn_extra, "-I", R + "/include", "-I", V + "/lib", "-I", V + "/checks", "-c", V + "/checks/" + s, "-o", o])
    compile_all(env, jobs)
    exe = W + "/harness"
    compile_all(env, [["g++", *san, *objs, *extra_objs, "-o", exe, *link_extra, *libs, "-lpthread"]])
    out = W + "/out.json"
    cmd = [exe, "--tier", env["tier"], "--out", out, "--scratch", W, "--jobs", str(os.environ.get("VERIF_JOBS", "8")), *args]
    for k in env["known"]: cmd += ["--known", k]
    if os.environ.get("VERIF_ONLY"): cmd += ["--only", os.environ["VERIF_ONLY"]]
    if env["replay"]: cmd += ["--replay", env["replay"]["unit"], str(env["replay"]["case"])]
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=65536:malloc_fill_byte=190:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16"
    e["VERIF_DIR"] = V; e["VERIF_SRC"] = R; e["VERIF_W"] = W
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if env["replay"]:
        return dict(violations=[1] if r.returncode == 1 else [], text=r.stdout)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise BuildError("harness ended with %s\n%s" % (r.returncode, r.stdout[-3000:]))
    res = json.load(open(out))
    if r.stdout.strip(): print(r.stdout[-2000:])
    return res

def harness(*srcs, **kw):
    return lambda env: run_harness(env, srcs, **kw)
