"""Builds the Python extension from /repo's current sources (library included, with the address sanitizer) and runs a Python driver on it."""
import os, sys, json, glob, subprocess, sysconfig
from checks import cbuild

def run_python(env, check, extra_link=()):
    V, R, W = env["V"], env["REPO"], env["W"]
    inc = sysconfig.get_paths()["include"]
    cc = ["gcc", "-std=gnu11", "-g", "-O1", "-w", "-fPIC", *cbuild.SAN, "-DSAFE_CLEAN", "-ftrivial-auto-var-init=pattern", "-I", R + "/include", "-I", R + "/python", "-I", R + "/src", "-I", inc]
    jobs, objs = [], []
    for s in sorted(glob.glob(R + "/src/*.c")) + sorted(glob.glob(R + "/python/*.c")):
        o = W + "/" + os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s) + ".o"; objs.append(o)
        jobs.append([*cc, "-c", s, "-o", o])
    cbuild.compile_all(env, jobs)
    so = W + "/ECC" + sysconfig.get_config_var("EXT_SUFFIX")
    cbuild.compile_all(env, [["gcc", "-shared", *cbuild.SAN, *objs, "-o", so, "-lgmp", *extra_link]])
    out = W + "/out.json"
    e = dict(os.environ)
    e["LD_PRELOAD"] = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=4096:malloc_fill_byte=190:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8"
    e["PYTHONMALLOC"] = "malloc"; e["PYTHONPATH"] = W; e["PYTHONDONTWRITEBYTECODE"] = "1"; e["PYTHONHASHSEED"] = "0"; e["PYTHONNOUSERSITE"] = "1"
    cmd = [sys.executable, "-S", V + "/checks/py/driver.py", "--check", check, "--tier", env["tier"], "--out", out, "--jobs", str(os.environ.get("VERIF_JOBS", "8"))]
    if env["replay"]: cmd += ["--replay", env["replay"]["unit"], str(env["replay"]["case"])]
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if env["replay"]: return dict(violations=[1] if r.returncode == 1 else [], text=r.stdout)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise cbuild.BuildError("driver ended with %s\n%s" % (r.returncode, r.stdout[-3000:]))
    if r.stdout.strip(): print(r.stdout[-2000:])
    return json.load(open(out))

def python(check, **kw): return lambda env: run_python(env, check, **kw)
