"""Builds the example programs' shared sources (and, for X01, the programs themselves) with the library."""
import glob, os, shutil, subprocess
from checks import cbuild
LIBS = ("-lgmp", "-ltasn1", "-lpopt", "-lb64", "-lsodium")
def examples(src, programs=False, **kw):
    def run(env):
        R, W = env["REPO"], env["W"]; E = R + "/examples"; tabs = []
        for a in ("ecdhe", "elgamal"):
            shutil.copy(f"{E}/{a}.asn", W)
            r = subprocess.run(["asn1Parser", a + ".asn"], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            t = f"{W}/{a}_asn1_tab.c"
            if r.returncode or not os.path.exists(t): raise cbuild.BuildError("asn1Parser: " + r.stdout)
            tabs.append(t)
        inc = ("-I", E)
        if programs:
            os.makedirs(W + "/bin", exist_ok=True); os.makedirs(W + "/po", exist_ok=True); jobs, objs = [], []
            flags = [*cbuild.REPO_FLAGS, *cbuild.SAN, "-I", R + "/include", "-I", R + "/src", *inc]
            mains = [f for f in sorted(glob.glob(E + "/*.c")) if " main(" in open(f, errors="replace").read()]
            shared = [f for f in sorted(glob.glob(E + "/*.c")) if f not in mains and not f.endswith("_asn1_tab.c")] + tabs + sorted(glob.glob(R + "/src/*.c"))
            for f in mains + shared:
                jobs.append(["gcc", *flags, "-c", f, "-o", f"{W}/po/{os.path.basename(f)}.o"])
            cbuild.compile_all(env, jobs)
            so = [f"{W}/po/{os.path.basename(f)}.o" for f in shared]
            cbuild.compile_all(env, [["gcc", *cbuild.SAN, f"{W}/po/{os.path.basename(f)}.o", *so, "-o", f"{W}/bin/{os.path.basename(f)[:-2]}", *LIBS, "-lpthread"] for f in mains])
        srcs = sorted(glob.glob(R + "/src/*.c")) + [f"{E}/{f}.c" for f in ("ecdh_der", "elgamal_der", "b64file")] + tabs
        return cbuild.run_harness(env, [src], repo_srcs=srcs, repo_extra=inc, harn_extra=inc, libs=LIBS, **kw)
    return run
