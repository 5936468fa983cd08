"""Executes every case of every unit of the Python checks, each unit in forked children so that a crash of the
interpreter is an observation:  driver.py --check Y01|Y02 --tier T --out F [--jobs N] [--replay UNIT CASE]"""
import sys, os, json, mmap, struct, time, signal, traceback, hashlib, resource, gc
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
A = dict(zip(sys.argv[1::1], sys.argv[2::1]))
TIER = A.get("--tier", "quick"); T = TIER == "thorough"; CHECK = A["--check"]; JOBS = int(A.get("--jobs", "8"))
import ECC
from pool import CURVES, load_curves
load_curves()
HANG = 60
MAXV = 6

class Bad(Exception): pass
def holds(o, tag):
    k = tag[0]
    if k == "fe": return int(o) == tag[1] and repr(o).endswith(", %d)" % tag[2])
    if k == "pt": return o.uncompressed() == CURVES[tag[1]].enc(tag[2], False)
    if k == "cv": return o.n == CURVES[tag[1]].n and o.G == CURVES[tag[1]].G and o.p == CURVES[tag[1]].p
    if k == "sig":
        L = (CURVES[tag[1]].n.bit_length() + 7) // 8
        return o.AsBytes() == tag[2].to_bytes(L, "big") + tag[3].to_bytes(L, "big")
    if k == "ct": c = CURVES[tag[1]]; return str(o) == "(%s, %s)" % (c.enc(tag[2]).hex().upper(), c.enc(tag[3]).hex().upper())
    return True
def run_y01(case):
    label, vs, call, verdict = case
    args = [v.make() for v in vs]
    try: r = call(*args); raised = None
    except SystemError as e: raise Bad("%s(%s) broke the calling protocol of the interpreter: %s" % (label, ",".join(v.name for v in vs), e))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)): raise Bad("%s(%s) raised %r" % (label, ",".join(v.name for v in vs), e))
        raised = e
    what = "%s(%s)" % (label, ",".join(v.name for v in vs))
    if raised is not None:
        if verdict[0] == "must": raise Bad("%s raised %s: %s, but it has a value" % (what, type(raised).__name__, ascii(str(raised))[:200]))
        o = type(raised).__name__
    else:
        if verdict[0] == "raise": raise Bad("%s returned %s instead of raising" % (what, ascii(repr(r) if isinstance(r, (int, str, bytes, tuple, type(None))) else type(r))[:200]))
        if verdict[0] in ("must", "may"):
            e = verdict[1](r)
            if e: raise Bad("%s: %s" % (what, e))
        o = type(r).__name__
    for a, v in zip(args, vs):
        if not (label.startswith(("init after", "late"))) and not holds(a, v.tag): raise Bad("%s changed its argument %s" % (what, v.name))
    return o
if CHECK == "Y01":
    import cases; UNITS = cases.units(T); RUN = run_y01
else:
    import life; UNITS = life.units(T); RUN = life.run; Bad = life.Bad
ONLY = os.environ.get("VERIF_ONLY")
if ONLY: UNITS = [u for u in UNITS if ONLY in u[0]]

def child(u, start, stop, shm, out):
    """runs cases start.. of unit u; progress in shm: next case index, heartbeat count"""
    seen, outcomes, trans, viol = set(), set(), 0, []
    gc.collect(); gc.freeze()
    i = 0; done = False; sample = []; t0 = time.time()
    for case in UNITS[u][1]():
        if i >= start:
            shm[0:8] = struct.pack("q", i)
            try:
                o = RUN(case)
                n = 1
                if isinstance(o, tuple): o, n = o
                outcomes.add((case[0].split(" ")[0], o)); trans += n
                seen.add(hashlib.md5(repr((case[0], [v.name for v in case[1]])).encode("utf8", "backslashreplace")).digest()[:8])
                if len(sample) < 3 and i % 37 == 5: sample.append("%s(%s) -> %s" % (case[0], ",".join(v.name for v in case[1]), o))
            except Bad as e: viol.append((i, str(e)))
            except Exception as e:
                viol.append((i, "%s(%s): result cannot be used: %s" % (case[0], ",".join(v.name for v in case[1]), "".join(traceback.format_exception_only(e))[-300:].strip() + " at " + " < ".join("%s:%d" % (f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__)[-3:]))))
            if len(viol) >= MAXV or i == stop: i += 1; break
        i += 1
    else: done = True
    with open(out + ".tmp", "w") as f: json.dump(dict(secs=time.time() - t0, states=[s.hex() for s in seen], outcomes=sorted(map(str, outcomes)), trans=trans, viol=viol, next=i, done=done, sample=[ascii(s)[:300] for s in sample]), f)
    os.replace(out + ".tmp", out)

W = os.path.dirname(os.path.abspath(A["--out"]))
def spawn(u, start, stop, tag):
    shm = mmap.mmap(-1, 16); shm[0:8] = struct.pack("q", start)
    out = "%s/u%s.json" % (W, tag); err = "%s/u%s.err" % (W, tag)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            fd = os.open(err, os.O_CREAT | os.O_TRUNC | os.O_WRONLY); os.dup2(fd, 2); os.dup2(fd, 1)
            nul = os.open("/dev/null", os.O_RDONLY); os.dup2(nul, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            child(u, start, stop, shm, out); os._exit(0)
        except BaseException:
            traceback.print_exc(); os._exit(99)
    return dict(pid=pid, u=u, start=start, shm=shm, out=out, err=err, last=start, beat=time.time())
def tail(f):
    try: s = open(f, errors="replace").read()
    except OSError: return ""
    ls = [l for l in s.splitlines() if l.strip()]
    key = [l for l in ls if "Assert" in l or "ERROR: Add" in l or "Fatal Python" in l or "SUMMARY" in l or "double free" in l]
    fr = [l.strip() for l in ls if " in " in l and ("/python/" in l or "/src/" in l)][:4]
    return " | ".join(dict.fromkeys(key[:3] + fr))[:900] or " | ".join(ls[-3:])[:500]
def main():
    if "--replay" in sys.argv:
        i = sys.argv.index("--replay"); un, cs = sys.argv[i + 1], int(sys.argv[i + 2])
        u = [x[0] for x in UNITS].index(un)
        for start in (cs, 0):
            p = spawn(u, start, cs, "replay"); bad = wait1(p)
            for m in bad: print("case %d: %s" % m)
            if bad: sys.exit(1)
        print("held"); sys.exit(0)
    S = dict(states=0, transitions=0, traces=0, outcomes=0, units_total=len(UNITS), units_complete=0, violations=[], samples=[], notes=[], known=[], per_unit=[])
    outs = set(); order = list(range(len(UNITS))); run = []; agg = {u: dict(states=set(), trans=0, crashes=0, nviol=0) for u in order}
    tagn = 0
    def viol(u, case, msg):
        if len(S["violations"]) < 20: S["violations"].append(dict(unit=UNITS[u][0], case=case, message=msg))
        agg[u]["nviol"] += 1
    while order or run:
        while order and len(run) < JOBS and len(S["violations"]) < 20:
            u = order.pop(0); tagn += 1; run.append(spawn(u, 0, None, tagn))
        if len(S["violations"]) >= 20: order = []
        time.sleep(0.02)
        for p in list(run):
            cur = struct.unpack("q", p["shm"][0:8])[0]
            if cur != p["last"]: p["last"], p["beat"] = cur, time.time()
            if time.time() - p["beat"] > HANG: os.kill(p["pid"], signal.SIGKILL)
            pid, st = os.waitpid(p["pid"], os.WNOHANG)
            if not pid: continue
            run.remove(p); u = p["u"]; a = agg[u]
            if os.path.exists(p["out"]) and st == 0:
                r = json.load(open(p["out"])); a["states"].update(r["states"]); a["trans"] += r["trans"]; outs.update(r["outcomes"])
                S["samples"] += [UNITS[u][0] + ": " + s for s in r["sample"]][:1] if len(S["samples"]) < 40 else []
                for i, m in r["viol"]: viol(u, i, m)
                if r["done"] and not a["crashes"] and not a["nviol"]: S["units_complete"] += 1
                S["per_unit"].append("%s: %d cases, %.1f s" % (UNITS[u][0], len(a["states"]), r["secs"]))
                os.unlink(p["out"])
            else:
                cur = struct.unpack("q", p["shm"][0:8])[0]
                how = "does not end within %d s" % HANG if time.time() - p["beat"] > HANG else "ended the interpreter (%s)" % ("signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit code %d" % os.WEXITSTATUS(st))
                desc = "case %d" % cur
                try:
                    for i, c in enumerate(UNITS[u][1]()):
                        if i == cur: desc = "%s(%s)" % (c[0], ",".join(v.name for v in c[1])); break
                except BaseException: pass
                viol(u, cur, "%s %s: %s" % (desc, how, tail(p["err"])))
                a["crashes"] += 1
                if a["crashes"] < 3: tagn += 1; run.append(spawn(u, cur + 1, None, tagn))
    S["states"] = sum(len(a["states"]) for a in agg.values()); S["transitions"] = sum(a["trans"] for a in agg.values()); S["traces"] = S["states"]; S["outcomes"] = len(outs)
    json.dump(S, open(A["--out"], "w"))
    sys.exit(1 if S["violations"] else 0)
def wait1(p):
    t0 = time.time()
    while True:
        pid, st = os.waitpid(p["pid"], os.WNOHANG)
        if pid: break
        if time.time() - t0 > 600: os.kill(p["pid"], signal.SIGKILL)
        time.sleep(0.02)
    if st == 0 and os.path.exists(p["out"]):
        return [(i, m) for i, m in json.load(open(p["out"]))["viol"]]
    return [(struct.unpack("q", p["shm"][0:8])[0], "ended the interpreter: status %d: %s" % (st, tail(p["err"])))]
main()
