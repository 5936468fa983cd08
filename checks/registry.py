from checks.cbuild import harness
CHECKS = {}
WRAP = tuple("-Wl,--wrap=" + w for w in "fopen fopen64 fdopen open open64 openat close read __read_chk getrandom getentropy syscall".split())
def check(pid, run, **kw):
    CHECKS[pid] = dict(run=run, **kw)
CASE = "state = distinct explored case (configuration, operands, history prefix); transition = operation executed on the real library and compared; trace = complete case executed on the implementation"
GMP = "GMP, libc and the compiler are correct"
check("F01", harness("f01_field.cpp"), technique="exhaustive enumeration of operands on the real code against integer arithmetic",
      bounds="all operand pairs of every odd prime below 128 (more in thorough), all boundary-operand combinations of 1..16-word primes, every aliasing pattern", rule=CASE, assumptions=[GMP])
check("F02", harness("f02_roots.cpp"), technique="exhaustive enumeration of field elements on the real code",
      bounds="every element of every odd prime field below the bound; boundary elements of large fields with 2-adicity of p-1 from 1 to over 200, and of fields whose least non-square is up to 701 (1301 thorough)", rule=CASE, assumptions=[GMP])
check("F03", harness("f03_histories.cpp"), technique="bounded exhaustive exploration of operation histories on the real code against a reference model",
      bounds="all operation sequences to depth 3 (4 thorough) over 3 element slots and fields of 1, 2 and 9 words, cold and warm field registry", rule=CASE, assumptions=[GMP])
check("G01", harness("g01_group.cpp"), technique="exhaustive enumeration of point pairs and representations against brute-force group tables",
      bounds="all point pairs of all small curves of four forms (p up to 13, selected to 61), all scalings and aliasings; boundary multiples on 46 built-in curves", rule=CASE, assumptions=[GMP, "curves with a complete group law only"])
check("G02", harness("g02_scalar.cpp"), technique="exhaustive enumeration of scalars, points and table histories against repeated addition",
      bounds="all scalars in [-2n-2,2n+2] and selected wide ones on small curves; structured scalars on 46 built-in curves; table histories to depth 2-3", rule=CASE, assumptions=[GMP])
check("G03", harness("g03_objects.cpp"), technique="bounded exhaustive exploration of point-object histories against a reference model",
      bounds="all operation sequences to depth 2-3 over 2-3 point slots on equal, copied and different curves", rule=CASE, assumptions=[GMP])
check("G04", harness("g04_encode.cpp"), technique="exhaustive enumeration of points and encodings",
      bounds="all points of all small curves of four forms and widths; structured points of 46 built-in curves", rule=CASE, assumptions=[GMP])
check("G05", harness("g05_decode.cpp"), technique="exhaustive enumeration of byte strings and texts against a reference decoder",
      bounds="every byte string up to the largest valid length plus one on one-byte curves; all single-position edits on built-in curves", rule=CASE, assumptions=[GMP])
check("C01", harness("c01_curves.cpp"), technique="bounded exhaustive exploration of curve-object histories and all curve pairs",
      bounds="all ordered pairs of a family differing in one parameter (including far, negative and unreduced values); all ordered pairs of curves of one form over F_7 and F_11 (F_13 thorough), redefined in place; all define/copy/clear sequences to the depth bound; every malformed text in every parameter, unusable moduli, orders and sizes, before and after every kind of definition", rule=CASE, assumptions=[GMP])
check("C02", harness("c02_catalogue.cpp"), technique="exhaustive enumeration of the catalogue and of all single-character edits of its names",
      bounds="all 46 entries; all single-character edits, truncations and case changes of every name", rule=CASE, assumptions=[GMP, "published parameters in lib/golden.hpp (cross-checked against OpenSSL where it has the curve)"])
check("S01", harness("s01_sign.cpp", link_extra=WRAP), technique="exhaustive enumeration of keys, digests and entropy answers on the real code against the ECDSA equation",
      bounds="every key, digest integer and nonce draw on 22 small groups (stepped above order 40), sequences of up to three rejected draws; structured keys, digests and draws on 46 built-in curves", rule=CASE, assumptions=[GMP, "entropy reaches the library through libc calls intercepted at link time"])
check("S02", harness("s02_verify.cpp", link_extra=WRAP), technique="exhaustive enumeration of keys, digests and signature pairs against brute-force ECDSA",
      bounds="all (public key, digest, r, s) on 21 small curves (thinned above order 11); genuine, boundary and bit-modified signatures on 46 built-in curves", rule=CASE, assumptions=[GMP])
check("S03", harness("s03_sigformat.cpp", link_extra=WRAP), technique="exhaustive enumeration of signature encodings against a reference decoder",
      bounds="all byte strings up to 2 bytes and all 4-character texts over a 26-character alphabet for one-byte orders; boundary values and all single-character edits for multi-byte orders", rule=CASE, assumptions=[GMP])
check("E01", harness("e01_elgamal.cpp", link_extra=WRAP), technique="exhaustive enumeration of keys, plaintexts, nonces and ciphertext pairs against brute-force group tables",
      bounds="every key point, plaintext and nonce and every ciphertext pair on 13 small curves; structured ones on 46 built-in curves", rule=CASE, assumptions=[GMP, "entropy reaches the library through libc calls intercepted at link time"])
check("L01", harness("l01_protocol.cpp", link_extra=WRAP), technique="bounded exhaustive exploration of object histories on the real code against a reference state machine",
      bounds="all sequences of up to 3 (4 thorough) of over 100 operations on 2 schemes (curve objects may be redefined), 2 signatures, 2 ciphertexts, a decrypted point and replaceable keys over two curves, from 5 start states, on 4 sets of curves, in 8 orders of release", rule=CASE, assumptions=[GMP, "entropy reaches the library through libc calls intercepted at link time"])
check("R01", harness("r01_random.cpp", link_extra=WRAP), technique="exhaustive enumeration of entropy answers and request sequences on the real code",
      bounds="all 65536 two-byte entropy starts for every bound up to 256, every field up to 251 and 9 curves; per-byte linearity for larger bounds; all request sequences of length 3 (4 thorough) over 14 requests", rule=CASE, assumptions=[GMP, "entropy reaches the library through libc calls intercepted at link time"])
check("R02", harness("r02_faults.cpp", link_extra=WRAP), technique="exhaustive enumeration of fault points, read splits and fork points on the real code",
      bounds="every fault kind at every read of request sequences of length 1-2 (3 thorough) under 4 read granularities; fork at every point of sequences of up to 2+2 requests in 4 process-tree shapes; histories of 900 (3600 thorough) draws across a fork", rule=CASE, assumptions=[GMP, "entropy reaches the library through libc calls intercepted at link time"])
check("M01", harness("m01_wipe.cpp", san=[], repo_extra=("-O2", "-ftrivial-auto-var-init=uninitialized"), link_extra=WRAP),
      technique="bounded exhaustive exploration of allocation and operation histories on the real code built as the project builds it, with every release observed",
      bounds="all sequences of up to 4 (5 thorough) sizes through the installed memory functions; all sequences of 2 (3 thorough) of 33 library operations; every operation with wiping enabled before or after its operands exist, up to process exit", rule=CASE, assumptions=[GMP, "GMP obtains and releases number storage through its memory functions"])

check("P01", harness("p01_steps.cpp", san=[], repo_extra=("-O1", "-fno-inline", "-finstrument-functions", "-fsanitize-coverage=trace-pc"), link_extra=("-rdynamic",) + WRAP),
      technique="exhaustive enumeration of scalars, keys and nonces on the real code with every step recorded; all traces of a configuration must be equal",
      bounds="every scalar in [-n-1,2n+1] for every point of small curves of four forms by six paths; structured scalars, keys and nonces on 46 built-in curves; all exchange values for boundary elements and all point pairs", rule="state = distinct (point, path, scalar or key and nonce); transition = recorded step; trace = complete execution of the real code", assumptions=[GMP, "steps are observed at the level of public operations and of the control flow between them"])

TWRAP = "pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock mtx_lock mtx_unlock mtx_init call_once memcpy memmove memset malloc calloc free realloc fread fgetc getc fclose".split()
def threads(env):
    import sys, shutil
    sys.path.insert(0, env["V"] + "/tools"); import gengmpwrap
    gw = env["W"] + "/gmpwrap.cpp"; names = gengmpwrap.main(gw)
    from checks import cbuild
    return cbuild.run_harness(env, ["t01_threads.cpp"], san=[], repo_extra=("-O0", "-fsanitize=thread", "-ftrivial-auto-var-init=uninitialized", "-fno-omit-frame-pointer"), harn_extra=("-fno-builtin", "-I", env["W"]),
         link_extra=("-rdynamic",) + tuple(WRAP) + tuple("-Wl,--wrap=" + n for n in names + TWRAP))
check("T01", threads, technique="stateless model checking of the real code: preemption-bounded exhaustive exploration of schedules with happens-before race detection",
      bounds="2 threads over all pairs of 23 programs from a cold library with up to 2 preemptions (1 for the programs with curve set-up, signing and encryption; one more in thorough), 10 combinations of 3 threads", rule="state = distinct schedule executed; transition = synchronisation operation scheduled; trace = complete execution of the real code under one schedule",
      assumptions=[GMP, "scheduling points are atomics, locks, once, stream and entropy reads; code without data races has no other relevant interleavings"])

from checks.pybuild import python
PYA = [GMP, "CPython 3.12 behaves as documented"]
check("Y01", python("Y01"), technique="exhaustive enumeration of operations and argument kinds on the real extension module against a Python reference",
      bounds="every operator, constructor, method, attribute and slot with every argument kind of the pools (17 moduli, about 190 integers up to 20001 bits, 10 curves of four forms, 38 unrelated objects, 18 unfinished objects)", rule="state = distinct (operation, argument kinds); transition = call executed and judged; trace = case executed on the real module", assumptions=PYA)
check("Y02", python("Y02"), technique="bounded exhaustive exploration of creation graphs and deletion orders on the real extension module, and of repeated operations with heap and reference accounting",
      bounds="every derivation (31 kinds, all operand choices) over two equal curves and three points with every order of deletion; every pair of dependent derivations with every survivor and two orders (three derivations in thorough); every operation of the Y01 product with reduced integer pools repeated", rule="state = distinct history or repeated call; transition = operation executed and judged; trace = history executed on the real module", assumptions=PYA)

from checks.gobuild import go
GOA = [GMP, "the Go runtime runs finalizers as documented"]
check("N02", go("N02"), technique="exhaustive enumeration of operations and arguments on the real Go package, each repeated between forced collections with the C heap measured",
      bounds="the operations and arguments of N01 (large curves reduced in quick) in groups of 40, a group whose balance grows is split and each operation repeated 48 times; object graphs of one and two derivations with every kept subset and with collections at every C call", rule="state = distinct group or operation; transition = repetition measured; trace = group executed on the real package", assumptions=GOA)
check("N01", go("N01"), technique="exhaustive enumeration of operations and arguments on the real Go package against a reference, and of collection points (every boundary between Go and C, every kept subset of object graphs)",
      bounds="17 moduli, 44 integers up to 20001 bits, 9 curves of the four forms, every operation, operand form and receiver; collection at every C call boundary of every operation and at each alone; graphs of one derivation with every kept subset and of two dependent derivations with every survivor", rule="state = distinct case executed; transition = case or forced collection; trace = case executed on the real package", assumptions=GOA)

from checks.exbuild import examples
check("X01", examples("x01_containers.cpp", programs=True), technique="exhaustive enumeration of containers and of their damaged forms on the real code against an independent DER reader", bounds="round trips on 46 built-in and 5 small curves; every truncation, single-byte change, deletion and insertion of containers on small curves (selected values on 5 built-in ones), every edit of every field and pairs of edits; all strings up to 2 bytes; the 8 programs over whole, damaged and crafted files", rule=CASE, assumptions=[GMP, "libtasn1 and libb64 are memory safe"])
check("X02", examples("x02_armour.cpp"), technique="exhaustive enumeration of lengths, read splits, fault points and damaged texts on the real code against a reference encoder", bounds="all lengths up to 330 (2000 thorough) and around line, block and buffer boundaries up to 64 KiB; every failure point of writes, boundary failure points and 11 split sizes of reads under 6 stream buffers; every truncation and single-character edit of armoured texts", rule=CASE, assumptions=["libb64, libc and the compiler are correct"])
