#!/usr/bin/env python3
# Writes properties.jsonl (single place where the statements live).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state:a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe:a["observe_at"]=list(observe)
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("F01","Field arithmetic is exact modular arithmetic",
 "For every supported odd prime modulus and all operands, addition, subtraction, negation, multiplication, squaring, powers, the machine-word variants, comparison, bit test and integer conversion give exactly the result of integer arithmetic modulo the prime, as the canonical value in [0,p). This also holds when the result shares storage with one or both operands, and an operand that is not the result is left unchanged.",
 ["inputs"],"all operands of every odd prime below a bound; for 1..16-word moduli all combinations of limb-boundary operands; every aliasing pattern of result and operands",
 "The unit tests draw a handful of random operands per field: carries, borrows, leading zero words, operands next to 0, p and 2^64k, and aliasing are hit with negligible probability.",
 ["src/field.c","include/ecc/field.h"],
 [("carry/borrow correction, zero padding of short results, stack temporaries","src/field.c mpFp_add, mpFp_sub, mpFp_mul, mpFp_sqr, mpFp_pow_*, *_ui, mpFp_cmp*")],
 [("limb vector","fixed-width un-normalised residue","include/ecc/field.h _mpFp_struct")],["values converted back to integers"])
p("F02","Inversion and square roots are total and correct",
 "For every supported odd prime modulus, inversion returns the unique inverse of every non-zero element and reports failure for zero; the square root succeeds exactly on zero and the quadratic residues and returns a canonical value whose square is the operand. Both terminate for every odd prime, whatever power of two divides p-1.",
 ["inputs"],"every element of every odd prime field below a bound; boundary and structured elements of large fields with 2-adicity of p-1 from 1 to over 200",
 "Tests use a few random elements of a few primes; wrong branches of the root algorithm need particular residues and a large 2-adicity.",
 ["src/field.c"],[("Legendre test, p=3 mod 4 shortcut, Tonelli-Shanks loop, gcd inversion","src/field.c mpFp_sqrt, mpFp_inv")],(),["value and return status"])
p("F03","Field elements can be reassigned across fields in any order",
 "After any sequence of initialisation, assignment, arithmetic, swap and clearing over a set of field elements that move between fields of different sizes, every element holds the value that the same sequence of modular operations prescribes in the field last assigned to it. No memory is read or written out of bounds, and clearing all elements releases all their memory.",
 ["histories"],"all operation sequences up to a bounded depth over a few element slots and fields of 1, 2 and several words, including the very first use of a field",
 "Tests use an element in one field for its whole life; re-use across fields of different widths depends on the order of operations.",
 ["src/field.c"],[("storage growth when an element changes field; per-modulus shared field descriptors","src/field.c mpFp_realloc, _mpFp_field_lookup, mpFp_set*")],
 [("field registry","one shared descriptor per modulus","src/field.c _static_field_list")],["values, memory errors, live heap"])
p("G01","Point arithmetic is the group law of the curve",
 "On every short Weierstrass, Edwards, Montgomery and twisted Edwards curve with a complete group law, adding, doubling, subtracting, negating and comparing any two points (identity, equal, opposite and low-order points included) gives exactly the group-law result, as read back through affine coordinates or the identity. The answer does not depend on how the operands were computed nor on the result sharing storage with an operand.",
 ["inputs","configurations"],"all pairs of points on all small curves of the four forms, in every internal scaling, all aliasing patterns; boundary multiples on the built-in curves",
 "Tests add a few random points of large curves, where exceptional pairs (opposite, order-two difference, special scaling) never occur.",
 ["src/ecpoint.c","src/ecurve.c"],[("complete projective addition; Montgomery points kept in Weierstrass form; lazy normalisation","src/ecpoint.c mpECP_add, mpECP_double, mpECP_sub, mpECP_neg, mpECP_cmp, _mpECP_to_affine")],
 [("projective coordinates and identity flag","internal point representation","include/ecc/ecpoint.h _p_mpECP_t")],["affine coordinates, comparison"])
p("G02","Scalar multiplication equals repeated addition",
 "For every point and every integer scalar (zero, negative, at or beyond the group order, with any bit pattern up to the width of the order), multiplying the point gives the same point as adding it to itself that many times, taken modulo the declared order. The precomputed fixed-base path and the general path always agree, whatever was done with the point before.",
 ["inputs","histories"],"every scalar of every point on small curves; all single-bit, all-ones, window-boundary and near-order scalars on every built-in curve; base table set up before, after and around other operations",
 "Tests use random scalars on a few curves; scalars whose top bit exceeds the field size, window boundaries and re-use of precomputed tables are not sampled.",
 ["src/ecpoint.c"],[("ladder over the scalar bits; 8-bit window table per point","src/ecpoint.c mpECP_scalar_mul*, mpECP_scalar_base_mul*, mpECP_scalar_base_mul_setup")],
 [("window table","precomputed multiples attached to a point","include/ecc/ecpoint.h base_pt/base_bits")],["affine coordinates of results"])
p("G03","Point objects are independent through any operation history",
 "Through any sequence of operations over a set of point objects on one or several curves (assignment, arithmetic, swap, table setup, rebinding to another curve, normalising reads, clearing), each object holds the value its own history prescribes, and objects that are only operands keep their value. The curve objects involved are never modified by point operations, and no memory error or leak occurs.",
 ["histories"],"all operation sequences up to a bounded depth over point slots bound to curves of equal and different type, with and without precomputed tables",
 "Tests perform short fixed sequences on fresh points of one curve; corruption of a curve object or a stale table needs a specific multi-step sequence.",
 ["src/ecpoint.c","src/ecurve.c"],[("curve pointer rebinding, table ownership and cleanup, lazy normalisation of operands","src/ecpoint.c mpECP_set*, mpECP_swap, mpECP_add, _mpECP_base_pts_cleanup")],
 [("curve binding","pointer from a point to its curve","include/ecc/ecpoint.h cvp")],["affine values of all slots, curve parameters, memory errors, live heap"])
p("G04","Point encoding is canonical and lossless",
 "Every point of every curve encodes, compressed or uncompressed, as bytes or as hex text, to exactly the announced length in the documented prefix-and-coordinates layout, determined only by the point's value. Decoding that encoding on the same curve gives back the same point.",
 ["inputs","configurations"],"all points of all small curves of all four forms and widths with leading zero coordinate bytes; multiples of the generator on all built-in curves; both formats, both encodings",
 "Tests round-trip a few random points; leading-zero coordinates, the identity, zero and odd/even corner values and non-unit Montgomery coefficients are missed.",
 ["src/ecpoint.c"],[("prefix byte, parity bit, fixed-width left padding","src/ecpoint.c mpECP_out_bytes, mpECP_out_str, mpECP_out_bytelen, mpECP_set_bytes, mpECP_set_str")],(),["encoded bytes"])
p("G05","Decoding accepts exactly the valid encodings of curve points",
 "For every byte string or text, decoding a point succeeds only if the input is a well-formed encoding (known prefix, exact length, hex digits only) of a point that satisfies the curve equation, and then yields that point. Every other input is reported as an error, without crash, hang, out-of-bounds access or use of uninitialised data, and leaves the library usable.",
 ["inputs"],"every byte string up to the largest valid length plus one over small curves; all single-byte edits, truncations, extensions and non-hex characters of valid encodings on built-in curves",
 "Tests try a few malformed strings; acceptance of off-curve or over-long input is a statement about every string.",
 ["src/ecpoint.c"],[("length, prefix and curve-equation checks; hex parsing","src/ecpoint.c mpECP_set_bytes, mpECP_set_str")],(),["return status and decoded point"])
p("C01","Curve objects compare, copy and re-initialise faithfully",
 "Two curve objects compare equal exactly when their form, field, coefficients, order, cofactor and generator all agree, in either argument order. Copying or re-defining a curve object, from any previous state and form, makes it behave exactly like a freshly created one, leaves the source unchanged and leaks or corrupts no memory; a definition whose generator is not on the curve, whose text is not a number, whose modulus is not a prime above 3 that fits the stated size, or whose order is not positive is reported as an error, and the object can still be defined afterwards.",
 ["histories","inputs"],"all ordered pairs drawn from a family of curves differing in exactly one parameter; all sequences of definition, copy and clear over several curve slots to a bounded depth",
 "Tests compare a few built-in curves; false equality needs curves that differ only in one chosen parameter and re-definition bugs need specific histories.",
 ["src/ecurve.c"],[("field-by-field comparison; coefficient storage re-initialised when the form changes","src/ecurve.c mpECurve_cmp, mpECurve_set, mpECurve_set_mpz_*, mpECurve_set_str_*, mpECurve_point_check")],
 [("coefficient union","form-dependent storage","include/ecc/ecurve.h _mpECurve_coeff_t")],["comparison results, parameters, point membership"])
p("C02","The built-in curve catalogue is correct and complete",
 "Every name in the published list of built-in curves selects a curve whose field modulus and declared order are prime, whose coefficients are non-singular, whose generator lies on the curve and has exactly the declared order, and whose order times cofactor satisfies the Hasse bound and kills every point tried. The bit size matches the modulus, names are unique, and any other name is rejected and leaves no usable wrong curve.",
 ["configurations","inputs"],"every catalogue entry, every single-character edit, truncation and case change of every name",
 "Tests check a few curves with random scalars; a wrong digit in an order, cofactor or generator that still satisfies the curve equation passes them.",
 ["src/ecurve.c"],[("static parameter tables and lookup by name","src/ecurve.c _std_*_curve, mpECurve_set_named, _mpECurve_list_standard_curves")],(),["curve parameters"])
p("S01","ECDSA signing always emits a valid, non-degenerate signature",
 "For every private key, message digest and every answer of the entropy source, signing terminates with a signature (r,s), both in [1,n-1], that satisfies the ECDSA equation for the nonce drawn, and standard verification with the matching public key accepts it. Degenerate draws (zero nonce, zero r, zero s) are retried with fresh entropy and no nonce value is systematically excluded or repeated; empty messages are refused.",
 ["inputs","fault_sequences"],"every key, every reduced digest and every nonce on small-order curves (degenerate draws included, sequences of consecutive degenerate draws); digest lengths shorter, equal and longer than the order; every curve form",
 "Degenerate nonces have probability about 2^-256 on the curves tests use; only exhaustive enumeration on small orders reaches them.",
 ["src/ecdsa.c","src/mpzurandom.c"],[("retry loop around nonce selection; digest truncation","src/ecdsa.c mpECDSASignature_init_Sign")],(),["signature values"])
p("S02","ECDSA verification accepts exactly the valid signatures",
 "For every public key, message digest and signature pair, verification accepts if and only if r and s are in [1,n-1] and the standard ECDSA verification equation holds, the identity never counting as a match. Mismatched curves, keys or out-of-range values are rejected with an error, not a crash, and verification changes none of its inputs.",
 ["inputs"],"all (public key, digest, r, s) on small-order curves of every form, including keys outside the generator's subgroup and the identity; boundary and single-bit-modified signatures on built-in curves",
 "Tests check that valid signatures pass and a few corrupted ones fail; false acceptance is a statement about all pairs, incl. those where an intermediate point is the identity.",
 ["src/ecdsa.c"],[("range checks and recomputation of r","src/ecdsa.c mpECDSASignature_verify_cmp")],(),["verification verdict"])
p("S03","Signature import and export are exact inverses",
 "Every signature exports as bytes of twice the order's byte length (or twice as many hex digits), r then s, each left-padded, and importing that gives the same signature. Import succeeds exactly on strings of the right length, made only of hex digits for text, with both values in [1,n-1]; everything else is refused without crash, leak or uninitialised data.",
 ["inputs"],"all (r,s) and all byte strings on small orders; all text strings over a boundary alphabet of the right and neighbouring lengths; leading-zero and boundary values on built-in curves",
 "Tests round-trip random signatures, in which leading-zero bytes, range edges and odd characters are rare or absent.",
 ["src/ecdsa.c"],[("fixed-width padding, range checks, hex parsing","src/ecdsa.c mpECDSASignature_export_*, mpECDSASignature_init_import_*")],(),["bytes, text and status"])
p("E01","ElGamal decryption inverts encryption for every key and message",
 "For every private key, every plaintext point (identity included) and every answer of the entropy source, encryption yields the pair (kG, M + kQ) for a nonce k in [1,n-1], and decryption with the matching key returns M; no nonce is excluded or fixed. Any ciphertext pair decrypts to second minus key times first, inputs on different curves or a key for another group are refused with an error rather than a crash, and inputs are left unchanged.",
 ["inputs","fault_sequences"],"every key, plaintext, nonce on small-order curves of every form, all ciphertext pairs, curve objects that are shared, equal copies, or different",
 "Tests encrypt a few random points with one shared curve object; the zero nonce, identity messages and copied curve objects are not reached.",
 ["src/ecelgamal.c"],[("non-zero nonce loop; curve compatibility checks","src/ecelgamal.c mpECElgamal_init_encrypt, mpECElgamal_init_decrypt")],(),["ciphertext and plaintext points, status"])
p("L01","Signature schemes, signatures and ciphertexts keep their values and lifetimes independently",
 "In every history of initialising, signing, importing, exporting, verifying, encrypting, decrypting, overwriting and clearing signature schemes, signatures, ciphertexts, decrypted points and keys over several curves and digest functions, each object keeps exactly the value it was given until it is itself replaced, and what each operation returns depends only on the values of its operands. Operands other than the scheme, curve or key an object is bound to may be overwritten and released right after the call. A refused operation leaves every object as it was, nothing allocated and the target free to be initialised; releasing everything, signatures before their scheme and points before their curve, in any order, releases all memory.",
 ["histories","inputs"],"all sequences of operations, valid and refused, on two schemes, two signatures, two ciphertexts, a decrypted point and two key pairs over two curves of different form and width, up to a depth from several start states; every order of release",
 "Tests make one object of each kind, use it once and release everything at the end, on one curve at a time; aliasing between objects, stale scheme state and leaks on refused calls need several objects and particular orders.",
 ["src/ecdsa.c","src/ecelgamal.c"],[("scheme copies of the digest function, curve binding and generator","src/ecdsa.c mpECDSASignatureScheme_init, mpECDSASignatureScheme_clear"),("ownership of r and s; release on refusal","src/ecdsa.c mpECDSASignature_init_Sign, mpECDSASignature_init_import_bytes"),("ownership of C and D; release on refusal","src/ecelgamal.c")],(),["values of all live objects, status, memory balance"])
p("R01","Random values are in range and uniform over the entropy",
 "A random integer below a bound, a random field element and a random curve point are always inside their range (the point in the generator's group) and, over all equally likely entropy inputs, every value is produced equally often up to a negligible bias. The value depends only on fresh bytes of the operating system's entropy source, and no byte is used for two values.",
 ["inputs"],"every entropy string for small bounds; every bound up to a limit; boundary entropy for large bounds; sequences of requests over one byte stream",
 "A statistical test on few samples cannot see small or value-specific bias, off-by-one ranges at large bounds, or reused bytes.",
 ["src/mpzurandom.c","src/field.c","src/ecpoint.c"],[("double-length draw reduced modulo the bound","src/mpzurandom.c mpz_urandom; src/field.c mpFp_urandom; src/ecpoint.c mpECP_urandom")],
 [("entropy stream","process-wide handle on the entropy source","src/mpzurandom.c _f_urandom")],["values versus bytes delivered"])
p("R02","Entropy faults and forks never yield predictable or repeated randomness",
 "If the entropy source cannot be opened, fails, ends early or delivers its bytes in pieces at any point of any request sequence, no random value, signature or ciphertext is ever produced from fewer fresh bytes than a fault-free request uses: the request either completes with the full amount or the process stops. Processes that fork at any point, before or after first use, never draw the same bytes as one another.",
 ["fault_sequences","histories"],"every fault kind at every read of bounded request sequences, every split of reads, every placement of fork in a request history",
 "Tests never inject a fault into the entropy source and never fork between draws.",
 ["src/mpzurandom.c"],[("check of the number of bytes read; unbuffered reads","src/mpzurandom.c mpz_urandom")],
 [("entropy stream","process-wide handle on the entropy source","src/mpzurandom.c _f_urandom")],["process outcome and values versus bytes delivered"])
p("M01","Wiping mode never releases memory that still holds data",
 "With safe cleaning enabled, every block of number storage is all zero when it goes back to the system allocator, after any sequence of growing, shrinking and releasing, while contents up to the smaller size survive every resize. Clearing a field element, point or curve leaves its own structure zeroed, whatever operations preceded.",
 ["histories"],"all allocate/resize/release sequences over bounded sizes and depth; whole-library operations observed at every release",
 "Tests never look at memory after release; residue depends on the sequence of resizes.",
 ["src/safememory.c","src/field.c","src/ecpoint.c","src/ecurve.c"],[("zero before free; zeroing of resized blocks","src/safememory.c _safe_clean_realloc, _safe_clean_free, _enable_gmp_safe_clean")],(),["bytes of every released block"])
p("P01","Secret scalars do not change the steps of a computation",
 "Multiplying a point by a scalar, signing and decrypting carry out one and the same sequence of point additions, doublings, exchanges and table selections for every secret scalar, nonce or key on a given curve, point and form of the scalar: no step is skipped, added or replaced because of the value or the bits of the scalar. The conditional exchange of two points or field elements takes the same path whether or not it exchanges, and exchanges exactly when asked to.",
 ["inputs"],"every scalar of every point on small curves by every multiplication path; structured scalars, keys and nonces on all built-in curves; every exchange value with boundary elements and all point pairs",
 "Tests compare results; a shortcut for zero digits, short scalars or an exchange that is not due gives the right result and shows the secret.",
 ["src/ecpoint.c","src/field.c","src/ecdsa.c","src/ecelgamal.c"],
 [("Brier-Joye ladder over all bits of the order; one table addition per window","src/ecpoint.c mpECP_scalar_mul, mpECP_scalar_base_mul"),("exchange through a copied pair","src/ecpoint.c _mpECP_cswap_safe; src/field.c mpFp_cswap")],(),["sequence of operations and basic blocks between them"])
p("T01","Threads working on separate objects do not interfere",
 "When several threads use the library concurrently, each on its own field elements, points, keys and random draws, or reading a shared curve, every interleaving gives each thread the results it would get alone, including the first use of a field or of the random source. No interleaving has a data race on library-internal state, a crash or a deadlock.",
 ["schedules"],"all interleavings, up to a preemption bound, of two and three threads each creating fields, computing, or drawing random numbers, from a cold and a warm library state",
 "Tests are single-threaded; a lost update of internal shared state needs a particular interleaving inside the first uses.",
 ["src/field.c","src/mpzurandom.c","src/ecpoint.c"],[("process-wide field registry and entropy handle","src/field.c _mpFp_field_lookup; src/mpzurandom.c mpz_urandom")],
 [("field registry","shared list","src/field.c _static_field_list"),("entropy handle","shared lazily opened stream","src/mpzurandom.c _f_urandom")],["per-thread results, conflicting accesses"])
p("Y01","Python operations compute the right values or raise",
 "For every combination of arguments, including wrong types, negative, zero and arbitrarily large integers, operands from different fields or curves, and malformed text, each operation of the Python module either returns the mathematically right result or raises a Python exception. It never terminates or corrupts the interpreter, silently substitutes a value, or changes its arguments.",
 ["inputs"],"the full product of operations and argument kinds (every type of object, boundary integers at each internal buffer size, equal, copied and different fields and curves)",
 "The Python tests call each method with well-formed arguments; the argument-kind product, where aborts and silent substitutions live, is not tried.",
 ["python/pyfield.c","python/pypoint.c","python/pycurve.c","python/pyecdsa.c","python/pyecelgamal.c","python/pygmplong.c","python/pyeccmodule.c"],
 [("argument parsing and conversion between Python and big integers","python/pygmplong.c; python/py*.c")],(),["returned values, exceptions, interpreter survival"])
p("Y02","Python objects stay valid for any order of creation and deletion",
 "Every Python curve, point, field element, signature and ciphertext remains usable with its value unchanged for as long as it is referenced, whatever order the other objects it was created from are deleted in. Repeating any operation sequence, succeeding or failing, leaves reference counts and memory balanced: nothing is freed early, twice, or never.",
 ["histories"],"all creation graphs of bounded size and all deletion orders, each followed by use of the survivors; repetition of every operation with reference and memory accounting",
 "Python tests keep everything alive until the end; use-after-free needs a particular deletion order.",
 ["python/pypoint.c","python/pycurve.c","python/pyecdsa.c","python/pyecelgamal.c","python/pyfield.c"],
 [("reference counts held by dependent objects","python/py*.c new/dealloc functions")],(),["values after deletion, reference counts, memory errors"])
p("N01","Go bindings compute the right values and never alter arguments",
 "For every argument, including negative, zero and very large integers and operands of different fields or curves, each operation of the Go package returns the mathematically right value or an error, leaves the caller's values unchanged, and does not crash the process. Results stay valid whatever the garbage collector does between and during calls.",
 ["inputs","histories"],"the product of operations and boundary arguments, with argument snapshots; collection forced between every pair of steps of bounded operation sequences",
 "Go tests use random positive values and compare results, not arguments, and never force collection at specific points.",
 ["ecgo/field.go","ecgo/curve.go","ecgo/point.go","ecgo/ecdsa.go","ecgo/ecelgamal.go"],
 [("conversion between big integers and library numbers; finalizers","ecgo/*.go")],(),["returned values, argument snapshots, process survival"])
p("N02","Go bindings release what they allocate",
 "Repeating any Go operation on valid objects, succeeding or refused, and letting the garbage collector run leaves the C heap as it was: every curve, point, element, signature, ciphertext and temporary that is no longer referenced is released, exactly once, and none is released while it is referenced.",
 ["inputs","histories"],"every operation with boundary arguments, valid and refused, repeated with forced collections while the C heap is measured",
 "Tests run once and end; a leak or an early release shows only in the balance of many calls or at a collection at one particular point.",
 ["ecgo/field.go","ecgo/curve.go","ecgo/point.go","ecgo/ecdsa.go","ecgo/ecelgamal.go"],
 [("finalizers and release of temporaries","ecgo/*.go")],(),["bytes of the C heap after collection"])
p("X01","Key, ciphertext and signature containers round-trip and reject damage",
 "Every key, public key and ciphertext written in the exchange format reads back, in a fresh process state, to the same curve, key and points, for every built-in and custom curve of the supported forms. Reading any truncated, extended or altered container either reports an error or yields a consistent object; it never crashes, hangs or touches memory it does not own.",
 ["inputs"],"all containers over all curves and boundary keys; every truncation and every single-byte change in a bounded alphabet of each container",
 "The example programs have no tests at all; robustness is a statement about every damaged input.",
 ["examples/ecdh_der.c","examples/elgamal_der.c"],[("DER encoding and decoding of curve, key and point fields","examples/ecdh_der.c, examples/elgamal_der.c")],(),["decoded objects and status"])
p("X02","Text armour and file transfer preserve every byte",
 "Encoding any byte string as an armoured text file and reading it back gives the same bytes, for every length, line length and every split of the underlying reads, in every pass over the same buffer, and reading from a stream of any size returns exactly its contents. A missing header or footer, a read error or a write that fails at any point, is reported as an error and never loops or crashes.",
 ["inputs","fault_sequences"],"all lengths around every line, block and buffer boundary; every read split and error position; header, footer and line-ending variants",
 "No test exercises the armour code.",
 ["examples/b64file.c"],[("line-wise base64 with header and footer; incremental file reads","examples/b64file.c")],(),["bytes and status"])
out="".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P)
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write(out)
print(len(P))
