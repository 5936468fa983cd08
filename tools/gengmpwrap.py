#!/usr/bin/env python3
"""Generates interposers for the integer functions of GMP that report which numbers they read and write."""
import re, sys
SC = {"unsigned long int", "long int", "mp_bitcnt_t", "mp_size_t", "int", "size_t", "double", "unsigned long", "mp_limb_t"}
def protos(path):
    t = open(path).read()
    t = re.sub(r"__GMP_(NOTHROW|ATTRIBUTE_PURE)", "", t)
    for m in re.finditer(r"__GMP_DECLSPEC\s+([\w \*]+?)\s*\b(_?mpz_\w+)\s*\(([^;()]*)\)\s*;", t):
        yield m.group(1).strip(), m.group(2), [a.strip() for a in m.group(3).split(",")]
def main(out):
    names, o = [], ["#include \"tsched.hpp\"", "#include <gmp.h>", "#include <stdlib.h>",
      "static void zr(mpz_srcptr z) { ts::In g; ts::access(z, 16, false, PC); int n = abs(z->_mp_size); if (n) ts::access(z->_mp_d, 8ul * n, false, PC); }",
      "static void zw(mpz_srcptr z) { ts::In g; ts::access(z, 16, true, PC); }",
      "static void zwl(mpz_srcptr z) { ts::In g; if (z->_mp_alloc > 0) { int n = abs(z->_mp_size); if (n) ts::access(z->_mp_d, 8ul * n, true, PC); } }",
      "extern \"C\" {"]
    seen = set()
    for ret, name, args in protos("/usr/include/x86_64-linux-gnu/gmp.h"):
        ok = all(a in ("mpz_ptr", "mpz_srcptr", "const char *", "char *", "void *", "const void *", "size_t *", "mp_exp_t *") or a in SC for a in args)
        if not ok or name in seen or name in ("mpz_array_init",): continue
        if ret not in SC and ret not in ("void", "void *", "char *", "mp_srcptr", "mp_ptr"): continue
        seen.add(name); sym = "__gmp" + name.lstrip("_")[2:]
        if sym in names: continue
        names.append(sym)
        decl = ", ".join(f"{a} a{i}" for i, a in enumerate(args)); call = ", ".join(f"a{i}" for i in range(len(args)))
        pre = "".join(f"zr(a{i}); " for i, a in enumerate(args) if a == "mpz_srcptr") + "".join(f"zw(a{i}); " for i, a in enumerate(args) if a == "mpz_ptr")
        post = "" if name in ("mpz_clear",) else "".join(f"zwl(a{i}); " for i, a in enumerate(args) if a == "mpz_ptr")
        rv = ret != "void"
        o.append(f"{ret} __real_{sym}({decl}); {ret} __wrap_{sym}({decl}) {{ bool on = ts::on(); if (on) {{ {pre}}} {'auto r = ' if rv else ''}__real_{sym}({call}); if (on) {{ {post}}} {'return r; ' if rv else ''}}}")
    def mpn(name, ret, decl, call, acc):
        sym = "__gmpn_" + name; names.append(sym)
        o.append(f"{ret} __real_{sym}({decl}); {ret} __wrap_{sym}({decl}) {{ if (ts::on()) {{ ts::In g; {acc} }} return __real_{sym}({call}); }}")
    R = lambda p, n: f"if (({n}) > 0) ts::access({p}, 8ul * ({n}), false, PC); "
    Wr = lambda p, n: f"if (({n}) > 0) ts::access({p}, 8ul * ({n}), true, PC); "
    for f in ("add_n", "sub_n"): mpn(f, "mp_limb_t", "mp_ptr r, mp_srcptr a, mp_srcptr b, mp_size_t n", "r, a, b, n", R("a", "n") + R("b", "n") + Wr("r", "n"))
    mpn("mul_n", "void", "mp_ptr r, mp_srcptr a, mp_srcptr b, mp_size_t n", "r, a, b, n", R("a", "n") + R("b", "n") + Wr("r", "2 * n"))
    mpn("sqr", "void", "mp_ptr r, mp_srcptr a, mp_size_t n", "r, a, n", R("a", "n") + Wr("r", "2 * n"))
    for f in ("mul_1", "addmul_1", "submul_1"): mpn(f, "mp_limb_t", "mp_ptr r, mp_srcptr a, mp_size_t n, mp_limb_t b", "r, a, n, b", R("a", "n") + Wr("r", "n"))
    for f in ("lshift", "rshift"): mpn(f, "mp_limb_t", "mp_ptr r, mp_srcptr a, mp_size_t n, unsigned int b", "r, a, n, b", R("a", "n") + Wr("r", "n"))
    for f in ("copyi", "copyd"): mpn(f, "void", "mp_ptr r, mp_srcptr a, mp_size_t n", "r, a, n", R("a", "n") + Wr("r", "n"))
    mpn("mul", "mp_limb_t", "mp_ptr r, mp_srcptr a, mp_size_t n, mp_srcptr b, mp_size_t m", "r, a, n, b, m", R("a", "n") + R("b", "m") + Wr("r", "n + m"))
    mpn("tdiv_qr", "void", "mp_ptr q, mp_ptr r, mp_size_t z, mp_srcptr a, mp_size_t n, mp_srcptr d, mp_size_t m", "q, r, z, a, n, d, m", R("a", "n") + R("d", "m") + Wr("r", "m") + Wr("q", "n - m + 1"))
    o.append("}")
    open(out, "w").write("\n".join(o) + "\n")
    return names
if __name__ == "__main__": print(" ".join(main(sys.argv[1])))
