// G03: every bounded history over point slots that live on curves of equal, copied and different form.
#include "pthist.hpp"
using vc::Ctx; using namespace ph;

static Cv small_cv(Form f, long p, int skip, int cls) {
    RefCurve r = nice(f, p, 3, skip); Cv v; v.r = BigRef(r); v.cls = cls; BP g = v.r.G; v.sample = {g, v.r.neg(g), v.r.add(g, g)}; for (auto &q : r.pts) if (!q.inf && q.y == 0) { BP t; t.x = Z(q.x); t.y = Z(q.y); v.sample.push_back(t); break; }
    return v;
}
static Cv big_cv(const char *n, int cls) { Cv v; v.r = *golden(n); v.cls = cls; v.sample = {v.r.G, v.r.neg(v.r.G), v.r.mul(Z(3), v.r.G)}; return v; }
static std::vector<Cv> family(int set) {
    switch (set) {
        case 0: return {small_cv(WS, 11, 2, 0), small_cv(WS, 11, 2, 0), small_cv(ED, 13, 0, 1)};     // two equal curve objects and another form
        case 1: return {small_cv(ED, 13, 0, 0), small_cv(ED, 13, 0, 0), small_cv(TE, 13, 0, 1)};
        case 2: return {small_cv(MO, 13, 0, 0), small_cv(WS, 13, 1, 1), small_cv(TE, 17, 0, 2)};
        case 3: return {big_cv("secp256k1", 0), small_cv(ED, 13, 0, 1), big_cv("E-521", 2)};                // different field widths
        case 5: return {small_cv(WS, 11, 2, 0), small_cv(ED, 271, 0, 1), big_cv("secp112r1", 2)};           // tables of 1, 2 and 14 levels
        default: return {big_cv("Curve25519", 0), big_cv("Ed25519", 1), small_cv(WS, 11, 2, 2)};
    }
}
static std::vector<Op> alphabet(int slots, int curves, bool tables, bool wide) {
    std::vector<Op> A;
    for (int i = 0; i < slots; i++) {
        for (int k = 0; k < curves; k++) { A.push_back({SETPT, i, -1, k, i + 1}); A.push_back({NEUTRAL, i, -1, k, 0}); if (wide) { A.push_back({SETFE, i, -1, k, 3}); A.push_back({DECODE, i, -1, k, 1}); A.push_back({RENEW, i, -1, k, 0}); } }
        A.push_back({READ, i, -1, -1, 0}); if (tables) A.push_back({SETUP, i, -1, -1, 0});
        for (int j = 0; j < slots; j++) {
            if (i != j) A.push_back({COPY, i, j, -1, 0});
            A.push_back({DBL, i, j, -1, 0}); A.push_back({NEG, i, j, -1, 0}); if (wide) { A.push_back({MUL, i, j, -1, -3}); A.push_back({CMP, i, j, -1, 0}); }
            if (tables) A.push_back({BASE, i, j, -1, 2});
            for (int l = 0; l < slots; l++) { A.push_back({ADD, i, j, l, 0}); A.push_back({SUB, i, j, l, 0}); }
            if (i < j) { A.push_back({SWAP, i, j, -1, 0}); A.push_back({CSWAP, i, j, -1, 1}); A.push_back({CSWAP, i, j, -1, 0}); }
        }
    }
    return A;
}
// the curve objects no slot is bound to are released, and the slots used once more
static void after_release(Ctx &c, World &w, std::vector<const Op *> h) {
    static const Op rel = {REDEF, 0, -1, -1, 0}; w.release_unused(); h.push_back(&rel);
    for (size_t i = 0; i < w.s.size(); i++) {
        auto &a = w.s[i]; const BigRef &r = w.C[a.c].r; Pt t(w.obj[a.c].cv); mpECP_add(t.q, a.q, a.q); BP want = r.add(a.v, a.v); if (!same_pt(t.q, want, w.obj[a.c].cv)) c.fail("slot %zu cannot be doubled after the unused curve objects were released", i);
        if (a.everTable) { Z k(2); mpECP_scalar_base_mul_mpz(t.q, a.q, k.v); if (!same_pt(t.q, r.mul(k, a.v), w.obj[a.c].cv)) c.fail("slot %zu cannot be multiplied after the unused curve objects were released", i); a.everTable = true; }
        mpECP_neg(a.q, a.q); a.v = r.neg(a.v);
    }
    w.check(c, h, true);
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    auto go = [&](int set, int slots, bool tables, bool wide, int depth) {
        size_t n = alphabet(slots, 3, tables, wide).size();
        for (size_t f = 0; f < n; f++) vc::unit(vc::fmt("curve family %d, %d slots%s%s, depth %d, first op %zu", set, slots, tables ? ", tables" : "", wide ? ", wide" : "", depth, f), [=](Ctx &c) {
            auto C = family(set); auto A = alphabet(slots, 3, tables, wide); for (int d = 1; d <= depth; d++) sequences(c, A, d, f, [&]() { return new World(C, slots); }, [&](World &w, const std::vector<const Op *> &h) { after_release(c, w, h); }); });
    };
    for (int set = 0; set < 3; set++) { go(set, 2, false, false, th ? 4 : 3); go(set, 2, true, true, th ? 3 : 2); go(set, 3, false, false, th ? 3 : 2); }
    for (int set = 3; set < 5; set++) { go(set, 2, false, true, th ? 3 : 2); go(set, 2, true, false, th ? 2 : 1); }
    go(5, 2, true, true, 2);
    if (!th) go(0, 2, true, false, 3);
    return vc::main_(argc, argv);
}
