// Histories of point operations over a few slots, tracked against the reference group law.
#pragma once
#include "guard.hpp"
#include "bigref.hpp"
namespace ph {
enum Kind { SETPT, SETFE, NEUTRAL, COPY, ADD, SUB, DBL, NEG, MUL, BASE, SETUP, SWAP, CSWAP, READ, DECODE, RENEW, CMP, REDEF };
struct Op { Kind k; int i, j, l; long arg; };
inline std::string show(const Op &o) {
    static const char *n[] = {"set coordinates", "set field elements", "set identity", "copy", "add", "sub", "double", "negate", "multiply", "base multiply", "set up table", "swap", "conditional swap", "read affine", "decode", "clear+init", "compare", "release unused curves"};
    return vc::fmt("%s(slot %d <- %d,%d; %ld)", n[o.k], o.i, o.j, o.l, o.arg);
}
struct Cv { BigRef r; int cls; std::vector<BP> sample; std::map<std::string, BP> muls; };
struct CurveObj { mpECurve_t cv; };
struct World {
    std::vector<Cv> &C; std::vector<CurveObj> obj; struct Slot { mpECP_t q; int c; BP v; bool everTable; }; std::vector<Slot> s; bool cleared = false;
    World(std::vector<Cv> &c, int n) : C(c), obj(c.size()), s(n) {
        for (size_t i = 0; i < C.size(); i++) { mpECurve_init(obj[i].cv); if (C[i].r.define(obj[i].cv)) { fprintf(stderr, "library refuses %s\n", C[i].r.name.c_str()); abort(); } }
        for (int i = 0; i < n; i++) { int k = i % C.size(); mpECP_init(s[i].q, obj[k].cv); s[i].c = k; s[i].v = C[k].sample[i % C[k].sample.size()]; s[i].everTable = false; set_pt(s[i].q, s[i].v, obj[k].cv); }
    }
    std::vector<char> gone = std::vector<char>(16, 0);
    // releases every curve object no slot is bound to: nothing may refer to it any more
    void release_unused() { for (size_t k = 0; k < C.size(); k++) { bool used = gone[k]; for (auto &x : s) if (x.c == (int)k) used = true; if (used) continue; gone[k] = 1; mpECurve_clear(obj[k].cv); memset((void *)obj[k].cv, 0xEE, sizeof(obj[k].cv)); } }
    void clear() { if (cleared) return; cleared = true; for (auto &x : s) mpECP_clear(x.q); for (size_t k = 0; k < C.size(); k++) if (!gone[k]) mpECurve_clear(obj[k].cv); }
    ~World() { clear(); }
    bool same(int a, int b) { return C[a].cls == C[b].cls; }
    bool enabled(const Op &o) {
        switch (o.k) {
            case ADD: case SUB: return same(s[o.j].c, s[o.l].c);
            case SWAP: return same(s[o.i].c, s[o.j].c);
            case CSWAP: return same(s[o.i].c, s[o.j].c) && !s[o.i].everTable && !s[o.j].everTable;
            default: return true;
        }
    }
    BP mulr(int c, const Z &k, const BP &p) { return C[c].r.mul(k.mod(C[c].r.n), p); }
    void apply(vc::Ctx &c, const Op &o) {
        Slot &a = s[o.i]; int j = o.j < 0 ? o.i : o.j, l = o.l < 0 ? o.i : o.l; c.trans();
        switch (o.k) {
            case SETPT: case SETFE: case DECODE: {
                int k = o.l; const BigRef &r = C[k].r; const BP &p = C[k].sample[o.arg % C[k].sample.size()]; mpECurve_ptr cv = obj[k].cv;
                if (o.k == SETPT || p.inf) set_pt(a.q, p, cv);
                else if (o.k == SETFE) { Fe x(p.x, r.p), y(p.y, r.p); mpECP_set_mpFp(a.q, x.f, y.f, cv); }
                else { unsigned L = (r.bits + 7) / 8; std::vector<unsigned char> b(1 + 2 * L, 0); size_t n; b[0] = 4; Z t = p.x; unsigned char w[256]; mpz_export(w, &n, 1, 1, 1, 0, t.v); memcpy(&b[1 + L - n], w, n); t = p.y; mpz_export(w, &n, 1, 1, 1, 0, t.v); memcpy(&b[1 + 2 * L - n], w, n);
                    int e = mpECP_set_bytes(a.q, b.data(), b.size(), cv); if (e) c.fail("valid encoding of %s refused on %s", r.show(p).c_str(), r.name.c_str()); }
                a.c = k; a.v = p; break; }
            case NEUTRAL: mpECP_set_neutral(a.q, obj[o.l].cv); a.c = o.l; a.v = C[o.l].r.zero(); break;
            case COPY: mpECP_set(a.q, s[j].q); a.c = s[j].c; a.v = s[j].v; break;
            case ADD: mpECP_add(a.q, s[j].q, s[l].q); { BP v = C[s[j].c].r.add(s[j].v, s[l].v); a.c = s[j].c; a.v = v; } break;
            case SUB: mpECP_sub(a.q, s[j].q, s[l].q); { BP v = C[s[j].c].r.add(s[j].v, C[s[j].c].r.neg(s[l].v)); a.c = s[j].c; a.v = v; } break;
            case DBL: mpECP_double(a.q, s[j].q); { BP v = C[s[j].c].r.add(s[j].v, s[j].v); a.c = s[j].c; a.v = v; } break;
            case NEG: mpECP_neg(a.q, s[j].q); { BP v = C[s[j].c].r.neg(s[j].v); a.c = s[j].c; a.v = v; } break;
            case MUL: { Z k(o.arg); BP v = mulr(s[j].c, k, s[j].v); mpECP_scalar_mul_mpz(a.q, s[j].q, k.v); a.c = s[j].c; a.v = v; break; }
            case BASE: { Z k(o.arg); BP v = mulr(s[j].c, k, s[j].v); mpECP_scalar_base_mul_mpz(a.q, s[j].q, k.v); s[j].everTable = true; a.c = s[j].c; a.v = v; break; }
            case SETUP: mpECP_scalar_base_mul_setup(a.q); a.everTable = true; break;
            case SWAP: mpECP_swap(a.q, s[j].q); std::swap(a.v, s[j].v); std::swap(a.everTable, s[j].everTable); break;
            case CSWAP: mpECP_cswap(a.q, s[j].q, (int)o.arg); if (o.arg) std::swap(a.v, s[j].v); break;
            case READ: { if (a.v.inf) { Z x; mpz_set_mpECP_affine_x(x.v, a.q); break; } Z x, y; mpz_set_mpECP_affine_x(x.v, a.q); mpz_set_mpECP_affine_y(y.v, a.q); if (x != a.v.x || y != a.v.y) c.fail("slot %d reads as (0x%s,0x%s), expected %s", o.i, x.str().c_str(), y.str().c_str(), C[a.c].r.show(a.v).c_str()); break; }
            case RENEW: mpECP_clear(a.q); mpECP_init(a.q, obj[o.l].cv); mpECP_set_neutral(a.q, obj[o.l].cv); a.c = o.l; a.v = C[o.l].r.zero(); a.everTable = false; break;
            case CMP: { int e = mpECP_cmp(a.q, s[j].q); bool want = same(a.c, s[j].c) && a.v == s[j].v; if ((e == 0) != want) c.fail("comparing slots %d and %d gives %d, values are %s and %s", o.i, j, e, C[a.c].r.show(a.v).c_str(), C[s[j].c].r.show(s[j].v).c_str()); break; }
            case REDEF: break;
        }
    }
    void check(vc::Ctx &c, const std::vector<const Op *> &h, bool originals) {
        auto path = [&]() { std::string t; for (auto o : h) t += show(*o) + "; "; return t; };
        for (size_t i = 0; i < s.size(); i++) {
            Slot &a = s[i]; mpECurve_ptr cv = obj[a.c].cv;
            if (mpECurve_cmp(a.q->cvp, cv) != 0) c.fail("after %sslot %zu is no longer on its curve %s", path().c_str(), i, C[a.c].r.name.c_str());
            Pt k(cv); if (!originals) mpECP_set(k.q, a.q);
            mpECP_ptr q = originals ? (mpECP_ptr)a.q : (mpECP_ptr)k.q;
            if (!same_pt(q, a.v, cv)) c.fail("after %sslot %zu should be %s on %s, got %s", path().c_str(), i, C[a.c].r.show(a.v).c_str(), C[a.c].r.name.c_str(), raw(q).c_str());
        }
        for (size_t k = 0; k < C.size(); k++) { if (gone[k]) continue; // curve objects still as defined
            mpECurve_t w; mpECurve_init(w); C[k].r.define(w); int e = mpECurve_cmp(w, obj[k].cv), e2 = mpECurve_cmp(obj[k].cv, w); unsigned b = obj[k].cv->bits; int pc = mpECurve_point_check(obj[k].cv, (mpz_ptr)C[k].r.G.x.v, (mpz_ptr)C[k].r.G.y.v); bool pp = mpz_cmp(obj[k].cv->fp->p, C[k].r.p.v) == 0; mpECurve_clear(w);
            if (e || e2 || b != C[k].r.bits || pc == 0 || !pp) c.fail("after %sthe curve object %s was modified", path().c_str(), C[k].r.name.c_str());
        }
    }
    uint64_t hash() { std::string t; for (auto &a : s) t += vc::fmt("%d:%d:", a.c, (int)a.everTable) + (a.v.inf ? "O" : a.v.x.str() + "," + a.v.y.str()) + ";"; return vc::hash_str(t); }
};
// all sequences of exactly `depth` steps starting with operation `first` (the shorter ones are their prefixes and checked on the way)
template <class Make, class End> void sequences(vc::Ctx &c, const std::vector<Op> &A, int depth, size_t first, Make make, End end) {
    vc::heap_count_on(); if (first >= A.size()) return;
    { World *w = make(); for (auto &k : w->C) { Fe e(Z(1), k.r.n); Z o(1); Pt t(w->obj[&k - &w->C[0]].cv); set_pt(t.q, k.r.G, w->obj[&k - &w->C[0]].cv); mpECP_scalar_mul_mpz(t.q, t.q, o.v); } delete w; } { World *w = make(); delete w; }
    std::vector<size_t> ix(depth, 0); ix[0] = first;
    for (;;) {
        if (c.next()) {
            std::vector<const Op *> h; h.reserve(8); long g0 = guard::live, h0 = vc::heap_live;
            { World *w = make(); bool ok = true; struct D { World *w; ~D() { delete w; } } dd{w};
              for (int d = 0; d < depth; d++) { const Op &o = A[ix[d]]; if (!w->enabled(o)) { ok = false; for (int e = d + 1; e < depth; e++) ix[e] = A.size() - 1; break; } w->apply(c, o); h.push_back(&o); }
              if (ok) { w->check(c, h, false); end(*w, h); w->check(c, h, true); c.trace(); c.outcome(w->hash()); }
              c.state(w->hash());
              if (c.cur % 1009 == 7 && ok && c.want_sample()) { std::string t; for (auto o : h) t += show(*o) + "; "; c.sample("%s-> slot0=%s", t.c_str(), w->C[w->s[0].c].r.show(w->s[0].v).c_str()); } }
            if (guard::live != g0 || vc::heap_live != h0) { std::string t; for (auto o : h) t += show(*o) + "; "; c.fail("memory is not balanced after clearing everything (%ld number blocks, %ld heap blocks): %s", guard::live - g0, vc::heap_live - h0, t.c_str()); }
        }
        int d = depth - 1; while (d >= 1 && ++ix[d] == A.size()) { ix[d] = 0; d--; }
        if (d < 1) break;
    }
}
}
