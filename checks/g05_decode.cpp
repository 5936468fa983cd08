// G05: which strings decode, and to what.
#include "guard.hpp"
#include "enc.hpp"
using vc::Ctx;
static const unsigned char PFX[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 0x10, 0x12, 0x40, 0x82, 0x84, 0xFE, 0xFF};

struct W { // a small curve object (any non-singular curve; no complete group law needed) plus a scratch point
    BigRef r; mpECurve_t cv; bool ok = false;
    W(Form f, long p, long a, long b) {
        RefCurve q{f, p, a, b}; bool ns = f == WS ? q.m(4 * q.m(q.m(a * a) * a) + 27 * q.m(b * b)) != 0 : f == MO ? q.m(a) && q.m(b * b - 4) : f == ED ? q.m(a) && q.m(b) && q.m(1 - b * q.pw(a, 4)) : q.m(a) && q.m(b) && q.m(a - b);
        if (!ns) return; r.f = f; r.name = q.name(); r.name.resize(r.name.find(" order")); r.p = Z(p); r.a = Z(a); r.b = Z(b); r.n = Z(7); r.h = Z(1); r.bits = q.bits(); bool got = false;
        for (long x = 0; x < p && !got; x++) for (long y = 0; y < p && !got; y++) if (q.on(x, y)) { r.G.x = Z(x); r.G.y = Z(y); got = true; }
        if (!got) return; mpECurve_init(cv); if (r.define(cv)) { fprintf(stderr, "library refuses %s\n", r.name.c_str()); abort(); } ok = true;
    }
    ~W() { if (ok) mpECurve_clear(cv); }
};
static void usable(Ctx &c, W &w, mpECP_ptr q) { set_pt(q, w.r.G, w.cv); if (!same_pt(q, w.r.G, w.cv)) c.fail("%s: the target of a decode is not usable afterwards", w.r.name.c_str()); }
// every byte string over one-byte coordinates: all of length 0..2, all of length 3 for the prefix alphabet, boundary ones of length 4 and 5
static void one_byte(Ctx &c, Form f, long p, long a, long b) {
    W w(f, p, a, b); if (!w.ok) return; mpECurve_ptr cv = w.cv; Pt q(cv); set_pt(q.q, w.r.G, cv); unsigned char s[8];
    auto run = [&](size_t n) { if (!c.next()) return; uint64_t hh[] = {(uint64_t)f, (uint64_t)p, (uint64_t)a, (uint64_t)b, n, 0}; memcpy(&hh[5], s, n); c.state(vc::hash_bytes(hh, sizeof hh)); check_decode(c, w.r, cv, q.q, s, n, false, "", false); c.trace(); if (c.cur % 50021 == 9) c.sample("%s: %s", w.r.name.c_str(), vc::hex(s, n).c_str()); };
    run(0); for (int i = 0; i < 256; i++) { s[0] = i; run(1); for (int j = 0; j < 256; j++) { s[1] = j; run(2); } } usable(c, w, q.q);
    for (unsigned char x : PFX) { s[0] = x; bool live = x == 4 || x == 0; for (int i = 0; i < 256; i += live ? 1 : 13) for (int j = 0; j < 256; j += live ? 1 : 17) { s[1] = i; s[2] = j; run(3); } } usable(c, w, q.q);
    unsigned char al[] = {0, 1, 2, (unsigned char)(p - 1), (unsigned char)p, 255};
    for (unsigned char x : PFX) for (unsigned char i : al) for (unsigned char j : al) for (unsigned char k : al) { s[0] = x; s[1] = i; s[2] = j; s[3] = k; run(4); s[4] = 0; run(5); s[4] = k; s[5] = i; run(6); } usable(c, w, q.q);
}
static void two_byte(Ctx &c, Form f, long p, long a, long b) {
    W w(f, p, a, b); if (!w.ok) return; mpECurve_ptr cv = w.cv; Pt q(cv); set_pt(q.q, w.r.G, cv); unsigned char s[8];
    auto run = [&](size_t n) { if (!c.next()) return; uint64_t hh[] = {(uint64_t)f, (uint64_t)p, (uint64_t)a, (uint64_t)b, n, 0}; memcpy(&hh[5], s, n); c.state(vc::hash_bytes(hh, sizeof hh)); check_decode(c, w.r, cv, q.q, s, n, false, "", false); c.trace(); if (c.cur % 50021 == 9) c.sample("%s: %s", w.r.name.c_str(), vc::hex(s, n).c_str()); };
    for (unsigned char x : {0, 2, 3, 4, 5}) for (int v = 0; v < 65536; v += (x == 2 || x == 3) && v < 2 * p + 5 ? 1 : 7) { s[0] = x; s[1] = v >> 8; s[2] = v; run(3); }
    std::vector<int> X, Y; for (int v = 0; v < p + 4; v += v > 20 && v < p - 20 ? 5 : 1) { X.push_back(v); Y.push_back(v); } X.push_back(2 * p); X.push_back(2 * p + 1); X.push_back(65535); Y.push_back(65535); Y.push_back(256 * (p & 255)); for (int v = p; v < 2 * p; v += 9) Y.push_back(v);
    for (unsigned char x : {0, 2, 4}) for (int i : X) for (int j : Y) { if (x != 4 && (i > 2 || j > 2)) continue; s[0] = x; s[1] = i >> 8; s[2] = i; s[3] = j >> 8; s[4] = j; run(5); s[5] = 0; if (i < 3) { run(6); run(4); } } usable(c, w, q.q);
}
static bool ishex(int ch) { return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'); }
static int hv(int ch) { return ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10; }
static void text(Ctx &c, const BigRef &r, mpECurve_ptr cv, mpECP_ptr q, const std::string &t) {
    bool ok = t.size() % 2 == 0; for (unsigned char ch : t) ok = ok && ishex(ch); Bytes b; if (ok) for (size_t i = 0; i < t.size(); i += 2) b.push_back(hv(t[i]) * 16 + hv(t[i + 1])); b.push_back(0);
    check_decode(c, r, cv, q, b.data(), b.size() - 1, true, t.c_str(), ok);
}
static const char *ODD = "0123456789abcdefABCDEFgGxX-+ .\t\n/:@`";
static void small_text(Ctx &c, Form f, long p, long a, long b) {
    W w(f, p, a, b); if (!w.ok) return; mpECurve_ptr cv = w.cv; Pt q(cv); set_pt(q.q, w.r.G, cv);
    std::string al = "014abF g-+x\x80\xff"; std::string al2 = "0249aFG \t-+xX:/@`\xff"; std::vector<std::string> S = {"", "0", "00", "000", "0000", "00000", "000000", "0000000", "00000000", "0x02", "0X0201", "+2", "02 1", " 2 1", "2\n1"};
    for (char i : al) for (char j : al) { S.push_back({i, j}); for (char k : al) { S.push_back({i, j, k}); } }
    for (char i : al2) for (char j : al2) for (char k : al2) for (char l : al2) S.push_back({i, j, k, l});
    for (const char *pre : {"04", "4", "02", "00"}) for (char i : al) for (char j : al) for (char k : al) for (char l : al) S.push_back(std::string(pre) + i + j + k + l);
    for (auto &t : S) { if (!c.next()) continue; c.state(vc::hash_str(w.r.name + t)); text(c, w.r, cv, q.q, t); c.trace(); }
    usable(c, w, q.q);
}
static void named(Ctx &c, const char *name, bool th, int part, int parts) {
    BigRef r = *golden(name); NamedCurve L(name); mpECurve_ptr cv = L.cv; Pt q(cv); set_pt(q.q, r.G, cv); size_t Lb = (r.bits + 7) / 8; std::string nm = name; int turn = 0;
    auto run = [&](const Bytes &b) { if (turn++ % parts != part) return; if (!c.next()) return; c.state(vc::hash_bytes(b.data(), b.size(), vc::hash_str(nm))); check_decode(c, r, cv, q.q, b.data(), b.size(), false, "", false); c.trace(); if (c.cur == 77) c.sample("%s: %s", name, vc::hex(b.data(), b.size()).c_str()); };
    auto runt = [&](const std::string &t) { if (turn++ % parts != part) return; if (!c.next()) return; c.state(vc::hash_str(nm + t)); text(c, r, cv, q.q, t); c.trace(); };
    for (int which = 0; which < 2; which++) {
        BP P = which ? r.neg(r.mul(Z(3), r.G)) : r.G;
        for (bool comp : {true, false}) {
            Bytes e = encode(r, P, comp);
            for (int v = 0; v < 256; v++) { Bytes m = e; m[0] = v; run(m); }
            std::vector<int> xs; for (size_t i = 1; i < e.size(); i++) {
                bool edge = i == 1 || i == Lb || i == Lb + 1 || i + 1 == e.size();
                for (int v = 0; v < 256; v++) { int fl = v ^ e[i]; bool bit = fl && !(fl & (fl - 1)); if (!th && !bit && !(edge && (v % 5 == 0 || v == 255)) && v != 0 && v != 255) continue; if (which && !bit && !th) continue; Bytes m = e; m[i] = v; run(m); } }
            for (size_t n = 0; n <= e.size(); n++) { Bytes m(e.begin(), e.begin() + n); run(m); m = Bytes(n, 0); run(m); }
            for (size_t n = 1; n <= Lb + 2; n++) { Bytes m = e; m.resize(e.size() + n, 0); run(m); m = e; m.insert(m.begin(), n, 0); run(m); m = Bytes(e.size() + n, 0); run(m); m = Bytes(e.size(), 0); if (n < m.size()) { m[n] = 1; run(m); m[n] = 0; m[m.size() - n] = 0x80; run(m); } }
            // not reduced: coordinates of the point plus the modulus, the modulus itself and beyond
            Z cap = Z::pow2(8 * Lb); for (Z x : {r.p, r.p + Z(1), r.p + P.x, P.x, r.p - Z(1), Z(0), Z(1), cap - Z(1), Z::pow2(r.bits - 1)}) { if (x >= cap) continue; if (comp) { for (int pf : {2, 3}) { Bytes m(1, pf), t = be(x, Lb); m.insert(m.end(), t.begin(), t.end()); run(m); } } else for (Z y : {P.y, P.y + r.p, r.p - P.y, r.p, Z(0), Z(1), cap - Z(1)}) { if (y >= cap) continue; Bytes m(1, 4), t = be(x, Lb), u = be(y, Lb); m.insert(m.end(), t.begin(), t.end()); m.insert(m.end(), u.begin(), u.end()); run(m); t.swap(u); } }
            // small x coordinates
            if (comp && !which) for (long x = 0; x < (th ? 400 : 60); x++) for (int pf : {2, 3}) { Bytes m(1, pf), t = be(Z(x), Lb); m.insert(m.end(), t.begin(), t.end()); run(m); t = be(r.p - Z(1) - Z(x), Lb); m.resize(1); m.insert(m.end(), t.begin(), t.end()); run(m); }
            std::string s = up(e); runt(lower(s)); runt(s);
            for (size_t i = 0; i < s.size(); i += (th || i < 4 || i + 4 > s.size()) ? 1 : 5) for (const char *o = ODD; *o; o++) { std::string m = s; m[i] = *o; if (!th && ishex(*o) && i > 3) continue; runt(m); }
            for (size_t n = 0; n <= s.size(); n += th || n < 6 || n + 6 > s.size() ? 1 : 3) runt(s.substr(0, n)); runt(s + "0"); runt(s + "00"); runt(s + " "); runt(" " + s); runt("0x" + s); runt(s + "\n"); runt("-" + s.substr(1)); runt("+" + s.substr(1)); runt(s.substr(0, s.size() - 1) + "\x80");
        }
    }
    set_pt(q.q, r.G, cv); if (!same_pt(q.q, r.G, cv)) c.fail("%s: not usable afterwards", name);
}
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    vc::child_init() = guard::install;
    for (int f = 0; f < 4; f++) {
        for (long p : {5l, 13l, 127l, 251l}) for (int k = 0; k < (th ? 6 : 2); k++) vc::unit(vc::fmt("%s: every short byte string, F_%ld, curve %d", FORM[f], p, k), [=](Ctx &c) { one_byte(c, (Form)f, p, (k * 3 + 1) % p, (k * 7 + 2) % p); });
        for (long p : {257l, 523l}) for (int k = 0; k < (th ? 6 : 2); k++) vc::unit(vc::fmt("%s: two-byte coordinates, F_%ld, curve %d", FORM[f], p, k), [=](Ctx &c) { two_byte(c, (Form)f, p, k * 3 + 2, k * 7 + 5); });
        for (long p : {13l, 251l}) vc::unit(vc::fmt("%s: short texts, F_%ld", FORM[f], p), [=](Ctx &c) { small_text(c, (Form)f, p, 1, 2); });
        // compressed decoding on every curve over small fields, singular denominators included
        for (long p : {5l, 7l, 11l, 13l, 17l}) vc::unit(vc::fmt("%s: every compressed string on every curve over F_%ld", FORM[f], p), [=](Ctx &c) { for (long a = 0; a < p; a++) for (long b = 0; b < p; b++) { W w((Form)f, p, a, b); if (!w.ok) continue; Pt q(w.cv); set_pt(q.q, w.r.G, w.cv);
            for (int pf = 0; pf < 6; pf++) for (int x = 0; x < p + 3; x++) { if (!c.next()) continue; unsigned char s[2] = {(unsigned char)pf, (unsigned char)x}; uint64_t hh[] = {(uint64_t)f, (uint64_t)p, (uint64_t)a, (uint64_t)b, (uint64_t)pf, (uint64_t)x, 99}; c.state(vc::hash_bytes(hh, sizeof hh)); check_decode(c, w.r, w.cv, q.q, s, 2, false, "", false); c.trace(); } } });
    }
    for (int g = 0; g < NGOLDEN; g++) for (int k = 0; k < (th ? 4 : 1); k++) vc::unit(vc::fmt("edits of valid encodings on %s, part %d", GOLDEN[g].name, k), [=](Ctx &c) { named(c, GOLDEN[g].name, th, k, th ? 4 : 1); });
    return vc::main_(argc, argv);
}
