// X02: armoured text and reading of whole files, over every way the underlying reads and writes can split or fail.
#include "der.hpp"
using vc::Ctx;
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const Bytes &b, size_t line = 72) { std::string s; size_t col = 0; auto put = [&](char ch) { if (line && col == line) { s += '\n'; col = 0; } s += ch; col++; };
    for (size_t i = 0; i < b.size(); i += 3) { unsigned v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0); put(B64[v >> 18]); put(B64[v >> 12 & 63]); put(i + 1 < b.size() ? B64[v >> 6 & 63] : '='); put(i + 2 < b.size() ? B64[v & 63] : '='); } return s + "\n"; }
static std::string armour(const Bytes &b, const char *wrap, size_t line = 72) { return std::string("-----BEGIN ") + wrap + "-----\n" + enc(b, line) + "-----END " + wrap + "-----\n"; }
static Bytes pattern(size_t n, int kind) { Bytes b(n); for (size_t i = 0; i < n; i++) switch (kind) { case 0: b[i] = 0; break; case 1: b[i] = 255; break; case 2: b[i] = i * 167 + (i >> 8) * 13 + 5; break; case 3: b[i] = i & 1 ? 0xfb : 0xef; break; default: b[i] = '-'; } return b; }
// a stream whose reads return at most `chunk` bytes and fail at byte `bad` (-1: never)
struct Src { std::string d; size_t pos = 0, chunk = 0; long bad = -1; int nerr = 0, calls = 0; bool again = false; };
static ssize_t src_read(void *ck, char *buf, size_t n) { Src *s = (Src *)ck; s->calls++; if (s->calls > 2000000) { fprintf(stderr, "the reads never end\n"); _exit(99); } if (s->bad >= 0 && s->pos == (size_t)s->bad) { s->nerr++; if (s->nerr > 1000) { fprintf(stderr, "failing reads are repeated for ever\n"); _exit(98); } errno = EIO; return -1; } size_t m = s->d.size() - s->pos; if (s->bad >= 0 && s->pos < (size_t)s->bad) m = std::min(m, (size_t)s->bad - s->pos); if (s->chunk) m = std::min(m, s->chunk); m = std::min(m, n); memcpy(buf, s->d.data() + s->pos, m); s->pos += m; return m; }
static FILE *source(Src &s, int buf) { cookie_io_functions_t f = {src_read, nullptr, nullptr, nullptr}; FILE *h = fopencookie(&s, "r", f); if (!h) abort(); if (buf == 0) setvbuf(h, nullptr, _IONBF, 0); else if (buf > 1) setvbuf(h, nullptr, _IOFBF, buf); return h; }
struct Sink { std::string d; long bad = -1; int nerr = 0; };
static ssize_t sink_write(void *ck, const char *b, size_t n) { Sink *s = (Sink *)ck; if (s->bad >= 0 && s->d.size() + n > (size_t)s->bad) { size_t m = s->bad - s->d.size(); s->d.append(b, m); if (m) return m; s->nerr++; errno = ENOSPC; return 0; } s->d.append(b, n); return n; } // a short count is an error to stdio's cookie streams
static FILE *sink(Sink &s, int buf) { cookie_io_functions_t f = {nullptr, sink_write, nullptr, nullptr}; FILE *h = fopencookie(&s, "w", f); if (!h) abort(); if (buf == 0) setvbuf(h, nullptr, _IONBF, 0); else if (buf == 1) setvbuf(h, nullptr, _IOLBF, 0); else if (buf > 1) setvbuf(h, nullptr, _IOFBF, buf); return h; }
static std::string esc(const std::string &s) { std::string o; for (unsigned char ch : s.size() > 260 ? s.substr(0, 250) : s) { if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) o += vc::fmt("\\x%02x", ch); else o += ch; } return o; }
// --- whole files
static void file(Ctx &c, size_t n, size_t chunk, int buf, long bad, int kind) {
    if (bad >= 0 ? c.is_known("read-fails") : n == 0 && c.is_known("read-empty")) return;
    Bytes b = pattern(n, kind); Src s; s.d.assign(b.begin(), b.end()); s.chunk = chunk; s.bad = bad; size_t sz = 0x5b5b5b5b; c.trans();
    std::string what = vc::fmt("file of %zu bytes read %zu at a time%s", n, chunk, bad >= 0 ? vc::fmt(", reads fail from byte %ld", bad).c_str() : ""); long g0 = vc::heap_live;
    FILE *h = source(s, buf); char *p = read_buffer_from_file(h, &sz); fclose(h);
    if (bad >= 0) { if (p) c.fail("%s: reported as %zu bytes", what.c_str(), sz); }
    else { if (!p) c.fail("%s: refused", what.c_str()); if (sz != n || memcmp(p, s.d.data(), n)) c.fail("%s: %zu bytes are returned%s", what.c_str(), sz, sz == n ? ", not the same" : ""); free(p); }
    if (vc::heap_live - g0 != 0) c.fail("%s: leaves %ld blocks", what.c_str(), vc::heap_live - g0);
    c.trace(); c.state(n * 1000003ull + chunk * 131 + bad * 7 + buf); c.outcome((p != nullptr) * 2 + (bad >= 0));
}
// --- armour
static std::string write_(Ctx &c, const Bytes &b, const char *wrap, int buf, const std::string &what) {
    Sink s; char *in = (char *)malloc(b.size() ? b.size() : 1); memcpy(in, b.data(), b.size()); FILE *h = sink(s, buf); int st = write_b64wrapped_to_file(h, in, b.size(), (char *)wrap); if (st != 0) c.fail("%s: not written", what.c_str()); if (fclose(h)) c.fail("%s: close fails", what.c_str()); if (memcmp(in, b.data(), b.size())) c.fail("%s: writing changed the data", what.c_str()); free(in); c.trans(); return s.d;
}
struct Copy { char *p; size_t n; Copy(const std::string &s) : n(s.size() + 1) { p = (char *)malloc(n); memcpy(p, s.c_str(), n); } ~Copy() { free(p); } };
static void expect_buf(Ctx &c, const std::string &text, const char *wrap, const Bytes *want, const std::string &what) {
    if (want && want->empty() && c.is_known("unwrap-empty")) return;
    Copy t(text); size_t sz = 0x5b5b5b5b; char *p = read_b64wrapped_from_buffer(t.p, (char *)wrap, &sz); c.trans();
    if (!want) { if (p) c.fail("%s: accepted [%s]", what.c_str(), esc(text).c_str()); return; }
    if (!p) c.fail("%s: refused [%s]", what.c_str(), esc(text).c_str()); if (sz != want->size() || memcmp(p, want->data(), sz)) c.fail("%s: read back as %zu bytes%s [%s]", what.c_str(), sz, sz == want->size() ? ", not the same" : "", esc(text).c_str()); free(p);
}
static void expect_file(Ctx &c, const std::string &text, const char *wrap, const Bytes *want, size_t chunk, int buf, const std::string &what) {
    if (want && want->empty() && c.is_known("unwrap-empty")) return; if (text.empty() && c.is_known("read-empty")) return;
    Src s; s.d = text; s.chunk = chunk; FILE *h = source(s, buf); size_t sz = 0x5b5b5b5b; char *p = read_b64wrapped_from_file(h, (char *)wrap, &sz); fclose(h); c.trans();
    if (!want) { if (p) c.fail("%s: accepted", what.c_str()); return; } if (!p) c.fail("%s: refused", what.c_str()); if (sz != want->size() || memcmp(p, want->data(), sz)) c.fail("%s: read back as %zu bytes%s", what.c_str(), sz, sz == want->size() ? ", not the same" : ""); free(p);
}
static bool short_room(size_t n) { return n && (n + 2) / 3 * 4 + n / 54 + 2 > 2 * n; } // the text needs more than twice the data
static bool unwritable(Ctx &c, size_t n) { return n == 0 ? c.is_known("write-empty") : short_room(n) ? c.is_known("write-short") : false; }
static void both(Ctx &c, size_t n, int kind, bool light) {
    if (unwritable(c, n)) return;
    Bytes b = pattern(n, kind); std::string what = vc::fmt("%zu bytes, pattern %d", n, kind); const char *wrap = "ECDH PUBLIC KEY"; std::string t = write_(c, b, wrap, 4096, what);
    std::string head = std::string("-----BEGIN ") + wrap + "-----\n", foot = std::string("-----END ") + wrap + "-----\n"; if (t.compare(0, head.size(), head) || t.size() < head.size() + foot.size() || t.compare(t.size() - foot.size(), foot.size(), foot)) c.fail("%s: written as [%s]", what.c_str(), esc(t).c_str());
    std::string body = t.substr(head.size(), t.size() - head.size() - foot.size()), flat; for (char ch : body) if (ch != '\n') flat += ch; std::string w = enc(b, 0); w.pop_back(); if (flat != w) c.fail("%s: encoded as [%s]", what.c_str(), esc(body).c_str()); if (!body.empty() && body.back() != '\n') c.fail("%s: footer not on a line of its own [%s]", what.c_str(), esc(t).c_str());
    expect_buf(c, t, wrap, &b, what); expect_file(c, t, wrap, &b, 0, 4096, what); expect_buf(c, armour(b, wrap), wrap, &b, what + ", reference text");
    if (!light) { for (int buf : {0, 1, 2, 7, 64}) if (write_(c, b, wrap, buf, what) != t) c.fail("%s: another text when written in pieces", what.c_str()); for (size_t line : {0, 4, 64, 76}) expect_buf(c, armour(b, wrap, line), wrap, &b, what + vc::fmt(", lines of %zu", line)); std::string crlf; for (char ch : t) { if (ch == '\n') crlf += '\r'; crlf += ch; } expect_buf(c, crlf, wrap, &b, what + ", CR LF"); for (size_t ch : {1, 2, 3, 17}) expect_file(c, t, wrap, &b, ch, ch & 1 ? 0 : 16, what + vc::fmt(", read %zu at a time", ch)); }
    long g0 = vc::heap_live; { Copy k(t); size_t sz; bool once = c.is_known("unwrap-destroys"); for (int i = 0; i < (once ? 1 : 2); i++) { char *p = read_b64wrapped_from_buffer(k.p, (char *)wrap, &sz); if (!p || sz != n || memcmp(p, b.data(), n)) c.fail("%s: pass %d over the same buffer fails", what.c_str(), i + 1); free(p); } if (!once && strcmp(k.p, t.c_str())) c.fail("%s: reading changed the buffer", what.c_str()); } if (vc::heap_live != g0) c.fail("%s: reading leaves %ld blocks", what.c_str(), vc::heap_live - g0);
    c.trace(); c.state(n * 8 + kind); c.outcome(n % 54 * 4 + n % 3); if (c.want_sample() && n > 3) c.sample("%zu bytes <-> [%s]", n, esc(t).substr(0, 250).c_str());
}
static void write_errors(Ctx &c, size_t n) {
    if (unwritable(c, n)) return; Bytes b = pattern(n, 2); std::string full = write_(c, b, "X Y", 4096, "reference");
    for (long bad = 0; bad < (long)full.size(); bad++) for (int buf : {0, 1, 2, 16, 4096}) { if (!c.next() || c.is_known("write-error")) continue; Sink s; s.bad = bad; FILE *h = sink(s, buf); int st = write_b64wrapped_to_file(h, (char *)(n ? (void *)b.data() : (void *)""), b.size(), (char *)"X Y"); int e = ferror(h); int cl = fclose(h); c.trans(); if (st == 0) c.fail("%zu bytes, output full after %ld of %zu: success is reported (stream error %d, close %d)", n, bad, full.size(), e, cl); c.trace(); c.state(bad * 100 + buf); }
    for (long bad = full.size(); bad < (long)full.size() + 2; bad++) if (c.next()) { Sink s; s.bad = bad; FILE *h = sink(s, 64); int st = write_b64wrapped_to_file(h, (char *)(n ? (void *)b.data() : (void *)""), b.size(), (char *)"X Y"); fclose(h); if (st != 0 || s.d != full) c.fail("%zu bytes, output of exactly the room needed: failure is reported", n); c.trace(); }
}
static void damaged(Ctx &c, size_t n, const char *wrap, bool th) {
    Bytes b = pattern(n, 2); std::string t = armour(b, wrap), head = std::string("-----BEGIN ") + wrap, foot = std::string("-----END ") + wrap; size_t f0 = t.find(foot);
    auto lenient = [&](const std::string &x, const std::string &what) { long g0 = vc::heap_live; { Copy k(x); size_t sz = 0x5b5b5b5b; char *p = read_b64wrapped_from_buffer(k.p, (char *)wrap, &sz); c.trans(); if (p && sz > x.size()) c.fail("%s: %zu bytes from %zu characters", what.c_str(), sz, x.size()); if (p) { volatile unsigned char q = 0; for (size_t i = 0; i < sz; i++) q ^= p[i]; } free(p); } if (vc::heap_live != g0) c.fail("%s: leaves %ld blocks", what.c_str(), vc::heap_live - g0); c.trace(); c.state(vc::hash_str(x)); };
    auto refused = [&](const std::string &x, const std::string &what) { long g0 = vc::heap_live; expect_buf(c, x, wrap, nullptr, what); if (vc::heap_live != g0) c.fail("%s: leaves %ld blocks", what.c_str(), vc::heap_live - g0); expect_file(c, x, wrap, nullptr, 0, 4096, what); c.trace(); c.state(vc::hash_str(x)); };
    for (size_t i = 0; i < t.size(); i++) { if (!c.next()) continue; if (i < f0 + foot.size()) refused(t.substr(0, i), vc::fmt("cut to %zu of %zu", i, t.size())); else lenient(t.substr(0, i), "cut in the last dashes"); }
    for (size_t i = 1; i <= t.size(); i++) { if (!c.next()) continue; if (i > 5) refused(t.substr(i), vc::fmt("first %zu characters missing", i)); else lenient(t.substr(i), "cut in the first dashes"); }
    for (size_t i = 0; i < t.size(); i++) { bool tag = (i >= 5 && i < head.size()) || (i >= f0 + 5 && i < f0 + foot.size()); if (c.next()) { std::string x = t; x.erase(i, 1); if (tag) refused(x, vc::fmt("character %zu lost", i)); else lenient(x, vc::fmt("character %zu lost", i)); }
        for (int ch = 0; ch < 256; ch++) { if (!th && ch % 16 != 13 && ch > 3 && ch < 252) continue; if (t[i] == (char)ch) continue; if (!c.next()) continue; std::string x = t; x[i] = ch; if (tag) refused(x, vc::fmt("character %zu is %02x", i, ch)); else lenient(x, vc::fmt("character %zu is %02x", i, ch)); x = t; x.insert(i, 1, ch); if (tag && i > 5 && i != f0 + 5) refused(x, vc::fmt("%02x inserted at %zu", ch, i)); else lenient(x, vc::fmt("%02x inserted at %zu", ch, i)); } }
    // other sections, other names, junk around
    const char *other = "OTHER THING"; std::string o = armour(pattern(40, 3), other); Bytes ob = pattern(40, 3);
    struct J { std::string pre, post; }; for (auto &j : std::vector<J>{{"", ""}, {"junk\n", "junk\n"}, {"\n\n", "\n"}, {o, ""}, {"", o}, {o, o}, {"--\n", "--\n"}, {"a-b-c\n", ""}, {std::string("BEGIN ") + wrap + "\n", ""}, {std::string("-----END ") + wrap + "-----\n", ""}, {std::string(16000, 'x') + "\n", std::string(16000, 'y')}, {"", std::string("-----BEGIN ") + wrap + "-----\n"}, {"-----BEGIN " + std::string(wrap) + "X-----\n", ""}, {"-----BEGIN X" + std::string(wrap) + "-----\n", ""}}) { if (!c.next()) continue; expect_buf(c, j.pre + t + j.post, wrap, &b, "with text around [" + esc(j.pre).substr(0, 60) + "]"); expect_file(c, j.pre + t + j.post, wrap, &b, 7, 64, "with text around"); if (j.pre == o || j.post == o) expect_buf(c, j.pre + t + j.post, other, &ob, "the other section"); else expect_buf(c, j.pre + t + j.post, other, nullptr, "a section which is not there"); c.trace(); }
    for (auto &x : std::vector<std::string>{"", "-", "-----", "----------", "-----BEGIN", head, head + "-----", head + "-----\n", foot + "-----\n", head + "-----\n" + head + "-----\n", foot + "-----\n" + head + "-----\n", "AAAA\n" + foot + "-----\n", head + "-----\nAAAA\n", head + "-----\nAAAA\n-----END OTHER THING-----\n", o, o + o, std::string(50, '-'), std::string(16000, '-'), std::string(16001, 'A'), std::string(1, 0) + t.substr(1), head + "-----\n" + o, head + "-----\nAAAA\n-----BEGIN OTHER-----\nAAAA\n" + foot + "-----\n"}) { if (!c.next()) continue; refused(x, "text without a complete section [" + esc(x).substr(0, 80) + "]"); }
    // names which contain one another
    std::string a1 = armour(b, "KEY"), a2 = armour(ob, "KEY TWO"), a3 = armour(pattern(7, 1), "A KEY"); Bytes b3 = pattern(7, 1);
    for (auto &x : {a1 + a2 + a3, a3 + a2 + a1, a2 + a1 + a3, a2 + a3 + a1}) if (c.next()) { expect_buf(c, x, "KEY", &b, "one of three sections"); expect_buf(c, x, "KEY TWO", &ob, "one of three sections"); expect_buf(c, x, "A KEY", &b3, "one of three sections"); expect_buf(c, x, "TWO", nullptr, "part of a name"); expect_buf(c, x, "KE", nullptr, "part of a name"); expect_buf(c, x, "", nullptr, "empty name"); c.trace(); }
}
static void warm() { vc::heap_count_on(); Sink s; FILE *h = sink(s, 16); fputs("x", h); fclose(h); }
int main(int argc, char **argv) {
    bool th = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier")) th = !strcmp(argv[i + 1], "thorough");
    size_t top = th ? 2000 : 330; for (int kind = 0; kind < 5; kind++) vc::unit(vc::fmt("armour, pattern %d", kind), [=](Ctx &c) { warm(); for (size_t n = 0; n <= top; n++) if (c.next()) both(c, n, kind, n > 200 && !th); for (size_t m : {4096, 8192, 11520, 11940, 11982, 11988, 12000, 16000, 16384, 23976, 24000, 32000, 65536}) for (long d = -(th ? 30l : 4l); d <= (th ? 30l : 4l); d++) if (c.next()) both(c, m + d, kind, true); });
    vc::unit("armour, all strings of two bytes", [=](Ctx &c) { warm(); for (int v = 0; v < 65536; v += th ? 1 : 3) { if (!c.next()) continue; Bytes b = {(unsigned char)(v >> 8), (unsigned char)v}; std::string t = armour(b, "W"); if (!unwritable(c, 2)) t = write_(c, b, "W", 4096, "two bytes"); if (t != armour(b, "W")) { std::string f = esc(t); c.fail("bytes %04x written as [%s]", v, f.c_str()); } expect_buf(c, t, "W", &b, "two bytes"); c.trace(); } for (int v = 0; v < 256; v++) { if (!c.next()) continue; Bytes b = {(unsigned char)v}; expect_buf(c, unwritable(c, 1) ? armour(b, "W") : write_(c, b, "W", 4096, "one byte"), "W", &b, "one byte"); } for (int i = 0; i < 4; i++) for (int v = 0; v < 64; v++) { if (!c.next()) continue; unsigned x = v << (6 * i); Bytes b = {(unsigned char)(x >> 16), (unsigned char)(x >> 8), (unsigned char)x}; expect_buf(c, write_(c, b, "W", 4096, "three bytes"), "W", &b, "three bytes"); } });
    std::vector<size_t> N; for (size_t n = 0; n <= 40; n++) N.push_back(n); for (long m : {4096l, 16000l, 32000l, 48000l, 64000l}) for (long d = -3; d <= 3; d++) N.push_back(m + d); N.push_back(200000); if (th) { N.push_back(5000000); for (size_t n = 41; n < 2000; n += 13) N.push_back(n); }
    for (int buf : {0, 2, 64, 4096, 16000, 65536}) vc::unit(vc::fmt("whole files, stream buffer %d", buf), [=](Ctx &c) { warm(); for (size_t n : N) for (size_t ch : {0, 1, 2, 3, 7, 100, 4095, 4096, 15999, 16000, 16001}) { if (n > 100000 && ch && ch < 1000) continue; if (!th && n > 20000 && ch && ch < 7) continue; for (int k : {2, 0, 4}) { if (k != 2 && ch > 1) continue; if (!c.next()) continue; file(c, n, ch, buf, -1, k); } } });
    for (int buf : {0, 64, 4096, 16000}) vc::unit(vc::fmt("failing reads, stream buffer %d", buf), [=](Ctx &c) { warm(); for (size_t n : {0, 1, 2, 30, 4096, 16000, 16001, 33000}) for (size_t ch : {0, 1, 7, 4096, 16000}) { std::set<long> B; for (long x : {0l, 1l, 2l, 3l, 29l, 30l, 4095l, 4096l, 4097l, 15999l, 16000l, 16001l, 31999l, 32000l, 32001l, (long)n - 1, (long)n}) if (x >= 0 && x <= (long)n) B.insert(x); if (n <= 30 || (th && n < 20000 && ch != 1)) for (long x = 0; x <= (long)n; x += n > 30 ? 97 : 1) B.insert(x); for (long x : B) { if (!c.next()) continue; file(c, n, ch, buf, x, 2); } } });
    for (size_t n : {0, 1, 2, 54, 300}) vc::unit(vc::fmt("failing writes, %zu bytes", n), [=](Ctx &c) { warm(); write_errors(c, n); });
    int k = 0; for (size_t n : {0, 1, 3, 10, 54, 55, 120}) for (const char *w : {"ECDH PUBLIC KEY", "K"}) { if (k++ % 2 && n != 10 && !th) continue; vc::unit(vc::fmt("damaged armour of %zu bytes, %s", n, w), [=](Ctx &c) { warm(); damaged(c, n, w, th); }); }
    return vc::main_(argc, argv);
}
