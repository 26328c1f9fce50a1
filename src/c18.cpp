// C18: base64 codec against an independent implementation.
#include "case.h"
#include "mem.h"

static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string ref_enc(const string &b)
{
    string r;
    unsigned acc = 0, bits = 0;
    for (u8 c : b) {
        acc = (acc << 8 | c) & 0xffffff;
        bits += 8;
        while (bits >= 6) { bits -= 6; r += AL[(acc >> bits) & 63]; }
    }
    if (bits) r += AL[(acc << (6 - bits)) & 63];
    while (r.size() % 4) r += '=';
    return r;
}
// 0 invalid, 1 valid, 2 valid but with non-zero discarded bits (RFC 4648 3.5: may be refused)
static int ref_dec(const string &s, string &out)
{
    out.clear();
    if (s.size() % 4) return 0;
    size_t pad = 0, n = s.size();
    while (pad < n && s[n - 1 - pad] == '=') pad++;
    if (pad > 2) return 0;
    unsigned acc = 0, bits = 0;
    for (size_t i = 0; i < n - pad; i++) {
        const char *p = s[i] ? strchr(AL, s[i]) : nullptr;
        if (!p) return 0;
        acc = (acc << 6 | (unsigned)(p - AL)) & 0xffffff;
        bits += 6;
        if (bits >= 8) { bits -= 8; out += (char)(acc >> bits); }
    }
    if (bits && (acc & ((1u << bits) - 1))) return 2;
    return 1;
}
struct X { // exact-size heap copy, no terminator
    char *p;
    X(const string &s) : p((char *)malloc(s.size() ? s.size() : 1)) { memcpy(p, s.data(), s.size()); }
    ~X() { free(p); }
};
static xmpp_log_t nolog = {[](void *, xmpp_log_level_t, const char *, const char *) {}, nullptr};

static void dec(Case &c, xmpp_ctx_t *ctx, MemMon &mm, const string &s)
{
    string want;
    int ok = ref_dec(s, want);
    X x(s);
    stat_add("decodes");
    stat_add(ok ? "decodes_valid" : "decodes_invalid");
    for (int rep = 0; rep < 2; rep++) {
        mm.fill = rep ? 0x3C : 0xA5;
        u8 *out = (u8 *)0x1;
        size_t ol = 12345;
        xmpp_base64_decode_bin(ctx, x.p, s.size(), &out, &ol);
        if (out == (u8 *)1) { c.viol("bin/output-not-set", "decode_bin left *out untouched for \"" + vis(s) + "\""); out = nullptr; continue; }
        if (!ok && out) c.viol("bin/accepts-invalid", "decode_bin accepted \"" + vis(s) + "\" as " + strf("%zu bytes", ol));
        if (!out && ol != 0) c.viol("bin/length-on-failure", strf("decode_bin failed for \"%s\" but reports %zu bytes", vis(s).c_str(), ol));
        if (ok == 1 && s.size() && !out) c.viol("bin/refuses-valid", "decode_bin refused \"" + vis(s) + "\"");
        if (ok && out) {
            auto it = mm.live.find(out);
            if (it == mm.live.end()) c.viol("bin/foreign-buffer", "result not from the context's allocator");
            else if (it->second.size < ol) c.viol("bin/over-long", strf("reported length %zu exceeds the buffer of %zu bytes for \"%s\"", ol, it->second.size, vis(s).c_str()));
            else if (string((char *)out, ol) != want) c.viol("bin/wrong-value", strf("decode_bin of \"%s\" gave \"%s\" (%zu), expected \"%s\"", vis(s).c_str(), vis(string((char *)out, ol)).c_str(), ol, vis(want).c_str()));
        }
        if (out) xmpp_free(ctx, out);
        char *str = xmpp_base64_decode_str(ctx, x.p, s.size());
        bool nul = want.find('\0') != string::npos;
        if (!ok && str) c.viol("str/accepts-invalid", "decode_str accepted \"" + vis(s) + "\" as \"" + vis(str) + "\"");
        if (ok && nul && str) c.viol("str/accepts-nul", "decode_str returned a value containing NUL for \"" + vis(s) + "\"");
        if (ok == 1 && !nul && !str) c.viol("str/refuses-valid", "decode_str refused \"" + vis(s) + "\"");
        if (ok && !nul && str && want != str) c.viol("str/wrong-value", strf("decode_str of \"%s\" gave \"%s\", expected \"%s\"", vis(s).c_str(), vis(str).c_str(), vis(want).c_str()));
        if (str) xmpp_free(ctx, str);
    }
}
static void enc(Case &c, xmpp_ctx_t *ctx, MemMon &mm, const string &b)
{
    X x(b);
    char *e = xmpp_base64_encode(ctx, (u8 *)x.p, b.size());
    string want = ref_enc(b);
    stat_add("encodes");
    if (!e || want != e) c.viol("encode/wrong", strf("encode of %zu bytes \"%s\" gave %s, expected %s", b.size(), vis(b, 80).c_str(), e ? vis(e, 120).c_str() : "NULL", vis(want, 120).c_str()));
    if (e) xmpp_free(ctx, e);
    dec(c, ctx, mm, want);
}

PROP(C18)
{
    sim::active = false;
    MemMon mm;
    xmpp_ctx_t *ctx = xmpp_ctx_new(&mm.mem, &nolog);
    c.nontrivial = true;
    c.mixsig(c.k);
    static const char pr[] = "AQz9+/=\0-_. \n\x80\xff@[`{g,*~Zaw8Ii\tBx";
    static const string probe(pr, 32);
    static_assert(sizeof pr == 33, "probe alphabet");
    if (c.k < 32 * 32) {
        // every 4-character string over the probe alphabet, and the same as last quartet
        char a = probe[c.k / 32], b = probe[c.k % 32];
        for (char d : probe) for (char e : probe) {
            string q{a, b, d, e};
            dec(c, ctx, mm, q);
            if (c.rng.onein(4)) dec(c, ctx, mm, "QUJD" + q);
            if (c.rng.onein(8)) dec(c, ctx, mm, q + "QUJD");
            if (c.rng.onein(16)) dec(c, ctx, mm, q.substr(0, c.rng.below(4)));
        }
        c.sample = strf("all 4-character strings starting with 0x%02x 0x%02x over a 32-character probe alphabet", (u8)a, (u8)b);
    } else if (c.k < 1024 + 256) {
        // all byte values: 1, 2 byte values encoded, every character in every position of a quartet
        u8 v = (u8)c.k;
        enc(c, ctx, mm, string(1, (char)v));
        for (int w = 0; w < 256; w++) { enc(c, ctx, mm, string{(char)v, (char)w}); if (w % 8 == 0) enc(c, ctx, mm, string{(char)v, (char)w, (char)c.rng.next()}); }
        for (size_t pos = 0; pos < 12; pos++)
            for (const char *t : {"QUJDREVGR0hJ", "QUJDREVGR0g=", "QUJDREVGRw=="}) {
                string s = t;
                s[pos] = (char)v;
                dec(c, ctx, mm, s);
            }
        c.sample = strf("byte value %u: all 1- and 2-byte strings with it, and as every position of three templates", v);
    } else {
        size_t n = c.rng.onein(10) ? c.rng.below(20000) : c.rng.below(200);
        string b = c.rng.onein(3) ? string(n, (char)c.rng.next()) : c.rng.bytes(n);
        if (c.rng.onein(3)) for (auto &ch : b) if (!ch) ch = 'x';
        enc(c, ctx, mm, b);
        string e = ref_enc(b);
        // mutations
        for (int i = 0; i < 20; i++) {
            string m = e;
            int nm = 1 + (int)c.rng.below(3);
            while (nm--) {
                size_t at = m.size() ? c.rng.below(m.size()) : 0;
                if (m.size() > 4 && c.rng.onein(2)) at = m.size() - 1 - c.rng.below(5);
                switch (c.rng.below(6)) {
                case 0: if (m.size()) m[at] = (char)c.rng.next(); break;
                case 1: if (m.size()) m[at] = '='; break;
                case 2: m.insert(at, 1, c.rng.onein(2) ? '=' : 'A'); break;
                case 3: if (m.size()) m.erase(at, 1); break;
                case 4: m += c.rng.pick<string>({"=", "==", "===", "A", "AA==", "\n", " "}); break;
                case 5: m = m.substr(0, at); break;
                }
            }
            dec(c, ctx, mm, m);
        }
        c.sample = strf("%zu bytes \"%s\" encoded and 20 mutations of the encoding decoded", n, vis(b, 60).c_str());
    }
    xmpp_ctx_free(ctx);
    if (!mm.live.empty()) c.viol("leak", strf("%zu blocks leaked: %s", mm.live.size(), mm.leaks(1)[0].c_str()));
    for (auto &e : mm.errors) c.viol("free", e);
}
