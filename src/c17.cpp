// C17: built-in digests against OpenSSL, every length, every split.
#include "case.h"
#include "mem.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <sys/mman.h>
extern "C" {
#include "md5.h"
#include "scram.h"
#include "sha1.h"
#include "sha256.h"
#include "sha512.h"
}

struct Alg {
    const char *name;
    const EVP_MD *(*md)();
    size_t dsz;
};
static const Alg algs[] = {{"sha1", EVP_sha1, 20}, {"sha256", EVP_sha256, 32}, {"sha512", EVP_sha512, 64}, {"md5", EVP_md5, 16}};

static string ref(const Alg &a, const void *p, size_t n)
{
    u8 d[64];
    unsigned dl;
    EVP_Digest(p, n, d, &dl, a.md(), nullptr);
    return string((char *)d, dl);
}

// incremental hashing with the bundled code
struct Inc {
    int alg;
    union { SHA1_CTX s1; sha256_context s2; sha512_context s5; struct MD5Context m5; } u;
    explicit Inc(int a) : alg(a)
    {
        memset(&u, 0xEE, sizeof u);
        switch (a) {
        case 0: crypto_SHA1_Init(&u.s1); break;
        case 1: sha256_init(&u.s2); break;
        case 2: sha512_init(&u.s5); break;
        case 3: MD5Init(&u.m5); break;
        }
    }
    void up(const u8 *p, size_t n)
    {
        switch (alg) {
        case 0: crypto_SHA1_Update(&u.s1, p, n); break;
        case 1: sha256_process(&u.s2, p, n); break;
        case 2: sha512_process(&u.s5, p, n); break;
        case 3: MD5Update(&u.m5, p, (uint32_t)n); break;
        }
        stat_add("update_calls");
    }
    string fin()
    {
        u8 *d = (u8 *)malloc(algs[alg].dsz); // exact size: an overlong digest is seen by ASan
        memset(d, 0x77, algs[alg].dsz);
        switch (alg) {
        case 0: crypto_SHA1_Final(&u.s1, d); break;
        case 1: sha256_done(&u.s2, d); break;
        case 2: sha512_done(&u.s5, d); break;
        case 3: MD5Final(d, &u.m5); break;
        }
        string r((char *)d, algs[alg].dsz);
        free(d);
        return r;
    }
};
static string hex(const string &s)
{
    string r;
    for (u8 c : s) r += strf("%02x", c);
    return r;
}
struct Exact { // exact-size heap copy
    u8 *p;
    size_t n;
    Exact(const string &s) : p((u8 *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
    ~Exact() { free(p); }
};
static vector<size_t> partition(Rng &r, size_t n, int style)
{
    vector<size_t> v;
    size_t left = n;
    while (left) {
        size_t k;
        switch (style) {
        case 0: k = left; break;
        case 1: k = 1; break;
        case 2: k = r.below(left + 1); break;
        case 3: k = r.below(130); break;
        case 4: k = r.pick<size_t>({0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 129}); break;
        default: k = r.below(8); break;
        }
        if (k > left) k = left;
        v.push_back(k);
        left -= k;
        if (r.onein(8)) v.push_back(0);
    }
    if (r.onein(4)) v.insert(v.begin(), 0);
    if (r.onein(4)) v.push_back(0);
    return v;
}
static void check_inc(Case &c, int a, const string &msg, const vector<size_t> &parts, const char *what)
{
    Inc h(a);
    size_t off = 0;
    for (size_t k : parts) {
        Exact e(msg.substr(off, k));
        h.up(e.p, k);
        off += k;
    }
    string got = h.fin(), want = ref(algs[a], msg.data(), msg.size());
    stat_add("digests_compared");
    if (got != want) {
        string ps;
        for (size_t i = 0; i < parts.size() && i < 40; i++) ps += strf("%zu,", parts[i]);
        c.viol(strf("digest/%s", algs[a].name), strf("%s of %zu bytes in %zu updates (%s) [%s]: got %s want %s", algs[a].name, msg.size(), parts.size(), what, ps.c_str(), hex(got).c_str(), hex(want).c_str()));
    }
}
static void oneshot(Case &c, int a, const string &msg)
{
    u8 d[64];
    Exact e(msg);
    switch (a) {
    case 0: crypto_SHA1(e.p, e.n, d); break;
    case 1: sha256_hash(e.p, e.n, d); break;
    case 2: sha512_hash(e.p, e.n, d); break;
    default: return;
    }
    string got((char *)d, algs[a].dsz), want = ref(algs[a], msg.data(), msg.size());
    stat_add("digests_compared");
    if (got != want) c.viol(strf("oneshot/%s", algs[a].name), strf("one-shot %s of %zu bytes: got %s want %s", algs[a].name, msg.size(), hex(got).c_str(), hex(want).c_str()));
}
static void public_api(Case &c, const string &msg)
{
    MemMon mm;
    xmpp_log_t nolog = {[](void *, xmpp_log_level_t, const char *, const char *) {}, nullptr};
    xmpp_ctx_t *ctx = xmpp_ctx_new(&mm.mem, &nolog);
    string want = ref(algs[0], msg.data(), msg.size()), wh = hex(want);
    Exact e(msg);
    char *s = xmpp_sha1(ctx, e.p, e.n);
    if (!s || wh != s) c.viol("api/xmpp_sha1", strf("xmpp_sha1 of %zu bytes: got %s want %s", msg.size(), s ? s : "NULL", wh.c_str()));
    if (s) xmpp_free(ctx, s);
    u8 d[20];
    xmpp_sha1_digest(e.p, e.n, d);
    if (memcmp(d, want.data(), 20)) c.viol("api/xmpp_sha1_digest", strf("xmpp_sha1_digest wrong for %zu bytes", msg.size()));
    xmpp_sha1_t *sh = xmpp_sha1_new(ctx);
    size_t off = 0;
    for (size_t k : partition(c.rng, msg.size(), (int)c.rng.below(6))) {
        Exact p(msg.substr(off, k));
        xmpp_sha1_update(sh, p.p, k);
        off += k;
    }
    xmpp_sha1_final(sh);
    u8 d2[20];
    xmpp_sha1_to_digest(sh, d2);
    if (memcmp(d2, want.data(), 20)) c.viol("api/to_digest", strf("xmpp_sha1_update/final wrong for %zu bytes", msg.size()));
    char *sa = xmpp_sha1_to_string_alloc(sh);
    if (!sa || wh != sa) c.viol("api/to_string_alloc", strf("got %s want %s", sa ? sa : "NULL", wh.c_str()));
    if (sa) xmpp_free(ctx, sa);
    size_t slen = c.rng.onein(3) ? 41 : c.rng.below(64);
    char *buf = (char *)malloc(slen ? slen : 1);
    char *r = xmpp_sha1_to_string(sh, buf, slen);
    if (slen < 41 ? r != nullptr : (!r || wh != r)) c.viol("api/to_string", strf("xmpp_sha1_to_string with %zu bytes of room returned %s", slen, r ? r : "NULL"));
    free(buf);
    xmpp_sha1_free(sh);
    stat_add("digests_compared", 4);
    xmpp_ctx_free(ctx);
    if (!mm.live.empty()) c.viol("api/leak", "sha1 objects leaked");
}
static void hmac_case(Case &c)
{
    int which = (int)c.rng.below(scram_algs_num);
    const struct hash_alg *h = scram_algs[which];
    const EVP_MD *md = h->digest_size == 20 ? EVP_sha1() : h->digest_size == 32 ? EVP_sha256() : EVP_sha512();
    string pw = c.rng.bytes(c.rng.pick<size_t>({0, 1, 8, 20, 63, 64, 65, 100, 127, 128, 129, 200, 300}) + c.rng.below(3));
    size_t sl = c.rng.onein(3) ? 100 + c.rng.below(24) : c.rng.below(100);
    string salt = c.rng.bytes(sl);
    int it = (int)c.rng.range(1, 12);
    Exact ep(pw), es(salt);
    u8 *key = (u8 *)malloc(SCRAM_DIGEST_SIZE);
    SCRAM_ClientKey(h, ep.p, ep.n, es.p, es.n, it, key);
    u8 salted[64], want[64];
    unsigned wl;
    PKCS5_PBKDF2_HMAC(pw.data(), (int)pw.size(), (const u8 *)salt.data(), (int)salt.size(), it, md, (int)h->digest_size, salted);
    HMAC(md, salted, (int)h->digest_size, (const u8 *)"Client Key", 10, want, &wl);
    if (memcmp(key, want, h->digest_size)) c.viol(strf("hmac/clientkey/%s", h->scram_name), strf("ClientKey differs: pw %zu bytes, salt %zu bytes, %d iterations", pw.size(), salt.size(), it));
    // HMAC over an arbitrary message: ClientSignature = HMAC(H(ClientKey), msg)
    string msg = c.rng.bytes(c.rng.below(400));
    Exact em(msg);
    u8 *sig = (u8 *)malloc(h->digest_size);
    SCRAM_ClientSignature(h, key, em.p, em.n, sig);
    u8 st[64], ws[64];
    unsigned l;
    EVP_Digest(key, h->digest_size, st, &l, md, nullptr);
    HMAC(md, st, (int)h->digest_size, (const u8 *)msg.data(), msg.size(), ws, &l);
    if (memcmp(sig, ws, h->digest_size)) c.viol(strf("hmac/signature/%s", h->scram_name), strf("HMAC of %zu bytes differs", msg.size()));
    free(sig);
    free(key);
    stat_add("hmacs_compared", it + 1);
    c.mixsig(1000 + which);
    c.mixsig(pw.size() * 1000 + salt.size());
    c.mixsig(it);
}
// inputs around and beyond 2^32 bits
static void huge_case(Case &c, int a, int style)
{
    size_t base = (size_t)1 << 29; // 2^32 bits
    if (style == 2 || style == 3) base = (size_t)1 << 32;
    size_t n = base + c.rng.below(300) + (style & 1 ? 0 : 1);
    u8 *m = (u8 *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { stat_add("huge_skipped"); return; }
    for (int i = 0; i < 64; i++) m[c.rng.below(n)] = (u8)c.rng.next();
    Inc h(a);
    size_t off = 0;
    if (style & 1) {
        // as few calls as the interface permits
        while (off < n) {
            size_t k = n - off;
            if (a == 3 && k > 0xffffffffu) k = 0xffffffffu - c.rng.below(1000);
            h.up(m + off, k);
            off += k;
        }
    } else
        while (off < n) {
            size_t k = 1 + c.rng.below(3 << 20);
            if (k > n - off) k = n - off;
            h.up(m + off, k);
            off += k;
        }
    string got = h.fin(), want = ref(algs[a], m, n);
    munmap(m, n);
    stat_add("huge_inputs");
    stat_add("digests_compared");
    if (got != want) c.viol(strf("huge/%s", algs[a].name), strf("%s of %zu bytes (%s): got %s want %s", algs[a].name, n, style & 1 ? "single update" : "many updates", hex(got).c_str(), hex(want).c_str()));
    c.mixsig(7777 + a * 10 + style);
}

PROP(C17)
{
    sim::active = false;
    c.nontrivial = true;
    c.mixsig(c.k);
    // spread over the worker processes
    if (c.k % 240 == 0 && c.k / 240 < 8) { int i = (int)(c.k / 240); huge_case(c, i & 3, i >> 2); c.sample = "input crossing 2^32 bits"; return; }
    if (c.thorough && c.k % 240 == 1 && c.k / 240 < 8) { int i = (int)(c.k / 240); huge_case(c, i & 3, 2 + (i >> 2)); c.sample = "input crossing 2^32 bytes"; return; }
    if (c.k < 1320) {
        // every length, systematically
        size_t n = c.k < 2 ? 1320 + c.k : c.k - 2;
        if (c.k >= 240 && c.k % 240 < 2) n = c.k - 2;
        string msg = c.rng.bytes(n);
        for (int a = 0; a < 4; a++) {
            for (int s = 0; s < 6; s++) check_inc(c, a, msg, partition(c.rng, n, s), "systematic");
            // every two-part split of short messages
            if (n <= 260) {
                for (size_t i = 0; i <= n; i += (n > 150 ? 3 : 1)) check_inc(c, a, msg, {i, n - i}, "two parts");
            }
            oneshot(c, a, msg);
        }
        public_api(c, msg);
        stat_distinct("lengths", n);
        c.sample = strf("length %zu, all algorithms, 6 split styles and every two-part split", n);
        return;
    }
    if (c.rng.onein(3)) { hmac_case(c); c.sample = "HMAC/PBKDF2"; return; }
    size_t n = c.rng.onein(4) ? c.rng.below(70000) : c.rng.below(3000);
    string msg = c.rng.bytes(n);
    int a = (int)c.rng.below(4);
    for (int i = 0; i < 3; i++) check_inc(c, a, msg, partition(c.rng, n, 2 + (int)c.rng.below(4)), "random");
    oneshot(c, a, msg);
    public_api(c, msg);
    stat_distinct("lengths", n);
    c.sample = strf("%s, %zu random bytes, random splits", algs[a].name, n);
}
