// Certificates and digests for the server side, all generated in process.
#include "server.h"
#include <algorithm>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/kdf.h>
#include <openssl/pem.h>
#include <openssl/pkcs12.h>
#include <openssl/rand.h>
#include <openssl/x509v3.h>
#include <sys/stat.h>
#include <unistd.h>

extern string scratch_prefix; // main.cpp

const char *cert_names[] = {"valid", "wildcard", "wrong-name", "partial-wildcard", "deep-wildcard", "expired", "not-yet-valid", "untrusted-issuer", "self-signed"};

// ---- deterministic randomness for both ends
static Rng tls_rng(7);
static int rnd_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) b[i] = (u8)tls_rng.next(); return 1; }
static int rnd_status() { return 1; }
static int rnd_seed(const void *, int) { return 1; }
static int rnd_add(const void *, int, double) { return 1; }
static void rnd_cleanup() {}
void tls_seed(u64 s)
{
    static bool done;
    tls_rng = Rng(s);
    if (!done) {
        static RAND_METHOD m = {rnd_seed, rnd_bytes, rnd_cleanup, rnd_add, rnd_bytes, rnd_status};
        RAND_set_rand_method(&m);
        done = true;
    }
}

// material is the same whatever was generated before
struct FixRng {
    Rng s;
    explicit FixRng(const string &key) : s(tls_rng) { tls_rng = Rng(hash_str(key)); }
    ~FixRng() { tls_rng = s; }
};
string tls_tmp_path(const string &name) { return scratch_prefix + ".tls_" + name; }

static EVP_PKEY *new_key() { return EVP_EC_gen("P-256"); }
struct Cert { X509 *x = nullptr; EVP_PKEY *k = nullptr; };
static void add_ext(X509 *x, X509 *issuer, int nid, const string &val)
{
    X509V3_CTX ctx;
    X509V3_set_ctx_nodb(&ctx);
    X509V3_set_ctx(&ctx, issuer, x, nullptr, nullptr, 0);
    X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &ctx, nid, val.c_str());
    if (!e) { fprintf(stderr, "extension %d %s\n", nid, val.c_str()); ERR_print_errors_fp(stderr); _exit(2); }
    X509_add_ext(x, e, -1);
    X509_EXTENSION_free(e);
}
static const time_t BASE_T = 1790000000;
static Cert make_cert(const string &cn, const string &san, const Cert *ca, long from_s, long to_s, bool is_ca, long serial)
{
    FixRng fr(cn + "/" + san + "/" + std::to_string(serial));
    Cert c;
    c.k = new_key();
    X509 *x = c.x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
    ASN1_TIME_set(X509_getm_notBefore(x), BASE_T + from_s);
    ASN1_TIME_set(X509_getm_notAfter(x), BASE_T + to_s);
    X509_set_pubkey(x, c.k);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_UTF8, (const u8 *)cn.data(), (int)cn.size(), -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(ca ? ca->x : x));
    if (is_ca) {
        add_ext(x, x, NID_basic_constraints, "critical,CA:TRUE");
        add_ext(x, x, NID_key_usage, "critical,keyCertSign,cRLSign");
    } else if (ca) add_ext(x, ca->x, NID_basic_constraints, "CA:FALSE");
    if (san.find('\0') != string::npos) { // names no configuration text can express
        GENERAL_NAMES *gs = sk_GENERAL_NAME_new_null();
        for (size_t i = 0; i <= san.size();) {
            size_t e = std::min(san.find(',', i), san.size());
            string one = san.substr(i, e - i);
            i = e + 1;
            if (one.compare(0, 4, "DNS:")) continue;
            ASN1_IA5STRING *v = ASN1_IA5STRING_new();
            ASN1_STRING_set(v, one.data() + 4, (int)one.size() - 4);
            GENERAL_NAME *g = GENERAL_NAME_new();
            GENERAL_NAME_set0_value(g, GEN_DNS, v);
            sk_GENERAL_NAME_push(gs, g);
        }
        X509_add1_ext_i2d(x, NID_subject_alt_name, gs, 0, 0);
        GENERAL_NAMES_free(gs);
    } else if (!san.empty()) add_ext(x, ca ? ca->x : x, NID_subject_alt_name, san);
    X509_sign(x, ca ? ca->k : c.k, EVP_sha256());
    return c;
}
static Cert &the_ca(bool trusted)
{
    static Cert a, b;
    Cert &c = trusted ? a : b;
    if (!c.x) c = make_cert(trusted ? "Trusted Test CA" : "Some Other CA", "", nullptr, -86400L * 3000, 86400L * 3000, true, trusted ? 1 : 2);
    return c;
}
static void write_pem(const string &path, X509 *x, EVP_PKEY *k)
{
    FILE *f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); _exit(2); }
    if (x) PEM_write_X509(f, x);
    if (k) PEM_write_PrivateKey(f, k, nullptr, nullptr, 0, nullptr, nullptr);
    fclose(f);
}
string ca_file()
{
    static string p;
    if (p.empty()) { p = tls_tmp_path("ca.pem"); write_pem(p, the_ca(true).x, nullptr); }
    return p;
}
string ca_path_dir()
{
    static string p;
    if (p.empty()) {
        p = tls_tmp_path("capath");
        mkdir(p.c_str(), 0755);
        write_pem(p + strf("/%08lx.0", X509_NAME_hash_ex(X509_get_subject_name(the_ca(true).x), nullptr, nullptr, nullptr)), the_ca(true).x, nullptr);
    }
    return p;
}
static std::map<string, Cert> leafs;
static Cert &leaf(const string &domain, CertKind k)
{
    Cert &c = leafs[domain + "/" + std::to_string(k)];
    if (c.x) return c;
    string name = domain;
    size_t dot = domain.find('.');
    string rest = dot == string::npos ? domain : domain.substr(dot + 1);
    long from = -86400L * 30, to = 86400L * 300;
    const Cert *ca = &the_ca(true);
    switch (k) {
    case CERT_WILDCARD: name = "*." + rest; break;
    case CERT_WRONGNAME: name = "other.example.net"; break;
    case CERT_PARTIALWILD: name = domain.substr(0, 1) + "*." + rest; break;
    case CERT_DEEPWILD: name = "*." + (rest.find('.') == string::npos ? rest : rest.substr(rest.find('.') + 1)); break;
    case CERT_EXPIRED: from = -86400L * 300; to = -86400L; break;
    case CERT_NOTYET: from = 86400L * 2; break;
    case CERT_UNTRUSTED: ca = &the_ca(false); break;
    case CERT_SELFSIGNED: ca = nullptr; break;
    default: break;
    }
    c = make_cert(name, "DNS:" + name, ca, from, to, false, 100 + k);
    return c;
}
// ---- certificates made to measure
const char *chain_names[] = {"direct", "intermediate", "intermediate not sent", "intermediate expired", "intermediate is no CA", "other CA", "other CA with its root", "self-signed", "CA of the same name"};
string LeafSpec::show() const
{
    string s = string(chain_names[chain]) + " cn=" + vis(cn) + " dns=";
    for (auto &d : dns) s += vis(d) + ",";
    for (auto &d : alt) s += " " + vis(d);
    return s + strf(" valid %ld..%ld days", from / 86400, to / 86400);
}
string other_ca_file()
{
    static string p;
    if (p.empty()) { p = tls_tmp_path("ca2.pem"); write_pem(p, the_ca(false).x, nullptr); }
    return p;
}
static string pem_of(X509 *x)
{
    BIO *b = BIO_new(BIO_s_mem());
    PEM_write_bio_X509(b, x);
    char *d;
    long n = BIO_get_mem_data(b, &d);
    string s(d, (size_t)n);
    BIO_free(b);
    return s;
}
const LeafCtx &leaf_ctx(const LeafSpec &l, int max_version)
{
    static std::map<string, LeafCtx> cache;
    static Cert inter, inter_exp, inter_noca, fake;
    FixRng fr("leafctx");
    if (!inter.x) {
        inter = make_cert("Intermediate CA", "", &the_ca(true), -86400L * 1000, 86400L * 1000, true, 11);
        inter_exp = make_cert("Intermediate CA X", "", &the_ca(true), -86400L * 1000, -86400L * 5, true, 12);
        inter_noca = make_cert("Intermediate No CA", "", &the_ca(true), -86400L * 1000, 86400L * 1000, false, 13);
        fake = make_cert("Trusted Test CA", "", nullptr, -86400L * 3000, 86400L * 3000, true, 1);
        // same name, another key
        fake.k = new_key();
        X509_set_pubkey(fake.x, fake.k);
        X509_sign(fake.x, fake.k, EVP_sha256());
    }
    LeafCtx &r = cache[l.show() + strf("/%ld/%ld/%d", l.from, l.to, max_version)];
    if (r.ctx) return r;
    if (cache.size() > 4000) fprintf(stderr, "many certificates\n");
    string san;
    for (auto &d : l.dns) san += (san.empty() ? "DNS:" : ",DNS:") + d;
    for (auto &d : l.alt) san += (san.empty() ? "" : ",") + d;
    const Cert *ca = &the_ca(true), *send = nullptr;
    switch (l.chain) {
    case LeafSpec::INTER: ca = send = &inter; break;
    case LeafSpec::INTER_MISSING: ca = &inter; break;
    case LeafSpec::INTER_EXPIRED: ca = send = &inter_exp; break;
    case LeafSpec::INTER_NOTCA: ca = send = &inter_noca; break;
    case LeafSpec::OTHER: ca = &the_ca(false); break;
    case LeafSpec::OTHER_ROOT: ca = send = &the_ca(false); break;
    case LeafSpec::SELF: ca = nullptr; break;
    case LeafSpec::FAKE_CA: ca = &fake; if (l.from & 1) send = &fake; break;
    default: break;
    }
    Cert c = make_cert(l.cn, san, ca, l.from, l.to, false, 1000 + (long)(hash_str(l.show()) % 100000));
    SSL_CTX *x = r.ctx = SSL_CTX_new(TLS_server_method());
    SSL_CTX_set_max_proto_version(x, max_version);
    SSL_CTX_use_certificate(x, c.x);
    SSL_CTX_use_PrivateKey(x, c.k);
    if (send) SSL_CTX_add1_chain_cert(x, send->x);
    SSL_CTX_set_mode(x, SSL_MODE_NO_AUTO_CHAIN);
    SSL_CTX_set_session_cache_mode(x, SSL_SESS_CACHE_OFF);
    r.leaf_pem = pem_of(c.x);
    if (send) r.inter_pem = pem_of(send->x);
    X509_free(c.x);
    EVP_PKEY_free(c.k);
    return r;
}
SSL_CTX *server_ctx(const string &domain, CertKind k, int max_version, bool ask)
{
    static std::map<string, SSL_CTX *> cache;
    FixRng fr("ctx");
    SSL_CTX *&x = cache[strf("%s/%d/%d/%d", domain.c_str(), k, max_version, ask)];
    if (x) return x;
    x = SSL_CTX_new(TLS_server_method());
    SSL_CTX_set_max_proto_version(x, max_version);
    Cert &c = leaf(domain, k);
    SSL_CTX_use_certificate(x, c.x);
    SSL_CTX_use_PrivateKey(x, c.k);
    SSL_CTX_set_session_cache_mode(x, SSL_SESS_CACHE_OFF);
    if (ask) {
        SSL_CTX_set_verify(x, SSL_VERIFY_PEER, [](int, X509_STORE_CTX *) { return 1; });
        SSL_CTX_set_session_id_context(x, (const u8 *)"vh", 2);
    }
    return x;
}
ClientCert client_cert(const vector<string> &addrs, const string &pw)
{
    static std::map<string, ClientCert> cache;
    FixRng fr("client");
    string key = pw + "|";
    for (auto &a : addrs) key += a + ",";
    ClientCert &r = cache[key];
    if (!r.cert.empty()) return r;
    string san;
    for (auto &a : addrs) san += (san.empty() ? "" : ",") + string("otherName:1.3.6.1.5.5.7.8.5;UTF8:") + a;
    if (addrs.empty()) san = "DNS:client.example.org";
    Cert c = make_cert("client", san, &the_ca(true), -86400L * 30, 86400L * 300, false, 500 + (long)(hash_str(key) % 1000));
    size_t n = cache.size();
    r.cert = tls_tmp_path(strf("cc%zu.pem", n));
    r.key = tls_tmp_path(strf("ck%zu.pem", n));
    r.p12 = tls_tmp_path(strf("cc%zu.p12", n));
    write_pem(r.cert, c.x, nullptr);
    if (pw.empty()) write_pem(r.key, nullptr, c.k);
    else {
        FILE *f = fopen(r.key.c_str(), "w");
        PEM_write_PKCS8PrivateKey(f, c.k, EVP_aes_128_cbc(), pw.data(), (int)pw.size(), nullptr, nullptr);
        fclose(f);
    }
    PKCS12 *p = PKCS12_create(pw.empty() ? nullptr : pw.c_str(), "client", c.k, c.x, nullptr, 0, 0, 10, 10, 0);
    FILE *f = fopen(r.p12.c_str(), "w");
    if (f && p) i2d_PKCS12_fp(f, p);
    if (f) fclose(f);
    PKCS12_free(p);
    X509_free(c.x);
    EVP_PKEY_free(c.k);
    return r;
}

// ---- digests
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
string b64e(const string &s)
{
    string r;
    size_t i = 0;
    for (; i + 2 < s.size(); i += 3) {
        u32 v = (u8)s[i] << 16 | (u8)s[i + 1] << 8 | (u8)s[i + 2];
        r += B64[v >> 18]; r += B64[v >> 12 & 63]; r += B64[v >> 6 & 63]; r += B64[v & 63];
    }
    if (i + 1 == s.size()) { u32 v = (u8)s[i] << 16; r += B64[v >> 18]; r += B64[v >> 12 & 63]; r += "=="; }
    else if (i + 2 == s.size()) { u32 v = (u8)s[i] << 16 | (u8)s[i + 1] << 8; r += B64[v >> 18]; r += B64[v >> 12 & 63]; r += B64[v >> 6 & 63]; r += "="; }
    return r;
}
bool b64d(const string &s, string &out)
{
    out.clear();
    if (s.size() % 4) return false;
    for (size_t i = 0; i < s.size(); i += 4) {
        int v[4], pad = 0;
        for (int j = 0; j < 4; j++) {
            const char *q = s[i + j] ? strchr(B64, s[i + j]) : nullptr;
            if (q) { if (pad) return false; v[j] = (int)(q - B64); }
            else if (s[i + j] == '=' && i + 4 == s.size() && j >= 2) { pad++; v[j] = 0; }
            else return false;
        }
        u32 w = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
        out += (char)(w >> 16);
        if (pad < 2) out += (char)(w >> 8);
        if (pad < 1) out += (char)w;
    }
    return true;
}
string hexs(const string &s)
{
    string r;
    for (u8 c : s) r += strf("%02x", c);
    return r;
}
static const EVP_MD *mdof(const char *alg) { return EVP_get_digestbyname(alg); }
string md(const char *alg, const string &s)
{
    u8 b[64]; unsigned n = 0;
    EVP_Digest(s.data(), s.size(), b, &n, mdof(alg), nullptr);
    return string((char *)b, n);
}
string hmac(const char *alg, const string &k, const string &s)
{
    u8 b[64]; unsigned n = 0;
    HMAC(mdof(alg), k.data(), (int)k.size(), (const u8 *)s.data(), s.size(), b, &n);
    return string((char *)b, n);
}
string pbkdf2(const char *alg, const string &pw, const string &salt, int iter)
{
    int n = EVP_MD_get_size(mdof(alg));
    string r(n, 0);
    PKCS5_PBKDF2_HMAC(pw.data(), (int)pw.size(), (const u8 *)salt.data(), (int)salt.size(), iter, mdof(alg), n, (u8 *)&r[0]);
    return r;
}
