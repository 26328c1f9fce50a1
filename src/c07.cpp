// C07: what the client says to authenticate, against the RFCs.
#include "gen.h"
#include "scen.h"

extern "C" {
struct _xmpp_rand_t *drbg_xmpp_rand_new(xmpp_ctx_t *ctx);
void drbg_xmpp_rand_free(xmpp_ctx_t *ctx, struct _xmpp_rand_t *r);
void drbg_xmpp_rand_nonce(struct _xmpp_rand_t *r, char *out, size_t len);
void drbg_xmpp_rand_bytes(struct _xmpp_rand_t *r, unsigned char *out, size_t len);
}
struct Nonces {
    Case &c;
    vector<string> all;
    void add(const string &n, size_t min, const char *what)
    {
        if (n.size() < min) c.viol("nonce/short", strf("%s: a nonce of %zu characters: ", what, n.size()) + vis(n));
        for (auto &o : all) {
            size_t m = std::min(o.size(), n.size()), diff = 0;
            for (size_t i = 0; i < m; i++) diff += o[i] != n[i];
            // independent nonces of at least 8 characters agree in most positions with a probability < 1e-9
            if (diff < (m + 3) / 4 + 1) c.viol("nonce/repeated", string(what) + ": " + vis(n) + " after " + vis(o));
        }
        std::set<char> cs(n.begin(), n.end());
        if (n.size() >= 12 && cs.size() < 3) c.viol("nonce/constant", string(what) + ": " + vis(n));
        // the same short block again and again
        for (size_t p = 1; p * 2 <= n.size() && p <= 8 && n.size() >= 24; p++) if (n.compare(p, string::npos, n, 0, n.size() - p) == 0) c.viol("nonce/periodic", string(what) + ": " + vis(n));
        all.push_back(n);
        stat_add("nonces");
    }
};
static string utf8(u32 cp)
{
    string s;
    if (cp < 0x80) s += (char)cp;
    else if (cp < 0x800) { s += (char)(0xc0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { s += (char)(0xe0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    else { s += (char)(0xf0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    return s;
}
static size_t rlen(Rng &r)
{
    switch (r.below(12)) {
    case 0: return 1;
    case 1: return 62 + r.below(5);
    case 2: return 126 + r.below(5);
    case 3: return 1 + r.below(400);
    case 4: return r.onein(4) ? 1 + r.below(3000) : 2;
    default: return 1 + r.below(24);
    }
}
// mode: 0 ASCII, 1 latin1, 2 anything
static string cred(Rng &r, int mode, bool node)
{
    string s;
    size_t n = rlen(r);
    if (node) n = std::min<size_t>(n, 1000);
    static const char sp[] = ",==,\\=2C=3D;+!#$%*-_~^`{|}()[]?.";
    static const char pw[] = " \"'&<>@/:\t\n";
    int style = (int)r.below(4);
    while (s.size() < n) {
        if (style == 0 || r.onein(6)) s += sp[r.below(sizeof sp - 1)];
        else if (!node && (style == 1 || r.onein(9))) s += pw[r.below(sizeof pw - 1)];
        else if (mode && (style == 2 || r.onein(5))) {
            if (mode == 1 || r.onein(3)) s += utf8(0xa0 + (u32)r.below(0x60));
            else if (r.onein(2)) s += utf8(0x400 + (u32)r.below(0x300));
            else s += r.onein(2) ? utf8(0x4e00 + (u32)r.below(0x1000)) : utf8(0x1f600 + (u32)r.below(64));
        } else s += "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789"[r.below(42)];
    }
    return s;
}
static void apply(Scen &s, ConnCfg &g)
{
    xmpp_conn_t *k = s.k->conn;
    s.k->jid = g.jid;
    s.k->pass = g.pass;
    if (!g.jid.empty()) xmpp_conn_set_jid(k, g.jid.c_str());
    xmpp_conn_set_pass(k, g.pass_null ? nullptr : g.pass.c_str());
    xmpp_conn_set_flags(k, g.flags);
    xmpp_conn_set_cafile(k, ca_file().c_str());
}
static string slug(const string &e)
{
    string k;
    for (char ch : e) { if (!isalnum((u8)ch) && ch != '-') { if (k.size() > 2) break; continue; } k += ch; if (k.size() > 18) break; }
    return k;
}
static void rand_case(Case &c)
{
    Rng &r = c.rng;
    World w(c);
    Nonces nn{c};
    sim::rnd_short = r.onein(2);
    size_t len = 13 + r.below(r.onein(4) ? 1200 : 40);
    bool drbg = r.onein(2);
    c.mixsig(drbg * 4096 + len);
    c.nontrivial = true;
    auto one = [&](xmpp_rand_t *x, const char *what) {
        vector<char> b(len + 8, 0x55);
        if (drbg) drbg_xmpp_rand_nonce(x, b.data(), len); else xmpp_rand_nonce(x, b.data(), len);
        for (size_t i = len; i < b.size(); i++) if (b[i] != 0x55) c.viol("rand/overrun", strf("byte %zu behind a buffer of %zu written", i - len, len));
        size_t n = strnlen(b.data(), len);
        if (n == len) { c.viol("rand/unterminated", "nonce is not terminated"); return; }
        if (n + 2 < len) c.viol("rand/short", strf("%zu characters for a buffer of %zu", n, len));
        string s(b.data(), n);
        for (u8 ch : s) if (ch < 0x21 || ch > 0x7e || ch == ',') { c.viol("rand/characters", "nonce " + vis(s)); break; }
        nn.add(s, len - 2, what);
    };
    xmpp_rand_t *a = drbg ? drbg_xmpp_rand_new(w.ctx) : xmpp_rand_new(w.ctx), *b = drbg ? drbg_xmpp_rand_new(w.ctx) : xmpp_rand_new(w.ctx);
    for (int i = 0; i < 6 && !c.violated; i++) one(i % 2 ? a : b, drbg ? "generator without getrandom()" : "generator");
    if (drbg) {
        // blocks of one long output do not repeat, and do not come again
        vector<unsigned char> buf(40 + r.below(1500));
        std::set<string> seen;
        for (int i = 0; i < 3; i++) {
            drbg_xmpp_rand_bytes(i & 1 ? b : a, buf.data(), buf.size());
            for (size_t k = 0; k + 20 <= buf.size(); k += 20) if (!seen.insert(string((char *)&buf[k], 20)).second) c.viol("rand/block-repeated", strf("block %zu of output %d", k / 20, i));
        }
        stat_add("drbg_cases");
    }
    if (drbg) { drbg_xmpp_rand_free(w.ctx, a); drbg_xmpp_rand_free(w.ctx, b); }
    else { xmpp_rand_free(w.ctx, a); xmpp_rand_free(w.ctx, b); }
    w.fini();
}

PROP(C07)
{
    Rng &r = c.rng;
    if (r.onein(25)) { rand_case(c); return; }
    enum Kind { SCRAM, MD5, PLAIN, EXT, ANON, LEGACY, COMP };
    static const Kind kinds[] = {SCRAM, SCRAM, SCRAM, SCRAM, SCRAM, MD5, MD5, MD5, PLAIN, EXT, EXT, ANON, LEGACY, COMP};
    Kind kind = kinds[r.below(14)];
    World w(c);
    ScenOpt o;
    Scen s(w, o);
    Nonces nn{c};
    sim::rnd_short = r.onein(4);
    Client *first = s.k;
    int rounds = kind == SCRAM || kind == MD5 ? 1 + (int)r.below(3) : r.onein(4) ? 2 : 1;
    lockstep(w, r.onein(2));
    net_policy(w, r.onein(3) ? NET_CHUNKY : NET_PLAIN, r.onein(3) ? NET_CHUNKY : NET_PLAIN);
    for (int round = 0; round < rounds && !c.violated; round++) {
        if (r.onein(3)) s.k = round && r.onein(2) ? first : &w.client();
        s.cfgs.emplace_back();
        ConnCfg &g = s.cfgs.back();
        s.cur = &g;
        g.clean = true;
        SrvConf &v = g.srv;
        v = SrvConf();
        v.strict_gs2 = true;
        static const char *doms[] = {"example.org", "xmpp.example.com", "chat.test.example.net"};
        static const char *odd[] = {"EXAMPLE.org", "b\xc3\xbc" "cher.example", "[2001:db8::1]", "a-b.c.d.e.example", "localhost"};
        bool tls = kind != COMP && r.chance(45);
        g.domain = tls || r.onein(2) ? doms[r.below(3)] : odd[r.below(5)];
        bool bad = false;                   // a challenge that must not be answered
        string badwhy;
        int mode = (int)r.below(3);
        string user = cred(r, mode, true);
        if (user[0] == '@') user[0] = 'a';
        g.pass = cred(r, r.onein(4) ? 2 : mode, false);
        g.resource = r.chance(60) || kind == LEGACY ? cred(r, mode, r.onein(2)) : "";
        g.flags = tls ? (r.onein(3) ? XMPP_CONN_FLAG_LEGACY_SSL : r.onein(2) ? XMPP_CONN_FLAG_MANDATORY_TLS : 0) : XMPP_CONN_FLAG_DISABLE_TLS;
        if (!tls && r.onein(3)) { g.flags = 0; v.starttls = false; }
        v.tls_max = r.onein(2) ? TLS1_2_VERSION : TLS1_3_VERSION;
        v.pass = g.pass;
        v.user = user;
        v.stream_id = r.onein(3) ? gen_text(r, 30, true) : strf("%llx", (unsigned long long)r.next());
        if (v.stream_id.empty()) v.stream_id = "0";
        vector<string> mechs, fallback;
        int expected_attempts = 1;
        ClientCert cc;
        vector<string> addrs;
        bool nojid = false;
        switch (kind) {
        case SCRAM: {
            static const char *plain[] = {"SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"};
            bool plus = tls && r.chance(60);
            string m = plain[r.below(3)];
            mechs = {plus ? m + "-PLUS" : m};
            if (r.onein(4)) { // others that are tried first or later, and refused
                for (int i = 0; i < 3; i++) if (r.onein(2)) {
                    string x = string(plain[r.below(3)]) + (tls && r.onein(2) ? "-PLUS" : "");
                    if (has_mech(mechs, x)) continue;
                    mechs.push_back(x);
                    v.refuse.insert(x);
                }
                expected_attempts = -1;
            }
            v.salt = r.bytes(r.onein(5) ? 1 + r.below(200) : 1 + r.below(32));
            v.iter = r.onein(3) ? 1 + (int)r.below(5) : r.onein(12) ? 4096 + (int)r.below(3000) : 1 + (int)r.below(500);
            v.snonce.clear();
            for (int i = (int)rlen(r); i-- > 0;) { char ch = (char)(0x21 + r.below(94)); v.snonce += ch == ',' ? '=' : ch; }
            string n = "r=%N" + v.snonce, sa = ",s=" + b64e(v.salt), it = strf(",i=%d", v.iter);
            v.scram_raw = n + sa + it;
            if (r.onein(5)) v.scram_raw += r.onein(2) ? ",x=ext" : ",vnd=a=b,q=\xc3\xa4";
            if (r.onein(7)) {
                bad = true;
                switch (r.below(13)) {
                case 0: badwhy = "nonce without ours"; v.scram_raw = "r=" + v.snonce + sa + it; break;
                case 1: badwhy = "empty nonce"; v.scram_raw = "r=" + sa + it; break;
                case 2: badwhy = "no nonce"; v.scram_raw = sa.substr(1) + it; break;
                case 3: badwhy = "no salt"; v.scram_raw = n + it; break;
                case 4: badwhy = "no iteration count"; v.scram_raw = n + sa; break;
                case 5: badwhy = "iteration count 0"; v.scram_raw = n + sa + ",i=0"; break;
                case 6: badwhy = "negative iteration count"; v.scram_raw = n + sa + ",i=-5"; break;
                case 7: badwhy = "iteration count not a number"; v.scram_raw = n + sa + ",i=abc"; break;
                case 8: badwhy = "iteration count with garbage"; v.scram_raw = n + sa + ",i=5x"; break;
                case 9: badwhy = "salt not base64"; v.scram_raw = n + ",s=***" + it; break;
                case 10: badwhy = "nonce cut"; v.scram_raw = "%CUT"; v.scram_raw = "r=AAAA%N" + sa + it; break;
                case 11: badwhy = "server error"; v.scram_raw = "e=other-error"; break;
                case 12: badwhy = "empty iteration count"; v.scram_raw = n + sa + ",i="; break;
                }
                v.refuse.clear();
                mechs.resize(1);
                expected_attempts = 1;
            }
            break;
        }
        case MD5: {
            mechs = {"DIGEST-MD5"};
            if (g.domain.find('\xc3') != string::npos) g.domain = "localhost"; // RFC 2831 does not say how such a realm is hashed
            bool cs = r.chance(70);
            if (!cs) { // no UTF-8: both within ISO 8859-1
                user = cred(r, mode ? 1 : 0, true);
                g.pass = v.pass = cred(r, mode ? 1 : 0, false);
                v.user = user;
            }
            v.md5_charset = cs ? "utf-8" : "";
            v.md5_has_realm = r.chance(75);
            v.md5_realm = r.onein(2) ? g.domain : r.onein(6) ? "" : cred(r, 0, true);
            for (auto &ch : v.md5_realm) if (ch == '\\' || ch == '"') ch = '_';
            v.md5_nonce.clear();
            for (int i = (int)rlen(r); i-- > 0;) { char ch = (char)(0x20 + r.below(95)); v.md5_nonce += ch == '"' || ch == '\\' ? '=' : ch; }
            v.md5_rspauth = r.onein(2);
            vector<string> d;
            auto q = [](const string &x) { return "\"" + x + "\""; };
            if (v.md5_has_realm) {
                d.push_back("realm=" + q(v.md5_realm));
                if (!v.md5_realm.empty() && r.onein(6)) { string x = "other." + g.domain; d.push_back("realm=" + q(x)); v.md5_realms = {x, v.md5_realm}; }
            }
            d.push_back("nonce=" + q(v.md5_nonce));
            static const char *qops[] = {"\"auth\"", "\"auth\"", "\"auth,auth-int\"", "\"auth-int,auth\"", "auth", "\"auth-conf,auth-int,auth\"", "\"auth, auth-int\""};
            if (r.chance(75)) d.push_back(string("qop=") + qops[r.below(7)]);
            if (cs) d.push_back("charset=utf-8");
            if (r.chance(80)) d.push_back("algorithm=md5-sess");
            if (r.onein(5)) d.push_back("stale=false");
            if (r.onein(5)) d.push_back("maxbuf=65536");
            if (r.onein(5)) d.push_back("cipher=\"rc4,3des,des\"");
            if (r.onein(5)) d.push_back("x-unknown=\"a,b=c\"");
            if (r.onein(8)) {
                bad = true;
                if (r.onein(2)) { badwhy = "no nonce"; for (size_t i = 0; i < d.size(); i++) if (d[i].compare(0, 6, "nonce=") == 0) { d.erase(d.begin() + (long)i); break; } }
                else { badwhy = "qop without auth"; for (size_t i = 0; i < d.size(); i++) if (d[i].compare(0, 4, "qop=") == 0) { d.erase(d.begin() + (long)i); break; } d.push_back(r.onein(2) ? "qop=\"auth-int\"" : "qop=\"auth-int,auth-conf\""); }
            }
            bool multi = !v.md5_realms.empty();
            if (r.onein(2)) for (size_t i = d.size(); i > 1; i--) std::swap(d[i - 1], d[r.below(i)]);
            (void)multi;
            string raw, sep = r.onein(3) ? ", " : r.onein(6) ? ",," : ",";
            for (auto &x : d) raw += (raw.empty() ? "" : sep) + x;
            if (r.onein(8)) raw = " " + raw;
            v.md5_raw = raw.empty() ? "algorithm=md5-sess" : raw;
            break;
        }
        case PLAIN: mechs = {"PLAIN"}; break;
        case EXT: {
            // the certificate names the account, another one, several or none
            for (auto &ch : user) if (ch == ',' || ch == '\\' || (u8)ch >= 0x80) ch = 'z';
            if (user.size() > 60) user.resize(60);
            v.user = user;
            string bare = user + "@" + g.domain;
            switch (r.below(6)) {
            case 0: break;
            case 1: case 2: addrs = {bare}; break;
            case 3: addrs = {"x" + bare}; break;
            case 4: addrs = {bare, "other@" + g.domain}; break;
            case 5: addrs = {"first@" + g.domain, bare}; break;
            }
            nojid = addrs.size() == 1 && addrs[0] == bare && !s.k->attempts && r.onein(2);
            if (g.domain.find('[') != string::npos || g.domain.find('\xc3') != string::npos) { g.domain = "example.org"; for (auto &x : addrs) x = x.substr(0, x.find('@')) + "@example.org"; }
            g.cert = true;
            cc = client_cert(addrs);
            v.ask_client_cert = true;
            mechs = {"EXTERNAL"};
            break;
        }
        case ANON: mechs = {"ANONYMOUS"}; g.has_node = false; break;
        case LEGACY: g.flags |= XMPP_CONN_FLAG_LEGACY_AUTH; if (r.onein(2)) mechs = {"X-UNKNOWN"}; break;
        case COMP: g.component = true; g.flags = 0; v.component = true; v.secret = g.pass; break;
        }
        if (kind == COMP) g.domain = "comp.example.org";
        v.domain = g.domain;
        g.jid = g.has_node && kind != COMP ? user + "@" + g.domain : g.domain;
        string bare = g.jid;
        if (!g.resource.empty() && kind != COMP) g.jid += "/" + g.resource;
        if (kind == ANON || kind == EXT) g.pass_null = r.onein(2);
        if (g.pass_null) g.pass.clear();
        if (nojid) g.jid.clear();
        if (tls && !(g.flags & XMPP_CONN_FLAG_LEGACY_SSL)) { v.mechs = {}; v.mechs_tls = mechs; if (mechs.empty()) v.mechs_tls = {"X-NONE"}; }
        else { v.mechs = mechs; v.mechs_tls = mechs; }
        if (tls && (g.flags & XMPP_CONN_FLAG_LEGACY_SSL)) v.starttls = false;
        if (kind == ANON) v.bind_jid = "anon-1@" + g.domain + "/r";
        apply(s, g);
        if (g.cert) xmpp_conn_set_client_cert(s.k->conn, cc.cert.c_str(), cc.key.c_str());
        s.hooks();
        size_t a0 = w.srv.sasl.size(), tr0 = w.tr.size();
        Client *k = s.k;
        // two clients at the same moment
        std::function<void()> dummy;
        int rc = kind == COMP ? k->connect_component("10.0.0.9", 0) : k->connect("srv.example.net");
        if (rc) { c.viol("connect", strf("connect failed: %d", rc)); return; }
        w.until_ms(30000, [&] { return k->up || !k->open; }, 2);
        static const char *kn[] = {"scram", "md5", "plain", "external", "anonymous", "legacy", "component"};
        string K = kn[kind];
        size_t n = w.srv.sasl.size() - a0;
        c.mixsig(strf("%s/%s/%d/%d/%s", K.c_str(), mechs.empty() ? "" : mechs[0].c_str(), tls, v.tls_max, badwhy.c_str()));
        auto ctx = [&](const SaslAttempt *a) {
            return strf(" [%s%s, user ", a ? a->mech.c_str() : K.c_str(), tls ? v.tls_max == TLS1_3_VERSION ? ", TLS 1.3" : ", TLS 1.2" : "") + vis(v.user, 80) + " password " + vis(v.pass, 80) +
                   (a && !a->expected.empty() ? " challenge " + vis(kind == MD5 ? v.md5_raw : v.scram_raw, 200) : "") + "]";
        };
        for (size_t i = a0; i < w.srv.sasl.size(); i++) {
            SaslAttempt &a = w.srv.sasl[i];
            stat_add("attempts");
            stat_add((string("attempts_") + K).c_str());
            if (!a.cnonce.empty()) nn.add(a.cnonce, kind == MD5 ? 8 : 16, a.mech.c_str());
            if (bad) {
                if (a.complete) c.viol(K + "/bad-challenge-answered", "the client answered a challenge with " + badwhy + ctx(&a));
                else stat_add("bad_challenges");
            }
            else for (auto &e : a.errors) { c.viol(K + "/" + slug(e), e + ctx(&a)); break; }
            if (a.complete) stat_add("verified");
            if (a.complete && a.mech.find("-PLUS") != string::npos) stat_add("verified_plus");
            if (kind != COMP && kind != LEGACY && !has_mech(mechs, a.mech)) c.viol(K + "/mechanism", "the client chose " + a.mech + " which was not offered");
            if (kind == EXT) {
                string id;
                bool eq = a.expected == "=" || a.expected.empty();
                if (eq) {
                    // the server derives the identity from the certificate
                    if (addrs.size() > 1 || (addrs.size() == 1 && addrs[0] != bare)) c.viol("external/identity", "\"=\" although the certificate does not name exactly " + vis(bare));
                } else if (!b64d(a.expected, id) || (id != bare && id != g.jid)) c.viol("external/identity", "authorisation identity " + vis(id) + " for " + vis(g.jid));
            }
            if (kind == LEGACY && a.expected != g.resource) c.viol("legacy/resource", "resource " + vis(a.expected) + " expected " + vis(g.resource));
            if (!v.refuse.count(a.mech) && !bad && a.mech.find("SCRAM") == 0 && !a.complete && !c.violated) c.viol("scram/no-response", "a valid challenge was not answered" + ctx(&a));
        }
        if (c.violated) return;
        if (n == 0) c.viol(K + "/no-attempt", "the client did not try to authenticate" + ctx(nullptr) + "\n" + w.show(3000));
        else if (!bad && !k->up) c.viol(K + "/not-accepted", "the connection did not come up" + ctx(&w.srv.sasl.back()) + "\n" + w.show(3000));
        else if (bad && k->up) c.viol(K + "/bad-challenge-up", "connected after a challenge with " + badwhy);
        else if (expected_attempts > 0 && n != (size_t)expected_attempts) c.viol(K + "/repeated", strf("%zu attempts", n));
        if (tls && !bad) stat_add("over_tls");
        c.nontrivial = true;
        if (c.sample.empty()) c.sample = K + ctx(&w.srv.sasl.back());
        (void)tr0;
        if (c.violated) return;
        if (k->open) {
            if (bad) w.until_ms(20000, [&] { return !k->open; }, 50);
            else { k->disconnect(); w.until_ms(10000, [&] { return !k->open; }, 50); }
        }
        if (k->open) { c.viol("harness/still-open", "the connection did not end"); return; }
        sim::now_ms += r.onein(2) ? 0 : r.below(1000);
    }
    w.fini();
}
