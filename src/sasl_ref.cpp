// Reference SASL server: judges what the client sends against the RFCs.
#include "world.h"

static void err(SaslAttempt &a, const string &s) { a.errors.push_back(s); }

static const char *scram_alg(const string &m, bool &plus)
{
    plus = m.size() > 5 && m.compare(m.size() - 5, 5, "-PLUS") == 0;
    string b = plus ? m.substr(0, m.size() - 5) : m;
    if (b == "SCRAM-SHA-1") return "SHA1";
    if (b == "SCRAM-SHA-256") return "SHA256";
    if (b == "SCRAM-SHA-512") return "SHA512";
    return nullptr;
}
static bool cb_data(XPeer &p, const string &type, string &out)
{
    if (!p.ssl || !p.tls_up) return false;
    u8 b[256];
    if (type == "tls-unique") {
        if (SSL_version(p.ssl) >= TLS1_3_VERSION) return false;
        size_t n = SSL_get_peer_finished(p.ssl, b, sizeof b); // full handshake: the client's Finished is the first
        out.assign((char *)b, n);
        return n > 0;
    }
    if (type == "tls-exporter") {
        if (SSL_export_keying_material(p.ssl, b, 32, "EXPORTER-Channel-Binding", 24, nullptr, 0, 0) != 1) return false;
        out.assign((char *)b, 32);
        return true;
    }
    return false;
}
string scram_escape(const string &u)
{
    string r;
    for (char c : u) { if (c == ',') r += "=2C"; else if (c == '=') r += "=3D"; else r += c; }
    return r;
}
static string scram_unescape(const string &u, bool &ok)
{
    string r;
    ok = true;
    for (size_t i = 0; i < u.size(); i++) {
        if (u[i] == ',') ok = false;
        if (u[i] == '=') {
            if (u.compare(i, 3, "=2C") == 0) r += ',';
            else if (u.compare(i, 3, "=3D") == 0) r += '=';
            else { ok = false; r += '='; continue; }
            i += 2;
        } else r += u[i];
    }
    return r;
}
void Server::sasl_done(XPeer &p, bool ok, const string &extra)
{
    string m = p.mech;
    p.mech.clear();
    if (ok) {
        p.authed = true;
        p.tx("success", "<success xmlns='" NS_SASL "'>" + extra + "</success>");
    } else p.tx("failure", "<failure xmlns='" NS_SASL "'><not-authorized/></failure>");
}
void Server::sasl_auth(XPeer &p, const Elem &e)
{
    SaslAttempt a;
    a.conn = p.no;
    a.mech = p.mech = e.attr("mechanism");
    a.tls = p.tls_up;
    p.sasl_step = 0;
    string text = e.alltext();
    bool plus = false;
    string ini;
    bool has = !text.empty();
    if (has && text != "=" && !b64d(text, ini)) err(a, "initial response is not base64: " + vis(text));
    if (a.mech == "PLAIN") {
        a.complete = true;
        a.expected = b64e(string(1, 0) + conf.user + string(1, 0) + conf.pass);
        a.user = conf.user;
        if (text != a.expected) err(a, "PLAIN " + vis(text) + " expected " + a.expected);
    } else if (a.mech == "ANONYMOUS") {
        a.complete = true;
        if (!ini.empty()) err(a, "ANONYMOUS with an identity: " + vis(ini));
    } else if (a.mech == "EXTERNAL") {
        a.complete = true;
        a.user = ini;
        a.expected = text;
    } else if (a.mech == "DIGEST-MD5") {
        if (has) err(a, "DIGEST-MD5 with an initial response");
        sasl.push_back(a);
        if (conf.refuse.count(a.mech)) { sasl_done(p, false); return; }
        string ch = conf.md5_raw.empty() ? md5_challenge() : conf.md5_raw;
        p.tx("challenge", "<challenge xmlns='" NS_SASL "'>" + b64e(ch) + "</challenge>");
        return;
    } else if (const char *alg = scram_alg(a.mech, plus)) {
        (void)alg;
        p.scram_plus = plus;
        // gs2-header client-first-bare
        size_t c1 = ini.find(','), c2 = c1 == string::npos ? c1 : ini.find(',', c1 + 1);
        if (c2 == string::npos) {
            err(a, "client-first-message without gs2 header: " + vis(ini));
            sasl.push_back(a);
            sasl_done(p, false);
            return;
        }
        string flag = ini.substr(0, c1), authzid = ini.substr(c1 + 1, c2 - c1 - 1);
        p.scram_gs2 = ini.substr(0, c2 + 1);
        p.scram_cfb = ini.substr(c2 + 1);
        if (!authzid.empty()) err(a, "unexpected authzid " + vis(authzid));
        if (plus) {
            string want = SSL_version(p.ssl) >= TLS1_3_VERSION ? "tls-exporter" : "tls-unique";
            if (flag.compare(0, 2, "p=") != 0) err(a, "-PLUS without p=: " + vis(flag));
            else if (flag != "p=" + want) err(a, "channel binding type " + vis(flag) + " expected p=" + want);
        } else if (flag == "y") {
            // "the client supports channel binding but thinks the server does not"
            if (!p.tls_up) err(a, "y on a connection without TLS");
        } else if (flag != "n") err(a, "gs2 flag " + vis(flag));
        else if (p.tls_up) a.note_n_on_tls = true;
        if (conf.strict_gs2 && !plus && p.tls_up) {
            // RFC 5802 6: "y" if and only if the server does not appear to support channel binding
            bool offered = false;
            for (auto *v : {&conf.mechs, &conf.mechs_tls}) for (auto &m : *v) if (m.find("-PLUS") != string::npos) offered = true;
            if (offered && flag != "n") err(a, "gs2 flag " + vis(flag) + " although the server offered -PLUS");
            if (!offered && flag != "y") err(a, "gs2 flag " + vis(flag) + " expected y");
        }
        // n=user,r=nonce
        string u, r;
        size_t k = p.scram_cfb.find(",r=");
        if (p.scram_cfb.compare(0, 2, "n=") != 0 || k == string::npos) err(a, "client-first-bare " + vis(p.scram_cfb));
        else {
            u = p.scram_cfb.substr(2, k - 2);
            r = p.scram_cfb.substr(k + 3);
            bool ok;
            a.user = scram_unescape(u, ok);
            if (!ok) err(a, "user name not escaped: " + vis(u));
            else if (a.user != conf.user) err(a, "user name " + vis(a.user) + " expected " + vis(conf.user));
            a.cnonce = r;
            if (r.empty()) err(a, "empty client nonce");
            for (u8 ch : r) if (ch < 0x21 || ch > 0x7e || ch == ',') { err(a, "client nonce not printable: " + vis(r)); break; }
        }
        sasl.push_back(a);
        if (conf.refuse.count(a.mech) || u.empty()) { sasl_done(p, false); return; }
        p.scram_sfirst = "r=" + r + conf.snonce + ",s=" + b64e(conf.salt) + ",i=" + std::to_string(conf.iter);
        if (!conf.scram_raw.empty()) {
            p.scram_sfirst = conf.scram_raw;
            size_t q = p.scram_sfirst.find("%N");
            if (q != string::npos) p.scram_sfirst.replace(q, 2, r);
        }
        p.tx("challenge", "<challenge xmlns='" NS_SASL "'>" + b64e(p.scram_sfirst) + "</challenge>");
        return;
    } else {
        err(a, "unknown mechanism");
        sasl.push_back(a);
        p.tx("failure", "<failure xmlns='" NS_SASL "'><invalid-mechanism/></failure>");
        p.mech.clear();
        return;
    }
    a.ok = a.errors.empty() && !conf.refuse.count(a.mech);
    bool ok = a.ok;
    sasl.push_back(a);
    sasl_done(p, ok);
}
void Server::sasl_response(XPeer &p, const string &text)
{
    if (p.mech.empty() || sasl.empty()) {
        p.tx("failure", "<failure xmlns='" NS_SASL "'><malformed-request/></failure>");
        return;
    }
    SaslAttempt &a = sasl.back();
    p.sasl_step++;
    string resp;
    if (!b64d(text, resp)) err(a, "response is not base64: " + vis(text));
    bool plus;
    if (const char *alg = scram_alg(p.mech, plus)) {
        if (p.sasl_step > 1) { err(a, "second SCRAM response"); sasl_done(p, false); return; }
        a.complete = true;
        // c=...,r=...,p=...
        size_t r = resp.find(",r="), q = resp.rfind(",p=");
        string sig;
        if (resp.compare(0, 2, "c=") != 0 || r == string::npos || q == string::npos || q < r) err(a, "client-final-message " + vis(resp));
        else {
            string cb64 = resp.substr(2, r - 2), nonce = resp.substr(r + 3, q - r - 3), proof = resp.substr(q + 3), cb, pr;
            string want = p.scram_gs2;
            if (plus) {
                string d, type = p.scram_gs2.size() > 4 ? p.scram_gs2.substr(2, p.scram_gs2.find(',') - 2) : "";
                if (!cb_data(p, type, d)) err(a, "no channel binding data for " + vis(type));
                want += d;
            }
            if (!b64d(cb64, cb)) err(a, "c= is not base64");
            else if (cb != want) err(a, "c=" + vis(cb) + " expected " + vis(want));
            string snonce = p.scram_sfirst.substr(2, p.scram_sfirst.find(",s=") - 2);
            if (nonce != snonce) err(a, "r=" + vis(nonce) + " expected " + vis(snonce));
            string am = p.scram_cfb + "," + p.scram_sfirst + "," + resp.substr(0, q);
            string salted = pbkdf2(alg, conf.pass, conf.salt, conf.iter);
            string ck = hmac(alg, salted, "Client Key"), sk = md(alg, ck), cs = hmac(alg, sk, am);
            string want_p = ck;
            for (size_t i = 0; i < ck.size(); i++) want_p[i] ^= cs[i];
            a.expected = b64e(want_p);
            if (!b64d(proof, pr) || pr != want_p) err(a, "p=" + vis(proof) + " expected " + a.expected);
            sig = hmac(alg, hmac(alg, salted, "Server Key"), am);
        }
        a.ok = a.errors.empty();
        sasl_done(p, a.ok, b64e("v=" + b64e(sig)));
        return;
    }
    if (p.mech == "DIGEST-MD5") {
        if (p.sasl_step == 1) {
            string rsp;
            a.complete = true;
            a.ok = md5_check(resp, a, rsp);
            if (a.ok && conf.md5_rspauth) p.tx("rspauth", "<challenge xmlns='" NS_SASL "'>" + b64e("rspauth=" + rsp) + "</challenge>");
            else sasl_done(p, a.ok, a.ok ? b64e("rspauth=" + rsp) : "");
        } else {
            if (!text.empty()) err(a, "response to rspauth is not empty: " + vis(text));
            sasl_done(p, a.ok);
        }
        return;
    }
    err(a, "unexpected <response/>");
    sasl_done(p, false);
}
static string quote(const string &s)
{
    string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; }
    return r + "\"";
}
string Server::md5_challenge()
{
    string s;
    if (conf.md5_has_realm) s += "realm=" + quote(conf.md5_realm) + ",";
    s += "nonce=" + quote(conf.md5_nonce);
    if (!conf.md5_qop.empty()) s += ",qop=" + quote(conf.md5_qop);
    if (!conf.md5_charset.empty()) s += ",charset=" + conf.md5_charset;
    if (!conf.md5_algorithm.empty()) s += ",algorithm=" + conf.md5_algorithm;
    return s;
}
// RFC 2831 directive list
static bool md5_parse(const string &s, vector<std::pair<string, string>> &out)
{
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && (s[i] == ',' || s[i] == ' ')) i++;
        if (i >= s.size()) break;
        size_t eq = s.find('=', i);
        if (eq == string::npos) return false;
        string k = s.substr(i, eq - i), v;
        i = eq + 1;
        if (i < s.size() && s[i] == '"') {
            bool closed = false;
            for (i++; i < s.size(); i++) {
                if (s[i] == '\\' && i + 1 < s.size()) { v += s[++i]; continue; }
                if (s[i] == '"') { closed = true; i++; break; }
                v += s[i];
            }
            if (!closed) return false;
            if (i < s.size() && s[i] != ',') return false;
        } else {
            while (i < s.size() && s[i] != ',') v += s[i++];
            if (v.empty()) return false; // a token has at least one character
        }
        out.push_back({k, v});
    }
    return true;
}
// UTF-8 text whose characters all are in ISO 8859-1 is hashed in ISO 8859-1 (RFC 2831 2.1.2.1)
string md5_latin1(const string &s)
{
    string r;
    for (size_t i = 0; i < s.size(); i++) {
        u8 c = s[i];
        if (c < 0x80) r += (char)c;
        else if ((c == 0xc2 || c == 0xc3) && i + 1 < s.size() && ((u8)s[i + 1] & 0xc0) == 0x80) { r += (char)((c & 3) << 6 | ((u8)s[i + 1] & 0x3f)); i++; }
        else return s;
    }
    return r;
}
bool Server::md5_check(const string &resp, SaslAttempt &a, string &rspauth)
{
    vector<std::pair<string, string>> d;
    if (!md5_parse(resp, d)) { err(a, "digest-response syntax: " + vis(resp)); return false; }
    std::map<string, string> m;
    for (auto &x : d) {
        if (m.count(x.first)) err(a, "directive twice: " + x.first);
        m[x.first] = x.second;
    }
    string realm = conf.md5_has_realm ? conf.md5_realm : (m.count("realm") ? m["realm"] : "");
    auto want = [&](const char *k, const string &v) {
        if (!m.count(k)) err(a, string("no ") + k);
        else if (m[k] != v) err(a, string(k) + "=" + vis(m[k]) + " expected " + vis(v));
    };
    // without charset=utf-8 everything is in ISO 8859-1
    want("username", conf.md5_charset.empty() ? md5_latin1(conf.user) : conf.user);
    if (!conf.md5_realms.empty()) {
        if (!conf.md5_realms.count(m["realm"])) err(a, "realm=" + vis(m["realm"]) + " is none of the offered ones");
        realm = m["realm"];
    } else if (conf.md5_has_realm && !conf.md5_realm.empty()) want("realm", conf.md5_realm);
    else if (m.count("realm")) realm = m["realm"];
    want("nonce", conf.md5_nonce);
    want("nc", "00000001");
    if (m.count("qop")) want("qop", "auth");
    want("digest-uri", "xmpp/" + conf.domain);
    if (!conf.md5_charset.empty()) { if (m.count("charset")) want("charset", "utf-8"); }
    else if (m.count("charset")) err(a, "charset sent although the server did not offer it");
    a.cnonce = m["cnonce"];
    a.user = m["username"];
    if (a.cnonce.empty()) err(a, "no cnonce");
    bool utf8 = m.count("charset") && m["charset"] == "utf-8";
    string A1;
    {
        string u = conf.user, pw = conf.pass, re = realm;
        u = md5_latin1(u);
        pw = md5_latin1(pw);
        if (utf8) re = md5_latin1(re);
        A1 = md("MD5", u + ":" + re + ":" + pw) + ":" + conf.md5_nonce + ":" + a.cnonce;
    }
    if (m.count("authzid")) A1 += ":" + m["authzid"];
    string ha1 = hexs(md("MD5", A1));
    string tail = ":" + conf.md5_nonce + ":" + m["nc"] + ":" + a.cnonce + ":auth:";
    string uri = m["digest-uri"];
    a.expected = hexs(md("MD5", ha1 + tail + hexs(md("MD5", "AUTHENTICATE:" + uri))));
    if (m["response"] != a.expected) err(a, "response=" + vis(m["response"]) + " expected " + a.expected);
    rspauth = hexs(md("MD5", ha1 + tail + hexs(md("MD5", ":" + uri))));
    return a.errors.empty();
}
