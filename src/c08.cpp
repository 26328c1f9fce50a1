// C08: when a TLS session is trusted.
#include "scen.h"
#include <algorithm>

static string lower(string s) { for (auto &c : s) c = (char)tolower((u8)c); return s; }
enum Verdict { BAD, MAYBE, GOOD };
// RFC 6125 with complete left-most wildcard labels only
static Verdict name_match(const string &pat0, const string &dom0)
{
    string pat = lower(pat0), dom = lower(dom0);
    if (pat == dom) return GOOD;
    if (pat.compare(0, 2, "*.") != 0) return BAD;
    string rest = pat.substr(2);
    if (rest.find('*') != string::npos || rest.empty()) return BAD;
    size_t dot = dom.find('.');
    if (dot == string::npos || dot == 0 || dom.substr(dot + 1) != rest) return BAD;
    return rest.find('.') == string::npos ? MAYBE : GOOD; // "*.org" is up to the implementation
}
static Verdict names_ok(const LeafSpec &l, const string &domain)
{
    Verdict v = BAD;
    for (auto &d : l.dns) v = std::max(v, name_match(d, domain));
    if (l.dns.empty()) v = name_match(l.cn, domain) == BAD ? BAD : MAYBE; // the common name instead
    return v;
}
struct CbCall { string pem, msg; int ret; bool secured; };
struct Policy8 {                // the user's decision about failing certificates
    enum M { NONE, ACCEPT, REJECT, FIRST_ONLY, NOT_FIRST, BY_MESSAGE } m = NONE;
    vector<CbCall> calls;
    xmpp_conn_t *conn = nullptr;
    Rng r{1};
};
static Policy8 *cur_policy;
static const char *pol_names[] = {"no callback", "accepting", "rejecting", "accepting the first only", "rejecting the first", "by message"};
static int certfail(const xmpp_tlscert_t *cert, const char *const msg)
{
    Policy8 &p = *cur_policy;
    int ret = 0;
    size_t n = p.calls.size();
    string m = msg ? msg : "";
    switch (p.m) {
    case Policy8::ACCEPT: ret = 1; break;
    case Policy8::FIRST_ONLY: ret = n == 0; break;
    case Policy8::NOT_FIRST: ret = n != 0; break;
    case Policy8::BY_MESSAGE: ret = m.find("expired") != string::npos || m.find("issuer") != string::npos; break;
    default: ret = 0;
    }
    const char *pem = xmpp_tlscert_get_pem(cert);
    p.calls.push_back({pem ? pem : "", m, ret, xmpp_conn_is_secured(p.conn) != 0});
    stat_add("callback_calls");
    // the rest of the certificate is readable
    for (int i = 0; i < XMPP_CERT_ELEMENT_MAX; i++) { const char *s = xmpp_tlscert_get_string(cert, (xmpp_cert_element_t)i); if (s) stat_add("cert_fields", strlen(s) > 0); }
    for (size_t i = 0; const char *d = xmpp_tlscert_get_dnsname(cert, i); i++) stat_add("cert_names", strlen(d) > 0);
    return ret;
}
static string squeeze(const string &p)
{
    string s;
    for (char c : p) if (isalnum((u8)c) || c == '+' || c == '/') s += c;
    return s;
}
static LeafSpec gen_leaf(Rng &r, const string &dom)
{
    LeafSpec l;
    size_t dot = dom.find('.');
    string rest = dot == string::npos ? "example" : dom.substr(dot + 1), first = dot == string::npos ? dom : dom.substr(0, dot);
    auto name = [&]() -> string {
        switch (r.below(22)) {
        case 0: return "*." + rest;
        case 1: return first.substr(0, 1) + "*." + rest;
        case 2: return "*" + first.substr(first.size() - 1) + "." + rest;
        case 3: return first.substr(0, 1) + "*" + first.substr(first.size() - 1) + "." + rest;
        case 4: return "other." + rest;
        case 5: return rest;
        case 6: return "*." + dom;
        case 7: return "x." + dom;
        case 8: return dom + ".evil.example";
        case 9: return "x" + dom;
        case 10: return "srv.example.net";
        case 11: { size_t d2 = rest.find('.'); return "*." + (d2 == string::npos ? rest : rest.substr(d2 + 1)); }
        case 12: return first + ".*" + (rest.find('.') == string::npos ? "" : rest.substr(rest.find('.')));
        case 13: return "*";
        case 14: { string s = dom; for (auto &c : s) if (r.onein(2)) c = (char)toupper((u8)c); return s; }
        case 15: return "*.*" + (rest.find('.') == string::npos ? "" : rest.substr(rest.find('.')));
        case 16: return dom.substr(0, dom.size() - 1);
        default: return dom;
        }
    };
    if (r.onein(3)) { l.dns = {dom}; l.cn = dom; } // only something else is wrong
    else {
        int n = r.onein(3) ? 2 + (int)r.below(2) : 1;
        for (int i = 0; i < n; i++) l.dns.push_back(name());
        if (r.onein(10)) l.dns.clear();
        else if (r.onein(12)) { // a name that only looks right to the end of a C string
            string z = dom + string(1, '\0') + (r.onein(2) ? ".evil.example" : "");
            if (r.onein(2)) l.dns = {z}; else l.dns.push_back(z);
            stat_add("names_with_nul");
        }
        if (r.onein(10) && (l.dns.empty() || l.dns.back().find('\0') == string::npos)) {
            static const char *kinds[] = {"email:x@", "email:", "URI:xmpp:", "otherName:1.3.6.1.5.5.7.8.5;UTF8:", "otherName:1.3.6.1.5.5.7.8.7;IA5STRING:_xmpp-client."};
            int k = (int)r.below(6);
            l.alt.push_back(k == 5 ? "IP:198.51.100.1" : kinds[k] + dom);
            stat_add("names_of_other_kinds");
        }
        l.cn = r.onein(3) ? dom : r.onein(12) ? dom + string(1, '\0') + ".evil.example" : name();
    }
    if (r.chance(35)) l.chain = (LeafSpec::Chain)r.below(LeafSpec::CHAIN_N);
    switch (r.below(12)) {
    case 0: l.from = -86400L * 300; l.to = -86400L; break;
    case 1: l.from = 86400L * 2; break;
    case 2: l.from = -86400L * 300; l.to = -180; break;
    case 3: l.from = 3600; break;
    case 4: l.from = -120; break;
    default: break;
    }
    return l;
}

PROP(C08)
{
    Rng &r = c.rng;
    World w(c);
    ScenOpt o;
    Scen s(w, o);
    static const char *doms[] = {"example.org", "xmpp.example.com", "chat.test.example.net", "localhost", "XMPP.Example.com"};
    int rounds = 1 + (int)r.below(3);
    lockstep(w, r.onein(2));
    net_policy(w, r.onein(3) ? NET_CHUNKY : NET_PLAIN, r.onein(3) ? NET_CHUNKY : NET_PLAIN);
    struct A { int file = 0; bool path = false; };
    std::map<Client *, A> anchors;
    std::map<Client *, std::shared_ptr<Policy8>> pols;
    w.auto_tick = true;
    setenv("SSL_CERT_FILE", "/nonexistent", 1); // as in main(); an earlier case may have ended early
    const u64 T0 = 1790000000ull;
    struct Guard { World &w; ~Guard() { for (auto &k : w.clients) k->on_event = nullptr; w.on_plain = nullptr; w.on_peer = nullptr; w.fini(); cur_policy = nullptr; } } guard{w};
    for (int round = 0; round < rounds && !c.violated; round++) {
        if (round && r.onein(3)) s.k = w.clients[r.below(w.clients.size())].get();
        else if (round && r.onein(3)) s.k = &w.client();
        Client *k = s.k;
        bool fresh = !anchors.count(k);
        A &a = anchors[k];
        auto file = [&](int n) {
            a.file = n;
            xmpp_conn_set_cafile(k->conn, (n == 1 ? ca_file() : n == 2 ? other_ca_file() : ca_file() + ".missing").c_str());
        };
        auto path = [&] { a.path = true; xmpp_conn_set_capath(k->conn, ca_path_dir().c_str()); };
        if (fresh) {
            switch (r.below(12)) {
            case 0: break;      // nothing but the system's
            case 1: file(2); break;
            case 2: path(); break;
            case 3: file(2); path(); break;
            case 4: file(3); break;
            default: file(1); break;
            }
            pols[k] = std::make_shared<Policy8>();
            pols[k]->conn = k->conn;
        } else if (r.onein(3)) { // replaced
            file(1 + (int)r.below(3));
            stat_add("anchor_changes");
        }
        Policy8 &pol = *pols[k];
        cur_policy = &pol;
        pol.calls.clear();
        bool env = r.onein(12);
        if (env) setenv("SSL_CERT_FILE", ca_file().c_str(), 1);
        s.cfgs.emplace_back();
        ConnCfg &g = s.cfgs.back();
        s.cur = &g;
        SrvConf &v = g.srv;
        g.domain = doms[r.below(5)];
        bool odd = r.onein(15);     // no domain any certificate could name
        if (odd) g.domain = r.onein(2) ? "" : ".example.org";
        g.jid = "alice@" + g.domain + (r.onein(2) ? "/r" : "");
        g.pass = v.pass = "secret";
        v.user = "alice";
        v.domain = g.domain;
        v.mechs = {"PLAIN"};
        v.iter = 1;
        bool raw = r.onein(6);
        bool legacy = !raw && r.onein(3);
        bool trust = r.onein(6);
        g.flags = (trust ? XMPP_CONN_FLAG_TRUST_TLS : 0) | (legacy ? XMPP_CONN_FLAG_LEGACY_SSL : 0) | (r.onein(3) ? XMPP_CONN_FLAG_MANDATORY_TLS : 0);
        if (raw && r.onein(8)) g.flags = XMPP_CONN_FLAG_DISABLE_TLS;
        bool disabled = g.flags & XMPP_CONN_FLAG_DISABLE_TLS;
        if (legacy) v.starttls = false;
        v.tls_max = r.onein(2) ? TLS1_2_VERSION : TLS1_3_VERSION;
        if (r.onein(14)) v.tls_mode = (SrvConf::TlsMode)(1 + r.below(SrvConf::TLS_MODES - 1));
        LeafSpec l = gen_leaf(r, odd ? "www.example.org" : g.domain);
        const LeafCtx &lc = leaf_ctx(l, v.tls_max);
        v.tls_ctx = lc.ctx;
        if (fresh ? !r.onein(3) : r.onein(2)) { // else: as before (nothing on a new object)
            pol.m = (Policy8::M)r.below(6);
            xmpp_conn_set_certfail_handler(k->conn, pol.m == Policy8::NONE ? nullptr : certfail);
        }
        if (r.onein(5)) {               // a certificate of the user's own changes nothing
            ClientCert cc = client_cert({"alice@example.org"});
            if (r.onein(2)) xmpp_conn_set_client_cert(k->conn, cc.cert.c_str(), cc.key.c_str());
            else { xmpp_conn_set_password_callback(k->conn, [](char *, size_t, xmpp_conn_t *, void *) { return 0; }, nullptr); xmpp_conn_set_client_cert(k->conn, cc.p12.c_str(), nullptr); }
            stat_add("client_certificates");
        }
        if (round && r.onein(6)) { sim::now_ms += 1000ull * 86400 * 301; stat_add("clock_jumps"); }
        k->jid = g.jid;
        xmpp_conn_set_jid(k->conn, g.jid.c_str());
        xmpp_conn_set_pass(k->conn, g.pass.c_str());
        if (xmpp_conn_set_flags(k->conn, g.flags)) { c.viol("harness/flags", "flags refused"); return; }
        // ---- what is right
        long now = (long)(sim::now_ms / 1000 - T0);
        bool time_ok = now > l.from && now + 600 < l.to;
        bool time_bad = now + 600 < l.from || now > l.to;
        Verdict names = names_ok(l, g.domain), chain = BAD;
        bool inter_bad = false, ca1 = a.file == 1 || a.path || env, ca2 = a.file == 2, broken = a.file == 3;
        switch (l.chain) {
        case LeafSpec::DIRECT: chain = ca1 ? GOOD : BAD; break;
        case LeafSpec::INTER: chain = ca1 ? GOOD : BAD; break;
        case LeafSpec::OTHER: case LeafSpec::OTHER_ROOT: chain = ca2 ? GOOD : BAD; break;
        case LeafSpec::INTER_EXPIRED: inter_bad = true; break;
        default: break;
        }
        Verdict verdict = std::min(std::min(names, chain), time_ok ? GOOD : time_bad ? BAD : MAYBE);
        int failing = (names == BAD) + (chain == BAD) + time_bad;
        c.note(strf("round %d %s flags %lx %s%s%s: ", round, g.jid.c_str(), g.flags, raw ? "raw " : legacy ? "legacy " : "", pol_names[pol.m], env ? " env" : "") + l.show() + strf(" verdict %d names %d chain %d", verdict, names, chain));
        auto ctx = [&] {
            string x = " [" + g.domain + ": " + l.show() + strf("; %s, %s%s%s%s%s]", raw ? "raw" : legacy ? "legacy SSL" : "STARTTLS", pol_names[pol.m], trust ? ", trusted" : "", broken ? ", CA file missing" : "", env ? ", default CA" : ca1 ? "" : ", CA unknown",
                                                                      v.tls_max == TLS1_3_VERSION ? ", TLS 1.3" : ", TLS 1.2");
            for (auto &q : pol.calls) x += "\n  callback: " + q.msg + strf(" -> %d", q.ret);
            return x;
        };
        auto allowed = [&](string &why) {
            if (disabled) { why = "TLS is disabled"; return false; }
            if (trust || verdict != BAD) return true;
            if (v.tls_mode != SrvConf::TLS_NORMAL) { why = "there is no handshake"; return false; }
            if (pol.m == Policy8::NONE) { why = "no callback is installed"; return false; }
            if (pol.calls.empty()) { why = "the callback was not asked"; return false; }
            for (auto &q : pol.calls) if (!q.ret) { why = "the callback rejected (" + q.msg + ")"; return false; }
            // each failing certificate
            bool leaf_seen = false, inter_seen = false;
            string lp = squeeze(lc.leaf_pem), ip = squeeze(lc.inter_pem);
            for (auto &q : pol.calls) { string p = squeeze(q.pem); if (p == lp) leaf_seen = true; if (!ip.empty() && p == ip) inter_seen = true; }
            if ((names == BAD || time_bad) && !leaf_seen) { why = "the callback has not seen the server's certificate"; return false; }
            if (inter_bad && !inter_seen && names != BAD && !time_bad) { why = "the callback has not seen the intermediate certificate"; return false; }
            return true;
        };
        size_t peers0 = w.peers.size();
        bool tls_seen = false, secured = false, start_called = false;
        int start_rc = -1;
        u64 app = 0;
        string why;
        auto look = [&](const char *where) {
            if (!k->conn || !k->open || !xmpp_conn_is_secured(k->conn)) return;
            secured = true;
            if (!allowed(why)) c.viol("secured/" + string(trust ? "trust" : l.chain == LeafSpec::DIRECT && names != BAD ? "time" : names == BAD ? "name" : "chain"), string("reported as secured (") + where + ") although " + why + ctx());
            if (peers0 >= w.peers.size()) c.viol("secured/no-connection", string("reported as secured before there was a connection (") + where + ")");
            else if (!w.peers.back()->tls) c.viol("secured/no-tls", string("reported as secured, but TLS was not started (") + where + ")" + ctx());
        };
        w.on_plain = [&](int no, const string &b) {
            XPeer *p = w.peers[(size_t)no];
            if (!p->tls_up || no < (int)peers0) return;
            app += b.size();
            if (!allowed(why)) c.viol("data/" + string(names == BAD ? "name" : "other"), "data over TLS although " + why + ": " + vis(b, 100) + ctx());
        };
        std::map<int, size_t> tls_at;           // bytes on the wire when TLS began
        w.on_peer = [&](XPeer &p) { if (legacy || (raw && !disabled)) { p.start_tls(); if (raw) p.opaque = true; } if (raw && disabled) p.opaque = true; };
        k->on_event = [&](int ev) {
            look(ev == XMPP_CONN_DISCONNECT ? "disconnect notification" : "notification");
            if (ev == XMPP_CONN_RAW_CONNECT && raw && !start_called) {
                start_called = true;
                start_rc = xmpp_conn_tls_start(k->conn);
                if ((start_rc == 0) != (xmpp_conn_is_secured(k->conn) != 0)) c.viol("raw/result", strf("xmpp_conn_tls_start returned %d, secured %d", start_rc, xmpp_conn_is_secured(k->conn)) + ctx());
                if (start_rc == 0 && !allowed(why)) c.viol("raw/start", "xmpp_conn_tls_start succeeded although " + why + ctx());
                if (start_rc == 0) xmpp_send_raw_string(k->conn, "<hello-over-tls/>");
                if (disabled && start_rc == 0) c.viol("raw/disabled", "TLS started although it is disabled");
            }
        };
        s.hooks();
        int rc = raw ? k->connect_raw("srv.example.net") : k->connect("srv.example.net");
        if (rc && odd) { stat_add("odd_domains_refused"); k->on_event = nullptr; w.on_plain = nullptr; if (env) setenv("SSL_CERT_FILE", "/nonexistent", 1); continue; }
        if (rc) { c.viol("connect", strf("connect failed: %d", rc) + ctx()); return; }
        look("after connect");
        w.until_ms(60000, [&] {
            look("event loop");
            for (size_t i = peers0; i < w.peers.size(); i++) if (w.peers[i]->tls && !tls_at.count((int)i)) tls_at[(int)i] = w.peers[i]->raw_rx.size();
            if (w.peers.size() > peers0 && w.peers.back()->tls) tls_seen = true;
            return k->cur_connects && k->open ? true : !k->open;
        }, 2);
        look("end");
        if (raw && start_rc == 0) { u64 till = sim::now_ms + 3000; w.until_ms(3000, [&] { look("raw"); return sim::now_ms >= till; }, 10); }
        bool failed = false;
        for (size_t i = w.tr.size(); i-- > 0;) if (w.tr[i].k == Ev::TLS_FAIL && w.tr[i].conn >= (int)peers0) failed = true;
        bool must_fail = tls_seen && !disabled && !trust && (verdict == BAD || v.tls_mode != SrvConf::TLS_NORMAL) && !allowed(why);
        if (tls_seen && !secured && !raw) {
            // nothing but the end of the stream after a failed handshake, and the end of the connection
            if (k->open) c.viol("teardown/open", "the connection is still there 60 s after the handshake failed" + ctx());
            if (k->cur_connects) c.viol("teardown/connected", "connected was reported after the handshake failed" + ctx());
            for (auto &t : tls_at) {
                string after = w.peers[(size_t)t.first]->raw_rx.substr(std::min(t.second, w.peers[(size_t)t.first]->raw_rx.size()));
                for (const char *m : {"<stream:stream", "<auth", "<iq", "<starttls", "<response", "<hello"}) if (after.find(m) != string::npos) c.viol("teardown/clear", string("after the failed handshake the client went on in the clear: ") + m + ctx());
            }
            stat_add("teardowns");
        }
        for (auto &q : pol.calls) if (q.secured) c.viol("secured/early", "reported as secured while the callback is asked" + ctx());
        if (c.violated) return;
        // what was seen
        static const char *vn[] = {"bad", "maybe", "good"};
        string cell = strf("%s/%s/%s/%d", vn[verdict], pol_names[pol.m], trust ? "trust" : "-", raw ? 2 : legacy);
        c.mixsig(cell + (secured ? "S" : "-") + (names == BAD ? "n" : "") + chain_names[l.chain] + (time_bad ? "t" : ""));
        stat_distinct("cells", hash_str(cell + chain_names[l.chain] + (names == BAD ? "n" : "") + (time_bad ? "t" : "") + (secured ? "S" : "")));
        stat_add("rounds");
        if (secured) stat_add("secured");
        if (secured && verdict == GOOD && !trust) stat_add("secured_by_certificate");
        if (secured && verdict == BAD && trust) stat_add("secured_by_trust_flag");
        if (secured && verdict == BAD && !trust) stat_add("secured_by_callback");
        if (must_fail) stat_add("refused");
        if (must_fail && pol.m == Policy8::NONE) stat_add("refused_without_callback");
        if (must_fail && failing == 1) stat_add("refused_one_reason");
        if (app) stat_add("tls_data_connections");
        if (verdict == GOOD && !trust && !broken && v.tls_mode == SrvConf::TLS_NORMAL && !disabled && tls_seen && !secured) c.viol("refused/valid", "a valid certificate was not accepted" + ctx() + "\n" + w.show(3000));
        (void)failed;
        if (secured) c.nontrivial = true;
        if (must_fail) c.nontrivial = true;
        if (c.sample.empty()) c.sample = ctx() + (secured ? " secured" : " not secured");
        if (k->open) { k->disconnect(); if (raw && k->open && w.peer()) w.peer()->fin(); w.until_ms(20000, [&] { return !k->open; }, 50); }
        if (k->open) { c.viol("harness/still-open", "the connection did not end" + ctx()); return; }
        k->on_event = nullptr;
        w.on_plain = nullptr;
        if (env) setenv("SSL_CERT_FILE", "/nonexistent", 1);
        if (c.violated) return;
    }
}
