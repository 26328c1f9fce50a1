#include "scen.h"
#include <algorithm>

void lockstep(World &w, bool on) { w.lockstep_gap = on ? 12 : 0; }
bool has_mech(const vector<string> &v, const string &m) { return std::find(v.begin(), v.end(), m) != v.end(); }

static const char *all_mechs[] = {"SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "PLAIN", "DIGEST-MD5", "ANONYMOUS", "EXTERNAL", "X-UNKNOWN",
                                  "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"};

static vector<string> gen_mechs(Rng &r, bool plus)
{
    vector<string> v;
    int n = r.onein(12) ? 0 : 1 + (int)r.below(4);
    for (int i = 0; i < n; i++) {
        string m = all_mechs[r.below(plus ? 11 : 8)];
        if (r.chance(25)) m = "PLAIN";
        if (!has_mech(v, m)) v.push_back(m);
    }
    return v;
}

Scen::Scen(World &w, const ScenOpt &o) : w(w), c(w.c), r(w.c.rng), o(o)
{
    k = &w.client();
    w.on_peer = [this](XPeer &p) {
        peer_cfg[p.no] = cur;
        if (cur && (cur->flags & XMPP_CONN_FLAG_LEGACY_SSL)) p.start_tls();
    };
}

ConnCfg &Scen::next_cfg()
{
    bool first = cfgs.empty();
    ConnCfg prev = first ? ConnCfg() : cfgs.back();
    cfgs.emplace_back();
    ConnCfg &g = cfgs.back();
    cur = &g;
    // ---- client
    bool same_client = !first && r.chance(70);
    if (same_client) {
        g.jid = prev.jid; g.domain = prev.domain; g.resource = prev.resource; g.pass = prev.pass; g.has_res = prev.has_res;
        g.has_node = prev.has_node; g.pass_null = prev.pass_null; g.flags = prev.flags; g.component = prev.component; g.cert = prev.cert;
    } else {
        static const char *doms[] = {"example.org", "xmpp.example.com", "chat.test.example.net"};
        g.domain = doms[r.below(3)];
        g.has_node = !r.onein(9);
        g.has_res = r.chance(60);
        g.resource = g.has_res ? (r.onein(4) ? "r&d <\"'>" + strf("%d", (int)r.below(100)) : strf("res%d", (int)r.below(1000))) : "";
        static const char *ress[] = {"", "x", "a@b", "a/b", "@", "/", "\xc3\xa9"};
        if (g.has_res && r.onein(6)) g.resource = r.onein(4) ? string(1 + r.below(r.onein(2) ? 300 : 1023), 'r') + "e" : ress[r.below(7)];
        static const char *nodes[] = {"alice", "bob.b", "a,b=c", "\xc3\xa4rger"};
        g.jid = (g.has_node ? string(nodes[r.onein(3) ? r.below(4) : 0]) + "@" : "") + g.domain + (g.has_res ? "/" + g.resource : "");
        g.pass = strf("pw-%06llx", (unsigned long long)r.below(1 << 24)) + (r.onein(5) ? "<&\"'>" : "");
        g.pass_null = r.onein(40);
        g.component = o.allow_component && r.onein(10);
        if (g.component) { g.jid = g.domain = "comp.example.org"; g.has_node = g.has_res = false; g.pass_null = false; g.resource.clear(); }
        long f = 0;
        if (!r.chance(o.tls_pct)) f |= XMPP_CONN_FLAG_DISABLE_TLS;
        else {
            if (r.chance(35)) f |= XMPP_CONN_FLAG_MANDATORY_TLS;
            if (r.chance(12)) f |= XMPP_CONN_FLAG_LEGACY_SSL;
            if (r.chance(15)) f |= XMPP_CONN_FLAG_TRUST_TLS;
        }
        if (r.chance(15)) f |= XMPP_CONN_FLAG_LEGACY_AUTH;
        if (r.chance(15)) f |= XMPP_CONN_FLAG_DISABLE_SM;
        if (r.chance(35)) { f |= XMPP_CONN_FLAG_ENABLE_COMPRESSION; if (r.chance(30)) f |= XMPP_CONN_FLAG_COMPRESSION_DONT_RESET; }
        if (g.component) f &= ~(XMPP_CONN_FLAG_MANDATORY_TLS | XMPP_CONN_FLAG_LEGACY_SSL | XMPP_CONN_FLAG_LEGACY_AUTH);
        g.flags = f;
        g.cert = o.allow_cert && (prev.cert || r.onein(6));
    }
    if (!xmpp_conn_is_disconnected(k->conn)) { c.note("scenario: not disconnected"); }
    k->jid = g.jid;
    k->pass = g.pass;
    xmpp_conn_set_jid(k->conn, g.jid.c_str());
    xmpp_conn_set_pass(k->conn, g.pass_null ? nullptr : g.pass.c_str());
    if (r.onein(8)) { long x = g.flags; g.flags = 0; xmpp_conn_set_flags(k->conn, 0); g.flags = x; }
    xmpp_conn_set_flags(k->conn, g.flags);
    if (first) {
        if (r.chance(80)) xmpp_conn_set_cafile(k->conn, ca_file().c_str()); else xmpp_conn_set_capath(k->conn, ca_path_dir().c_str());
    }
    if (g.cert) {
        string addr = g.jid.substr(0, g.jid.find('/'));
        if (!g.has_node || addr.find(',') != string::npos) addr = "x@" + g.domain;
        ClientCert cc = client_cert({addr});
        xmpp_conn_set_client_cert(k->conn, cc.cert.c_str(), cc.key.c_str());
    }
    // ---- server
    SrvConf &s = g.srv;
    s.domain = g.domain;
    s.user = g.has_node ? g.jid.substr(0, g.jid.find('@')) : "";
    s.pass = s.secret = g.pass;
    s.component = g.component;
    s.mechs = gen_mechs(r, r.onein(10));
    if (r.chance(60)) s.mechs_tls = gen_mechs(r, true);
    if (!g.has_node && r.chance(60)) { s.mechs.push_back("ANONYMOUS"); if (!s.mechs_tls.empty()) s.mechs_tls.push_back("ANONYMOUS"); }
    if (g.cert && r.chance(60)) { s.mechs.push_back("EXTERNAL"); if (!s.mechs_tls.empty()) s.mechs_tls.push_back("EXTERNAL"); }
    s.ask_client_cert = g.cert && r.chance(70);
    s.starttls = r.chance(75);
    s.starttls_required = r.chance(30);
    s.features = !r.onein(40);
    s.comp = r.chance(45);
    static const char *cm[] = {"<method>zlib</method>", "<method>lzw</method>", "<method>lzw</method><method>zlib</method>", ""};
    s.comp_methods = cm[r.onein(3) ? r.below(4) : 0];
    s.bind = !r.onein(20);
    s.session = r.chance(40);
    s.session_optional = r.chance(50);
    s.sm = r.chance(o.sm_pct + 10);
    s.sm_resume = r.chance(85);
    s.tls_mode = r.chance(88) ? SrvConf::TLS_NORMAL : (SrvConf::TlsMode)(1 + r.below(SrvConf::TLS_MODES - 1));
    s.cert = !o.bad_certs || r.chance(75) ? (r.onein(4) ? CERT_WILDCARD : CERT_OK) : (CertKind)r.below(CERT_NKINDS);
    if (s.cert == CERT_WILDCARD && std::count(g.domain.begin(), g.domain.end(), '.') < 2) s.cert = CERT_OK;
    s.tls_max = r.onein(3) ? TLS1_2_VERSION : TLS1_3_VERSION;
    for (auto *m : all_mechs) if (r.onein(9)) s.refuse.insert(m);
    if (r.onein(9)) s.refuse.insert("legacy");
    s.delay = r.onein(4) ? r.below(80) : 0;
    s.stream_id = strf("id-%llx", (unsigned long long)r.below(1 << 20)) + (r.onein(6) ? "&<'\">" : "");
    s.iter = 1 + (int)r.below(50);
    s.md5_realm = g.domain;
    s.md5_rspauth = r.chance(60);
    s.md5_qop = r.onein(4) ? "" : r.onein(3) ? "auth,auth-int" : "auth";
    g.clean = !r.chance(o.hostile_pct);
    g.strict = !(!g.clean && r.chance(o.burst_pct));
    lockstep(w, g.strict);
    // ---- must it come up?
    auto no = [&](const char *y) { g.expect_up = false; if (g.why.empty()) g.why = y; };
    g.expect_up = true;
    if (!g.clean) no("hostile");
    if (!s.features && !g.component) no("no features");
    bool tls = false, tls_bad = false;
    if (!(g.flags & XMPP_CONN_FLAG_DISABLE_TLS) && !g.component) {
        if (s.starttls || (g.flags & XMPP_CONN_FLAG_LEGACY_SSL)) tls = true;
    }
    if (tls && s.tls_mode != SrvConf::TLS_NORMAL) tls_bad = true;
    if (tls && s.cert > CERT_WILDCARD && !(g.flags & XMPP_CONN_FLAG_TRUST_TLS)) tls_bad = true;
    if (tls_bad) no("tls");
    if ((g.flags & XMPP_CONN_FLAG_MANDATORY_TLS) && !tls) no("mandatory");
    if (!g.component) {
        if (g.pass_null) no("no password");
        vector<string> offered;
        if (tls && !(g.flags & XMPP_CONN_FLAG_LEGACY_SSL)) offered = s.mechs;
        const vector<string> &fin = tls && !s.mechs_tls.empty() ? s.mechs_tls : s.mechs;
        offered.insert(offered.end(), fin.begin(), fin.end());
        bool usable = false;
        for (auto &m : offered) {
            if (s.refuse.count(m)) no("refused mechanism");
            if (m.size() > 5 && m.substr(m.size() - 5) == "-PLUS" && !tls) no("PLUS without TLS");
            if (m == "ANONYMOUS") { if (!g.has_node) usable = true; continue; }
            if (m == "EXTERNAL") { if (g.cert) usable = true; continue; }
            if (m != "X-UNKNOWN" && g.has_node) usable = true;
        }
        if (!usable) no("no usable mechanism");
        if (!s.bind) no("no bind");
    }
    return g;
}

void Scen::make_good(ConnCfg &g)
{
    SrvConf &s = g.srv;
    g.clean = g.strict = g.expect_up = true;
    lockstep(w, true);
    if (g.component) { g.flags &= ~XMPP_CONN_FLAG_TRUST_TLS; xmpp_conn_set_flags(k->conn, g.flags); }
    if (g.pass_null) { g.pass_null = false; xmpp_conn_set_pass(k->conn, g.pass.c_str()); }
    if (g.has_node) s.mechs = {"PLAIN", "SCRAM-SHA-1"}; else s.mechs = {"ANONYMOUS"};
    s.mechs_tls.clear();
    s.starttls = s.bind = s.features = true;
    s.tls_mode = SrvConf::TLS_NORMAL;
    s.cert = CERT_OK;
    s.refuse.clear();
    s.delay = 0;
}
int Scen::start(const char *alt)
{
    hooks();
    if (cur->component) return k->connect_component("10.0.0.9", 0);
    return k->connect(r.chance(80) ? alt : nullptr);
}

string random_features(Rng &r)
{
    auto n = [&](const char *ns) { return r.chance(60) ? string(ns) : string(r.onein(2) ? "urn:other" : NS_CLIENT); };
    string f = "<stream:features>";
    int k = (int)r.below(6);
    for (int i = 0; i < k; i++) switch (r.below(9)) {
    case 0: f += "<starttls xmlns='" + n(NS_TLS) + "'/>"; break;
    case 1: f += "<mechanisms xmlns='" + n(NS_SASL) + "'><mechanism>" + all_mechs[r.below(11)] + "</mechanism><mechanism/></mechanisms>"; break;
    case 2: f += "<compression xmlns='" + n(NS_FCOMP) + "'><method>zlib</method></compression>"; break;
    case 3: f += "<bind xmlns='" + n(NS_BIND) + "'/>"; break;
    case 4: f += "<session xmlns='" + n(NS_SESSION) + "'/>"; break;
    case 5: f += "<sm xmlns='" + n(NS_SM) + "'/>"; break;
    case 6: f += "text"; break;
    case 7: f += "<x xmlns='urn:x'><starttls xmlns='" NS_TLS "'/><bind xmlns='" NS_BIND "'/><sm xmlns='" NS_SM "'/></x>"; break;
    case 8: f += "<mechanisms xmlns='" NS_SASL "'/>"; break;
    }
    return f + "</stream:features>";
}

string Scen::canned(XPeer &p, const string &)
{
    string id = "_xmpp_bind1";
    for (size_t i = w.tr.size(); i-- > 0;) if (w.tr[i].k == Ev::RX && w.tr[i].e.name == "iq") { id = w.tr[i].e.attr("id"); break; }
    string prev = "sess-1";
    for (auto &s : w.srv.sessions) if (r.onein(2)) prev = s.id;
    switch (r.below(46)) {
    case 40: return "<challenge xmlns='" NS_SASL "'>" + string(r.onein(3) ? "!!" : r.onein(2) ? "YWJj=" : "YQ===") + "</challenge>";
    case 41: { static const char *cond[] = {"conflict", "host-gone", "policy-violation", "see-other-host", "reset", "x"};
        string e;
        for (int i = 1 + (int)r.below(3); i > 0; i--) e += string(e.empty() ? "" : "\x01") + "<stream:error><" + cond[r.below(6)] + " xmlns='" NS_STREAMS_IETF "'/>" + (r.onein(3) ? "" : "<text xmlns='" NS_STREAMS_IETF "'>first</text>") + (r.onein(4) ? "<text xmlns='" NS_STREAMS_IETF "'>second</text>" : "") + "</stream:error>";
        return e; }
    case 42: return "<stream:error><text xmlns='" NS_STREAMS_IETF "'/></stream:error>";
    case 43: return "<success xmlns='" NS_SASL "'>" + b64e("v=" + b64e(r.bytes(r.below(40)))) + "</success>";
    case 44: return "<" + string(r.onein(2) ? "handshakes" : "error") + "/>";
    case 45: return "<iq type='result' id='" + xml_escape(id, true) + "'><bind xmlns='" NS_BIND "'><jid/></bind><bind xmlns='" NS_BIND "'/></iq>";
    case 33: return "<stream:error/>";
    case 34: return "<stream:features/>";
    case 35: return "<iq/>";
    case 36: return "<failed xmlns='" NS_SM "' h='4294967295'/>";
    case 37: return "<resumed xmlns='" NS_SM "'/>";
    case 38: return "<mechanisms xmlns='" NS_SASL "'/>";
    case 0: return "<proceed xmlns='" NS_TLS "'/>";
    case 1: return "<success xmlns='" NS_SASL "'/>";
    case 2: return "<failure xmlns='" NS_SASL "'><not-authorized/></failure>";
    case 3: return "<failure xmlns='" NS_TLS "'/>";
    case 4: return "<challenge xmlns='" NS_SASL "'>" + b64e(r.onein(2) ? "r=abc,s=c2FsdA==,i=5" : r.bytes(r.below(40))) + "</challenge>";
    case 5: return "<challenge xmlns='" NS_SASL "'/>";
    case 6: return "<challenge xmlns='" NS_SASL "'>" + b64e("rspauth=00112233445566778899aabbccddeeff") + "</challenge>";
    case 7: return "<compressed xmlns='" NS_COMP "'/>";
    case 8: return "<failure xmlns='" NS_COMP "'><setup-failed/></failure>";
    case 9: return "<iq type='result' id='" + xml_escape(id, true) + "'><bind xmlns='" NS_BIND "'><jid>m@e.org/x</jid></bind></iq>";
    case 10: return "<iq type='result' id='other'><bind xmlns='" NS_BIND "'><jid>m@e.org/x</jid></bind></iq>";
    case 11: return "<iq type='error' id='" + xml_escape(id, true) + "'><error type='cancel'><conflict xmlns='" NS_STANZAS "'/></error></iq>";
    case 12: return "<iq type='result' id='" + xml_escape(id, true) + "'/>";
    case 13: return "<iq id='" + xml_escape(id, true) + "'/>";
    case 14: return "<iq type='weird' id='" + xml_escape(id, true) + "'/>";
    case 15: return "<enabled xmlns='" NS_SM "' id='zzz' resume='true'/>";
    case 16: return "<enabled xmlns='" NS_SM "' resume='1'/>";
    case 17: return "<resumed xmlns='" NS_SM "' previd='" + prev + "' h='" + std::to_string(r.below(4)) + "'/>";
    case 18: return "<resumed xmlns='" NS_SM "' previd='nope' h='0'/>";
    case 19: return "<failed xmlns='" NS_SM "'" + string(r.onein(2) ? " h='1'" : "") + "><item-not-found xmlns='" NS_STANZAS "'/></failed>";
    case 20: return "<failed xmlns='" NS_SM "'/>";
    case 21: return "<a xmlns='" NS_SM "' h='" + std::to_string(r.below(3)) + "'/>";
    case 22: return "<r xmlns='" NS_SM "'/>";
    case 23: return "<handshake/>";
    case 24: return "<message from='evil@example.org' id='inj' type='chat'><body>hi</body></message>";
    case 25: return "<presence from='evil@example.org' id='inj'/>";
    case 26: return "<iq type='get' id='inj' from='evil@example.org'><query xmlns='urn:q'/></iq>";
    case 27: return "<stream:error><conflict xmlns='" NS_STREAMS_IETF "'/><text xmlns='" NS_STREAMS_IETF "'>bye</text></stream:error>";
    case 28: return "</stream:stream>";
    case 29: return "<nothing/>";
    case 30: return " \n ";
    case 31: return "<iq type='result' id='_xmpp_session1'/>";
    case 32: return "<iq type='result' id='_xmpp_auth1'/>";
    default: return "<success xmlns='urn:wrong'/>";
    }
}
string corrupt_bytes(Rng &r, string x)
{
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n && !x.empty(); i++) switch (r.below(9)) {
    case 0: x[r.below(x.size())] = (char)r.next(); break;
    case 1: x.erase(r.below(x.size()), 1 + r.below(8)); break;
    case 2: x.insert(r.below(x.size() + 1), r.bytes(1 + r.below(8))); break;
    case 3: x = x.substr(0, r.below(x.size() + 1)); break;
    case 4: x.insert(r.below(x.size() + 1), "<![CDATA[x"); break;
    case 5: x.insert(r.below(x.size() + 1), r.onein(2) ? "&#0;" : "&undefined;"); break;
    case 6: { size_t k = x.find('\''); if (k != string::npos) x.erase(k, 1); break; }
    case 7: x.insert(r.below(x.size() + 1), string(r.onein(10) ? 70000 : 300, 'A')); break;
    case 8: x.insert(r.below(x.size() + 1), "<"); break;
    }
    return x;
}
// damage that keeps the text well-formed: an attribute or a child less, an empty element
string struct_mutate(Rng &r, string x)
{
    vector<std::pair<size_t, size_t>> cand;
    for (size_t i = 0; i < x.size(); i++) {
        if (x[i] == ' ') { // attribute
            size_t e = x.find('=', i);
            if (e == string::npos || e + 1 >= x.size() || x.find_first_of("<> ", i + 1) < e) continue;
            char q = x[e + 1];
            if (q != '\'' && q != '"') continue;
            size_t f = x.find(q, e + 2);
            if (f != string::npos) cand.push_back({i, f + 1});
        } else if (x[i] == '<' && i + 1 < x.size() && x[i + 1] != '/' && x[i + 1] != '?' && x[i + 1] != '!') {
            // the whole element, or its content
            size_t n = x.find_first_of(" />", i + 1), g = x.find('>', i);
            if (n == string::npos || g == string::npos) continue;
            if (x[g - 1] == '/') { if (i) cand.push_back({i, g + 1}); continue; }
            string close = "</" + x.substr(i + 1, n - i - 1) + ">";
            size_t e = x.find(close, g);
            if (e == string::npos) continue;
            if (i) cand.push_back({i, e + close.size()});
            if (e > g + 1) cand.push_back({g + 1, e});
        }
    }
    if (cand.empty()) return x;
    auto c = cand[r.below(cand.size())];
    return x.substr(0, c.first) + x.substr(c.second);
}
bool Scen::mangle(XPeer &p, const string &stage, string &xml)
{
    if (stage == "inject") return true;
    // answers nobody waits for on this connection, perhaps on an earlier one
    if ((stage == "header" || stage == "features") && r.onein(8)) {
        static const char *early[] = {"<iq type='result' id='_xmpp_bind1'><bind xmlns='" NS_BIND "'><jid>m@e.org/x</jid></bind></iq>", "<iq type='result' id='_xmpp_session1'/>", "<iq type='result' id='_xmpp_auth1'/>",
                                      "<iq type='error' id='_xmpp_bind1'><error type='cancel'/></iq>", "<iq type='error' id='_xmpp_session1'/>", "<iq type='error' id='_xmpp_auth1'/>"};
        mangled++;
        stat_add("early_answers");
        string e = early[r.below(r.onein(2) ? 3 : 6)];
        if (stage == "features" && r.onein(2)) xml = e + "\x01" + xml;
        else xml += "\x01" + e;
        return true;
    }
    // the attempt ends while the client waits
    if ((stage == "bind" || stage == "session" || stage == "legacy") && r.onein(6)) { mangled++; stat_add("unanswered"); return false; }
    // nearly the right answer
    if ((stage == "bind" || stage == "session" || stage == "legacy") && r.onein(6)) {
        string id = stage == "bind" ? "_xmpp_bind1" : stage == "session" ? "_xmpp_session1" : "_xmpp_auth1";
        for (size_t i = w.tr.size(); i-- > 0;) if (w.tr[i].k == Ev::RX && w.tr[i].e.name == "iq") { id = w.tr[i].e.attr("id"); break; }
        static const char *t[] = {"<message type='result' id='%s'/>", "<presence type='result' id='%s'><bind xmlns='" NS_BIND "'><jid>m@e.org/x</jid></bind></presence>", "<iq id='%s'/>", "<iq id='%s' type='get'/>", "<iq id='%s' type=''/>",
                                  "<iq id='%s' type='Result'/>", "<result id='%s' type='result'/>", "<message id='%s'/>", "<iq id='%s' type='error'/>", "<iq xmlns='urn:other' id='%s' type='set'/>"};
        const char *f = t[r.below(10)];
        xml = f;
        xml.replace(xml.find("%s"), 2, xml_escape(id, true));
        mangled++;
        stat_add("nearly_answers");
        return true;
    }
    if (stage == "handshake" && r.onein(5)) {
        static const char *t[] = {"<handshakes/>", "<message><body>no</body></message>", "<stream:error><not-authorized xmlns='" NS_STREAMS_IETF "'/></stream:error>", "<stream:features/>", "<iq type='result'/>"};
        xml = t[r.below(5)];
        mangled++;
        return true;
    }
    if (!r.chance(o.mangle_pct)) return true;
    mangled++;
    stat_add("server_deviations");
    if (r.onein(6)) { xml = struct_mutate(r, r.onein(3) ? canned(p, stage) : xml); if (r.onein(4)) xml = struct_mutate(r, xml); return true; }
    int n = o.corrupt ? 14 : 12;
    switch (r.below(n)) {
    case 0: if (r.onein(3)) return false; // fallthrough
    case 1: xml += "\x01" + xml; break;
    case 2: case 3: xml = canned(p, stage); break;
    case 4: case 5: case 6: xml = canned(p, stage) + "\x01" + xml; break;
    case 7: case 8: xml += "\x01" + canned(p, stage); break;
    case 9: if (stage == "features") { xml = random_features(r); break; } // fallthrough
    case 10: {
        static const char *f[][2] = {{"type='result'", "type='error'"}, {"type='result'", ""}, {"id='", "id='z"}, {NS_SASL, "urn:sasl2"}, {NS_TLS, "urn:tls2"},
                                     {NS_SM, "urn:xmpp:sm:2"}, {NS_BIND, "urn:bind2"}, {" id='", " xid='"}, {"version='1.0' xml", "xml"}, {"h='", "h='-"}, {"h='", "h='4294967296"}, {"previd='", "previd='q"},
                                     {"<mechanism>", "<mechanism xmlns='urn:o'>"}, {NS_FCOMP, "urn:c"}, {"<stream:features", "<features"}};
        auto &x = f[r.below(15)];
        size_t i = xml.find(x[0]);
        if (string(x[0]) == "<stream:features") { size_t j = xml.find("</stream:features"); if (j != string::npos) xml.replace(j, 17, "</features"); }
        if (i != string::npos) xml.replace(i, strlen(x[0]), x[1]);
        break;
    }
    case 11: {
        // also answers that never come, so that deadlines are reached
        if (r.onein(4)) return false;
        xml = canned(p, stage) + "\x01" + canned(p, stage) + "\x01" + xml;
        break;
    }
    case 12: case 13: xml = corrupt_bytes(r, xml); break;
    }
    return true;
}
void Scen::hooks()
{
    w.srv.conf = cur->srv;
    if (cur->clean) w.srv.mangle = nullptr;
    else w.srv.mangle = [this](XPeer &p, const string &st, string &x) { return mangle(p, st, x); };
}

static int on_stanza(xmpp_conn_t *, xmpp_stanza_t *st, void *ud)
{
    Scen *s = (Scen *)ud;
    Ev &e = s->w.ev(Ev::HANDLER);
    e.s = string(xmpp_stanza_get_name(st) ? xmpp_stanza_get_name(st) : "?") + " id=" + (xmpp_stanza_get_id(st) ? xmpp_stanza_get_id(st) : "");
    e.a = s->k->up;
    s->handler_calls++;
    return 1;
}
static int on_stanza2(xmpp_conn_t *c, xmpp_stanza_t *st, void *ud) { return on_stanza(c, st, ud); }
static int on_timer(xmpp_conn_t *, void *ud)
{
    Scen *s = (Scen *)ud;
    Ev &e = s->w.ev(Ev::TIMED);
    e.a = s->k->up;
    s->handler_calls++;
    return s->handler_calls < 2000;
}
void Scen::add_handlers()
{
    xmpp_handler_add(k->conn, on_stanza, nullptr, nullptr, nullptr, this);
    xmpp_handler_add(k->conn, on_stanza2, NS_SASL, nullptr, nullptr, this);
    xmpp_id_handler_add(k->conn, on_stanza, "inj", this);
    xmpp_timed_handler_add(k->conn, on_timer, 5 + (unsigned long)r.below(300), this);
    handlers_set = true;
}
void Scen::user_send(bool raw)
{
    string id = strf("USER-%llu", (unsigned long long)++user_sent);
    user_ids.insert(id);
    Ev &e = w.ev(Ev::API);
    e.s = (raw ? "send_raw " : "send ") + id;
    e.a = k->up;
    if (raw) k->send_text("<message id='" + id + "'/>");
    else {
        xmpp_stanza_t *m = make_message(w.ctx, id, r.onein(20) ? string(5000, 'x') : "body");
        if (r.onein(4)) xmpp_send_raw_string(k->conn, "<message id='%s'><body>b</body></message>", id.c_str());
        else xmpp_send(k->conn, m);
        xmpp_stanza_release(m);
    }
}
bool Scen::drive(int iters)
{
    bool was_up = false;
    int idle = 0;
    for (int i = 0; i < iters && k->open; i++) {
        size_t before = w.tr.size() - (size_t)handler_calls;
        if (k->up && !was_up) { was_up = true; if (i + 60 < iters) iters = i + 60; }
        if (o.user_load && r.onein(30)) { user_send(); before++; }
        if (o.user_load && k->up && r.onein(40)) if (XPeer *p = w.peer()) p->tx("inject", "<message from='bob@example.org' id='inj'><body>hello</body></message>");
        // the deadlines of the negotiation are reached as well
        w.once(idle > 300 ? 50 : 1);
        idle = w.tr.size() - (size_t)handler_calls == before ? idle + 1 : 0;
    }
    return was_up;
}
void Scen::end_attempt()
{
    if (!k->open) return;
    XPeer *p = w.peer();
    switch (r.below(7)) {
    case 0: case 1: k->disconnect(); break;
    case 2: if (p) { p->close_stream(); } break;
    case 3: if (p) p->fin(); break;
    case 4: if (p) p->rst(); break;
    case 5: if (p) p->tx("error", "<stream:error><system-shutdown xmlns='" NS_STREAMS_IETF "'/></stream:error></stream:stream>", [p] { p->fin(); }); break;
    case 6: if (p) p->tx("inject", "<a><b></a>"); break;
    }
    auto wait = [&](u64 ms) { u64 end = sim::now_ms + ms; while (k->open && sim::now_ms < end) w.once(5); };
    wait(300);
    if (k->open) { k->disconnect(); wait(2500); }
}

// ---------------------------------------------------------------- the judge
namespace {
struct J {
    Scen &s;
    int what;
    World &w;
    Case &c;
    J(Scen &s, int what) : s(s), what(what), w(s.w), c(s.c) {}
    void v3(const Ev &e, const char *key, const string &m) { if (what == 3) c.viol(key, m + " | " + e.show()); }
    void v2(const Ev &e, const char *key, const string &m) { if (what == 2) c.viol(key, m + " | " + e.show()); }
};
struct Conn {
    ConnCfg *g = nullptr;
    int no = 0;
    StreamParser sp;
    bool blind = false;         // the server's own output cannot be parsed
    int headers = 0, changes = 0, feats = 0;
    bool need_header = false, header_after_auth = false;
    bool o_starttls = false, o_zlib = false, o_bind = false, o_session = false, o_sm = false;
    std::set<string> mechs, sure;       // sure: from the first <mechanisms/> of a set of features
    bool starttls = false, proceed = false, any_proceed = false, any_compressed = false, tls_up = false, tls_fail = false;
    bool pending = false, auth_ever = false, success = false;
    string mech;
    int challenges = 0, responses = 0;
    bool comp_sent = false, compressed = false;
    bool bind_sent = false, bind_ok = false, sess_sent = false, sess_ok = false, hs_sent = false, hs_ok = false, legacy_sent = false, legacy_ok = false;
    string bind_id, sess_id, legacy_id, previd;
    bool resume_sent = false, resumed = false, resume_failed = false, enable_sent = false, closed = false;
    int ups = 0;
    bool ready() const { return (success && (bind_ok || resumed)) || resumed || hs_ok || legacy_ok; }
};
} // namespace

static bool b64_has(const string &text, const string &pw)
{
    string d;
    return b64d(text, d) && d.find(pw) != string::npos;
}
static void collect(const Elem &e, vector<string> &out)
{
    if (e.is_text) { out.push_back(e.text); return; }
    for (auto &a : e.attrs) out.push_back(a.second);
    string t = e.alltext();
    if (!t.empty()) out.push_back(t);
    for (auto &k : e.kids) if (!k.is_text) collect(k, out);
}

void judge_negotiation(Scen &s, int what)
{
    J j(s, what);
    World &w = s.w;
    std::map<int, Conn> cs;
    std::map<ConnCfg *, int> ups;
    int last = -1;
    for (auto &e : w.tr) {
        if (e.k == Ev::API) continue;
        Conn &n = cs[e.conn];
        if (!n.g) { n.g = s.peer_cfg.count(e.conn) ? s.peer_cfg[e.conn] : nullptr; n.no = e.conn; }
        if (!n.g) continue;
        ConnCfg &g = *n.g;
        bool strict = g.strict && !n.blind;
        auto v3 = [&](const char *key, const string &m) { j.v3(e, key, m); };
        auto v2 = [&](const char *key, const string &m) { j.v2(e, key, m); };
        switch (e.k) {
        case Ev::TCP_OPEN: last = e.conn; break;
        case Ev::TCP_CLOSE: n.closed = true; break;
        case Ev::TLS_UP:
            n.tls_up = true;
            n.changes++;
            n.need_header = true;
            if (g.flags & XMPP_CONN_FLAG_LEGACY_SSL) n.changes--, n.need_header = false;
            stat_add("tls_sessions");
            break;
        case Ev::TLS_FAIL: n.tls_fail = true; break;
        case Ev::COMP_UP: break;
        case Ev::TX: {
            if (n.blind) break;
            string x = e.s;
            if (x.compare(0, 5, "<?xml") == 0) n.sp.restart();
            else { size_t i = x.find("<?xml"); if (i != string::npos) { n.blind = true; break; } }
            for (auto &ev : n.sp.feed(x)) {
                if (ev.k == StreamEvent::ERR) { n.blind = true; break; }
                if (ev.k != StreamEvent::ELEM) continue;
                const Elem &m = ev.e;
                if (m.name == "features" && m.ns == NS_STREAM) {
                    n.feats++;
                    bool first = true;
                    for (auto &f : m.kids) {
                        if (f.name == "starttls" && f.ns == NS_TLS) n.o_starttls = true;
                        if (f.name == "mechanisms" && f.ns == NS_SASL) {
                            for (auto &q : f.kids) if (q.name == "mechanism") { n.mechs.insert(q.alltext()); if (first) n.sure.insert(q.alltext()); }
                            first = false;
                        }
                        if (f.name == "compression" && f.ns == NS_FCOMP) for (auto &q : f.kids) if (q.name == "method" && q.alltext() == "zlib") n.o_zlib = true;
                        if (f.name == "bind" && f.ns == NS_BIND) n.o_bind = true;
                        if (f.name == "session" && f.ns == NS_SESSION) n.o_session = true;
                        if (f.name == "sm" && f.ns == NS_SM) n.o_sm = true;
                    }
                    stat_add("feature_sets");
                } else if (m.ns == NS_TLS && m.name == "proceed") {
                    if (n.starttls && e.stage == "proceed") n.proceed = true;
                    n.any_proceed = true;
                } else if (m.ns == NS_SASL) {
                    if (m.name == "challenge" && (n.pending || !strict)) n.challenges++;
                    if (m.name == "success" && (n.pending || !strict)) { if (strict || !n.success) n.header_after_auth = false; n.success = true; n.pending = false; n.changes++; n.need_header = strict; }
                    if (m.name == "failure" && strict) { n.pending = false; n.challenges = n.responses = 0; }
                } else if (m.ns == NS_COMP && m.name == "compressed") {
                    n.any_compressed = true;
                    if ((n.comp_sent && !n.compressed) || !strict) { n.compressed = true; n.changes++; n.need_header = strict; }
                } else if (m.ns == NS_SM) {
                    if (m.name == "resumed" && (n.resume_sent || !strict) && (m.attr("previd") == n.previd || !strict)) n.resumed = true;
                    if (m.name == "failed" && (n.resume_sent || !strict)) n.resume_failed = true;
                } else if (m.name == "handshake") {
                    if (n.hs_sent || !strict) n.hs_ok = true;
                }
                if (m.attr("type") == "result" && (m.name == "iq" || !strict)) {
                    string id = m.attr("id");
                    if ((n.bind_sent && id == n.bind_id) || (!strict && !id.empty())) n.bind_ok = true;
                    if ((n.sess_sent && id == n.sess_id) || !strict) n.sess_ok = true;
                    if ((n.legacy_sent && id == n.legacy_id) || (!strict && id == "_xmpp_auth1")) n.legacy_ok = true;
                }
            }
            break;
        }
        case Ev::RX_HEADER: {
            n.headers++;
            stat_add("stream_headers");
            if (e.e.attr("to") != g.domain) v3("header-domain", "stream header to='" + e.e.attr("to") + "', configured domain " + g.domain);
            if (e.e.has("from")) {
                if (!e.tls) v3("address-in-clear", "stream header reveals from='" + e.e.attr("from") + "' on an unsecured stream");
                else if (e.e.attr("from") != g.jid.substr(0, g.jid.find('/'))) v3("header-from", "stream header from='" + e.e.attr("from") + "'");
                stat_add("headers_with_from");
            }
            if (!e.tls && g.has_node) {
                vector<string> t;
                collect(e.e, t);
                string bare = g.jid.substr(0, g.jid.find('/'));
                for (auto &x : t) if (x.find(bare) != string::npos) v3("address-in-clear", "the user's address in a header on an unsecured stream");
            }
            if (n.headers > 1 + n.changes) v3("unasked-restart", "stream header without a preceding security-layer change");
            n.need_header = false;
            if (n.success) n.header_after_auth = true;
            if (n.tls_fail && !e.tls) v3("continued-after-tls-failure", "stream header in the clear after a failed handshake");
            if (n.proceed && !e.tls && strict) v3("tls-not-started", "stream header in the clear after <proceed/>");
            break;
        }
        case Ev::RX_CLOSE: n.closed = true; break;
        case Ev::RX_BAD:
            // bytes the XML parser of the server does not accept
            if (n.closed) {}
            else if (!n.tls_fail && !(n.any_proceed && !n.tls_up) && n.any_compressed == e.comp && (g.clean || !e.comp)) v3("ill-formed-output", e.s);
            break;
        case Ev::RX: {
            const Elem &m = e.e;
            stat_add("client_elements");
            string id = m.attr("id");
            bool user = m.attr("id").compare(0, 5, "USER-") == 0;
            // ---- C02
            bool authdata = m.ns == NS_SASL && (m.name == "auth" || m.name == "response");
            bool legacy = m.name == "iq" && m.child("query", NS_AUTH);
            if (authdata || legacy) {
                stat_add("auth_elements");
                if (g.flags & XMPP_CONN_FLAG_MANDATORY_TLS) {
                    stat_add("auth_elements_mandatory_tls");
                    if (!e.tls) v2("auth-before-mandatory-tls", "authentication data in the clear although TLS is mandatory");
                }
            }
            if (legacy && m.child("query", NS_AUTH)->child("password")) {
                stat_add("legacy_auths");
                if (!(g.flags & XMPP_CONN_FLAG_LEGACY_AUTH)) v2("legacy-auth-not-enabled", "password sent by jabber:iq:auth although legacy authentication is not enabled");
            }
            if (m.ns == NS_TLS && m.name == "starttls" && (g.flags & XMPP_CONN_FLAG_DISABLE_TLS)) v2("starttls-although-disabled", "TLS requested although disabled");
            if (m.ns == NS_SASL && m.name == "auth" && m.attr("mechanism") == "PLAIN") {
                stat_add("plain_auths");
                for (auto &x : n.sure) {
                    bool plus = x.size() > 5 && x.substr(x.size() - 5) == "-PLUS";
                    string b = plus ? x.substr(0, x.size() - 5) : x;
                    bool strong = b == "SCRAM-SHA-1" || b == "SCRAM-SHA-256" || b == "SCRAM-SHA-512" || b == "DIGEST-MD5" || (b == "EXTERNAL" && g.cert);
                    if (plus && !e.tls) strong = false;
                    if (strong && strict) v2("plain-although-stronger", "PLAIN although the server offered " + x);
                }
            } else if (!g.pass_null && !(legacy && (g.flags & XMPP_CONN_FLAG_LEGACY_AUTH))) {
                vector<string> t;
                collect(m, t);
                for (auto &x : t) if (x.find(g.pass) != string::npos || b64_has(x, g.pass)) v2("password-disclosed", "the password in reversible form outside PLAIN and legacy authentication");
            }
            // ---- C03
            if (n.headers == 0) v3("element-before-header", "element before the stream header");
            if (n.need_header) {
                // after TLS/SASL/compression the stream starts again
                if (!(m.ns == NS_STREAM && m.name == "error")) v3("no-restart", "element although the stream has to be restarted first");
            }
            if (n.tls_fail && !e.tls) v3("continued-after-tls-failure", "element in the clear after a failed handshake");
            else if (n.proceed && !e.tls && strict) v3("tls-not-started", "element in the clear after <proceed/>");
            if (user) {
                stat_add("user_stanzas_on_wire");
                if (!n.ready()) v3("user-stanza-before-negotiated", "a user stanza reached the wire before the negotiation was complete");
                break;
            }
            if (m.ns == NS_STREAM && m.name == "error") break;
            if (n.ups) break; // the negotiation is over
            if (m.ns == NS_TLS && m.name == "starttls") {
                stat_add("starttls_requests");
                if (g.component) v3("component-starttls", "STARTTLS on a component connection");
                if (!n.o_starttls) v3("starttls-not-offered", "STARTTLS not offered on this connection");
                if (e.tls) v3("starttls-twice", "STARTTLS on a secured stream");
                if (n.starttls) v3("starttls-twice", "second STARTTLS request");
                if (n.auth_ever) v3("starttls-after-auth", "STARTTLS after authentication started");
                n.starttls = true;
            } else if (m.ns == NS_SASL && m.name == "auth") {
                string mech = m.attr("mechanism");
                stat_add("sasl_auths");
                stat_distinct("mechanisms_used", hash_str(mech));
                if (!n.mechs.count(mech)) v3("mechanism-not-offered", "mechanism " + mech + " was not offered on this connection");
                if (n.o_starttls && (strict || n.feats == 1) && !e.tls && !(g.flags & XMPP_CONN_FLAG_DISABLE_TLS)) v3("auth-before-tls", "authentication before the offered TLS");
                if (strict && n.pending) v3("auth-while-pending", "authentication started while another one is in progress");
                if (strict && n.success) v3("auth-after-success", "authentication started after success");
                if (g.component) v3("component-sasl", "SASL on a component connection");
                n.pending = true;
                n.auth_ever = true;
                n.mech = mech;
                if (strict) n.challenges = n.responses = 0;
            } else if (m.ns == NS_SASL && m.name == "response") {
                n.responses++;
                if (n.responses > n.challenges) v3("response-without-challenge", "SASL response without a challenge");
                if (strict && !n.pending && !n.success) v3("response-without-auth", "SASL response without an exchange in progress");
            } else if (m.ns == NS_SASL && m.name == "abort") {
            } else if (m.ns == NS_COMP && m.name == "compress") {
                stat_add("compress_requests");
                if (!n.o_zlib) v3("compression-not-offered", "compression requested although zlib was not offered on this connection");
                if (!(g.flags & XMPP_CONN_FLAG_ENABLE_COMPRESSION)) v3("compression-not-enabled", "compression requested although the user did not enable it");
                if (!n.success || !n.header_after_auth) v3("compress-order", "compression requested before authentication");
                if (n.comp_sent) v3("compress-twice", "compression requested twice");
                if (n.bind_sent || n.resume_sent) v3("compress-order", "compression requested after binding");
                n.comp_sent = true;
            } else if (m.name == "iq" && m.child("bind", NS_BIND)) {
                const Elem *b = m.child("bind", NS_BIND), *res = b->child("resource");
                stat_add("bind_requests");
                if (!n.o_bind) v3("bind-not-offered", "bind requested although not offered on this connection");
                if (!n.success || !n.header_after_auth) v3("bind-order", "bind before authentication");
                if (n.bind_sent) v3("bind-twice", "bind requested twice");
                if (n.resume_sent && !n.resume_failed) v3("bind-while-resuming", "bind although resumption has not failed");
                if (n.resumed && strict) v3("bind-after-resumed", "bind after the session was resumed");
                if (m.attr("type") != "set") v3("bind-malformed", "bind request is no iq of type set");
                string want = g.resource, got = res ? res->alltext() : "";
                if (want != got || (res && want.empty())) v3("bind-resource", "bind asks for resource '" + got + "', configured '" + want + "'");
                if (n.comp_sent && !n.compressed && strict) {} // compression refused: continuing is fine
                n.bind_sent = true;
                n.bind_id = id;
            } else if (m.name == "iq" && m.child("session", NS_SESSION)) {
                stat_add("session_requests");
                if (!n.o_session) v3("session-not-offered", "session requested although not offered on this connection");
                if (!n.bind_ok) v3("session-order", "session requested before a resource was bound");
                if (n.sess_sent) v3("session-twice", "session requested twice");
                n.sess_sent = true;
                n.sess_id = id;
            } else if (legacy) {
                if (n.success && strict) v3("legacy-after-sasl", "legacy authentication after SASL");
                if (n.o_starttls && (strict || n.feats == 1) && !e.tls && !(g.flags & XMPP_CONN_FLAG_DISABLE_TLS)) v3("auth-before-tls", "legacy authentication before the offered TLS");
                n.legacy_sent = true;
                n.legacy_id = id;
            } else if (m.ns == NS_SM && m.name == "enable") {
                stat_add("sm_enables");
                if (!n.o_sm) v3("sm-not-offered", "stream management enabled although not offered on this connection");
                if (g.flags & XMPP_CONN_FLAG_DISABLE_SM) v3("sm-disabled", "stream management enabled although disabled");
                if (!n.bind_ok) v3("enable-order", "stream management enabled before a resource was bound");
                if (n.enable_sent) v3("enable-twice", "stream management enabled twice");
                n.enable_sent = true;
            } else if (m.ns == NS_SM && m.name == "resume") {
                stat_add("sm_resumes");
                if (!n.o_sm) v3("sm-not-offered", "resumption requested although not offered on this connection");
                if (g.flags & XMPP_CONN_FLAG_DISABLE_SM) v3("sm-disabled", "resumption requested although stream management is disabled");
                if (!n.success || !n.header_after_auth) v3("resume-order", "resumption requested before authentication");
                if (n.bind_sent || n.resume_sent) v3("resume-order", "resumption requested after binding or twice");
                n.resume_sent = true;
                n.previd = m.attr("previd");
            } else if (m.ns == NS_SM && (m.name == "r" || m.name == "a")) {
                if (!n.enable_sent && !n.resume_sent) v3("sm-element-without-sm", "stream management element although it was not enabled");
            } else if (m.name == "handshake") {
                stat_add("component_handshakes");
                if (!g.component) v3("handshake-on-client", "component handshake on a client connection");
                if (n.hs_sent) v3("handshake-twice", "component handshake sent twice");
                n.hs_sent = true;
            } else v3("unexpected-element", "unexpected element during negotiation");
            break;
        }
        case Ev::CONN:
            if (e.a == XMPP_CONN_CONNECT) {
                if (e.conn != last) break;
                n.ups++;
                stat_add("connected_events");
                if (n.ups > 1) v3("connected-twice", "connected reported twice");
                if (n.blind) break;
                if (!n.ready()) v3("connected-too-early", strf("connected reported before the negotiation was complete (success=%d bind=%d resumed=%d handshake=%d legacy=%d)", n.success, n.bind_ok, n.resumed, n.hs_ok, n.legacy_ok));
                if (g.component && !n.hs_ok) v3("connected-too-early", "component connected without an acknowledged handshake");
                if (!g.component && strict && n.sess_sent && !n.sess_ok) v3("connected-before-session", "connected reported before the session request was answered");
                if (n.resumed) stat_add("resumed_connections");
            } else n.closed = true;
            break;
        case Ev::HANDLER: case Ev::TIMED:
            if (e.conn != last) break;
            if (e.a) { stat_add("user_handler_calls"); break; }
            if (!n.ups) v3(e.k == Ev::TIMED ? "timed-handler-before-connected" : "handler-before-connected", "a user handler ran before the connection was up");
            break;
        default: break;
        }
    }
    for (auto &kv : cs) {
        Conn &n = kv.second;
        if (!n.g || kv.first < 0 || kv.first >= (int)w.peers.size()) continue;
        XPeer &p = *w.peers[kv.first];
        ConnCfg &g = *n.g;
        // raw bytes
        if (what == 2 && (g.flags & XMPP_CONN_FLAG_DISABLE_TLS) && p.raw_rx.size() && (u8)p.raw_rx[0] == 0x16) s.c.viol("tls-although-disabled", "a TLS handshake was started although TLS is disabled");
        if (what == 2 && !g.pass_null && (g.flags & XMPP_CONN_FLAG_MANDATORY_TLS)) {
            if (p.raw_rx.find(g.pass) != string::npos || p.raw_rx.find(xml_escape(g.pass, false)) != string::npos) s.c.viol("password-in-clear", "the password is in the bytes on the wire although TLS is mandatory");
            stat_add("wire_scans");
        }
        s.c.mixsig((u64)(n.headers * 1 + n.changes * 8 + n.success * 64 + n.bind_ok * 128 + n.resumed * 256 + n.ups * 512 + n.comp_sent * 1024 + n.tls_up * 2048 + n.enable_sent * 4096 + n.sess_sent * 8192 + n.resume_failed * 16384 + n.hs_ok * 32768 + n.legacy_ok * 65536));
        s.c.mixsig(n.mech);
    }
    if (what == 3)
        for (auto &kv : cs) {
            Conn &n = kv.second;
            if (n.g && n.g->expect_up && !n.ups && kv.first == last && s.cur == n.g && s.k->attempts) {
                // only judged by the caller, which knows whether the attempt was given enough time
            }
        }
}
