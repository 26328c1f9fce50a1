// C01 no peer input can crash, corrupt or wedge the client.
#include "gen.h"
#include "scen.h"
#include <cerrno>
#include <expat.h>

namespace {
// verdict of an independent expat instance about everything sent since the last header
struct Wf {
    XML_Parser p = nullptr;
    int depth = 0, maxdepth = 0;
    bool err = false, closed = false, serror = false;
    u64 tops = 0;       // complete top-level elements
    explicit Wf() { fresh(); }
    ~Wf() { XML_ParserFree(p); }
    static void start(void *u, const char *n, const char **)
    {
        Wf *w = (Wf *)u;
        if (w->depth == 1 && strstr(n, "error")) w->serror = true;
        w->depth++;
        if (w->depth > w->maxdepth) w->maxdepth = w->depth;
    }
    static void end(void *u, const char *) { Wf *w = (Wf *)u; if (--w->depth == 0) w->closed = true; if (w->depth == 1) w->tops++; }
    void fresh()
    {
        if (p) XML_ParserFree(p);
        p = XML_ParserCreateNS(nullptr, '\xff');
        XML_SetUserData(p, this);
        XML_SetElementHandler(p, start, end);
        depth = 0;
        err = closed = serror = false;
    }
    void feed(const string &s) { if (!err && !closed && XML_Parse(p, s.data(), (int)s.size(), 0) == XML_STATUS_ERROR && !closed) err = true; }
};

int certfail(const xmpp_tlscert_t *cert, const char *msg)
{
    // reads everything there is
    if (!msg || !*msg) return 0;
    xmpp_ctx_t *ctx = xmpp_tlscert_get_ctx(cert);
    xmpp_tlscert_get_pem(cert);
    for (int i = 0; i < XMPP_CERT_ELEMENT_MAX; i++) xmpp_tlscert_get_string(cert, (xmpp_cert_element_t)i);
    for (size_t i = 0; i < 8; i++) if (!xmpp_tlscert_get_dnsname(cert, i)) break;
    (void)ctx;
    return (int)(hash_str(msg) & 1);
}
struct SmBlob { string last; u64 n = 0; };
void on_sm(xmpp_conn_t *, void *ud, const unsigned char *b, size_t n) { SmBlob *s = (SmBlob *)ud; s->last.assign((const char *)b, n); s->n++; }

struct Hostile {
    Case &c;
    World w;
    Scen s;
    Rng &r;
    SmBlob blob;
    u64 probes = 0, probe_hits = 0;
    static ScenOpt opt(Case &c) { ScenOpt o; o.corrupt = true; o.hostile_pct = 85; o.burst_pct = 40; o.mangle_pct = c.rng.onein(2) ? 35 : 12; o.sm_pct = 70; return o; }
    explicit Hostile(Case &c) : c(c), w(c), s(w, opt(c)), r(c.rng)
    {
        w.report = true;
        if (r.onein(2)) xmpp_conn_set_certfail_handler(s.k->conn, certfail);
        if (r.onein(2)) xmpp_conn_set_sm_callback(s.k->conn, on_sm, &blob);
        if (r.chance(80)) s.add_handlers();
    }
    static int on_probe(xmpp_conn_t *, xmpp_stanza_t *, void *ud) { ((Hostile *)ud)->probe_hits++; return 1; }
    void noise()
    {
        int in = r.chance(50) ? NET_PLAIN : (int)r.below(4), out = r.chance(60) ? NET_PLAIN : (int)r.below(4);
        net_policy(w, in, out);
        if (r.onein(5)) {
            // transient and final errors of the transport
            auto f = sim::policy.on_recv;
            auto g = sim::policy.on_send;
            u64 when = 3 + r.below(60);
            auto cnt = std::make_shared<u64>(0);
            int kind = (int)r.below(5);
            sim::policy.on_recv = [f, cnt, when, kind](sim::VSock *v, size_t k) -> int {
                if (++*cnt == when) switch (kind) { case 0: return -EINTR; case 1: return -ECONNRESET; case 2: return -EAGAIN; default: break; }
                return f ? f(v, k) : (int)k;
            };
            sim::policy.on_send = [g, cnt, when, kind](sim::VSock *v, size_t k) -> int {
                if (++*cnt == when) switch (kind) { case 3: return -EPIPE; case 4: return -EINTR; default: break; }
                return g ? g(v, k) : (int)k;
            };
            stat_add("transport_errors_injected");
        }
    }
    void misuse_check()
    {
        for (auto &m : sim::misuse) { c.viol("descriptor-misuse", m); break; }
    }
    // after the hostile part: the object must work again
    void aftermath()
    {
        w.wire_hook = nullptr;
        w.comp_hook = nullptr;
        w.srv.intercept = nullptr;
        sim::policy.on_send = nullptr;
        sim::policy.on_recv = nullptr;
        sim::policy.arrive = nullptr;
        sim::policy.endpoint = nullptr;
        sim::policy.resolve = nullptr;
        sim::policy.dns = nullptr;
        if (s.k->open) {
            if (r.onein(4)) { finish_release(); return; }
            s.k->disconnect();
            w.until_ms(4000, [&] { return !s.k->open; });
            if (s.k->open) { c.viol("cannot-disconnect", "the connection does not end after xmpp_disconnect"); return; }
        }
        if (r.chance(75)) {
            ConnCfg &g = s.next_cfg();
            s.make_good(g);
            net_policy(w, NET_PLAIN, NET_PLAIN);
            for (auto *p : w.peers) (void)p;
            if (s.start() != XMPP_EOK) { c.viol("cannot-reconnect", "xmpp_connect_* refuses after the hostile connection ended"); return; }
            bool up = s.drive(1500);
            stat_add("reconnects");
            if (!up) { c.viol("reconnect-fails", strf("a well-behaved server is not accepted after the hostile connection: jid %s flags %ld error %d", g.jid.c_str(), g.flags, s.k->last_error)); return; }
            usable(strf("after a reconnect"), false);
            if (s.k->open && r.chance(70)) s.end_attempt();
        }
        finish_release();
    }
    void finish_release()
    {
        misuse_check();
        w.fini();
        if (w.mm.errors.size()) c.viol("bad-free", w.mm.errors[0]);
    }
    // usable, or ends
    void usable(const string &when, bool may_end, Wf *wf = nullptr)
    {
        XPeer *p = w.peer();
        if (!p || !s.k->open || !s.k->up) return;
        stat_add("usability_probes");
        u64 h0 = probe_hits;
        string id = strf("probe-%llu", (unsigned long long)++probes);
        xmpp_id_handler_add(s.k->conn, on_probe, id.c_str(), this);
        bool lock = w.lockstep_gap != 0;
        lockstep(w, false);
        auto m = w.srv.mangle;
        w.srv.mangle = nullptr;
        w.srv.conf.close_reply = true;
        string probe = "<message from='bob@example.org' id='" + id + "'><body>hello</body></message>";
        bool seen = true;
        if (wf) { // the hostile input may have ended inside an element or a CDATA section
            u64 t = wf->tops;
            wf->feed(probe);
            seen = wf->tops == t + 1;
        }
        p->tx("inject", probe);
        string uid = strf("USER-%llu", (unsigned long long)++s.user_sent);
        xmpp_stanza_t *ms = make_message(w.ctx, uid, "are you there");
        xmpp_send(s.k->conn, ms);
        xmpp_stanza_release(ms);
        auto arrived = [&] { return p->plain_rx.find("id=\"" + uid + "\"") != string::npos || p->plain_rx.find("id='" + uid + "'") != string::npos; };
        net_policy(w, NET_PLAIN, NET_PLAIN);
        bool ok = w.run(3000, [&] { return !s.k->open || ((probe_hits > h0 || !seen) && arrived()); }, 1);
        if (s.k->open && !ok) {
            // then it has to end on its own
            w.until_ms(25000, [&] { return !s.k->open; }, 50);
            if (s.k->open) c.viol("wedged", "the connection " + when + " neither works (" + (probe_hits > h0 ? "" : "nothing is dispatched") + (arrived() ? "" : " nothing is sent") + ") nor ends");
        } else if (!s.k->open && !may_end) c.viol("ended", "the connection " + when + " ended for no reason");
        else if (s.k->open) stat_add("usable_after_hostile_input");
        if (s.k->conn) xmpp_id_handler_delete(s.k->conn, on_probe, id.c_str());
        w.srv.mangle = m;
        lockstep(w, lock);
    }
};

string deep(Rng &r, int n, bool close)
{
    string x;
    bool attrs = r.onein(2);
    for (int i = 0; i < n; i++) x += attrs ? "<a x='1' xmlns='urn:x'>" : "<a>";
    if (close) for (int i = 0; i < n; i++) x += "</a>";
    return x;
}
string hostile_xml(Rng &r, Scen &s, XPeer &p, bool slow)
{
    size_t big = slow ? 200 : 1;
    switch (r.below(24)) {
    case 0: return "<message id='" + string(1 + r.below(60000 / big), 'i') + "'/>";
    case 1: return "<message><body>" + string(r.below((r.onein(10) ? 300000 : 40000) / big), r.onein(2) ? 'b' : '\n') + "</body></message>";
    case 2: { string x = "<message"; for (u64 i = 0, n = r.below(3000 / big + 2); i < n; i++) x += strf(" a%llu='v'", (unsigned long long)i); return x + "/>"; }
    case 3: { string x = "<message>"; for (u64 i = 0, n = r.below(8000 / big + 2); i < n; i++) x += "<c/>"; return x + "</message>"; }
    case 4: return deep(r, 1 + (int)r.below(slow ? 60 : r.onein(4) ? 30000 : 700), true);
    case 5: return deep(r, 1 + (int)r.below(60), true);
    case 6: { GenOpt o; Node n = gen_node(r, o); Elem e = to_elem(n, NS_CLIENT); string out; write_xml(r, e, {{"", NS_CLIENT}, {"stream", NS_STREAM}}, out); return out; }
    case 7: return corrupt_bytes(r, "<message from='a@b/c' id='x&amp;y' type='chat'><body>text &lt; &#65;</body><x xmlns='urn:x' y='z'/></message>");
    case 8: return r.bytes(1 + r.below(60));
    case 9: return "<!-- comment --><?pi data?><message/>";
    case 10: return "<!DOCTYPE x [<!ENTITY a 'aaaa'><!ENTITY b '&a;&a;&a;'>]><message><body>&b;</body></message>";
    case 11: return "<message><body><![CDATA[" + r.bytes(r.below(20)) + "]]></body></message>";
    case 12: return "<message xmlns='" + string(r.below(3000), 'n') + "'/>";
    case 13: return "<x:message xmlns:x='urn:p'><x:body x:a='1'/></x:message>";
    case 14: return "<iq type='" + string(r.onein(2) ? "get" : "result") + "'/><iq type='set' id=''/><iq/><presence type=''/>";
    case 15: return "<iq id='_xmpp_bind1' type='result'/><iq id='_xmpp_session1' type='error'/><iq id='_xmpp_auth1' type='result'/>";
    case 16: { const char *h[] = {"0", "1", "4294967295", "4294967296", "99999999999999999999", "-1", "", "x", "2147483648", "007"}; return string("<a xmlns='" NS_SM "' h='") + h[r.below(10)] + "'/>"; }
    case 17: { string x; for (u64 i = 0, n = 1 + r.below(40); i < n; i++) x += r.onein(3) ? "<r xmlns='" NS_SM "'/>" : "<message/>"; return x; }
    case 18: return "<message>\xc3(</message>";
    case 19: return "<stream:error>" + string(r.onein(2) ? "<host-gone xmlns='" NS_STREAMS_IETF "'/>" : "<weird/>") + (r.onein(2) ? "<text xmlns='" NS_STREAMS_IETF "'>" + string(r.below(5000), 't') + "</text>" : "") + "</stream:error>";
    case 20: { const char *f[] = {"<stream:error/>", "<stream:error>only text</stream:error>", "<stream:features/>", "<message/>", "<iq/>", "<iq type='error'/>", "<presence/>", "<a xmlns='" NS_SM "'/>", "<resumed xmlns='" NS_SM "'/>", "<enabled xmlns='" NS_SM "'/>", "<challenge xmlns='" NS_SASL "'/>", "<iq type='get'><ping xmlns='urn:xmpp:ping'/></iq>"}; return f[r.below(12)]; }
    case 21: return struct_mutate(r, s.canned(p, ""));
    default: return s.canned(p, "");
    }
}

void negotiation(Case &c)
{
    Hostile h(c);
    Scen &s = h.s;
    int n = 1 + (int)h.r.below(3);
    for (int i = 0; i < n; i++) {
        s.next_cfg();
        h.noise();
        int wm = h.r.onein(3) ? 1 + (int)h.r.below(3) : 0;
        auto budget = std::make_shared<int>(1 + (int)h.r.below(3));
        auto rr = std::make_shared<Rng>(h.r.next());
        if (wm == 1) h.w.wire_hook = [rr, budget](XPeer &, string &b) { if (*budget > 0 && rr->onein(8)) { --*budget; b = corrupt_bytes(*rr, b); stat_add("wire_corruptions"); } };
        else if (wm == 2) h.w.wire_hook = [rr, budget](XPeer &p, string &b) { if (p.tls && *budget > 0 && rr->onein(3)) { --*budget; b = corrupt_bytes(*rr, b); stat_add("tls_corruptions"); } };
        else if (wm == 3) h.w.comp_hook = [rr, budget](XPeer &p, string &b) { if (p.comp && *budget > 0 && rr->onein(3)) { --*budget; b = corrupt_bytes(*rr, b); stat_add("zlib_corruptions"); } };
        else { h.w.wire_hook = nullptr; h.w.comp_hook = nullptr; }
        if (h.r.onein(6)) s.user_send(h.r.onein(2));
        if (s.start() != XMPP_EOK) { stat_add("connect_refused"); continue; }
        if (s.drive(h.r.onein(5) ? (int)h.r.below(120) : 1500)) stat_add("hostile_up");
        stat_add("hostile_attempts");
        if (h.r.onein(3)) for (int j = 0; j < 5 && s.k->open; j++) if (XPeer *p = h.w.peer()) { p->tx("inject", hostile_xml(h.r, s, *p, true)); h.w.run(30, [] { return false; }, 1); }
        if (i + 1 < n) { s.end_attempt(); if (s.k->open) { s.k->disconnect(); h.w.until_ms(4000, [&] { return !s.k->open; }); } if (s.k->open) { c.viol("cannot-disconnect", "the connection does not end"); break; } }
    }
    c.mixsig(h.w.tr.size());
    for (auto &e : h.w.tr) c.mixsig((u64)e.k * 100 + (u64)e.a);
    c.nontrivial = true;
    if (c.k < 3) c.sample = h.w.show(1500);
    h.aftermath();
}

// a clean negotiation, then hostile input
void established(Case &c)
{
    Hostile h(c);
    Scen &s = h.s;
    Rng &r = h.r;
    ConnCfg &g = s.next_cfg();
    s.make_good(g);
    if (r.onein(3)) { g.srv.sm = true; g.flags &= ~XMPP_CONN_FLAG_DISABLE_SM; xmpp_conn_set_flags(s.k->conn, g.flags); }
    s.o.user_load = r.onein(2);
    net_policy(h.w, NET_PLAIN, NET_PLAIN);
    if (s.start() != XMPP_EOK) { c.viol("cannot-connect", "refused"); return; }
    if (!s.drive(1500) || !s.k->open) { c.viol("never-connected", strf("jid %s flags %ld", g.jid.c_str(), g.flags)); return; }
    lockstep(h.w, false);
    XPeer *p = h.w.peer();
    size_t hdr = p->plain_tx.rfind("<?xml");
    Wf wf;
    wf.feed(p->plain_tx.substr(hdr == string::npos ? 0 : hdr));
    if (wf.err || wf.depth != 1) { c.note("harness: unexpected server stream"); }
    int mode_in = r.chance(40) ? NET_PLAIN : (int)r.below(4);
    net_policy(h.w, mode_in, r.chance(60) ? NET_PLAIN : (int)r.below(4));
    h.w.srv.mangle = nullptr;
    bool corrupting = r.onein(5);
    if (corrupting) {
        auto rr = std::make_shared<Rng>(r.next());
        auto left = std::make_shared<int>(2);
        h.w.wire_hook = [rr, left](XPeer &, string &b) { if (*left && rr->onein(3)) { --*left; b = corrupt_bytes(*rr, b); stat_add("wire_corruptions"); } };
    }
    bool bomb = p->comp && r.onein(3);
    int n = 1 + (int)r.below(8);
    size_t tx0 = p->plain_tx.size();
    for (int i = 0; i < n && s.k->open; i++) {
        string x = bomb && i == 0 ? "<message><body>" + string(mode_in == NET_PLAIN ? 400000 : 30000, 'z') + "</body></message>" : hostile_xml(r, s, *p, mode_in == NET_BYTES);
        if (r.onein(5) && x.size() > 1) { size_t k = 1 + r.below(x.size() - 1); p->tx("inject", x.substr(0, k)); h.w.run((int)r.below(10), [] { return false; }, 1); p->tx("inject", x.substr(k)); }
        else p->tx("inject", x);
        if (r.onein(3)) s.user_send(r.onein(3));
        h.w.run((int)r.below(60), [&] { return !s.k->open; }, 1);
        c.mixsig(hash_str(x.substr(0, 40)));
    }
    if (bomb) stat_add("zlib_bombs");
    // everything arrives
    if (s.k->open) h.w.run(4000, [&] { return !s.k->open || (p->outq.empty() && p->s && p->s->to_client.empty()); }, 1);
    sim::policy.arrive = nullptr;
    sim::policy.on_recv = nullptr;
    if (s.k->open) h.w.run(4000, [&] { return !s.k->open || (p->outq.empty() && p->s && p->s->to_client.empty()); }, 1);
    h.w.run(20, [] { return false; }, 1);
    if (r.onein(6)) { if (r.onein(2)) p->fin(); else p->rst(); h.w.until_ms(4000, [&] { return !s.k->open; }); if (s.k->open) c.viol("close-unnoticed", "the peer closed the connection, no disconnect notification within 4 s"); }
    wf.feed(p->plain_tx.substr(tx0));
    stat_add("established_cases");
    if (wf.err) stat_add("ill_formed_streams");
    if (s.k->open && !corrupting) {
        if (wf.err || wf.closed) {
            h.w.until_ms(4000, [&] { return !s.k->open; });
            if (s.k->open) c.viol("wedged-after-bad-xml", strf("the server's stream %s but the connection does not end", wf.err ? "is not well-formed" : "was closed"));
        } else if (wf.serror) {
            // RFC 6120: the stream is over, but who closes is open
        } else h.usable("after hostile input", true, &wf);
    } else if (!s.k->open && !corrupting && !wf.err && !wf.closed && !wf.serror) stat_add("ended_on_valid_xml");
    c.nontrivial = true;
    h.aftermath();
}

// a peer that ignores what the client says
void garbage(Case &c)
{
    Hostile h(c);
    Scen &s = h.s;
    Rng &r = h.r;
    ConnCfg &g = s.next_cfg();
    h.noise();
    lockstep(h.w, false);
    bool raw = !g.component && r.onein(3);
    h.w.srv.intercept = [](XPeer &, const Elem &) { return true; };
    h.w.srv.on_header_hook = [](XPeer &, const Elem &) { return true; };
    s.hooks();
    h.w.srv.mangle = nullptr;
    if (raw) s.k->on_event = [&](int ev) {
        if (ev == XMPP_CONN_RAW_CONNECT) {
            switch (r.below(4)) {
            case 0: xmpp_conn_open_stream_default(s.k->conn); break;
            case 1: { const char *a[] = {"to", "x.org", "xmlns", NS_CLIENT}; char *aa[4]; for (int i = 0; i < 4; i++) aa[i] = (char *)a[i]; xmpp_conn_open_stream(s.k->conn, aa, 4); break; }
            case 2: xmpp_conn_tls_start(s.k->conn); break;
            }
        }
    };
    int rc = raw ? s.k->connect_raw("raw.example.net", 5222) : s.start();
    if (rc == XMPP_EOK) {
        int n = 1 + (int)r.below(25);
        bool tls = r.onein(6);
        for (int i = 0; i < n && s.k->open; i++) {
            h.w.run((int)r.below(15), [&] { return !s.k->open; }, 1);
            XPeer *p = h.w.peer();
            if (!p) continue;
            string x;
            switch (r.below(9)) {
            case 0: case 1: x = "<?xml version='1.0'?><stream:stream xmlns='" + string(g.component ? NS_COMPONENT : NS_CLIENT) + "' xmlns:stream='" NS_STREAM "' id='1'" + (r.onein(3) ? "" : " version='1.0'") + ">"; break;
            case 2: case 3: x = random_features(r); break;
            case 4: x = hostile_xml(r, s, *p, true); break;
            case 5: x = corrupt_bytes(r, s.canned(*p, "")); break;
            case 6: if (tls && !p->tls) { p->tx("inject", "<proceed xmlns='" NS_TLS "'/>", [p] { p->start_tls(); }); continue; }
            // fallthrough
            default: x = s.canned(*p, "");
            }
            p->tx("inject", x);
            if (raw && r.onein(6)) xmpp_conn_tls_start(s.k->conn);
            c.mixsig(hash_str(x.substr(0, 30)));
        }
        stat_add("garbage_cases");
        if (raw) stat_add("raw_connections");
        if (r.onein(3)) h.w.run_ms(30000, 500);
    }
    s.k->on_event = nullptr;
    h.w.srv.on_header_hook = nullptr;
    c.nontrivial = true;
    h.aftermath();
}

// hostile resolver
void resolver(Case &c)
{
    Hostile h(c);
    Rng &r = h.r;
    h.s.next_cfg();
    auto rr = std::make_shared<Rng>(r.next());
    sim::policy.dns = [rr](const string &, int, string &out) {
        out = rr->onein(4) ? rr->bytes(rr->below(600)) : "";
        if (out.empty()) {
            // header, question, a few records, then damage
            out = string("\x12\x34\x81\x80\x00\x01\x00\x02\x00\x00\x00\x00", 12) + string("\x0c_xmpp-client\x04_tcp\x07" "example\x03org\x00\x00\x21\x00\x01", 36);
            for (int i = 0; i < 2; i++) out += string("\xc0\x0c\x00\x21\x00\x01\x00\x00\x0e\x10\x00\x10\x00\x05\x00\x05\x14\x66\x02", 19) + "s" + (char)('1' + i) + string("\xc0\x1e\x00", 2);
            int n = (int)rr->below(6);
            for (int i = 0; i < n; i++) out[rr->below(out.size())] = (char)rr->next();
            if (rr->onein(3)) out.resize(rr->below(out.size() + 1));
        }
        stat_add("dns_answers");
        return !rr->onein(8);
    };
    sim::policy.resolve = [rr](const string &hst, vector<string> &a) { if (hst.size() > 200) stat_add("long_hosts"); if (rr->onein(4)) return false; for (u64 i = 0, n = 1 + rr->below(4); i < n; i++) a.push_back(rr->onein(4) ? "fe80::1" : strf("10.1.0.%d", (int)i + 1)); return true; };
    sim::policy.endpoint = [rr](const string &, int) { sim::Endpoint e; e.outcome = (sim::ConnOutcome)rr->below(7); e.delay = rr->below(4000); return e; };
    if (h.s.start(nullptr) == XMPP_EOK) {
        h.s.drive(2000);
        if (r.onein(2)) h.w.run_ms(40000, 500);
    }
    stat_add("resolver_cases");
    c.nontrivial = true;
    c.mixsig(h.w.tr.size() * 31 + sim::connects.size());
    h.aftermath();
}
} // namespace

PROP(C01)
{
    switch (c.k % 8) {
    case 0: case 1: case 2: negotiation(c); break;
    case 3: case 4: case 5: established(c); break;
    case 6: garbage(c); break;
    default: resolver(c); break;
    }
}
