// C10 at the level of a connection: the stanzas seen by handlers, the
// notifications and the reactions of the client for one script of the server,
// whatever the pieces in which its bytes arrive.
#include "gen.h"
#include "scen.h"

namespace {
struct Seen {
    vector<string> handled;         // by the catch-all handler once the session is up
    vector<string> events;          // notifications
    vector<string> wire;            // names of the elements the client sent
    vector<size_t> marks;           // handled stanzas at the begin of each connection
    bool up = true;
};
int on_any(xmpp_conn_t *, xmpp_stanza_t *st, void *ud)
{
    Seen *s = (Seen *)ud;
    s->handled.push_back(read_stanza(st).canon());
    return 1;
}
struct Script {
    u64 seed;
    int conns;
    bool raw;                       // xmpp_connect_raw
    vector<string> bytes;           // application bytes of the server, per connection
    vector<vector<string>> expect;  // ... what they contain (complete stanzas)
    vector<bool> judged, end;       // model applies; the server closes the stream
    bool resets = false;
};
string payload(Rng &r, int n, vector<string> &expect, u64 &serial, bool &qualified)
{
    string o;
    std::map<string, string> scope{{"xml", "http://www.w3.org/XML/1998/namespace"}, {"", "jabber:client"}, {"stream", NS_STREAM}};
    for (int i = 0; i < n; i++) {
        if (r.onein(3)) o += r.onein(2) ? " " : "\n \t";
        if (r.onein(12)) o += "<!-- between -->";
        GenOpt g;
        g.depth = (int)r.below(5);
        g.textlen = 60;
        if (r.onein(12)) { g.textlen = 9000; g.depth = 1; g.fan = 2; g.attrs = 2; }
        Node nd;
        Elem e;
        do {
            nd = gen_node(r, g);
            e = to_elem(nd, "jabber:client");
        } while (e.ns == NS_STREAM || e.ns == NS_SM || e.ns == "http://etherx.jabber.org/streams");
        normalise(e);
        e.attrs["serial"] = strf("%llu", (unsigned long long)++serial);
        if (r.onein(10) && !e.attrs.count("lang")) { e.attrs["http://www.w3.org/XML/1998/namespace|lang"] = "v"; qualified = true; }
        if (r.onein(6)) e.attrs["ws"] = "a\tb\nc\rd";
        if (r.onein(12)) { Elem t; t.is_text = true; t.text = gen_text(r, 2000 + r.below(8000), false); if (e.kids.empty() || !e.kids.back().is_text) e.kids.push_back(t); normalise(e); }
        write_xml(r, e, scope, o);
        strip_attr_ns(e);
        expect.push_back(e.canon());
    }
    return o;
}
// runs the script with one way of cutting
void session(Case &c, const Script &sc, int mode, u64 cutseed, Seen &out)
{
    c.rng = Rng(sc.seed);           // the same configuration every time
    World w(c);
    w.report = false;
    Rng &r = c.rng;
    sim::spin_limit = 4000000;
    ScenOpt o;
    o.hostile_pct = 0;
    o.tls_pct = 45;
    o.user_load = false;
    o.bad_certs = false;
    o.sm_pct = 0;
    o.allow_component = false;
    o.burst_pct = 0;
    Scen s(w, o);
    ConnCfg &g = s.next_cfg();
    bool comp = r.onein(3);
    if (sc.raw) g.flags &= ~(XMPP_CONN_FLAG_LEGACY_SSL | XMPP_CONN_FLAG_MANDATORY_TLS);
    if (comp && !g.component) g.flags |= XMPP_CONN_FLAG_ENABLE_COMPRESSION;
    s.make_good(g);
    g.srv.iter = 1;
    g.srv.comp = comp;
    g.srv.sm = false;
    g.srv.comp_methods = "<method>zlib</method>";
    xmpp_conn_set_flags(s.k->conn, g.flags | XMPP_CONN_FLAG_DISABLE_SM);
    xmpp_handler_add(s.k->conn, on_any, nullptr, nullptr, nullptr, &out);
    xmpp_conn_set_sm_callback(s.k->conn, nullptr, nullptr);
    auto cr = std::make_shared<Rng>(cutseed);
    if (sc.raw) {
        s.k->on_event = [&](int ev) { if (ev == XMPP_CONN_RAW_CONNECT) xmpp_conn_open_stream_default(s.k->conn); };
    }
    struct Guard { World &w; Seen &out; ~Guard() { for (auto &k : w.clients) k->on_event = nullptr; w.fini(); } } guard{w, out};
    for (int n = 0; n < sc.conns; n++) {
        u64 pol = r.next();
        c.rng = Rng(cutseed + (u64)n);
        net_policy(w, mode == 0 ? NET_PLAIN : mode == 1 ? NET_BYTES : mode == 2 ? NET_CHUNKY : mode == 3 ? NET_STALL : (int)cr->below(4), NET_PLAIN);
        c.rng = Rng(pol);
        size_t tr0 = w.tr.size();
        out.handled.clear();
        int rc;
        if (sc.raw) { s.hooks(); rc = s.k->connect_raw(nullptr); } else rc = s.start();
        if (rc != XMPP_EOK) { out.up = false; return; }
        if (!w.until_ms(20000, [&] { return s.k->up || !s.k->open; }) || !s.k->up) { out.up = false; return; }
        if (sc.raw) { if (!w.until_ms(20000, [&] { return !out.handled.empty() || !s.k->open; })) { out.up = false; return; } }
        XPeer *p = w.peer();
        if (!p || !s.k->open) { out.up = false; return; }
        for (int i = 0; i < 40; i++) w.once(1);
        out.marks.push_back(0);
        out.handled.clear();
        // the application bytes, in pieces: TLS records, deflate blocks, segments
        const string &b = sc.bytes[(size_t)n];
        size_t at = 0;
        while (at < b.size()) {
            size_t q = mode == 0 ? b.size() : mode == 1 ? 1 + cr->below(3) : 1 + cr->below(cr->onein(4) ? 4000 : 90);
            if (b.size() > 12000 && q < 60 && mode) q = 60 + cr->below(300);
            p->raw(b.substr(at, q));
            at += q;
            if (mode && cr->onein(3)) w.once(1);
            if (!s.k->open) break;
        }
        net_policy(w, NET_PLAIN, NET_PLAIN);
        u64 last = w.iters;
        sim::policy.on_recv = [&](sim::VSock *, size_t k) -> int { last = w.iters; return (int)k; };
        while (s.k->open && w.iters - last < 40) w.once(1);
        sim::policy.on_recv = nullptr;
        out.events.push_back("#");
        for (auto &x : out.handled) out.events.push_back("STANZA " + x);
        if (s.k->open) { if (n & 1) { p->fin(); } else p->rst(); w.until_ms(4000, [&] { return !s.k->open; }); }
        for (size_t i = tr0; i < w.tr.size(); i++) {
            const Ev &e = w.tr[i];
            if (e.k == Ev::CONN) out.events.push_back(strf("EVENT %d ", e.a) + e.s);
            if (e.k == Ev::RX) out.wire.push_back(e.e.name);
            if (e.k == Ev::RX_HEADER) out.wire.push_back("<header>");
            if (e.k == Ev::RX_CLOSE) out.wire.push_back("</close>");
        }
        if (s.k->open) { out.up = false; return; }
    }
    if (!w.mm.errors.empty()) c.viol("free", w.mm.errors[0]);
}
} // namespace

void c10_conn(Case &c)
{
    Rng r(c.rng.next());
    Script sc;
    sc.seed = r.next();
    sc.raw = r.onein(5);
    sc.conns = 1 + (int)r.below(3);
    u64 serial = 0;
    bool qualified = false, hostile = r.onein(3);
    string all;
    for (int i = 0; i < sc.conns; i++) {
        vector<string> ex;
        string b = payload(r, (int)r.below(6), ex, serial, qualified);
        bool judged = true, end = false;
        if (hostile && r.onein(2)) {
            // cut off or damaged: what follows is the same for every chunking
            static const char *bad[] = {"<a><b></a>", "<message><body>&bogus;</body></message>", "</wrong>", "<stream:error><conflict xmlns='" NS_STREAMS_IETF "'/><text xmlns='" NS_STREAMS_IETF "'>gone &amp; lost</text></stream:error></stream:stream>", "<message a='1' a='2'/>", "\x01", "<p:x/>", "<![CDATA[x]]>", "]]>", "<!DOCTYPE x>", "<message", "<message><body>half a t", "<message><body>\xc3", "<message><![CDATA[x", "</stream:stream", "&#0;", "<stream:features/>", "<iq type='result' id='_xmpp_bind1'/>"};
            size_t q = r.onein(2) ? b.size() : 0;
            if (q < b.size() && r.onein(2)) { // damaged somewhere in the middle
                for (int n = 1 + (int)r.below(2); n-- && !b.empty();) b[r.below(b.size())] = "<>&\"'=/ x\x02\xff"[r.below(11)];
            } else if (r.onein(3)) b.resize(r.below(b.size() + 1));
            else b += bad[r.below(sizeof bad / sizeof *bad)];
            if (r.onein(2)) { vector<string> dummy; b += payload(r, 2, dummy, serial, qualified); }
            judged = false;
            stat_add("conn_damaged");
        } else if (r.onein(4)) { b += "</stream:stream>"; end = true; }
        else if (i + 1 < sc.conns) {
            // the connection is lost in the middle of something: the next stream starts afresh
            vector<string> dummy;
            string t = payload(r, 1, dummy, serial, qualified);
            if (r.onein(2)) t.resize(r.below(t.size())); else t = r.onein(2) ? "<message><body>unfinished text" : "<x y='";
            bool done = false;
            { Elem e; (void)e; StreamParser sp; for (auto &x : sp.feed("<stream:stream xmlns='jabber:client' xmlns:stream='" NS_STREAM "'>" + t)) if (x.k == StreamEvent::ELEM || x.k == StreamEvent::ERR) done = true; }
            if (!done) { b += t; stat_add("conn_cut_in_stanza"); }
        }
        sc.bytes.push_back(b);
        sc.expect.push_back(ex);
        sc.judged.push_back(judged);
        sc.end.push_back(end);
        all += vis(b, 500) + " ## ";
    }
    c.nontrivial = true;
    c.mixsig(all);
    c.sample = all.substr(0, 900);
    Seen ref;
    session(c, sc, 0, 1, ref);
    if (!ref.up) { c.viol("conn/harness-not-up", "the session did not come up"); return; }
    stat_add("conn_sessions");
    stat_add("conn_stanzas", serial);
    // against the model
    size_t conn = 0, at = 0;
    vector<vector<string>> got(ref.marks.size());
    for (auto &e : ref.events) { if (e == "#") { conn++; continue; } if (conn && conn <= got.size() && e.compare(0, 7, "STANZA ") == 0) got[conn - 1].push_back(e.substr(7)); }
    (void)at;
    for (size_t i = 0; i < got.size() && !c.violated; i++) {
        if (!sc.judged[i]) continue;
        for (size_t j = 0; j < std::max(got[i].size(), sc.expect[i].size()); j++) {
            string a = j < got[i].size() ? got[i][j] : "(nothing)", b = j < sc.expect[i].size() ? sc.expect[i][j] : "(nothing)";
            if (a != b) { c.viol("conn/model", strf("connection %zu, stanza %zu: the handler saw ", i, j) + vis(a, 300) + ", the server sent " + vis(b, 300)); break; }
        }
    }
    int n = c.thorough ? 6 : 3;
    for (int i = 0; i < n && !c.violated; i++) {
        int mode = i == 0 ? 1 + (int)r.below(4) : 1 + (int)r.below(4);
        Seen s;
        session(c, sc, mode, r.next(), s);
        stat_add("conn_chunkings");
        if (!s.up) { c.viol("conn/chunking-not-up", strf("the session comes up when its bytes arrive in one piece, but not in others (mode %d)", mode)); break; }
        for (size_t j = 0; j < std::max(s.events.size(), ref.events.size()); j++) {
            string a = j < s.events.size() ? s.events[j] : "(nothing)", b = j < ref.events.size() ? ref.events[j] : "(nothing)";
            if (a != b) { c.viol("conn/chunking", strf("mode %d, event %zu: ", mode, j) + vis(a, 300) + " instead of " + vis(b, 300) + " for " + all); break; }
        }
        if (s.wire != ref.wire && !c.violated) {
            string a, b;
            for (auto &x : s.wire) a += x + " ";
            for (auto &x : ref.wire) b += x + " ";
            c.viol("conn/reaction", strf("mode %d: the client sent ", mode) + a + " instead of " + b + " for " + all);
        }
    }
    stat_distinct("conn_scripts", hash_str(all));
}
