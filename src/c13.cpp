// C13 lifecycle: one outcome per attempt, consistent state, bounded waits, stream errors, offline-only settings.
#include "scen.h"
#include <algorithm>

namespace {
const struct { const char *name; int type; } ses[] = {
    {"bad-format", XMPP_SE_BAD_FORMAT}, {"bad-namespace-prefix", XMPP_SE_BAD_NS_PREFIX}, {"conflict", XMPP_SE_CONFLICT}, {"connection-timeout", XMPP_SE_CONN_TIMEOUT},
    {"host-gone", XMPP_SE_HOST_GONE}, {"host-unknown", XMPP_SE_HOST_UNKNOWN}, {"improper-addressing", XMPP_SE_IMPROPER_ADDR}, {"internal-server-error", XMPP_SE_INTERNAL_SERVER_ERROR},
    {"invalid-from", XMPP_SE_INVALID_FROM}, {"invalid-id", XMPP_SE_INVALID_ID}, {"invalid-namespace", XMPP_SE_INVALID_NS}, {"invalid-xml", XMPP_SE_INVALID_XML},
    {"not-authorized", XMPP_SE_NOT_AUTHORIZED}, {"policy-violation", XMPP_SE_POLICY_VIOLATION}, {"remote-connection-failed", XMPP_SE_REMOTE_CONN_FAILED},
    {"resource-constraint", XMPP_SE_RESOURCE_CONSTRAINT}, {"restricted-xml", XMPP_SE_RESTRICTED_XML}, {"see-other-host", XMPP_SE_SEE_OTHER_HOST},
    {"system-shutdown", XMPP_SE_SYSTEM_SHUTDOWN}, {"undefined-condition", XMPP_SE_UNDEFINED_CONDITION}, {"unsupported-encoding", XMPP_SE_UNSUPPORTED_ENCODING},
    {"unsupported-stanza-type", XMPP_SE_UNSUPPORTED_STANZA_TYPE}, {"unsupported-version", XMPP_SE_UNSUPPORTED_VERSION}, {"not-well-formed", XMPP_SE_XML_NOT_WELL_FORMED}};

const long ALLF[] = {XMPP_CONN_FLAG_DISABLE_TLS, XMPP_CONN_FLAG_MANDATORY_TLS, XMPP_CONN_FLAG_LEGACY_SSL, XMPP_CONN_FLAG_TRUST_TLS, XMPP_CONN_FLAG_LEGACY_AUTH,
                     XMPP_CONN_FLAG_DISABLE_SM, XMPP_CONN_FLAG_ENABLE_COMPRESSION, XMPP_CONN_FLAG_COMPRESSION_DONT_RESET};

void flag_check(Case &c, Client &k, Rng &r)
{
    long f = 0;
    for (long x : ALLF) if (r.onein(3)) f |= x;
    long old = xmpp_conn_get_flags(k.conn);
    int rc = xmpp_conn_set_flags(k.conn, f);
    long now = xmpp_conn_get_flags(k.conn);
    stat_add("flag_sets");
    if (k.open) {
        stat_add("flag_sets_online");
        if (rc == XMPP_EOK) c.viol("flags/accepted-online", "flags were accepted although the connection is not disconnected");
        else if (now != old) c.viol("flags/changed-online", strf("refused flags changed from %ld to %ld", old, now));
    } else if (rc == XMPP_EOK) {
        if (now != f) c.viol("flags/read-back", strf("flags %ld were accepted, %ld read back", f, now));
        xmpp_conn_set_flags(k.conn, old);
    } else if (!((f & XMPP_CONN_FLAG_DISABLE_TLS) && (f & (XMPP_CONN_FLAG_MANDATORY_TLS | XMPP_CONN_FLAG_LEGACY_SSL | XMPP_CONN_FLAG_TRUST_TLS))))
        c.viol("flags/refused-offline", strf("flags %ld were refused for a disconnected connection", f));
    else stat_add("flag_conflicts");
}
string blob(u32 sent, u32 handled, const string &id)
{
    string b;
    auto u = [&](int t, u32 v) { b += (char)t; b += (char)(v >> 24); b += (char)(v >> 16); b += (char)(v >> 8); b += (char)v; };
    u(0x1a, 0); u(0x1a, sent); u(0x1a, handled); u(0x7a, (u32)id.size()); b += id; u(0x9a, 0); u(0xba, 0);
    return b;
}
void sm_check(Case &c, Client &k, Rng &r)
{
    if (k.open) {
        stat_add("sm_state_sets_online");
        string b = blob((u32)r.below(9), (u32)r.below(9), "sess-1");
        if (xmpp_conn_restore_sm_state(k.conn, (const unsigned char *)b.data(), b.size()) == XMPP_EOK) c.viol("sm-state/restored-online", "a blob was restored although the connection is not disconnected");
        if (xmpp_conn_get_sm_state(k.conn)) c.viol("sm-state/taken-online", "the SM state was handed out although the connection is not disconnected");
        // an SM state of another connection
        xmpp_conn_t *o = xmpp_conn_new(k.w.ctx);
        if (xmpp_conn_restore_sm_state(o, (const unsigned char *)b.data(), b.size()) == XMPP_EOK) {
            xmpp_sm_state_t *st = xmpp_conn_get_sm_state(o);
            if (st) { if (xmpp_conn_set_sm_state(k.conn, st) == XMPP_EOK) c.viol("sm-state/set-online", "an SM state was set although the connection is not disconnected"); else xmpp_free_sm_state(st); }
        }
        xmpp_conn_release(o);
    } else {
        xmpp_sm_state_t *st = xmpp_conn_get_sm_state(k.conn);
        if (st) { if (r.onein(3)) xmpp_free_sm_state(st); else if (xmpp_conn_set_sm_state(k.conn, st) != XMPP_EOK) { c.viol("sm-state/refused-offline", "the SM state just taken is refused"); xmpp_free_sm_state(st); } }
    }
}
bool step_until(World &w, u64 ms, const std::function<bool()> &f, unsigned long tmo = 10) { return w.until_ms(ms, f, tmo); }

// ---------------------------------------------------------------- chaos
void chaos(Case &c)
{
    World w(c);
    w.report = true;
    ScenOpt o;
    o.corrupt = c.rng.onein(3);
    o.mangle_pct = 20;
    o.max_conns = 4;
    Scen s(w, o);
    Rng &r = s.r;
    if (r.chance(70)) s.add_handlers();
    Client *other = nullptr;
    if (r.onein(3)) { other = &w.client(); other->set("alice@example.org/second", "secret", XMPP_CONN_FLAG_DISABLE_TLS); }
    int reconnects = 0, depth = 0;
    s.k->on_event = [&](int ev) {
        if (depth > 2) return;
        depth++;
        if (ev == XMPP_CONN_CONNECT) {
            if (r.onein(12)) s.k->disconnect();
            if (r.onein(12)) { s.k->disconnect(); s.k->disconnect(); }
            if (r.onein(10)) flag_check(c, *s.k, r);
        } else if (ev == XMPP_CONN_DISCONNECT) {
            if (r.onein(8)) s.k->disconnect();
            if (r.onein(8) && s.cur && reconnects < 3) { reconnects++; stat_add("reconnects_in_callback"); s.start(); }
            if (r.onein(12)) sm_check(c, *s.k, r);
        }
        depth--;
    };
    int n = 1 + (int)r.below(o.max_conns);
    w.use_run = r.onein(6);
    for (int i = 0; i < n && s.k->conn; i++) {
        if (s.k->open) { s.k->disconnect(); step_until(w, 4000, [&] { return !s.k->open; }); }
        if (s.k->open) { if (!s.k->open) {} ; break; }
        s.next_cfg();
        s.w.report = true;
        net_policy(w, r.chance(60) ? NET_PLAIN : (int)r.below(4), r.chance(70) ? NET_PLAIN : (int)r.below(4));
        if (r.onein(4)) {
            auto rr = std::make_shared<Rng>(r.next());
            sim::policy.endpoint = [rr](const string &, int) { sim::Endpoint e; if (rr->onein(2)) e.outcome = (sim::ConnOutcome)rr->below(7); e.delay = rr->below(6000); return e; };
        } else sim::policy.endpoint = nullptr;
        if (other && !other->open && r.onein(2)) other->connect("srv2.example.net");
        int rc = s.start();
        if (rc != XMPP_EOK) { stat_add("connect_refused"); continue; }
        stat_add("attempts");
        int iters = 30 + (int)r.below(700);
        for (int j = 0; j < iters && s.k->conn; j++) {
            if (!s.k->open && r.onein(4)) break;
            switch (r.below(240)) {
            case 0: s.k->disconnect(); break;
            case 1: if (s.k->open) { stat_add("second_connects"); if (s.start() == XMPP_EOK) c.viol("second-connect-accepted", "xmpp_connect_* succeeded on a connection that is not disconnected"); } break;
            case 2: case 3: flag_check(c, *s.k, r); break;
            case 4: sm_check(c, *s.k, r); break;
            case 5: case 6: s.user_send(r.onein(4)); break;
            case 7: if (other && r.onein(3)) other->disconnect(); break;
            case 8: if (XPeer *p = w.peer()) if (r.onein(6)) { if (r.onein(2)) p->fin(); else p->rst(); } break;
            case 9: if (r.onein(10)) { stat_add("released_while_open", s.k->open); if (s.k->open) s.k->on_event = nullptr; s.k->release(); } break;
            case 10: if (XPeer *p = w.peer()) if (r.onein(4)) p->close_stream(); break;
            case 11: if (XPeer *p = w.peer()) if (r.onein(4)) p->tx("inject", s.canned(*p, "")); break;
            case 12: xmpp_conn_clone(s.k->conn); xmpp_conn_release(s.k->conn); break;
            }
            if (!s.k->conn) break;
            w.once(1 + r.below(20));
        }
        if (!s.k->conn) break;
        if (r.onein(3)) s.k->on_event = nullptr;
        s.end_attempt();
        reconnects = 3;
        if (s.k->open) { s.k->disconnect(); step_until(w, 4000, [&] { return !s.k->open; }); }
        if (s.k->open) { c.viol("never-ends", "the attempt does not end after xmpp_disconnect"); break; }
        if (r.onein(3)) for (int j = 0; j < 20; j++) w.once(200); // nothing more may come
    }
    u64 at = s.k->attempts, di, up = s.k->connects;
    Client *k = s.k;
    bool was_open = k->open;
    if (k->conn) { k->on_event = nullptr; k->release(); }
    di = k->disconnects;
    if (at != di && !c.violated) c.viol("lifecycle/count", strf("%llu accepted attempts, %llu disconnect notifications", (unsigned long long)at, (unsigned long long)di));
    stat_add("connected_notifications", up);
    stat_add("disconnect_notifications", di);
    (void)was_open;
    c.nontrivial = at > 0;
    c.mixsig(at * 1000 + up);
    for (auto &e : w.tr) c.mixsig((u64)e.k * 50 + (u64)e.a);
    if (c.k < 3) c.sample = w.show(1200);
}

// ---------------------------------------------------------------- deadlines
struct Obs { bool gaveup = false; u64 t = 0; string how; };
// first sign that the client stopped waiting: it closes the stream or turns to legacy authentication
Obs gave_up(World &w, size_t from, const string &st)
{
    Obs o;
    for (size_t i = from; i < w.tr.size(); i++) {
        auto &e = w.tr[i];
        if (e.k == Ev::RX_CLOSE) { o.gaveup = true; o.t = e.t; o.how = "stream closed"; return o; }
        if (e.k == Ev::TX && e.stage == st) return o; // the answer came
        if (e.k == Ev::RX && e.e.name == "auth" && e.e.ns == NS_SASL) { o.gaveup = true; o.t = e.t; o.how = "authentication with the mechanisms known so far"; return o; }
        if (e.k == Ev::RX && e.e.name == "iq" && e.e.child("query", NS_AUTH)) { o.gaveup = true; o.t = e.t; o.how = "legacy authentication"; return o; }
        if (e.k == Ev::CONN && e.a == XMPP_CONN_DISCONNECT) { o.gaveup = true; o.t = e.t; o.how = "disconnected"; return o; }
    }
    return o;
}
void waits(Case &c)
{
    World w(c);
    w.report = true;
    ScenOpt o;
    o.allow_cert = false;
    Scen s(w, o);
    Rng &r = s.r;
    ConnCfg &g = s.next_cfg();
    s.make_good(g);
    static const char *stages[] = {"features", "bind", "session", "legacy", "handshake", "features"};
    string st = stages[r.below(6)];
    SrvConf &sv = g.srv;
    if (g.component != (st == "handshake")) {
        g.component = st == "handshake";
        if (g.component) { g.jid = g.domain = "comp.example.org"; g.has_node = false; g.flags = 0; }
        else { g.jid = "alice@example.org"; g.domain = "example.org"; g.has_node = true; g.has_res = false; g.resource.clear(); }
        xmpp_conn_set_jid(s.k->conn, g.jid.c_str());
        sv.domain = g.domain; sv.user = "alice"; sv.component = g.component;
        s.make_good(g);
    }
    if (st == "session") sv.session = true;
    if (st == "legacy") {
        // no SASL mechanism is offered
        if (!g.has_res || !g.has_node) { g.jid = "alice@example.org/r"; g.domain = "example.org"; g.has_node = g.has_res = true; g.resource = "r"; xmpp_conn_set_jid(s.k->conn, g.jid.c_str()); sv.domain = g.domain; sv.user = "alice"; }
        g.flags |= XMPP_CONN_FLAG_LEGACY_AUTH;
        sv.mechs.clear();
        sv.mechs_tls.clear();
    }
    if (r.onein(3)) sv.sm = true;
    xmpp_conn_set_flags(s.k->conn, g.flags);
    xmpp_conn_set_pass(s.k->conn, g.pass.c_str());
    int which = st == "features" ? (int)r.below(4) : 0; // which occurrence
    static const u64 ds[] = {1000, 9000, 14000, 14900, 15300, 17000, ~0ull, ~0ull};
    u64 d = ds[r.below(8)];
    bool trickle = r.onein(3);
    unsigned long tmo = 1 + r.below(r.onein(2) ? 10 : 300);
    lockstep(w, false);
    int seen = 0;
    u64 t0 = 0;
    size_t from = 0;
    s.hooks();
    w.srv.mangle = nullptr;
    w.srv.delay_hook = [&](XPeer &p, const string &stage) -> u64 {
        if (stage != st || seen++ != which) return 0;
        t0 = sim::now_ms;
        from = w.tr.size();
        (void)p;
        return d == ~0ull ? 1000000 : d;
    };
    if (s.start() != XMPP_EOK) { c.viol("refused", "connect refused"); return; }
    u64 limit = sim::now_ms + 60000, nexttr = 0;
    bool up = false;
    while (sim::now_ms < limit && s.k->open) {
        if (s.k->up) { up = true; break; }
        if (t0 && sim::now_ms > t0 + 26000) break;
        if (trickle && t0 && sim::now_ms > nexttr) { nexttr = sim::now_ms + 2500; if (XPeer *p = w.peer()) if (!p->gone && p->s && (!p->tls || p->tls_up)) { p->raw(" "); stat_add("whitespace_sent"); } }
        w.once(tmo);
    }
    string what = st + strf(" wait (occurrence %d, answer after %lld ms)", which, (long long)d);
    if (!t0) { stat_add("stage_not_reached"); if (!up) c.viol("never-connected", "without any deadline involved: " + what); }
    else {
        stat_add(("waits_" + st).c_str());
        Obs ob = gave_up(w, from, st);
        u64 e = ob.gaveup ? ob.t - t0 : 0;
        if (d < 15000) {
            if (ob.gaveup && e < 15000) c.viol("gave-up-early", strf("%s: %s after %llu ms", what.c_str(), ob.how.c_str(), (unsigned long long)e));
            else if (!up) c.viol("answer-in-time-ignored", what);
            else stat_add("answers_in_time");
        } else {
            if (!ob.gaveup) c.viol("never-gives-up", what);
            else if (e < 15000) c.viol("gave-up-early", strf("%s: %s after %llu ms", what.c_str(), ob.how.c_str(), (unsigned long long)e));
            else if (e > 15000 + 40 + tmo) c.viol("gave-up-late", strf("%s: %s after %llu ms", what.c_str(), ob.how.c_str(), (unsigned long long)e));
            else stat_add("deadlines_observed");
        }
    }
    if (up && s.k->open) {
        // no deadline of the negotiation may strike later
        for (int i = 0; i < 90 && s.k->open; i++) w.once(500);
        if (!s.k->open) c.viol("late-deadline", what + ": the connection was ended after it had been established");
        else stat_add("idle_connections");
    }
    c.mixsig(hash_str(what) + tmo * 3 + trickle + (u64)g.flags * 1000);
    c.nontrivial = true;
    // the next attempt is not touched by what is left of this one
    w.srv.delay_hook = nullptr;
    if (s.k->open) { XPeer *p = w.peer(); switch (r.below(3)) { case 0: s.k->disconnect(); break; case 1: if (p) p->rst(); break; default: if (p) p->fin(); break; } }
    step_until(w, 4000, [&] { return !s.k->open; });
    if (s.k->open) { c.viol("never-ends", what); return; }
    if (st == "legacy") { g.srv.mechs = {"PLAIN"}; w.srv.conf = g.srv; }
    if (r.onein(2)) w.run_ms(r.below(16000), 500);
    if (s.k->open) return;
    if (s.start() != XMPP_EOK) { c.viol("cannot-reconnect", what); return; }
    step_until(w, 5000, [&] { return s.k->up || !s.k->open; });
    if (!s.k->up) { c.viol("reconnect-fails", what); return; }
    for (int i = 0; i < 90 && s.k->open; i++) w.once(500);
    if (!s.k->open) c.viol("late-deadline", what + ": the next connection was ended by a deadline of the previous one");
    else stat_add("idle_connections");
}

// ---------------------------------------------------------------- TCP connect timeout
void tcp(Case &c)
{
    World w(c);
    w.report = true;
    Client &k = w.client();
    Rng &r = c.rng;
    k.set("alice@example.org", "secret", XMPP_CONN_FLAG_DISABLE_TLS);
    int n = 1 + (int)r.below(4);
    struct A { sim::ConnOutcome o; u64 d; };
    vector<A> as;
    for (int i = 0; i < n; i++) {
        switch (r.below(6)) {
        case 0: case 1: as.push_back({sim::HANG, 0}); break;
        case 2: as.push_back({sim::ACCEPT_LATER, 100 + r.below(4800)}); break;
        case 3: as.push_back({sim::ACCEPT_LATER, 5400 + r.below(3000)}); break;
        case 4: as.push_back({sim::REFUSE_LATER, 100 + r.below(4800)}); break;
        case 5: as.push_back({sim::REFUSE_LATER, 5400 + r.below(3000)}); break;
        }
    }
    sim::policy.resolve = [&](const string &, vector<string> &out) { for (int i = 0; i < n; i++) out.push_back(strf("10.0.0.%d", i + 1)); return true; };
    sim::policy.endpoint = [&](const string &ip, int) { sim::Endpoint e; int i = atoi(ip.c_str() + 7) - 1; if (i >= 0 && i < n) { e.outcome = as[i].o; e.delay = as[i].d; } return e; };
    unsigned long tmo = 1 + r.below(r.onein(2) ? 10 : 400);
    bool user = r.onein(5);
    u64 t_user = r.below(20000), t00 = sim::now_ms;
    if (k.connect("srv.example.net") != XMPP_EOK) { c.viol("refused", "connect refused"); return; }
    u64 opened = 0;
    for (int i = 0; i < 60000 && k.open && w.peers.empty(); i++) {
        if (user && sim::now_ms - t00 > t_user) { k.disconnect(); if (k.open) c.viol("disconnect-while-connecting", "no disconnect notification for a connection attempt that was cancelled"); stat_add("cancelled_attempts"); break; }
        w.once(tmo);
    }
    if (w.peers.size()) opened = w.tr.size() ? sim::now_ms : 0;
    u64 t = t00;
    int i = 0;
    bool done = false;
    // model: walks the addresses
    for (i = 0; i < n && !done; i++) {
        if (i >= (int)sim::connects.size()) { if (!(user && !k.open)) c.viol("address-not-tried", strf("address %d was not tried", i)); break; }
        u64 tc = sim::connects[i].t;
        if (i && !(tc >= t && tc <= t + tmo + 40)) { c.viol(tc < t ? "connect-gave-up-early" : "connect-gave-up-late", strf("address %d of %d given up after %lld ms (expected %lld..)", i - 1, n, (long long)(tc - sim::connects[i - 1].t), (long long)(t - sim::connects[i - 1].t))); return; }
        A &a = as[i];
        if (a.o == sim::ACCEPT_LATER && a.d < 5000) { done = true; }
        else if (a.o == sim::REFUSE_LATER && a.d < 5000) t = tc + a.d;
        else t = tc + 5001; // gives up when more than 5 s have passed
        if (a.o != sim::ACCEPT_LATER || a.d >= 5000) stat_add("connect_deadlines");
    }
    if (!user) {
        if (done && w.peers.empty()) c.viol("connect-gave-up-early", "an address that accepts within 5 s was given up");
        if (!done && k.open) c.viol("never-gives-up", "no address accepts, but no disconnect notification");
        if (!done && !k.open && !(k.t_down >= t && k.t_down <= t + tmo + 40)) c.viol("connect-gave-up-wrong", strf("last address given up %lld ms from the expected moment", (long long)(k.t_down - t)));
    }
    (void)opened;
    stat_add("tcp_cases");
    c.nontrivial = true;
    for (auto &a : as) c.mixsig((u64)a.o * 10000 + a.d);
    if (k.open) { k.disconnect(); step_until(w, 4000, [&] { return !k.open; }); }
}

// ---------------------------------------------------------------- stream errors
void stream_errors(Case &c)
{
    World w(c);
    w.report = true;
    ScenOpt o;
    o.allow_cert = false;
    Scen s(w, o);
    Rng &r = s.r;
    ConnCfg &g = s.next_cfg();
    s.make_good(g);
    s.o.user_load = false;
    auto &se = ses[(c.k / 8) % 24];
    bool text = r.chance(60);
    string t = text ? (r.onein(3) ? "because <&>\"' of \xc3\xa4" + string(r.below(50), '!') : strf("reason %d", (int)r.below(1000))) : "";
    if (text && r.onein(12)) t = string(6000, 't');
    string cond = string("<") + se.name + " xmlns='" NS_STREAMS_IETF "'" + (string(se.name) == "see-other-host" ? ">other.example.net:9222</see-other-host>" : "/>");
    string tx = text ? "<text xmlns='" NS_STREAMS_IETF "'" + string(r.onein(2) ? " xml:lang='en'" : "") + ">" + xml_escape(t, false) + "</text>" : "";
    string app = r.onein(3) ? "<escape-your-data xmlns='urn:app'/>" : "";
    if (r.onein(6)) app = "<conflict xmlns='urn:app'/>"; // not the condition
    string body = r.onein(3) ? tx + cond + app : cond + tx + app;
    string err = "<stream:error>" + body + "</stream:error>";
    static const char *stages[] = {"features", "proceed", "success", "bind", "up", "up"};
    string st = stages[r.below(6)];
    if (g.component) st = r.onein(2) ? "handshake" : "up";
    int end = (int)r.below(4); // close+fin, fin, rst..., nothing
    string tail = end <= 1 ? "</stream:stream>" : "";
    bool sent = false;
    auto after = [&, end](XPeer &p) { if (end == 0 || end == 2) p.fin(); };
    s.hooks();
    w.srv.mangle = [&](XPeer &p, const string &stage, string &xml) {
        if (sent) return true;
        if (stage == st) { sent = true; xml = ""; XPeer *pp = &p; p.outq.push_back({sim::now_ms, err + tail, [pp, after] { after(*pp); }, "error"}); return false; }
        return true;
    };
    if (s.start() != XMPP_EOK) { c.viol("refused", "connect refused"); return; }
    step_until(w, 4000, [&] { return s.k->up || sent || !s.k->open; });
    XPeer *p = w.peer();
    if (!sent && s.k->up && p) { sent = true; w.srv.mangle = nullptr; p->tx("error", err + tail, [p, after] { after(*p); }); st = "up"; }
    if (!sent) { stat_add("stage_not_reached"); return; }
    w.srv.conf.close_reply = r.onein(2);
    bool ended = step_until(w, 500, [&] { return !s.k->open; });
    if (!ended) { s.k->disconnect(); ended = step_until(w, 2600, [&] { return !s.k->open; }); }
    if (!ended) { c.viol("never-ends", "after a stream error"); return; }
    stat_add("stream_errors");
    string what = strf("%s at stage %s, end %d", se.name, st.c_str(), end);
    if (!s.k->se_seen) c.viol("stream-error/not-reported", what);
    else {
        if (s.k->se_type != se.type) c.viol("stream-error/condition", strf("%s: type %d reported, %d expected", what.c_str(), s.k->se_type, se.type));
        if (text && (!s.k->se_has_text || s.k->se_text != t)) c.viol("stream-error/text", what + ": text '" + vis(s.k->se_text, 80) + "' reported, sent '" + vis(t, 80) + "'");
        if (!text && s.k->se_has_text && !s.k->se_text.empty()) c.viol("stream-error/text", what + ": text reported although none was sent");
    }
    c.nontrivial = true;
    c.mixsig(what + t + body);
    // a later connection does not report it again
    w.srv.mangle = nullptr;
    if (s.start() != XMPP_EOK) { c.viol("cannot-reconnect", what); return; }
    step_until(w, 4000, [&] { return s.k->up || !s.k->open; });
    if (!s.k->up) { c.viol("reconnect-fails", what); return; }
    s.end_attempt();
    for (size_t i = w.tr.size(); i-- > 0;) if (w.tr[i].k == Ev::TX && w.tr[i].stage == "error" && w.tr[i].t >= s.k->t_up) return; // the server sent another one
    if (s.k->se_seen) c.viol("stream-error/stale", what + ": reported again for a connection on which none was sent");
}

// ---------------------------------------------------------------- ends
void ends(Case &c)
{
    World w(c);
    w.report = true;
    ScenOpt o;
    o.allow_cert = false;
    Scen s(w, o);
    Rng &r = s.r;
    ConnCfg &g = s.next_cfg();
    s.make_good(g);
    g.srv.tls_notify = r.onein(2);
    net_policy(w, r.chance(60) ? NET_PLAIN : (int)r.below(3), NET_PLAIN);
    if (s.start() != XMPP_EOK) { c.viol("refused", "connect refused"); return; }
    bool early = r.onein(3);
    if (early) w.run((int)r.below(40), [&] { return w.peers.size() && s.k->up; }, 1);
    else { step_until(w, 20000, [&] { return s.k->up || !s.k->open; }, 1); if (s.k->up) s.drive(80); }
    if (!s.k->open || (!early && !s.k->up)) { c.viol("never-connected", "clean connection"); return; }
    lockstep(w, false);
    XPeer *p = w.peer();
    unsigned long tmo = 1 + r.below(r.onein(2) ? 10 : 300);
    int kind = (int)r.below(12), err = (int[]){EPIPE, ETIMEDOUT, ECONNRESET, EHOSTUNREACH}[r.below(4)];
    if (kind > 8 && early) kind -= 3;
    static const char *names[] = {"fin", "rst", "close+fin", "close only", "disconnect replied", "disconnect not replied", "disconnect, peer not reading", "disconnect twice, not replied", "release", "write error", "disconnect with write error", "read error"};
    if (!p || (!p->tls_up && (p->tls || early))) { if (kind == 2 || kind == 3) kind = 1; }
    if (!p) kind = 8;
    s.k->on_event = nullptr;
    u64 t0 = sim::now_ms, lo = 0, hi = 200;
    bool stream = p && p->headers > 0;
    switch (kind) {
    case 0: p->outq.clear(); p->fin(); hi = 200 + tmo; break;
    case 1: p->outq.clear(); p->rst(); hi = 200 + tmo; break;
    case 2: w.srv.conf.close_reply = false; p->tx("close", "</stream:stream>", [p] { p->fin(); }); hi = 2100 + tmo; break;
    case 3: w.srv.conf.close_reply = false; p->close_stream(); hi = 2100 + tmo; break;
    case 4: s.k->disconnect(); hi = early ? 2100 + tmo : 500 + tmo; break;
    case 5: w.srv.conf.close_reply = false; s.k->disconnect(); lo = 2000; hi = 2060 + tmo; break;
    case 6: sim::policy.on_send = [](sim::VSock *, size_t) { return 0; }; w.srv.conf.close_reply = false; s.k->disconnect(); lo = 2000; hi = 2060 + tmo; break;
    case 7: w.srv.conf.close_reply = false; s.k->disconnect(); w.run_ms(r.below(1900), tmo); s.k->disconnect(); lo = 2000; hi = 2060 + tmo; break;
    case 8: s.k->release(); break;
    // only one direction reports the loss
    case 9: case 10:
        p->outq.clear();
        sim::policy.on_send = [err](sim::VSock *, size_t) { return -err; };
        if (kind == 9) s.user_send(r.onein(2)); else s.k->disconnect();
        hi = 200 + tmo;
        break;
    case 11:
        sim::policy.on_recv = [err](sim::VSock *, size_t) { return -err; };
        p->raw(" ");
        hi = 200 + tmo;
        break;
    }
    stat_add(("end_" + string(names[kind])).c_str());
    if (kind != 8) {
        // while TCP is still being established there is no stream to close
        bool tcp = w.peers.size() > 0;
        if (!tcp) lo = 0;
        // traffic does not move the deadline
        bool chatter = r.onein(3) && kind >= 3 && p && stream && !early;
        u64 guard = sim::now_ms + 8000;
        u64 nx = 0;
        if (p && p->tls) hi += 1000; // the TLS shutdown waits for the peer as well
        while (s.k->open && sim::now_ms < guard) {
            if (chatter && sim::now_ms >= nx && !p->gone && !p->closed_stream) { nx = sim::now_ms + 100; if (kind != 3 && (!p->tls || p->tls_up)) p->raw("<message from='x@example.org'/>"); }
            w.once(tmo);
        }
        u64 e = s.k->t_down - t0;
        string what = strf("%s%s (loop timeout %lu)", early ? "during negotiation: " : "", names[kind], tmo);
        if (s.k->open) c.viol("never-ends", what);
        else if (e < lo && tcp && !early) c.viol("close-gave-up-early", strf("%s: ended after %llu ms", what.c_str(), (unsigned long long)e));
        else if (e > hi && !(early && e < 17000 && kind < 4)) c.viol("close-gave-up-late", strf("%s: ended after %llu ms", what.c_str(), (unsigned long long)e));
        else stat_add("ends_in_time");
        // and nothing more
        int d = s.k->disconnects;
        for (int i = 0; i < 30; i++) w.once(1000);
        if (s.k->disconnects != d) c.viol("lifecycle/two-disconnects", what);
    }
    c.nontrivial = true;
    c.mixsig((u64)kind * 1000 + early * 500 + tmo + (u64)g.flags * 100000);
}
void all_flags(Case &c)
{
    World w(c);
    Client &k = w.client();
    Rng r(1);
    for (int m = 0; m < 256; m++) {
        long f = 0;
        for (int i = 0; i < 8; i++) if (m >> i & 1) f |= ALLF[i];
        int rc = xmpp_conn_set_flags(k.conn, f);
        bool conflict = (f & XMPP_CONN_FLAG_DISABLE_TLS) && (f & (XMPP_CONN_FLAG_MANDATORY_TLS | XMPP_CONN_FLAG_LEGACY_SSL | XMPP_CONN_FLAG_TRUST_TLS));
        if (rc == XMPP_EOK && xmpp_conn_get_flags(k.conn) != f) c.viol("flags/read-back", strf("%ld accepted, %ld read back", f, xmpp_conn_get_flags(k.conn)));
        if (rc != XMPP_EOK && !conflict) c.viol("flags/refused-offline", strf("%ld", f));
        stat_add("flag_sets");
    }
    c.nontrivial = true;
    (void)r;
}
} // namespace

PROP(C13)
{
    if (c.k == 0) { all_flags(c); return; }
    switch (c.k % 8) {
    case 0: case 1: case 2: chaos(c); break;
    case 3: tcp(c); break;
    case 4: waits(c); break;
    case 5: ends(c); break;
    case 6: waits(c); break;
    case 7: stream_errors(c); break;
    }
}
