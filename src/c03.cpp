// C03 negotiation order and offers, C02 credential policy: trace rules over random negotiations.
#include "scen.h"

static void scenario(Case &c, int what)
{
    World w(c);
    ScenOpt o;
    if (what == 2) { o.tls_pct = 70; o.allow_component = false; o.max_conns = 2; }
    Scen s(w, o);
    if (s.r.chance(80)) s.add_handlers();
    int n = 1 + (int)s.r.below(o.max_conns);
    string never;
    for (int i = 0; i < n; i++) {
        ConnCfg &g = s.next_cfg();
        net_policy(w, (int)s.r.below(4), s.r.chance(60) ? NET_PLAIN : (int)s.r.below(4));
        if (s.r.onein(6)) s.user_send();
        if (s.start() != XMPP_EOK) { stat_add("connect_refused"); continue; }
        bool up = s.drive(4000);
        if (g.expect_up) {
            stat_add("must_come_up");
            if (!up && what == 3) never = strf("attempt %d should have come up: jid %s flags %ld", i, g.jid.c_str(), g.flags);
        }
        stat_add(up ? "attempts_up" : "attempts_not_up");
        stat_add("attempts");
        s.end_attempt();
        if (s.k->open) { c.viol(what == 3 ? "stuck" : "harness-stuck", "the connection could not be ended"); break; }
    }
    judge_negotiation(s, what);
    if (!never.empty()) c.viol("never-connected", never);
    stat_add("connections", w.peers.size());
    c.nontrivial = w.tr.size() > 6;
    if (c.k < 3) c.sample = w.show(1500);
}

// the user submits raw text while the stream is being negotiated
static void raw_case(Case &c)
{
    World w(c);
    ScenOpt o;
    o.hostile_pct = 0;
    Scen s(w, o);
    ConnCfg &g = s.next_cfg();
    if (s.start() != XMPP_EOK) return;
    for (int i = 0; i < 600 && s.k->open && !s.k->up; i++) {
        if (s.r.onein(10)) s.user_send(true);
        w.once(1);
    }
    s.end_attempt();
    // what it does to the rest of the negotiation is the server's business
    for (auto &e : w.tr) {
        if (e.k == Ev::CONN && e.a == XMPP_CONN_CONNECT) break;
        if (e.k == Ev::RX && e.e.attr("id").compare(0, 5, "USER-") == 0) { c.viol("send-raw-before-negotiation", "xmpp_send_raw text reached the wire before the negotiation was complete"); break; }
    }
    stat_add("raw_cases");
    c.nontrivial = true;
    c.mixsig(g.jid);
}

PROP(C03)
{
    if (c.k % 100 == 7) { raw_case(c); return; }
    scenario(c, 3);
}
PROP(C02)
{
    scenario(c, 2);
}
