// C06: send queue.
#include "qmon.h"
#include <cerrno>

// how the transport takes bytes
static void out_profile(World &w, Rng &r0, int kind)
{
    auto r = std::make_shared<Rng>(r0.next());
    auto st = std::make_shared<int>(0);
    (void)w;
    switch (kind) {
    case 0: sim::policy.on_send = nullptr; break;
    case 1: sim::policy.on_send = [r](sim::VSock *, size_t n) -> int { return (int)(1 + r->below(n < 50 ? n : 50)); }; break;
    case 2: // refusals of all kinds
        sim::policy.on_send = [r](sim::VSock *, size_t n) -> int { switch (r->below(4)) { case 0: return 0; case 1: return -EINTR; case 2: return (int)(1 + r->below(n)); default: return (int)n; } };
        break;
    case 3: // blocked for a while, then open
        sim::policy.on_send = [r, st](sim::VSock *, size_t n) -> int { if (*st > 0) { --*st; return 0; } if (r->onein(5)) *st = (int)r->below(30); return (int)(r->onein(3) ? 1 + r->below(n) : n); };
        break;
    case 4: // one byte less than asked
        sim::policy.on_send = [r](sim::VSock *, size_t n) -> int { return n > 1 && !r->onein(4) ? (int)n - 1 : (int)n; };
        break;
    case 5: // a window that fills
        sim::policy.on_send = [r, st](sim::VSock *, size_t n) -> int { if (*st <= 0) { *st = (int)r->below(5000); return 0; } int k = (int)std::min((size_t)*st, n); *st -= k; return k; };
        break;
    case 6: sim::policy.on_send = [r](sim::VSock *, size_t n) -> int { return r->onein(3) ? (int)n : 1; }; break;
    default: // never
        sim::policy.on_send = [](sim::VSock *, size_t) -> int { return 0; };
    }
}

PROP(C06)
{
    World w(c);
    w.report = false;
    Rng &r = c.rng;
    sim::spin_limit = 3000000;
    ScenOpt o;
    o.hostile_pct = 0;
    o.tls_pct = 45;
    o.user_load = false;
    o.bad_certs = false;
    Scen s(w, o);
    // now and then a raw connection: nothing but the user's bytes
    bool raw = r.onein(10);
    ConnCfg *g = nullptr;
    if (!raw) {
        g = &s.next_cfg();
        if (!g->component) g->flags &= ~(XMPP_CONN_FLAG_MANDATORY_TLS);
        s.make_good(*g);
        g->srv.sm = g->srv.sm || r.onein(3);
        g->srv.iter = 1;
        xmpp_conn_set_flags(s.k->conn, g->flags);
    }
    bool nego_pressure = r.onein(3);
    int prof = (int)r.below(7);
    if (nego_pressure) { net_policy(w, r.onein(2) ? NET_PLAIN : NET_CHUNKY, NET_PLAIN); out_profile(w, r, prof == 7 ? 1 : prof); }
    lockstep(w, !nego_pressure);
    vector<std::unique_ptr<QMon>> mons;
    w.on_plain = [&](int no, const string &b) { for (auto &m : mons) if (m->active && m->p && m->p->no == no) m->rx(b); };
    auto bring = [&](Client *k, const char *tag) -> bool {
        s.k = k;
        if (raw) {
            k->set("alice@example.org", "pw", 0);
            if (k->connect_raw("srv.example.net")) { c.viol("connect", "xmpp_connect_raw failed"); return false; }
            w.until_ms(5000, [&] { return k->up || !k->open; }, 2);
        } else {
            if (s.start()) { c.viol("connect", "connect failed"); return false; }
            w.until_ms(60000, [&] { return k->up || !k->open; }, 2);
        }
        if (!k->up) { c.viol("never-connected", string("the connection did not come up") + (nego_pressure ? " under back-pressure" : "")); return false; }
        // what is left of the negotiation
        for (int i = 0; i < 400 && !w.peer()->outq.empty(); i++) w.once(1);
        for (int i = 0; i < 30; i++) w.once(1);
        if (!k->up) { c.viol("never-connected", "the connection went down right away"); return false; }
        mons.emplace_back(new QMon(w, k, tag));
        QMon &m = *mons.back();
        m.sm = w.peer()->sm_on;
        XPeer *p = w.peer();
        QMon *mp = &m;
        int mode = (int)r.below(3);
        m.on_r = [this_ = mp, p, mode, &r] { if (mode == 0 || (mode == 1 && r.onein(2))) p->tx("a", "<a xmlns='" NS_SM "' h='" + std::to_string(this_->user_done + (p->sm ? p->sm->h : 0)) + "'/>"); };
        m.deep = r.onein(2);
        m.attach();
        if (m.comp) stat_add("compressed_connections");
        if (p->tls_up) stat_add("tls_connections");
        if (m.sm) stat_add("sm_connections");
        return true;
    };
    lockstep(w, !nego_pressure);
    if (raw) s.k->set("alice@example.org", "pw", 0);
    if (!bring(s.k, "U")) return;
    if (r.onein(4)) {
        Client *k2 = &w.client();
        if (!raw) { k2->set(g->jid, g->pass, g->flags); xmpp_conn_set_cafile(k2->conn, ca_file().c_str()); }
        if (raw || (!g->component && !g->cert)) { if (!bring(k2, "V")) return; stat_add("two_connections"); }
    }
    lockstep(w, false);
    int phases = 1 + (int)r.below(4);
    for (int ph = 0; ph < phases && !c.violated; ph++) {
        int pf = r.onein(8) ? 7 : (int)r.below(7);
        out_profile(w, r, pf);
        sim::policy.wfd_blocked = r.onein(6);
        int steps = 10 + (int)r.below(pf == 7 ? 30 : 120);
        int load = 5 + (int)r.below(60);
        for (int i = 0; i < steps && !c.violated; i++) {
            QMon &m = *mons[r.below(mons.size())];
            if (r.chance(load)) m.send();
            if (r.onein(15)) for (int j = (int)r.below(12); j-- > 0;) m.send();
            if (r.onein(8)) m.drop();
            if (r.onein(40)) for (int j = (int)r.below(10); j-- > 0;) m.drop();
            if (r.onein(10) && m.p && !m.p->gone) m.p->tx("x", r.onein(2) && m.sm ? "<r xmlns='" NS_SM "'/>" : raw ? " " : "<message id='in'/>");
            if (r.chance(75)) { w.once(1); for (auto &x : mons) { if (!x->k->up) { c.viol("ended", "the connection ended by itself"); return; } x->observe("iteration", true); } }
        }
        if (r.onein(3) && !c.violated) {
            // everything goes out
            out_profile(w, r, r.onein(2) ? 0 : 4);
            sim::policy.wfd_blocked = false;
            for (auto &x : mons) x->deep = false;
            size_t done = 0;
            for (int i = 0, idle = 0; i < 60000 && idle < 60 && !c.violated; i++) {
                w.once(1);
                size_t n = 0;
                for (auto &x : mons) { n += x->user_done + (size_t)xmpp_conn_send_queue_len(x->k->conn) * 1000003 + x->off + x->cur; x->observe("drain", true); }
                idle = n == done ? idle + 1 : 0;
                done = n;
            }
            for (auto &x : mons) { if (!x->k->up) { c.viol("ended", "the connection ended by itself"); return; } x->finish(); x->deep = r.onein(2); }
        }
    }
    if (c.violated) return;
    sim::policy.wfd_blocked = false;
    for (auto &x : mons) x->deep = false;
    // the end
    int how = (int)r.below(3);
    if (how == 0) {
        // everything that was queued goes out before the stream is closed
        out_profile(w, r, r.onein(2) ? 0 : 1);
        for (auto &x : mons) {
            x->observe("end");
            x->closing = true;
            xmpp_disconnect(x->k->conn);
            x->lib(QMon::LIB_CLOSE, "</stream:stream>");
        }
        out_profile(w, r, 0);
        w.until_ms(8000, [&] { for (auto &x : mons) if (x->k->open) return false; return true; }, 20);
        for (auto &x : mons) { if (x->k->open) { c.viol("stuck", "the connection does not end"); return; } w.run_ms(5, 1); x->finish(); }
        stat_add("orderly_ends");
    } else {
        out_profile(w, r, 7);
        for (auto &x : mons) { for (int j = (int)r.below(8); j-- > 0;) x->send(); }
        if (r.onein(2)) { w.once(1); for (auto &x : mons) x->observe("end", false); }
        for (auto &x : mons) { x->observe("end"); if (how == 1) x->p->rst(); else x->p->fin(); }
        for (auto &x : mons) { // nothing that happens now changes what is waiting
            w.until_ms(8000, [&] { return !x->k->open; }, 5);
            if (x->k->open) { xmpp_disconnect(x->k->conn); w.until_ms(8000, [&] { return !x->k->open; }, 20); }
            x->dead();
        }
        stat_add("abrupt_ends");
    }
    u64 sg = 0;
    for (auto &x : mons) { c.mixsig(x->sends * 1000003 + x->drops * 7919 + x->user_done * 31 + x->max_len); sg += x->sends; }
    c.mixsig((u64)prof * 100 + (u64)phases);
    c.nontrivial = sg > 5;
    if (c.k < 4) { string t; for (auto &x : mons) { t += strf("%s: %llu sends, %llu drops, %llu complete on the wire, longest queue %zu\n", x->tag.c_str(), (unsigned long long)x->sends, (unsigned long long)x->drops, (unsigned long long)x->user_done, x->max_len); for (size_t i = 0; i < x->els.size() && i < 6; i++) t += strf(" %s %s\n", x->els[i].dropped ? "dropped" : x->els[i].done ? "sent" : "queued", vis(x->els[i].text, 60).c_str()); } c.sample = t; }
}
