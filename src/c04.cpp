// C04 outbound, C05 inbound stream management.
#include "smlab.h"

static void lab(Case &c, bool out)
{
    SmLab l(c);
    Rng &r = l.r;
    l.j_out = out;
    l.j_in = !out;
    l.j_blob = r.chance(out ? 75 : 40);
    l.j_complete = out && l.j_blob && r.onein(2);
    l.reply_in_handler = r.onein(3);
    l.bad_acks = out && r.onein(2);
    sim::spin_limit = 2000000;
    l.config();
    l.handlers();
    World &w = l.w;
    // half of the cases: the counters start near the wrap-around, from a restored state
    if (r.onein(4)) {
        SmBlob b;
        u32 top = r.onein(2) ? 0xFFFFFFFFu - (u32)r.below(6) : 0x7FFFFFFFu - (u32)r.below(4) + (u32)r.below(6);
        b.sent = top;
        b.handled = r.onein(2) ? 0xFFFFFFFFu - (u32)r.below(4) : (u32)r.below(1000);
        b.id = "sess-restored";
        int n = (int)r.below(5), done = (int)r.below(n + 1);
        l.sessions.emplace_back();
        SmLab::Sess &ss = l.sessions.back();
        ss.id = b.id;
        ss.resumable = true;
        ss.base = b.sent - (u32)n;
        ss.acked = ss.base;
        for (int i = 0; i < n; i++) {
            size_t x = l.subs.size();
            l.subs.emplace_back();
            auto &u = l.subs[x];
            u.id = strf("S-%llu", (unsigned long long)++l.nsub);
            u.text = "<message id=\"" + u.id + "\"><body>restored</body></message>";
            u.ever = true;
            u.conn = -2;
            l.by_id[u.id] = x;
            b.unacked.push_back({ss.base + (u32)i, u.text});
            if (i < done) { ss.got.push_back(x); ss.got_raw.push_back(u.text); }
        }
        l.dispatched = b.handled;
        l.dispatched_known = true;
        string bl = b.build();
        if (xmpp_conn_restore_sm_state(l.k->conn, (const unsigned char *)bl.data(), bl.size()) != XMPP_EOK) { c.viol("restore-refused", "a valid state was refused"); return; }
        stat_add("wraparound_cases");
    }
    int conns = 2 + (int)r.below(4);
    for (int n = 0; n < conns && !c.violated; n++) {
        int in = r.chance(60) ? NET_PLAIN : (int)r.below(4), outm = r.chance(50) ? NET_PLAIN : (int)r.below(4);
        net_policy(w, in, outm);
        static const SmLab::ResumeMode ms[] = {SmLab::RES_OK, SmLab::RES_OK, SmLab::RES_OK, SmLab::RES_OK, SmLab::RES_FAIL, SmLab::RES_FAIL_H, SmLab::RES_FAIL_H_LESS, SmLab::RES_FAIL_FNI, SmLab::RES_FAIL_EMPTY};
        l.resume_mode = ms[r.below(9)];
        if (!l.begin(!r.onein(15), !r.onein(8), r.onein(5) ? (int)r.below(400) : -1)) {
            if (!l.aborted) return;
            l.cut();
            if (r.onein(6) && !c.violated) l.move(0);
            continue;
        }
        int rmode = (int)r.below(4);
        l.on_r = [&r, rmode] { return rmode == 0 ? 0 : rmode == 1 ? (int)r.below(2) : rmode == 2 ? 1 : 0; };
        l.handle_all = r.chance(60);
        // right after the negotiation: retransmissions are still in the queue
        bool early_cut = r.onein(4);
        int steps = early_cut ? (int)r.below(6) : (int)r.below(120);
        for (int i = 0; i < steps && l.k->open; i++) {
            if (r.chance(out ? 45 : 12)) l.submit();
            if (out && r.onein(12)) for (int j = 0; j < 8; j++) l.submit();
            if (r.chance(out ? 8 : 40)) l.inbound();
            if (!l.handle_all && r.onein(4)) l.process(1 + r.below(4));
            if (r.onein(14)) l.ack();
            if (out && r.onein(20)) l.drop_some();
            if (r.chance(70)) { w.once(1); l.track(); }
            if (r.onein(50)) { net_policy(w, NET_PLAIN, NET_PLAIN); l.settle(); l.check_quiescent("mid"); net_policy(w, in, outm); }
            if (c.violated) return;
        }
        if (!early_cut && r.chance(75)) {
            net_policy(w, NET_PLAIN, NET_PLAIN);
            l.settle();
            l.check_quiescent("end");
            if (r.onein(2)) { for (int i = 0; i < (int)r.below(10); i++) { l.submit(); if (r.onein(2)) w.once(1); } l.track(); }
        }
        if (!l.k->open) { c.viol("ended", "the connection ended by itself"); return; }
        c.mixsig((u64)l.wire.size() * 131 + l.acks_due.size() * 7 + (l.cur ? l.cur->got.size() : 0) + (u64)l.resume_mode * 1000003);
        l.cut();
        if (r.onein(4) && !c.violated) l.move(l.j_blob && r.onein(2) ? 1 : 0);
        stat_add("connections");
    }
    c.nontrivial = l.subs.size() + l.in_serial > 3;
    if (c.k < 3) c.sample = w.show(1500);
}
PROP(C04) { lab(c, true); }
PROP(C05) { lab(c, false); }
