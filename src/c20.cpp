// C20: stream compression.
#include "gen.h"
#include "qmon.h"

static void *zal(void *, unsigned a, unsigned b) { return calloc(a, b); }
static void zfr(void *, void *p) { free(p); }

struct Inbound {                // what the client parses against what was deflated
    Case &c;
    XPeer *p;
    z_stream z;
    StreamParser sp;
    bool zend = false, bad = false, closed = false, corrupt = false;
    std::deque<string> expect;
    u64 delivered = 0, plain = 0, wirebytes = 0;
    bool on = false;
    Inbound(Case &c, XPeer *p) : c(c), p(p) { memset(&z, 0, sizeof z); z.zalloc = zal; z.zfree = zfr; inflateInit(&z); }
    ~Inbound() { inflateEnd(&z); }
    void bytes(const string &b)
    {
        wirebytes += b.size();
        if (zend || bad) return;
        z.next_in = (Bytef *)b.data();
        z.avail_in = (uInt)b.size();
        for (;;) {
            char buf[8192];
            z.next_out = (Bytef *)buf;
            z.avail_out = sizeof buf;
            int r = inflate(&z, Z_SYNC_FLUSH);
            size_t n = sizeof buf - z.avail_out;
            plain += n;
            if (n && !bad && !closed) for (auto &x : sp.feed(string(buf, n))) {
                if (x.k == StreamEvent::ELEM) { x.e.raw.clear(); normalise(x.e); expect.push_back(x.e.canon()); }
                else if (x.k == StreamEvent::ERR) bad = true;
                else if (x.k == StreamEvent::CLOSE) closed = true;
            }
            if (r == Z_STREAM_END || (r != Z_OK && r != Z_BUF_ERROR)) { zend = true; return; }
            if (!n && (!z.avail_in || r == Z_BUF_ERROR)) return;
        }
    }
};
static int in_handler(xmpp_conn_t *, xmpp_stanza_t *st, void *ud)
{
    Inbound *m = (Inbound *)ud;
    if (!m->on) return 1;
    Elem e = read_stanza(st);
    string got = e.canon();
    if (m->expect.empty()) { m->c.viol("in/unexpected", "the client parsed a stanza nobody sent: " + vis(got, 300)); m->on = false; return 1; }
    // (libxml2's push parser leaves literal carriage returns in CDATA sections alone; only corrupted data has them)
    if (got != m->expect.front() && m->corrupt && m->expect.front().find('\r') != string::npos) { m->on = false; return 1; }
    if (got != m->expect.front()) { m->c.viol("in/differs", "the client parsed " + vis(got, 300) + " the server deflated " + vis(m->expect.front(), 300)); m->on = false; return 1; }
    m->expect.pop_front();
    m->delivered++;
    stat_add("stanzas_in");
    return 1;
}
static string in_stanza(Rng &r, u64 n)
{
    string body;
    switch (r.below(10)) {
    case 0: body = string(r.below(300000), (char)('a' + r.below(26))); break;                    // much more than the buffers
    case 1: for (int i = 3000 + (int)r.below(9000); i-- > 0;) body += (char)('!' + 14 + r.below(70)); for (auto &x : body) if (x == '<' || x == '&' || x == '>') x = '.'; break; // incompressible
    case 2: for (int i = (int)r.below(800); i-- > 0;) body += "the same again "; break;
    case 3: body = string(4096 - r.below(300), 'k'); break;
    default: body = write_text(r, gen_text(r, 40, false));
    }
    return strf("<message id='in%llu' from='bob@example.org'><body>", (unsigned long long)n) + body + "</body></message>";
}

PROP(C20)
{
    World w(c);
    w.report = false;
    Rng &r = c.rng;
    sim::spin_limit = 6000000;
    ScenOpt o;
    o.hostile_pct = 0;
    o.tls_pct = 40;
    o.user_load = false;
    o.bad_certs = false;
    o.allow_component = false;
    o.sm_pct = 40;
    Scen s(w, o);
    ConnCfg &g = s.next_cfg();
    g.flags &= ~XMPP_CONN_FLAG_MANDATORY_TLS;
    g.flags |= XMPP_CONN_FLAG_ENABLE_COMPRESSION;
    s.make_good(g);
    g.srv.iter = 1;
    g.srv.comp = true;
    g.srv.comp_methods = r.onein(3) ? "<method>lzw</method><method>zlib</method>" : "<method>zlib</method>";
    g.srv.zlevel = (int)r.below(10);
    static const int fl[] = {Z_SYNC_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH};
    g.srv.zflush = fl[r.below(4)];
    // how the server reacts to the request
    enum { CONFIRM, LATE, REFUSE, SILENT, WRONG_NS, NOT_OFFERED, NOT_ALLOWED } mode = CONFIRM;
    if (r.onein(5)) mode = (decltype(mode))(1 + r.below(6));
    if (mode == NOT_OFFERED) { static const char *other[] = {"<method>lzw</method>", "", "<method>zli</method>", "<method>zlib2</method>", "<method>x-zlib</method><method>lzw</method>", "<method>zlix</method>", "<method/>", "<x xmlns='urn:x'>zlib</x>"}; g.srv.comp_methods = other[r.below(8)]; }
    if (mode == NOT_ALLOWED) g.flags &= ~XMPP_CONN_FLAG_ENABLE_COMPRESSION;
    xmpp_conn_set_flags(s.k->conn, g.flags);
    bool expect_comp = mode == CONFIRM || mode == LATE;
    int rounds = r.onein(4) && expect_comp ? 2 : 1;
    for (int round = 0; round < rounds && !c.violated; round++) {
        size_t tr0 = w.tr.size();
        std::unique_ptr<Inbound> in;
        vector<std::unique_ptr<QMon>> mons;
        bool frag = r.onein(2);
        int corrupt_at = -1;
        auto fr = std::make_shared<Rng>(r.next());
        w.comp_hook = [&](XPeer &p, string &b) {
            if (!p.comp) return;
            if (!in || in->p != &p) in.reset(new Inbound(c, &p));
            if (corrupt_at >= 0 && in->on && !b.empty()) { if (corrupt_at-- == 0) { in->corrupt = true; b = corrupt_bytes(*fr, b); for (auto &m : mons) m->skip = true; stat_add("corrupted"); } }
            in->bytes(b);
            if (frag && p.tls_up && b.size() > 1 && p.ssl) {
                // several TLS records
                size_t at = 0;
                while (b.size() - at > 1 && fr->below(4)) { size_t n = 1 + fr->below(b.size() - at - 1); SSL_write(p.ssl, b.data() + at, (int)n); p.tls_flush(); at += n; }
                b.erase(0, at);
            }
        };
        w.on_plain = [&](int no, const string &b) { for (auto &m : mons) if (m->active && m->p && m->p->no == no) m->rx(b); };
        w.srv.delay_hook = [&](XPeer &, const string &st) -> u64 { return st == "compressed" && mode == LATE ? 1 + r.below(4000) : 0; };
        if (s.start()) { c.viol("connect", "connect failed"); return; }
        w.srv.intercept = [&](XPeer &p, const Elem &e) {
            if (e.name != "compress" || e.ns != NS_COMP) return false;
            stat_add("compress_requests");
            switch (mode) {
            case REFUSE: p.tx("compress-failure", "<failure xmlns='" NS_COMP "'><setup-failed/></failure>"); return true;
            case SILENT: return true;
            case WRONG_NS: p.tx("compress-odd", r.onein(2) ? "<compressed xmlns='urn:other'/>" : "<message><compressed xmlns='urn:x'/></message>"); return true;
            default: return false;
            }
        };
        int nin = r.onein(3) ? NET_CHUNKY : NET_PLAIN, nout = r.onein(3) ? NET_CHUNKY : NET_PLAIN;
        net_policy(w, nin, nout);
        lockstep(w, r.onein(2));
        w.until_ms(mode == SILENT || mode == WRONG_NS || mode == REFUSE ? 3000 : 60000, [&] { return s.k->up || !s.k->open; }, 2);
        // only plain bytes before the confirmation, a new stream right after it
        bool asked = false, comp_seen = false, header_after = false;
        for (size_t i = tr0; i < w.tr.size(); i++) {
            Ev &e = w.tr[i];
            if (e.k == Ev::RX_BAD) c.viol("negotiation/bytes", "the server cannot read the client's bytes (compression " + string(comp_seen ? "confirmed" : "not confirmed") + "): " + vis(e.s, 200));
            if (e.k == Ev::RX && e.e.name == "compress" && e.e.ns == NS_COMP) {
                if (asked) c.viol("negotiation/twice", "compression was requested twice");
                asked = true;
                const Elem *m = e.e.child("method", NS_COMP);
                if (!m || m->alltext() != "zlib") c.viol("negotiation/method", "the request does not name zlib: " + vis(e.s, 200));
            } else if (asked && !comp_seen && (e.k == Ev::RX || e.k == Ev::RX_HEADER) && (mode == CONFIRM || mode == LATE)) c.viol("negotiation/early", "bytes between the request and the confirmation: " + vis(e.s, 200));
            if (e.k == Ev::COMP_UP) comp_seen = true;
            if (comp_seen && e.k == Ev::RX_HEADER) header_after = true;
            if (comp_seen && !header_after && e.k == Ev::RX) c.viol("negotiation/no-restart", "no stream restart after compression started: " + vis(e.s, 200));
        }
        if (c.violated) return;
        if (!expect_comp) {
            if ((mode == NOT_OFFERED || mode == NOT_ALLOWED) && asked) c.viol("negotiation/request", "compression requested although it was not offered or not allowed");
            if (comp_seen) { if (!c.violated) c.viol("harness", "compression without confirmation"); return; }
            if (mode == NOT_OFFERED || mode == NOT_ALLOWED) { if (!s.k->up) { c.viol("never-connected", "the connection without compression did not come up"); return; } stat_add("without_compression"); }
            else stat_add("unconfirmed");
            if (!s.k->up && s.k->open) { xmpp_disconnect(s.k->conn); w.until_ms(8000, [&] { return !s.k->open; }, 20); for (size_t i = tr0; i < w.tr.size(); i++) if (w.tr[i].k == Ev::RX_BAD) c.viol("negotiation/bytes", "the server cannot read the client's bytes (compression not confirmed): " + vis(w.tr[i].s, 200)); }
            if (!s.k->up) { c.nontrivial = asked; c.mixsig((u64)mode * 77 + r.below(1000)); return; }
        } else if (!s.k->up) { c.viol("never-connected", strf("the compressed connection did not come up (reads %d writes %d)", nin, nout)); return; }
        XPeer *p = w.peer();
        if (expect_comp && !p->comp) { c.viol("negotiation/none", "the connection is up without compression although it was offered and enabled"); return; }
        for (int i = 0; i < 400 && !p->outq.empty(); i++) w.once(1);
        net_policy(w, NET_PLAIN, NET_PLAIN);
        for (int i = 0; i < 400; i++) w.once(1);
        if (!s.k->up) { c.viol("ended", "the connection went down right away"); return; }
        lockstep(w, false);
        stat_add(p->tls_up ? "tls_connections" : "plain_connections");
        if (p->comp) stat_add("compressed_connections");
        if (in) { in->expect.clear(); in->on = true; xmpp_handler_add(s.k->conn, in_handler, nullptr, nullptr, nullptr, in.get()); }
        mons.emplace_back(new QMon(w, s.k, "U"));
        QMon &m = *mons.back();
        m.sm = p->sm_on;
        QMon *mp = &m;
        m.on_r = [mp, p, &r] { if (r.onein(2)) p->tx("a", "<a xmlns='" NS_SM "' h='" + std::to_string(mp->user_done + (p->sm ? p->sm->h : 0)) + "'/>"); };
        m.deep = r.onein(3);
        m.big = r.onein(2);
        m.attach();
        int phases = 1 + (int)r.below(3);
        u64 seq = 0;
        bool dead = false;
        bool hostile = expect_comp && r.onein(8);
        for (int ph = 0; ph < phases && !c.violated && !dead; ph++) {
            int pin = (int)r.below(4), pout = (int)r.below(4);
            if (pin == NET_BYTES && !r.onein(4)) pin = NET_CHUNKY;
            net_policy(w, pin, pout);
            int steps = 10 + (int)r.below(80), load = 5 + (int)r.below(70), iload = 3 + (int)r.below(40);
            if (hostile && ph == phases - 1) corrupt_at = (int)r.below(4);
            for (int i = 0; i < steps && !c.violated; i++) {
                if (r.chance(load)) m.send();
                if (r.onein(15)) for (int j = (int)r.below(12); j-- > 0;) m.send();
                if (r.onein(20)) m.drop();
                if (r.chance(iload) && !p->gone) {
                    string x = m.sm && r.onein(4) ? "<r xmlns='" NS_SM "'/>" : pin == NET_BYTES ? strf("<message id='b%llu'/>", (unsigned long long)++seq) : in_stanza(r, ++seq);
                    p->tx("x", x);
                    if (r.onein(8)) p->tx("x", " ");
                }
                bool open = pout == NET_PLAIN;
                w.once(1);
                if (!s.k->up) { if (in && in->corrupt) { dead = true; break; } c.viol("ended", strf("the connection ended by itself, error %d", s.k->last_error)); return; }
                m.observe("iteration", true);
                if (open && p->comp && !m.skip && !c.violated) {
                    size_t lim = m.q.empty() ? m.els.size() : m.q.front();
                    stat_add("flush_checks");
                    for (size_t j = m.cur; j < lim; j++) if (m.els[j].t == QMon::USER && !m.els[j].dropped && !m.els[j].done && m.els[j].text.size()) { c.viol("out/not-flushed", "an element left the queue, but the server cannot inflate it at the end of the iteration: " + vis(m.els[j].text, 100) + " " + m.show()); break; }
                }
            }
            if (dead || c.violated) break;
            // everything arrives, without new input
            if (r.onein(2) || ph == phases - 1) {
                bool d0 = m.deep;
                m.deep = false;
                size_t before = m.els.size();
                net_policy(w, r.onein(2) ? NET_PLAIN : NET_CHUNKY, r.onein(2) ? NET_PLAIN : NET_CHUNKY);
                u64 lastv = ~0ull;
                for (int i = 0, idle = 0; i < 40000 && idle < 200 && !c.violated && s.k->up; i++) {
                    w.once(r.onein(3) ? 30 : 1);
                    u64 v = m.user_done * 31 + m.cur * 17 + m.off + (in ? in->delivered : 0) * 1000003 + p->outq.size() * 7 + (p->s ? p->s->to_client.size() : 0);
                    idle = v == lastv ? idle + 1 : 0;
                    lastv = v;
                }
                (void)before;
                if (c.violated) break;
                if (!s.k->up) { if (in && in->corrupt) { dead = true; break; } c.viol("ended", strf("the connection ended by itself, error %d", s.k->last_error)); return; }
                m.finish();
                if (in && !in->corrupt && !in->expect.empty()) { c.viol("in/lost", strf("%zu stanzas were deflated completely but the client never got them, next: ", in->expect.size()) + vis(in->expect.front(), 200)); break; }
                stat_add("drained_both_ways");
                m.deep = d0;
            }
        }
        if (c.violated) { if (in) in->on = false; return; }
        u64 n_in = in ? in->delivered : 0;
        c.mixsig(m.sends * 1000003 + m.user_done * 31 + n_in * 7919 + (in ? in->plain : 0) + (u64)mode);
        if (m.user_done > 3) c.nontrivial = true;
        if (in) { stat_add("inflated_in", in->plain); stat_add("wire_in", in->wirebytes); }
        if (c.k < 4) c.sample += strf("round %d: mode %d tls %d sm %d zlevel %d flush %d: %llu elements out (%llu bytes matched), %llu stanzas in (%llu deflated to %llu bytes)%s\n", round, (int)mode, (int)p->tls_up, (int)m.sm, g.srv.zlevel, g.srv.zflush, (unsigned long long)m.user_done, (unsigned long long)m.off, (unsigned long long)n_in, (unsigned long long)(in ? in->plain : 0), (unsigned long long)(in ? in->wirebytes : 0), hostile ? ", corrupted at the end" : "");
        // orderly end: the close is flushed too
        m.deep = false;
        net_policy(w, NET_PLAIN, NET_PLAIN);
        if (!dead && s.k->up && !(in && in->corrupt)) {
            m.observe("end");
            m.closing = true;
            xmpp_disconnect(s.k->conn);
            m.lib(QMon::LIB_CLOSE, "</stream:stream>");
            w.until_ms(8000, [&] { return !s.k->open; }, 20);
            if (s.k->open) { c.viol("stuck", "the connection does not end"); return; }
            if (!p->gone) w.run_ms(5, 1);
            m.finish();
            stat_add("orderly_ends");
        } else {
            if (s.k->open) { xmpp_disconnect(s.k->conn); w.until_ms(8000, [&] { return !s.k->open; }, 20); }
            if (s.k->open) { c.viol("stuck", "the connection does not end"); return; }
            stat_add("broken_ends");
        }
        m.active = false;
        xmpp_handler_delete(s.k->conn, in_handler);
        w.comp_hook = nullptr;
        if (round + 1 < rounds) {
            // again, from a clean slate; the old monitor stays registered with the handlers
            while (char *t = xmpp_conn_send_queue_drop_element(s.k->conn, XMPP_QUEUE_OLDEST)) xmpp_free(w.ctx, t);
            for (auto &x : mons) { x.release(); }
            static vector<Inbound *> keep;
            keep.clear();
            s.next_cfg();
            ConnCfg &h = *s.cur;
            h.flags = (h.flags | XMPP_CONN_FLAG_ENABLE_COMPRESSION) & ~XMPP_CONN_FLAG_MANDATORY_TLS;
            s.make_good(h);
            h.srv.iter = 1;
            h.srv.comp = true;
            h.srv.comp_methods = "<method>zlib</method>";
            h.srv.zlevel = g.srv.zlevel;
            h.srv.zflush = g.srv.zflush;
            h.srv.sm = false;
            if (h.component) return;
            xmpp_conn_set_flags(s.k->conn, h.flags);
        }
    }
    w.comp_hook = nullptr;
    w.on_plain = nullptr;
}
