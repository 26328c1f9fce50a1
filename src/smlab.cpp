#include "smlab.h"
#include <algorithm>

bool SmBlob::parse(const string &b)
{
    *this = SmBlob();
    size_t p = 0;
    auto u = [&](u8 t, u32 &v) {
        if (b.size() - p < 5 || (u8)b[p] != t) return false;
        v = (u32)(u8)b[p + 1] << 24 | (u32)(u8)b[p + 2] << 16 | (u32)(u8)b[p + 3] << 8 | (u8)b[p + 4];
        p += 5;
        return true;
    };
    auto st = [&](string &v) {
        u32 n;
        if (!u(0x7a, n) || b.size() - p < n) return false;
        v = b.substr(p, n);
        p += n;
        return true;
    };
    u32 ver, n;
    if (!u(0x1a, ver) || ver || !u(0x1a, sent) || !u(0x1a, handled) || !st(id)) return false;
    if (!u(0x9a, n)) return false;
    for (u32 i = 0; i < n; i++) { string t; if (!st(t)) return false; unsent.push_back(t); }
    if (!u(0xba, n)) return false;
    for (u32 i = 0; i < n; i++) { u32 h; string t; if (!u(0x1a, h) || !st(t)) return false; unacked.push_back({h, t}); }
    return p == b.size();
}
string SmBlob::build() const
{
    string b;
    auto u = [&](int t, u32 v) { b += (char)t; b += (char)(v >> 24); b += (char)(v >> 16); b += (char)(v >> 8); b += (char)v; };
    u(0x1a, 0); u(0x1a, sent); u(0x1a, handled); u(0x7a, (u32)id.size()); b += id;
    u(0x9a, (u32)unsent.size());
    for (auto &t : unsent) { u(0x7a, (u32)t.size()); b += t; }
    u(0xba, (u32)unacked.size());
    for (auto &t : unacked) { u(0x1a, t.first); u(0x7a, (u32)t.second.size()); b += t.second; }
    return b;
}

static ScenOpt lab_opt()
{
    ScenOpt o;
    o.allow_component = false;
    o.allow_cert = false;
    o.hostile_pct = 0;
    o.tls_pct = 35;
    o.user_load = false;
    return o;
}
SmLab::SmLab(Case &c) : w(c), c(c), s(w, lab_opt()), r(c.rng), k(s.k) { w.report = false; }

static int sm_handler(xmpp_conn_t *, xmpp_stanza_t *st, void *ud)
{
    SmLab *l = (SmLab *)ud;
    const char *n = xmpp_stanza_get_name(st);
    Ev &e = l->w.ev(Ev::HANDLER);
    e.s = string(n ? n : "?") + " id=" + (xmpp_stanza_get_id(st) ? xmpp_stanza_get_id(st) : "");
    e.a = n && (!strcmp(n, "message") || !strcmp(n, "presence") || !strcmp(n, "iq"));
    if (e.a && l->reply_in_handler && l->r.onein(3)) l->submit();
    return 1;
}
static void sm_cb(xmpp_conn_t *, void *ud, const unsigned char *b, size_t n)
{
    SmLab *l = (SmLab *)ud;
    l->blobs++;
    l->have_blob = true;
    l->blob_null = !b;
    if (!b && n) l->c.viol("blob/null-with-length", "the SM callback got no buffer, but a length");
    l->last_blob.assign(b ? (const char *)b : "", b ? n : 0);
    if (l->on_blob) l->on_blob(l->last_blob);
    l->check_complete();
}
// a state handed out while the connection is up holds everything that was
// submitted and is not known to be acknowledged, once, in order, unaltered
void SmLab::check_complete()
{
    if (!j_complete || !k->up || !k->open || in_drop || !cur || !cur->resumable || c.violated) return;
    if (subs.size() > 40 && !r.onein((u32)subs.size() / 20)) return;
    if (blob_null) { c.viol("blob/missing", "no state for a session that can be resumed, in the middle of the session"); return; }
    SmBlob b;
    if (!b.parse(last_blob)) { c.viol("blob/format", "the state cannot be decoded: " + vis(last_blob, 300)); return; }
    std::unordered_map<string, size_t> at;
    size_t pos = 0;
    for (auto &x : b.unacked) if (!at.emplace(x.second, pos++).second) c.viol("blob/twice", "element " + vis(x.second, 120) + " is in the state twice");
    for (auto &x : b.unsent) if (!at.emplace(x, pos++).second && x.compare(0, 3, "<r ") && x.compare(0, 3, "<a ")) c.viol("blob/twice", "element " + vis(x, 120) + " is in the state twice");
    size_t prev = 0, need = 0;
    bool first = true;
    for (size_t i = 0; i < subs.size(); i++) {
        Sub &u = subs[i];
        auto it = at.find(u.text);
        if (it == at.end()) {
            if (i == submitting || u.dropped || u.released || u.maybe_released || u.optional || u.text.empty()) continue;
            c.viol("blob/incomplete", "stanza " + u.id + " is not acknowledged, and is in neither queue of the state: " + vis(last_blob, 200));
            return;
        }
        need++;
        if (!first && it->second <= prev) { c.viol("blob/order", "stanza " + u.id + " precedes an older one in the state"); return; }
        first = false;
        prev = it->second;
    }
    stat_add("states_complete");
    stat_add("states_complete_elements", need);
}
void SmLab::attach(Client *nk)
{
    k = nk;
    s.k = nk;
}
void SmLab::handlers()
{
    xmpp_handler_add(k->conn, sm_handler, nullptr, nullptr, nullptr, this);
    if (j_blob) xmpp_conn_set_sm_callback(k->conn, sm_cb, this);
}
ConnCfg &SmLab::config()
{
    ConnCfg &g = s.next_cfg();
    g.flags &= ~(XMPP_CONN_FLAG_DISABLE_SM | XMPP_CONN_FLAG_MANDATORY_TLS);
    if (g.cert) g.cert = false;
    s.make_good(g);
    g.srv.sm = true;
    g.srv.sm_resume = true;
    g.srv.session = g.srv.session && r.onein(2);
    xmpp_conn_set_flags(k->conn, g.flags);
    this->g = &g;
    return g;
}
void SmLab::intercepts()
{
    w.srv.mangle = nullptr;
    w.srv.intercept = [this](XPeer &p, const Elem &e) { track(); return on_elem(p, e); };
    w.on_peer = [this, old = w.on_peer](XPeer &p) { old(p); };
}
bool SmLab::begin(bool sm, bool resume, int cut_after)
{
    ConnCfg &g = *this->g;
    g.srv.sm = sm;
    g.srv.sm_resume = resume;
    wire.clear();
    acks_due.clear();
    acks_seen = 0;
    sm_active = false;
    resume_seen = false;
    deaf = false;
    cur = nullptr;
    backlog.clear();
    judge_required = false;
    required.clear();
    in_resume_ok = false;
    s.hooks();
    intercepts();
    lockstep(w, true);
    aborted = false;
    cur_peer = (int)w.peers.size();
    if (s.start() != XMPP_EOK) { c.viol("connect-refused", "xmpp_connect_client failed"); return false; }
    if (cut_after >= 0) {
        for (int i = 0; i < cut_after && !k->up && k->open; i++) w.once(1);
        track();
        if (!k->up) { stat_add("cut_in_negotiation"); lockstep(w, false); aborted = true; return false; }
    }
    w.until_ms(30000, [&] { return k->up || !k->open; }, 2);
    track();
    if (!k->up) { c.viol("never-connected", strf("connection %d did not come up", cur_peer)); return false; }
    lockstep(w, false);
    return true;
}
bool SmLab::on_elem(XPeer &p, const Elem &e)
{
    if (p.no != cur_peer) return true;
    if (e.ns == NS_SM) {
        if (e.name == "enable") {
            // a new session: what was left of the previous one has to come again
            sessions.emplace_back();
            Sess &n = sessions.back();
            n.id = strf("sess-%d", sess_no++);
            if (r.onein(6)) n.id += " <&'\">\xc3\xa4%s";
            if (r.onein(30)) n.id += string(r.below(6000), 'i');
            n.resumable = w.srv.conf.sm_resume && (e.attr("resume") == "true" || e.attr("resume") == "1");
            cur = &n;
            p.sm_on = true;
            sm_active = true;
            dispatched = 0;
            dispatched_known = true;
            required.clear();
            for (size_t i = 0; i < subs.size(); i++) if (subs[i].ever && !subs[i].released && !subs[i].maybe_released && !subs[i].dropped && !subs[i].optional) required.push_back(i);
            judge_required = true;
            stat_add("sm_sessions");
            if (required.size()) { stat_add("rebound_with_unacked"); stat_add("resent_after_failure_required", required.size()); }
            p.tx("enabled", "<enabled xmlns='" NS_SM "'" + (n.resumable ? " id='" + xml_escape(n.id, true) + "' resume='" + (r.onein(2) ? "true" : "1") + "'" : string(r.onein(2) ? "" : " resume='false'")) + "/>");
            return true;
        }
        if (e.name == "resume") {
            resume_seen = true;
            Sess *f = nullptr;
            for (auto &x : sessions) if (x.alive && x.resumable && x.id == e.attr("previd")) f = &x;
            stat_add("resume_requests");
            bool known = false;
            for (auto &x : sessions) if (x.resumable && x.id == e.attr("previd")) known = true;
            if (!known) c.viol("resume-unknown-session", "resumption of '" + e.attr("previd") + "', which is no session that can be resumed");
            if (f && j_in && dispatched_known) {
                stat_add("resume_h_checked");
                if (e.attr("h") != std::to_string(dispatched)) c.viol("resume-h", strf("<resume h='%s'/>, %u stanzas were dispatched in this session", e.attr("h").c_str(), dispatched));
            }
            ResumeMode m = f ? resume_mode : RES_FAIL;
            if (m == RES_OK) {
                cur = f;
                p.sm_on = p.bound = true;
                sm_active = true;
                in_resume_ok = true;
                f->out = (u32)strtoul(e.attr("h").c_str(), nullptr, 10);
                for (size_t i : f->got) subs[i].maybe_released = true; // known when the connection is up
                f->acked = f->count();
                required.clear();
                for (size_t i = 0; i < subs.size(); i++) if (subs[i].ever && !subs[i].released && !subs[i].maybe_released && !subs[i].dropped && !subs[i].optional) required.push_back(i);
                judge_required = true;
                stat_add("resumptions");
                stat_add("retransmissions_required", required.size());
                p.tx("resumed", "<resumed xmlns='" NS_SM "' previd='" + xml_escape(f->id, true) + "' h='" + std::to_string(f->count()) + "'/>");
                if (r.onein(4)) { p.tx("sm", "<r xmlns='" NS_SM "'/>"); }
                if (r.onein(4)) inbound();
                return true;
            }
            if (f) f->alive = false;
            size_t n = f ? f->got.size() : 0;
            if (m == RES_FAIL_H_LESS) n = r.below(n + 1);
            if (f && (u32)(f->base + n) - f->acked > f->got.size()) n = f->got.size(); // never below what was acknowledged
            if (f && m == RES_FAIL_H_LESS && (u32)(f->acked - f->base) > n) n = f->acked - f->base;
            u32 h = f ? f->base + (u32)n : 0;
            string cond = m == RES_FAIL_FNI ? "<feature-not-implemented xmlns='" NS_STANZAS "'/>" : m == RES_FAIL_EMPTY ? "" : "<item-not-found xmlns='" NS_STANZAS "'/>";
            bool with_h = m == RES_FAIL_H || m == RES_FAIL_H_LESS;
            if (with_h && f) for (size_t i = 0; i < n; i++) subs[f->got[i]].maybe_released = true;
            stat_add(with_h ? "resume_failed_with_h" : "resume_failed");
            dispatched_known = false;
            p.tx("failed", "<failed xmlns='" NS_SM "'" + (with_h ? " h='" + std::to_string(h) + "'" : string()) + (cond.empty() ? "/>" : ">" + cond + "</failed>"));
            return true;
        }
        if (e.name == "r") {
            stat_add("client_requests");
            int m = on_r ? on_r() : 0;
            if (m == 0 && cur) ack();
            return true;
        }
        if (e.name == "a") return true;
        return false;
    }
    if (e.name == "iq" && !by_id.count(e.attr("id"))) return false; // bind, session
    if (e.name == "message" || e.name == "presence" || e.name == "iq") {
        auto it = by_id.find(e.attr("id"));
        if (it == by_id.end()) { c.viol("unknown-stanza", "a stanza nobody submitted is on the wire: " + vis(e.raw, 200)); return true; }
        size_t i = it->second;
        Sub &u = subs[i];
        stat_add("stanzas_on_wire");
        if (j_out) {
            if (u.conn == p.no) c.viol("duplicated", "stanza " + u.id + " is on the wire twice on one connection");
            if (!wire.empty() && wire.back() >= i && u.conn != p.no) c.viol("order", "stanza " + u.id + " follows " + name(wire.back()) + ", which was submitted later");
            if (u.released) c.viol("retransmitted-after-ack", "stanza " + u.id + " is sent again although the server reported it as handled");
            if (u.dropped) c.viol("dropped-sent", "stanza " + u.id + " is on the wire although it was dropped from the queue");
            if (e.raw != u.text) c.viol("altered", "stanza on the wire: " + vis(e.raw, 200) + " submitted: " + vis(u.text, 200));
        }
        u.conn = p.no;
        u.ever = true;
        u.maybe_released = false; // an acknowledgement which was under way has not arrived
        wire.push_back(i);
        if (sm_active && cur) {
            backlog.push_back({i, e.raw});
            if (handle_all && !deaf) process(backlog.size());
        } else if (!sm_active) u.optional = true; // no stream management: not retained
        return true;
    }
    return false;
}
void SmLab::process(size_t n)
{
    if (deaf) return;
    while (n-- && !backlog.empty() && cur) {
        cur->got.push_back(backlog.front().first);
        cur->got_raw.push_back(backlog.front().second);
        backlog.pop_front();
        stat_add("stanzas_handled");
    }
}
void SmLab::ack()
{
    XPeer *p = w.peer();
    if (!p || p->gone || !cur || deaf) return;
    u32 h = cur->count();
    // not a number: no acknowledgement of anything
    if (bad_acks && r.onein(15)) {
        static const char *bad[] = {"", " h=''", " h='abc'", " h='-1'", " h='99999999999999999999'", " h='0x7fffffff'", " h='4294967296'"};
        p->tx("sm", string("<a xmlns='" NS_SM "'") + bad[r.below(7)] + "/>");
        stat_add("bad_acks");
        return;
    }
    // a number which has been acknowledged before: releases nothing
    if (bad_acks && r.onein(10)) {
        p->tx("sm", "<a xmlns='" NS_SM "' h='" + std::to_string(cur->acked - (u32)r.below(5)) + "'/>");
        stat_add("stale_acks");
        return;
    }
    // an older count is legal, too
    if (r.onein(6) && cur->count() != cur->acked) h = cur->acked + (u32)r.below(cur->count() - cur->acked + 1);
    for (size_t i = 0; i < cur->got.size(); i++) if ((u32)(h - cur->base) > i) subs[cur->got[i]].maybe_released = true;
    cur->acked = h;
    p->tx("sm", "<a xmlns='" NS_SM "' h='" + std::to_string(h) + "'/>");
    stat_add("server_acks");
}
size_t SmLab::submit()
{
    if (!k->up || k->conn == nullptr) return (size_t)-1;
    size_t i = subs.size();
    string id = strf("S-%llu", (unsigned long long)++nsub);
    string body = r.onein(25) ? string(3000 + r.below(6000), 'b') : r.onein(3) ? "x&<>\"' \xc3\xa4" : "hello";
    subs.emplace_back();
    subs[i].id = id;
    by_id[id] = i;
    int kind = (int)r.below(6);
    xmpp_stanza_t *st;
    if (kind == 0) st = xmpp_presence_new(w.ctx);
    else if (kind == 1) { st = xmpp_iq_new(w.ctx, "get", id.c_str()); xmpp_stanza_t *q = xmpp_stanza_new(w.ctx); xmpp_stanza_set_name(q, "query"); xmpp_stanza_set_ns(q, "urn:q"); xmpp_stanza_add_child(st, q); xmpp_stanza_release(q); }
    else st = make_message(w.ctx, id, body);
    xmpp_stanza_set_id(st, id.c_str());
    char *b;
    size_t n;
    xmpp_stanza_to_text(st, &b, &n);
    subs[i].text = string(b, n);
    submitting = i;
    if (kind == 4) xmpp_send_raw(k->conn, b, n);
    else if (kind == 5) xmpp_send_raw_string(k->conn, "%s", b);
    else xmpp_send(k->conn, st);
    submitting = (size_t)-1;
    xmpp_free(w.ctx, b);
    xmpp_stanza_release(st);
    stat_add("submissions");
    w.ev(Ev::API).s = "send " + id;
    return i;
}
void SmLab::inbound()
{
    XPeer *p = w.peer();
    if (!p || p->gone || !sm_active) return;
    string x;
    int n = r.onein(3) ? 1 + (int)r.below(5) : 1;
    for (int i = 0; i < n; i++) switch (r.below(8)) {
    case 0: case 1: x += "<r xmlns='" NS_SM "'/>"; break;
    case 2: x += strf("<presence from='bob@example.org' id='in-%u'/>", ++in_serial); break;
    case 3: x += strf("<iq type='get' from='bob@example.org' id='in-%u'><query xmlns='urn:in'/></iq>", ++in_serial); break;
    case 4: x += strf("<message from='bob@example.org' id='in-%u'><body>%s</body></message>", ++in_serial, string(r.below(r.onein(6) ? 9000 : 40), 'm').c_str()); break;
    case 5: x += r.onein(3) ? " \n" : strf("<message id='in-%u'><r xmlns='" NS_SM "'/><a xmlns='" NS_SM "' h='7'/></message>", ++in_serial); break;
    default: x += strf("<message from='x@example.org' id='in-%u'/>", ++in_serial); break;
    }
    p->tx("sm", x);
}
void SmLab::track()
{
    for (; seen_tr < w.tr.size(); seen_tr++) {
        const Ev &e = w.tr[seen_tr];
        if (e.k == Ev::HANDLER && e.a) { dispatched++; stat_add("stanzas_dispatched"); }
        if (e.conn != cur_peer) continue;
        if (e.k == Ev::TX && e.stage == "sm" && cur) {
            Elem d;
            if (!xml_parse_doc("<x xmlns='" NS_CLIENT "'>" + e.s + "</x>", d)) { c.viol("harness", "server text is not well-formed"); continue; }
            for (auto &q : d.kids) {
                if (q.is_text) continue;
                if (q.ns == NS_SM) { if (q.name == "r") { acks_due.push_back(cur->out); stat_add("server_requests"); } }
                else { cur->out++; stat_add("inbound_sent"); }
            }
        } else if (e.k == Ev::RX && e.e.ns == NS_SM && e.e.name == "a" && j_in) {
            if (acks_seen >= acks_due.size()) { c.viol("answer-without-request", "<a/> without an <r/> it could answer"); continue; }
            u32 want = acks_due[acks_seen++];
            stat_add("answers_checked");
            if (e.e.attr("h") != std::to_string(want)) c.viol("answer-h", strf("answer %zu: h='%s', %u stanzas had been sent before the request", acks_seen, e.e.attr("h").c_str(), want));
        }
    }
}
void SmLab::settle()
{
    u64 t0 = sim::now_ms;
    int stable = 0;
    size_t n = w.tr.size(), q = 0;
    u64 raw = 0;
    for (int i = 0; i < 30000 && stable < 12; i++) {
        w.once(1);
        track();
        XPeer *p = w.peer();
        u64 x = p ? p->raw_rx.size() + p->plain_tx.size() + (p->s ? p->s->to_client.size() + p->s->readn : 0) : 0;
        size_t ql = k->conn ? (size_t)xmpp_conn_send_queue_len(k->conn) : 0;
        if (w.tr.size() == n && x == raw && ql == q && (!p || p->outq.empty() || p->gone)) stable++; else stable = 0;
        n = w.tr.size();
        raw = x;
        q = ql;
    }
    (void)t0;
    track();
}
void SmLab::check_quiescent(const char *where)
{
    if (!k->up || !k->conn) return;
    stat_add("quiescent_points");
    // what the client has processed is known now
    for (auto &u : subs) if (u.maybe_released) { u.maybe_released = false; u.released = true; }
    if (j_out) {
        std::set<size_t> on(wire.begin(), wire.end());
        if (judge_required) for (size_t i : required) if (!on.count(i) && !subs[i].dropped) { c.viol("lost", strf("%s: stanza %s was written before, is not acknowledged, and was not sent again on connection %d", where, name(i).c_str(), cur_peer)); break; }
        for (size_t i = 0; i < subs.size(); i++) if (subs[i].conn == -1 && !subs[i].dropped && !subs[i].optional) { c.viol("not-sent", strf("%s: stanza %s never reached the wire", where, name(i).c_str())); break; }
    }
    if (j_in && acks_seen != acks_due.size()) c.viol("request-unanswered", strf("%s: %zu requests, %zu answers", where, acks_due.size(), acks_seen));
    if (j_in && dispatched_known && cur && cur->out != dispatched) c.viol("dispatch-count", strf("%s: %u stanzas sent in the session, %u dispatched", where, cur->out, dispatched));
    if (j_blob && have_blob && cur) {
        if (!cur->resumable) { if (!blob_null) c.viol("blob/not-resumable", "a state was handed out for a session that cannot be resumed"); return; }
        SmBlob b;
        if (blob_null) { c.viol("blob/missing", string(where) + ": no state for a session that can be resumed"); return; }
        if (!b.parse(last_blob)) { c.viol("blob/format", string(where) + ": the state cannot be decoded: " + vis(last_blob, 300)); return; }
        stat_add("blobs_checked");
        u32 n = cur->count() + (u32)backlog.size();
        if (b.sent != n) c.viol("blob/sent", strf("%s: sent=%u in the state, %u stanzas were written in this session", where, b.sent, n));
        if (dispatched_known && b.handled != dispatched) c.viol("blob/handled", strf("%s: handled=%u in the state, %u stanzas were dispatched", where, b.handled, dispatched));
        if (b.id != cur->id) c.viol("blob/id", string(where) + ": id " + vis(b.id) + " expected " + cur->id);
        if (!b.unsent.empty()) c.viol("blob/unsent", strf("%s: %zu unsent elements although everything was written", where, b.unsent.size()));
        vector<std::pair<u32, string>> want;
        for (size_t i = 0; i < cur->got.size(); i++) if ((int32_t)(cur->base + (u32)i - cur->acked) >= 0) want.push_back({cur->base + (u32)i, cur->got_raw[i]});
        for (size_t i = 0; i < backlog.size(); i++) want.push_back({cur->count() + (u32)i, backlog[i].second});
        if (want.size() != b.unacked.size()) c.viol("retained-set", strf("%s: %zu stanzas are retained, %zu are not acknowledged (written %u, acknowledged %u)", where, b.unacked.size(), want.size(), n, cur->acked));
        else for (size_t i = 0; i < want.size(); i++) {
            if (want[i].first != b.unacked[i].first) { c.viol("retained-number", strf("%s: retained stanza %zu has number %u, expected %u", where, i, b.unacked[i].first, want[i].first)); break; }
            if (want[i].second != b.unacked[i].second) { c.viol("retained-text", strf("%s: retained stanza %zu is ", where, i) + vis(b.unacked[i].second, 150) + " expected " + vis(want[i].second, 150)); break; }
        }
        stat_add("retained_checked", want.size());
    }
}
void SmLab::cut()
{
    bool went_up = k->up || k->cur_connects;
    XPeer *p = w.peer();
    auto no_sm = [&] { if ((went_up || k->cur_connects) && !sm_active) for (auto &u : subs) u.optional = true; }; // handed to a transport without stream management
    if (!k->open) { no_sm(); return; }
    if (p) switch (r.below(5)) {
    case 4: { // our stream is closed, theirs isn't: what still comes in is counted
        w.srv.conf.close_reply = false;
        p->outq.clear();
        k->disconnect();
        for (int i = 0, n = (int)r.below(60); i < n && k->open; i++) {
            if (sm_active && !p->gone && r.onein(3)) { p->tx("sm", strf("<message from='x@example.org' id='in-%u'/>", ++in_serial)); stat_add("inbound_while_closing"); }
            w.once(1);
            track();
        }
        if (r.onein(2)) p->rst(); else p->fin();
        break;
    }
    case 0: p->fin(); break;
    case 1: case 2: p->rst(); break;
    case 3: deaf = true; p->outq.clear(); for (int i = 0; i < 20 && k->open; i++) { if (r.onein(4)) submit(); w.once(1); } p->rst(); break;
    }
    deaf = true;
    w.until_ms(6000, [&] { return !k->open; }, 2);
    if (k->open) { k->disconnect(); w.until_ms(6000, [&] { return !k->open; }, 5); }
    track();
    no_sm(); // it may have come up meanwhile
    for (auto &u : subs) if (u.conn == -1) u.optional = true; // not written: goes with the connection (or is sent later)
    if (k->open) c.viol("stuck", "the connection does not end");
}
void SmLab::drop_some()
{
    int n = xmpp_conn_send_queue_len(k->conn);
    if (n <= 0) return;
    in_drop = true;
    char *t = xmpp_conn_send_queue_drop_element(k->conn, r.onein(2) ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
    in_drop = false;
    if (!t) return;
    Elem e;
    if (xml_parse_doc(t, e)) { auto it = by_id.find(e.attr("id")); if (it != by_id.end()) subs[it->second].dropped = true; }
    stat_add("drops");
    xmpp_free(w.ctx, t);
}

// the state moves to a new connection object: 0 directly, 1 by its persisted form
bool SmLab::move(int how)
{
    if (k->open) return false;
    if (how == 1 && (!have_blob || blob_null || !cur || !cur->resumable)) return false;
    Client *old = k;
    w.clients.emplace_back(new Client(w));
    Client *nk = w.clients.back().get();
    nk->set(old->jid, old->pass, g->flags);
    xmpp_conn_set_cafile(nk->conn, ca_file().c_str());
    if (how == 0) {
        xmpp_sm_state_t *st = xmpp_conn_get_sm_state(old->conn);
        if (!st) { c.viol("state/none", "xmpp_conn_get_sm_state returned nothing on a disconnected connection"); return false; }
        bool first = r.onein(2);
        if (first) old->release();
        int rc = xmpp_conn_set_sm_state(nk->conn, st);
        if (rc) { c.viol("state/refused", strf("xmpp_conn_set_sm_state on a fresh connection returned %d", rc)); xmpp_free_sm_state(st); return false; }
        if (!first) old->release();
        stat_add("state_moves");
    } else {
        if (r.onein(2)) old->release();
        char *x = (char *)malloc(last_blob.size());
        memcpy(x, last_blob.data(), last_blob.size());
        int rc = xmpp_conn_restore_sm_state(nk->conn, (const unsigned char *)x, last_blob.size());
        free(x);
        if (rc) { c.viol("restore-refused", strf("xmpp_conn_restore_sm_state of a state from the callback returned %d", rc)); return false; }
        if (old->conn) old->release();
        stat_add("state_restores");
    }
    attach(nk);
    handlers();
    return true;
}
