// C16: persisted stream-management state.
#include "smlab.h"
#include <sys/mman.h>

// a buffer whose end is the end of the readable memory (ASan redzone behind it)
struct Exact {
    char *p;
    size_t n;
    explicit Exact(const string &b) : p((char *)malloc(b.size() ? b.size() : 1)), n(b.size())
    {
        memcpy(p, b.data(), n);
        if (!n) { free(p); p = (char *)malloc(1); }
    }
    ~Exact() { free(p); }
};

struct Restore {
    World &w;
    Case &c;
    Client k;
    Restore(World &w) : w(w), c(w.c), k(w) { k.set("alice@example.org", "pw", 0); }
    int restore(const string &b)
    {
        Exact x(b);
        int rc = xmpp_conn_restore_sm_state(k.conn, (const unsigned char *)x.p, x.n);
        memset(x.p, 0xee, x.n); // the library must not keep pointers into it
        return rc;
    }
};

static string last;
static bool got, was_null;
static void cb(xmpp_conn_t *, void *, const unsigned char *b, size_t n)
{
    got = true;
    was_null = !b;
    last.assign(b ? (const char *)b : "", b ? n : 0);
}

static SmBlob random_state(Rng &r)
{
    SmBlob b;
    auto num = [&]() -> u32 { switch (r.below(5)) { case 0: return 0; case 1: return (u32)r.below(50); case 2: return 0xFFFFFFFFu - (u32)r.below(4); case 3: return 0x7FFFFFFEu + (u32)r.below(4); default: return (u32)r.next(); } };
    b.handled = num();
    auto txt = [&](int i) -> string {
        switch (r.below(7)) {
        case 0: return strf("<message id=\"u-%d\"/>", i);
        case 1: return strf("<message id=\"u-%d\"><body>", i) + string(r.below(r.onein(20) ? 200000 : r.onein(5) ? 20000 : 300), 'x') + "</body></message>";
        case 2: return strf("<iq id=\"u-%d\" type=\"get\"><q xmlns=\"urn:\xc3\xa4\"/></iq>", i);
        case 3: return strf("<presence id=\"u-%d\"><status>%%s%%n%%d</status></presence>", i);
        default: return strf("<message id=\"u-%d\"><body>t %d</body></message>", i, i);
        }
    };
    int serial = 0;
    int nq = r.onein(4) ? 0 : (int)r.below(r.onein(8) ? 60 : 6), ns = r.onein(4) ? 0 : (int)r.below(r.onein(8) ? 60 : 6);
    b.sent = num();
    for (int i = 0; i < nq; i++) b.unacked.push_back({b.sent - (u32)nq + (u32)i, txt(serial++)});
    for (int i = 0; i < ns; i++) b.unsent.push_back(txt(serial++));
    switch (r.below(5)) {
    case 0: b.id = "x"; break;
    case 1: b.id = string(1 + r.below(3000), 'i'); break;
    case 2: b.id = "id with <&>\"' \xc3\xa4 z%s"; break;
    default: b.id = strf("sm-%llx", (unsigned long long)r.next());
    }
    return b;
}

static string show(const SmBlob &b) { return strf("sent=%u handled=%u id=%s unsent=%zu unacked=%zu", b.sent, b.handled, vis(b.id, 40).c_str(), b.unsent.size(), b.unacked.size()); }

static bool cmp(Case &c, const char *where, const SmBlob &want, const string &have)
{
    SmBlob b;
    if (!b.parse(have)) { c.viol("blob/format", string(where) + ": not decodable: " + vis(have, 200)); return false; }
    if (b.sent != want.sent || b.handled != want.handled) { c.viol("blob/counters", string(where) + ": " + show(b) + ", expected " + show(want)); return false; }
    if (b.id != want.id) { c.viol("blob/id", string(where) + ": " + show(b) + ", expected " + show(want)); return false; }
    if (b.unsent != want.unsent) { c.viol("blob/unsent", string(where) + ": " + show(b) + ", expected " + show(want)); return false; }
    if (b.unacked != want.unacked) { c.viol("blob/unacked", string(where) + ": " + show(b) + ", expected " + show(want)); return false; }
    stat_add("blobs_compared");
    return true;
}

// drains the unsent queue of a disconnected connection; every step is compared
static void drain(Restore &x, SmBlob want, bool all)
{
    Case &c = x.c;
    Rng &r = c.rng;
    auto len = [&](const char *w) { int n = xmpp_conn_send_queue_len(x.k.conn); if (n != (int)want.unsent.size()) c.viol("queue-len", strf("%s: length %d, expected %zu", w, n, want.unsent.size())); };
    len("after restore");
    while (!c.violated && (all || !r.onein(6))) {
        bool old = r.onein(2);
        char *t = xmpp_conn_send_queue_drop_element(x.k.conn, old ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
        if (!t) {
            if (!want.unsent.empty()) c.viol("queue-drop", strf("nothing dropped, %zu elements left", want.unsent.size()));
            break;
        }
        if (want.unsent.empty()) { c.viol("queue-drop", "something dropped from an empty queue: " + vis(t, 100)); xmpp_free(x.w.ctx, t); break; }
        string e = old ? want.unsent.front() : want.unsent.back();
        if (e != t) c.viol("queue-drop", string(old ? "oldest" : "youngest") + " is " + vis(t, 100) + " expected " + vis(e, 100));
        if (old) want.unsent.erase(want.unsent.begin()); else want.unsent.pop_back();
        xmpp_free(x.w.ctx, t);
        stat_add("restored_drops");
        len("after drop");
        if (got) { if (was_null) c.viol("blob/missing", "no state after a drop"); else cmp(c, "after drop", want, last); got = false; }
    }
}

// ---- resumption from a restored state, on the wire
static void wire(Case &c, const SmBlob *given)
{
    SmLab l(c);
    Rng &r = l.r;
    World &w = l.w;
    sim::spin_limit = 2000000;
    l.j_out = l.j_in = l.j_blob = true;
    l.config();
    l.handlers();
    SmBlob b = given ? *given : random_state(r);
    // ids of the lab
    b.id = r.onein(3) ? "sess-\xc3\xa4 <&>\"'" : "sess-restored";
    b.unacked.clear();
    int n = (int)r.below(12), done = (int)r.below(n + 1);
    l.sessions.emplace_back();
    SmLab::Sess &ss = l.sessions.back();
    ss.id = b.id;
    ss.resumable = true;
    ss.base = ss.acked = b.sent - (u32)n;
    for (int i = 0; i < n; i++) {
        size_t x = l.subs.size();
        l.subs.emplace_back();
        auto &u = l.subs[x];
        u.id = strf("S-%llu", (unsigned long long)++l.nsub);
        u.text = "<message id=\"" + u.id + "\"><body>" + string(r.onein(6) ? r.below(9000) : r.below(30), 'r') + "</body></message>";
        u.ever = true;
        u.conn = -2;
        l.by_id[u.id] = x;
        b.unacked.push_back({ss.base + (u32)i, u.text});
        if (i < done) { ss.got.push_back(x); ss.got_raw.push_back(u.text); }
    }
    l.dispatched = b.handled;
    l.dispatched_known = true;
    string bl = b.build();
    {
        Exact x(bl);
        if (xmpp_conn_restore_sm_state(l.k->conn, (const unsigned char *)x.p, x.n) != XMPP_EOK) { c.viol("refused-valid", "a valid state was refused: " + show(b)); return; }
    }
    stat_add("wire_restores");
    // every state that is handed out
    vector<string> sampled;
    l.j_complete = r.onein(2);
    l.on_blob = [&](const string &x) {
        if (l.blob_null) return;
        stat_add("live_blobs");
        SmBlob v;
        if (!v.parse(x)) { c.viol("blob/format", "a state handed out cannot be decoded: " + vis(x, 300)); return; }
        if (sampled.size() < 40 && r.onein(4)) sampled.push_back(x);
        size_t prev = 0;
        bool first = true;
        auto known = [&](const string &t, const char *q) {
            Elem e;
            if (!xml_parse_doc(t, e)) return;
            auto it = l.by_id.find(e.attr("id"));
            if (it == l.by_id.end()) return; // the library's own
            if (l.subs[it->second].text != t && l.subs[it->second].text.size()) c.viol("blob/text", string(q) + " element " + vis(t, 100) + " was submitted as " + vis(l.subs[it->second].text, 100));
            if (!first && it->second <= prev) c.viol("blob/order", string(q) + " element " + vis(t, 100) + " follows a younger one");
            if (l.subs[it->second].dropped) c.viol("blob/dropped", string(q) + " element " + vis(t, 100) + " was dropped from the queue");
            prev = it->second;
            first = false;
        };
        for (auto &t : v.unacked) known(t.second, "unacknowledged");
        for (auto &t : v.unsent) known(t, "unsent");
        for (size_t i = 1; i < v.unacked.size(); i++) if (v.unacked[i].first != v.unacked[i - 1].first + 1) { c.viol("blob/numbers", strf("numbers of the unacknowledged elements are not consecutive: %u %u", v.unacked[i - 1].first, v.unacked[i].first)); break; }
    };
    net_policy(w, r.chance(60) ? NET_PLAIN : (int)r.below(4), r.chance(60) ? NET_PLAIN : (int)r.below(4));
    static const SmLab::ResumeMode ms[] = {SmLab::RES_OK, SmLab::RES_OK, SmLab::RES_OK, SmLab::RES_FAIL, SmLab::RES_FAIL_H, SmLab::RES_FAIL_H_LESS, SmLab::RES_FAIL_FNI, SmLab::RES_FAIL_EMPTY};
    for (int k = 0; k < 2 && !c.violated; k++) {
        l.resume_mode = ms[r.below(8)];
        l.on_r = [&r] { return (int)r.below(2); };
        bool offered = !r.onein(12);
        if (!l.begin(offered)) return;
        if (!k && offered && !l.resume_seen) c.viol("no-resume", "the restored session was not resumed although stream management is offered");
        int steps = (int)r.below(30);
        for (int i = 0; i < steps && l.k->open && !c.violated; i++) { if (r.onein(2)) l.submit(); if (r.onein(4)) l.inbound(); if (r.onein(10)) l.drop_some(); w.once(1); l.track(); }
        net_policy(w, NET_PLAIN, NET_PLAIN);
        l.settle();
        l.check_quiescent("end");
        if (!l.k->open) { c.viol("ended", "the connection ended by itself"); return; }
        l.cut();
        if (r.onein(2) && !c.violated) l.move((int)r.below(2));
    }
    l.on_blob = nullptr;
    for (auto &x : sampled) {
        if (c.violated) break;
        SmBlob v;
        v.parse(x);
        Restore y(w);
        xmpp_conn_set_sm_callback(y.k.conn, cb, nullptr);
        got = false;
        if (y.restore(x)) { c.viol("refused-own", "a state from the callback was refused: " + vis(x, 200)); break; }
        stat_add("live_restores");
        if (got) { cmp(c, "after restore", v, last); got = false; }
        drain(y, v, r.onein(2));
    }
    c.mixsig(b.sent * 31ull + b.handled * 17ull + (u64)n * 7 + (u64)done + (u64)l.wire.size() * 1000);
    c.nontrivial = true;
    if (c.k < 8) c.sample = "resumption from " + show(b) + "\n" + w.show(900);
}



// where every tag starts
static vector<size_t> tags(const SmBlob &b)
{
    vector<size_t> t = {0, 5, 10, 15, 20 + b.id.size()};
    size_t p = 25 + b.id.size();
    for (auto &u : b.unsent) { t.push_back(p); p += 5 + u.size(); }
    t.push_back(p);
    p += 5;
    for (auto &u : b.unacked) { t.push_back(p); t.push_back(p + 5); p += 10 + u.second.size(); }
    return t;
}

// a byte string against the strict decoder, then the connection is used
static void refuse(Case &c, World &w, const string &m, const char *what, int after)
{
    SmBlob b;
    bool ok = b.parse(m);
    if (ok && (b.id.find('\0') != string::npos || b.id.empty())) return; // no id of a session, not judged
    Restore x(w);
    if (c.rng.onein(2)) xmpp_conn_set_sm_callback(x.k.conn, cb, nullptr);
    int rc = x.restore(m);
    stat_add(ok ? "accept_expected" : "refuse_expected");
    c.mixsig(hash_str(m));
    if (ok && rc != XMPP_EOK) { c.viol("refused-valid", string(what) + strf(": rc %d for ", rc) + vis(m, 200)); return; }
    if (!ok && rc == XMPP_EOK) { c.viol("accepted-invalid", string(what) + ": accepted " + vis(m, 200)); return; }
    if (!ok && rc >= 0) c.viol("no-error-code", strf("%s: rc %d", what, rc));
    if (!ok) {
        // nothing of it may be left
        if (xmpp_conn_send_queue_len(x.k.conn) != 0) c.viol("leftover", string(what) + ": the queue is not empty after the refusal of " + vis(m, 100));
        char *t = xmpp_conn_send_queue_drop_element(x.k.conn, c.rng.onein(2) ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
        if (t) { c.viol("leftover", string(what) + ": the queue has an element after the refusal"); xmpp_free(w.ctx, t); }
    }
    if (after == 1) {
        // the application tries again with a good one
        SmBlob g;
        g.sent = 3; g.handled = 4; g.id = "again"; g.unsent = {"<a/>", "<b/>"}; g.unacked = {{2, "<c/>"}};
        if (xmpp_conn_restore_sm_state(x.k.conn, nullptr, 0) == XMPP_EOK) c.viol("accepted-null", "NULL accepted");
        if (!ok) {
            Restore y(w);
            (void)y;
            int rc2 = x.restore(g.build());
            if (rc2 != XMPP_EOK) c.viol("retry-refused", strf("a valid state is refused (%d) after the refusal of another one", rc2));
            else { got = false; drain(x, g, true); }
        }
    } else if (after == 2) {
        xmpp_sm_state_t *st = xmpp_conn_get_sm_state(x.k.conn);
        if (st) xmpp_free_sm_state(st);
    } else if (after == 3) {
        xmpp_sm_state_t *st = xmpp_conn_get_sm_state(x.k.conn);
        Restore y(w);
        if (st && xmpp_conn_set_sm_state(y.k.conn, st) != XMPP_EOK) xmpp_free_sm_state(st);
    }
    got = false;
}

// after a refusal the connection connects, sends and ends as any other
static void use_after_refusal(Case &c)
{
    SmLab l(c);
    Rng &r = l.r;
    World &w = l.w;
    l.j_out = l.j_in = l.j_blob = true;
    l.config();
    l.handlers();
    SmBlob b = random_state(r), d;
    string m = b.build();
    do {
        switch (r.below(4)) {
        case 0: m = m.substr(0, r.below(m.size())); break;
        case 1: m += r.bytes(1 + r.below(10)); break;
        case 2: m[r.below(m.size())] ^= (char)(1 << r.below(8)); break;
        case 3: { auto t = tags(b); size_t p = t[r.below(t.size())] + r.below(5); if (p < m.size()) m[p] = (char)r.next(); break; }
        }
    } while (d.parse(m));
    {
        Exact x(m);
        int rc = xmpp_conn_restore_sm_state(l.k->conn, (const unsigned char *)x.p, x.n);
        if (rc == XMPP_EOK) { c.viol("accepted-invalid", "accepted " + vis(m, 200)); return; }
    }
    if (r.onein(3)) {
        Exact x(m);
        xmpp_conn_restore_sm_state(l.k->conn, (const unsigned char *)x.p, x.n);
    }
    stat_add("use_after_refusal");
    for (int k = 0; k < 2 && !c.violated; k++) {
        if (!l.begin()) return;
        if (!k && l.resume_seen) c.viol("resumes-refused", "a session is resumed although its state was refused");
        for (int i = 0; i < 10 && l.k->open; i++) { l.submit(); if (r.onein(3)) l.inbound(); w.once(1); l.track(); }
        l.settle();
        l.check_quiescent("end");
        l.cut();
    }
    c.mixsig(hash_str(m));
    c.nontrivial = true;
    if (c.k < 8) c.sample = "refused " + vis(m, 200) + "\n" + w.show(600);
}

PROP(C16)
{
    Rng &r = c.rng;
    got = false;
    last.clear();
    int kind = (int)(c.k % 8);
    if (kind <= 1) { wire(c, nullptr); return; }
    if (kind == 2) { use_after_refusal(c); return; }
    World w(c);
    w.report = false;
    SmBlob b = random_state(r);
    string m = b.build();
    c.mixsig(hash_str(m));
    if (kind == 3) {
        // round trip: restored, handed out again (a drop triggers the callback), restored again
        Restore x(w);
        xmpp_conn_set_sm_callback(x.k.conn, cb, nullptr);
        int rc = x.restore(m);
        if (rc) { c.viol("refused-valid", "a valid state was refused: " + show(b)); return; }
        stat_add("round_trips");
        if (got) { if (was_null) c.viol("blob/missing", "no state right after the restore"); else cmp(c, "after restore", b, last); got = false; }
        if (!c.violated && !b.unsent.empty()) {
            SmBlob d = b;
            char *t = xmpp_conn_send_queue_drop_element(x.k.conn, XMPP_QUEUE_OLDEST);
            if (!t || d.unsent.front() != t) c.viol("queue-drop", "the oldest element is " + vis(t ? t : "(null)", 100));
            if (t) xmpp_free(w.ctx, t);
            d.unsent.erase(d.unsent.begin());
            if (!got || was_null) c.viol("blob/missing", "no state after a drop");
            else {
                cmp(c, "after drop", d, last);
                string again = last;
                got = false;
                Restore y(w);
                xmpp_conn_set_sm_callback(y.k.conn, cb, nullptr);
                if (y.restore(again)) c.viol("refused-own", "a state from the callback was refused");
                else drain(y, d, true);
            }
        }
        if (!c.violated) {
            // both queues through the object
            xmpp_sm_state_t *st = xmpp_conn_get_sm_state(x.k.conn);
            if (!st) c.viol("state/none", "no state of a disconnected connection");
            else if (r.onein(2)) xmpp_free_sm_state(st);
            else {
                Restore y(w);
                if (xmpp_conn_set_sm_state(y.k.conn, st)) { c.viol("state/refused", "xmpp_conn_set_sm_state on a fresh connection failed"); xmpp_free_sm_state(st); }
            }
        }
        c.nontrivial = true;
        if (c.k < 8) c.sample = show(b) + " " + vis(m, 300);
        return;
    }
    if (kind == 4) {
        Restore x(w);
        xmpp_conn_set_sm_callback(x.k.conn, cb, nullptr);
        if (x.restore(m)) { c.viol("refused-valid", "a valid state was refused: " + show(b)); return; }
        got = false;
        drain(x, b, r.onein(2));
        // not on a connection that has a state in use
        c.nontrivial = !b.unsent.empty();
        return;
    }
    // invalid inputs
    while (m.size() > 700) { b = random_state(r); m = b.build(); }
    if (r.onein(3)) {
        // texts which look like parts of a state, or are empty
        static const string parts[] = {"", "", string("\x7a\0\0\0\0", 5), string("\x7a\0\0\0\1x", 6), string("\xba\0\0\0\0", 5), string("\xba\0\0\0\1\x1a\0\0\0\5\x7a\0\0\0\0", 15), string("\x1a\0\0\0\7\x7a\0\0\0\0", 10), string("\x9a\0\0\0\0\xba\0\0\0\0", 10)};
        for (auto &x : b.unsent) if (r.onein(2)) x = parts[r.below(8)];
        for (auto &x : b.unacked) if (r.onein(2)) x.second = parts[r.below(8)];
        m = b.build();
    }
    if (kind == 5) {
        // every truncation (all of them, or the interesting ones)
        int n = 0;
        for (size_t i = 0; i < m.size() && !c.violated; i++) { refuse(c, w, m.substr(0, i), "truncated", (int)(i % 4)); n++; }
        for (int i = 0; i < 12 && !c.violated; i++) refuse(c, w, m + (i == 0 ? string(1, '\0') : i == 1 ? string("\x7a\0\0\0\0", 5) : i == 2 ? string("\xba\0\0\0\0", 5) : i == 3 ? m : r.bytes(1 + r.below(20))), "extended", i % 4);
        stat_add("truncations", (u64)n);
    } else if (kind == 6) {
        auto t = tags(b);
        static const u8 types[] = {0x1a, 0x7a, 0x9a, 0xba, 0x00, 0xff};
        for (size_t p : t) for (u8 ty : types) { if (c.violated) break; string x = m; x[p] = (char)ty; refuse(c, w, x, "type field", (int)r.below(4)); stat_add("type_mutations"); }
        for (size_t p : t) {
            u32 old = (u32)(u8)m[p + 1] << 24 | (u32)(u8)m[p + 2] << 16 | (u32)(u8)m[p + 3] << 8 | (u8)m[p + 4];
            u32 left = (u32)(m.size() - p - 5);
            for (u32 v : {old - 1, old + 1, 0u, 1u, left, left + 1, left - 1, left + 5, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffbu, old + 0x10000, old + 0x1000000}) {
                if (c.violated) break;
                string x = m;
                x[p + 1] = (char)(v >> 24); x[p + 2] = (char)(v >> 16); x[p + 3] = (char)(v >> 8); x[p + 4] = (char)v;
                refuse(c, w, x, "length field", (int)r.below(4));
                stat_add("length_mutations");
            }
        }
    } else {
        for (int i = 0; i < 60 && !c.violated; i++) {
            string x = m;
            int n = 1 + (int)r.below(3);
            for (int j = 0; j < n; j++) switch (r.below(7)) {
            case 0: if (!x.empty()) x[r.below(x.size())] = (char)r.next(); break;
            case 1: if (!x.empty()) x[r.below(x.size())] ^= (char)(1 << r.below(8)); break;
            case 2: if (!x.empty()) x.erase(r.below(x.size()), 1 + r.below(8)); break;
            case 3: x.insert(r.below(x.size() + 1), r.bytes(1 + r.below(8))); break;
            case 4: x = r.bytes(r.below(60)); if (!x.empty() && r.onein(2)) x[0] = 0x1a; break;
            case 5: { SmBlob o = random_state(r); string y = o.build(); if (y.size() < 700) { size_t cut = r.below(x.size() + 1); x = x.substr(0, cut) + y.substr(r.below(y.size() + 1)); } break; }
            case 6: { auto t = tags(b); size_t p = t[r.below(t.size())], q = t[r.below(t.size())]; if (q + 5 <= x.size() && p + 5 <= x.size()) for (int k = 0; k < 5; k++) std::swap(x[p + k], x[q + k]); break; }
            }
            refuse(c, w, x, "mutated", (int)r.below(4));
            stat_add("random_mutations");
        }
    }
    c.nontrivial = true;
}
