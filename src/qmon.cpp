#include "qmon.h"

static const string REQ = "<r xmlns='urn:xmpp:sm:3'/>";

static int q_handler(xmpp_conn_t *, xmpp_stanza_t *st, void *ud)
{
    QMon *m = (QMon *)ud;
    const char *n = xmpp_stanza_get_name(st), *ns = xmpp_stanza_get_ns(st);
    if (!m->active) return 1;
    m->in_cb++;
    m->observe("handler");
    if (m->deep && m->in_cb == 1) for (int i = (int)m->r.below(3); i-- > 0;) { if (m->r.onein(3)) m->drop(); else m->send(); }
    m->in_cb--;
    // the library answers after the handlers
    if (n && ns && !strcmp(n, "r") && !strcmp(ns, NS_SM) && m->sm) m->lib(QMon::LIB_A);
    return 1;
}
static int q_timed(xmpp_conn_t *, void *ud)
{
    QMon *m = (QMon *)ud;
    if (!m->active) return 1;
    m->in_cb++;
    m->observe("timed handler");
    if (m->deep && m->in_cb == 1) { if (m->r.onein(3)) m->drop(); else m->send(); }
    m->in_cb--;
    return 1;
}
static void q_smcb(xmpp_conn_t *, void *ud, const unsigned char *, size_t)
{
    QMon *m = (QMon *)ud;
    if (!m->active || m->in_api) return;
    m->in_cb++;
    m->observe("SM callback");
    if (m->deep && m->in_cb == 1 && m->r.onein(8)) { if (m->r.onein(2)) m->drop(); else m->send(); stat_add("ops_in_sm_callback"); }
    m->in_cb--;
}
QMon::QMon(World &w, Client *k, const string &tag) : w(w), c(w.c), k(k), r(w.c.rng), tag(tag) {}

void QMon::attach()
{
    p = w.peer();
    p->opaque = true;
    comp = p->comp;
    pend.clear();
    els.clear();
    cur = off = 0;
    q.clear();
    active = true;
    closing = false;
    xmpp_handler_add(k->conn, q_handler, nullptr, nullptr, nullptr, this);
    xmpp_timed_handler_add(k->conn, q_timed, 7, this);
    if (r.onein(2)) xmpp_conn_set_sm_callback(k->conn, q_smcb, this);
    observe("start");
}
void QMon::lib(T t, const string &text)
{
    els.push_back({t, text});
    stat_add("library_elements");
}
string QMon::show()
{
    string s = strf("%s: element %zu of %zu, offset %zu; ", tag.c_str(), cur, els.size(), off);
    size_t a = cur > 2 ? cur - 2 : 0;
    for (size_t i = a; i < els.size() && i < cur + 4; i++) s += strf("[%zu%s%s %s] ", i, els[i].dropped ? " dropped" : "", els[i].done ? " done" : "", vis(els[i].text, 60).c_str());
    return s;
}
void QMon::rx(const string &b)
{
    if (!active || skip) return;
    pend += b;
    for (;;) {
        while (cur < els.size() && (els[cur].done || els[cur].dropped)) {
            if (off) { c.viol("wire/dropped-partly", "an element which was dropped is partly on the wire: " + show()); skip = true; return; }
            cur++;
        }
        if (cur < els.size() && els[cur].text.empty() && els[cur].t == USER) { els[cur].done = true; user_done++; continue; } // nothing to be seen of it
        if (pend.empty()) return;
        if (!off && sm) {
            // requests of the library follow user elements
            size_t n = std::min(pend.size(), REQ.size());
            if (pend.compare(0, n, REQ, 0, n) == 0 && !(cur < els.size() && els[cur].text.compare(0, n, REQ, 0, n) == 0 && n == REQ.size())) {
                bool could_be_el = cur < els.size() && (els[cur].t == LIB_A || els[cur].t == LIB_CLOSE ? n <= 2 : els[cur].text.compare(0, n, pend, 0, n) == 0);
                if (n == REQ.size()) {
                    pend.erase(0, n);
                    r_seen++;
                    stat_add("requests_seen");
                    if (on_r) on_r();
                    continue;
                }
                (void)could_be_el;
                return; // not complete
            }
        }
        if (cur >= els.size()) {
            c.viol("wire/unexpected", "bytes on the wire although every queued element is on the wire already: " + vis(pend, 160) + " " + show());
            skip = true;
            return;
        }
        El &e = els[cur];
        if (e.t == LIB_A) {
            size_t x = pend.find("/>");
            string head = pend.substr(0, x == string::npos ? string::npos : x + 2);
            if (head.size() > 80 || head.compare(0, std::min(head.size(), (size_t)3), "<a ", 0, std::min(head.size(), (size_t)3)) || (x != string::npos && (head.find("xmlns=\"" NS_SM "\"") == string::npos || head.find(" h=\"") == string::npos))) {
                c.viol("wire/library-element", "the answer to <r/> is not where it was queued: " + vis(pend, 160) + " " + show());
                skip = true;
                return;
            }
            if (x == string::npos) return;
            pend.erase(0, x + 2);
            e.done = true;
            continue;
        }
        size_t n = std::min(pend.size(), e.text.size() - off);
        if (pend.compare(0, n, e.text, off, n)) {
            c.viol("wire/bytes", strf("the bytes on the wire differ from the queued element: ") + vis(pend, 160) + " expected " + vis(e.text.substr(off), 160) + " " + show());
            skip = true;
            return;
        }
        off += n;
        pend.erase(0, n);
        stat_add("bytes_matched", n);
        if (off == e.text.size()) {
            e.done = true;
            off = 0;
            if (e.t == USER) { user_done++; stat_add("elements_matched"); }
        } else stat_add("partial_elements");
    }
}
void QMon::observe(const char *where, bool post)
{
    if (!active || in_api || !k->conn || !k->open) return;
    int n = xmpp_conn_send_queue_len(k->conn);
    stat_add("queue_len_checks");
    if (n < 0 || (size_t)n > q.size()) { c.viol("len/too-many", strf("%s: queue length %d, at most %zu user elements are not started; ", where, n, q.size()) + show()); return; }
    while (q.size() > (size_t)n) q.pop_front();
    if ((size_t)n > max_len) max_len = n;
    for (size_t i : q) if (on_wire(i) && els[i].text.size()) { c.viol("len/started", strf("%s: queue length %d counts an element that is on the wire (at least partly): ", where, n) + vis(els[i].text, 80) + " " + show()); return; }
    if (post && !comp) {
        // what is neither counted nor on the wire: at most the head of the queue, which was tried
        size_t lim = q.empty() ? els.size() : q.front(), lost = 0, bad = 0;
        for (size_t i = cur; i < lim; i++) if (els[i].t == USER && !els[i].dropped && !els[i].done && els[i].text.size()) { lost++; bad = i; }
        if (lost > 1) c.viol("len/too-few", strf("%s: queue length %d, but %zu elements before are not completely on the wire (one of them can be under way): ", where, n, lost) + vis(els[bad].text, 80) + " " + show());
    }
}
string QMon::gen()
{
    string id = tag + strf("-%llu", (unsigned long long)++serial);
    size_t n;
    switch (r.below(16)) {
    case 0: n = 1000 + r.below(60); break;          // the formatting buffer
    case 1: n = 4000 + r.below(300); break;         // transport and compression buffers
    case 2: n = r.onein(3) ? 16300 + r.below(200) : 2; break; // TLS records
    case 3: n = r.onein(8) ? 40000 + r.below(60000) : 300; break;
    default: n = r.below(60);
    }
    if (big && r.onein(8)) n = 3000 + r.below(r.onein(4) ? 30000 : 9000);
    if (n > 200 && r.onein(2)) { // nothing for a compressor
        string x(n, 'x');
        for (auto &ch : x) ch = (char)(48 + r.below(75));
        for (auto &ch : x) if (ch == '<' || ch == '>') ch = '.';
        return id + ":" + x + ";";
    }
    return id + ":" + string(n, (char)('a' + r.below(26))) + ";";
}
void QMon::send_text(const string &t0, int how)
{
    string t = t0;
    xmpp_stanza_t *st = nullptr;
    if (how == 0) {
        st = make_message(w.ctx, tag + strf("-%llu", (unsigned long long)++serial), t0);
        char *b;
        size_t n;
        xmpp_stanza_to_text(st, &b, &n);
        t.assign(b, n);
        xmpp_free(w.ctx, b);
    }
    in_api++;
    int n0 = xmpp_conn_send_queue_len(k->conn);
    size_t i = els.size();
    els.push_back({USER, t});
    q.push_back(i);
    switch (how) {
    case 0: xmpp_send(k->conn, st); xmpp_stanza_release(st); break;
    case 1: xmpp_send_raw_string(k->conn, "%s", t.c_str()); break;
    case 2: { size_t h = t.size() / 2; xmpp_send_raw_string(k->conn, "%.*s%s", (int)h, t.c_str(), t.c_str() + h); break; }
    default: { char *x = (char *)malloc(t.size() ? t.size() : 1); memcpy(x, t.data(), t.size()); xmpp_send_raw(k->conn, x, t.size()); memset(x, 'Z', t.size()); free(x); }
    }
    int n1 = xmpp_conn_send_queue_len(k->conn);
    in_api--;
    sends++;
    stat_add("user_sends");
    if (n1 != n0 + 1) c.viol("len/send", strf("queue length %d after a send, %d before; ", n1, n0) + show());
    observe("send");
}
void QMon::send()
{
    if (!active || closing || !k->up) return;
    int how = (int)r.below(5);
    string t = gen();
    if (how >= 3) {
        if (r.onein(4)) t += r.bytes(r.below(50)); // any bytes
        if (r.onein(25)) t = "";
    } else if (how && r.onein(5)) t += "%s%n%d 100%";
    send_text(t, how);
}
void QMon::drop()
{
    if (!active || !k->conn) return;
    observe("before drop");
    bool old = r.onein(2);
    in_api++;
    int n0 = xmpp_conn_send_queue_len(k->conn);
    char *t = xmpp_conn_send_queue_drop_element(k->conn, old ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
    int n1 = xmpp_conn_send_queue_len(k->conn);
    in_api--;
    stat_add("drop_calls");
    if (!t) {
        if (n0 > 0) c.viol("drop/refused", strf("nothing was dropped although the queue length is %d; ", n0) + show());
        if (n1 != n0) c.viol("drop/len", strf("nothing was dropped, but the length changed from %d to %d", n0, n1));
        return;
    }
    string x = t;
    xmpp_free(w.ctx, t);
    if (n0 <= 0 || q.empty()) { c.viol("drop/started", "an element was dropped although none of the user is waiting: " + vis(x, 120) + " " + show()); return; }
    size_t i = old ? q.front() : q.back();
    if (x != els[i].text.c_str()) { c.viol("drop/text", string(old ? "oldest" : "youngest") + " dropped: " + vis(x, 120) + " expected " + vis(els[i].text, 120) + " " + show()); return; }
    if (n1 != n0 - 1) c.viol("drop/len", strf("length %d before, %d after a drop", n0, n1));
    els[i].dropped = true;
    if (old) q.pop_front(); else q.pop_back();
    drops++;
    stat_add(old ? "dropped_oldest" : "dropped_youngest");
    observe("drop");
}
void QMon::finish()
{
    if (!active || skip) return;
    rx("");
    for (size_t i = cur; i < els.size(); i++) if (!els[i].done && !els[i].dropped) { c.viol("wire/lost", "an element never reached the wire completely: " + vis(els[i].text, 100) + " " + show()); return; }
    if (!pend.empty()) c.viol("wire/unexpected", "bytes on the wire: " + vis(pend, 100) + " " + show());
    if (k->open) { int n = xmpp_conn_send_queue_len(k->conn); if (n) c.viol("len/end", strf("queue length %d although everything is on the wire", n)); }
    stat_add("drained");
}
void QMon::dead()
{
    if (!active) return;
    // what is left belongs to the user, in order, except of what was completely sent
    active = false;
    int n = 0, uncounted = 0;
    std::set<size_t> seen;
    size_t lo = cur, hi = els.size();
    // an empty element passes with what precedes it, nobody can see on the wire whether it has
    while (lo > 0 && els[lo - 1].t == USER && (els[lo - 1].dropped || els[lo - 1].text.empty())) lo--;
    for (;; n++) {
        bool old = !r.onein(4);
        int n0 = xmpp_conn_send_queue_len(k->conn);
        char *t = xmpp_conn_send_queue_drop_element(k->conn, old ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
        int n1 = xmpp_conn_send_queue_len(k->conn);
        if (!t) {
            if (n1) c.viol("dead/len", strf("queue length %d after the end of the connection, but there is nothing to drop", n1));
            break;
        }
        // the one whose transmission had started isn't counted
        if (n1 != n0 - 1 && (n1 != n0 || uncounted++)) c.viol("dead/len", strf("length %d before, %d after a drop on an ended connection", n0, n1));
        string x = t;
        xmpp_free(w.ctx, t);
        stat_add("dead_drops");
        size_t f = els.size();
        if (old) { for (size_t i = lo; i < hi && f == els.size(); i++) if (els[i].t == USER && !els[i].dropped && (!els[i].done || els[i].text.empty()) && x == els[i].text.c_str()) f = i; }
        else for (size_t i = hi; i-- > lo && f == els.size();) if (els[i].t == USER && !els[i].dropped && (!els[i].done || els[i].text.empty()) && x == els[i].text.c_str()) f = i;
        if (f == els.size()) { c.viol("dead/unknown", "after the end of the connection the queue returns " + vis(x, 100) + ", which is not the next unsent element of the user; " + show()); break; }
        if (old) lo = f + 1; else hi = f;
        seen.insert(f);
        if (n > 100000) break;
    }
    // what was waiting is there; a compressor may have taken the first of it meanwhile
    bool kept = !comp;
    for (size_t i : q) {
        if (seen.count(i)) { kept = true; continue; }
        if (kept && !c.violated && els[i].text.size()) c.viol("dead/lost", "element " + vis(els[i].text, 80) + " is not in the queue after the end of the connection");
    }
}
