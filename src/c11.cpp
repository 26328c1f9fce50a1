// C11: stanza handlers and timed handlers against a model of the registry.
#include "scen.h"

namespace {
enum Kind { K_STANZA, K_ID, K_TIMED, K_CTX };
static const char *kind_names[] = {"stanza", "id", "timed", "context timed"};
const int NCB = 6, NUD = 4, SENT = 99;
struct Lab;
Lab *L;
int ud_cell[NUD];

struct Reg { // one registration
    Kind kind;
    int cb, ud;         // ud NUD: null pointer
    string id, ns, name, type;
    bool has_ns = false, has_name = false, has_type = false;
    bool alive = true;
    u64 born = 0;       // number of the stanza being dispatched at that moment
    bool born_connect = false;
    u64 born_iter = 0;
    u64 seq = 0;
    // timed
    u64 period = 0, lo = 0, hi = 0, reg = 0, fired = 0, last = 0;
    string show() const
    {
        string s = strf("%s handler #%llu (callback %d, userdata %d", kind_names[kind], (unsigned long long)seq, cb, ud);
        if (kind == K_ID) s += " id=" + vis(id);
        if (has_ns) s += " ns=" + vis(ns);
        if (has_name) s += " name=" + vis(name);
        if (has_type) s += " type=" + vis(type);
        if (kind >= K_TIMED) s += strf(" period=%llu", (unsigned long long)period);
        return s + ")";
    }
};
struct St { // a stanza of the server
    string xml, id, name, type, ns;
    bool has_id = false, has_type = false;
    std::set<string> child_ns;
};
struct Cn {
    Client *k = nullptr;
    vector<Reg> regs;       // in registration order
    std::map<u64, St> st;
    u64 last_sent = 0, cur = 0;
    bool fin = true;        // dispatch of cur is over
    int pos_phase = 0;
    u64 pos_seq = 0;
    int depth = 0;          // within a stanza callback
    bool sentinel = false;
    bool judge = false;     // the connection is up and nobody asked to close it
    int tag = 0;
    u64 epoch = 0;          // number of stream starts
};
struct Lab {
    World &w;
    Case &c;
    Rng &r;
    vector<std::unique_ptr<Cn>> cns;
    vector<Reg> ctx_regs;
    u64 seq = 0, nsent = 0, calls = 0, tcalls = 0, mutations = 0, removed_in = 0, added_in = 0;
    bool jumped = false, in_run = false, released = false;
    u64 act_budget = 400;
    Lab(World &w) : w(w), c(w.c), r(w.c.rng) {}

    bool matches(const Reg &e, const St &s)
    {
        if (e.kind == K_ID) return s.has_id && s.id == e.id;
        if (e.has_ns && s.ns != e.ns && !s.child_ns.count(e.ns)) return false;
        if (e.has_name && s.name != e.name) return false;
        if (e.has_type && (!s.has_type || s.type != e.type)) return false;
        return true;
    }
    static int phase(const Reg &e) { return e.kind == K_ID ? 1 : 2; }
    bool after(const Reg &e, int ph, u64 sq) { return phase(e) > ph || (phase(e) == ph && e.seq > sq); }
    // all handlers of the stanza behind the cursor have had their turn
    void missed(Cn &n, u64 no, int ph, u64 sq, const Reg *upto)
    {
        auto it = n.st.find(no); // the numbers are common to all connections
        if (it == n.st.end()) return;
        const St &s = it->second;
        for (auto &e : n.regs) {
            if (!e.alive || e.kind >= K_TIMED || e.born == no || !after(e, ph, sq) || !matches(e, s)) continue;
            if (upto && (&e == upto || !after(*upto, phase(e), e.seq))) continue;
            if (upto) c.viol("order", e.show() + " matches and was registered before " + upto->show() + ", but was not called before it, for " + vis(s.xml, 300));
            else c.viol(strf("missed/%s", kind_names[e.kind]), e.show() + " was not called for " + vis(s.xml, 300));
            return;
        }
        stat_add("dispatches_checked");
    }
    void finish(Cn &n)
    {
        if (n.fin) return;
        n.fin = true;
        if (n.judge) missed(n, n.cur, n.pos_phase, n.pos_seq, nullptr);
    }
    void finish_all() { for (auto &n : cns) if (!n->depth) finish(*n); }
    // everything that was sent has been dispatched
    void all_dispatched(Cn &n)
    {
        finish(n);
        if (n.judge) for (u64 m = n.cur + 1; m <= n.last_sent; m++) missed(n, m, 0, 0, nullptr);
        n.cur = n.last_sent;
        n.st.clear();
    }
    void drop_pending(Cn &n) { n.judge = false; n.fin = true; n.cur = n.last_sent; n.st.clear(); }

    // ---- the API and its model
    void *udp(int u) { return u >= NUD ? nullptr : &ud_cell[u]; }
    Reg *find(vector<Reg> &v, Kind kd, int cb, int ud, const string &id = "") { for (auto &e : v) if (e.alive && e.kind == kd && e.cb == cb && e.ud == ud && (kd != K_ID || e.id == id)) return &e; return nullptr; }
    u64 born(Cn &n) { return n.depth ? n.cur : 0; }
    void add(Cn &n, int cb, int ud, const char *ns, const char *name, const char *type);
    void add_id(Cn &n, int cb, int ud, const string &id);
    void add_timed(Cn &n, int cb, int ud, u64 period);
    void add_ctx(int cb, int ud, u64 period);
    void del(Cn &n, int cb);
    void del_id(Cn &n, int cb, const string &id);
    void del_timed(Cn &n, int cb);
    void del_ctx(int cb);
    void purge(Cn &n)
    {
        for (auto &x : cns) if (x->depth) return;
        for (size_t i = n.regs.size(); i-- > 0;) if (!n.regs[i].alive) n.regs.erase(n.regs.begin() + (long)i);
    }
    int on_stanza(Kind kd, int cb, xmpp_conn_t *conn, xmpp_stanza_t *st, void *ud);
    int on_timed(int cb, xmpp_conn_t *conn, void *ud);
    int on_ctx(int cb, xmpp_ctx_t *x, void *ud);
    void action(Cn *self, const string &curid, int selfcb, Kind selfkind);
    void tick(unsigned long tmo);
    bool quiesce(Cn &n);
    void gen(Cn &n, string &out);
    Cn *of(xmpp_conn_t *conn) { for (auto &n : cns) if (n->k && n->k->conn == conn) return n.get(); return nullptr; }
    int udno(void *p) { if (!p) return NUD; for (int i = 0; i < NUD; i++) if (p == &ud_cell[i]) return i; return -1; }
    void up_event(Cn &n, int ev);
};
template <int N> int scb(xmpp_conn_t *c, xmpp_stanza_t *s, void *u) { return L->on_stanza(K_STANZA, N, c, s, u); }
template <int N> int icb(xmpp_conn_t *c, xmpp_stanza_t *s, void *u) { return L->on_stanza(K_ID, N, c, s, u); }
template <int N> int tcb(xmpp_conn_t *c, void *u) { return L->on_timed(N, c, u); }
template <int N> int gcb(xmpp_ctx_t *c, void *u) { return L->on_ctx(N, c, u); }
xmpp_handler s_cb[] = {scb<0>, scb<1>, scb<2>, scb<3>, scb<4>, scb<5>};
xmpp_handler i_cb[] = {icb<0>, icb<1>, icb<2>, icb<3>, icb<4>, icb<5>};
xmpp_timed_handler t_cb[] = {tcb<0>, tcb<1>, tcb<2>, tcb<3>, tcb<4>, tcb<5>};
xmpp_global_timed_handler g_cb[] = {gcb<0>, gcb<1>, gcb<2>, gcb<3>, gcb<4>, gcb<5>};
xmpp_handler sent_cb = scb<SENT>;

void Lab::add(Cn &n, int cb, int ud, const char *ns, const char *name, const char *type)
{
    mutations++;
    xmpp_handler_add(n.k->conn, cb == SENT ? sent_cb : s_cb[cb], ns, name, type, udp(ud));
    if (find(n.regs, K_STANZA, cb, ud)) { stat_add("duplicates"); return; }
    Reg e;
    e.kind = K_STANZA; e.cb = cb; e.ud = ud;
    if (ns) { e.has_ns = true; e.ns = ns; }
    if (name) { e.has_name = true; e.name = name; }
    if (type) { e.has_type = true; e.type = type; }
    e.born = born(n); e.seq = ++seq; e.born_iter = w.iters;
    if (e.born) stat_add("added_during_dispatch");
    n.regs.push_back(e);
}
void Lab::add_id(Cn &n, int cb, int ud, const string &id)
{
    mutations++;
    xmpp_id_handler_add(n.k->conn, i_cb[cb], id.c_str(), udp(ud));
    if (find(n.regs, K_ID, cb, ud, id)) { stat_add("duplicates"); return; }
    Reg e;
    e.kind = K_ID; e.cb = cb; e.ud = ud; e.id = id;
    e.born = born(n); e.seq = ++seq; e.born_iter = w.iters;
    if (e.born) stat_add("added_during_dispatch");
    n.regs.push_back(e);
}
void Lab::add_timed(Cn &n, int cb, int ud, u64 period)
{
    mutations++;
    xmpp_timed_handler_add(n.k->conn, t_cb[cb], (unsigned long)period, udp(ud));
    if (find(n.regs, K_TIMED, cb, ud)) { stat_add("duplicates"); return; }
    Reg e;
    e.kind = K_TIMED; e.cb = cb; e.ud = ud; e.period = period; e.seq = ++seq;
    e.reg = e.lo = e.hi = sim::now_ms;
    n.regs.push_back(e);
}
void Lab::add_ctx(int cb, int ud, u64 period)
{
    mutations++;
    xmpp_global_timed_handler_add(w.ctx, g_cb[cb], (unsigned long)period, udp(ud));
    if (find(ctx_regs, K_CTX, cb, ud)) { stat_add("duplicates"); return; }
    Reg e;
    e.kind = K_CTX; e.cb = cb; e.ud = ud; e.period = period; e.seq = ++seq;
    e.reg = e.lo = e.hi = sim::now_ms;
    ctx_regs.push_back(e);
}
void Lab::del(Cn &n, int cb)
{
    mutations++;
    xmpp_handler_delete(n.k->conn, s_cb[cb]);
    for (auto &e : n.regs) if (e.kind == K_STANZA && e.cb == cb && e.alive) { e.alive = false; if (n.depth) stat_add("deleted_during_dispatch"); }
}
void Lab::del_id(Cn &n, int cb, const string &id)
{
    mutations++;
    xmpp_id_handler_delete(n.k->conn, i_cb[cb], id.c_str());
    for (auto &e : n.regs) if (e.kind == K_ID && e.cb == cb && e.id == id && e.alive) { e.alive = false; if (n.depth) stat_add("deleted_during_dispatch"); }
}
void Lab::del_timed(Cn &n, int cb)
{
    mutations++;
    xmpp_timed_handler_delete(n.k->conn, t_cb[cb]);
    for (auto &e : n.regs) if (e.kind == K_TIMED && e.cb == cb) e.alive = false;
}
void Lab::del_ctx(int cb)
{
    mutations++;
    xmpp_global_timed_handler_delete(w.ctx, g_cb[cb]);
    for (auto &e : ctx_regs) if (e.cb == cb) e.alive = false;
}

const char *NS_POOL[] = {"urn:a", "urn:b", "urn:c", "urn:d", NS_CLIENT, "urn:ab", "urn"};
const char *NAME_POOL[] = {"message", "presence", "iq", "foo", "body", "r", "messag"};
const char *TYPE_POOL[] = {"chat", "get", "result", "error", "set", "", "unavailable"};
const char *ID_POOL[] = {"i0", "i1", "i2", "i10", "Aa", "BB", "0", "_xmpp_bind1", "x", "a long identifier with blanks & <markup>", "\xc3\xa9",
    // the same bucket, and the same beginning
    "pppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppa", "pppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppb", "pppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppbc"};

// a random operation, inside a callback or between the iterations
void Lab::action(Cn *self, const string &curid, int selfcb, Kind selfkind)
{
    if (!act_budget) return;
    act_budget--;
    Cn *n = self;
    // another connection's handlers; their position must be known exactly
    if (!n || r.onein(4)) { Cn &o = *cns[r.below(cns.size())]; if (o.k && (o.sentinel || !in_run)) n = &o; }
    if (!n || !n->k || (n != self && !n->sentinel && in_run)) return;
    if (n != self) { if (n->depth) return; finish(*n); }
    auto pool = [&](const char **p, size_t k, int pct) -> const char * { return r.chance(pct) ? p[r.below(k)] : nullptr; };
    int cb = (int)r.below(NCB), ud = (int)r.below(NUD + 1);
    // all that concerns the same id chain is interesting
    string id = !curid.empty() && r.chance(70) ? curid : ID_POOL[r.below(14)];
    static const u64 per[] = {0, 1, 3, 10, 50, 100, 1000, 5000, 20000};
    auto period = [&]() -> u64 { return r.onein(30) ? ~0ull >> r.below(40) : r.onein(3) ? r.below(300) : per[r.below(9)]; };
    // the callback at work removes and adds itself: not both, what its return value then means is open
    auto own = [&](Kind kd, int x) { return self && n == self && kd == selfkind && x == selfcb; };
    bool timed_ok = true;
    switch (r.below(20)) {
    case 0: case 1: case 2: case 3: if (own(K_STANZA, cb) && !find(n->regs, K_STANZA, cb, ud)) break; add(*n, cb, ud, pool(NS_POOL, 7, 40), pool(NAME_POOL, 7, 40), pool(TYPE_POOL, 7, 30)); break;
    case 4: case 5: case 6: case 7: if (own(K_ID, cb) && !find(n->regs, K_ID, cb, ud, id)) break; add_id(*n, cb, ud, id); break;
    case 8: case 9: del(*n, cb); break;
    case 10: case 11: del_id(*n, cb, id); break;
    case 12: if (selfcb >= 0 && selfcb < NCB && self) { if (selfkind == K_STANZA) del(*self, selfcb); else if (selfkind == K_ID) del_id(*self, selfcb, curid); else if (selfkind == K_TIMED) del_timed(*self, selfcb); stat_add("self_deletes"); } break;
    case 13: if (own(K_TIMED, cb) && !find(n->regs, K_TIMED, cb, ud)) break; add_timed(*n, cb, ud, period()); break;
    case 14: del_timed(*n, cb); break;
    case 15: if (selfkind == K_CTX && selfcb == cb && in_run) break; add_ctx(cb, ud, period()); break;
    case 16: del_ctx(cb); break;
    case 17: if (n->judge) n->k->send_text("<message to='a@b'><body>x</body></message>"); break;
    case 18: if (n->judge) { xmpp_stanza_t *m = make_message(w.ctx, "q", "text"); xmpp_send(n->k->conn, m); xmpp_stanza_release(m); } break;
    default: if (timed_ok) { for (int x = 0; x < NCB && r.onein(3); x++) { if (r.onein(2)) del(*n, x); else del_id(*n, x, id); } } break;
    }
}
int Lab::on_stanza(Kind kd, int cb, xmpp_conn_t *conn, xmpp_stanza_t *st, void *ud)
{
    calls++;
    for (auto &n : cns) if (n->depth) { c.viol("nested", "a handler was called while another one is running"); return 1; }
    Cn *n = of(conn);
    if (!n) { c.viol("connection", "a handler was called with a connection object it was not registered with"); return 0; }
    int u = udno(ud);
    if (u < 0) { c.viol("userdata", "a handler was called with a userdata pointer nobody gave"); return 0; }
    const char *id = xmpp_stanza_get_id(st), *no = xmpp_stanza_get_attribute(st, "n");
    string sid = id ? id : "";
    Reg *e = find(n->regs, kd, cb, u, sid);
    for (auto &o : cns) if (o.get() != n) finish(*o);
    string what = strf("%s handler (callback %d, userdata %d) on connection %d", kind_names[kd], cb, u, n->tag);
    if (!no) { // part of the negotiation
        if (!e) c.viol(strf("dead/%s", kind_names[kd]), what + " is not registered any more, but was called");
        else if (e->born_connect && e->born_iter == w.iters) c.viol("sees-current", e->show() + " was added by the notification of the connection, while the last stanza of the negotiation is dispatched, and saw that stanza");
        return 1;
    }
    u64 m = strtoull(no, nullptr, 10);
    if (!n->st.count(m)) { c.viol("unknown-stanza", what + " got stanza number " + vis(no) + " which is not on its way"); return 1; }
    const St &s = n->st[m];
    if (m < n->cur || (m == n->cur && n->fin)) { c.viol("out-of-order", what + strf(" got stanza %llu after stanza %llu was over", (unsigned long long)m, (unsigned long long)n->cur)); return 1; }
    if (m > n->cur) {
        finish(*n);
        if (n->judge) for (u64 x = n->cur + 1; x < m; x++) missed(*n, x, 0, 0, nullptr);
        purge(*n);
        e = find(n->regs, kd, cb, u, sid);
        n->cur = m;
        n->fin = false;
        n->pos_phase = 0;
        n->pos_seq = 0;
    }
    if (!e) { c.viol(strf("dead/%s", kind_names[kd]), what + " is not registered any more, but was called for " + vis(s.xml, 300)); return 1; }
    if (!matches(*e, s)) { c.viol(strf("filter/%s", kind_names[kd]), e->show() + " does not match " + vis(s.xml, 300)); return 1; }
    if (e->born == m) { c.viol("sees-current", e->show() + " was added while the stanza was being dispatched and saw it: " + vis(s.xml, 300)); return 1; }
    if (!after(*e, n->pos_phase, n->pos_seq)) { c.viol("twice", e->show() + " was called twice or out of order for " + vis(s.xml, 300)); return 1; }
    if (n->judge) missed(*n, m, n->pos_phase, n->pos_seq, e);
    n->pos_phase = phase(*e);
    n->pos_seq = e->seq;
    stat_add("stanza_calls");
    if (kd == K_ID) stat_add("id_calls");
    if (cb == SENT || c.violated) return 1;
    u64 sq = e->seq;
    n->depth++;
    int k = r.onein(2) ? 0 : 1 + (int)r.below(4);
    for (int i = 0; i < k; i++) action(n, sid, cb, kd);
    n->depth--;
    bool gone = true;
    for (auto &x : n->regs) if (x.seq == sq && x.alive) gone = false;
    if (r.onein(200) && n->judge) { n->judge = false; n->k->disconnect(); stat_add("disconnect_in_handler"); }
    bool again = false;
    if (gone) for (auto &x : n->regs) if (x.alive && x.kind == kd && x.cb == cb && x.ud == u) again = true;
    int ret = again || r.chance(70) ? 1 + (int)r.below(3) : 0;
    if (!ret) { for (auto &x : n->regs) if (x.seq == sq) x.alive = false; stat_add("returned_false"); }
    return ret;
}
int Lab::on_timed(int cb, xmpp_conn_t *conn, void *ud)
{
    tcalls++;
    Cn *n = of(conn);
    int u = udno(ud);
    if (!n || u < 0) { c.viol("connection", "a timed handler was called with a connection or userdata it was not registered with"); return 0; }
    finish_all();
    for (auto &x : cns) purge(*x);
    Reg *e = find(n->regs, K_TIMED, cb, u);
    if (!e) { c.viol("dead/timed", strf("timed handler (callback %d, userdata %d) on connection %d is not registered any more, but was called", cb, u, n->tag)); return 0; }
    u64 now = sim::now_ms;
    if (!n->k->up) c.viol("timed/not-connected", e->show() + " was called although the connection is not up");
    if (now - e->lo < e->period) c.viol("timed/early", e->show() + strf(" was called %llu ms after it was registered, re-armed or called", (unsigned long long)(now - e->lo)));
    stat_add("timed_calls");
    e->lo = e->hi = e->last = now;
    e->fired++;
    if (c.violated) return 1;
    u64 sq = e->seq;
    int k = r.onein(3) ? 1 + (int)r.below(3) : 0;
    for (int i = 0; i < k; i++) action(n->sentinel ? n : nullptr, "", cb, K_TIMED);
    if (r.onein(20)) { sim::now_ms += r.below(200); jumped = true; }
    if (r.onein(100) && n->judge) { n->judge = false; n->k->disconnect(); stat_add("disconnect_in_timed_handler"); }
    bool gone = true;
    for (auto &x : n->regs) if (x.seq == sq && x.alive) gone = false;
    bool again = gone && find(n->regs, K_TIMED, cb, u);
    int ret = again || r.chance(85) ? 1 : 0;
    if (!ret) for (auto &x : n->regs) if (x.seq == sq) x.alive = false;
    return ret;
}
int Lab::on_ctx(int cb, xmpp_ctx_t *x, void *ud)
{
    tcalls++;
    int u = udno(ud);
    if (x != w.ctx || u < 0) { c.viol("connection", "a context timed handler was called with a context or userdata it was not registered with"); return 0; }
    finish_all();
    Reg *e = find(ctx_regs, K_CTX, cb, u);
    if (!e) { c.viol("dead/context timed", strf("context timed handler (callback %d, userdata %d) is not registered any more, but was called", cb, u)); return 0; }
    u64 now = sim::now_ms;
    if (now - e->lo < e->period) c.viol("timed/early", e->show() + strf(" was called %llu ms after it was registered or called", (unsigned long long)(now - e->lo)));
    stat_add("context_timed_calls");
    e->lo = e->hi = e->last = now;
    e->fired++;
    if (c.violated) return 1;
    u64 sq = e->seq;
    int k = r.onein(3) ? 1 + (int)r.below(3) : 0;
    for (int i = 0; i < k; i++) { if (cns.empty()) break; action(nullptr, "", cb, K_CTX); }
    if (cns.size() == 1 && !cns[0]->k) {}
    bool gone = true;
    for (auto &y : ctx_regs) if (y.seq == sq && y.alive) gone = false;
    bool again = gone && find(ctx_regs, K_CTX, cb, u);
    int ret = again || r.chance(85) ? 1 : 0;
    if (!ret) for (auto &y : ctx_regs) if (y.seq == sq) y.alive = false;
    return ret;
}
// one loop iteration; what was due before it must have been called
void Lab::tick(unsigned long tmo)
{
    struct Due { Cn *n; u64 seq, epoch; bool was; };
    vector<Due> v;
    u64 t0 = sim::now_ms;
    bool any;
    for (auto &n : cns) for (auto &e : n->regs) if (e.kind == K_TIMED && e.alive && n->k && n->k->up) v.push_back({n.get(), e.seq, n->epoch, t0 - e.hi >= e.period});
    for (auto &e : ctx_regs) if (e.alive) v.push_back({nullptr, e.seq, 0, t0 - e.hi >= e.period});
    jumped = false;
    in_run = true;
    w.once(tmo);
    in_run = false;
    u64 now = sim::now_ms;
    // (without any socket the loop just sleeps)
    any = false;
    for (auto &n : cns) any |= n->k && n->k->open;
    for (auto &d : v) {
        if (d.n && (!d.n->k || !d.n->k->up || d.n->epoch != d.epoch)) continue;
        for (auto &e : d.n ? d.n->regs : ctx_regs) {
            if (e.seq != d.seq || !e.alive || e.last >= t0) continue;
            if (d.was) { c.viol("timed/missed", e.show() + strf(" was due since %llu ms, but was not called in this iteration", (unsigned long long)(t0 - e.hi - e.period))); return; }
            // the loop must not sleep through
            if (any && !jumped && now - e.hi >= e.period && now - e.hi - e.period > 5) { c.viol("timed/overslept", e.show() + strf(": the loop slept %llu ms, %llu too long", (unsigned long long)(now - t0), (unsigned long long)(now - e.hi - e.period))); return; }
        }
        stat_add(d.was ? "due_checked" : "not_due_checked");
    }
    for (auto &n : cns) if (n->k && !n->k->up) drop_pending(*n);
    for (auto &n : cns) purge(*n);
    for (size_t i = ctx_regs.size(); i-- > 0;) if (!ctx_regs[i].alive) ctx_regs.erase(ctx_regs.begin() + (long)i);
}
bool Lab::quiesce(Cn &n)
{
    XPeer *p = nullptr;
    for (int i = 0, idle = 0; i < 3000 && idle < 4 && !c.violated; i++) {
        p = nullptr;
        for (auto *q : w.peers) if (q->no == n.tag) p = q;
        if (!n.k || !n.k->up) return false;
        bool moving = p && (!p->outq.empty() || (p->s && !p->s->to_client.empty()));
        idle = moving ? 0 : idle + 1;
        tick(1);
    }
    if (c.violated || !n.k->up) return false;
    all_dispatched(n);
    stat_add("quiescent_points");
    return !c.violated;
}
static string esc(const string &s)
{
    string o;
    for (char ch : s) { if (ch == '&') o += "&amp;"; else if (ch == '<') o += "&lt;"; else if (ch == '\'') o += "&apos;"; else o += ch; }
    return o;
}
void Lab::gen(Cn &n, string &out)
{
    St s;
    u64 no = ++nsent;
    n.last_sent = no;
    s.name = r.chance(75) ? NAME_POOL[r.below(3)] : NAME_POOL[r.below(7)];
    s.ns = n.k->component ? NS_COMPONENT : NS_CLIENT;
    string x;
    bool prefixed = r.onein(12);
    bool own = r.onein(5);
    if (own) s.ns = NS_POOL[r.below(7)];
    x = prefixed && own ? "<p:" + s.name + " xmlns:p='" + s.ns + "'" : "<" + s.name + (own ? " xmlns='" + s.ns + "'" : "");
    string inherit = prefixed && own ? (n.k->component ? NS_COMPONENT : NS_CLIENT) : s.ns;
    if (r.chance(70)) { s.has_id = true; s.id = ID_POOL[r.below(r.onein(3) ? 14 : 3)]; x += " id='" + esc(s.id) + "'"; }
    if (r.chance(60)) { s.has_type = true; s.type = TYPE_POOL[r.below(7)]; x += " type='" + s.type + "'"; }
    x += " n='" + std::to_string(no) + "'";
    int kids = (int)r.below(4);
    if (!kids && r.onein(2)) x += "/>";
    else {
        x += ">";
        for (int i = 0; i < kids; i++) {
            if (r.onein(3)) x += "text &amp; ";
            string cn = NAME_POOL[r.below(7)], cns_ = inherit;
            bool c_own = r.chance(60);
            string attr;
            if (c_own) { cns_ = NS_POOL[r.below(4)]; attr = " xmlns='" + cns_ + "'"; }
            bool cp = c_own && r.onein(4);
            string tag = cp ? "q:" + cn : cn;
            if (cp) attr = " xmlns:q='" + cns_ + "'";
            s.child_ns.insert(cns_);
            x += "<" + tag + attr;
            if (r.onein(4)) x += " id='i1' type='get' name='x'";
            if (r.onein(3)) x += "><deep xmlns='" + string(NS_POOL[r.below(7)]) + "'/></" + tag + ">";
            else x += "/>";
        }
        if (r.onein(3)) x += "tail";
        x += prefixed && own ? "</p:" + s.name + ">" : "</" + s.name + ">";
    }
    s.xml = x;
    n.st[no] = s;
    out += x;
    stat_add("stanzas_sent");
}
void Lab::up_event(Cn &n, int ev)
{
    u64 now = sim::now_ms;
    if (ev == XMPP_CONN_CONNECT || ev == XMPP_CONN_RAW_CONNECT) {
        n.epoch++;
        u64 start = n.k->t_attempt;
        if (n.k->is_raw) start = now;
        else for (auto &e : w.tr) if (e.k == Ev::RX_HEADER && e.conn == (int)w.peers.size() - 1) { start = e.t; break; }
        for (auto &e : n.regs) if (e.kind == K_TIMED) { if (start > e.lo) e.lo = start; if (now > e.hi) e.hi = now; }
        stat_add("stream_starts");
        // from inside the notification
        size_t before = n.regs.size();
        if (!n.k->is_raw) for (int i = (int)r.below(4); i-- > 0;) { if (r.onein(2)) action(&n, "", -1, K_STANZA); else { int ud = (int)r.below(NUD + 1); add(n, (int)r.below(NCB), ud, nullptr, nullptr, nullptr); } }
        for (size_t i = before; i < n.regs.size(); i++) n.regs[i].born_connect = true;
    } else { finish(n); drop_pending(n); }
}
} // namespace

PROP(C11)
{
    World w(c);
    Lab lab(w);
    L = &lab;
    struct Guard { World &w; ~Guard() { for (auto &k : w.clients) k->on_event = nullptr; L = nullptr; w.fini(); } } guard{w};
    Rng &r = c.rng;
    ScenOpt o;
    o.hostile_pct = 0;
    o.tls_pct = 25;
    o.user_load = false;
    o.bad_certs = false;
    lab.act_budget = 300 + r.below(c.thorough ? 3000 : 700);
    w.use_run = r.onein(6);
    int nconn = 1 + (int)r.onein(3);
    bool sentinel = r.chance(75);
    vector<std::unique_ptr<Scen>> scens;
    vector<std::function<void(XPeer &)>> onp;
    vector<int> kinds; // 0 client, 1 component, 2 raw
    for (int i = 0; i < nconn; i++) {
        scens.emplace_back(new Scen(w, o));
        Scen &s = *scens.back();
        ConnCfg &g = s.next_cfg();
        int kd = (int)r.below(5);
        kd = kd < 3 ? 0 : kd - 2;
        if (g.component) kd = 1;
        else if (kd == 1) kd = 2;
        s.make_good(g);
        if (kd == 2) { s.k->set("alice@example.org", "pw", 0); }
        kinds.push_back(kd);
        onp.push_back(w.on_peer);
        lab.cns.emplace_back(new Cn);
        Cn &n = *lab.cns.back();
        n.k = s.k;
        n.sentinel = sentinel;
        Cn *np = &n;
        s.k->on_event = [&lab, np](int ev) { lab.up_event(*np, ev); };
        if (sentinel) lab.add(n, SENT, NUD, nullptr, nullptr, nullptr);
    }
    // before anything is connected
    for (int i = (int)r.below(25); i-- > 0;) lab.action(nullptr, "", -1, K_STANZA);
    if (r.onein(2)) { for (int i = (int)r.below(4); i-- > 0;) { int ud = (int)r.below(NUD + 1); lab.add_ctx((int)r.below(NCB), ud, r.below(100)); } for (int i = (int)r.below(5); i-- > 0;) lab.tick((unsigned long)r.below(50)); }
    int rounds = 1 + (int)r.below(3);
    for (int rd = 0; rd < rounds && !c.violated; rd++) {
        if (r.onein(2)) { sim::now_ms += r.below(2) ? r.below(300) : r.below(20000); }
        lockstep(w, true);
        w.wire_hook = nullptr;
        sim::policy = [] { sim::Policy p = sim::policy; p.arrive = nullptr; p.on_recv = nullptr; p.on_send = nullptr; return p; }();
        for (int i = 0; i < nconn && !c.violated; i++) {
            Cn &n = *lab.cns[(size_t)i];
            if (n.k->open) continue;
            Scen &s = *scens[(size_t)i];
            int kd = kinds[(size_t)i];
            w.on_peer = onp[(size_t)i];
            u64 cd = r.onein(3) ? r.below(3000) : 0;
            sim::policy.endpoint = [cd](const string &, int) { sim::Endpoint e; if (cd) { e.outcome = sim::ACCEPT_LATER; e.delay = cd; } return e; };
            if (kd == 2) {
                w.on_peer = [](XPeer &p) { p.opaque = true; };
                if (n.k->connect_raw("srv.example.net")) { c.viol("connect", "xmpp_connect_raw failed"); return; }
            } else {
                s.hooks();
                w.srv.conf = s.cur->srv;
                u64 d = r.onein(4) ? r.below(400) : 0;
                w.srv.conf.delay = d;
                if (s.start()) { c.viol("connect", "connect failed"); return; }
                w.srv.conf.delay = d;
            }
            u64 end = sim::now_ms + 30000;
            while (!n.k->up && n.k->open && sim::now_ms < end && !c.violated) lab.tick(10);
            if (c.violated) return;
            if (!n.k->up) { c.viol("connect", "the connection did not come up"); return; }
            w.srv.conf.delay = 0;
            n.tag = w.peers.back()->no;
            for (int j = 0; j < 6 && n.k->up && !c.violated; j++) lab.tick(1);
            if (kd == 2 && n.k->up) {
                // a stream of the user's own
                XPeer *p = w.peers.back();
                p->tx("h", "<?xml version='1.0'?><stream:stream xmlns='" NS_CLIENT "' xmlns:stream='" NS_STREAM "' id='1' version='1.0'>");
                u64 e0 = n.epoch;
                xmpp_conn_open_stream_default(n.k->conn);
                for (int j = 0; j < 100 && n.k->up && n.epoch == e0 && !c.violated; j++) lab.tick(1);
                if (c.violated) return;
                if (n.k->up && n.epoch == e0) { c.viol("connect", "the stream did not open"); return; }
                for (int j = 0; j < 5 && n.k->up; j++) lab.tick(1);
            }
            n.judge = n.k->up;
            n.cur = n.last_sent;
            n.fin = true;
            n.st.clear();
        }
        lockstep(w, false);
        if (r.onein(2)) net_policy(w, r.onein(4) ? NET_STALL : NET_CHUNKY, NET_PLAIN);
        int steps = 5 + (int)r.below(c.thorough ? 120 : 50);
        for (int st = 0; st < steps && !c.violated; st++) {
            Cn &n = *lab.cns[r.below(lab.cns.size())];
            if (n.judge && n.k->up && r.chance(60)) {
                XPeer *p = nullptr;
                for (auto *q : w.peers) if (q->no == n.tag) p = q;
                string out;
                for (int i = 1 + (int)(r.onein(3) ? r.below(8) : 0); i-- > 0;) lab.gen(n, out);
                if (p) p->tx("u", out);
            }
            if (r.chance(30)) {
                if (lab.cns.size() == 1 && !sentinel) { if (n.judge && !lab.quiesce(n)) continue; }
                else if (!sentinel) { bool ok = true; for (auto &x : lab.cns) if (x->judge && !lab.quiesce(*x)) ok = false; if (!ok) continue; }
                lab.finish_all();
                for (int i = 1 + (int)r.below(5); i-- > 0;) lab.action(nullptr, "", -1, K_STANZA);
            }
            if (r.onein(10)) sim::now_ms += r.onein(3) ? r.below(30000) : r.below(300);
            if (r.onein(40) && n.judge && n.k->up && n.k->is_raw) {} // (restart of a user's stream: see the round above)
            static const unsigned long tm[] = {0, 1, 10, 100, 1000};
            lab.tick(tm[r.below(5)]);
            if (r.onein(6) && n.judge) lab.quiesce(n);
        }
        for (auto &n : lab.cns) if (n->judge && n->k->up && !c.violated) lab.quiesce(*n);
        if (c.violated) return;
        // the end of this round
        for (int i = 0; i < nconn; i++) {
            Cn &n = *lab.cns[(size_t)i];
            if (!n.k->open) continue;
            if (nconn == 2 && r.onein(3) && n.judge) continue; // stays
            lab.finish(n);
            n.judge = false;
            if (r.onein(3)) { for (auto *q : w.peers) if (q->no == n.tag) { if (r.onein(2)) q->fin(); else q->rst(); } }
            else n.k->disconnect();
            for (int j = 0; j < 400 && n.k->open && !c.violated; j++) lab.tick(50);
            if (c.violated) return;
            if (n.k->open) { n.k->disconnect(); for (int j = 0; j < 400 && n.k->open && !c.violated; j++) lab.tick(50); }
            if (n.k->open) { c.viol("stuck", "the connection does not end"); return; }
            lab.drop_pending(n);
        }
        lab.act_budget += 50;
        for (int j = 0; j < 5 && !c.violated; j++) { if (r.onein(3)) lab.action(nullptr, "", -1, K_STANZA); sim::now_ms += r.below(500); lab.tick((unsigned long)r.below(100)); }
    }
    if (c.violated) return;
    c.nontrivial = lab.calls + lab.tcalls > 5;
    c.mixsig(lab.calls * 1000003 + lab.tcalls * 31 + lab.mutations);
    if (c.k < 4) { c.sample = strf("%llu stanza handler calls, %llu timed calls, %llu API calls on the registry; registered at the end:", (unsigned long long)lab.calls, (unsigned long long)lab.tcalls, (unsigned long long)lab.mutations); for (auto &n : lab.cns) for (auto &e : n->regs) c.sample += "\n " + e.show(); }
    // the connections go away and their handlers with them
    for (auto &n : lab.cns) { if (n->k->open) continue; if (r.onein(2)) { n->k->release(); n->regs.clear(); n->k = nullptr; } }
    for (int j = 0; j < 4 && !c.violated; j++) { sim::now_ms += r.below(3000); lab.tick(5); }
    for (auto &n : lab.cns) if (n->k) n->k->on_event = nullptr;
    w.fini();
    L = nullptr;
}
