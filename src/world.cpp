#include "world.h"

string Ev::show() const
{
    static const char *n[] = {"TCP_OPEN", "TCP_CLOSE", "C: header", "C:", "C: close", "C: BAD", "S:", "TLS_UP", "TLS_FAIL", "COMP_UP", "CONN", "HANDLER", "TIMED", "API"};
    string r = strf("%8llu #%d %s%s %s", (unsigned long long)(t - 1790000000000ull), conn, tls ? "T" : "-", comp ? "Z" : "-", n[k]);
    if (k == RX_HEADER) { for (auto &a : e.attrs) r += " " + a.first + "=" + a.second; return r; }
    if (k == CONN) { static const char *c[] = {"CONNECT", "RAW_CONNECT", "DISCONNECT", "FAIL"}; return r + " " + (a >= 0 && a < 4 ? c[a] : "?") + strf(" error=%d ", b) + s; }
    if (k == TX) r += " [" + stage + "]";
    return r + " " + vis(s, 700) + (a || b ? strf(" (%d,%d)", a, b) : "");
}

// ---------------------------------------------------------------- client
Client::Client(World &w, bool make) : w(w) { if (make) conn = xmpp_conn_new(w.ctx); }
Client::~Client() { while (conn && !release()) {} }
int Client::set(const string &j, const string &p, long flags)
{
    jid = j;
    pass = p;
    if (!j.empty()) xmpp_conn_set_jid(conn, j.c_str());
    xmpp_conn_set_pass(conn, p.c_str());
    return xmpp_conn_set_flags(conn, flags);
}
int Client::started(int rc, const char *what)
{
    Ev &e = w.ev(Ev::API);
    e.s = what;
    e.a = rc;
    if (rc == XMPP_EOK) {
        if (open && w.report) w.c.viol("lifecycle/second-attempt-accepted", "a connect call succeeded although the previous attempt has not ended");
        open = true;
        up = false;
        attempts++;
        cur_connects = 0;
        t_attempt = sim::now_ms;
        se_seen = false;
        se_type = -1;
        se_text.clear();
    }
    check(what);
    return rc;
}
int Client::connect(const char *alt, unsigned short port)
{
    component = is_raw = false;
    return started(xmpp_connect_client(conn, alt, port, handler, this), "connect_client");
}
int Client::connect_component(const char *server, unsigned short port)
{
    int rc = xmpp_connect_component(conn, server, port, handler, this);
    if (!rc) component = true;
    return started(rc, "connect_component");
}
int Client::connect_raw(const char *alt, unsigned short port)
{
    int rc = xmpp_connect_raw(conn, alt, port, handler, this);
    if (!rc) is_raw = true;
    return started(rc, "connect_raw");
}
void Client::disconnect()
{
    w.ev(Ev::API).s = "disconnect";
    xmpp_disconnect(conn);
    check("disconnect");
}
int Client::release()
{
    if (!conn) return 1;
    w.ev(Ev::API).s = "release";
    xmpp_conn_t *c = conn;
    bool was_open = open;
    int r = xmpp_conn_release(c);
    if (r) {
        conn = nullptr;
        if (w.report && was_open && open) w.c.viol("lifecycle/no-disconnect", "released while the attempt was open, but no disconnect notification was given");
        open = false;
    }
    return r;
}
void Client::send_text(const string &xml) { xmpp_send_raw(conn, xml.data(), xml.size()); }
void Client::handler(xmpp_conn_t *c, xmpp_conn_event_t ev, int err, xmpp_stream_error_t *se, void *ud)
{
    Client &k = *(Client *)ud;
    World &w = k.w;
    Ev &e = w.ev(Ev::CONN);
    e.a = ev;
    e.b = err;
    k.last_error = err;
    if (se) {
        k.se_seen = true;
        k.se_type = se->type;
        k.se_has_text = se->text != nullptr;
        k.se_text = se->text ? se->text : "";
        e.s = strf("stream_error type=%d text=%s", se->type, se->text ? vis(se->text).c_str() : "(none)");
        // the stanza must be readable
        if (se->stanza) {
            char *b = nullptr;
            size_t n;
            if (xmpp_stanza_to_text(se->stanza, &b, &n) == 0) xmpp_free(w.ctx, b);
        }
    }
    auto bad = [&](const char *key, const string &m) { if (w.report) w.c.viol(string("lifecycle/") + key, m); };
    if (c != k.conn) bad("wrong-connection", "the notification carries another connection object");
    switch (ev) {
    case XMPP_CONN_CONNECT:
    case XMPP_CONN_RAW_CONNECT:
        if (!k.open) bad("connected-after-end", "connected was reported although no attempt is open");
        // on a raw connection each opened stream is reported as well
        if (k.cur_connects && !(k.is_raw && ev == XMPP_CONN_CONNECT)) bad("connected-twice", "connected was reported twice in one attempt");
        k.cur_connects++;
        k.connects++;
        k.up = true;
        k.t_up = sim::now_ms;
        break;
    case XMPP_CONN_DISCONNECT:
    case XMPP_CONN_FAIL:
        if (!k.open) bad("two-disconnects", strf("disconnect was reported (error %d) although no attempt is open: a second notification for the same attempt", err));
        k.open = k.up = false;
        k.disconnects++;
        k.t_down = sim::now_ms;
        break;
    }
    k.check("notification");
    if (k.on_event) k.on_event(ev);
}
void Client::check(const char *where)
{
    if (!conn || !w.report) return;
    int a = xmpp_conn_is_connecting(conn) != 0, b = xmpp_conn_is_connected(conn) != 0, d = xmpp_conn_is_disconnected(conn) != 0;
    if (a + b + d != 1) w.c.viol("state/not-exactly-one", strf("connecting=%d connected=%d disconnected=%d after %s", a, b, d, where));
    int want = !open ? 2 : up ? 1 : 0, got = a ? 0 : b ? 1 : 2;
    static const char *n[] = {"connecting", "connected", "disconnected"};
    if (want != got) w.c.viol("state/disagrees", strf("is_%s after %s, the notifications say %s", n[got], where, n[want]));
    stat_add("state_checks");
}

// ---------------------------------------------------------------- world
World::World(Case &c, bool debuglog) : c(c), srv(*this)
{
    static bool init;
    if (!init) { xmpp_initialize(); init = true; }
    sim::reset(c.seed * 1000003 + c.k);
    tls_seed(c.seed * 7919 + c.k);
    log.userdata = this;
    log.handler = [](void *ud, xmpp_log_level_t, const char *area, const char *msg) {
        World *w = (World *)ud;
        w->loglines++;
        if (w->c.verbose) w->c.note(string("           log ") + area + ": " + vis(msg, 200));
        else if (strlen(msg) > 1000000) w->loglines++;
    };
    sim::policy.make_peer = [this](sim::VSock *) -> sim::Peer * {
        XPeer *p = new XPeer(*this, (int)peers.size());
        peers.push_back(p);
        if (on_peer) on_peer(*p);
        return p;
    };
    ctx = xmpp_ctx_new(&mm.mem, debuglog || c.verbose ? &log : nullptr);
    if (debuglog || c.verbose) xmpp_ctx_set_verbosity(ctx, 3);
}
void World::fini()
{
    clients.clear();
    if (ctx) { xmpp_ctx_free(ctx); ctx = nullptr; if (on_fini) on_fini(*this); }
}
std::function<void(World &)> World::on_fini;
World::~World()
{
    fini();
    if (c.violated && !c.verbose) {
        string s = show();
        size_t a = 0;
        while (a < s.size()) { size_t b = s.find('\n', a); c.note(s.substr(a, b - a)); a = b + 1; }
    }
    if (c.verbose) for (auto &m : sim::misuse) c.note("misuse: " + m);
    sim::policy = sim::Policy();
    sim::socks.clear();
    sim::active = false;
}
Client &World::client()
{
    clients.emplace_back(new Client(*this));
    return *clients.back();
}
Ev &World::ev(Ev::K k, int no)
{
    if (c.verbose && tr.size()) { if (shown < tr.size()) { for (; shown < tr.size(); shown++) c.note(tr[shown].show()); } }
    tr.emplace_back();
    Ev &e = tr.back();
    e.k = k;
    e.conn = no >= 0 ? no : (int)peers.size() - 1;
    e.t = sim::now_ms;
    if (e.conn >= 0 && e.conn < (int)peers.size()) { e.tls = peers[e.conn]->tls_up; e.comp = peers[e.conn]->comp; }
    return e;
}
void World::once(unsigned long tmo)
{
    sim::spin_mark();
    u64 t = sim::now_ms;
    if (use_run) {
        static int stops;
        stops = 0;
        xmpp_ctx_set_timeout(ctx, tmo);
        xmpp_global_timed_handler_add(ctx, [](xmpp_ctx_t *x, void *n) { ++*(int *)n; xmpp_stop(x); return 0; }, 0, &stops);
        xmpp_run(ctx);
        if (stops != 1) c.viol("event-loop/run", strf("xmpp_run returned after %d calls of a handler that is due at once and calls xmpp_stop", stops));
        stat_add("runs_of_the_loop");
    } else xmpp_run_once(ctx, tmo);
    iters++;
    for (auto *p : peers) p->drain();
    if (auto_tick && sim::now_ms == t) sim::now_ms++;
    check_all("iteration");
    if (c.verbose) for (; shown < tr.size(); shown++) c.note(tr[shown].show());
}
bool World::run(int n, const std::function<bool()> &until, unsigned long tmo)
{
    for (int i = 0; i < n; i++) {
        if (until()) return true;
        once(tmo);
    }
    return until();
}
bool World::run_ms(u64 ms, unsigned long tmo)
{
    u64 end = sim::now_ms + ms;
    for (int guard = 0; sim::now_ms < end && guard < 20000; guard++) {
        u64 left = end - sim::now_ms;
        once(left < tmo ? left : tmo);
    }
    return true;
}
bool World::until_ms(u64 ms, const std::function<bool()> &until, unsigned long tmo)
{
    u64 end = sim::now_ms + ms;
    for (int guard = 0; !until(); guard++) {
        if (sim::now_ms >= end || guard > 40000) return until();
        u64 left = end - sim::now_ms;
        once(left < tmo ? left : tmo);
    }
    return true;
}
string World::show(size_t max)
{
    string r;
    for (auto &e : tr) {
        r += e.show() + "\n";
        if (r.size() > max) { r += "...\n"; break; }
    }
    return r;
}

void net_policy(World &w, int in, int out)
{
    auto r = std::make_shared<Rng>(w.c.rng.next());
    sim::policy.arrive = nullptr;
    sim::policy.on_recv = nullptr;
    sim::policy.on_send = nullptr;
    if (in == NET_CHUNKY) {
        sim::policy.arrive = [r](sim::VSock *, size_t k) -> size_t { return r->onein(3) ? k : 1 + r->below(k); };
        sim::policy.on_recv = [r](sim::VSock *, size_t k) -> int { return (int)(r->onein(3) ? k : 1 + r->below(k)); };
    } else if (in == NET_BYTES) {
        sim::policy.on_recv = [](sim::VSock *, size_t) -> int { return 1; };
    } else if (in == NET_STALL) {
        sim::policy.arrive = [r](sim::VSock *, size_t k) -> size_t { return r->onein(2) ? 0 : 1 + r->below(k < 40 ? k : 40); };
    }
    auto zeros = std::make_shared<int>(0); // bounded runs of refusals
    if (out == NET_CHUNKY) sim::policy.on_send = [r, zeros](sim::VSock *, size_t k) -> int { if (r->onein(3) && *zeros < 3) { ++*zeros; return 0; } *zeros = 0; return (int)(r->onein(3) ? k : 1 + r->below(k)); };
    else if (out == NET_BYTES) sim::policy.on_send = [](sim::VSock *, size_t) -> int { return 1; };
    else if (out == NET_STALL) sim::policy.on_send = [r, zeros](sim::VSock *, size_t k) -> int { if (r->below(4) && *zeros < 6) { ++*zeros; return 0; } *zeros = 0; return (int)(1 + r->below(k < 40 ? k : 40)); };
}
xmpp_stanza_t *make_message(xmpp_ctx_t *ctx, const string &id, const string &body, const char *type, const char *to)
{
    xmpp_stanza_t *m = xmpp_message_new(ctx, type, to, id.c_str());
    xmpp_message_set_body(m, body.c_str());
    return m;
}
