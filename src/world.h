// One client process: context, connections, virtual network, trace.
#pragma once
#include "mem.h"
#include "server.h"
#include "strophe.h"

struct World;
struct Client {
    World &w;
    xmpp_conn_t *conn = nullptr;
    string jid, pass;
    bool component = false, is_raw = false;
    // lifecycle as told by the notifications
    bool open = false;          // an accepted attempt has not ended yet
    bool up = false;            // "connected" was reported
    int attempts = 0, connects = 0, disconnects = 0, raw_connects = 0;
    int cur_connects = 0;       // in the current attempt
    int last_error = 0;
    u64 t_attempt = 0, t_up = 0, t_down = 0;
    bool se_seen = false;
    int se_type = -1;
    string se_text;
    bool se_has_text = false;
    std::function<void(int ev)> on_event;   // extra reaction inside the callback
    bool report = false;        // lifecycle violations are reported
    bool in_connect = false;
    explicit Client(World &w, bool make = true);
    ~Client();
    int set(const string &jid, const string &pass, long flags);
    // records the outcome of xmpp_connect_*
    int connect(const char *alt = nullptr, unsigned short port = 0);
    int connect_component(const char *server, unsigned short port = 0);
    int connect_raw(const char *alt = nullptr, unsigned short port = 0);
    void disconnect();
    int release();
    void send_text(const string &xml);      // xmpp_send_raw
    void check(const char *where);
    static void handler(xmpp_conn_t *c, xmpp_conn_event_t ev, int err, xmpp_stream_error_t *se, void *ud);
    int started(int rc, const char *what);
};

struct World {
    static std::function<void(World &)> on_fini;    // the context is gone
    Case &c;
    MemMon mm;
    xmpp_ctx_t *ctx = nullptr;
    xmpp_log_t log;
    Server srv;
    vector<Ev> tr;
    vector<XPeer *> peers;      // owned by the simulated sockets
    vector<std::unique_ptr<Client>> clients;
    bool report = false;        // lifecycle violations are reported
    u64 lockstep_gap = 0;       // server messages wait until the client has digested the previous one
    bool use_run = false;       // iterations by xmpp_run(), ended by xmpp_stop() in a timed handler
    bool auto_tick = true;      // an iteration takes at least 1 ms
    std::function<void(XPeer &)> on_peer;
    std::function<void(XPeer &, string &)> wire_hook;   // may alter the bytes of the server on the wire
    std::function<void(XPeer &, string &)> comp_hook;   // ... above TLS, below XML (compressed bytes)
    size_t shown = 0;
    u64 iters = 0;
    u64 loglines = 0;
    string loghash;
    explicit World(Case &c, bool debuglog = false);
    ~World();
    void fini();                // releases everything (idempotent)
    Client &client();           // creates a connection
    Ev &ev(Ev::K k, int conn = -1);
    std::function<void(int no, const string &)> on_plain; // application bytes as they arrive
    void ev_bytes(int no, const string &b) { if (on_plain) on_plain(no, b); }
    void once(unsigned long tmo = 1);
    // runs until the condition holds; false if it never did
    bool run(int iters, const std::function<bool()> &until, unsigned long tmo = 10);
    bool run_ms(u64 ms, unsigned long tmo = 50); // lets virtual time pass
    bool until_ms(u64 ms, const std::function<bool()> &until, unsigned long tmo = 10);
    XPeer *peer() { return peers.empty() ? nullptr : peers.back(); }
    string show(size_t max = 60000);
    void check_all(const char *where) { for (auto &k : clients) k->check(where); }
};
enum NetMode { NET_PLAIN, NET_CHUNKY, NET_BYTES, NET_STALL };
void net_policy(World &w, int mode_in, int mode_out);
xmpp_stanza_t *make_message(xmpp_ctx_t *ctx, const string &id, const string &body, const char *type = "chat", const char *to = "bob@example.org");
