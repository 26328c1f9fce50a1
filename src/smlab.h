// Stream management laboratory: a client with SM against a server that counts,
// lags, loses what it has not handled yet, and a monitor of both counters.
#pragma once
#include "scen.h"
#include <unordered_map>

struct SmBlob {                 // independent decoder of the persisted state
    u32 sent = 0, handled = 0;
    string id;
    vector<string> unsent;
    vector<std::pair<u32, string>> unacked;
    bool parse(const string &b);    // strict
    string build() const;
};

struct SmLab {
    World w;
    Case &c;
    Scen s;
    Rng &r;
    Client *k;
    // what is judged
    bool j_out = false, j_in = false, j_blob = false;
    // ---- submissions
    struct Sub { string id, text; bool ever = false; /* completely on the wire at some time */ bool released = false, maybe_released = false, dropped = false, optional = false; int conn = -1; };
    vector<Sub> subs;
    std::map<string, size_t> by_id;
    u64 nsub = 0;
    // ---- the server's logical session
    struct Sess {
        string id;
        bool alive = true, resumable = false;
        u32 base = 0;           // number of the first entry of got
        vector<size_t> got;     // submissions handled, in order
        vector<string> got_raw;
        u32 out = 0;            // stanzas sent to the client
        u32 acked = 0;          // highest h told to the client (and known to have been processed)
        u32 count() const { return base + (u32)got.size(); }
    };
    std::deque<Sess> sessions;
    Sess *cur = nullptr;        // session of the current connection, once enabled/resumed
    int sess_no = 1;
    std::deque<std::pair<size_t, string>> backlog; // arrived but not handled by the server
    bool handle_all = true;     // handles arriving stanzas at once
    bool deaf = false;
    vector<size_t> wire;        // submissions on the wire of this connection, in order
    vector<u32> acks_due;       // expected answers to <r/>
    size_t acks_seen = 0;
    u32 dispatched = 0;         // stanzas dispatched in the logical session of the client
    bool dispatched_known = false;
    u32 r_total = 0;
    bool sm_active = false;     // enabled/resumed was sent on this connection
    bool resume_seen = false;
    std::function<int()> on_r;  // reaction to the client's <r/>: 0 answer, 1 ignore, 2 partial
    enum ResumeMode { RES_OK, RES_FAIL, RES_FAIL_H, RES_FAIL_H_LESS, RES_FAIL_FNI, RES_FAIL_EMPTY } resume_mode = RES_OK;
    vector<size_t> required;    // must be on the wire of this connection
    bool judge_required = false;
    string last_blob;
    bool have_blob = false, blob_null = false;
    u64 blobs = 0;
    int cur_peer = -1;
    bool reply_in_handler = false;
    u32 in_serial = 0;
    bool bad_order = false;
    std::function<void(const string &)> on_blob;
    bool j_complete = false;    // every state that is handed out
    size_t submitting = (size_t)-1;
    bool in_drop = false;
    void check_complete();
    SmLab(Case &c);
    bool begin(bool sm = true, bool resume = true, int cut_after = -1);  // next connection: comes up or reports why not
    bool aborted = false;
    ConnCfg &config();
    void attach(Client *nk);
    void handlers();
    void intercepts();
    bool on_elem(XPeer &p, const Elem &e);
    void process(size_t n);     // the server handles n stanzas of its backlog
    void ack();                 // the server sends an unsolicited <a/>
    size_t submit();            // the client sends something
    void inbound();             // the server sends something
    void settle();
    void check_quiescent(const char *where);
    void cut();                 // the connection breaks
    void track_tx(const Ev &e);
    void drop_some();
    size_t seen_tr = 0;
    void track();               // consumes new trace events
    string name(size_t i) { return subs[i].id; }
    ConnCfg *g = nullptr;
    bool in_resume_ok = false;
    bool bad_acks = false;
    bool move(int how);
};
