// Send queue monitor: a model of the queue against the bytes on the wire and the
// queue inspection API.
#pragma once
#include "scen.h"

struct QMon {
    World &w;
    Case &c;
    Client *k;
    XPeer *p = nullptr;
    Rng &r;
    enum T { USER, LIB_A, LIB_CLOSE, LIB_TEXT };
    struct El { T t; string text; bool dropped = false; bool done = false; };
    std::deque<El> els;
    size_t cur = 0, off = 0;    // position of the wire
    string pend;                // bytes not matched yet
    std::deque<size_t> q;       // user elements that have not been started, as far as known
    bool sm = false, comp = false, active = false, closing = false, skip = false;
    int in_api = 0;
    int in_cb = 0;
    u64 serial = 0, drops = 0, sends = 0;
    u64 user_done = 0;          // user elements completely on the wire
    u64 r_seen = 0;
    bool deep = false;          // sends and drops inside callbacks
    bool big = false;       // more large elements, also such that cannot be compressed
    size_t max_len = 0;
    string tag;
    bool sm_counts_all = false;
    bool unflushed_ok = false;
    std::function<void()> on_r;
    QMon(World &w, Client *k, const string &tag);
    void attach();              // the connection is up: from now on everything is judged
    void rx(const string &b);
    void observe(const char *where, bool post = false);
    size_t wire_elem();         // first element not completely on the wire
    bool on_wire(size_t i) { return els[i].done || (i == cur && off > 0); }
    void send();
    void drop();
    void send_text(const string &t, int how);
    string gen();
    void finish();              // everything must be on the wire
    void dead();                // the connection has ended: the rest of the queue
    void lib(T t, const string &text = "");
    string show();
};
