// Random negotiation scenarios shared by the connection checks, and the
// trace judge of the negotiation rules.
#pragma once
#include "world.h"

struct ConnCfg {                // client configuration of one connection attempt
    string jid, domain, resource, pass;
    bool has_res = false, has_node = true, pass_null = false;
    long flags = 0;
    bool component = false;
    bool cert = false;          // client certificate configured
    bool clean = true;          // the server follows the rules
    bool strict = true;         // lockstep server: the trace order is exact
    bool expect_up = false;
    string why;                 // why not expected
    SrvConf srv;
    bool legacy_tls_api = false;
};

struct ScenOpt {
    bool allow_component = true;
    bool allow_cert = true;     // client certificates
    int mangle_pct = 25;        // per server message, on hostile connections
    int hostile_pct = 60;       // hostile connections
    int burst_pct = 10;
    bool bad_certs = true;
    bool stall = true;
    int max_conns = 3;
    bool corrupt = false;       // byte level garbage
    bool user_load = true;      // handlers, stanzas
    int tls_pct = 55;
    int sm_pct = 50;
};

struct Scen {
    World &w;
    Case &c;
    Rng &r;
    ScenOpt o;
    Client *k = nullptr;
    std::deque<ConnCfg> cfgs;
    ConnCfg *cur = nullptr;
    std::map<int, ConnCfg *> peer_cfg;  // TCP connection -> attempt
    u64 mangled = 0, user_sent = 0, handler_calls = 0;
    bool handlers_set = false;
    std::set<string> user_ids;
    bool saw_big = false;
    Scen(World &w, const ScenOpt &o = ScenOpt());
    ConnCfg &next_cfg();                // new client + server configuration, applied
    int start(const char *alt = "srv.example.net");
    void make_good(ConnCfg &g);         // the current attempt must come up
    void hooks();                       // server side behaviour for the current attempt
    string canned(XPeer &p, const string &stage);
    bool mangle(XPeer &p, const string &stage, string &xml);
    void add_handlers();
    void user_send(bool raw = false);
    // runs the attempt for a while; true if it came up
    bool drive(int iters);
    void end_attempt();                 // disconnects in some way and waits for it
};
void lockstep(World &w, bool on);
bool has_mech(const vector<string> &v, const string &m);
string random_features(Rng &r);
string struct_mutate(Rng &r, string x);
string corrupt_bytes(Rng &r, string x);
// C03 (what=3) and C02 (what=2) rules over the whole trace
void judge_negotiation(Scen &s, int what);
