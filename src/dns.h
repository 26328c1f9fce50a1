// Independent encoder of DNS responses.
#pragma once
#include "sim.h"
struct DnsRR {
    string owner;
    int type = 33, cls = 1;
    u32 ttl = 60;
    int prio = 0, weight = 0, port = 0;
    string target; // SRV, or a name when is_name
    bool is_name = false;
    string rdata;
};
struct DnsMsg {
    int id = 0, nq = 1, rcode = 0;
    string qname;
    int compress = 0; // 0 none, 1 owners, 2 everything, 3 random
    vector<DnsRR> ans, auth, addl;
    string encode(Rng &r) const;
};
string dns_random_name(Rng &r, size_t n);
