#include "dns.h"
string dns_random_name(Rng &r, size_t n)
{
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
    string s;
    while (s.size() < n) {
        size_t l = 1 + r.below(r.onein(5) ? 63 : 10);
        if (s.size()) { if (s.size() + 2 > n) break; s += '.'; }
        if (l > n - s.size()) l = n - s.size();
        for (size_t i = 0; i < l; i++) s += al[r.below(sizeof al - 1)];
    }
    return s;
}
static void be16(string &s, int v) { s += (char)(v >> 8); s += (char)v; }
static void put_name(string &out, const string &name, std::map<string, size_t> &dict, bool comp)
{
    string rest = name;
    for (;;) {
        auto it = dict.find(rest);
        if (comp && it != dict.end() && it->second < 16384) {
            out += (char)(0xc0 | it->second >> 8);
            out += (char)it->second;
            return;
        }
        if (out.size() < 16384 && !dict.count(rest)) dict[rest] = out.size();
        if (rest.empty()) { out += (char)0; return; }
        size_t d = rest.find('.');
        string lab = rest.substr(0, d);
        out += (char)lab.size();
        out += lab;
        rest = d == string::npos ? "" : rest.substr(d + 1);
    }
}
string DnsMsg::encode(Rng &r) const
{
    string o;
    be16(o, id);
    o += (char)(0x81 | (r.next() & 0x04));
    o += (char)((r.next() & 0xf0) | rcode);
    be16(o, nq); be16(o, (int)ans.size()); be16(o, (int)auth.size()); be16(o, (int)addl.size());
    std::map<string, size_t> dict;
    auto comp = [&](bool owner) { return compress == 0 ? false : compress == 1 ? owner : compress == 2 ? true : r.onein(2); };
    for (int i = 0; i < nq; i++) { put_name(o, qname, dict, comp(true)); be16(o, 33); be16(o, 1); }
    for (auto *sec : {&ans, &auth, &addl})
        for (auto &rr : *sec) {
            put_name(o, rr.owner, dict, comp(true));
            be16(o, rr.type); be16(o, rr.cls);
            be16(o, (int)(rr.ttl >> 16)); be16(o, (int)(rr.ttl & 0xffff));
            size_t lenpos = o.size();
            be16(o, 0);
            if (rr.type == 33) { be16(o, rr.prio); be16(o, rr.weight); be16(o, rr.port); put_name(o, rr.target, dict, comp(false)); }
            else if (rr.is_name) put_name(o, rr.target, dict, comp(false));
            else o += rr.rdata;
            size_t l = o.size() - lenpos - 2;
            o[lenpos] = (char)(l >> 8);
            o[lenpos + 1] = (char)l;
        }
    return o;
}
