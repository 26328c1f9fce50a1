// C14: which endpoints are tried, in which order, and when it is given up.
#include "dns.h"
#include "scen.h"
#include <cerrno>
#include <sys/socket.h>

namespace {
struct Target { string host; int port = 0, prio = 0, weight = 0; bool srv = false; };
struct Plan { // candidates of one interpretation
    vector<vector<Target>> groups; // tied ones together
    string what;
};
typedef std::pair<string, int> EP;
struct Att { // one connection attempt
    Client *k = nullptr;
    string name;            // of the domain
    string domain, alt, jid;
    bool has_alt = false, raw = false, comp = false, legacy = false;
    int altport = 0;
    vector<Plan> plans;
    bool no_srv = false;
    std::map<string, vector<string>> addr; // resolver
    std::map<EP, sim::Endpoint> ep;
    bool v6 = true;
    int v6_errno = 0;
    string prefix, prefix6; // addresses of this attempt
    bool dns_ok = false;
    string dns_raw;
    int rc = 0;
    u64 t0 = 0;
    size_t ev_disc = 0;
    bool done = false;
    u64 t_done = 0;
    vector<sim::ConnectRec> seen;
    bool cancelled = false;
    string show() const
    {
        string s = strf("%s, domain %s", raw ? "raw" : comp ? "component" : legacy ? "legacy SSL" : "client", domain.c_str());
        if (has_alt) s += " host " + alt;
        if (altport) s += strf(" port %d", altport);
        if (!v6) s += " (no IPv6)";
        for (auto &p : plans) {
            s += "; " + p.what + ":";
            for (auto &g : p.groups) {
                s += " {";
                for (auto &t : g) {
                    s += strf(" %s:%d", t.host.c_str(), t.port) + (t.srv ? strf("(p%d w%d)", t.prio, t.weight) : "") + "=[";
                    auto it = addr.find(t.host);
                    if (it != addr.end()) for (auto &a : it->second) {
                        auto e = ep.find({a, t.port});
                        static const char *n[] = {"accepts", "accepts later", "refuses", "fails later", "hangs", "unreachable", "?"};
                        s += " " + a + " " + (e == ep.end() ? "?" : string(n[e->second.outcome]) + (e->second.delay ? strf("(%llu ms)", (unsigned long long)e->second.delay) : ""));
                    }
                    s += " ]";
                }
                s += " }";
            }
        }
        s += "; connected to:";
        for (auto &x : seen) s += strf(" +%llu %s:%d", (unsigned long long)(x.t - t0), x.ip.c_str(), x.port);
        return s;
    }
};
bool is6(const string &ip) { return ip.find(':') != string::npos; }

int cb_pct;
Rng *cb_rng;
int sockopt_cb(xmpp_conn_t *, void *)
{
    if (!cb_rng->chance(cb_pct)) return 0;
    sim::connects.push_back({"skip", 0, sim::now_ms, -1});
    errno = EPERM;
    return -1;
}
struct Lab {
    World &w;
    Case &c;
    Rng &r;
    u64 tmo = 10;
    Lab(World &w) : w(w), c(w.c), r(w.c.rng) {}

    // does the observed sequence follow the plan? "" or what is wrong
    string follow(Att &a, Plan p, size_t &used, bool &accepted, const sim::Endpoint *&last)
    {
        size_t i = 0;
        accepted = false;
        last = nullptr;
        for (auto &g : p.groups) {
            vector<Target> left = g;
            while (!left.empty()) {
                // which of the tied ones comes next?
                size_t pick = 0;
                auto list = [&](const Target &t) { vector<string> v; auto it = a.addr.find(t.host); if (it != a.addr.end()) for (auto &x : it->second) if (a.v6 || !is6(x)) v.push_back(x); return v; };
                for (size_t j = 0; j < left.size(); j++) { auto v = list(left[j]); if (i < a.seen.size() && !v.empty() && (a.seen[i].ip == "skip" ? g.size() == 1 : v[0] == a.seen[i].ip && left[j].port == a.seen[i].port)) { pick = j; break; } }
                Target t = left[pick];
                left.erase(left.begin() + (long)pick);
                for (auto &ip : list(t)) {
                    if (i >= a.seen.size()) { used = i; return strf("%s:%d (%s) was not tried", ip.c_str(), t.port, t.host.c_str()); }
                    if (a.seen[i].ip == "skip") { i++; continue; } // the user's socket callback refused it
                    if (a.seen[i].ip != ip || a.seen[i].port != t.port) { used = i; return strf("attempt %zu goes to %s:%d instead of %s:%d (%s)", i + 1, a.seen[i].ip.c_str(), a.seen[i].port, ip.c_str(), t.port, t.host.c_str()); }
                    last = &a.ep[{ip, t.port}];
                    i++;
                    if (last->outcome == sim::ACCEPT_NOW || last->outcome == sim::ACCEPT_LATER) {
                        accepted = true;
                        used = i;
                        return i < a.seen.size() ? strf("another attempt after %s:%d, which accepts", ip.c_str(), t.port) : "";
                    }
                }
            }
        }
        used = i;
        return i < a.seen.size() ? strf("%zu attempts, only %zu candidates", a.seen.size(), i) : "";
    }
    void collect(Att &a)
    {
        a.seen.clear();
        for (auto &x : sim::connects) if (x.t >= a.t0 && (x.ip == "skip" || x.ip.compare(0, a.prefix.size(), a.prefix) == 0 || x.ip.compare(0, a.prefix6.size(), a.prefix6) == 0)) a.seen.push_back(x);
    }
    u64 slack() { return 2 * tmo + 60; }
    void timing(Att &a)
    {
        for (size_t i = 0; i < a.seen.size(); i++) {
            auto e = a.ep[{a.seen[i].ip, a.seen[i].port}];
            if (a.seen[i].ip == "skip") e.outcome = sim::REFUSE_NOW;
            u64 end = i + 1 < a.seen.size() ? a.seen[i + 1].t : a.t_done;
            u64 gap = end - a.seen[i].t, lo = 0, hi = slack();
            switch (e.outcome) {
            case sim::REFUSE_LATER: lo = e.delay; hi += e.delay; break;
            case sim::HANG: lo = 4900; hi += 5001; break;
            case sim::ACCEPT_NOW: case sim::ACCEPT_LATER: continue;
            default: break;
            }
            if (gap < lo) c.viol("gave-up-early", strf("attempt %zu was abandoned after %llu ms: ", i + 1, (unsigned long long)gap) + a.show());
            if (gap > hi) c.viol("moved-on-late", strf("it took %llu ms to move on after attempt %zu: ", (unsigned long long)gap, i + 1) + a.show());
            stat_add("fallbacks");
        }
    }
    void judge(Att &a)
    {
        collect(a);
        for (auto &x : a.seen) if (x.ip == "skip") stat_add("sockopt_failures");
        for (auto &x : a.seen) { c.mixsig((u64)a.ep[{x.ip, x.port}].outcome); }
        string why;
        bool ok = false, accepted = false;
        const sim::Endpoint *last = nullptr;
        for (auto &p : a.plans) {
            size_t used;
            string y = follow(a, p, used, accepted, last);
            if (y.empty()) { ok = true; break; }
            if (why.empty()) why = y;
        }
        c.mixsig(a.seen.size() * 64 + a.plans[0].groups.size() * 2 + a.has_alt);
        if (!ok) {
            const char *key = why.find("not tried") != string::npos ? (a.rc ? "not-tried/return-code" : "not-tried") : why.find("another attempt") == 0 ? "past-acceptor" : why.find("only") != string::npos ? "too-many" : "order";
            c.viol(key, why + ": " + a.show());
            return;
        }
        stat_add("attempts", a.seen.size());
        stat_add(accepted ? "accepted" : "exhausted");
        if (a.seen.size() > 1) c.nontrivial = true;
        if (a.seen.size() > 3) stat_add("long_fallbacks");
        timing(a);
        if (!accepted) {
            if (a.rc == 0 && a.k->disconnects == (int)a.ev_disc) c.viol("no-report", "all candidates failed, but no disconnect was notified: " + a.show());
            if (a.rc && a.k->disconnects != (int)a.ev_disc) c.viol("two-reports", "the failure was returned and notified: " + a.show());
            return;
        }
        if (a.rc) { c.viol("failed-although-accepted", "the call failed although an endpoint accepts: " + a.show()); return; }
        // the stream goes there
        bool hdr = false;
        for (auto *p : w.peers) if (p->s && p->s->fd == a.seen.back().fd && (p->headers || (a.raw && p->no >= 0))) hdr = true;
        if (!hdr) c.viol("stream-elsewhere", "no stream header reached the endpoint that accepted: " + a.show());
        if (!a.raw && !a.k->up && !a.cancelled) c.viol("did-not-come-up", "the endpoint accepted, but the connection did not come up: " + a.show() + "\n" + w.show(2000));
        for (auto &e : w.tr) if (e.k == Ev::RX_HEADER && e.t >= a.t0) for (auto *p : w.peers) if (p->no == e.conn && p->s && p->s->fd == a.seen.back().fd) {
            string to;
            for (auto &at : e.e.attrs) if (at.first == "to") to = at.second;
            if (to != a.domain) c.viol("header-to", "the stream header asks for " + vis(to) + ": " + a.show());
        }
    }
};
} // namespace

PROP(C14)
{
    World w(c);
    Lab lab(w);
    Rng &r = c.rng;
    int nconn = r.onein(4) ? 2 : 1;
    int rounds = 1 + (int)r.below(3);
    vector<Client *> ks;
    for (int i = 0; i < nconn; i++) ks.push_back(&w.client());
    std::deque<Att> atts;
    cb_rng = &r;
    cb_pct = nconn == 1 && r.onein(5) ? 10 + (int)r.below(60) : 0;
    if (r.onein(3) || cb_pct) for (auto *k : ks) xmpp_conn_set_sockopt_callback(k->conn, cb_pct || r.onein(2) ? sockopt_cb : xmpp_sockopt_cb_keepalive);
    bool ties = !cb_pct; // which one was refused could not be told
    sim::policy.resolve = [&](const string &h, vector<string> &out) {
        for (size_t i = atts.size(); i-- > 0;) { auto it = atts[i].addr.find(h); if (it != atts[i].addr.end()) { out = it->second; return !out.empty(); } }
        return false;
    };
    sim::policy.dns = [&](const string &n, int type, string &out) {
        for (size_t i = atts.size(); i-- > 0;) if (n == "_xmpp-client._tcp." + atts[i].domain) { if (type != 33) c.viol("dns-type", strf("query of type %d", type)); out = atts[i].dns_raw; return atts[i].dns_ok; }
        c.viol("dns-name", "query for " + vis(n));
        return false;
    };
    sim::policy.endpoint = [&](const string &ip, int port) {
        for (size_t i = atts.size(); i-- > 0;) { auto it = atts[i].ep.find({ip, port}); if (it != atts[i].ep.end()) return it->second; }
        return sim::Endpoint{sim::REFUSE_NOW, 0};
    };
    sim::policy.sock_fail = [&](int fam) { if (fam == AF_INET6 && !atts.empty() && !atts.back().v6) return atts.back().v6_errno; return 0; };
    // the certificate of a TLS peer is chosen when it is accepted
    sim::VSock *acc = nullptr;
    auto mk = sim::policy.make_peer;
    sim::policy.make_peer = [&](sim::VSock *v) { acc = v; return mk(v); };
    w.on_peer = [&](XPeer &p) {
        for (auto &y : atts) if (acc && y.ep.count({acc->ip, acc->port})) { w.srv.conf.domain = y.domain; if (y.legacy) p.start_tls(); if (y.raw) p.opaque = true; }
    };
    static const u64 tmos[] = {1, 10, 10, 100, 500};
    int hostno = 0;
    for (int rd = 0; rd < rounds && !c.violated; rd++) {
        size_t first = atts.size();
        lab.tmo = tmos[r.below(5)];
        bool v6 = !r.onein(4);
        sim::dns_queries.clear();
        bool want_dns = false, may_dns = false;
        for (int ci = 0; ci < nconn; ci++) {
            atts.emplace_back();
            Att &a = atts.back();
            a.k = ks[(size_t)ci];
            a.v6 = v6;
            a.v6_errno = r.onein(2) ? EAFNOSUPPORT : EMFILE;
            a.prefix = strf("10.%d.", (int)atts.size());
            a.prefix6 = strf("fd::%x:", (int)atts.size());
            a.domain = strf("%s%d.example.org", r.onein(5) ? "xn--d-" : "d", (int)atts.size());
            int kd = (int)r.below(10);
            a.comp = kd == 0;
            a.raw = kd == 1;
            a.legacy = kd == 2;
            a.has_alt = a.comp || r.onein(5);
            a.altport = r.onein(3) ? 1 + (int)r.below(65535) : 0;
            if (a.has_alt) a.alt = r.onein(4) ? a.domain : strf("alt%d.example.net", ++hostno);
            a.jid = a.comp ? a.domain : "alice@" + a.domain + (r.onein(2) ? "/r" : "");
            a.no_srv = a.has_alt || a.legacy;
            int ipn = 0;
            int fail_bias = (int)r.below(3); // 0: mostly accepted early, 2: everything fails
            auto outcome = [&] {
                sim::Endpoint e;
                if (fail_bias == 0 ? r.onein(2) : fail_bias == 1 ? r.onein(6) : r.onein(40)) {
                    e.outcome = r.onein(2) ? sim::ACCEPT_NOW : sim::ACCEPT_LATER;
                    if (e.outcome == sim::ACCEPT_LATER) e.delay = r.onein(3) ? 4000 + r.below(850) : 1 + r.below(1500);
                    return e;
                }
                switch (r.below(8)) {
                case 0: case 1: case 2: e.outcome = sim::REFUSE_NOW; break;
                case 3: case 4: e.outcome = sim::REFUSE_LATER; e.delay = r.onein(3) ? 3000 + r.below(1800) : r.below(800); break;
                case 5: case 6: e.outcome = sim::HANG; break;
                default: e.outcome = sim::UNREACH_NOW;
                }
                return e;
            };
            bool all_sync = r.onein(5);
            auto resolve = [&](const string &host, int maxn) {
                if (!a.addr.count(host)) {
                    vector<string> v;
                    int n = r.onein(6) ? 0 : 1 + (int)r.below((u64)maxn);
                    for (int i = 0; i < n; i++) { ++ipn; v.push_back(r.onein(3) ? strf("fd::%x:%x", (int)atts.size(), ipn) : a.prefix + strf("%d.%d", ipn / 200, 1 + ipn % 200)); }
                    a.addr[host] = v;
                }
            };
            auto endpoints = [&](const Target &t) { for (auto &ip : a.addr[t.host]) { auto o = outcome(); if (all_sync && o.outcome != sim::ACCEPT_NOW) { o.outcome = r.onein(2) ? sim::REFUSE_NOW : sim::UNREACH_NOW; o.delay = 0; } a.ep.insert({{ip, t.port}, o}); } };
            // the given host, or the domain itself
            auto direct = [&](const string &host, int port, const char *what) {
                Plan p;
                p.what = what;
                Target t;
                t.host = host;
                t.port = port;
                resolve(host, 5);
                endpoints(t);
                p.groups.push_back({t});
                return p;
            };
            int defport = a.comp ? 5347 : a.legacy ? 5223 : 5222;
            int port = a.altport ? a.altport : defport;
            if (a.no_srv) { a.plans.push_back(direct(a.has_alt ? a.alt : a.domain, port, a.has_alt ? "given host" : "legacy SSL")); stat_add(a.has_alt ? "explicit_host" : "legacy_ssl"); }
            // SRV records, whether they matter or not
            bool srv_ok = r.chance(75);
            DnsMsg m;
            m.id = (int)r.below(65536);
            m.qname = "_xmpp-client._tcp." + a.domain;
            m.compress = (int)r.below(4);
            Plan sp;
            sp.what = "SRV";
            int n = srv_ok ? 1 + (int)r.below(r.onein(4) ? 12 : 5) : 0;
            vector<Target> ts;
            std::set<std::pair<string, int>> used;
            for (int i = 0; i < n; i++) {
                Target t;
                t.srv = true;
                if (!ts.empty() && r.onein(6)) t.host = ts[r.below(ts.size())].host; // another port of the same host
                else if (r.onein(10)) t.host = a.domain;
                else t.host = strf("h%d.example.net", ++hostno);
                t.port = r.onein(3) ? 5222 : 1 + (int)r.below(65535);
                while (used.count({t.host, t.port})) t.port = 1 + (int)r.below(65535);
                used.insert({t.host, t.port});
                t.prio = r.onein(6) ? (int)r.below(65536) : (int)r.below(3) * 10;
                t.weight = r.onein(6) ? (int)r.below(65536) : (int)r.below(4) * 5;
                if (!ties) { bool again; do { again = false; for (auto &o : ts) if (o.prio == t.prio && o.weight == t.weight) { again = true; t.weight = (int)r.below(65536); } } while (again); }
                ts.push_back(t);
                DnsRR rr;
                rr.owner = m.qname;
                rr.prio = t.prio; rr.weight = t.weight; rr.port = t.port; rr.target = t.host;
                m.ans.push_back(rr);
                if (r.onein(8)) { DnsRR x; x.owner = t.host; x.type = 1; x.rdata = "\x0a\x09\x09\x09"; m.addl.push_back(x); }
            }
            if (!a.no_srv) {
                for (auto &t : ts) { resolve(t.host, 4); endpoints(t); }
                std::stable_sort(ts.begin(), ts.end(), [](const Target &x, const Target &y) { return x.prio != y.prio ? x.prio < y.prio : x.weight > y.weight; });
                for (size_t i = 0; i < ts.size(); i++) {
                    if (i && ts[i].prio == ts[i - 1].prio && ts[i].weight == ts[i - 1].weight) sp.groups.back().push_back(ts[i]);
                    else sp.groups.push_back({ts[i]});
                }
                if (srv_ok) {
                    a.plans.push_back(sp);
                    stat_add("srv_lists");
                    if (a.altport) { a.plans.push_back(direct(a.domain, port, "or the domain with the given port")); may_dns = true; }
                    else want_dns = true;
                } else { a.plans.push_back(direct(a.domain, port, "no SRV records")); stat_add("srv_failures"); if (a.altport) may_dns = true; else want_dns = true; }
            }
            a.dns_ok = true;
            if (srv_ok) a.dns_raw = m.encode(r);
            else switch (r.below(4)) {
            case 0: a.dns_ok = false; break;
            case 1: m.rcode = 3; a.dns_raw = m.encode(r); break;
            case 2: a.dns_raw = m.encode(r); break;
            default: { DnsRR x; x.owner = m.qname; x.type = 5; x.is_name = true; x.target = "elsewhere.example.net"; m.ans.push_back(x); a.dns_raw = m.encode(r); }
            }
        }
        // off they go
        for (size_t i = first; i < atts.size() && !c.violated; i++) {
            Att &a = atts[i];
            SrvConf v;
            v.domain = a.domain;
            v.user = "alice";
            v.mechs = {"PLAIN"};
            v.starttls = false;
            v.component = a.comp;
            w.srv.conf = v;
            string d0 = a.domain;
            (void)d0;
            long fl = a.legacy ? XMPP_CONN_FLAG_LEGACY_SSL : 0;
            if (!a.comp && r.onein(3)) {
                if (r.onein(2)) fl |= a.legacy ? XMPP_CONN_FLAG_TRUST_TLS : r.onein(2) ? XMPP_CONN_FLAG_DISABLE_TLS : XMPP_CONN_FLAG_TRUST_TLS;
                if (a.legacy && r.onein(2)) fl |= XMPP_CONN_FLAG_MANDATORY_TLS;
                if (r.onein(3)) fl |= XMPP_CONN_FLAG_LEGACY_AUTH;
                if (r.onein(3)) fl |= XMPP_CONN_FLAG_DISABLE_SM;
                if (r.onein(3)) fl |= XMPP_CONN_FLAG_ENABLE_COMPRESSION;
            }
            a.k->set(a.jid, "secret", fl);
            xmpp_conn_set_cafile(a.k->conn, ca_file().c_str());
            a.ev_disc = (size_t)a.k->disconnects;
            a.t0 = sim::now_ms;
            auto start = [&] {
                const char *h = a.has_alt ? a.alt.c_str() : nullptr;
                if (a.comp) return a.k->connect_component(h, (unsigned short)a.altport);
                if (a.raw) return a.k->connect_raw(h, (unsigned short)a.altport);
                return a.k->connect(h, (unsigned short)a.altport);
            };
            a.rc = start();
            stat_add("attempts_started");
            if (a.rc) { a.done = true; a.t_done = sim::now_ms; if (a.k->open) { c.viol("state", "the call failed, but an attempt is open"); } }
        }
        if (may_dns) want_dns = false;
        if (!sim::dns_queries.empty() && !want_dns && !may_dns) c.viol("srv-not-bypassed", "SRV query " + vis(sim::dns_queries[0]) + ": " + atts.back().show());
        if (sim::dns_queries.empty() && want_dns) c.viol("srv-not-used", "no SRV query: " + atts.back().show());
        // the server knows which domain is meant by the endpoint
        w.srv.intercept = w.srv.on_header_hook = [&](XPeer &p, const Elem &) {
            for (auto &y : atts) if (p.s && y.ep.count({p.s->ip, p.s->port})) { w.srv.conf.domain = y.domain; w.srv.conf.component = y.comp; w.srv.conf.starttls = false; }
            return false;
        };
        int cancel = r.onein(12) ? (int)r.below(2000) : -1;
        u64 end = sim::now_ms + 400000;
        size_t c_at = 0;
        for (;;) {
            bool all = true;
            for (size_t i = first; i < atts.size(); i++) {
                Att &a = atts[i];
                if (a.done) continue;
                if (a.k->up || !a.k->open) { a.done = true; a.t_done = sim::now_ms; if (a.k->open && a.k->up) {} continue; }
                all = false;
            }
            if (all || sim::now_ms > end || c.violated) break;
            if (cancel >= 0 && cancel-- == 0) {
                for (size_t i = first; i < atts.size(); i++) if (!atts[i].done) { atts[i].cancelled = true; atts[i].k->disconnect(); }
                w.until_ms(4000, [&] { for (size_t i = first; i < atts.size(); i++) if (atts[i].k->open) return false; return true; }, 20);
                c_at = sim::connects.size();
                stat_add("cancelled");
                break;
            }
            w.once((unsigned long)lab.tmo);
        }
        bool was_cancelled = false;
        for (size_t i = first; i < atts.size(); i++) was_cancelled |= atts[i].cancelled;
        for (size_t i = first; i < atts.size() && !c.violated; i++) {
            if (was_cancelled) break;
            Att &a = atts[i];
            lab.collect(a);
            if (!a.done) { c.viol("no-end", "the attempt neither came up nor was given up: " + a.show()); break; }
        }
        if (c.violated) break;
        if (!was_cancelled) {
            for (int i = 0; i < 6; i++) w.once(5);
            for (size_t i = first; i < atts.size() && !c.violated; i++) { lab.judge(atts[i]); if (c.k < 6 && c.sample.empty()) c.sample = atts[i].show(); }
        } else {
            w.run_ms(12000, 100);
            if (sim::connects.size() != c_at) c.viol("after-end", "a connection is attempted after the end was reported: " + atts.back().show());
        }
        if (c.violated) break;
        for (auto *k : ks) if (k->open) k->disconnect();
        w.until_ms(15000, [&] { for (auto *k : ks) if (k->open) return false; return true; }, 50);
        for (auto *k : ks) if (k->open) { c.viol("harness/still-open", "the connection did not end"); break; }
        if (sim::open_count()) c.viol("descriptor-left", strf("%d descriptors are still open after the end: ", sim::open_count()) + atts.back().show());
        if (!sim::misuse.empty()) c.viol("descriptor-misuse", sim::misuse[0]);
        sim::now_ms += r.below(2000);
    }
    w.fini();
}
