// C15: DNS SRV response decoding against an independent encoder/model.
#include "case.h"
#include "dns.h"
#include "mem.h"
#include <algorithm>
extern "C" {
#include "resolver.h"
}
static xmpp_log_t nolog = {[](void *, xmpp_log_level_t, const char *, const char *) {}, nullptr};

static string srvline(int p, int w, int port, const string &t) { return strf("%05d %05d %05d ", p, 65535 - w, port) + t; }

// decode, check consistency; returns found
static bool decode(Case &c, xmpp_ctx_t *ctx, MemMon &mm, const string &pkt, vector<string> *got, vector<std::pair<int, int>> *order)
{
    u8 *b = (u8 *)malloc(pkt.size() ? pkt.size() : 1);
    memcpy(b, pkt.data(), pkt.size());
    resolver_srv_rr_t *list = (resolver_srv_rr_t *)0x10;
    int rc = resolver_srv_lookup_buf(ctx, b, pkt.size(), &list);
    free(b);
    stat_add("decodes");
    string hexs;
    auto hex = [&]() { if (hexs.empty()) for (size_t i = 0; i < pkt.size() && i < 600; i++) hexs += strf("%02x", (u8)pkt[i]); return hexs; };
    if (list == (resolver_srv_rr_t *)0x10) { c.viol("output-untouched", "list not written; packet " + hex()); return false; }
    if (rc == XMPP_DOMAIN_FOUND && !list) c.viol("found-empty", "'found' without records; packet " + hex());
    if (rc != XMPP_DOMAIN_FOUND && list) c.viol("notfound-list", "'not found' with a list; packet " + hex());
    if (rc != XMPP_DOMAIN_FOUND && rc != XMPP_DOMAIN_NOT_FOUND) c.viol("rc", strf("return code %d", rc));
    size_t n = 0;
    const resolver_srv_rr_t *prev = nullptr;
    for (resolver_srv_rr_t *r = list; r; r = r->next) {
        n++;
        if (!memchr(r->target, 0, sizeof r->target)) { c.viol("unterminated", "target without terminator; packet " + hex()); break; }
        if (strlen(r->target) >= 256) c.viol("overlong", "target of 256 or more bytes");
        if (prev && (prev->priority > r->priority || (prev->priority == r->priority && prev->weight < r->weight)))
            c.viol("order", strf("records out of order: (%u,%u) before (%u,%u); packet ", prev->priority, prev->weight, r->priority, r->weight) + hex());
        if (got) got->push_back(srvline(r->priority, r->weight, r->port, r->target));
        prev = r;
        if (n > 70000) { c.viol("cycle", "list does not end"); return true; }
    }
    if (order) (void)order;
    stat_add(rc == XMPP_DOMAIN_FOUND ? "found" : "not_found");
    stat_add("records", n);
    resolver_srv_free(ctx, list);
    if (!mm.live.empty() && mm.live.size() > 2) {} // checked at the end
    return rc == XMPP_DOMAIN_FOUND;
}

PROP(C15)
{
    sim::active = false;
    MemMon mm;
    xmpp_ctx_t *ctx = xmpp_ctx_new(&mm.mem, &nolog);
    size_t base = mm.live.size();
    c.nontrivial = true;
    Rng &r = c.rng;
    mm.fill = r.onein(2) ? 0xA5 : 0x3C;

    // a well-formed response
    DnsMsg m;
    m.compress = (int)r.below(4);
    vector<string> pool;
    int npool = 1 + (int)r.below(5);
    for (int i = 0; i < npool; i++) pool.push_back(dns_random_name(r, r.onein(6) ? 200 + r.below(54) : 1 + r.below(60)));
    auto name = [&]() -> string {
        if (r.onein(12)) return "";                                  // root
        string p = r.pick(pool);
        if (r.onein(2)) { string q = dns_random_name(r, 1 + r.below(10)) + "." + p; if (q.size() <= 253) return q; }
        return p;
    };
    m.id = (int)r.below(65536);
    m.qname = "_xmpp-client._tcp." + r.pick(pool);
    if (m.qname.size() > 253) m.qname = r.pick(pool);
    m.nq = r.onein(8) ? (int)r.below(4) : 1;
    int nans = r.onein(5) ? 0 : r.onein(12) ? (int)r.below(120) : 1 + (int)r.below(8);
    vector<string> want;
    for (int i = 0; i < nans; i++) {
        DnsRR rr;
        rr.owner = r.onein(3) ? name() : m.qname;
        rr.ttl = (u32)r.next();
        int kind = (int)r.below(10);
        if (kind < 6) {
            rr.type = 33;
            rr.prio = r.onein(3) ? (int)r.below(65536) : (int)r.below(4);
            rr.weight = r.onein(3) ? (int)r.below(65536) : (int)r.below(4);
            rr.port = (int)r.below(65536);
            rr.target = name();
            if (r.onein(15)) rr.cls = r.onein(2) ? 3 : 255; // not IN
            if (rr.cls == 1) want.push_back(srvline(rr.prio, rr.weight, rr.port, rr.target));
        } else if (kind == 6) { rr.type = 5; rr.target = name(); rr.is_name = true; }
        else if (kind == 7) { rr.type = 1; rr.rdata = r.bytes(4); }
        else if (kind == 8) { rr.type = 28; rr.rdata = r.bytes(16); }
        else { rr.type = r.pick<int>({16, 41, 15, 6, 12, 99, 65535, 0x2100, 32, 34}); rr.rdata = r.bytes(r.below(40)); }
        m.ans.push_back(rr);
    }
    int extra = r.onein(3) ? (int)r.below(5) : 0; // authority / additional must be ignored
    for (int i = 0; i < extra; i++) {
        DnsRR rr;
        rr.owner = name();
        rr.type = r.onein(2) ? 33 : 1;
        rr.prio = 1; rr.weight = 2; rr.port = 3; rr.target = name();
        if (rr.type == 1) rr.rdata = r.bytes(4);
        (r.onein(2) ? m.auth : m.addl).push_back(rr);
    }
    string pkt = m.encode(r);
    if (pkt.size() > 65535) { xmpp_ctx_free(ctx); return; }
    c.mixsig(pkt);
    if (c.k % 2 == 0) {
        vector<string> got;
        bool found = decode(c, ctx, mm, pkt, &got, nullptr);
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        stat_add("wellformed");
        stat_add("srv_answers", want.size());
        auto dump = [&]() { string h; for (size_t i = 0; i < pkt.size() && i < 500; i++) h += strf("%02x", (u8)pkt[i]); return h; };
        if (got != want) {
            string a, b;
            for (auto &s : got) a += s + "; ";
            for (auto &s : want) b += s + "; ";
            bool dot = true;
            vector<string> g2 = got;
            for (auto &s : g2) if (s.size() && s.back() == '.') s.pop_back();
            std::sort(g2.begin(), g2.end());
            dot = g2 == want;
            string last = m.ans.empty() ? "" : strf("%d", m.ans.back().type);
            c.viol(dot ? "wellformed/trailing-dot" : got.empty() ? "wellformed/dropped-all" : "wellformed/records", "decoded [" + vis(a, 900) + "] expected [" + vis(b, 900) + "] last answer type " + last + " packet " + dump());
        } else if (found != !want.empty()) c.viol("wellformed/rc", strf("found=%d for %zu records", found, want.size()));
        if (found && want.size() > 1) stat_add("multi_record_lists");
        stat_distinct("compression", hash_str(strf("%d/%zu/%zu", m.compress, want.size(), m.ans.size())));
        c.sample = strf("%zu answers (%zu IN/SRV), compression style %d, %zu bytes", m.ans.size(), want.size(), m.compress, pkt.size());
    } else {
        // corruptions
        for (int i = 0; i < 30; i++) {
            string p = pkt;
            int what = (int)r.below(9);
            int n = 1 + (int)r.below(4);
            switch (what) {
            case 0: p = p.substr(0, r.below(p.size() + 1)); break;
            case 1: while (n--) p[r.below(p.size())] = (char)r.next(); break;
            case 2: while (n--) { size_t at = r.below(p.size()); p[at] = (char)(0xc0 | r.below(64)); if (at + 1 < p.size() && r.onein(2)) p[at + 1] = (char)r.below(at + 2); } break; // forged pointers
            case 3: p[r.pick<size_t>({4, 5, 6, 7, 8, 9, 10, 11})] = (char)r.next(); break;
            case 4: p.insert(r.below(p.size()), r.bytes(1 + r.below(20))); break;
            case 5: { size_t at = r.below(p.size()); p.erase(at, 1 + r.below(10)); break; }
            case 6: { // targets made of long labels (overflow of the fixed field), reached through pointers
                DnsMsg q = m;
                q.ans.clear();
                p = q.encode(r);
                size_t labels = p.size();
                int k = 1 + (int)r.below(8);
                for (int x = 0; x < k; x++) { int l = r.onein(2) ? 63 : 1 + (int)r.below(63); p += (char)l; p += string(l, (char)('a' + x)); }
                if (r.onein(2)) p += string(1, 0); else { p += (char)(0xc0 | ((labels + r.below(70)) >> 8 & 63)); p += (char)((labels + r.below(70)) & 255); }
                // the junk labels sit where answers are expected: put records behind them
                size_t here = p.size();
                p[6] = 0; p[7] = (char)(1 + r.below(3));
                string junk = p.substr(labels);
                p.resize(labels);
                for (int x = 0; x < 3; x++) {
                    p += string("\0", 1) + string("\0\x21\0\x01\0\0\0\x01", 8);
                    string rd = string("\0\x01\0\x02\x14\x66", 6);
                    int l0 = (int)r.below(64);
                    if (l0) rd += string(1, (char)l0) + string(l0, 'z');
                    if (x && r.onein(2)) { size_t t = labels + 17 + r.below(60); rd += (char)(0xc0 | (t >> 8)); rd += (char)t; }
                    else rd += junk;
                    p += (char)(rd.size() >> 8); p += (char)rd.size();
                    p += rd;
                }
                (void)here;
                break;
            }
            case 7: { // chains of backward pointers
                p = p.substr(0, 12);
                p[4] = 0; p[5] = 0; p[6] = (char)0; p[7] = 1;
                string chain;
                size_t len = r.pick<size_t>({2, 10, 200, 2000, 8000});
                // answer owner name lies at the end of a chain placed in the question section
                p[5] = 1;
                string qn(1, 0);
                p += qn + string(4, 0);
                size_t pos = p.size();
                // one "question" whose name is skipped as plain labels holding pointers
                (void)pos;
                string body;
                p[5] = 2;
                size_t start = p.size();
                // labels of 63 bytes filled with pointers to the previous pointer
                size_t prev = 12;
                while (body.size() < len * 2 && body.size() < 16000) {
                    body += (char)62;
                    for (int x = 0; x < 31; x++) { size_t here = start + body.size(); body += (char)(0xc0 | (prev >> 8 & 63)); body += (char)prev; prev = here; if (prev > 16383) prev = 12; }
                }
                body += string(1, 0);
                p += body + string(4, 0);
                p += (char)(0xc0 | (prev >> 8 & 63)); p += (char)prev;
                p += string("\0\x21\0\x01\0\0\0\x01\0\x08\0\x01\0\x02\0\x03", 16);
                p += (char)(0xc0 | (prev >> 8 & 63)); p += (char)prev;
                break;
            }
            case 8: p = r.bytes(r.below(300)); if (p.size() > 4 && r.onein(2)) { p[2] = (char)0x81; p[3] = (char)(p[3] & 0xf0); } break;
            }
            if (r.onein(40)) p += r.bytes(60000 - (p.size() < 50000 ? p.size() : 50000));
            stat_distinct("corruptions", hash_str(p));
            decode(c, ctx, mm, p, nullptr, nullptr);
            c.mixsig(what);
        }
        c.sample = strf("30 corruptions of a %zu byte response with %zu answers", pkt.size(), m.ans.size());
    }
    if (mm.live.size() != base) c.viol("leak", strf("%zu blocks leaked: %s", mm.live.size() - base, mm.leaks(20).back().c_str()));
    for (auto &e : mm.errors) c.viol("free", e);
    xmpp_ctx_free(ctx);
}
