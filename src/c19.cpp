// C19: JID helpers against the RFC 7622 splitting rules.
#include "case.h"
#include "mem.h"

static xmpp_log_t nolog = {[](void *, xmpp_log_level_t, const char *, const char *) {}, nullptr};
struct Z { // exact-size NUL-terminated heap copy
    char *p;
    Z(const string &s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); }
    ~Z() { free(p); }
};
typedef std::pair<bool, string> Opt;
static Opt take(xmpp_ctx_t *ctx, char *s)
{
    Opt r(s != nullptr, s ? s : "");
    if (s) xmpp_free(ctx, s);
    return r;
}
static string show(const Opt &o) { return o.first ? "\"" + vis(o.second, 120) + "\"" : "NULL"; }

static void split(Case &c, xmpp_ctx_t *ctx, const string &j)
{
    Z z(j);
    stat_add("splits");
    size_t sl = j.find('/');
    string rest = j.substr(0, sl);
    Opt wres(sl != string::npos, sl == string::npos ? "" : j.substr(sl + 1));
    size_t at = rest.find('@');
    Opt wnode(at != string::npos, at == string::npos ? "" : rest.substr(0, at));
    Opt wdom(true, at == string::npos ? rest : rest.substr(at + 1));
    Opt res = take(ctx, xmpp_jid_resource(ctx, z.p)), node = take(ctx, xmpp_jid_node(ctx, z.p)), dom = take(ctx, xmpp_jid_domain(ctx, z.p)), bare = take(ctx, xmpp_jid_bare(ctx, z.p));
    auto cmp = [&](const char *what, const Opt &g, const Opt &w) {
        if (g != w) c.viol(string("split/") + what, string(what) + " of \"" + vis(j, 200) + "\" is " + show(g) + ", expected " + show(w));
    };
    cmp("resource", res, wres);
    cmp("node", node, wnode);
    cmp("domain", dom, wdom);
    cmp("bare", bare, Opt(true, rest));
    string join = (node.first ? node.second + "@" : "") + dom.second + (res.first ? "/" + res.second : "");
    if (join != j) c.viol("split/rejoin", "parts of \"" + vis(j, 200) + "\" join to \"" + vis(join, 200) + "\"");
    if (string(z.p) != j) c.viol("split/modified", "the input string was modified");
}
static void build(Case &c, xmpp_ctx_t *ctx, const Opt &n, const Opt &d, const Opt &r)
{
    Z zn(n.second), zd(d.second), zr(r.second);
    char *j = xmpp_jid_new(ctx, n.first ? zn.p : nullptr, d.first ? zd.p : nullptr, r.first ? zr.p : nullptr);
    Opt g = take(ctx, j);
    stat_add("builds");
    string args = "jid_new(" + show(n) + strf("[%zu], ", n.second.size()) + show(d) + strf("[%zu], ", d.second.size()) + show(r) + strf("[%zu])", r.second.size());
    bool badchar = n.first && n.second.find_first_of("\"&'/:<>@") != string::npos;
    bool toolong = (n.first && n.second.size() > 1023) || (d.first && d.second.size() > 1023) || (r.first && r.second.size() > 1023);
    bool must_refuse = badchar || toolong || !d.first;
    if (must_refuse) {
        stat_add("builds_refusable");
        if (g.first) c.viol(badchar ? "build/bad-local-accepted" : toolong ? "build/too-long-accepted" : "build/no-domain-accepted", args + " = " + show(g));
        return;
    }
    if (d.second.empty() || d.second.find_first_of("/@") != string::npos) return; // not covered by the property
    if (!g.first) { c.viol("build/refused", args + " was refused"); return; }
    stat_add("builds_valid");
    string want = (n.first ? n.second + "@" : "") + d.second + (r.first ? "/" + r.second : "");
    if (g.second != want) c.viol("build/wrong", args + " = " + show(g));
    Z z(g.second);
    Opt res = take(ctx, xmpp_jid_resource(ctx, z.p)), node = take(ctx, xmpp_jid_node(ctx, z.p)), dom = take(ctx, xmpp_jid_domain(ctx, z.p));
    auto norm = [](Opt o) { if (!o.first) o.second.clear(); return o; };
    if (res != norm(r) || node != norm(n) || dom != norm(d)) c.viol("build/roundtrip", args + " splits into " + show(node) + "," + show(dom) + "," + show(res));
    split(c, ctx, g.second);
}
static string rstr(Rng &r, const char *extra, size_t n)
{
    string s;
    for (size_t i = 0; i < n; i++) {
        u64 k = r.below(10);
        char ch = k < 6 ? (char)('a' + r.below(26)) : k < 8 && *extra ? extra[r.below(strlen(extra))] : (char)(1 + r.below(255));
        s += ch;
    }
    return s;
}
PROP(C19)
{
    sim::active = false;
    MemMon mm;
    xmpp_ctx_t *ctx = xmpp_ctx_new(&mm.mem, &nolog);
    c.nontrivial = true;
    c.mixsig(c.k);
    mm.fill = (u8)(c.k & 1 ? 0xA5 : 0x3C);
    if (c.k < 7 * 7) {
        // every string of up to 7 characters over {a @ / . b \xff}, first two characters fixed by the case
        static const char al[] = "a@/.b\xc3";
        vector<string> pre;
        char p1 = c.k / 7 < 6 ? al[c.k / 7] : 0, p2 = c.k % 7 < 6 ? al[c.k % 7] : 0;
        string base;
        if (p1) base += p1;
        if (p1 && p2) base += p2;
        split(c, ctx, base);
        if (p1 && p2)
            for (int l = 1; l <= 5; l++) {
                size_t tot = 1;
                for (int i = 0; i < l; i++) tot *= 6;
                for (size_t x = 0; x < tot; x++) {
                    string s = base;
                    size_t y = x;
                    for (int i = 0; i < l; i++) { s += al[y % 6]; y /= 6; }
                    split(c, ctx, s);
                }
            }
        c.sample = "all strings up to 7 characters over {a,@,/,.,b,\\xc3} with prefix \"" + vis(base) + "\"";
    } else if (c.k < 49 + 64) {
        // length limits, all combinations around 1023
        static const int lens[] = {-1, 0, 1, 1022, 1023, 1024, 1025, 3000};
        int a = (int)(c.k - 49) / 8, b = (int)(c.k - 49) % 8;
        for (int r = 0; r < 8; r++) {
            auto mk = [&](int l, char ch) { return Opt(l >= 0, l > 0 ? string(l, ch) : ""); };
            build(c, ctx, mk(lens[a], 'n'), mk(lens[b], 'd'), mk(lens[r], 'r'));
        }
        c.sample = strf("part lengths (%d,%d,*) around the limits", lens[a], lens[b]);
    } else if (c.k < 113 + 255) {
        char ch = (char)(c.k - 113 + 1);
        // every byte in every position of a local part, domain and resource
        for (string n : {string(1, ch), string("x") + ch, ch + string("x"), string("ab") + ch + "cd"}) {
            build(c, ctx, Opt(true, n), Opt(true, "dom.example"), Opt(c.rng.onein(2), "res"));
            build(c, ctx, Opt(c.rng.onein(2), "node"), Opt(true, n), Opt(c.rng.onein(2), "res"));
            build(c, ctx, Opt(c.rng.onein(2), "node"), Opt(true, "d"), Opt(true, n));
            split(c, ctx, n);
            split(c, ctx, "a@" + n + "/r");
        }
        c.sample = strf("byte 0x%02x in every part", (u8)ch);
    } else {
        for (int i = 0; i < 40; i++) {
            size_t l = c.rng.onein(6) ? 1000 + c.rng.below(50) : c.rng.below(20);
            split(c, ctx, rstr(c.rng, "@/@/.:<>&'\"", l));
            auto part = [&](const char *ex) { return Opt(!c.rng.onein(5), rstr(c.rng, ex, c.rng.onein(6) ? 1020 + c.rng.below(8) : c.rng.below(12))); };
            Opt n = part(c.rng.onein(2) ? "" : "\"&'/:<>@"), d = part(c.rng.onein(3) ? "/@" : ".-"), r = part("/@ <&>");
            if (c.rng.onein(2)) for (auto &ch : n.second) if (strchr("\"&'/:<>@", ch)) ch = '_';
            if (c.rng.onein(2)) for (auto &ch : d.second) if (strchr("/@", ch)) ch = '-';
            build(c, ctx, n, d, r);
        }
        c.sample = "40 random strings split and 40 random triples built";
    }
    xmpp_ctx_free(ctx);
    if (!mm.live.empty()) c.viol("leak", strf("%zu blocks leaked: %s", mm.live.size(), mm.leaks(1)[0].c_str()));
    for (auto &e : mm.errors) c.viol("free", e);
}
