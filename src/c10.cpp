// C10: parser level. The connection-level half lives in c10b.cpp.
#include "gen.h"
#include "nolog.h"
extern "C" {
#include "parser.h"
}

struct Log {
    vector<string> ev;
    xmpp_ctx_t *ctx;
    bool qualified = false; // some attribute carried a namespace
};
static string attrs_str(const std::map<string, string> &m)
{
    string r;
    for (auto &a : m) r += " " + a.first + "=" + strf("%zu:", a.second.size()) + a.second;
    return r;
}
static void on_start(char *name, char **attrs, void *ud)
{
    Log *l = (Log *)ud;
    std::map<string, string> m;
    for (int i = 0; attrs && attrs[i]; i += 2) {
        char *n = parser_attr_name(l->ctx, attrs[i]);
        m[n] = attrs[i + 1];
        xmpp_free(l->ctx, n);
    }
    l->ev.push_back(string("OPEN ") + name + attrs_str(m));
}
static void on_end(char *, void *ud) { ((Log *)ud)->ev.push_back("CLOSE"); }
static void on_stanza(xmpp_stanza_t *s, void *ud) { ((Log *)ud)->ev.push_back("STANZA " + read_stanza(s).canon()); }

struct P {
    Log log;
    parser_t *p;
    explicit P(xmpp_ctx_t *ctx) { log.ctx = ctx; p = parser_new(ctx, on_start, on_end, on_stanza, &log); }
    ~P() { parser_free(p); }
    bool feed(const string &s)
    {
        // exact-size heap copy: a read past the chunk is an ASan report
        char *b = (char *)malloc(s.size() ? s.size() : 1);
        memcpy(b, s.data(), s.size());
        int rc = parser_feed(p, b, (int)s.size());
        free(b);
        if (!rc) log.ev.push_back("ERROR");
        return rc != 0;
    }
};
static string show(const vector<string> &v, size_t i) { return i < v.size() ? vis(v[i], 300) : "(nothing)"; }
static bool same(Case &c, const vector<string> &a, const vector<string> &b, const char *key, const string &ctxmsg)
{
    if (a == b) return true;
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    c.viol(key, strf("event %zu differs: ", i) + show(a, i) + " / " + show(b, i) + " for " + ctxmsg);
    return false;
}
static vector<size_t> random_cuts(Rng &r, size_t n)
{
    vector<size_t> cuts;
    size_t k = r.onein(3) ? 1 + r.below(3) : 1 + r.below(std::min<size_t>(n / 2 + 2, 300));
    std::set<size_t> s;
    for (size_t i = 0; i < k; i++) s.insert(r.below(n + 1));
    for (size_t x : s) cuts.push_back(x);
    return cuts;
}
static vector<string> run(xmpp_ctx_t *ctx, const string &s, const vector<size_t> &cuts)
{
    P p(ctx);
    size_t at = 0;
    for (size_t x : cuts) { if (x < at) continue; if (!p.feed(s.substr(at, x - at))) return p.log.ev; at = x; }
    p.feed(s.substr(at));
    stat_add("feeds", cuts.size() + 1);
    return p.log.ev;
}
static void spoof(Rng &r, Elem &e)
{
    if (!e.ns.empty() && r.onein(2)) { e.attrs["urn:attr|xmlns"] = r.onein(2) ? "urn:spoof" : e.ns; stat_add("qualified_xmlns"); }
    for (auto &k : e.kids) if (!k.is_text) spoof(r, k);
}
static void unspoof(Elem &e)
{
    e.attrs.erase("urn:attr|xmlns");
    for (auto &k : e.kids) if (!k.is_text) unspoof(k);
}
struct Stream { string text; vector<string> expect; bool wellformed = true; Elem model; vector<Elem> stanzas; bool qualified = false; };

static Stream gen_stream(Rng &r, bool small)
{
    Stream st;
    string &o = st.text;
    if (r.onein(2)) o += r.onein(2) ? "<?xml version='1.0'?>" : "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone='yes' ?>\n";
    std::map<string, string> scope{{"xml", "http://www.w3.org/XML/1998/namespace"}};
    std::map<string, string> attrs;
    if (!r.onein(4)) attrs["from"] = gen_text(r, r.below(20), true);
    if (!r.onein(4)) attrs["id"] = gen_text(r, r.below(20), true);
    if (r.onein(2)) attrs["version"] = "1.0";
    string def = r.onein(6) ? "jabber:component:accept" : r.onein(10) ? "" : "jabber:client";
    scope[""] = def;
    string pre = r.onein(5) ? "" : r.onein(4) ? "s" : "stream";
    string name = r.onein(10) ? "foo" : "stream";
    o += "<" + (pre.empty() ? "" : pre + ":") + name;
    vector<string> at;
    if (!pre.empty()) { scope[pre] = "http://etherx.jabber.org/streams"; at.push_back("xmlns:" + pre + "='http://etherx.jabber.org/streams'"); }
    if (!def.empty()) at.push_back("xmlns=" + write_attr(r, def));
    for (auto &a : attrs) at.push_back(a.first + "=" + write_attr(r, a.second));
    if (r.onein(3)) { attrs["lang"] = "en"; at.push_back("xml:lang='en'"); }
    for (size_t i = at.size(); i > 1; i--) std::swap(at[i - 1], at[r.below(i)]);
    for (auto &a : at) o += " " + a;
    o += r.onein(6) ? " >" : ">";
    st.expect.push_back("OPEN " + name + attrs_str(attrs));
    int n = (int)r.below(small ? 3 : 6);
    for (int i = 0; i < n; i++) {
        if (r.onein(3)) o += r.onein(2) ? " " : "\n \t";
        if (r.onein(12)) o += "<!-- between -->";
        GenOpt g;
        g.depth = (int)r.below(small ? 2 : 5);
        g.fan = small ? 2 : 4;
        g.textlen = small ? 12 : r.onein(20) ? 9000 : 60;
        g.attrs = small ? 2 : 4;
        g.huge = !small;
        Node nd = gen_node(r, g);
        Elem e = to_elem(nd, def);
        if (!small && r.onein(60)) { // deeply nested
            for (int d = 20 + (int)r.below(r.onein(3) ? 700 : 100); d > 0; d--) { Elem x; x.name = d % 7 ? "d" : gen_name(r); x.ns = e.ns; if (r.onein(20)) { Elem t; t.is_text = true; t.text = "t"; x.kids.push_back(t); } x.kids.push_back(std::move(e)); e = std::move(x); }
            stat_add("deep_stanzas");
        }
        // some CR and TAB/LF in values, only expressible as references
        normalise(e);
        if (r.onein(8)) {
            Elem *p = &e;
            string key = r.onein(2) ? "http://www.w3.org/XML/1998/namespace|lang" : "urn:attr|x";
            if (!p->attrs.count("lang") && !p->attrs.count("x")) { p->attrs[key] = "v"; st.qualified = true; }
        }
        // is no namespace declaration
        if (r.onein(10)) spoof(r, e);
        if (r.onein(6)) e.attrs["ws"] = "a\tb\nc\rd";
        if (r.onein(6)) { if (e.kids.empty() || !e.kids.back().is_text) { Elem t; t.is_text = true; t.text = "x\ry\r\nz"; e.kids.push_back(t); } }
        write_xml(r, e, scope, o);
        unspoof(e);
        Elem x = e;
        strip_attr_ns(x);
        st.expect.push_back("STANZA " + x.canon());
        st.stanzas.push_back(e);
    }
    if (!r.onein(4)) {
        o += "</" + (pre.empty() ? "" : pre + ":") + name + (r.onein(5) ? " >" : ">");
        st.expect.push_back("CLOSE");
    }
    return st;
}
// what libxml2 makes of a complete stream document
static bool reference(const string &doc, vector<string> &ev)
{
    Elem root;
    if (!xml_parse_doc(doc, root)) return false;
    std::map<string, string> at;
    for (auto &a : root.attrs) { size_t b = a.first.rfind('|'); at[b == string::npos ? a.first : a.first.substr(b + 1)] = a.second; }
    ev.push_back("OPEN " + root.name + attrs_str(at));
    for (auto &k : root.kids) {
        if (k.is_text) continue;
        Elem e = k;
        unspoof(e);
        strip_attr_ns(e);
        normalise(e);
        ev.push_back("STANZA " + e.canon());
    }
    ev.push_back("CLOSE");
    return true;
}
static string corrupt(Rng &r, string s)
{
    int n = 1 + (int)r.below(3);
    static const char *ins[] = {"<", ">", "&", "]]>", "<a>", "</a>", "<![CDATA[", "<!--", "--", "&bogus;", "\xff", "\xc3", "\xed\xa0\x80", "</stream:stream>", "<?xml version='1.0'?>", "<!DOCTYPE x [<!ENTITY e 'v'>]>", "&e;", "=", "\"", "'", "/", "<p9:x/>", " a='1' a='2'", "&#0;", "&#xFFFF;", "\x01", "\x1f", "<xmlns:x/>", "xmlns:q=''"};
    for (int i = 0; i < n; i++) {
        size_t p = s.empty() ? 0 : r.below(s.size());
        switch (r.below(5)) {
        case 0: s.erase(p, 1 + r.below(4)); break;
        case 1: if (p < s.size()) s[p] = (char)r.next(); break;
        case 2: s.insert(p, ins[r.below(sizeof ins / sizeof *ins)]); break;
        case 3: s.resize(p); break;
        default: { size_t q = r.below(s.size() + 1); s.insert(p, s.substr(q, 1 + r.below(12))); }
        }
    }
    return s;
}
void c10_conn(Case &c);
PROP(C10)
{
    if (c.k % 4 == 3) { c10_conn(c); return; }
    sim::active = false;
    MemMon mm;
    mm.fill = (u8)(c.k & 1 ? 0xA5 : 0x3C);
    xmpp_ctx_t *ctx = xmpp_ctx_new(&mm.mem, &nolog);
    c.nontrivial = true;
    {
        bool small = c.k % 4 == 0;
        Stream st = gen_stream(c.rng, small);
        size_t most = c.rng.onein(3) ? 300000 : 20000;
        while (st.text.size() > most) st = gen_stream(c.rng, small);
        if (st.text.size() > 70000) stat_add("streams_over_70000");
        bool mal = c.k % 4 == 2;
        string s = mal ? corrupt(c.rng, st.text) : st.text;
        c.mixsig(s);
        c.sample = vis(s, 900);
        if (c.verbose) fprintf(stderr, "stream of %zu bytes\n", s.size());
        vector<string> whole = run(ctx, s, {});
        stat_add("streams");
        stat_add("events", whole.size());
        if (!mal) {
            stat_add("wellformed_streams");
            same(c, whole, st.expect, "model", vis(s, 900));
            vector<string> ref;
            string doc = s;
            bool closed = !st.expect.empty() && st.expect.back() == "CLOSE";
            if (closed) {
                if (!reference(doc, ref)) c.viol("harness/reference-refused", vis(s, 900));
                else { stat_add("compared_with_libxml2"); same(c, whole, ref, "reference", vis(s, 900)); }
            }
            if (st.qualified) {
                // attributes with a namespace: does the stanza still tell which one?
                stat_add("streams_with_qualified_attributes");
                bool kept = true;
                size_t i = 0;
                for (auto &e : st.stanzas) {
                    i++;
                    bool q = false;
                    for (auto &a : e.attrs) if (a.first.find('|') != string::npos) q = true;
                    if (q && i < whole.size() && whole[i] == st.expect[i]) kept = false; // looks exactly like an unqualified attribute
                }
                if (!kept) c.viol("attribute-namespace-dropped", "an attribute in a namespace (xml:lang) is delivered as an unqualified one");
            }
        } else if (!whole.empty() && whole.back() == "ERROR") stat_add("malformed_streams");
        // every chunking gives the same events
        vector<size_t> bytewise;
        if (s.size() <= 3000) {
            for (size_t i = 1; i < s.size(); i++) bytewise.push_back(i);
            same(c, whole, run(ctx, s, bytewise), "chunking/bytewise", vis(s, 900));
            stat_add("chunkings");
        }
        if (s.size() <= 260)
            for (size_t i = 0; i <= s.size(); i++) { stat_add("chunkings"); if (!same(c, whole, run(ctx, s, {i}), "chunking/two", strf("split at %zu of ", i) + vis(s, 900))) break; }
        for (int i = 0; i < 8; i++) {
            auto cuts = random_cuts(c.rng, s.size());
            stat_add("chunkings");
            string d;
            for (size_t x : cuts) d += strf("%zu ", x);
            if (!same(c, whole, run(ctx, s, cuts), "chunking/random", "cuts " + d.substr(0, 200) + " of " + vis(s, 900))) break;
        }
        // nothing is held back: after any prefix the events are those of the prefix
        for (int i = 0; i < 3 && !s.empty(); i++) {
            string pre = s.substr(0, c.rng.below(s.size() + 1));
            vector<string> w = run(ctx, pre, {}), b = run(ctx, pre, random_cuts(c.rng, pre.size()));
            same(c, w, b, "chunking/prefix", vis(pre, 900));
            bool ok = w.size() <= whole.size();
            for (size_t j = 0; ok && j < w.size(); j++) if (w[j] != whole[j]) ok = false;
            if (!ok) c.viol("prefix", "events of a prefix are not a prefix of the events: " + vis(pre, 900));
        }
        // restart from a clean slate, wherever the first stream stopped
        for (int i = 0; i < 4; i++) {
            P p(ctx);
            string pre = s.substr(0, c.rng.below(s.size() + 1));
            p.feed(pre);
            if (c.rng.onein(4)) { parser_reset(p.p); p.feed(s.substr(0, c.rng.below(s.size() + 1))); }
            if (!parser_reset(p.p)) { c.viol("reset-failed", ""); break; }
            p.log.ev.clear();
            auto cuts = random_cuts(c.rng, s.size());
            size_t at = 0;
            bool ok = true;
            for (size_t x : cuts) { if (!(ok = p.feed(s.substr(at, x - at)))) break; at = x; }
            if (ok) p.feed(s.substr(at));
            stat_add("restarts");
            same(c, p.log.ev, whole, "restart", "first stream " + vis(pre, 400) + " second " + vis(s, 500));
        }
        // the string constructor sees the same stanzas
        if (!mal && st.stanzas.size()) {
            string t;
            std::map<string, string> scope{{"xml", "http://www.w3.org/XML/1998/namespace"}};
            const Elem &e = st.stanzas[c.rng.below(st.stanzas.size())];
            write_xml(c.rng, e, scope, t);
            xmpp_stanza_t *z = xmpp_stanza_new_from_string(ctx, t.c_str());
            Elem x = e;
            strip_attr_ns(x);
            if (!z) c.viol("from_string/refused", vis(t, 600));
            else {
                stat_add("from_string");
                if (read_stanza(z).canon() != x.canon()) c.viol("from_string/different", vis(t, 600));
                xmpp_stanza_release(z);
            }
        }
    }
    xmpp_ctx_free(ctx);
    if (!mm.live.empty()) c.viol("leak", strf("%zu blocks leaked: %s", mm.live.size(), mm.leaks(1)[0].c_str()));
    for (auto &e : mm.errors) c.viol("free", e);
}
