// C09: rendering, re-reading, copies, replies.
#include "gen.h"
#include "nolog.h"

static const char *HEAD = "<stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams'>";

// renders and checks the text against the model; returns the text
static bool check_render(Case &c, xmpp_ctx_t *ctx, xmpp_stanza_t *s, const Node &n, const char *what, string *text_out = nullptr)
{
    char *buf = (char *)1;
    size_t len = 12345;
    int rc = xmpp_stanza_to_text(s, &buf, &len);
    if (rc != XMPP_EOK) { c.viol(string(what) + "/render-failed", strf("rc=%d for ", rc) + node_str(n)); return false; }
    stat_add("renders");
    if (strlen(buf) != len) { c.viol(string(what) + "/length", strf("reported %zu, string has %zu: ", len, strlen(buf)) + vis(buf, 300)); }
    string text(buf);
    xmpp_free(ctx, buf);
    if (text_out) *text_out = text;
    if (text.size() >= 1020 && text.size() <= 1028) stat_add("renders_at_buffer_limit");
    if (text.size() > 1024) stat_add("renders_over_1024");
    Elem got, want = to_elem(n, "jabber:client");
    normalise(want);
    if (!xml_parse_doc(HEAD + text + "</stream:stream>", got)) { c.viol(string(what) + "/not-well-formed", vis(text, 600)); return false; }
    normalise(got);
    if (got.kids.size() != 1 || got.kids[0].is_text) { c.viol(string(what) + "/not-one-element", vis(text, 600)); return false; }
    if (got.kids[0].canon() != want.canon()) {
        { string a = got.kids[0].canon(), b = want.canon(); size_t i = 0; while (i < a.size() && a[i] == b[i]) i++; i = i > 40 ? i - 40 : 0; c.note("read     " + vis(a.substr(i), 300)); c.note("expected " + vis(b.substr(i), 300)); }
        c.viol(string(what) + "/different-tree", "text " + vis(text, 500) + " built from " + node_str(n));
        return false;
    }
    return true;
}
static void check_accessors(Case &c, xmpp_ctx_t *ctx, xmpp_stanza_t *s, const Node &n, const char *what)
{
    auto bad = [&](const string &m) { c.viol(string(what) + "/accessor", m + " on " + node_str(n)); };
    if (n.is_text) {
        if (!xmpp_stanza_is_text(s) || xmpp_stanza_is_tag(s)) bad("kind");
        const char *t = xmpp_stanza_get_text_ptr(s);
        if (!t || n.text != t) bad("text_ptr");
        char *d = xmpp_stanza_get_text(s);
        if (!d || n.text != d) bad("text");
        if (d) xmpp_free(ctx, d);
        if (xmpp_stanza_get_name(s)) bad("name of text");
        return;
    }
    if (!xmpp_stanza_is_tag(s) || xmpp_stanza_is_text(s)) bad("kind");
    const char *nm = xmpp_stanza_get_name(s);
    if (!nm || n.name != nm) bad("name");
    if (xmpp_stanza_get_attribute_count(s) != (int)n.attrs.size()) bad(strf("attribute count %d, expected %zu", xmpp_stanza_get_attribute_count(s), n.attrs.size()));
    for (auto &a : n.attrs) {
        const char *v = xmpp_stanza_get_attribute(s, a.first.c_str());
        if (!v || a.second != v) bad("attribute " + a.first);
    }
    if (xmpp_stanza_get_attribute(s, "no-such-attribute")) bad("absent attribute");
    auto opt = [&](const char *k) { auto it = n.attrs.find(k); return it == n.attrs.end() ? string("\1none") : it->second; };
    auto g = [](const char *p) { return p ? string(p) : string("\1none"); };
    if (g(xmpp_stanza_get_ns(s)) != opt("xmlns") || g(xmpp_stanza_get_id(s)) != opt("id") || g(xmpp_stanza_get_type(s)) != opt("type") ||
        g(xmpp_stanza_get_to(s)) != opt("to") || g(xmpp_stanza_get_from(s)) != opt("from")) bad("standard attribute getter");
    // limited attribute list
    for (int lim : {0, 1, 2, 3, (int)n.attrs.size() * 2, (int)n.attrs.size() * 2 + 5}) {
        vector<const char *> at(lim + 1, (const char *)0x11);
        int k = xmpp_stanza_get_attributes(s, at.data(), lim);
        int exp = std::min<int>(lim, 2 * (int)n.attrs.size());
        if (k != exp) bad(strf("get_attributes(limit %d) = %d", lim, k));
        std::set<string> seen;
        for (int i = 0; i + 1 < k; i += 2) {
            auto it = n.attrs.find(at[i]);
            if (it == n.attrs.end() || it->second != at[i + 1] || !seen.insert(at[i]).second) bad("get_attributes pair");
        }
        if (at[lim] != (const char *)0x11) bad("get_attributes wrote past the limit");
    }
    string all;
    for (auto &k : n.kids) if (k.is_text) all += k.text;
    char *t = xmpp_stanza_get_text(s);
    if ((t ? string(t) : "") != all) bad("get_text");
    if (t) xmpp_free(ctx, t);
    size_t i = 0;
    for (xmpp_stanza_t *k = xmpp_stanza_get_children(s); k; k = xmpp_stanza_get_next(k), i++) {
        if (i >= n.kids.size()) { bad("too many children"); break; }
        check_accessors(c, ctx, k, n.kids[i], what);
    }
    if (i != n.kids.size()) bad("child count");
    // lookups return the first match
    auto idx = [&](xmpp_stanza_t *x) { if (!x) return -1; int j = 0; for (xmpp_stanza_t *k = xmpp_stanza_get_children(s); k; k = xmpp_stanza_get_next(k), j++) if (k == x) return j; return -2; };
    for (auto &k : n.kids) {
        if (k.is_text) continue;
        int wn = -1, wns = -1, wb = -1;
        string kns = k.attrs.count("xmlns") ? k.attrs.at("xmlns") : "\1";
        for (size_t j = 0; j < n.kids.size(); j++) {
            auto &o = n.kids[j];
            if (o.is_text) continue;
            bool sn = o.name == k.name, sns = o.attrs.count("xmlns") && o.attrs.at("xmlns") == kns;
            if (sn && wn < 0) wn = (int)j;
            if (sns && wns < 0) wns = (int)j;
            if (sn && sns && wb < 0) wb = (int)j;
        }
        if (idx(xmpp_stanza_get_child_by_name(s, k.name.c_str())) != wn) bad("child_by_name");
        if (idx(xmpp_stanza_get_child_by_path(s, n.name.c_str(), k.name.c_str(), NULL)) != wn && n.name.find('[') == string::npos) bad("child_by_path");
        if (kns != "\1") {
            if (idx(xmpp_stanza_get_child_by_ns(s, kns.c_str())) != wns) bad("child_by_ns");
            if (idx(xmpp_stanza_get_child_by_name_and_ns(s, k.name.c_str(), kns.c_str())) != wb) bad("child_by_name_and_ns");
            string own = n.attrs.count("xmlns") ? n.attrs.at("xmlns") : "";
            if ((n.name + k.name + kns + own).find_first_of("[]'") == string::npos && kns.size()) {
                string q = k.name + "[@ns='" + kns + "']";
                if (idx(xmpp_stanza_get_child_by_path(s, n.name.c_str(), q.c_str(), NULL)) != wb) bad("child_by_path with namespace");
                string me = n.name + "[@ns='" + (own.size() ? own : "urn:none") + "']";
                if (idx(xmpp_stanza_get_child_by_path(s, me.c_str(), k.name.c_str(), NULL)) != (own.size() ? wn : -1)) bad("child_by_path with namespace of the start");
                if (own.size() && xmpp_stanza_get_child_by_path(s, (n.name + "[@ns='" + own + "x']").c_str(), NULL)) bad("child_by_path with another namespace of the start");
                stat_add("paths");
            }
        }
    }
    if (xmpp_stanza_get_child_by_name(s, "no-such-child")) bad("absent child");
}
// compare what from_string reads with the model (jabber:client and no namespace are the same there)
static void check_fromstring(Case &c, xmpp_ctx_t *ctx, const string &text, const Node &n, const char *what)
{
    xmpp_stanza_t *p = xmpp_stanza_new_from_string(ctx, text.c_str());
    if (!p) { c.viol(string(what) + "/fromstring-refused", vis(text, 600)); return; }
    stat_add("fromstring");
    Elem got = read_stanza(p), want = to_elem(n, "");
    map_ns(got, "jabber:client", "");
    map_ns(want, "jabber:client", "");
    normalise(got);
    normalise(want);
    if (got.canon() != want.canon()) c.viol(string(what) + "/fromstring-different", vis(text, 500) + " built from " + node_str(n));
    // and render it again
    char *buf = nullptr;
    size_t len = 0;
    if (xmpp_stanza_to_text(p, &buf, &len) == XMPP_EOK) {
        Elem g2;
        if (!xml_parse_doc(HEAD + string(buf) + "</stream:stream>", g2) || g2.kids.size() != 1) c.viol(string(what) + "/rerender", vis(buf, 600));
        else {
            Elem w2 = to_elem(n, "jabber:client");
            map_ns(w2, "", "jabber:client");
            map_ns(g2, "", "jabber:client");
            normalise(w2);
            normalise(g2);
            // an element taken out of every namespace (xmlns='') has no representation after parsing
            if (text.find(" xmlns=\"\"") == string::npos && g2.kids[0].canon() != w2.canon()) c.viol(string(what) + "/rerender-different", vis(buf, 500));
        }
        if (len != strlen(buf)) c.viol(string(what) + "/length", "after re-reading");
        xmpp_free(ctx, buf);
    } else c.viol(string(what) + "/rerender-failed", vis(text, 300));
    xmpp_stanza_release(p);
}
static xmpp_stanza_t *pick(Rng &r, xmpp_stanza_t *s)
{
    vector<xmpp_stanza_t *> v{s};
    for (size_t i = 0; i < v.size(); i++) for (xmpp_stanza_t *k = xmpp_stanza_get_children(v[i]); k; k = xmpp_stanza_get_next(k)) v.push_back(k);
    return v[r.below(v.size())];
}
static void mutate(Rng &r, xmpp_ctx_t *ctx, xmpp_stanza_t *root)
{
    for (int i = 0; i < 4; i++) {
        xmpp_stanza_t *s = pick(r, root);
        if (xmpp_stanza_is_text(s)) { xmpp_stanza_set_text(s, "mutated"); continue; }
        switch (r.below(4)) {
        case 0: xmpp_stanza_set_name(s, "mutated"); break;
        case 1: xmpp_stanza_set_attribute(s, "mutated", "yes"); break;
        case 2: {
            const char *at[2];
            if (xmpp_stanza_get_attributes(s, at, 2) == 2) { string k = at[0]; if (r.onein(2)) xmpp_stanza_del_attribute(s, k.c_str()); else xmpp_stanza_set_attribute(s, k.c_str(), "changed"); }
            break;
        }
        default: {
            xmpp_stanza_t *k = xmpp_stanza_new(ctx);
            xmpp_stanza_set_text(k, "added");
            xmpp_stanza_add_child_ex(s, k, 0);
        }
        }
    }
}
static void check_reply(Case &c, xmpp_ctx_t *ctx, xmpp_stanza_t *s, const Node &n)
{
    bool has_from = n.attrs.count("from");
    xmpp_stanza_t *r = xmpp_stanza_reply(s);
    stat_add("replies");
    if (!r != !has_from) { c.viol("reply/presence", node_str(n)); }
    if (r) {
        Elem e = read_stanza(r);
        string to = e.attr("to");
        if (!e.has("to") || to != n.attrs.at("from")) c.viol("reply/to", "reply to " + node_str(n) + " goes to " + vis(to));
        if (e.has("from")) c.viol("reply/from", "reply carries from=" + vis(e.attr("from")));
        if (e.name != n.name) c.viol("reply/name", e.name);
        if (n.attrs.count("id") && (!e.has("id") || e.attr("id") != n.attrs.at("id"))) c.viol("reply/id", node_str(n));
        if (!e.kids.empty()) c.viol("reply/children", node_str(n));
        Node m;
        m.name = n.name;
        m.attrs = n.attrs;
        m.attrs.erase("from");
        m.attrs.erase("xmlns");
        m.attrs["to"] = n.attrs.at("from");
        check_render(c, ctx, r, m, "reply");
        xmpp_stanza_release(r);
    }
    static const char *types[] = {"auth", "cancel", "continue", "modify", "wait"};
    static const char *conds[] = {"bad-request", "conflict", "feature-not-implemented", "forbidden", "gone", "internal-server-error", "item-not-found", "jid-malformed", "not-acceptable", "not-allowed", "not-authorized", "policy-violation", "recipient-unavailable", "redirect", "registration-required", "remote-server-not-found", "remote-server-timeout", "resource-constraint", "service-unavailable", "subscription-required", "undefined-condition", "unexpected-request"};
    const char *ty = types[c.rng.below(5)], *co = conds[c.rng.below(22)];
    bool wt = c.rng.onein(2);
    string tx = gen_text(c.rng, 1 + c.rng.below(60), false);
    xmpp_stanza_t *e = xmpp_stanza_reply_error(s, ty, co, wt ? tx.c_str() : nullptr);
    if (!e != !has_from) c.viol("reply_error/presence", node_str(n));
    if (e) {
        Node m;
        m.name = n.name;
        m.attrs = n.attrs;
        m.attrs.erase("from");
        m.attrs.erase("xmlns");
        m.attrs.erase("to");
        m.attrs["to"] = n.attrs.at("from");
        if (n.attrs.count("to")) m.attrs["from"] = n.attrs.at("to");
        m.attrs["type"] = "error";
        Node er, cd, t, tt;
        er.name = "error";
        er.attrs["type"] = ty;
        cd.name = co;
        cd.attrs["xmlns"] = "urn:ietf:params:xml:ns:xmpp-stanzas";
        er.kids.push_back(cd);
        if (wt) {
            t.name = "text";
            t.attrs["xmlns"] = "urn:ietf:params:xml:ns:xmpp-stanzas";
            tt.is_text = true;
            tt.text = tx;
            t.kids.push_back(tt);
            er.kids.push_back(t);
        }
        m.kids.push_back(er);
        stat_add("reply_errors");
        check_render(c, ctx, e, m, "reply_error");
        xmpp_stanza_release(e);
    }
}
static const struct { xmpp_error_type_t t; const char *n; } SE[] = {
    {XMPP_SE_BAD_FORMAT, "bad-format"}, {XMPP_SE_BAD_NS_PREFIX, "bad-namespace-prefix"}, {XMPP_SE_CONFLICT, "conflict"},
    {XMPP_SE_CONN_TIMEOUT, "connection-timeout"}, {XMPP_SE_HOST_GONE, "host-gone"}, {XMPP_SE_HOST_UNKNOWN, "host-unknown"},
    {XMPP_SE_IMPROPER_ADDR, "improper-addressing"}, {XMPP_SE_INTERNAL_SERVER_ERROR, "internal-server-error"},
    {XMPP_SE_INVALID_FROM, "invalid-from"}, {XMPP_SE_INVALID_ID, "invalid-id"}, {XMPP_SE_INVALID_NS, "invalid-namespace"},
    {XMPP_SE_INVALID_XML, "invalid-xml"}, {XMPP_SE_NOT_AUTHORIZED, "not-authorized"}, {XMPP_SE_POLICY_VIOLATION, "policy-violation"},
    {XMPP_SE_REMOTE_CONN_FAILED, "remote-connection-failed"}, {XMPP_SE_RESOURCE_CONSTRAINT, "resource-constraint"},
    {XMPP_SE_RESTRICTED_XML, "restricted-xml"}, {XMPP_SE_SEE_OTHER_HOST, "see-other-host"}, {XMPP_SE_SYSTEM_SHUTDOWN, "system-shutdown"},
    {XMPP_SE_UNDEFINED_CONDITION, "undefined-condition"}, {XMPP_SE_UNSUPPORTED_ENCODING, "unsupported-encoding"},
    {XMPP_SE_UNSUPPORTED_STANZA_TYPE, "unsupported-stanza-type"}, {XMPP_SE_UNSUPPORTED_VERSION, "unsupported-version"},
    {XMPP_SE_XML_NOT_WELL_FORMED, "not-well-formed"}};

static void check_errors(Case &c, xmpp_ctx_t *ctx)
{
    for (auto &x : SE) for (int wt = 0; wt < 2; wt++) {
        string tx = gen_text(c.rng, 1 + c.rng.below(50), false);
        xmpp_stanza_t *e = xmpp_error_new(ctx, x.t, wt ? tx.c_str() : nullptr);
        char *buf;
        size_t len;
        if (!e || xmpp_stanza_to_text(e, &buf, &len) != XMPP_EOK) { c.viol("error_new/failed", x.n); continue; }
        Elem got;
        string w;
        if (!xml_parse_doc(HEAD + string(buf) + "</stream:stream>", got) || got.kids.size() != 1) w = "not parsable";
        else {
            Elem &g = got.kids[0];
            if (g.name != "error" || g.ns != "http://etherx.jabber.org/streams") w = "element";
            else if (g.kids.size() != (wt ? 2u : 1u) || g.kids[0].name != x.n || g.kids[0].ns != "urn:ietf:params:xml:ns:xmpp-streams") w = "condition";
            else if (wt && (g.kids[1].name != "text" || g.kids[1].ns != "urn:ietf:params:xml:ns:xmpp-streams" || g.kids[1].alltext() != tx)) w = "text";
        }
        if (!w.empty()) c.viol("error_new/" + w, string(x.n) + ": " + vis(buf, 300));
        stat_add("stream_errors_built");
        xmpp_free(ctx, buf);
        xmpp_stanza_release(e);
    }
}
// grow one text so that the rendered size becomes exactly `target`
static bool fit(Rng &r, Node &n, size_t base, size_t target, bool in_attr)
{
    if (base > target) return false;
    string pad(target - base, 'z');
    (void)r;
    if (in_attr) n.attrs["pad"] = pad;
    else { Node t; t.is_text = true; t.text = pad; n.kids.push_back(t); }
    return true;
}
static void one(Case &c, xmpp_ctx_t *ctx, const Node &n, bool deep)
{
    xmpp_stanza_t *s = build_stanza(c.rng, ctx, n);
    string text;
    check_render(c, ctx, s, n, "build", &text);
    check_accessors(c, ctx, s, n, "build");
    if (!text.empty()) check_fromstring(c, ctx, text, n, "build");
    if (deep) {
        xmpp_stanza_t *cp = xmpp_stanza_copy(s);
        if (!cp) c.viol("copy/failed", node_str(n));
        else {
            stat_add("copies");
            check_render(c, ctx, cp, n, "copy");
            check_accessors(c, ctx, cp, n, "copy");
            if (xmpp_stanza_get_next(cp)) c.viol("copy/sibling", "");
            bool mo = c.rng.onein(2);
            mutate(c.rng, ctx, mo ? s : cp);
            if (mo && c.rng.onein(2)) { xmpp_stanza_release(s); s = nullptr; }
            xmpp_stanza_t *keep = mo ? cp : s;
            check_render(c, ctx, keep, n, "copy-independent");
            check_accessors(c, ctx, keep, n, "copy-independent");
            if (!mo) { xmpp_stanza_release(cp); cp = nullptr; }
            if (keep) { if (!n.is_text) check_reply(c, ctx, keep, n); }
            if (cp) xmpp_stanza_release(cp);
        }
        // a copied child stands alone
        if (s) {
            xmpp_stanza_t *k = pick(c.rng, s);
            xmpp_stanza_t *kc = xmpp_stanza_copy(k);
            if (kc && xmpp_stanza_is_tag(kc)) {
                Elem w = read_stanza(k);
                char *buf;
                size_t len;
                Elem got;
                if (xmpp_stanza_to_text(kc, &buf, &len) == XMPP_EOK) {
                    if (!xml_parse_doc(HEAD + string(buf) + "</stream:stream>", got) || got.kids.size() != 1) c.viol("copy-child/render", vis(buf, 300));
                    xmpp_free(ctx, buf);
                }
                if (read_stanza(kc).canon() != w.canon()) c.viol("copy-child/different", "");
            }
            if (kc) xmpp_stanza_release(kc);
        }
    }
    if (s) xmpp_stanza_release(s);
    c.mixsig(text);
    if (c.sample.empty()) c.sample = vis(text, 700);
}
static void body_helpers(Case &c, xmpp_ctx_t *ctx)
{
    string tx = gen_text(c.rng, c.rng.below(60), false);
    xmpp_stanza_t *m = xmpp_message_new(ctx, "chat", "a@b", c.rng.onein(2) ? "i1" : nullptr);
    if (xmpp_message_set_body(m, tx.c_str()) != XMPP_EOK) c.viol("body/set", "");
    if (xmpp_message_set_body(m, "again") != XMPP_EINVOP) c.viol("body/twice", "");
    char *b = xmpp_message_get_body(m);
    if ((b ? string(b) : "") != tx) c.viol("body/get", vis(tx));
    if (b) xmpp_free(ctx, b);
    Node n, bo, t;
    n.name = "message";
    n.attrs["type"] = "chat";
    n.attrs["to"] = "a@b";
    if (const char *id = xmpp_stanza_get_id(m)) n.attrs["id"] = id;
    t.is_text = true;
    t.text = tx;
    bo.name = "body";
    bo.kids.push_back(t);
    n.kids.push_back(bo);
    check_render(c, ctx, m, n, "body");
    xmpp_stanza_release(m);
    // incomplete trees are refused without touching the outputs wrongly
    xmpp_stanza_t *s = xmpp_stanza_new(ctx);
    xmpp_stanza_set_name(s, "x");
    xmpp_stanza_t *blank = xmpp_stanza_new(ctx);
    xmpp_stanza_add_child_ex(s, blank, 0);
    char *buf = (char *)1;
    size_t len = 7;
    if (xmpp_stanza_to_text(s, &buf, &len) >= 0 || buf || len) c.viol("blank/accepted", "a tree with an untyped node was rendered or the outputs were left set");
    if (xmpp_stanza_set_attribute(blank, "a", "b") != XMPP_EINVOP) c.viol("blank/attr", "");
    if (xmpp_stanza_set_text(s, "x") != XMPP_EINVOP) c.viol("blank/text-on-tag", "");
    xmpp_stanza_release(s);
}
// Values with bytes that XML can't represent (control characters, invalid UTF-8). They can't be
// read back, but they must not alter the structure: with each such byte replaced by a 'Z' in the
// text that was rendered and in the values, the same tree has to be read.
static bool bad_byte(unsigned char b) { return b >= 0x80 || (b < 32 && b != '\t' && b != '\n' && b != '\r'); }
static string defused(string t) { for (auto &b : t) if (bad_byte((unsigned char)b)) b = 'Z'; return t; }
static string wild_value(Rng &r, bool attr)
{
    static const unsigned char marks[] = "<>&\"'/=]\xc0\xff\xed\xf4\x80\xbf\x01\x0b\x1f\x7f";
    string v = r.onein(3) ? gen_text(r, r.below(30), true) : "";
    for (size_t i = 0, n = r.below(20); i < n; i++) v += r.onein(2) ? (char)marks[r.below(sizeof marks - 1)] : (char)(1 + r.below(255));
    // (what XML parsers would normalise is left out)
    for (auto &b : v) if (b == '\r' || (attr && (b == '\n' || b == '\t'))) b = 'N';
    return v;
}
static bool ascii_names(const Node &n)
{
    auto ok = [](const string &t) { for (unsigned char b : t) if (b >= 0x80) return false; return true; };
    if (!n.is_text && !ok(n.name)) return false;
    for (auto &a : n.attrs) if (!ok(a.first)) return false;
    for (auto &k : n.kids) if (!ascii_names(k)) return false;
    return true;
}
static void make_wild(Rng &r, Node &n, Node &harmless, bool &illegal)
{
    auto val = [&](string &v, string &h, bool attr) {
        if (r.onein(2)) v = wild_value(r, attr);
        h = defused(v);
        for (unsigned char b : v) if (b < 0x80 && bad_byte(b)) illegal = true;
    };
    if (n.is_text) { val(n.text, harmless.text, false); return; }
    for (auto &a : n.attrs) val(a.second, harmless.attrs[a.first], true);
    for (size_t i = 0; i < n.kids.size(); i++) make_wild(r, n.kids[i], harmless.kids[i], illegal);
}
static void wild(Case &c, xmpp_ctx_t *ctx)
{
    Rng &r = c.rng;
    GenOpt o;
    o.depth = (int)r.below(4);
    Node n = gen_node(r, o);
    if (!ascii_names(n)) return;
    if (r.onein(2)) n.attrs["from"] = "x";
    Node h = n;
    bool illegal = false;
    make_wild(r, n, h, illegal);
    xmpp_stanza_t *s = build_stanza(r, ctx, n);
    auto look = [&](xmpp_stanza_t *x, const Node &want, const char *what) {
        char *buf = nullptr;
        size_t len = 0;
        int rc = xmpp_stanza_to_text(x, &buf, &len);
        if (rc != XMPP_EOK) { // refusing what can't be represented is fine
            if (!illegal) { bool high = false; for (unsigned char b : node_str(n)) high |= b >= 0x80; if (!high) c.viol(string(what) + "/render-failed", node_str(n)); }
            stat_add("unrepresentable_refused");
            return;
        }
        string text(buf, len);
        if (strlen(buf) != len) c.viol(string(what) + "/length", vis(text, 300));
        stat_add("unrepresentable_renders");
        Elem got, w = to_elem(want, "jabber:client");
        normalise(w);
        if (!xml_parse_doc(HEAD + defused(text) + "</stream:stream>", got)) c.viol(string(what) + "/structure", "not well formed: " + vis(text, 600));
        else {
            normalise(got);
            if (got.kids.size() != 1 || got.kids[0].canon() != w.canon()) c.viol(string(what) + "/structure", "text " + vis(text, 500) + " built from " + node_str(n));
        }
        // reading it must be safe, whatever comes out
        xmpp_stanza_t *p = xmpp_stanza_new_from_string(ctx, buf);
        if (p) xmpp_stanza_release(p);
        xmpp_free(ctx, buf);
    };
    look(s, h, "wild");
    xmpp_stanza_t *cp = xmpp_stanza_copy(s);
    if (cp) { look(cp, h, "wild-copy"); xmpp_stanza_release(cp); }
    if (n.attrs.count("from")) {
        xmpp_stanza_t *e = xmpp_stanza_reply_error(s, "cancel", "conflict", wild_value(r, false).c_str());
        char *buf = nullptr;
        size_t len = 0;
        if (e && xmpp_stanza_to_text(e, &buf, &len) == XMPP_EOK) {
            Elem got;
            if (!xml_parse_doc(HEAD + defused(string(buf, len)) + "</stream:stream>", got) || got.kids.size() != 1 || got.kids[0].kids.size() != 1 || got.kids[0].kids[0].name != "error" ||
                got.kids[0].kids[0].kids.size() > 2 || got.kids[0].attr("to") != h.attrs.at("from")) c.viol("wild-reply/structure", vis(string(buf, len), 500));
            xmpp_free(ctx, buf);
        }
        if (e) xmpp_stanza_release(e);
    }
    xmpp_stanza_release(s);
}
PROP(C09)
{
    sim::active = false;
    MemMon mm;
    mm.fill = (u8)(c.k & 1 ? 0xA5 : 0x3C);
    xmpp_ctx_t *ctx = xmpp_ctx_new(&mm.mem, &nolog);
    c.nontrivial = true;
    if (c.k < 400) {
        // sizes around the first buffer, several shapes
        for (int shape = 0; shape < 8; shape++) {
            size_t target = 900 + c.k / 2 + (c.k & 1 ? 1024 : 0);
            GenOpt o;
            o.depth = shape % 4;
            o.textlen = 20;
            Node n = gen_node(c.rng, o);
            n.attrs.erase("pad");
            if (n.attrs.count("xmlns") == 0) n.attrs["xmlns"] = "jabber:client";
            Node *at = &n;
            if (shape >= 4) for (int d = 0; d < 3; d++) { Node k; k.name = "q"; at->kids.push_back(k); at = &at->kids.back(); }
            bool in_attr = shape & 1;
            // measure with an empty pad, then fit
            Node probe = n;
            if (in_attr) { Node *p = &probe; if (shape >= 4) for (int d = 0; d < 3; d++) p = &p->kids.back(); p->attrs["pad"] = ""; }
            xmpp_stanza_t *s = build_stanza(c.rng, ctx, probe);
            char *buf;
            size_t len = 0;
            if (xmpp_stanza_to_text(s, &buf, &len) == XMPP_EOK) {
                len = strlen(buf);
                xmpp_free(ctx, buf);
            }
            xmpp_stanza_release(s);
            size_t base = len + (in_attr ? 0 : at->kids.empty() ? strlen("<></>") + at->name.size() - 3 + (at->name.size() ? 0 : 0) : 0);
            // for a childless element "<n/>" becomes "<n>..</n>"
            if (!in_attr && at->kids.empty()) base = len + 2 + at->name.size();
            if (!fit(c.rng, *at, base, target, in_attr)) continue;
            one(c, ctx, n, false);
        }
    } else if (c.k < 430) {
        check_errors(c, ctx);
        body_helpers(c, ctx);
        // deep and wide trees
        Node n;
        n.name = "a";
        Node *p = &n;
        int d = (int)(c.k - 400) * 12;
        for (int i = 0; i < d; i++) { Node k; k.name = gen_name(c.rng); if (c.rng.onein(3)) k.attrs["xmlns"] = gen_ns(c.rng); p->kids.push_back(k); p = &p->kids.back(); }
        Node t;
        t.is_text = true;
        t.text = gen_text(c.rng, c.rng.below(50000), false);
        p->kids.push_back(t);
        one(c, ctx, n, true);
    } else {
        for (int i = 0; i < 3; i++) {
            GenOpt o;
            o.depth = (int)c.rng.below(6);
            o.fan = 1 + (int)c.rng.below(5);
            o.textlen = c.rng.onein(4) ? 200 : 25;
            o.attrs = (int)c.rng.below(6);
            Node n = gen_node(c.rng, o);
            if (c.rng.onein(2)) { n.attrs["from"] = gen_text(c.rng, 1 + c.rng.below(20), true); if (c.rng.onein(2)) n.attrs["to"] = gen_text(c.rng, 1 + c.rng.below(20), true); }
            one(c, ctx, n, true);
        }
        if (c.rng.onein(10)) body_helpers(c, ctx);
        if (c.rng.onein(3)) wild(c, ctx);
    }
    xmpp_ctx_free(ctx);
    if (!mm.live.empty()) c.viol("leak", strf("%zu blocks leaked: %s", mm.live.size(), mm.leaks(1)[0].c_str()));
    for (auto &e : mm.errors) c.viol("free", e);
}
