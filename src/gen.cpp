#include "gen.h"

static void put_utf8(string &s, u32 c)
{
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
}
string gen_name(Rng &r)
{
    static const char *common[] = {"message", "iq", "presence", "body", "query", "item", "x", "a", "b", "error", "text", "delay"};
    if (r.onein(3)) return common[r.below(sizeof common / sizeof *common)];
    string s;
    static const char st[] = "abcdefghijklmnopqrstuvwxyzABCXYZ_";
    static const char rest[] = "abcdefghijklmnopqrstuvwxyz0123456789-._";
    if (r.onein(8)) put_utf8(s, 0xC0 + (u32)r.below(20)); else s += st[r.below(sizeof st - 1)];
    size_t n = r.onein(12) ? r.below(200) : r.below(9);
    for (size_t i = 0; i < n; i++) {
        if (r.onein(15)) put_utf8(s, r.onein(2) ? 0xC0 + (u32)r.below(20) : 0x4E00 + (u32)r.below(500));
        else s += rest[r.below(sizeof rest - 1)];
    }
    return s;
}
string gen_text(Rng &r, size_t n, bool attr, bool nasty)
{
    static const char *frag[] = {"&amp;", "&lt;", "]]>", "<![CDATA[", "</message>", "<x/>", "'\" y='", "<!--", "-->", "&#x41;", "<?pi?>", "&", "<", ">", "\"", "'", "&quot;", "%s%n", "</", "/>", "=\"", "&apos"};
    string s;
    while (s.size() < n) {
        u64 k = r.below(20);
        if (nasty && k < 5) s += frag[r.below(sizeof frag / sizeof *frag)];
        else if (k < 7) {
            switch (r.below(5)) {
            case 0: put_utf8(s, 0x80 + (u32)r.below(0x700)); break;
            case 1: put_utf8(s, 0x800 + (u32)r.below(0xC000)); break;
            case 2: put_utf8(s, 0xE000 + (u32)r.below(0x1FFE)); break; // up to U+FFFD
            case 3: put_utf8(s, 0x10000 + (u32)r.below(0x100000)); break;
            default: s += (char)0x7f; break;
            }
        } else if (k < 9 && !attr) s += r.onein(2) ? '\n' : '\t';
        else if (k < 10) s += ' ';
        else s += (char)(32 + r.below(95));
    }
    return s;
}
string gen_ns(Rng &r)
{
    static const char *common[] = {"jabber:client", "jabber:client", "urn:a", "urn:b", "jabber:iq:roster", "urn:ietf:params:xml:ns:xmpp-stanzas", "http://etherx.jabber.org/streams", "urn:xmpp:sm:3"};
    if (!r.onein(6)) return common[r.below(sizeof common / sizeof *common)];
    if (r.onein(5)) return "";
    return "urn:" + gen_text(r, 1 + r.below(30), true);
}
Node gen_node(Rng &r, const GenOpt &o, int depth)
{
    Node n;
    n.name = gen_name(r);
    size_t na = r.onein(10) ? r.below(30) : r.below(o.attrs + 1);
    for (size_t i = 0; i < na; i++) {
        static const char *std[] = {"id", "type", "to", "from", "xmlns", "lang", "code"};
        string k = r.onein(2) ? std[r.below(7)] : gen_name(r);
        if (k.size() > 3 && k.compare(0, 3, "xml") == 0 && k != "xmlns") continue;
        n.attrs[k] = k == "xmlns" ? gen_ns(r) : gen_text(r, r.onein(30) ? r.below(2000) : r.below(o.textlen + 1), true);
    }
    if (r.onein(3)) n.attrs["xmlns"] = gen_ns(r);
    if (r.onein(60)) for (int i = 2 + (int)r.below(6); i; i--) n.attrs[string(65 + r.below(2), 'p') + (char)('a' + r.below(20))] = gen_text(r, r.below(9), true);
    if (depth == 0) o.budget = 60;
    if (depth < o.depth) {
        size_t nk = r.onein(20) ? r.below(20) : r.below(o.fan + 1);
        for (size_t i = 0; i < nk; i++) {
            if (r.onein(3)) {
                Node t;
                t.is_text = true;
                t.text = gen_text(r, o.huge && r.onein(150) ? 60000 + r.below(90000) : r.onein(20) ? r.below(3000) : r.below(o.textlen + 1), false);
                n.kids.push_back(t);
            } else if (o.budget-- > 0) n.kids.push_back(gen_node(r, o, depth + 1));
        }
    }
    return n;
}
Elem to_elem(const Node &n, const string &ns)
{
    Elem e;
    e.is_text = n.is_text;
    e.text = n.text;
    e.name = n.name;
    e.ns = ns;
    for (auto &a : n.attrs) if (a.first == "xmlns") e.ns = a.second; else e.attrs[a.first] = a.second;
    for (auto &k : n.kids) e.kids.push_back(to_elem(k, e.ns));
    return e;
}
void normalise(Elem &e)
{
    vector<Elem> out;
    for (auto &k : e.kids) {
        if (k.is_text && k.text.empty()) continue;
        if (k.is_text && !out.empty() && out.back().is_text) { out.back().text += k.text; continue; }
        if (!k.is_text) normalise(k);
        out.push_back(std::move(k));
    }
    e.kids = std::move(out);
}
void map_ns(Elem &e, const string &from, const string &to)
{
    if (e.ns == from) e.ns = to;
    for (auto &k : e.kids) if (!k.is_text) map_ns(k, from, to);
}
void strip_attr_ns(Elem &e)
{
    std::map<string, string> m;
    for (auto &a : e.attrs) { size_t p = a.first.rfind('|'); m[p == string::npos ? a.first : a.first.substr(p + 1)] = a.second; }
    e.attrs = m;
    for (auto &k : e.kids) if (!k.is_text) strip_attr_ns(k);
}
xmpp_stanza_t *build_stanza(Rng &r, xmpp_ctx_t *ctx, const Node &n)
{
    xmpp_stanza_t *s;
    if (n.is_text) {
        s = xmpp_stanza_new(ctx);
        if (r.onein(4)) xmpp_stanza_set_text(s, "replaced text <");
        if (r.onein(2) && n.text.find('\0') == string::npos) xmpp_stanza_set_text(s, n.text.c_str());
        else {
            string b = n.text + "<junk&";
            xmpp_stanza_set_text_with_size(s, b.data(), n.text.size());
        }
        return s;
    }
    auto at = n.attrs; // still to set
    if (n.name == "message" && r.onein(2)) {
        auto opt = [&](const char *k) -> const char * { auto it = n.attrs.find(k); return it == n.attrs.end() ? nullptr : it->second.c_str(); };
        s = xmpp_message_new(ctx, opt("type"), opt("to"), opt("id"));
        at.erase("type"); at.erase("to"); at.erase("id");
    } else if (n.name == "iq" && r.onein(2)) {
        auto opt = [&](const char *k) -> const char * { auto it = n.attrs.find(k); return it == n.attrs.end() ? nullptr : it->second.c_str(); };
        s = xmpp_iq_new(ctx, opt("type"), opt("id"));
        at.erase("type"); at.erase("id");
    } else if (n.name == "presence" && r.onein(2)) s = xmpp_presence_new(ctx);
    else {
        s = xmpp_stanza_new(ctx);
        if (r.onein(5)) { xmpp_stanza_set_name(s, "other"); }
        xmpp_stanza_set_name(s, n.name.c_str());
    }
    vector<std::pair<string, string>> todo(at.begin(), at.end());
    vector<string> junk;
    for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[r.below(i)]);
    size_t ai = 0, ki = 0;
    while (ai < todo.size() || ki < n.kids.size()) {
        if (r.onein(12)) { string j = "junk" + std::to_string(r.below(20)); if (!n.attrs.count(j)) { xmpp_stanza_set_attribute(s, j.c_str(), "v<"); junk.push_back(j); } }
        bool a = ai < todo.size() && (ki >= n.kids.size() || r.onein(2));
        if (a) {
            auto &p = todo[ai++];
            if (r.onein(6)) xmpp_stanza_set_attribute(s, p.first.c_str(), "old'\"value");
            if (r.onein(10)) { xmpp_stanza_set_attribute(s, p.first.c_str(), "gone"); xmpp_stanza_del_attribute(s, p.first.c_str()); }
            const char *v = p.second.c_str();
            if (r.onein(2)) xmpp_stanza_set_attribute(s, p.first.c_str(), v);
            else if (p.first == "xmlns") xmpp_stanza_set_ns(s, v);
            else if (p.first == "id") xmpp_stanza_set_id(s, v);
            else if (p.first == "type") xmpp_stanza_set_type(s, v);
            else if (p.first == "to") xmpp_stanza_set_to(s, v);
            else if (p.first == "from") xmpp_stanza_set_from(s, v);
            else xmpp_stanza_set_attribute(s, p.first.c_str(), v);
        } else {
            const Node &k = n.kids[ki++];
            xmpp_stanza_t *c = build_stanza(r, ctx, k);
            if (r.onein(8)) { xmpp_stanza_t *c2 = xmpp_stanza_copy(c); xmpp_stanza_release(c); c = c2; }
            if (r.onein(2)) { xmpp_stanza_add_child(s, c); xmpp_stanza_release(c); }
            else if (r.onein(2)) xmpp_stanza_add_child_ex(s, c, 0);
            else { xmpp_stanza_add_child_ex(s, c, 1); xmpp_stanza_release(c); }
        }
    }
    for (auto &j : junk) xmpp_stanza_del_attribute(s, j.c_str());
    return s;
}
Elem read_stanza(xmpp_stanza_t *s)
{
    Elem e;
    if (xmpp_stanza_is_text(s)) {
        e.is_text = true;
        const char *t = xmpp_stanza_get_text_ptr(s);
        e.text = t ? t : "";
        return e;
    }
    const char *nm = xmpp_stanza_get_name(s);
    e.name = nm ? nm : "(null)";
    const char *ns = xmpp_stanza_get_ns(s);
    e.ns = ns ? ns : "";
    int n = xmpp_stanza_get_attribute_count(s);
    vector<const char *> at(2 * n + 2);
    int got = xmpp_stanza_get_attributes(s, at.data(), 2 * n + 2);
    for (int i = 0; i + 1 < got; i += 2) if (strcmp(at[i], "xmlns")) e.attrs[at[i]] = at[i + 1];
    for (xmpp_stanza_t *k = xmpp_stanza_get_children(s); k; k = xmpp_stanza_get_next(k)) e.kids.push_back(read_stanza(k));
    return e;
}
string node_str(const Node &n)
{
    if (n.is_text) return "\"" + vis(n.text, 60) + "\"";
    string r = "<" + n.name;
    for (auto &a : n.attrs) r += " " + a.first + "=" + vis(a.second, 40);
    r += ">(";
    for (auto &k : n.kids) { r += node_str(k) + ","; if (r.size() > 1500) break; }
    return r + ")";
}
static size_t u8len(const string &s, size_t i)
{
    u8 c = (u8)s[i];
    return c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
}
static u32 u8code(const string &s, size_t i, size_t n)
{
    u8 c = (u8)s[i];
    u32 v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
    for (size_t k = 1; k < n; k++) v = v << 6 | ((u8)s[i + k] & 63);
    return v;
}
static string charref(Rng &r, u32 c)
{
    return r.onein(2) ? strf("&#%u;", c) : r.onein(2) ? strf("&#x%x;", c) : strf("&#x%05X;", c);
}
static const char *ent(char c) { switch (c) { case '<': return "&lt;"; case '>': return "&gt;"; case '&': return "&amp;"; case '"': return "&quot;"; case '\'': return "&apos;"; } return nullptr; }
string write_attr(Rng &r, const string &v)
{
    char q = r.onein(2) ? '\'' : '"';
    string o(1, q);
    for (size_t i = 0; i < v.size();) {
        size_t n = u8len(v, i);
        char c = v[i];
        u32 code = u8code(v, i, n);
        bool must = c == '<' || c == '&' || c == q || code < 32;
        if (must || r.onein(25)) {
            if (ent(c) && r.onein(2)) o += ent(c);
            else o += charref(r, code);
        } else if (c == ' ' && r.onein(6)) o += r.onein(2) ? "\n" : r.onein(2) ? "\t" : "\r\n";
        else o += v.substr(i, n);
        i += n;
    }
    return o + q;
}
static string misc(Rng &r)
{
    if (r.onein(2)) {
        string t = "<!--";
        for (u64 k = r.below(12); k; k--) t += (char)"ab<>&' \n"[r.below(8)];
        return t + "-->";
    }
    return r.onein(2) ? "<?target some data?>" : "<?x?>";
}
string write_text(Rng &r, const string &t)
{
    string o;
    for (size_t i = 0; i < t.size();) {
        if (r.onein(60)) o += misc(r);
        if (r.onein(25)) {
            // a CDATA section over the next few characters
            size_t want = 1 + r.below(20), j = i;
            string body;
            while (j < t.size() && want--) {
                size_t n = u8len(t, j);
                string ch = t.substr(j, n);
                if ((ch == ">" && body.size() >= 2 && body.compare(body.size() - 2, 2, "]]") == 0) || ch == "\r") break;
                body += ch;
                j += n;
            }
            if (j > i) { o += "<![CDATA[" + body + "]]>"; i = j; continue; }
        }
        size_t n = u8len(t, i);
        char c = t[i];
        u32 code = u8code(t, i, n);
        bool after_sq = o.size() >= 1 && o[o.size() - 1] == ']';
        bool must = c == '<' || c == '&' || c == '\r' || (c == '>' && after_sq);
        if (must || r.onein(20)) o += ent(c) && r.onein(2) ? string(ent(c)) : charref(r, code);
        else if (c == '\n' && r.onein(3)) o += r.onein(2) ? "\r\n" : "\r";
        else o += t.substr(i, n);
        i += n;
        // a literal CR directly followed by a literal LF would be one line end
        if (!o.empty() && o.back() == '\r' && i < t.size() && t[i] == '\n') { o += charref(r, 10); i++; }
    }
    if (r.onein(10)) o += "<![CDATA[]]>";
    return o;
}
static string ws(Rng &r, bool need)
{
    string s = need ? " " : "";
    while (r.onein(8)) s += " \n\t"[r.below(3)];
    return s;
}
void write_xml(Rng &r, const Elem &e, std::map<string, string> scope, string &out)
{
    if (e.is_text) { out += write_text(r, e.text); return; }
    vector<string> at;
    string prefix;
    bool decided = false;
    string def = scope.count("") ? scope[""] : "";
    if (def == e.ns && !r.onein(8)) decided = true;
    if (!decided && !e.ns.empty() && r.onein(2))
        for (auto &p : scope) if (!p.first.empty() && p.second == e.ns && p.first != "xml") { prefix = p.first; decided = true; break; }
    if (!decided) {
        if (!e.ns.empty() && r.onein(2)) {
            prefix = "p" + std::to_string(r.below(4));
            scope[prefix] = e.ns;
            at.push_back("xmlns:" + prefix + ws(r, false) + "=" + write_attr(r, e.ns));
        } else {
            scope[""] = e.ns;
            at.push_back("xmlns=" + ws(r, false) + write_attr(r, e.ns));
        }
    } 
    if (r.onein(15)) { string p = "u" + std::to_string(r.below(3)); if (!scope.count(p)) { scope[p] = "urn:unused"; at.push_back("xmlns:" + p + "='urn:unused'"); } }
    for (auto &a : e.attrs) {
        size_t bar = a.first.rfind('|');
        string key = a.first;
        if (bar != string::npos) {
            string uri = a.first.substr(0, bar), ln = a.first.substr(bar + 1);
            if (uri == "http://www.w3.org/XML/1998/namespace") key = "xml:" + ln;
            else {
                string p = "q" + std::to_string(r.below(3));
                while (scope.count(p) && scope[p] != uri) p += "q";
                if (!scope.count(p)) { scope[p] = uri; at.push_back("xmlns:" + p + "=" + write_attr(r, uri)); }
                key = p + ":" + ln;
            }
        }
        at.push_back(key + ws(r, false) + "=" + ws(r, false) + write_attr(r, a.second));
    }
    for (size_t i = at.size(); i > 1; i--) std::swap(at[i - 1], at[r.below(i)]);
    string qn = (prefix.empty() ? "" : prefix + ":") + e.name;
    out += "<" + qn;
    for (auto &a : at) out += ws(r, true) + a;
    out += ws(r, false);
    if (e.kids.empty() && r.onein(2)) { out += "/>"; return; }
    out += ">";
    if (e.kids.empty() && r.onein(3)) out += r.onein(2) ? "<![CDATA[]]>" : misc(r);
    for (auto &k : e.kids) write_xml(r, k, scope, out);
    if (!e.kids.empty() && r.onein(12)) out += misc(r);
    out += "</" + qn + ws(r, false) + ">";
}
