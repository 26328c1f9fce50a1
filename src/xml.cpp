#include "xml.h"
#include <libxml/parser.h>
#include <libxml/parserInternals.h>
#include <libxml/xmlerror.h>

const Elem *Elem::child(const string &n, const string &ns_) const
{
    for (auto &k : kids)
        if (!k.is_text && k.name == n && (ns_.empty() || k.ns == ns_)) return &k;
    return nullptr;
}
string Elem::alltext() const
{
    string r;
    for (auto &k : kids) if (k.is_text) r += k.text;
    return r;
}
u64 Elem::count() const
{
    u64 n = 1;
    for (auto &k : kids) n += k.count();
    return n;
}
string xml_escape(const string &s, bool attr)
{
    string r;
    for (char c : s) switch (c) {
        case '<': r += "&lt;"; break;
        case '>': r += "&gt;"; break;
        case '&': r += "&amp;"; break;
        case '"': r += attr ? "&quot;" : "\""; break;
        case '\'': r += attr ? "&apos;" : "'"; break;
        case '\r': r += "&#xD;"; break;
        case '\n': r += attr ? "&#xA;" : "\n"; break;
        case '\t': r += attr ? "&#x9;" : "\t"; break;
        default: r += c;
    }
    return r;
}
string Elem::canon() const
{
    if (is_text) return "T(" + strf("%zu:", text.size()) + text + ")";
    string r = "E(" + name + "{" + ns + "}";
    for (auto &a : attrs) r += " " + a.first + "=" + strf("%zu:", a.second.size()) + a.second;
    r += "[";
    for (auto &k : kids) r += k.canon();
    return r + "])";
}

struct StreamParser::Impl {
    xmlParserCtxtPtr ctx = nullptr;
    xmlSAXHandler sax;
    vector<Elem> stack; // stack[0] is the stream
    int depth = 0;
    vector<StreamEvent> ev;
    bool doc_mode = false;
    string *raw = nullptr;
    string fed;         // bytes fed since restart
    size_t elem_start = 0;
    bool err = false;

    static void start(void *c, const xmlChar *ln, const xmlChar *, const xmlChar *uri, int, const xmlChar **, int nattr, int, const xmlChar **at)
    {
        Impl *p = (Impl *)c;
        Elem e;
        e.name = (const char *)ln;
        e.ns = uri ? (const char *)uri : "";
        for (int i = 0; i < nattr; i++) {
            const xmlChar **a = at + i * 5;
            string k = (const char *)a[0];
            if (a[2]) k = string((const char *)a[2]) + "|" + k;
            e.attrs[k] = string((const char *)a[3], a[4] - a[3]);
        }
        p->stack.push_back(e);
        p->depth++;
        if (p->depth == 1 && !p->doc_mode) {
            p->ev.push_back({StreamEvent::OPEN, e});
            p->elem_start = p->here_after_tag();
        }
    }
    size_t here_after_tag()
    {
        // position just behind the current tag
        long b = xmlByteConsumed(ctx);
        if (b < 0) b = 0;
        size_t i = (size_t)b;
        // xmlByteConsumed points at (or before) the closing '>' of the start tag
        while (i < fed.size() && fed[i] != '>') i++;
        if (i < fed.size()) i++;
        return i;
    }
    static void end(void *c, const xmlChar *, const xmlChar *, const xmlChar *)
    {
        Impl *p = (Impl *)c;
        p->depth--;
        Elem e = std::move(p->stack.back());
        p->stack.pop_back();
        if (p->doc_mode) {
            if (p->depth == 0) p->ev.push_back({StreamEvent::ELEM, std::move(e)});
            else p->stack.back().kids.push_back(std::move(e));
            return;
        }
        if (p->depth == 0) p->ev.push_back({StreamEvent::CLOSE, Elem()});
        else if (p->depth == 1) p->ev.push_back({StreamEvent::ELEM, std::move(e)});
        else p->stack.back().kids.push_back(std::move(e));
    }
    static void chars(void *c, const xmlChar *s, int len)
    {
        Impl *p = (Impl *)c;
        if (p->stack.empty()) return;
        if (p->depth == 1 && !p->doc_mode) return; // whitespace between stanzas
        auto &k = p->stack.back().kids;
        if (!k.empty() && k.back().is_text) k.back().text.append((const char *)s, len);
        else {
            Elem t;
            t.is_text = true;
            t.text.assign((const char *)s, len);
            k.push_back(t);
        }
    }
    static void serr(void *c, const xmlError *e)
    {
        Impl *p = (Impl *)c;
        if (e->level >= XML_ERR_ERROR && e->code != XML_WAR_NS_URI && e->code != XML_WAR_NS_URI_RELATIVE) p->err = true;
    }
    Impl()
    {
        memset(&sax, 0, sizeof sax);
        sax.initialized = XML_SAX2_MAGIC;
        sax.startElementNs = start;
        sax.endElementNs = end;
        sax.characters = chars;
        sax.cdataBlock = chars;
        sax.ignorableWhitespace = chars;
        sax.serror = (xmlStructuredErrorFunc)serr;
        mk();
    }
    void mk()
    {
        ctx = xmlCreatePushParserCtxt(&sax, this, nullptr, 0, nullptr);
        ctx->userData = this;
        xmlCtxtUseOptions(ctx, XML_PARSE_NONET | XML_PARSE_HUGE | XML_PARSE_NOENT);
        ctx->_private = this;
    }
    void rm()
    {
        if (ctx) {
            if (ctx->myDoc) { xmlFreeDoc(ctx->myDoc); ctx->myDoc = nullptr; }
            xmlFreeParserCtxt(ctx);
        }
        ctx = nullptr;
    }
    ~Impl() { rm(); }
};

StreamParser::StreamParser() : p_(new Impl) {}
StreamParser::~StreamParser() {}
void StreamParser::restart()
{
    p_.reset(new Impl);
    buf_.clear();
    consumed_ = 0;
    failed_ = false;
}
vector<StreamEvent> StreamParser::feed(const string &bytes)
{
    vector<StreamEvent> out;
    if (failed_) return out;
    // feed one byte at a time around '>' so that raw extents are exact
    size_t i = 0;
    while (i < bytes.size()) {
        size_t j = bytes.find('>', i);
        j = j == string::npos ? bytes.size() : j + 1;
        string part = bytes.substr(i, j - i);
        i = j;
        p_->fed += part;
        buf_ += part;
        p_->ev.clear();
        int rc = xmlParseChunk(p_->ctx, part.data(), (int)part.size(), 0);
        for (auto &e : p_->ev) {
            if (e.k == StreamEvent::OPEN) consumed_ = buf_.size();
            else if (e.k == StreamEvent::ELEM) {
                e.e.raw = buf_.substr(consumed_);
                consumed_ = buf_.size();
            }
            out.push_back(e);
        }
        if (rc != 0 && !p_->ctx->wellFormed) {
            failed_ = true;
            StreamEvent e;
            e.k = StreamEvent::ERR;
            out.push_back(e);
            break;
        }
        if (buf_.size() > (1u << 20) && consumed_) { buf_.erase(0, consumed_); consumed_ = 0; }
    }
    return out;
}

bool xml_parse_doc(const string &doc, Elem &out)
{
    StreamParser::Impl p;
    p.doc_mode = true;
    int rc = xmlParseChunk(p.ctx, doc.data(), (int)doc.size(), 1);
    if (rc != 0 || p.err || !p.ctx->wellFormed || p.ev.size() != 1) return false;
    out = std::move(p.ev[0].e);
    return true;
}
