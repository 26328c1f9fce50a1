#include "world.h"
#include <cerrno>
#include <openssl/err.h>

// ---------------------------------------------------------------- layers
static void *z_alloc(void *, unsigned n, unsigned m) { return calloc(n, m); }
static void z_free(void *, void *p) { free(p); }

XPeer::XPeer(World &w, int no) : w(w), no(no) {}
XPeer::~XPeer()
{
    if (ssl) SSL_free(ssl);
    if (comp) { inflateEnd(&zi); deflateEnd(&zo); }
}
struct Shield { // the library's error state is not disturbed by the server
    int e;
    Shield() : e(errno) { ERR_set_mark(); }
    ~Shield() { ERR_pop_to_mark(); errno = e; }
};
void XPeer::on_accept()
{
    w.ev(Ev::TCP_OPEN, no).s = strf("%s:%d", s->ip.c_str(), s->port);
}
void XPeer::on_bytes(const string &b)
{
    raw_rx += b;
    inbox += b;
    it_rx = w.iters;
}
void XPeer::on_client_close()
{
    drain();
    gone = true;
    outq.clear();
    w.ev(Ev::TCP_CLOSE, no);
}
void XPeer::on_step()
{
    drain();
    flush_out();
}
u64 XPeer::next_event()
{
    if (outq.empty() || gone) return ~0ull;
    if (w.lockstep_gap && outq.front().t <= sim::now_ms) return ~0ull; // waits for the client, not for time
    return outq.front().t;
}
void XPeer::drain()
{
    if (draining || gone) return;
    draining = true;
    Shield sh;
    while (!inbox.empty()) {
        string b;
        b.swap(inbox);
        if (!tls) { layer2(b); continue; }
        if (w.srv.conf.tls_mode != SrvConf::TLS_NORMAL && !tls_up) { tls_sabotage(b); continue; }
        if (!ssl) continue;
        BIO_write(rb, b.data(), (int)b.size());
        tls_pump();
    }
    draining = false;
}
void XPeer::tls_sabotage(const string &b)
{
    if (tls_failed) return;
    switch (w.srv.conf.tls_mode) {
    case SrvConf::TLS_SILENT: return;
    case SrvConf::TLS_GARBAGE: tls_failed = true; wire("HTTP/1.1 400 Bad Request\r\n\r\n<html>garbage</html>"); break;
    case SrvConf::TLS_CLOSE: tls_failed = true; s->fin(); break;
    case SrvConf::TLS_RST: tls_failed = true; s->rst(); break;
    case SrvConf::TLS_ALERT: tls_failed = true; wire(string("\x15\x03\x03\x00\x02\x02\x28", 7)); break;
    case SrvConf::TLS_CLOSE_MID:
        BIO_write(rb, b.data(), (int)b.size());
        SSL_accept(ssl);
        {
            char buf[20000];
            int n = BIO_read(wb, buf, sizeof buf);
            if (n > 40) wire(string(buf, n / 2));
        }
        s->fin();
        tls_failed = true;
        break;
    case SrvConf::TLS_NOTIFY_LATE:      // the server's first flight, or most of it, before
        BIO_write(rb, b.data(), (int)b.size());
        SSL_accept(ssl);
        {
            char buf[20000];
            int n = BIO_read(wb, buf, sizeof buf), k = 0;
            // whole records only
            for (int i = 0; i + 5 <= n;) { int l = 5 + ((u8)buf[i + 3] << 8 | (u8)buf[i + 4]); if (i + l > n) break; i += l; k = i; if (i < n && b.size() % 2) break; }
            if (k > 0) wire(string(buf, (size_t)k));
        }
        // fall through
    case SrvConf::TLS_NOTIFY:
        tls_failed = true;
        wire(string("\x15\x03\x03\x00\x02\x01\x00", 7)); // a polite end
        if (no % 2) s->fin();
        break;
    default: break;
    }
    w.ev(Ev::TLS_FAIL, no).s = "sabotaged";
}
void XPeer::start_tls()
{
    Shield sh;
    tls = true;
    tls_up = false;
    ssl = SSL_new(w.srv.conf.tls_ctx ? w.srv.conf.tls_ctx : server_ctx(w.srv.conf.domain, w.srv.conf.cert, w.srv.conf.tls_max, w.srv.conf.ask_client_cert));
    rb = BIO_new(BIO_s_mem());
    wb = BIO_new(BIO_s_mem());
    SSL_set_bio(ssl, rb, wb);
    SSL_set_accept_state(ssl);
    hold.clear();
    sp.restart();
}
void XPeer::tls_flush()
{
    char buf[20000];
    int n;
    while ((n = BIO_read(wb, buf, sizeof buf)) > 0) wire(string(buf, n));
}
void XPeer::tls_pump()
{
    if (!tls_up && !tls_failed) {
        int r = SSL_accept(ssl);
        tls_flush();
        if (r == 1) {
            tls_up = true;
            w.ev(Ev::TLS_UP, no);
            if (on_tls_up) on_tls_up();
        } else {
            int e = SSL_get_error(ssl, r);
            if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
                tls_failed = true;
                w.ev(Ev::TLS_FAIL, no).s = strf("handshake: %s", ERR_reason_error_string(ERR_peek_last_error()) ? ERR_reason_error_string(ERR_peek_last_error()) : "?");
                if (s) s->fin();
                return;
            }
        }
    }
    if (!tls_up) return;
    for (;;) {
        char buf[20000];
        int n = SSL_read(ssl, buf, sizeof buf);
        if (n <= 0) {
            int e = SSL_get_error(ssl, n);
            if (e == SSL_ERROR_ZERO_RETURN) tls_closed = true;
            else if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE && !tls_failed) {
                tls_failed = true;
                w.ev(Ev::TLS_FAIL, no).s = strf("record: %s", ERR_reason_error_string(ERR_peek_last_error()) ? ERR_reason_error_string(ERR_peek_last_error()) : "?");
            }
            break;
        }
        layer2(string(buf, n));
    }
    tls_flush();
}
void XPeer::start_comp()
{
    memset(&zi, 0, sizeof zi);
    memset(&zo, 0, sizeof zo);
    zi.zalloc = zo.zalloc = z_alloc;
    zi.zfree = zo.zfree = z_free;
    inflateInit(&zi);
    deflateInit(&zo, w.srv.conf.zlevel);
    comp = true;
    w.ev(Ev::COMP_UP, no);
}
void XPeer::layer2(const string &b)
{
    if (!comp) { plain(b); return; }
    if (zfail) return;
    zi.next_in = (Bytef *)b.data();
    zi.avail_in = (uInt)b.size();
    for (;;) {
        char buf[8192];
        zi.next_out = (Bytef *)buf;
        zi.avail_out = sizeof buf;
        int r = inflate(&zi, Z_SYNC_FLUSH);
        size_t n = sizeof buf - zi.avail_out;
        if (n) plain(string(buf, n));
        if (r == Z_STREAM_END) { zfail = true; w.ev(Ev::RX_BAD, no).s = "zlib stream ended"; return; }
        if (r != Z_OK && r != Z_BUF_ERROR) { zfail = true; w.ev(Ev::RX_BAD, no).s = strf("zlib error %d", r); return; }
        if (!n && (!zi.avail_in || r == Z_BUF_ERROR)) return;
    }
}
void XPeer::raw(const string &b)
{
    if (gone || !s) return;
    plain_tx += b;
    string x;
    if (comp) {
        zo.next_in = (Bytef *)b.data();
        zo.avail_in = (uInt)b.size();
        do {
            char buf[8192];
            zo.next_out = (Bytef *)buf;
            zo.avail_out = sizeof buf;
            deflate(&zo, w.srv.conf.zflush);
            x.append(buf, sizeof buf - zo.avail_out);
        } while (zo.avail_out == 0);
    } else x = b;
    raw2(x);
}
void XPeer::raw2(const string &x0)
{
    if (gone || !s) return;
    string x = x0;
    if (w.comp_hook) w.comp_hook(*this, x);
    if (tls) {
        Shield sh;
        if (!tls_up || tls_failed) return;
        if (!x.empty()) SSL_write(ssl, x.data(), (int)x.size());
        tls_flush();
    } else wire(x);
}
void XPeer::wire(const string &b0)
{
    if (gone || !s) return;
    if (!w.wire_hook) { s->send(b0); return; }
    string b = b0;
    w.wire_hook(*this, b);
    s->send(b);
}
void XPeer::fin() { if (s) { if (tls_up && ssl && w.srv.conf.tls_notify) { Shield sh; SSL_shutdown(ssl); tls_flush(); } s->fin(); } }
void XPeer::rst() { if (s) s->rst(); }
void XPeer::tx(const char *stage, const string &xml0, std::function<void()> after, u64 extra)
{
    string xml = xml0;
    if (w.srv.mangle && !w.srv.mangle(*this, stage, xml)) return;
    if (w.srv.delay_hook) extra += w.srv.delay_hook(*this, stage);
    u64 t = sim::now_ms + w.srv.conf.delay + extra;
    if (!outq.empty() && outq.back().t > t) t = outq.back().t;
    // \x01 separates pieces that are sent one after the other
    for (size_t i; (i = xml.find('\x01')) != string::npos;) {
        if (i) outq.push_back({t, xml.substr(0, i), nullptr, stage});
        xml.erase(0, i + 1);
    }
    outq.push_back({t, xml, after, stage});
}
void XPeer::flush_out()
{
    while (!outq.empty() && outq.front().t <= sim::now_ms && !gone) {
        if (w.lockstep_gap && s && !s->to_client.empty()) it_tx = w.iters;
        if (w.lockstep_gap && w.iters < std::max(it_rx, it_tx) + w.lockstep_gap) return;
        it_tx = w.iters;
        Out o = outq.front();
        outq.pop_front();
        if (!o.b.empty()) {
            Ev &e = w.ev(Ev::TX, no);
            e.s = o.b;
            e.stage = o.stage;
            raw(o.b);
        }
        if (o.after) o.after();
    }
}
void XPeer::close_stream() { tx("close", "</stream:stream>"); }

// ---------------------------------------------------------------- XML
void XPeer::plain(const string &b)
{
    plain_rx += b;
    w.ev_bytes(no, b);
    if (opaque) return;
    // a new stream header restarts the parser
    static const string mark = "<?xml ";
    hold += b;
    for (;;) {
        size_t i = hold.find(mark, restarted ? 1 : 0);
        if (i != string::npos) {
            string x = hold.substr(0, i);
            hold.erase(0, i);
            if (!x.empty()) feed(x);
            if (bad) { /* keep the verdict */ }
            sp.restart();
            cur_closed = false;
            parsed.clear();
            restarted = true;
            continue;
        }
        // keep what could be the start of the mark
        size_t keep = 0;
        for (size_t k = mark.size() - 1; k > 0; k--)
            if (hold.size() >= k && hold.compare(hold.size() - k, k, mark, 0, k) == 0 && !(restarted && hold.size() == k)) { keep = k; break; }
        string x = hold.substr(0, hold.size() - keep);
        hold.erase(0, hold.size() - keep);
        restarted = false;
        if (!x.empty()) feed(x);
        return;
    }
}
void XPeer::feed(const string &b)
{
    parsed += b;
    if (sp.failed()) return;
    if (cur_closed) {
        if (b.find_first_not_of(" \t\r\n") != string::npos && !after_close) { after_close = true; w.ev(Ev::RX_BAD, no).s = "bytes after </stream:stream>: " + vis(b, 120); }
        return;
    }
    for (auto &x : sp.feed(b)) {
        switch (x.k) {
        case StreamEvent::OPEN: {
            headers++;
            Ev &e = w.ev(Ev::RX_HEADER, no);
            e.e = x.e;
            Elem el = x.e;
            if (w.srv.on_header_hook && w.srv.on_header_hook(*this, el)) break;
            w.srv.on_header(*this, el);
            break;
        }
        case StreamEvent::ELEM: {
            Ev &e = w.ev(Ev::RX, no);
            e.e = x.e;
            e.s = x.e.raw;
            Elem el = x.e;
            if (w.srv.intercept && w.srv.intercept(*this, el)) break;
            w.srv.on_elem(*this, el);
            break;
        }
        case StreamEvent::CLOSE:
            w.ev(Ev::RX_CLOSE, no);
            cur_closed = closed_stream = true;
            w.srv.on_close(*this);
            break;
        case StreamEvent::ERR:
            bad = true;
            w.ev(Ev::RX_BAD, no).s = "not well-formed: " + vis(parsed.size() > 300 ? parsed.substr(parsed.size() - 300) : parsed, 400);
            break;
        }
    }
}

// ---------------------------------------------------------------- negotiation
string Server::features(XPeer &p)
{
    string f = "<stream:features>";
    auto mechs = [&](const vector<string> &m) {
        if (m.empty()) return;
        f += "<mechanisms xmlns='" NS_SASL "'>";
        for (auto &x : m) f += "<mechanism>" + x + "</mechanism>";
        f += "</mechanisms>";
    };
    if (!p.authed) {
        if (conf.starttls && !p.tls) f += string("<starttls xmlns='" NS_TLS "'>") + (conf.starttls_required ? "<required/>" : "") + "</starttls>";
        mechs(p.tls && !conf.mechs_tls.empty() ? conf.mechs_tls : conf.mechs);
    } else {
        if (conf.comp && !p.comp) f += "<compression xmlns='" NS_FCOMP "'>" + conf.comp_methods + "</compression>";
        if (conf.bind) f += "<bind xmlns='" NS_BIND "'/>";
        if (conf.session) f += string("<session xmlns='" NS_SESSION "'>") + (conf.session_optional ? "<optional/>" : "") + "</session>";
        if (conf.sm) f += "<sm xmlns='" NS_SM "'/>";
    }
    return f + "</stream:features>";
}
void Server::on_header(XPeer &p, const Elem &)
{
    p.sid = p.headers == 1 ? conf.stream_id : conf.stream_id + strf("-%d", p.headers);
    if (conf.component) {
        p.tx("header", "<?xml version='1.0'?><stream:stream xmlns='" NS_COMPONENT "' xmlns:stream='" NS_STREAM "' from='" + xml_escape(conf.domain, true) + "' id='" + xml_escape(p.sid, true) + "'>");
        return;
    }
    p.tx("header", "<?xml version='1.0'?><stream:stream xmlns='" NS_CLIENT "' xmlns:stream='" NS_STREAM "' id='" + xml_escape(p.sid, true) + "' from='" + xml_escape(conf.domain, true) + "' version='1.0' xml:lang='en'>");
    if (conf.features) p.tx("features", features(p));
}
void Server::on_close(XPeer &p)
{
    if (conf.close_reply) p.tx("close", "</stream:stream>", [&p] { p.fin(); });
}
void Server::on_elem(XPeer &p, const Elem &e)
{
    if (e.ns == NS_TLS && e.name == "starttls") {
        p.tx("proceed", "<proceed xmlns='" NS_TLS "'/>", [&p] { p.start_tls(); });
        return;
    }
    if (e.ns == NS_SASL) {
        if (e.name == "auth") sasl_auth(p, e);
        else if (e.name == "response") sasl_response(p, e.alltext());
        else if (e.name == "abort") p.tx("failure", "<failure xmlns='" NS_SASL "'><aborted/></failure>");
        return;
    }
    if (e.ns == NS_COMP && e.name == "compress") {
        const Elem *m = e.child("method", NS_COMP);
        if (m && m->alltext() == "zlib") p.tx("compressed", "<compressed xmlns='" NS_COMP "'/>", [&p] { p.start_comp(); });
        else p.tx("compress-failure", "<failure xmlns='" NS_COMP "'><unsupported-method/></failure>");
        return;
    }
    if (e.ns == NS_SM) { sm_elem(p, e); return; }
    if (conf.component && e.name == "handshake") {
        SaslAttempt a;
        a.conn = p.no;
        a.mech = "handshake";
        a.tls = p.tls_up;
        a.expected = hexs(md("SHA1", p.sid + conf.secret));
        a.complete = true;
        a.ok = e.alltext() == a.expected;
        if (!a.ok) a.errors.push_back("handshake text " + vis(e.alltext()) + " expected " + a.expected);
        bool ok = a.ok;
        sasl.push_back(a);
        p.authed = p.bound = ok;
        if (ok) p.tx("handshake", "<handshake/>");
        else p.tx("error", "<stream:error><not-authorized xmlns='" NS_STREAMS_IETF "'/></stream:error></stream:stream>", [&p] { p.fin(); });
        return;
    }
    if (e.name == "iq" && e.ns == NS_CLIENT) {
        const Elem *b = e.child("bind", NS_BIND);
        if (b && !p.bound) {
            string res = b->child("resource") ? b->child("resource")->alltext() : "srv-res";
            string jid = conf.bind_jid.empty() ? conf.user + "@" + conf.domain + "/" + res : conf.bind_jid;
            p.jid = jid;
            p.bound = true;
            if (p.sm_on && p.sm) { p.sm->h++; p.sm->got.push_back(e.raw); p.sm->got_conn.push_back(p.no); }
            p.tx("bind", "<iq type='result' id='" + xml_escape(e.attr("id"), true) + "'><bind xmlns='" NS_BIND "'><jid>" + xml_escape(jid, false) + "</jid></bind></iq>", [&p] { if (p.sm_on && p.sm) p.sm->out++; });
            return;
        }
        if (e.child("session", NS_SESSION)) {
            p.tx("session", "<iq type='result' id='" + xml_escape(e.attr("id"), true) + "'/>");
            return;
        }
        const Elem *q = e.child("query", NS_AUTH);
        if (q) {
            SaslAttempt a;
            a.conn = p.no;
            a.mech = "legacy";
            a.tls = p.tls_up;
            a.complete = true;
            const Elem *u = q->child("username", NS_AUTH), *pw = q->child("password", NS_AUTH), *r = q->child("resource", NS_AUTH);
            if (e.attr("type") != "set") a.errors.push_back("iq type");
            if (!u || u->alltext() != conf.user) a.errors.push_back("username " + vis(u ? u->alltext() : "(none)"));
            if (!pw || pw->alltext() != conf.pass) a.errors.push_back("password " + vis(pw ? pw->alltext() : "(none)"));
            if (!r) a.errors.push_back("no resource");
            a.user = u ? u->alltext() : "";
            a.expected = r ? r->alltext() : "";
            a.ok = a.errors.empty() && !conf.refuse.count("legacy");
            bool ok = a.ok;
            sasl.push_back(a);
            if (ok) { p.authed = p.bound = true; p.tx("legacy", "<iq type='result' id='" + xml_escape(e.attr("id"), true) + "'/>"); }
            else p.tx("legacy", "<iq type='error' id='" + xml_escape(e.attr("id"), true) + "'><error type='auth'><not-authorized xmlns='" NS_STANZAS "'/></error></iq>");
            return;
        }
    }
    stanza(p, e);
}
void Server::stanza(XPeer &p, const Elem &e)
{
    if (p.sm_on && p.sm && (e.name == "message" || e.name == "presence" || e.name == "iq")) {
        p.sm->h++;
        p.sm->got.push_back(e.raw);
        p.sm->got_conn.push_back(p.no);
    }
    if (on_stanza) on_stanza(p, e);
}
void Server::sm_elem(XPeer &p, const Elem &e)
{
    if (e.name == "enable") {
        sessions.emplace_back();
        SmSession &s = sessions.back();
        s.id = strf("sess-%d", next_id++);
        s.jid = p.jid;
        p.sm = &s;
        p.sm_on = true;
        bool res = conf.sm_resume && (e.attr("resume") == "true" || e.attr("resume") == "1");
        s.alive = res;
        p.tx("enabled", "<enabled xmlns='" NS_SM "'" + (res ? " id='" + s.id + "' resume='true'" : string()) + "/>");
    } else if (e.name == "resume") {
        SmSession *f = nullptr;
        for (auto &s : sessions) if (s.alive && s.id == e.attr("previd")) f = &s;
        if (f && conf.sm_resume) {
            p.sm = f;
            p.sm_on = true;
            p.bound = true;
            p.jid = f->jid;
            p.tx("resumed", "<resumed xmlns='" NS_SM "' previd='" + f->id + "' h='" + std::to_string(f->h) + "'/>");
        } else p.tx("failed", "<failed xmlns='" NS_SM "'><item-not-found xmlns='" NS_STANZAS "'/></failed>");
    } else if (e.name == "r") {
        if (p.sm) p.tx("a", "<a xmlns='" NS_SM "' h='" + std::to_string(p.sm->h) + "'/>");
    }
}
