// An XMPP server standing at the other end of the virtual network.
// It speaks TLS (OpenSSL, in process), zlib, SASL and XEP-0198 and checks what
// the client sends with implementations independent of the library.
#pragma once
#include "case.h"
#include "xml.h"
#include <openssl/ssl.h>
#include <zlib.h>

#define NS_STREAM "http://etherx.jabber.org/streams"
#define NS_CLIENT "jabber:client"
#define NS_COMPONENT "jabber:component:accept"
#define NS_TLS "urn:ietf:params:xml:ns:xmpp-tls"
#define NS_SASL "urn:ietf:params:xml:ns:xmpp-sasl"
#define NS_BIND "urn:ietf:params:xml:ns:xmpp-bind"
#define NS_SESSION "urn:ietf:params:xml:ns:xmpp-session"
#define NS_SM "urn:xmpp:sm:3"
#define NS_COMP "http://jabber.org/protocol/compress"
#define NS_FCOMP "http://jabber.org/features/compress"
#define NS_AUTH "jabber:iq:auth"
#define NS_STANZAS "urn:ietf:params:xml:ns:xmpp-stanzas"
#define NS_STREAMS_IETF "urn:ietf:params:xml:ns:xmpp-streams"

// ---- certificates
enum CertKind { CERT_OK, CERT_WILDCARD, CERT_WRONGNAME, CERT_PARTIALWILD, CERT_DEEPWILD, CERT_EXPIRED, CERT_NOTYET, CERT_UNTRUSTED, CERT_SELFSIGNED, CERT_NKINDS };
extern const char *cert_names[];
string tls_tmp_path(const string &name);          // file in the worker's scratch directory
string ca_file();                                 // PEM of the trusted CA
string ca_path_dir();                             // hashed directory
struct ClientCert { string cert, key, p12; };     // file names
ClientCert client_cert(const vector<string> &xmppaddrs, const string &pw = "");
SSL_CTX *server_ctx(const string &domain, CertKind k, int max_version, bool ask_client_cert);
struct LeafSpec {                                 // made to measure
    enum Chain { DIRECT, INTER, INTER_MISSING, INTER_EXPIRED, INTER_NOTCA, OTHER, OTHER_ROOT, SELF, FAKE_CA, CHAIN_N } chain = DIRECT;
    vector<string> dns;                           // subjectAltName
    vector<string> alt;                           // names of other kinds in it
    string cn = "server";
    long from = -86400L * 30, to = 86400L * 300;  // seconds relative to the start of the virtual time
    string show() const;
};
extern const char *chain_names[];
struct LeafCtx { SSL_CTX *ctx; string leaf_pem, inter_pem; };
const LeafCtx &leaf_ctx(const LeafSpec &l, int max_version);
string other_ca_file();

// ---- base64 & digests, independent of the library
string b64e(const string &s);
bool b64d(const string &s, string &out);          // strict
string hexs(const string &s);
string md(const char *alg, const string &s);
string hmac(const char *alg, const string &k, const string &s);
string pbkdf2(const char *alg, const string &pw, const string &salt, int iter);

// ---- event trace
struct Ev {
    enum K { TCP_OPEN, TCP_CLOSE, RX_HEADER, RX, RX_CLOSE, RX_BAD, TX, TLS_UP, TLS_FAIL, COMP_UP, CONN, HANDLER, TIMED, API } k;
    int conn = -1;          // number of the TCP connection
    u64 t = 0;
    bool tls = false, comp = false;
    string s;               // raw bytes, ...
    string stage;           // TX: stage of the negotiation
    Elem e;
    int a = 0, b = 0;
    string show() const;
};

struct SrvConf {
    string domain = "example.org";
    string user = "alice", pass = "secret";
    vector<string> mechs = {"SCRAM-SHA-1", "PLAIN"};  // before TLS
    vector<string> mechs_tls;                         // after TLS, empty = same
    bool starttls = true, starttls_required = false;
    bool bind = true, session = false, session_optional = true, sm = false, comp = false;
    bool sm_resume = true;
    bool features = true;           // sends <stream:features/> at all
    bool component = false;
    string secret = "secret";
    string comp_methods = "<method>zlib</method>";
    int iter = 64;
    string salt = "saltsalt", snonce = "srvnonce";
    string md5_realm = "example.org", md5_nonce = "OA6MG9tEQGm2hh", md5_qop = "auth", md5_charset = "utf-8", md5_algorithm = "md5-sess";
    bool md5_has_realm = true;
    bool md5_rspauth = true;        // sends rspauth as a challenge (else in success)
    string md5_raw;                 // overrides the challenge text
    std::set<string> md5_realms;    // ... which lists several realms
    bool strict_gs2 = false;        // the gs2 flag must be exact
    CertKind cert = CERT_OK;
    SSL_CTX *tls_ctx = nullptr;     // instead of the certificate above
    int tls_max = TLS1_3_VERSION;
    bool ask_client_cert = false;
    enum TlsMode { TLS_NORMAL, TLS_SILENT, TLS_GARBAGE, TLS_CLOSE, TLS_ALERT, TLS_RST, TLS_CLOSE_MID, TLS_NOTIFY, TLS_NOTIFY_LATE, TLS_MODES } tls_mode = TLS_NORMAL;
    std::set<string> refuse;        // mechanisms that always fail
    u64 delay = 0;                  // ms before each reply
    string stream_id = "stream-1";
    string bind_jid;                // default user@domain/<requested or srv>
    int zlevel = 6, zflush = 2 /* Z_SYNC_FLUSH */;
    bool tls_notify = true;         // close_notify before FIN
    string scram_raw;               // overrides server-first; %N = client nonce
    bool close_reply = true;        // answers </stream:stream>
};

struct SmSession {
    string id, jid;
    u32 h = 0;                      // stanzas received from the client
    bool alive = true;
    vector<string> got;             // raw stanzas received in this logical session
    vector<int> got_conn;           // ... on which connection
    u32 out = 0;                    // stanzas sent to the client
};

struct SaslAttempt {
    int conn;
    string mech, user, cnonce;
    bool tls;
    bool ok = false;
    vector<string> errors;          // deviations from the RFC
    string expected;
    bool note_n_on_tls = false;
    bool complete = false;          // the client sent everything the mechanism asks for
};

void tls_seed(u64 s);
string scram_escape(const string &u);
string md5_latin1(const string &s);

struct World;
struct Server;

struct XPeer : sim::Peer {
    World &w;
    int no;
    bool tls = false, tls_up = false, tls_failed = false, comp = false;
    SSL *ssl = nullptr;
    BIO *rb = nullptr, *wb = nullptr;
    z_stream zi, zo;
    StreamParser sp;
    string hold;            // possible start of "<?xml "
    string raw_rx;          // bytes as they came off the wire
    string plain_rx;        // application bytes, after TLS and inflate
    string plain_tx;
    string parsed;          // bytes of the current stream handed to the parser
    bool bad = false, closed_stream = false, gone = false, zfail = false;
    bool authed = false, bound = false, sm_on = false;
    int headers = 0;
    SmSession *sm = nullptr;
    string mech;            // SASL in progress
    int sasl_step = 0;
    string scram_cfb, scram_gs2, scram_sfirst;
    bool scram_plus = false;
    string sid;
    string jid, inbox;
    bool opaque = false;    // application bytes are not parsed
    bool draining = false, restarted = false, cur_closed = false, after_close = false, tls_closed = false;
    std::function<void()> on_tls_up;
    u64 it_rx = 0, it_tx = 0;   // loop iterations of the last bytes in / out
    struct Out { u64 t; string b; std::function<void()> after; string stage; };
    std::deque<Out> outq;
    XPeer(World &w, int no);
    ~XPeer();
    void on_accept() override;
    void on_bytes(const string &b) override;
    void on_client_close() override;
    void on_step() override;
    u64 next_event() override;

    void start_tls();
    void start_comp();
    void tls_pump();
    void tls_flush();
    void tls_sabotage(const string &b);
    void drain();
    void layer2(const string &b);
    void raw2(const string &b); // below compression
    void plain(const string &b);
    void feed(const string &b);
    // stage passes through Server::mangle
    void tx(const char *stage, const string &xml, std::function<void()> after = nullptr, u64 extra_delay = 0);
    void raw(const string &b);  // application bytes, immediately through the layers
    void wire(const string &b); // bytes on the wire
    void close_stream();
    void fin();
    void rst();
    void flush_out();
};

struct Server {
    World &w;
    SrvConf conf;
    Server(World &w) : w(w) {}
    // may change what is sent; false: nothing is sent
    std::function<bool(XPeer &, const string &stage, string &xml)> mangle;
    // additional delay of a message (ms)
    std::function<u64(XPeer &, const string &stage)> delay_hook;
    // element received; true: the default reaction is skipped
    std::function<bool(XPeer &, const Elem &)> intercept;
    std::function<bool(XPeer &, const Elem &)> on_header_hook;
    // an application stanza arrived (after negotiation)
    std::function<void(XPeer &, const Elem &)> on_stanza;
    vector<SaslAttempt> sasl;
    std::deque<SmSession> sessions;
    int next_id = 1;
    string features(XPeer &p);
    void on_header(XPeer &p, const Elem &e);
    void on_elem(XPeer &p, const Elem &e);
    void on_close(XPeer &p);
    void sasl_auth(XPeer &p, const Elem &e);
    void sasl_response(XPeer &p, const string &text);
    void sasl_done(XPeer &p, bool ok, const string &extra = "");
    void sm_elem(XPeer &p, const Elem &e);
    void stanza(XPeer &p, const Elem &e);
    string md5_challenge();
    bool md5_check(const string &resp, SaslAttempt &a, string &rspauth);
};
