// not a check: prints a few negotiations
#include "world.h"
PROP(SMOKE)
{
    World w(c);
    w.report = true;
    Client &k = w.client();
    SrvConf &s = w.srv.conf;
    long flags = 0;
    switch (c.k % 8) {
    case 0: flags = XMPP_CONN_FLAG_DISABLE_TLS; break;
    case 1: xmpp_conn_set_cafile(k.conn, ca_file().c_str()); break;
    case 2: xmpp_conn_set_cafile(k.conn, ca_file().c_str()); s.tls_max = TLS1_2_VERSION; s.mechs_tls = {"SCRAM-SHA-256-PLUS"}; break;
    case 3: flags = XMPP_CONN_FLAG_ENABLE_COMPRESSION; xmpp_conn_set_cafile(k.conn, ca_file().c_str()); s.comp = true; s.mechs_tls = {"SCRAM-SHA-512-PLUS"}; break;
    case 4: flags = XMPP_CONN_FLAG_DISABLE_TLS; s.mechs = {"DIGEST-MD5"}; s.sm = true; s.session = true; s.session_optional = false; break;
    case 5: flags = XMPP_CONN_FLAG_LEGACY_SSL; xmpp_conn_set_cafile(k.conn, ca_file().c_str()); w.on_peer = [](XPeer &p) { p.start_tls(); }; break;
    case 6: s.component = true; break;
    case 7: flags = XMPP_CONN_FLAG_DISABLE_TLS; s.sm = true; break;
    }
    k.set(c.k % 8 == 6 ? "example.org" : "alice@example.org/home", "secret", flags);
    if (c.k % 8 == 6) k.connect_component("127.0.0.1"); else k.connect("srv.example.org");
    bool up = w.run(200, [&] { return k.up; });
    c.note(strf("up=%d secured=%d", up, xmpp_conn_is_secured(k.conn)));
    if (up) {
        xmpp_stanza_t *m = make_message(w.ctx, "m1", "hello");
        xmpp_send(k.conn, m);
        xmpp_stanza_release(m);
        w.run_ms(100);
        k.disconnect();
    }
    w.run(100, [&] { return !k.open; });
    for (auto &a : w.srv.sasl) for (auto &e : a.errors) c.note("SASL " + a.mech + ": " + e);
    w.fini();
    for (auto &l : w.mm.leaks()) c.note("LEAK " + l);
    for (auto &e : w.mm.errors) c.note("MEM " + e);
    if (c.k % 8 != 4) c.note(w.show());
}
