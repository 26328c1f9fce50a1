// Deterministic virtual network, virtual clock and virtual randomness.
// The functions libc/openssl/strophe use for time and sockets are interposed in
// the executable (sim.cpp); descriptors handed out by socket() live in a private
// range, everything else is passed through to the kernel.
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef unsigned char u8;
using std::string;
using std::vector;

u64 mix64(u64 x);
u64 hash_bytes(const void *p, size_t n, u64 h = 0xcbf29ce484222325ull);
inline u64 hash_str(const string &s, u64 h = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), h); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed + 0x9e3779b97f4a7c15ull)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
    bool chance(int pct) { return below(100) < (u64)pct; }
    bool onein(int n) { return below(n) == 0; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
    string bytes(size_t n) { string r(n, 0); for (auto &c : r) c = (char)next(); return r; }
    Rng fork() { return Rng(next()); }
};

string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
string vis(const string &s, size_t max = 400); // printable form

namespace sim {

extern bool active;      // virtual time/network switched on
extern u64 now_ms;       // virtual milliseconds since the epoch
extern u64 select_calls; // number of select/poll calls since reset
extern u64 io_calls;
extern Rng rnd;          // source of getrandom()
extern bool rnd_short;   // ... with interruptions and short results

struct VSock;

// What stands at the other end of a virtual connection.
struct Peer {
    VSock *s = nullptr;
    virtual ~Peer() {}
    virtual void on_accept() {}
    virtual void on_bytes(const string &) {} // client wrote bytes
    virtual void on_client_close() {}
    virtual void on_step() {}                // called from select()/poll()
    virtual u64 next_event() { return ~0ull; } // virtual time of the next self-generated event
};

enum ConnOutcome { ACCEPT_NOW, ACCEPT_LATER, REFUSE_NOW, REFUSE_LATER, HANG, UNREACH_NOW, SOCKET_FAIL };

struct Endpoint {
    ConnOutcome outcome = ACCEPT_NOW;
    u64 delay = 0;
};

struct VSock {
    int fd = -1;
    int family = 0;
    enum St { FRESH, CONNECTING, OPEN, FAILED, CLOSED } st = FRESH;
    bool nonblock = false;
    string ip;
    int port = 0;
    u64 t_decide = ~0ull;    // when a pending connect is decided
    ConnOutcome outcome = ACCEPT_NOW;
    int so_error = 0;
    string to_client;        // written by the peer, not read yet
    size_t visible = 0;      // prefix of to_client that has "arrived"
    bool peer_fin = false;   // peer closed after to_client
    bool peer_rst = false;
    bool spurious_readable = false;
    std::unique_ptr<Peer> peer;
    u64 written = 0, readn = 0;
    // peer side API
    void send(const string &b) { to_client += b; }
    void fin() { peer_fin = true; }
    void rst() { peer_rst = true; }
};

// How the transport behaves; all optional.
struct Policy {
    // bytes the transport takes of a write of n; 0 => EAGAIN; <0 => -errno
    std::function<int(VSock *, size_t)> on_send;
    // how much of n available bytes a read returns (>=1); <0 => -errno
    std::function<int(VSock *, size_t)> on_recv;
    // how many more bytes of the k in flight arrive at a network step
    std::function<size_t(VSock *, size_t)> arrive;
    std::function<Endpoint(const string &ip, int port)> endpoint;
    std::function<Peer *(VSock *)> make_peer;
    // socket() of this address family: 0 or an error number
    std::function<int(int family)> sock_fail;
    // (host, service) -> addresses; false => failure
    std::function<bool(const string &, vector<string> &)> resolve;
    // dns query -> raw answer; false => failure
    std::function<bool(const string &name, int type, string &)> dns;
    std::function<void(const char *ev, VSock *)> trace;
    // called inside select() when nothing can happen any more without time passing
    std::function<void()> idle;
    bool wfd_blocked = false; // select does not report writability
};
extern Policy policy;

extern vector<std::unique_ptr<VSock>> socks; // all sockets of this case
struct ConnectRec { string ip; int port; u64 t; int fd; };
extern vector<ConnectRec> connects;
extern vector<string> dns_queries;
extern vector<string> resolves;
extern vector<string> misuse; // use of closed descriptors, double close
extern bool user_driven_wait;

void reset(u64 seed);  // new case
VSock *find(int fd);   // open or closed
void step();           // network step: peers act, bytes arrive
int open_count();

[[noreturn]] void die_spin(const char *why);
extern u64 spin_limit; // select()+io calls allowed per marker
void spin_mark();      // start of an event-loop iteration
} // namespace sim

u64 real_now_us();
