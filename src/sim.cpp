#include "sim.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

u64 mix64(u64 x)
{
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27; x *= 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
u64 hash_bytes(const void *p, size_t n, u64 h)
{
    const u8 *b = (const u8 *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
    return h;
}
string strf(const char *fmt, ...)
{
    va_list ap, ap2;
    va_start(ap, fmt);
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap);
    va_end(ap);
    string r(n > 0 ? n : 0, 0);
    if (n > 0) vsnprintf(&r[0], n + 1, fmt, ap2);
    va_end(ap2);
    return r;
}
string vis(const string &s, size_t max)
{
    string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (r.size() >= max) { r += strf("...(%zu)", s.size()); break; }
        u8 c = s[i];
        if (c == '\\') r += "\\\\";
        else if (c >= 32 && c < 127) r += (char)c;
        else if (c == '\n') r += "\\n";
        else r += strf("\\x%02x", c);
    }
    return r;
}
u64 real_now_us()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return (u64)ts.tv_sec * 1000000ull + ts.tv_nsec / 1000;
}

namespace sim {
bool active = false;
u64 now_ms = 1790000000000ull;
u64 select_calls = 0, io_calls = 0;
bool rnd_short;
Rng rnd(1);
Policy policy;
vector<std::unique_ptr<VSock>> socks;
vector<ConnectRec> connects;
vector<string> dns_queries, resolves, misuse;
bool user_driven_wait = false;
u64 spin_limit = 20000;
static u64 spin_base = 0;
static const int FD_BASE = 500;

void spin_mark() { spin_base = select_calls + io_calls; }
void die_spin(const char *why)
{
    fprintf(stderr, "\nSPIN-DETECTED: %s\n", why);
    fflush(nullptr);
    _exit(86);
}
static void spin_check()
{
    if (select_calls + io_calls - spin_base > spin_limit)
        die_spin("more than the allowed number of transport calls within one event-loop iteration");
}

void reset(u64 seed)
{
    active = true;
    now_ms = 1790000000000ull; // 2026-09-21
    select_calls = io_calls = spin_base = 0;
    rnd = Rng(seed ^ 0x5eed);
    rnd_short = false;
    policy = Policy();
    socks.clear();
    connects.clear();
    dns_queries.clear();
    resolves.clear();
    misuse.clear();
}
VSock *find(int fd)
{
    int i = fd - FD_BASE;
    if (i < 0 || i >= (int)socks.size()) return nullptr;
    return socks[i].get();
}
static VSock *lookup(int fd, const char *what)
{
    VSock *s = find(fd);
    if (s && s->st == VSock::CLOSED) {
        misuse.push_back(strf("%s on closed descriptor %d", what, fd));
        return nullptr;
    }
    return s;
}
static inline bool in_range(int fd) { return active && fd >= FD_BASE && fd < 1024; }
int open_count()
{
    int n = 0;
    for (auto &s : socks) if (s->st != VSock::CLOSED) n++;
    return n;
}
static void accept_sock(VSock *s)
{
    s->st = VSock::OPEN;
    if (policy.trace) policy.trace("open", s);
    if (policy.make_peer) {
        s->peer.reset(policy.make_peer(s));
        if (s->peer) { s->peer->s = s; s->peer->on_accept(); }
    }
}
static void decide(VSock *s)
{
    if (s->st != VSock::CONNECTING || now_ms < s->t_decide) return;
    if (s->outcome == ACCEPT_LATER) accept_sock(s);
    else if (s->outcome == REFUSE_LATER) {
        s->st = VSock::FAILED;
        s->so_error = ECONNREFUSED;
        if (policy.trace) policy.trace("refused", s);
    }
}
static bool in_step = false;
void step()
{
    if (in_step) return;
    in_step = true;
    for (size_t i = 0; i < socks.size(); i++) {
        VSock *s = socks[i].get();
        if (s->st == VSock::CONNECTING) decide(s);
        if (s->peer) s->peer->on_step();
        if (s->st == VSock::OPEN) {
            size_t inflight = s->to_client.size() - s->visible;
            if (inflight) {
                size_t k = policy.arrive ? policy.arrive(s, inflight) : inflight;
                s->visible += k > inflight ? inflight : k;
            }
        }
    }
    in_step = false;
}
static bool readable(VSock *s)
{
    if (s->st == VSock::FAILED) return true;
    if (s->st != VSock::OPEN) return false;
    return s->visible > 0 || s->peer_rst || (s->peer_fin && s->to_client.empty()) || s->spurious_readable;
}
static bool writable(VSock *s)
{
    if (s->st == VSock::FAILED) return true;
    return s->st == VSock::OPEN && !policy.wfd_blocked;
}
static u64 next_time()
{
    u64 t = ~0ull;
    for (auto &s : socks) {
        if (s->st == VSock::CONNECTING && s->t_decide < t) t = s->t_decide;
        if (s->peer) { u64 e = s->peer->next_event(); if (e < t) t = e; }
    }
    return t;
}
static void put_addr(struct sockaddr *sa, socklen_t *len, const string &ip, int port)
{
    struct sockaddr_storage ss;
    memset(&ss, 0, sizeof ss);
    socklen_t n;
    if (ip.find(':') != string::npos) {
        auto *a = (struct sockaddr_in6 *)&ss;
        a->sin6_family = AF_INET6; a->sin6_port = htons(port);
        inet_pton(AF_INET6, ip.c_str(), &a->sin6_addr);
        n = sizeof *a;
    } else {
        auto *a = (struct sockaddr_in *)&ss;
        a->sin_family = AF_INET; a->sin_port = htons(port);
        inet_pton(AF_INET, ip.c_str(), &a->sin_addr);
        n = sizeof *a;
    }
    if (sa && len) { memcpy(sa, &ss, *len < n ? *len : n); *len = n; }
}
static ssize_t do_send(int fd, const void *buf, size_t len)
{
    io_calls++;
    spin_check();
    VSock *s = lookup(fd, "send");
    if (!s) { errno = EBADF; return -1; }
    if (s->st == VSock::CONNECTING) { errno = s->nonblock ? EAGAIN : EAGAIN; return -1; }
    if (s->st == VSock::FAILED || s->st == VSock::FRESH) { errno = ENOTCONN; return -1; }
    if (s->peer_rst) { errno = EPIPE; return -1; }
    long k = policy.on_send ? policy.on_send(s, len) : (long)len;
    if (k < 0) { errno = (int)-k; return -1; }
    if (k == 0 && len > 0) { errno = EAGAIN; return -1; }
    if ((size_t)k > len) k = (long)len;
    string b((const char *)buf, (size_t)k); // ASan checks the source range
    s->written += k;
    if (s->peer) s->peer->on_bytes(b);
    return k;
}
static ssize_t do_recv(int fd, void *buf, size_t len, bool peek)
{
    io_calls++;
    spin_check();
    VSock *s = lookup(fd, "recv");
    if (!s) { errno = EBADF; return -1; }
    if (s->st == VSock::FAILED) { int e = s->so_error ? s->so_error : ENOTCONN; s->so_error = 0; errno = e; return -1; }
    if (s->st == VSock::CONNECTING) { errno = EAGAIN; return -1; }
    if (s->st == VSock::FRESH) { errno = ENOTCONN; return -1; }
    if (s->peer_rst) { errno = ECONNRESET; return -1; }
    if (s->visible == 0) {
        if (s->peer_fin && s->to_client.empty()) return 0;
        s->spurious_readable = false;
        errno = EAGAIN;
        return -1;
    }
    size_t avail = s->visible < len ? s->visible : len;
    long k = policy.on_recv ? policy.on_recv(s, avail) : (long)avail;
    if (k < 0) { errno = (int)-k; return -1; }
    if (k == 0) k = 1;
    if ((size_t)k > avail) k = (long)avail;
    memcpy(buf, s->to_client.data(), k); // ASan checks the destination range
    if (!peek) { s->to_client.erase(0, k); s->visible -= k; s->readn += k; }
    return k;
}
static void sleep_ms(u64 ms)
{
    // sleeping: let time pass in steps so peers act at their times
    u64 end = now_ms + ms;
    for (int guard = 0; guard < 10000; guard++) {
        step();
        u64 t = next_time();
        if (t > end || t <= now_ms) break;
        now_ms = t;
    }
    if (now_ms < end) now_ms = end;
    step();
}
struct Want { int fd; bool r, w; };
static int wait_common(const vector<Want> &want, long tmo_ms, vector<Want> &res)
{
    select_calls++;
    spin_check();
    u64 end = tmo_ms < 0 ? ~0ull : now_ms + (u64)tmo_ms;
    for (int guard = 0;; guard++) {
        step();
        res.clear();
        int n = 0;
        for (auto &w : want) {
            VSock *s = lookup(w.fd, "select");
            if (!s) { errno = EBADF; return -1; }
            Want r{w.fd, w.r && readable(s), w.w && writable(s)};
            if (r.r || r.w) { n += (int)r.r + (int)r.w; }
            res.push_back(r);
        }
        if (n) return n;
        if (policy.idle) policy.idle();
        if (now_ms >= end || guard > 5000) return 0;
        u64 t = next_time();
        // bytes still in flight arrive without time passing
        bool inflight = false;
        for (auto &s : socks) if (s->st == VSock::OPEN && s->to_client.size() > s->visible) inflight = true;
        if (inflight && guard < 64) continue;
        if (t <= now_ms) { if (guard < 64) continue; t = ~0ull; }
        if (t < end) now_ms = t;
        else { if (end == ~0ull) die_spin("select() without timeout and nothing left to happen"); now_ms = end; }
    }
}
} // namespace sim

using namespace sim;

extern "C" {

int socket(int domain, int type, int protocol)
{
    if (!active || (domain != AF_INET && domain != AF_INET6))
        return (int)syscall(SYS_socket, domain, type, protocol);
    if (policy.sock_fail) { int e = policy.sock_fail(domain); if (e) { errno = e; return -1; } }
    if (FD_BASE + socks.size() >= 1020) { errno = EMFILE; return -1; }
    auto s = std::make_unique<VSock>();
    s->fd = FD_BASE + (int)socks.size();
    s->family = domain;
    if (type & SOCK_NONBLOCK) s->nonblock = true;
    int fd = s->fd;
    socks.push_back(std::move(s));
    return fd;
}
int connect(int fd, const struct sockaddr *sa, socklen_t len)
{
    if (!in_range(fd)) return (int)syscall(SYS_connect, fd, sa, len);
    VSock *s = lookup(fd, "connect");
    if (!s) { errno = EBADF; return -1; }
    char ip[64] = "";
    int port = 0;
    if (sa->sa_family == AF_INET) {
        auto *a = (const struct sockaddr_in *)sa;
        inet_ntop(AF_INET, &a->sin_addr, ip, sizeof ip);
        port = ntohs(a->sin_port);
    } else if (sa->sa_family == AF_INET6) {
        auto *a = (const struct sockaddr_in6 *)sa;
        inet_ntop(AF_INET6, &a->sin6_addr, ip, sizeof ip);
        port = ntohs(a->sin6_port);
    }
    s->ip = ip;
    s->port = port;
    connects.push_back({ip, port, now_ms, fd});
    Endpoint e;
    if (policy.endpoint) e = policy.endpoint(ip, port);
    s->outcome = e.outcome;
    if (policy.trace) policy.trace("connect", s);
    switch (e.outcome) {
    case ACCEPT_NOW: accept_sock(s); return 0;
    case REFUSE_NOW: s->st = VSock::FRESH; errno = ECONNREFUSED; return -1;
    case SOCKET_FAIL:
    case UNREACH_NOW: s->st = VSock::FRESH; errno = ENETUNREACH; return -1;
    case HANG: s->st = VSock::CONNECTING; s->t_decide = ~0ull; errno = EINPROGRESS; return -1;
    case ACCEPT_LATER:
    case REFUSE_LATER:
        s->st = VSock::CONNECTING;
        s->t_decide = now_ms + e.delay;
        errno = EINPROGRESS;
        return -1;
    }
    return -1;
}
ssize_t send(int fd, const void *buf, size_t len, int flags)
{
    if (!in_range(fd)) return syscall(SYS_sendto, fd, buf, len, flags, nullptr, 0);
    return do_send(fd, buf, len);
}
ssize_t sendto(int fd, const void *buf, size_t len, int flags, const struct sockaddr *sa, socklen_t sl)
{
    if (!in_range(fd)) return syscall(SYS_sendto, fd, buf, len, flags, sa, sl);
    return do_send(fd, buf, len);
}
ssize_t write(int fd, const void *buf, size_t len)
{
    if (!in_range(fd)) return syscall(SYS_write, fd, buf, len);
    return do_send(fd, buf, len);
}
ssize_t writev(int fd, const struct iovec *iov, int n)
{
    if (!in_range(fd)) return syscall(SYS_writev, fd, iov, n);
    ssize_t tot = 0;
    for (int i = 0; i < n; i++) {
        if (!iov[i].iov_len) continue;
        ssize_t k = do_send(fd, iov[i].iov_base, iov[i].iov_len);
        if (k < 0) return tot ? tot : k;
        tot += k;
        if ((size_t)k < iov[i].iov_len) break;
    }
    return tot;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    if (!in_range(fd)) return syscall(SYS_sendmsg, fd, m, flags);
    return writev(fd, m->msg_iov, (int)m->msg_iovlen);
}
ssize_t recv(int fd, void *buf, size_t len, int flags)
{
    if (!in_range(fd)) return syscall(SYS_recvfrom, fd, buf, len, flags, nullptr, nullptr);
    return do_recv(fd, buf, len, flags & MSG_PEEK);
}
ssize_t recvfrom(int fd, void *buf, size_t len, int flags, struct sockaddr *sa, socklen_t *sl)
{
    if (!in_range(fd)) return syscall(SYS_recvfrom, fd, buf, len, flags, sa, sl);
    return do_recv(fd, buf, len, flags & MSG_PEEK);
}
ssize_t read(int fd, void *buf, size_t len)
{
    if (!in_range(fd)) return syscall(SYS_read, fd, buf, len);
    return do_recv(fd, buf, len, false);
}
ssize_t readv(int fd, const struct iovec *iov, int n)
{
    if (!in_range(fd)) return syscall(SYS_readv, fd, iov, n);
    return n > 0 ? do_recv(fd, iov[0].iov_base, iov[0].iov_len, false) : 0;
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
    if (!in_range(fd)) return syscall(SYS_recvmsg, fd, m, flags);
    return readv(fd, m->msg_iov, (int)m->msg_iovlen);
}
int close(int fd)
{
    if (!in_range(fd)) return (int)syscall(SYS_close, fd);
    VSock *s = lookup(fd, "close");
    if (!s) { errno = EBADF; return -1; }
    bool was = s->st == VSock::OPEN;
    s->st = VSock::CLOSED;
    if (policy.trace) policy.trace("close", s);
    if (was && s->peer) s->peer->on_client_close();
    return 0;
}
int shutdown(int fd, int how)
{
    if (!in_range(fd)) return (int)syscall(SYS_shutdown, fd, how);
    return 0;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (!in_range(fd)) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    VSock *s = lookup(fd, "fcntl");
    if (!s) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { s->nonblock = ((long)arg & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (!in_range(fd)) return (int)syscall(SYS_ioctl, fd, req, arg);
    VSock *s = lookup(fd, "ioctl");
    if (!s) { errno = EBADF; return -1; }
    if (req == FIONBIO) s->nonblock = *(int *)arg != 0;
    if (req == FIONREAD) *(int *)arg = (int)s->visible;
    return 0;
}
int getsockopt(int fd, int level, int name, void *val, socklen_t *len)
{
    if (!in_range(fd)) return (int)syscall(SYS_getsockopt, fd, level, name, val, len);
    VSock *s = lookup(fd, "getsockopt");
    if (!s) { errno = EBADF; return -1; }
    if (level == SOL_SOCKET && name == SO_ERROR && val && *len >= sizeof(int)) { *(int *)val = s->so_error; s->so_error = 0; *len = sizeof(int); }
    return 0;
}
int setsockopt(int fd, int level, int name, const void *val, socklen_t len)
{
    if (!in_range(fd)) return (int)syscall(SYS_setsockopt, fd, level, name, val, len);
    VSock *s = lookup(fd, "setsockopt");
    if (!s) { errno = EBADF; return -1; }
    return 0;
}
int getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
    if (!in_range(fd)) return (int)syscall(SYS_getpeername, fd, sa, len);
    VSock *s = lookup(fd, "getpeername");
    if (!s) { errno = EBADF; return -1; }
    if (s->st != VSock::OPEN) { errno = ENOTCONN; return -1; }
    put_addr(sa, len, s->ip, s->port);
    return 0;
}
int getsockname(int fd, struct sockaddr *sa, socklen_t *len)
{
    if (!in_range(fd)) return (int)syscall(SYS_getsockname, fd, sa, len);
    put_addr(sa, len, "192.0.2.1", 40000 + fd);
    return 0;
}
static int select_impl(int nfds, fd_set *r, fd_set *w, fd_set *e, long tmo_ms)
{
    vector<Want> want, res;
    for (int fd = 0; fd < nfds; fd++) {
        bool br = r && FD_ISSET(fd, r), bw = w && FD_ISSET(fd, w);
        if (br || bw) want.push_back({fd, br, bw});
    }
    for (auto &x : want) if (!in_range(x.fd) || !find(x.fd)) {
        misuse.push_back(strf("select on foreign descriptor %d", x.fd));
        errno = EBADF;
        return -1;
    }
    int n = wait_common(want, tmo_ms, res);
    if (n < 0) return n;
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    for (auto &x : res) {
        if (x.r) FD_SET(x.fd, r);
        if (x.w) FD_SET(x.fd, w);
    }
    return n;
}
int select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (!active) return (int)syscall(SYS_select, nfds, r, w, e, tv);
    long ms = tv ? tv->tv_sec * 1000 + tv->tv_usec / 1000 : -1;
    return select_impl(nfds, r, w, e, ms);
}
int pselect(int nfds, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *)
{
    long ms = ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : -1;
    return select_impl(nfds, r, w, e, ms);
}
int poll(struct pollfd *p, nfds_t n, int tmo)
{
    if (!active) {
        struct timespec ts = {tmo / 1000, (tmo % 1000) * 1000000L};
        return (int)syscall(SYS_ppoll, p, n, tmo < 0 ? nullptr : &ts, nullptr, 0);
    }
    vector<Want> want, res;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (p[i].fd < 0) continue;
        want.push_back({p[i].fd, (p[i].events & POLLIN) != 0, (p[i].events & POLLOUT) != 0});
    }
    int k = wait_common(want, tmo, res);
    if (k <= 0) return k;
    int cnt = 0;
    size_t j = 0;
    for (nfds_t i = 0; i < n; i++) {
        if (p[i].fd < 0) continue;
        if (res[j].r) p[i].revents |= POLLIN;
        if (res[j].w) p[i].revents |= POLLOUT;
        if (p[i].revents) cnt++;
        j++;
    }
    return cnt;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    if (!active) return (int)syscall(SYS_gettimeofday, tv, tz);
    tv->tv_sec = (time_t)(now_ms / 1000);
    tv->tv_usec = (suseconds_t)(now_ms % 1000) * 1000;
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!active || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return (int)syscall(SYS_clock_gettime, id, ts);
    ts->tv_sec = (time_t)(now_ms / 1000);
    ts->tv_nsec = (long)(now_ms % 1000) * 1000000;
    return 0;
}
time_t time(time_t *t)
{
    if (!active) {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        if (t) *t = ts.tv_sec;
        return ts.tv_sec;
    }
    time_t v = (time_t)(now_ms / 1000);
    if (t) *t = v;
    return v;
}
int usleep(useconds_t us)
{
    if (!active) {
        struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
        return (int)syscall(SYS_nanosleep, &ts, nullptr);
    }
    sleep_ms((us + 999) / 1000);
    return 0;
}
unsigned sleep(unsigned sec)
{
    if (!active) { struct timespec ts = {(time_t)sec, 0}; syscall(SYS_nanosleep, &ts, nullptr); return 0; }
    sleep_ms((u64)sec * 1000);
    return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem)
{
    if (!active) return (int)syscall(SYS_nanosleep, req, rem);
    sleep_ms((u64)req->tv_sec * 1000 + (req->tv_nsec + 999999) / 1000000);
    return 0;
}
ssize_t getrandom(void *p, size_t n, unsigned flags)
{
    if (!active) return syscall(SYS_getrandom, p, n, flags);
    if (rnd_short) {
        if (rnd.onein(3)) { errno = EINTR; return -1; }
        if (n > 1 && rnd.onein(2)) n = 1 + rnd.below(n - 1);
    }
    for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = (u8)rnd.next();
    return (ssize_t)n;
}
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    vector<string> ips;
    resolves.push_back(strf("%s:%s", node ? node : "(null)", service ? service : "(null)"));
    bool ok = true;
    if (policy.resolve) ok = policy.resolve(node ? node : "", ips);
    else ips.push_back("198.51.100.1");
    *res = nullptr;
    if (!ok || ips.empty()) return EAI_NONAME;
    int port = service ? atoi(service) : 0;
    struct addrinfo *head = nullptr, **tail = &head;
    for (auto &ip : ips) {
        auto *ai = (struct addrinfo *)calloc(1, sizeof(struct addrinfo));
        ai->ai_addr = (struct sockaddr *)calloc(1, sizeof(struct sockaddr_storage));
        socklen_t l = sizeof(struct sockaddr_storage);
        put_addr(ai->ai_addr, &l, ip, port);
        ai->ai_addrlen = l;
        ai->ai_family = ai->ai_addr->sa_family;
        ai->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
        ai->ai_protocol = IPPROTO_TCP;
        *tail = ai;
        tail = &ai->ai_next;
    }
    *res = head;
    return 0;
}
void freeaddrinfo(struct addrinfo *ai)
{
    while (ai) {
        struct addrinfo *n = ai->ai_next;
        free(ai->ai_addr);
        free(ai);
        ai = n;
    }
}
static int res_common(const char *name, int type, unsigned char *ans, int anslen)
{
    dns_queries.push_back(strf("%s/%d", name, type));
    string a;
    if (!policy.dns || !policy.dns(name, type, a)) return -1;
    size_t n = a.size() < (size_t)anslen ? a.size() : (size_t)anslen;
    memcpy(ans, a.data(), n);
    return (int)a.size(); // like the real one, the full length is returned
}
int res_query(const char *name, int, int type, unsigned char *ans, int anslen) { return res_common(name, type, ans, anslen); }
int res_search(const char *name, int, int type, unsigned char *ans, int anslen) { return res_common(name, type, ans, anslen); }
int res_nquery(void *, const char *name, int, int type, unsigned char *ans, int anslen) { return res_common(name, type, ans, anslen); }
int res_nsearch(void *, const char *name, int, int type, unsigned char *ans, int anslen) { return res_common(name, type, ans, anslen); }
int res_ninit(void *) { return 0; }
void res_nclose(void *) {}
} // extern C
