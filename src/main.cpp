// vh PROP SEED TIER FROM TO OUTPREFIX [verbose]
#include "case.h"
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

string scratch_prefix = "/nonexistent/x";

struct Entry { CaseFn fn; void (*init)(); };
static std::map<string, Entry> &props() { static std::map<string, Entry> m; return m; }
void register_prop(const char *id, CaseFn fn, void (*init)()) { props()[id] = {fn, init}; }

static std::map<string, u64> stats;
static std::map<string, std::set<u64>> dist;
void stat_add(const char *name, u64 n) { stats[name] += n; }
void stat_distinct(const char *name, u64 h) { auto &s = dist[name]; if (s.size() < 400000) s.insert(h); }

static FILE *out;
static string jesc(const string &s)
{
    string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) r += strf("\\u%04x", c);
        else r += c;
    }
    return r;
}
static u64 nviol;
void Case::viol(const string &key, const string &msg)
{
    violated = true;
    if (quiet) { note("(" + key + ": " + msg + ")"); return; }
    nviol++;
    note("VIOL " + key + ": " + msg);
    fprintf(out, "{\"t\":\"viol\",\"case\":%llu,\"key\":\"%s\",\"msg\":\"%s\"}\n", (unsigned long long)k, jesc(key).c_str(), jesc(msg).c_str());
    fflush(out);
}

bool run_other(const char *prop, Case &outer, u64 k)
{
    static std::set<string> inited;
    auto &e = props()[prop];
    if (e.init && inited.insert(prop).second) e.init();
    Case c(prop, outer.seed + 0x10000, k, outer.thorough, outer.verbose);
    c.quiet = true;
    e.fn(c);
    outer.mixsig(c.sig);
    for (auto &l : c.log) outer.note(l);
    return !c.violated;
}

// code coverage of the library (measured, for the evidence)
struct CovRange { u8 *first, *second; };
static CovRange cov_ranges[256]; // plain storage: filled before constructors run
static size_t ncov;
extern "C" void __sanitizer_cov_8bit_counters_init(u8 *a, u8 *b)
{
    for (size_t i = 0; i < ncov; i++) if (cov_ranges[i].first == a) return;
    if (ncov < 256 && a != b) cov_ranges[ncov++] = {a, b};
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}
size_t cov_edges(vector<u8> *map)
{
    size_t n = 0;
    for (size_t i = 0; i < ncov; i++) for (auto p = &cov_ranges[i]; p; p = nullptr) for (u8 *q = p->first; q < p->second; q++) { if (map) map->push_back(*q ? 1 : 0); if (*q) n++; }
    return n;
}

static void on_cpu(int)
{
    const char m[] = "\nSPIN-DETECTED: a case used more than its CPU time allowance\n";
    if (::write(2, m, sizeof m - 1)) {}
    _exit(87);
}

// ASan/UBSan defaults; no leak checker (leaks are judged with the instrumented allocator)
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "handle_abort=1:malloc_context_size=20:quarantine_size_mb=64:print_legend=0:symbolize=1:strict_memcmp=0:intercept_tls_get_addr=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1"; }

int main(int argc, char **argv)
{
    if (argc < 7) { fprintf(stderr, "usage: vh PROP SEED TIER FROM TO OUTPREFIX [verbose]\n"); return 2; }
    string prop = argv[1];
    u64 seed = strtoull(argv[2], nullptr, 10);
    bool thorough = string(argv[3]) == "thorough";
    u64 from = strtoull(argv[4], nullptr, 10), to = strtoull(argv[5], nullptr, 10);
    string prefix = argv[6];
    bool verbose = argc > 7;
    scratch_prefix = prefix;
    if (!props().count(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    signal(SIGPIPE, SIG_IGN);
    setenv("SSL_CERT_FILE", "/nonexistent/ca.pem", 1);
    setenv("SSL_CERT_DIR", "/nonexistent", 1);
    unsetenv("SSLKEYLOGFILE");
    out = fopen((prefix + ".jsonl").c_str(), "w");
    if (!out) { perror("out"); return 2; }
    // progress word, survives a crash
    int fd = open((prefix + ".pos").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 16)) { perror("pos"); return 2; }
    volatile u64 *pos = (volatile u64 *)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (pos == MAP_FAILED) return 2;
    signal(SIGPROF, on_cpu);
    auto &e = props()[prop];
    if (e.init) e.init();
    FILE *sf = fopen((prefix + ".sig").c_str(), "wb");
    u64 evals = 0, nontriv = 0;
    for (u64 k = from; k < to; k++) {
        pos[0] = k;
        pos[1] = 1;
        struct itimerval tv = {{0, 0}, {60, 0}};
        setitimer(ITIMER_PROF, &tv, nullptr);
        Case c(argv[1], seed, k, thorough, verbose);
        e.fn(c);
        evals++;
        if (c.nontrivial) { nontriv++; fwrite(&c.sig, 8, 1, sf); }
        if (!c.sample.empty() && (k - from) < 3)
            fprintf(out, "{\"t\":\"sample\",\"case\":%llu,\"text\":\"%s\"}\n", (unsigned long long)k, jesc(c.sample.substr(0, 1500)).c_str());
        if (c.violated && verbose == false && c.log.size()) {
            string all;
            for (auto &l : c.log) { all += l + "\n"; if (all.size() > 60000) break; }
            fprintf(out, "{\"t\":\"log\",\"case\":%llu,\"text\":\"%s\"}\n", (unsigned long long)k, jesc(all).c_str());
        }
        if (nviol > 200) break;
    }
    struct itimerval tv = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    sim::active = false;
    pos[1] = 2;
    fclose(sf);
    fprintf(out, "{\"t\":\"stats\",\"evaluations\":%llu,\"nontrivial\":%llu,\"stats\":{", (unsigned long long)evals, (unsigned long long)nontriv);
    bool first = true;
    for (auto &s : stats) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", s.first.c_str(), (unsigned long long)s.second); first = false; }
    fprintf(out, "}}\n");
    for (auto &d : dist) {
        FILE *f = fopen((prefix + ".d_" + d.first).c_str(), "wb");
        for (u64 v : d.second) fwrite(&v, 8, 1, f);
        fclose(f);
    }
    vector<u8> map;
    cov_edges(&map);
    FILE *cf = fopen((prefix + ".cov").c_str(), "wb");
    fwrite(map.data(), 1, map.size(), cf);
    fclose(cf);
    fclose(out);
    fflush(nullptr);
    _exit(0);
}
