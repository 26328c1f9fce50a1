// One test case: its randomness, its reports.
#pragma once
#include "sim.h"
#include <cstdio>

struct Case {
    const char *prop;
    u64 seed;
    u64 k;           // case number
    Rng rng;
    bool thorough;
    bool verbose;
    u64 sig = 0x1234;   // behaviour signature
    bool nontrivial = false;
    vector<string> log; // transcript (verbose or kept for the replay file)
    string sample;
    bool violated = false;
    bool quiet = false;  // runs on behalf of another check: its own verdicts don't count
    Case(const char *p, u64 s, u64 kk, bool th, bool vb)
        : prop(p), seed(s), k(kk), rng(mix64(hash_str(p) ^ mix64(s * 0x9E3779B1ull + 17)) + kk * 0x632BE59BD9B4E019ull), thorough(th), verbose(vb) {}
    void viol(const string &key, const string &msg);
    void note(const string &s) { if (log.size() < 4000) log.push_back(s); if (verbose) { fprintf(stderr, "%s\n", s.c_str()); fflush(stderr); } }
    void mixsig(const string &s) { sig = hash_str(s, sig); }
    void mixsig(u64 v) { sig = mix64(sig ^ v) + 1; }
};
void stat_add(const char *name, u64 n = 1);
void stat_distinct(const char *name, u64 h); // counted as a set

typedef void (*CaseFn)(Case &);
struct PropDef { const char *id; CaseFn fn; };
// a case of another check, for its workload; true: that check had nothing to object
bool run_other(const char *prop, Case &outer, u64 k);
void register_prop(const char *id, CaseFn fn, void (*init)() = nullptr);
#define PROP(id) \
    static void case_##id(Case &c); \
    static struct Reg_##id { Reg_##id() { register_prop(#id, case_##id); } } reg_##id; \
    static void case_##id(Case &c)
