// Instrumented allocator handed to the library through xmpp_ctx_new().
#pragma once
#include "sim.h"
#include "strophe.h"
#include <unordered_map>

struct MemMon {
    struct Blk { size_t size; u64 seq; };
    xmpp_mem_t mem;
    std::unordered_map<void *, Blk> live;
    u64 allocs = 0, frees = 0, reallocs = 0, seq = 0;
    u8 fill = 0xA5;          // pattern of fresh blocks (exposes uninitialised use)
    vector<string> errors;   // double / foreign frees
    MemMon();
    ~MemMon();
    void clear();            // forget everything, really freeing live blocks
    // description of the live blocks (allocation stacks)
    vector<string> leaks(size_t max = 8);
    size_t live_bytes() const { size_t n = 0; for (auto &b : live) n += b.second.size; return n; }
};

string stack_of(void *p, bool free_stack = false); // strophe frames of the allocation stack, "a<b<c"

// direct use of malloc & co. from library code, zlib/expat instances created without our allocator
namespace rawmem {
extern vector<string> events;
extern bool watch;
}
