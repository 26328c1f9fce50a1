#include "mem.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <zlib.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

static const size_t SLOT = 4096;
static MemMon *slot_used;
static void rel(void *p, MemMon *m)
{
    if (slot_used == m && m->live.count(p) && m->live[p].seq == 1) slot_used = nullptr; // keep the storage
    else free(p);
}
static void *m_alloc(size_t size, void *ud)
{
    MemMon *m = (MemMon *)ud;
    void *p;
    if (m->seq == 0 && size <= SLOT) {
        // the first block is the context: always at the same place, because the
        // library remembers the first context it sees for expat's allocator
        static void *slot = malloc(SLOT);
        if (!slot_used) { p = slot; slot_used = m; } else p = malloc(size);
    } else p = malloc(size ? size : 1);
    if (!p) return nullptr;
    memset(p, m->fill, size);
    m->live[p] = {size, ++m->seq};
    m->allocs++;
    return p;
}
static void m_free(void *p, void *ud)
{
    MemMon *m = (MemMon *)ud;
    if (!p) return;
    m->frees++;
    auto it = m->live.find(p);
    if (it == m->live.end()) {
        m->errors.push_back("free of a block that is not live (double or foreign free), allocated by " + stack_of(p) + ", freed earlier by " + stack_of(p, true));
        return;
    }
    memset(p, 0xDD, it->second.size);
    bool slot = slot_used == m && it->second.seq == 1;
    if (slot) slot_used = nullptr;
    m->live.erase(it);
    if (!slot) free(p);
}
static void *m_realloc(void *p, size_t size, void *ud)
{
    MemMon *m = (MemMon *)ud;
    if (!p) return m_alloc(size, ud);
    m->reallocs++;
    auto it = m->live.find(p);
    if (it == m->live.end()) {
        m->errors.push_back("realloc of a block that is not live, allocated by " + stack_of(p));
        return nullptr;
    }
    size_t old = it->second.size;
    void *q = malloc(size ? size : 1);
    if (!q) return nullptr;
    memset(q, m->fill, size);
    memcpy(q, p, old < size ? old : size);
    memset(p, 0xDD, old);
    m->live.erase(it);
    free(p);
    m->live[q] = {size, ++m->seq};
    return q;
}
MemMon::MemMon()
{
    mem.alloc = m_alloc;
    mem.free = m_free;
    mem.realloc = m_realloc;
    mem.userdata = this;
}
MemMon::~MemMon() { clear(); }
void MemMon::clear()
{
    for (auto &b : live) rel(b.first, this);
    live.clear();
}
string stack_of(void *p, bool free_stack)
{
    void *tr[24];
    int tid;
    size_t n = free_stack ? __asan_get_free_stack(p, tr, 24, &tid) : __asan_get_alloc_stack(p, tr, 24, &tid);
    string r;
    int k = 0;
    for (size_t i = 0; i < n && k < 5; i++) {
        char buf[512] = "";
        __sanitizer_symbolize_pc((char *)tr[i] - 1, "%f@%s:%l", buf, sizeof buf);
        string f = buf;
        if (f.find("/repo/src/") == string::npos && f.find("XML_") == string::npos) continue;
        size_t at = f.find('@');
        string fn = f.substr(0, at);
        if (fn.compare(0, 8, "strophe_") == 0 || fn == "xmpp_alloc" || fn == "xmpp_free") continue;
        size_t sl = f.rfind('/');
        r += (k ? "<" : "") + fn + (sl == string::npos ? "" : "(" + f.substr(sl + 1) + ")");
        k++;
    }
    return r.empty() ? "?" : r;
}
vector<string> MemMon::leaks(size_t max)
{
    vector<string> r;
    std::map<u64, void *> by;
    for (auto &b : live) by[b.second.seq] = b.first;
    for (auto &b : by) {
        if (r.size() >= max) break;
        r.push_back(strf("%zu bytes from %s", live[b.second].size, stack_of(b.second).c_str()));
    }
    return r;
}

namespace rawmem {
vector<string> events;
bool watch = false;
static void note(const char *fn, void *ra)
{
    if (!watch) return;
    char buf[300] = "";
    __sanitizer_symbolize_pc((char *)ra - 1, "%f", buf, sizeof buf);
    // the library's own default allocator (used when the user supplies none)
    if (events.size() < 50) events.push_back(string(fn) + " called directly by " + buf);
}
} // namespace rawmem

// The objects of the library are rewritten (objcopy --redefine-sym) so that a
// direct use of the C allocator lands here.
extern "C" {
void *vh_raw_malloc(size_t n) { rawmem::note("malloc", __builtin_return_address(0)); return malloc(n); }
void *vh_raw_calloc(size_t a, size_t b) { rawmem::note("calloc", __builtin_return_address(0)); return calloc(a, b); }
void *vh_raw_realloc(void *p, size_t n) { rawmem::note("realloc", __builtin_return_address(0)); return realloc(p, n); }
void vh_raw_free(void *p) { if (p) rawmem::note("free", __builtin_return_address(0)); free(p); }
char *vh_raw_strdup(const char *s) { rawmem::note("strdup", __builtin_return_address(0)); return strdup(s); }
char *vh_raw_strndup(const char *s, size_t n) { rawmem::note("strndup", __builtin_return_address(0)); return strndup(s, n); }

// expat and zlib constructors: the library must pass its allocator
typedef struct { void *(*m)(size_t); void *(*r)(void *, size_t); void (*f)(void *); } xml_suite;
void *XML_ParserCreate(const char *enc)
{
    if (rawmem::watch) rawmem::events.push_back("expat parser created without the user's allocator");
    auto real = (void *(*)(const char *))dlsym(RTLD_NEXT, "XML_ParserCreate");
    return real(enc);
}
void *XML_ParserCreateNS(const char *enc, char sep)
{
    if (rawmem::watch) rawmem::events.push_back("expat parser created without the user's allocator");
    auto real = (void *(*)(const char *, char))dlsym(RTLD_NEXT, "XML_ParserCreateNS");
    return real(enc, sep);
}
void *XML_ParserCreate_MM(const char *enc, const xml_suite *ms, const char *sep)
{
    if (rawmem::watch && (!ms || ms->m == malloc || ms->f == free))
        rawmem::events.push_back("expat parser created without the user's allocator");
    static auto real = (void *(*)(const char *, const xml_suite *, const char *))dlsym(RTLD_NEXT, "XML_ParserCreate_MM");
    return real(enc, ms, sep);
}

#define Z(fn, params, args, strm)                                                                  \
    int fn params                                                                                  \
    {                                                                                              \
        if (rawmem::watch && !(strm)->zalloc)                                                      \
            rawmem::events.push_back("zlib stream created without the user's allocator");          \
        static auto real = (int(*) params)dlsym(RTLD_NEXT, #fn);                                   \
        return real args;                                                                          \
    }
Z(deflateInit_, (z_stream *s, int l, const char *v, int n), (s, l, v, n), s)
Z(deflateInit2_, (z_stream *s, int l, int m, int w, int ml, int st, const char *v, int n), (s, l, m, w, ml, st, v, n), s)
Z(inflateInit_, (z_stream *s, const char *v, int n), (s, v, n), s)
Z(inflateInit2_, (z_stream *s, int w, const char *v, int n), (s, w, v, n), s)
}
