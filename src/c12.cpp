// C12: every block of the context's allocator is returned exactly once and not
// before the last reference is gone.
#include "gen.h"
#include "smlab.h"
#include <algorithm>
extern "C" {
#include "hash.h"
}
extern "C" void *strophe_alloc(const xmpp_ctx_t *ctx, size_t size);
extern "C" void strophe_free(const xmpp_ctx_t *ctx, void *p);

namespace {
// ---------------------------------------------------------------- stanza programs
struct MObj {
    xmpp_stanza_t *p = nullptr;
    int ref = 0;                    // references, those of the parent included
    int type = 0;                   // 0 none, 1 tag, 2 text
    bool dead = false;
    bool named = false;
    string data;
    std::map<string, string> attrs;
    vector<MObj *> kids;
    MObj *parent = nullptr;
};
struct StanzaProg {
    Case &c;
    Rng &r;
    MemMon &mm;
    xmpp_ctx_t *ctx;
    std::deque<MObj> all;
    std::map<xmpp_stanza_t *, MObj *> by;
    vector<MObj *> held;            // one entry per reference of the user
    size_t base = 0;                // live blocks without any stanza
    u64 ops = 0, frees = 0;
    string hist;
    StanzaProg(Case &c, MemMon &mm, xmpp_ctx_t *ctx) : c(c), r(c.rng), mm(mm), ctx(ctx) { base = mm.live.size(); }
    void op(const string &s) { ops++; if (hist.size() < 6000) hist += s + "; "; }
    string id(MObj *m) { for (size_t i = 0; i < all.size(); i++) if (&all[i] == m) return strf("s%zu", i); return "?"; }
    void bad(const char *key, const string &m) { c.viol(key, m + " | program: " + hist); }
    // a freshly made object with everything below it
    MObj *adopt(xmpp_stanza_t *p, MObj *parent = nullptr)
    {
        if (!p) return nullptr;
        if (by.count(p)) { bad("aliased", "a new stanza is (or contains) an object that already exists: " + id(by[p])); return nullptr; }
        all.emplace_back();
        MObj *m = &all.back();
        m->p = p;
        by[p] = m;
        m->ref = 1;
        m->parent = parent;
        m->type = xmpp_stanza_is_tag(p) ? 1 : xmpp_stanza_is_text(p) ? 2 : 0;
        if (m->type == 1) {
            const char *n = xmpp_stanza_get_name(p);
            m->data = n ? n : "";
            m->named = n;
            int k = xmpp_stanza_get_attribute_count(p);
            vector<const char *> a(2 * k + 2);
            k = xmpp_stanza_get_attributes(p, a.data(), 2 * k + 2);
            for (int i = 0; i + 1 < k; i += 2) m->attrs[a[i]] = a[i + 1];
        } else if (m->type == 2) { const char *t = xmpp_stanza_get_text_ptr(p); m->data = t ? t : ""; }
        for (xmpp_stanza_t *k = xmpp_stanza_get_children(p); k; k = xmpp_stanza_get_next(k)) { MObj *x = adopt(k, m); if (!x) break; m->kids.push_back(x); }
        return m;
    }
    MObj *take(xmpp_stanza_t *p, const string &what)
    {
        MObj *m = adopt(p);
        op((m ? id(m) : string("null")) + "=" + what);
        if (m) held.push_back(m);
        return m;
    }
    bool inside(MObj *a, MObj *x) { for (MObj *q = x; q; q = q->parent) if (q == a) return true; return false; }
    void drop(MObj *m)
    {
        if (--m->ref) return;
        m->dead = true;
        by.erase(m->p);
        frees++;
        for (auto *k : m->kids) { k->parent = nullptr; drop(k); }
        m->kids.clear();
    }
    void release(size_t i)
    {
        MObj *m = held[i];
        held.erase(held.begin() + i);
        bool last = m->ref == 1;
        op("release " + id(m));
        int rc = xmpp_stanza_release(m->p);
        drop(m);
        if (!!rc != last) bad("release-result", strf("xmpp_stanza_release returned %d although the reference was %sthe last", rc, last ? "" : "not "));
        if (by.empty() && mm.live.size() != base) bad("stanza-leak", strf("%zu blocks are live although all stanzas were released; ", mm.live.size() - base) + (mm.leaks(999).empty() ? "" : mm.leaks(999).back()));
    }
    void verify(MObj *m, int depth = 0)
    {
        if (c.violated) return;
        stat_add("objects_verified");
        xmpp_stanza_t *p = m->p;
        if (xmpp_stanza_is_tag(p) != (m->type == 1) || xmpp_stanza_is_text(p) != (m->type == 2)) { bad("content", id(m) + " changed its type"); return; }
        if (m->type == 1) {
            const char *n = xmpp_stanza_get_name(p);
            if (m->data != (n ? n : "")) bad("content", id(m) + " has name " + vis(n ? n : "") + " instead of " + vis(m->data));
            if (xmpp_stanza_get_attribute_count(p) != (int)m->attrs.size()) bad("content", id(m) + strf(" has %d attributes instead of %zu", xmpp_stanza_get_attribute_count(p), m->attrs.size()));
            for (auto &a : m->attrs) {
                const char *v = xmpp_stanza_get_attribute(p, a.first.c_str());
                if (!v || a.second != v) bad("content", id(m) + " attribute " + vis(a.first) + " is " + vis(v ? v : "(none)") + " instead of " + vis(a.second));
            }
        } else if (m->type == 2) {
            const char *t = xmpp_stanza_get_text_ptr(p);
            if (m->data != (t ? t : "")) bad("content", id(m) + " has text " + vis(t ? t : "") + " instead of " + vis(m->data));
        }
        size_t i = 0;
        for (xmpp_stanza_t *k = xmpp_stanza_get_children(p); k; k = xmpp_stanza_get_next(k), i++) {
            if (i >= m->kids.size()) { bad("children", id(m) + strf(" has more than %zu children", m->kids.size())); return; }
            if (k != m->kids[i]->p) { bad("children", id(m) + strf(" child %zu is another object than ", i) + id(m->kids[i])); return; }
            verify(m->kids[i], depth + 1);
        }
        if (i != m->kids.size()) bad("children", id(m) + strf(" has %zu children instead of %zu", i, m->kids.size()));
        // a child whose parent was released is on its own
        if (depth == 0 && !m->parent && xmpp_stanza_get_next(p)) bad("children", id(m) + " has a sibling although it has no parent");
    }
    void verify_all() { std::set<MObj *> seen; for (auto *m : held) if (!m->dead && seen.insert(m).second) verify(m); }
    MObj *pick(int type = -1)
    {
        vector<MObj *> v;
        for (auto *m : held) if (type < 0 || m->type == type) v.push_back(m);
        return v.empty() ? nullptr : v[r.below(v.size())];
    }
    const char *key() { static const char *k[] = {"id", "to", "from", "type", "xmlns", "a", "b", "xml:lang"}; return k[r.below(8)]; }
    string val() { return r.onein(8) ? "" : gen_text(r, 1 + r.below(20), true, false); }
    void step()
    {
        MObj *m = pick();
        if (!m) { fresh(); return; }
        switch (r.below(24)) {
        case 0: case 1: fresh(); break;
        case 2: { op("clone " + id(m)); xmpp_stanza_t *q = xmpp_stanza_clone(m->p); if (q != m->p) bad("clone", "xmpp_stanza_clone returned another object"); m->ref++; held.push_back(m); stat_add("clones"); break; }
        case 3: { xmpp_stanza_t *q = xmpp_stanza_copy(m->p); MObj *n = take(q, "copy " + id(m)); if (n) { compare(m, n); stat_add("copies"); } break; }
        case 4: case 5: case 6: { // add a child
            MObj *ch = pick();
            if (!m || !ch || m->type != 1 || ch->parent || inside(ch, m) || m->kids.size() > 12) break;
            bool cl = r.chance(60);
            op("add_child" + string(cl ? " " : "_ex(own) ") + id(m) + " " + id(ch));
            int rc;
            if (cl && r.onein(2)) rc = xmpp_stanza_add_child(m->p, ch->p);
            else rc = xmpp_stanza_add_child_ex(m->p, ch->p, cl);
            if (rc) { bad("add-child", strf("returned %d", rc)); break; }
            m->kids.push_back(ch);
            ch->parent = m;
            if (cl) ch->ref++;
            else held.erase(std::find(held.begin(), held.end(), ch));
            stat_add("children_added");
            break;
        }
        case 7: case 8: case 9: release(r.below(held.size())); stat_add("releases"); break;
        case 10: { // a reference to something inside
            vector<MObj *> v;
            std::function<void(MObj *)> walk = [&](MObj *x) { for (auto *k : x->kids) { v.push_back(k); walk(k); } };
            walk(m);
            if (v.empty()) break;
            MObj *k = v[r.below(v.size())];
            op("hold inner " + id(k));
            xmpp_stanza_clone(k->p);
            k->ref++;
            held.push_back(k);
            stat_add("inner_references");
            break;
        }
        case 11: { string n = gen_name(r); op("set_name " + id(m)); int rc = xmpp_stanza_set_name(m->p, n.c_str()); if (m->type == 2) { if (rc != XMPP_EINVOP) bad("set_name", "accepted for a text"); } else { m->type = 1; m->data = n; m->named = true; } break; }
        case 12: { string t = val(); op("set_text " + id(m)); int rc = r.onein(2) ? xmpp_stanza_set_text(m->p, t.c_str()) : xmpp_stanza_set_text_with_size(m->p, t.data(), t.size()); if (m->type == 1) { if (rc != XMPP_EINVOP) bad("set_text", "accepted for a tag"); } else { m->type = 2; m->data = t; } break; }
        case 13: case 14: {
            string k = key(), v = val();
            op("set_attribute " + id(m) + " " + k);
            int rc;
            if (k == "id") rc = xmpp_stanza_set_id(m->p, v.c_str()); else if (k == "to") rc = xmpp_stanza_set_to(m->p, v.c_str()); else if (k == "xmlns") rc = xmpp_stanza_set_ns(m->p, v.c_str());
            else if (k == "from") rc = xmpp_stanza_set_from(m->p, v.c_str()); else if (k == "type") rc = xmpp_stanza_set_type(m->p, v.c_str()); else rc = xmpp_stanza_set_attribute(m->p, k.c_str(), v.c_str());
            if (m->type == 1) { if (rc) bad("set_attribute", strf("returned %d", rc)); m->attrs[k] = v; } else if (!rc) bad("set_attribute", "accepted for a text");
            break;
        }
        case 15: { string k = key(); op("del_attribute " + id(m) + " " + k); xmpp_stanza_del_attribute(m->p, k.c_str()); if (m->type == 1) m->attrs.erase(k); break; }
        case 16: { // values of the object itself, handed back
            op("self-assign " + id(m));
            stat_add("self_assignments");
            if (m->type == 2) { const char *t = xmpp_stanza_get_text_ptr(m->p); if (t) { size_t o = r.below(m->data.size() + 1); if (r.onein(2)) { xmpp_stanza_set_text(m->p, t + o); m->data = m->data.substr(o); } else { size_t n = r.below(m->data.size() - o + 1); xmpp_stanza_set_text_with_size(m->p, t + o, n); m->data = m->data.substr(o, n); } } }
            else if (m->type == 1) {
                if (r.onein(2) || m->attrs.empty()) xmpp_stanza_set_name(m->p, xmpp_stanza_get_name(m->p));
                else { auto it = m->attrs.begin(); std::advance(it, r.below(m->attrs.size())); string to = r.onein(2) ? it->first : string(key()); string v = it->second; xmpp_stanza_set_attribute(m->p, to.c_str(), xmpp_stanza_get_attribute(m->p, it->first.c_str())); m->attrs[to] = v; }
            }
            break;
        }
        case 17: { // strings made from a stanza
            op("strings of " + id(m));
            char *b = nullptr; size_t n = 0;
            if (xmpp_stanza_to_text(m->p, &b, &n) == XMPP_EOK) { if (strlen(b) != n) bad("to_text", "length"); xmpp_free(ctx, b); }
            else if (b) bad("to_text", "a buffer although it failed");
            char *t = xmpp_stanza_get_text(m->p);
            if (t) xmpp_free(ctx, t);
            if (m->type == 1) { t = xmpp_message_get_body(m->p); if (t) xmpp_free(ctx, t); }
            stat_add("strings_freed");
            break;
        }
        case 18: if (m->type == 1) take(xmpp_stanza_reply(m->p), "reply " + id(m)); break;
        case 19: if (m->type == 1) take(xmpp_stanza_reply_error(m->p, r.onein(2) ? "cancel" : "modify", "service-unavailable", r.onein(2) ? nullptr : val().c_str()), "reply_error " + id(m)); break;
        case 20: { // body
            if (m->type != 1) break;
            string t = val();
            op("set_body " + id(m));
            size_t kids = m->kids.size();
            if (kids > 12) break;
            int rc = xmpp_message_set_body(m->p, t.c_str());
            if (rc == XMPP_EOK) {
                xmpp_stanza_t *k = xmpp_stanza_get_children(m->p);
                for (size_t i = 0; i < kids && k; i++) k = xmpp_stanza_get_next(k);
                MObj *x = k ? adopt(k, m) : nullptr;
                if (!x) bad("set_body", "no body"); else m->kids.push_back(x);
            }
            break;
        }
        case 21: if (m->type == 1) { // lookups change nothing
            op("lookup " + id(m));
            xmpp_stanza_get_child_by_name(m->p, "body");
            xmpp_stanza_get_child_by_ns(m->p, "urn:x");
            xmpp_stanza_get_child_by_name_and_ns(m->p, "body", "urn:x");
            if (m->named && r.onein(2)) xmpp_stanza_get_child_by_path(m->p, m->data.c_str(), "body[@ns='urn:x']", nullptr);
            xmpp_stanza_get_child_by_path(m->p, "nope", "body", nullptr);
            break;
        } else break;
        default: verify(m); break;
        }
    }
    void compare(MObj *a, MObj *b)
    {
        if (a->type != b->type || a->data != b->data || a->attrs != b->attrs || a->kids.size() != b->kids.size()) { bad("copy", "the copy " + id(b) + " differs from " + id(a)); return; }
        for (size_t i = 0; i < a->kids.size(); i++) compare(a->kids[i], b->kids[i]);
    }
    void fresh()
    {
        switch (r.below(9)) {
        case 0: take(xmpp_stanza_new(ctx), "new"); break;
        case 1: { MObj *m = take(xmpp_stanza_new(ctx), "new tag"); string n = gen_name(r); xmpp_stanza_set_name(m->p, n.c_str()); m->type = 1; m->data = n; m->named = true; break; }
        case 2: { MObj *m = take(xmpp_stanza_new(ctx), "new text"); string n = val(); xmpp_stanza_set_text(m->p, n.c_str()); m->type = 2; m->data = n; break; }
        case 3: take(xmpp_message_new(ctx, r.onein(3) ? nullptr : "chat", r.onein(3) ? nullptr : "bob@example.org", r.onein(3) ? nullptr : val().c_str()), "message"); break;
        case 4: take(xmpp_iq_new(ctx, r.onein(2) ? "get" : "set", r.onein(3) ? nullptr : val().c_str()), "iq"); break;
        case 5: take(xmpp_presence_new(ctx), "presence"); break;
        case 6: take(xmpp_error_new(ctx, (xmpp_error_type_t)r.below(25), r.onein(2) ? nullptr : val().c_str()), "error"); break;
        case 7: { // parsed
            GenOpt o; o.depth = 3; o.budget = 12;
            Node n = gen_node(r, o);
            string x;
            write_xml(r, to_elem(n, ""), {{"", ""}}, x);
            bool broken = r.onein(4);
            if (broken) x = corrupt_bytes(r, x);
            take(xmpp_stanza_new_from_string(ctx, x.c_str()), "parse");
            stat_add("parsed");
            break;
        }
        case 8: { GenOpt o; o.depth = 3; o.budget = 12; Node n = gen_node(r, o); take(build_stanza(r, ctx, n), "build"); break; }
        }
    }
    void run(int n)
    {
        for (int i = 0; i < n && !c.violated; i++) { step(); if (held.size() > 40) release(r.below(held.size())); if (r.onein(12)) verify_all(); }
        while (!held.empty() && !c.violated) { release(r.below(held.size())); if (r.onein(4)) verify_all(); }
        stat_add("stanza_ops", ops);
        stat_add("stanzas_freed", frees);
        if (!c.violated && !by.empty()) bad("model", "internal: objects are alive without references");
    }
};

// ---------------------------------------------------------------- the hash table below the attributes and handlers
struct HashProg {
    static std::map<void *, int> &freed() { static std::map<void *, int> f; return f; }
    static void on_free(const xmpp_ctx_t *ctx, void *p) { freed()[p]++; strophe_free(ctx, p); }
    static void run(Case &c, MemMon &mm, xmpp_ctx_t *ctx)
    {
        Rng &r = c.rng;
        size_t base = mm.live.size();
        bool own = r.chance(70);
        static char dummy[64];
        struct T { hash_t *h; int refs; std::map<string, void *> m; };
        int buckets = 1 + (int)r.below(r.onein(3) ? 40 : 8), keys = r.onein(3) ? 60 : 12;
        T t{hash_new(ctx, buckets, own ? on_free : nullptr), 1, {}};
        freed().clear();
        std::set<void *> dead;
        vector<std::pair<hash_iterator_t *, std::set<string>>> its;
        int n = 5 + (int)r.below(keys > 12 ? 200 : 60);
        string hist;
        auto bad = [&](const char *k, const string &m) { c.viol(k, m + " | " + hist); };
        for (int i = 0; i < n && !c.violated; i++) {
            string key = (r.onein(4) ? string(65, 'k') : string("k")) + std::to_string(r.below(keys)) + (r.onein(10) ? string(r.below(200), 'x') : "");
            switch (r.below(8)) {
            case 0: case 1: case 2: {
                if (!its.empty()) break;
                void *v = own ? strophe_alloc(ctx, 8) : (void *)&dummy[r.below(64)];
                freed().erase(v);
                dead.erase(v);
                hist += "add " + key + "; ";
                if (hash_add(t.h, key.c_str(), v)) { bad("hash-add", "failed"); break; }
                auto it = t.m.find(key);
                if (it != t.m.end()) { if (own) dead.insert(it->second); it->second = v; } else t.m[key] = v;
                break;
            }
            case 3: {
                if (!its.empty()) break;
                hist += "drop " + key + "; ";
                int rc = hash_drop(t.h, key.c_str());
                auto it = t.m.find(key);
                if ((rc == 0) != (it != t.m.end())) bad("hash-drop", strf("returned %d", rc));
                if (it != t.m.end()) { if (own) dead.insert(it->second); t.m.erase(it); }
                break;
            }
            case 4: { auto it = t.m.find(key); void *g = hash_get(t.h, key.c_str()); if (g != (it == t.m.end() ? nullptr : it->second)) bad("hash-get", "wrong value for " + key); break; }
            case 5: if (t.refs < 4) { hist += "clone; "; hash_clone(t.h); t.refs++; } break;
            case 6: if (t.refs > 1) { hist += "release; "; hash_release(t.h); t.refs--; } break;
            case 7: if (its.size() < 3) { hist += "iter; "; its.push_back({hash_iter_new(t.h), {}}); } else { size_t x = r.below(its.size()); hist += "iter-release; "; hash_iter_release(its[x].first); its.erase(its.begin() + x); } break;
            }
            if (!its.empty() && r.onein(3)) { auto &it = its[r.below(its.size())]; const char *k = hash_iter_next(it.first); if (k) { if (!t.m.count(k) || !it.second.insert(k).second) bad("hash-iter", "key " + string(k)); } else if (it.second.size() != t.m.size()) bad("hash-iter", "keys left out"); }
            if (r.onein(keys > 12 ? 20 : 6)) {
                // every key, once
                hash_iterator_t *x = hash_iter_new(t.h);
                std::set<string> seen;
                while (const char *k = hash_iter_next(x)) if (!t.m.count(k) || !seen.insert(k).second) { bad("hash-iter", "key " + string(k)); break; }
                if (seen.size() != t.m.size()) bad("hash-iter", strf("%zu of %zu keys", seen.size(), t.m.size()));
                hash_iter_release(x);
            }
            if (r.onein(6)) while (!its.empty()) { hash_iter_release(its.back().first); its.pop_back(); }
            if (hash_num_keys(t.h) != (int)t.m.size()) bad("hash-count", strf("%d keys instead of %zu", hash_num_keys(t.h), t.m.size()));
            for (auto *d : dead) if (freed()[d] != 1) { bad("hash-value-free", strf("a replaced or dropped value was freed %d times", freed()[d])); break; }
            dead.clear();
            for (auto &x : t.m) if (own && freed().count(x.second)) bad("hash-value-free", "the value of " + x.first + " was freed while in the table");
        }
        // the last reference may be that of an iterator
        while (t.refs-- > 0) hash_release(t.h);
        if (!its.empty()) {
            for (auto &x : t.m) if (own && freed().count(x.second)) bad("hash-value-free", "the value of " + x.first + " was freed while an iterator holds the table");
            while (!c.violated && !its.empty()) { while (const char *k = hash_iter_next(its.back().first)) if (!t.m.count(k)) { bad("hash-iter", k); break; } hash_iter_release(its.back().first); its.pop_back(); }
        }
        for (auto &x : t.m) if (own && freed()[x.second] != 1) bad("hash-value-free", strf("the value of %s was freed %d times", x.first.c_str(), freed()[x.second]));
        if (mm.live.size() != base) bad("hash-leak", mm.leaks(999).back());
        stat_add("hash_programs");
    }
};

// ---------------------------------------------------------------- everything that returns a string or a small object
void string_prog(Case &c, MemMon &mm, xmpp_ctx_t *ctx)
{
    Rng &r = c.rng;
    size_t base = mm.live.size();
    vector<char *> hold;
    vector<std::pair<int, void *>> objs;
    auto keep = [&](char *p, const char *what) {
        if (!p) return;
        stat_add("strings_freed");
        if (!mm.live.count(p)) { c.viol("foreign-block", string(what) + " returned a block that does not come from the context's allocator"); return; }
        hold.push_back(p);
    };
    string log;
    for (int i = 0, n = 10 + (int)r.below(40); i < n && !c.violated; i++) {
        string s = r.onein(3) ? r.bytes(r.below(300)) : gen_text(r, r.below(40), false);
        string a = s.substr(0, s.find('\0'));
        int what = (int)r.below(16);
        log += strf("%d ", what);
        switch (what) {
        case 0: keep(xmpp_base64_encode(ctx, (const u8 *)s.data(), s.size()), "xmpp_base64_encode"); break;
        case 1: { string e = r.onein(3) ? a : b64e(s); keep(xmpp_base64_decode_str(ctx, e.data(), e.size()), "xmpp_base64_decode_str"); break; }
        case 2: { u8 *o = (u8 *)1; size_t l = 7; string e = r.onein(3) ? a : b64e(s); if (r.onein(4) && !e.empty()) e[r.below(e.size())] ^= 1 << r.below(8); xmpp_base64_decode_bin(ctx, e.data(), e.size(), &o, &l); if (o) keep((char *)o, "xmpp_base64_decode_bin"); break; }
        case 3: keep(xmpp_sha1(ctx, (const u8 *)s.data(), s.size()), "xmpp_sha1"); break;
        case 4: keep(xmpp_uuid_gen(ctx), "xmpp_uuid_gen"); break;
        case 5: keep(xmpp_jid_new(ctx, r.onein(3) ? nullptr : "node", "dom.example", r.onein(3) ? nullptr : a.c_str()), "xmpp_jid_new"); break;
        case 6: keep(xmpp_jid_bare(ctx, a.c_str()), "xmpp_jid_bare"); break;
        case 7: keep(xmpp_jid_node(ctx, a.c_str()), "xmpp_jid_node"); break;
        case 8: keep(xmpp_jid_domain(ctx, a.c_str()), "xmpp_jid_domain"); break;
        case 9: keep(xmpp_jid_resource(ctx, a.c_str()), "xmpp_jid_resource"); break;
        case 10: keep(xmpp_strdup(ctx, a.c_str()), "xmpp_strdup"); break;
        case 11: keep(xmpp_strndup(ctx, a.c_str(), r.below(30)), "xmpp_strndup"); break;
        case 12: { xmpp_sha1_t *h = xmpp_sha1_new(ctx); if (!mm.live.count(h)) c.viol("foreign-block", "xmpp_sha1_new"); xmpp_sha1_update(h, (const u8 *)s.data(), s.size()); objs.push_back({0, h}); break; }
        case 13: if (!objs.empty() && objs.back().first == 0) { xmpp_sha1_final((xmpp_sha1_t *)objs.back().second); keep(xmpp_sha1_to_string_alloc((xmpp_sha1_t *)objs.back().second), "xmpp_sha1_to_string_alloc"); objs.push_back(objs[0]); objs.pop_back(); } break;
        case 14: { xmpp_rand_t *g = xmpp_rand_new(ctx); u8 b[70]; char t[80]; xmpp_rand(g); xmpp_rand_bytes(g, b, r.below(70)); xmpp_rand_nonce(g, t, r.below(80)); if (r.onein(2) || !mm.live.count(g)) xmpp_rand_free(ctx, g); else objs.push_back({1, g}); break; }
        case 15: if (!hold.empty()) { size_t x = r.below(hold.size()); size_t l = strlen(hold[x]); char *q = (char *)xmpp_realloc(ctx, hold[x], l + 1 + r.below(500)); if (!q || !mm.live.count(q)) c.viol("foreign-block", "xmpp_realloc"); else hold[x] = q; } break;
        }
        if (!hold.empty() && r.onein(3)) { size_t x = r.below(hold.size()); xmpp_free(ctx, hold[x]); hold.erase(hold.begin() + x); }
        if (!objs.empty() && r.onein(3)) { size_t x = r.below(objs.size()); if (objs[x].first) xmpp_rand_free(ctx, (xmpp_rand_t *)objs[x].second); else xmpp_sha1_free((xmpp_sha1_t *)objs[x].second); objs.erase(objs.begin() + x); }
        if (mm.live.size() != base + hold.size() + objs.size()) c.viol("block-count", strf("%zu blocks are live, the user holds %zu; calls: ", mm.live.size() - base, hold.size() + objs.size()) + log + " | newest: " + mm.leaks(9999).back());
    }
    for (auto *p : hold) xmpp_free(ctx, p);
    for (auto &o : objs) if (o.first) xmpp_rand_free(ctx, (xmpp_rand_t *)o.second); else xmpp_sha1_free((xmpp_sha1_t *)o.second);
    if (mm.live.size() != base && !c.violated) c.viol("block-count", "blocks left: " + mm.leaks(9999).back());
    stat_add("string_programs");
}

// ---------------------------------------------------------------- connections
struct ConnProg {
    Case &c;
    Rng &r;
    World w;
    size_t base = 0;
    Scen s;
    struct Kept { xmpp_stanza_t *p; Elem e; };
    vector<Kept> kept;
    vector<xmpp_tlscert_t *> certs;
    vector<std::pair<int, xmpp_conn_t *>> refs;     // additional references
    vector<xmpp_sm_state_t *> states;
    vector<string> blobs;
    vector<char *> strs;
    int handlers = 0;
    static ScenOpt opt(Case &c)
    {
        ScenOpt o;
        o.corrupt = c.rng.onein(3);
        o.hostile_pct = c.rng.onein(2) ? 70 : 15;
        o.mangle_pct = c.rng.onein(2) ? 25 : 8;
        o.sm_pct = c.k % 2 ? 90 : 50;
        o.burst_pct = 25;
        return o;
    }
    explicit ConnProg(Case &c) : c(c), r(c.rng), w(c), s(w, opt(c)) {}
    static int on_stanza(xmpp_conn_t *, xmpp_stanza_t *st, void *ud)
    {
        ConnProg &p = *(ConnProg *)ud;
        if (p.kept.size() < 40 && p.r.chance(50)) {
            // the stanza itself or something in it outlives the callback
            xmpp_stanza_t *x = st;
            while (p.r.onein(2)) {
                xmpp_stanza_t *k = xmpp_stanza_get_children(x);
                if (!k) break;
                while (p.r.onein(2) && xmpp_stanza_get_next(k)) k = xmpp_stanza_get_next(k);
                x = k;
            }
            p.kept.push_back({xmpp_stanza_clone(x), read_stanza(x)});
            stat_add("received_kept");
        }
        if (p.r.onein(6)) {
            xmpp_stanza_t *a = p.r.onein(2) ? xmpp_stanza_reply(st) : xmpp_stanza_reply_error(st, "cancel", "bad-request", "x");
            if (a) { xmpp_send(p.s.k->conn, a); xmpp_stanza_release(a); stat_add("replies"); }
        }
        if (p.r.onein(25)) return 0;
        return 1;
    }
    static int on_timed(xmpp_conn_t *, void *ud) { return ((ConnProg *)ud)->r.chance(70); }
    static int on_gtimed(xmpp_ctx_t *, void *ud) { return ((ConnProg *)ud)->r.chance(70); }
    static void on_sm(xmpp_conn_t *, void *ud, const unsigned char *b, size_t n) { ConnProg &p = *(ConnProg *)ud; if (p.blobs.size() > 6) p.blobs.erase(p.blobs.begin() + p.r.below(p.blobs.size())); p.blobs.push_back(string((const char *)b, n)); }
    static int certfail(const xmpp_tlscert_t *t, const char *) { read_cert(t); return hash_str(xmpp_tlscert_get_pem(t) ? "1" : "0") & 1; }
    static int on_pass(char *pw, size_t n, xmpp_conn_t *q, void *ud)
    {
        ConnProg &p = *(ConnProg *)ud;
        stat_add("password_callbacks");
        if (xmpp_conn_get_keyfile(q)) (void)strlen(xmpp_conn_get_keyfile(q));
        switch (p.r.below(8)) {
        case 0: return -1;
        case 1: memset(pw, 'x', n - 1); pw[n - 1] = 0; return (int)n - 1;
        case 2: memset(pw, 'x', n - 1); pw[n - 1] = 0; return (int)n;
        case 3: snprintf(pw, n, "wrong"); return 5;
        default: snprintf(pw, n, "pw"); return 2;
        }
    }
    static int on_sockopt(xmpp_conn_t *k, void *s) { return xmpp_sockopt_cb_keepalive(k, s), 0; }
    static void read_cert(const xmpp_tlscert_t *t)
    {
        if (xmpp_tlscert_get_pem(t)) (void)strlen(xmpp_tlscert_get_pem(t));
        for (int i = 0; i < XMPP_CERT_ELEMENT_MAX; i++) if (const char *x = xmpp_tlscert_get_string(t, (xmpp_cert_element_t)i)) (void)hash_str(x);
        for (size_t i = 0; i < 8; i++) { const char *x = xmpp_tlscert_get_dnsname(t, i); if (!x) break; (void)hash_str(x); }
    }
    void check_kept()
    {
        for (auto &k : kept) {
            Elem e = read_stanza(k.p);
            stat_add("objects_verified");
            if (e.canon() != k.e.canon()) { c.viol("content", "a received stanza, held by the user, changed from " + vis(k.e.canon()) + " to " + vis(e.canon())); return; }
            if (xmpp_stanza_get_context(k.p) != w.ctx) c.viol("content", "the context of a held stanza changed");
        }
    }
    // something the user may do at any time
    void poke()
    {
        xmpp_conn_t *k = s.k->conn;
        if (!k) return;
        stat_add("pokes");
        switch (r.below(27)) {
        case 0: if (refs.size() < 6) { xmpp_conn_t *q = xmpp_conn_clone(k); if (q != k) c.viol("clone", "xmpp_conn_clone returned another object"); refs.push_back({0, q}); stat_add("conn_clones"); } break;
        case 1: if (!refs.empty()) drop_ref(r.below(refs.size())); break;
        case 2: if (r.onein(2)) xmpp_conn_set_jid(k, r.onein(2) ? "someone@else.example.org/x" : ""); xmpp_conn_set_jid(k, string(s.k->jid).c_str()); break;
        case 3: { string p = s.cur && !s.cur->pass_null ? s.cur->pass : s.k->pass; if (r.onein(2)) xmpp_conn_set_pass(k, string(r.below(40), 'p').c_str()); xmpp_conn_set_pass(k, p.c_str()); break; }
        case 4: // its own values, handed back
            stat_add("self_assignments");
            if (xmpp_conn_get_jid(k)) xmpp_conn_set_jid(k, xmpp_conn_get_jid(k));
            if (xmpp_conn_get_pass(k)) xmpp_conn_set_pass(k, xmpp_conn_get_pass(k));
            break;
        case 5: case 6: // set again, also to other values; what works goes last
            stat_add("replaced_anchors");
            for (int i = (int)r.below(3); i >= 0; i--) {
                string f = i ? string(1 + r.below(60), 'f') + ".missing" : ca_file(), d = i ? string(1 + r.below(60), 'd') + ".missing" : ca_path_dir();
                if (r.onein(2)) { xmpp_conn_set_cafile(k, i ? other_ca_file().c_str() : f.c_str()); xmpp_conn_set_cafile(k, f.c_str()); }
                if (r.onein(2)) xmpp_conn_set_capath(k, d.c_str());
                if (!i && r.onein(2)) { xmpp_conn_set_cafile(k, f.c_str()); xmpp_conn_set_capath(k, d.c_str()); }
                if (!i) { xmpp_conn_set_cafile(k, f.c_str()); xmpp_conn_set_capath(k, d.c_str()); }
            }
            break;
        case 7: xmpp_conn_set_certfail_handler(k, r.onein(2) ? certfail : nullptr); break;
        case 8: {
            xmpp_tlscert_t *t = xmpp_conn_get_peer_cert(k);
            if (t) { stat_add("peer_certs"); read_cert(t); if (certs.size() < 5 && r.onein(2)) certs.push_back(t); else xmpp_tlscert_free(t); }
            break;
        }
        case 9: if (xmpp_conn_get_keyfile(k)) { unsigned n = xmpp_conn_cert_xmppaddr_num(k); for (unsigned i = 0; i <= n; i++) { char *a = xmpp_conn_cert_xmppaddr(k, i); if (a) { keep(a, "xmpp_conn_cert_xmppaddr"); } } break; }
        case 10: { char *d = xmpp_conn_send_queue_drop_element(k, r.onein(2) ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST); if (d) { stat_add("queue_elements_dropped"); keep(d, "xmpp_conn_send_queue_drop_element"); } break; }
        case 11: for (int i = 0, n = 1 + (int)r.below(4); i < n; i++) { string id = strf("USER-k%d", handlers++); xmpp_id_handler_add(k, on_stanza, id.c_str(), this); if (r.onein(3)) xmpp_id_handler_delete(k, on_stanza, id.c_str()); } break;
        case 12: xmpp_handler_add(k, on_stanza, r.onein(2) ? nullptr : "urn:x", r.onein(3) ? nullptr : "message", r.onein(3) ? nullptr : "chat", this); break;
        case 13: xmpp_handler_delete(k, on_stanza); break;
        case 14: xmpp_timed_handler_add(k, on_timed, r.below(200), this); if (r.onein(3)) xmpp_timed_handler_delete(k, on_timed); break;
        case 15: xmpp_global_timed_handler_add(w.ctx, on_gtimed, r.below(200), this); if (r.onein(3)) xmpp_global_timed_handler_delete(w.ctx, on_gtimed); break;
        case 16: xmpp_send_raw_string(k, "<message id='USER-%llu'>%s</message>", (unsigned long long)++s.user_sent, string(r.onein(4) ? r.below(3000) : 5, 'x').c_str()); break;
        case 17: s.user_send(r.onein(3)); break;
        case 18: if (r.onein(4)) xmpp_send_error(k, (xmpp_error_type_t)r.below(25), r.onein(2) ? nullptr : (char *)"text"); break;
        case 19: if (r.onein(3)) xmpp_conn_open_stream_default(k); else if (r.onein(2)) { char a0[] = "to", a1[] = "x", *at[] = {a0, a1}; if (!s.k->open) xmpp_conn_open_stream(k, at, 2); } break;
        case 20: { // the state is only handed out when disconnected
            if (!s.k->open) break;
            xmpp_sm_state_t *t = xmpp_conn_get_sm_state(k);
            if (t) { c.viol("sm-state-of-open-connection", "xmpp_conn_get_sm_state returned the state of an open connection"); states.push_back(t); }
            break;
        }
        case 21: if (s.k->open && !states.empty()) { if (xmpp_conn_set_sm_state(k, states.back()) == XMPP_EOK) { c.viol("sm-state-of-open-connection", "xmpp_conn_set_sm_state replaced the state of an open connection"); states.pop_back(); } } break;
        case 22: if (s.k->open) { if (xmpp_connect_client(k, "other.example.org", 0, nullptr, nullptr) == XMPP_EOK) c.viol("second-connect", "accepted while open"); stat_add("refused_connects"); } break;
        case 23: xmpp_conn_set_sm_callback(k, r.chance(80) ? on_sm : nullptr, this); break;
        case 24: { ClientCert cc = client_cert({"x@example.org"}); if (r.onein(3)) { if (xmpp_conn_get_keyfile(k)) xmpp_conn_set_client_cert(k, cc.cert.c_str(), xmpp_conn_get_keyfile(k)); } else if (s.cur && s.cur->cert) xmpp_conn_set_client_cert(k, cc.cert.c_str(), cc.key.c_str()); break; }
        case 25: xmpp_conn_set_password_callback(k, on_pass, this); xmpp_conn_set_password_retries(k, (unsigned)r.below(4)); xmpp_conn_set_sockopt_callback(k, r.onein(2) || s.k->open ? on_sockopt : nullptr); break;
        case 26: {
            // getters have to keep working
            const char *x = xmpp_conn_get_jid(k); if (x) (void)hash_str(x);
            x = xmpp_conn_get_bound_jid(k); if (x) (void)hash_str(x);
            x = xmpp_conn_get_pass(k); if (x) (void)hash_str(x);
            (void)xmpp_conn_send_queue_len(k);
            if (xmpp_conn_get_context(k) != w.ctx) c.viol("content", "the context of a connection changed");
            break;
        }
        }
    }
    void keep(char *p, const char *what)
    {
        if (!w.mm.live.count(p)) { c.viol("foreign-block", string(what) + " returned a block that does not come from the context's allocator"); return; }
        if (strs.size() < 10 && r.onein(2)) strs.push_back(p); else xmpp_free(w.ctx, p);
    }
    void drop_ref(size_t i)
    {
        xmpp_conn_t *q = refs[i].second;
        refs.erase(refs.begin() + i);
        if (xmpp_conn_release(q)) c.viol("conn-release", "xmpp_conn_release reports the last reference although there are others");
    }
    void hand_over()
    {
        // while disconnected
        Client *k = s.k;
        if (k->open || !k->conn) return;
        if (r.chance(35)) {
            xmpp_sm_state_t *t = xmpp_conn_get_sm_state(k->conn);
            if (t) { states.push_back(t); stat_add("states_taken"); }
            if (xmpp_conn_get_sm_state(k->conn)) c.viol("sm-state-twice", "the same state was handed out twice");
            if (t && !blobs.empty() && r.onein(3)) { // the same connection goes on from a persisted state
                string b = blobs[r.below(blobs.size())];
                bool left = xmpp_conn_send_queue_len(k->conn) > 0;
                if (!b.empty() && xmpp_conn_restore_sm_state(k->conn, (const unsigned char *)b.data(), b.size()) == XMPP_EOK) stat_add(left ? "blobs_restored_over_leftovers" : "blobs_restored");
            }
        }
        if (r.onein(3)) {
            // a new connection goes on
            Client *n = &w.client();
            if (r.chance(80)) xmpp_conn_set_cafile(n->conn, ca_file().c_str());
            stat_add("successors");
            if (r.onein(2)) { refs.erase(std::remove_if(refs.begin(), refs.end(), [&](auto &q) { if (q.second != k->conn) return false; if (xmpp_conn_release(q.second)) c.viol("conn-release", "xmpp_conn_release reports the last reference although there are others"); return true; }), refs.end()); k->release(); stat_add("released_early"); }
            s.k = n;
            if (!s.cfgs.empty()) n->set(s.cfgs.back().jid, s.cfgs.back().pass, 0);
            if (r.onein(2)) xmpp_conn_set_sm_callback(n->conn, on_sm, this);
            k = n;
        }
        if (!states.empty() && r.chance(60)) {
            size_t i = r.below(states.size());
            int rc = xmpp_conn_set_sm_state(k->conn, states[i]);
            if (rc == XMPP_EOK) { states.erase(states.begin() + i); stat_add("states_handed_over"); }
            else stat_add("states_refused");
        }
        if (!states.empty() && r.onein(3)) { size_t i = r.below(states.size()); xmpp_free_sm_state(states[i]); states.erase(states.begin() + i); stat_add("states_freed"); }
        if (!blobs.empty() && r.onein(3)) {
            string b = blobs[r.below(blobs.size())];
            if (b.empty()) return;
            if (r.onein(3)) { if (r.onein(2)) b.resize(r.below(b.size() + 1)); else b[r.below(b.size())] = (char)r.below(256); }
            u8 *m = (u8 *)malloc(b.size() + 1);
            memcpy(m, b.data(), b.size());
            int rc = xmpp_conn_restore_sm_state(k->conn, m, b.size());
            free(m);
            stat_add(rc == XMPP_EOK ? "blobs_restored" : "blobs_refused");
        }
    }
    static size_t n_live(World &w) { return w.mm.live.size(); }
    void run()
    {
        w.report = false;
        auto on = [&](Client *k) {
            if (r.chance(70)) xmpp_conn_set_sm_callback(k->conn, on_sm, this);
            if (r.chance(85)) xmpp_handler_add(k->conn, on_stanza, nullptr, nullptr, nullptr, this);
        };
        on(s.k);
        int rounds = 1 + (int)r.below(4);
        for (int i = 0; i < rounds && !c.violated; i++) {
            ConnCfg &g = s.next_cfg();
            if (r.chance(25)) s.make_good(g);
            net_policy(w, r.chance(60) ? NET_PLAIN : (int)r.below(4), r.chance(60) ? NET_PLAIN : (int)r.below(4));
            if (r.onein(5)) { // refused or late endpoints
                int kind = (int)r.below(3);
                sim::policy.endpoint = [kind](const string &, int) { return kind == 0 ? sim::Endpoint{sim::REFUSE_NOW, 0} : kind == 1 ? sim::Endpoint{sim::REFUSE_LATER, 200} : sim::Endpoint{sim::HANG, 0}; };
            } else sim::policy.endpoint = nullptr;
            if (r.onein(3)) poke();
            if (g.cert && r.onein(2)) {
                // a key that is protected by a password
                ClientCert cc = client_cert({"alice@example.org"}, "pw");
                if (r.onein(2)) xmpp_conn_set_client_cert(s.k->conn, cc.cert.c_str(), cc.key.c_str());
                else xmpp_conn_set_client_cert(s.k->conn, cc.p12.c_str(), nullptr);
                xmpp_conn_set_password_callback(s.k->conn, on_pass, this);
                xmpp_conn_set_password_retries(s.k->conn, (unsigned)r.below(4));
                stat_add("protected_keys");
            }
            bool rawc = !g.component && r.onein(7);
            s.k->on_event = nullptr;
            int rc;
            if (rawc) {
                // TLS and the stream are the user's business
                s.hooks();
                int way = (int)r.below(5);
                Client *q = s.k;
                s.k->on_event = [this, q, way](int ev) {
                    if (ev == XMPP_CONN_RAW_CONNECT) {
                        if (way & 1) xmpp_conn_open_stream_default(q->conn);
                        else if (way == 2) { char a0[] = "to", a1[] = "example.org", a2[] = "xmlns", a3[] = "jabber:client", a4[] = "xmlns:stream", a5[] = NS_STREAM, *at[] = {a0, a1, a2, a3, a4, a5}; xmpp_conn_open_stream(q->conn, at, 6); }
                        else if (way == 4) xmpp_conn_tls_start(q->conn);
                    }
                };
                rc = s.k->connect_raw(r.chance(80) ? "srv.example.net" : nullptr);
                stat_add("raw_connects");
            } else rc = s.start();
            stat_add("connects");
            if (rc != XMPP_EOK) { stat_add("connects_refused"); continue; }
            int how = (int)r.below(10);
            int iters = how < 3 ? (int)r.below(60) : 300;   // may be abandoned at any stage
            bool was = false;
            for (int j = 0; j < iters && s.k->open && !c.violated; j++) {
                if (s.k->up && !was) { was = true; if (j + 80 < iters) iters = j + 80; }
                if (r.onein(12)) poke();
                if (r.onein(30)) s.user_send();
                if (s.k->up && r.onein(8)) if (XPeer *p = w.peer()) p->tx("inject", "<message from='bob@example.org/x' id='inj' type='chat'><body>hello<b>x</b></body><x xmlns='urn:x'><y a='1'/></x></message>");
                if (s.k->up && r.onein(25)) if (XPeer *p = w.peer()) p->tx("inject", r.onein(2) ? "<r xmlns='" NS_SM "'/>" : "<iq type='get' id='q' from='example.org'><q xmlns='urn:q'/></iq>");
                w.once(1);
                if (r.onein(20)) check_kept();
            }
            if (was) stat_add("sessions_up");
            stat_distinct("final_states", hash_str(strf("%d/%d/%d", how < 3, (int)was, (int)s.k->open)));
            if (s.k->open) {
                if (how == 0 || r.onein(5)) { // released without a disconnect
                    stat_add("released_while_open");
                    for (size_t q = refs.size(); q-- > 0;) if (refs[q].second == s.k->conn) { drop_ref(q); if (!s.k->open) c.viol("conn-release", "releasing one of several references ended the connection"); }
                    s.k->release();
                    s.k = &w.client();
                    if (r.chance(80)) xmpp_conn_set_cafile(s.k->conn, ca_file().c_str());
                    if (!s.cfgs.empty()) s.k->set(s.cfgs.back().jid, s.cfgs.back().pass, 0);
                    on(s.k);
                } else if (how == 1) { // the reference stays, the connection stays open until the end
                    s.k = &w.client();
                    if (r.chance(80)) xmpp_conn_set_cafile(s.k->conn, ca_file().c_str());
                    if (!s.cfgs.empty()) s.k->set(s.cfgs.back().jid, s.cfgs.back().pass, 0);
                    on(s.k);
                } else {
                    XPeer *p = w.peer();
                    if (p && r.onein(4)) { for (int j = (int)r.below(4); j >= 0; j--) s.user_send(); p->rst(); w.until_ms(3000, [&] { return !s.k->open; }); stat_add("broken_with_queue"); } // with something in the queue
                    if (s.k->open) s.end_attempt();
                    if (s.k->open) { w.until_ms(10000, [&] { return !s.k->open; }); }
                }
            }
            if (!s.k->open) { for (int j = (int)r.below(3); j > 0; j--) poke(); hand_over(); }
            check_kept();
        }
        for (auto &k : w.clients) k->on_event = nullptr;
        finish();
    }
    void finish()
    {
        // everything is given back, in any order
        vector<std::function<void()>> f;
        for (auto &k : kept) f.push_back([&k] { xmpp_stanza_release(k.p); k.p = nullptr; });
        for (auto *t : certs) f.push_back([t] { read_cert(t); xmpp_tlscert_free(t); });
        for (auto *t : states) f.push_back([t] { xmpp_free_sm_state(t); });
        for (auto *p : strs) f.push_back([this, p] { (void)strlen(p); xmpp_free(w.ctx, p); });
        for (auto &k : w.clients) {
            Client *q = k.get();
            if (!q->conn) continue;
            int n = 1;
            for (auto &x : refs) if (x.second == q->conn) n++;
            auto left = std::make_shared<int>(n);
            xmpp_conn_t *cp = q->conn;
            for (int i = 0; i < n; i++) f.push_back([this, q, cp, left] {
                bool last = --*left == 0;
                bool was = q->open;
                int rc = last ? q->release() : xmpp_conn_release(cp);
                if (!!rc != last) c.viol("conn-release", strf("xmpp_conn_release returned %d although the reference was %sthe last", rc, last ? "" : "not "));
                if (!last) { if (was && !q->open) c.viol("conn-release", "releasing one of several references ended the connection"); (void)xmpp_conn_get_flags(cp); if (xmpp_conn_get_jid(cp)) (void)hash_str(xmpp_conn_get_jid(cp)); }
            });
        }
        for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[r.below(i)]);
        for (auto &x : f) {
            x();
            if (r.onein(5)) { for (auto &k : kept) if (k.p) { Elem e = read_stanza(k.p); if (e.canon() != k.e.canon()) c.viol("content", "a received stanza, held by the user, changed"); } }
            if (c.violated) break;
        }
        if (r.onein(2)) { xmpp_global_timed_handler_delete(w.ctx, on_gtimed); base_check(); }
        else stat_add("global_handlers_left");
    }
    void base_check()
    {
        // what is left belongs to the context itself
        size_t before = w.mm.live.size();
        size_t own = ctx_blocks;
        if (before != own) {
            auto l = w.mm.leaks(9999);
            c.viol("leak/" + (l.empty() ? string("?") : leak_site(l.back())), strf("%zu blocks are live after everything was released, %zu belong to the context: ", before, own) + l.back());
        }
    }
    static string leak_site(const string &l)
    {
        size_t a = l.find(" from ");
        string s = a == string::npos ? l : l.substr(a + 6);
        size_t b = s.find_first_of("(<");
        return s.substr(0, b);
    }
    static size_t ctx_blocks;
};
size_t ConnProg::ctx_blocks;

struct Raw {
    Raw() { rawmem::events.clear(); rawmem::watch = true; }
    ~Raw() { rawmem::watch = false; }
};

// ---------------------------------------------------------------- several contexts
void two_contexts(Case &c)
{
    Rng &r = c.rng;
    MemMon m1, m2;
    xmpp_log_t nolog = {[](void *, xmpp_log_level_t, const char *, const char *) {}, nullptr};
    m1.fill = 0x5A;
    xmpp_ctx_t *x[2] = {xmpp_ctx_new(&m1.mem, &nolog), xmpp_ctx_new(&m2.mem, &nolog)};
    MemMon *m[2] = {&m1, &m2};
    size_t base[2] = {m1.live.size(), m2.live.size()};
    vector<std::pair<int, xmpp_stanza_t *>> st;
    vector<std::pair<int, xmpp_conn_t *>> cn;
    bool fallback = false;
    for (int i = 0, n = 6 + (int)r.below(20); i < n && !c.violated; i++) {
        int k = (int)r.below(2);
        size_t other = m[!k]->live.size();
        rawmem::events.clear();
        switch (r.below(5)) {
        case 0: { xmpp_stanza_t *s = xmpp_stanza_new_from_string(x[k], "<message to='a'><body>text &amp; more</body></message>"); if (!s) c.viol("parse", "failed"); else st.push_back({k, s}); break; }
        case 1: st.push_back({k, xmpp_message_new(x[k], "chat", "a@b", "id")}); break;
        case 2: if (cn.size() < 4) { xmpp_conn_t *q = xmpp_conn_new(x[k]); xmpp_conn_set_jid(q, "a@b/c"); cn.push_back({k, q}); } break;
        case 3: if (!cn.empty()) { auto q = cn[r.below(cn.size())]; k = q.first; other = m[!k]->live.size(); xmpp_conn_release(q.second); cn.erase(std::find(cn.begin(), cn.end(), q)); } break;
        case 4: if (!st.empty()) { auto q = st[r.below(st.size())]; k = q.first; other = m[!k]->live.size(); xmpp_stanza_release(q.second); st.erase(std::find(st.begin(), st.end(), q)); } break;
        }
        stat_add("two_context_ops");
        if (m[!k]->live.size() != other) c.viol("foreign-context", "an operation on one context changed the blocks of another one");
        for (auto &e : rawmem::events) { if (e == "expat parser created without the user's allocator" && k == 1) fallback = true; else c.viol("bypass", e + strf(" (context %d)", k)); }
    }
    for (auto &q : st) xmpp_stanza_release(q.second);
    for (auto &q : cn) xmpp_conn_release(q.second);
    for (int k = 0; k < 2; k++) if (m[k]->live.size() != base[k] && !c.violated) c.viol("leak/two-contexts", m[k]->leaks(999).back());
    rawmem::events.clear();
    int f = (int)r.below(2);
    xmpp_ctx_free(x[f]);
    xmpp_ctx_free(x[!f]);
    if (!m1.live.empty() || !m2.live.empty()) c.viol("leak/context", "blocks left after xmpp_ctx_free");
    for (auto *q : m) for (auto &e : q->errors) c.viol("bad-free", e);
    if (fallback && !c.violated) c.viol("expat-allocator/second-context", "with a second context in the process expat is given no allocator: the parser's blocks bypass the allocator of that context");
}
} // namespace

PROP(C12)
{
    Rng &r = c.rng;
    Raw raw;
    if (!ConnProg::ctx_blocks) {
        MemMon m;
        xmpp_log_t nolog = {[](void *, xmpp_log_level_t, const char *, const char *) {}, nullptr};
        xmpp_ctx_t *x = xmpp_ctx_new(&m.mem, &nolog);
        ConnProg::ctx_blocks = m.live.size();
        xmpp_ctx_free(x);
        if (!m.live.empty()) c.viol("leak/context", "blocks left after xmpp_ctx_free");
        rawmem::events.clear();
    }
    c.nontrivial = true;
    if (c.k % 16 == 7 || c.k % 16 == 15) {
        // the workload of another check, with the ledger as the only judge
        static const char *others[] = {"C04", "C05", "C07", "C08", "C11", "C13", "C14", "C16", "C20", "C06", "C02", "C01", "C04", "C16", "C07", "C08"};
        const char *o = others[(c.k / 8) % 16];
        if (getenv("C12_OTHER")) o = getenv("C12_OTHER");
        vector<string> left, errs;
        u64 allocs = 0;
        World::on_fini = [&](World &w) {
            allocs += w.mm.allocs;
            for (auto &e : w.mm.errors) errs.push_back(e);
            if (!w.mm.live.empty()) left.push_back(strf("%zu blocks, e.g. ", w.mm.live.size()) + w.mm.leaks()[0]);
        };
        bool ok = run_other(o, c, c.k);
        World::on_fini = nullptr;
        stat_add("other_workloads");
        stat_add("blocks", allocs);
        for (auto &e : errs) c.viol("bad-free", e + string(" (workload of ") + o + ")");
        for (auto &e : rawmem::events) c.viol("bypass", e);
        if (ok) for (auto &l : left) c.viol("leak/" + ConnProg::leak_site(l), l + " (workload of " + o + ")");
        else stat_add("other_workloads_cut_short");
        return;
    }
    if (c.k % 50 == 49) { two_contexts(c); return; }
    int kind = (int)(c.k % 8);
    if (kind < 3) {
        MemMon mm;
        xmpp_log_t nolog = {[](void *, xmpp_log_level_t, const char *, const char *) {}, nullptr};
        xmpp_ctx_t *ctx = xmpp_ctx_new(&mm.mem, &nolog);
        if (kind < 2 || r.onein(2)) {
            StanzaProg p(c, mm, ctx);
            p.run(20 + (int)r.below(r.onein(5) ? 600 : 120));
            c.mixsig(p.ops); c.mixsig(p.frees);
        } else if (r.onein(2)) HashProg::run(c, mm, ctx);
        else string_prog(c, mm, ctx);
        if (!c.violated) {
            xmpp_ctx_free(ctx);
            if (!mm.live.empty()) c.viol("leak/context", "blocks left after xmpp_ctx_free: " + mm.leaks()[0]);
        }
        stat_add("blocks", mm.allocs);
        for (auto &e : mm.errors) c.viol("bad-free", e);
        for (auto &e : rawmem::events) c.viol("bypass", e);
        return;
    }
    ConnProg p(c);
    p.run();
    stat_add("blocks", p.w.mm.allocs);
    c.mixsig(p.w.mm.allocs);
    if (!c.violated) {
        p.w.fini();
        if (!p.w.mm.live.empty()) c.viol("leak/context", "blocks left after xmpp_ctx_free: " + p.w.mm.leaks()[0]);
    }
    for (auto &e : p.w.mm.errors) c.viol("bad-free", e);
    for (auto &e : rawmem::events) c.viol("bypass", e);
}
