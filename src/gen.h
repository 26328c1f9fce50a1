// Random XML material shared by the stanza and connection checks.
#pragma once
#include "case.h"
#include "xml.h"
#include "mem.h"

struct Node {                       // model of a stanza
    bool is_text = false;
    string name, text;
    std::map<string, string> attrs; // includes "xmlns"
    vector<Node> kids;
};
struct GenOpt {
    int depth = 4, fan = 4, textlen = 40, attrs = 4;
    mutable int budget = 60;        // elements per tree
    bool huge = false;              // a text of more than 60000 bytes now and then
};
string gen_name(Rng &r);
string gen_text(Rng &r, size_t n, bool attr, bool nasty = true);
string gen_ns(Rng &r);
Node gen_node(Rng &r, const GenOpt &o, int depth = 0);
// the tree an XML parser should see, with `ns` as the default namespace in scope
Elem to_elem(const Node &n, const string &ns);
void normalise(Elem &e);            // merge adjacent text nodes, drop empty ones
void map_ns(Elem &e, const string &from, const string &to);
void strip_attr_ns(Elem &e);        // "uri|local" -> "local"
// built with the public API, in random call order
xmpp_stanza_t *build_stanza(Rng &r, xmpp_ctx_t *ctx, const Node &n);
Elem read_stanza(xmpp_stanza_t *s); // through the accessor API
string node_str(const Node &n);
// writes a tree in one of the many ways XML allows; scope maps prefixes ("" = default) to namespaces
void write_xml(Rng &r, const Elem &e, std::map<string, string> scope, string &out);
string write_text(Rng &r, const string &t);
string write_attr(Rng &r, const string &v);
