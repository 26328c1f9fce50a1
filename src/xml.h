// Independent XML view (libxml2) of what the client writes / what the library parses.
#pragma once
#include "sim.h"

struct Elem {
    bool is_text = false;
    string name, ns, text;              // text for text nodes
    std::map<string, string> attrs;     // plain attributes, qualified ones as "uri|local"
    vector<Elem> kids;
    string raw;                         // exact bytes (top-level elements of a stream only)

    const Elem *child(const string &name, const string &ns = "") const;
    string alltext() const;             // concatenated direct text
    string attr(const string &k) const { auto it = attrs.find(k); return it == attrs.end() ? "" : it->second; }
    bool has(const string &k) const { return attrs.count(k) != 0; }
    string canon() const;               // canonical rendering used for comparison
    u64 count() const;
};

struct StreamEvent {
    enum K { OPEN, ELEM, CLOSE, ERR } k;
    Elem e;
};

// Incremental parser of an XMPP stream, restartable.
class StreamParser
{
  public:
    StreamParser();
    ~StreamParser();
    // returns events completed by these bytes
    vector<StreamEvent> feed(const string &bytes);
    void restart();
    bool failed() const { return failed_; }
    string pending() const { return buf_.substr(consumed_ < buf_.size() ? consumed_ : buf_.size()); }
    struct Impl;

  private:
    std::unique_ptr<Impl> p_;
    string buf_;
    size_t consumed_ = 0;
    bool failed_ = false;
    friend struct Impl;
};

// Parse a complete document; false if not namespace-well-formed.
bool xml_parse_doc(const string &doc, Elem &out);
string xml_escape(const string &s, bool attr);
