#include "case.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

Stats* ST = new Stats;
bool g_use_gcc = false, g_verbose = false;

std::string hexs(const std::string& s, size_t max) {
    std::string o;
    for (size_t i = 0; i < s.size() && o.size() < max; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c >= 32 && c < 127 && c != '\\') o += (char)c;
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    }
    return o;
}
std::string Case::serialise() const {
    std::ostringstream o;
    o << "simcase 1\nproperty " << prop << "\nseed " << seed << "\n";
    for (auto& kv : p) o << "p " << kv.first << " " << kv.second << "\n";
    for (auto& it : items) {
        o << "item " << it.tag;
        for (auto v : it.v) o << " " << v;
        o << "\n";
    }
    for (auto& kv : text) o << "text " << kv.first << " " << kv.second.size() << "\n" << kv.second << "\n";
    o << "end\n";
    return o.str();
}
bool Case::parse(const std::string& s, Case& c) {
    size_t i = 0;
    c = Case();
    auto line = [&](std::string& l) {
        if (i >= s.size()) return false;
        size_t e = s.find('\n', i);
        if (e == std::string::npos) e = s.size();
        l = s.substr(i, e - i);
        i = e + 1;
        return true;
    };
    std::string l;
    if (!line(l) || l != "simcase 1") return false;
    while (line(l)) {
        std::istringstream is(l);
        std::string w;
        is >> w;
        if (w == "property") is >> c.prop;
        else if (w == "seed") is >> c.seed;
        else if (w == "p") {
            std::string k;
            int64_t v;
            is >> k >> v;
            c.p[k] = v;
        } else if (w == "item") {
            Item it;
            is >> it.tag;
            int64_t v;
            while (is >> v) it.v.push_back(v);
            c.items.push_back(it);
        } else if (w == "text") {
            std::string k;
            size_t n;
            is >> k >> n;
            if (i + n > s.size()) return false;
            c.text[k] = s.substr(i, n);
            i += n + 1;
        } else if (w == "end")
            return true;
    }
    return false;
}
static std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += (char)c;
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += (char)c;
    }
    return o + "\"";
}
std::string Stats::json() const {
    std::ostringstream o;
    o << "{\"n\":{";
    bool f = true;
    for (auto& kv : n) {
        o << (f ? "" : ",") << jesc(kv.first) << ":" << kv.second;
        f = false;
    }
    o << "},\"distinct\":[";
    f = true;
    for (auto d : distinct) {
        o << (f ? "" : ",") << "\"" << std::hex << d << std::dec << "\"";
        f = false;
    }
    o << "],\"states\":[";
    f = true;
    for (auto d : states) {
        o << (f ? "" : ",") << "\"" << std::hex << d << std::dec << "\"";
        f = false;
    }
    o << "],\"samples\":[";
    f = true;
    for (auto& s : samples) {
        o << (f ? "" : ",") << jesc(s);
        f = false;
    }
    o << "],\"first\":{";
    f = true;
    for (auto& kv : first) {
        o << (f ? "" : ",") << jesc(kv.first) << ":" << jesc(kv.second);
        f = false;
    }
    o << "}}";
    return o.str();
}
