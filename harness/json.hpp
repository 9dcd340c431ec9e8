// A small JSON reader: values of the scenario files.  Strings are byte strings
// (every character is a code point 0..255).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <stdexcept>
#include <cstdlib>

struct J {
    enum K { Null, Bool, Int, Str, Arr, Obj } k = Null;
    bool b = false;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::map<std::string, J> o;

    const J& operator[](const char* key) const {
        static const J none;
        auto it = o.find(key);
        if (it == o.end()) throw std::runtime_error(std::string("scenario: no field ") + key);
        (void)none;
        return it->second;
    }
    bool has(const char* key) const { return o.count(key) != 0; }
    std::vector<std::string> strs() const {
        std::vector<std::string> r;
        for (auto& x : a) r.push_back(x.s);
        return r;
    }
};

class JsonReader {
    const char* p; const char* e;
    [[noreturn]] void bad() { throw std::runtime_error("scenario: bad JSON"); }
    void ws() { while (p != e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    char get() { if (p == e) bad(); return *p++; }
    void lit(const char* s) { while (*s) if (get() != *s++) bad(); }
    std::string str() {
        std::string r;
        if (get() != '"') bad();
        for (;;) {
            char c = get();
            if (c == '"') return r;
            if (c != '\\') { r += c; continue; }
            c = get();
            switch (c) {
            case 'n': r += '\n'; break;
            case 't': r += '\t'; break;
            case 'r': r += '\r'; break;
            case 'b': r += '\b'; break;
            case 'f': r += '\f'; break;
            case 'u': {
                char h[5] = {0, 0, 0, 0, 0};
                for (int n = 0; n < 4; ++n) h[n] = get();
                long v = std::strtol(h, 0, 16);
                if (v > 255) bad();
                r += char((unsigned char)v);
                break;
            }
            default: r += c;
            }
        }
    }
public:
    JsonReader(const std::string& t) : p(t.data()), e(t.data() + t.size()) {}
    J value() {
        J j;
        ws();
        if (p == e) bad();
        if (*p == '{') {
            j.k = J::Obj; ++p; ws();
            if (p != e && *p == '}') { ++p; return j; }
            for (;;) {
                ws(); std::string key = str(); ws();
                if (get() != ':') bad();
                j.o[key] = value(); ws();
                char c = get();
                if (c == '}') return j;
                if (c != ',') bad();
            }
        }
        if (*p == '[') {
            j.k = J::Arr; ++p; ws();
            if (p != e && *p == ']') { ++p; return j; }
            for (;;) {
                j.a.push_back(value()); ws();
                char c = get();
                if (c == ']') return j;
                if (c != ',') bad();
            }
        }
        if (*p == '"') { j.k = J::Str; j.s = str(); return j; }
        if (*p == 't') { lit("true"); j.k = J::Bool; j.b = true; return j; }
        if (*p == 'f') { lit("false"); j.k = J::Bool; return j; }
        if (*p == 'n') { lit("null"); return j; }
        char* end;
        j.k = J::Int; j.i = std::strtoll(p, &end, 10);
        if (end == p) bad();
        p = end;
        return j;
    }
};

inline void jstr(std::string& out, const std::string& s) {
    static const char* hex = "0123456789abcdef";
    out += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { out += '\\'; out += char(c); }
        else if (c < 32 || c > 126) { out += "\\u00"; out += hex[c >> 4]; out += hex[c & 15]; }
        else out += char(c);
    }
    out += '"';
}
inline std::string jstr(const std::string& s) { std::string o; jstr(o, s); return o; }
inline std::string jarr(const std::vector<std::string>& v) {
    std::string o = "[";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) o += ','; jstr(o, v[i]); }
    return o + "]";
}
// already encoded elements
inline std::string jlist(const std::vector<std::string>& v) {
    std::string o = "[";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += v[i]; }
    return o + "]";
}
