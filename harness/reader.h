// A strict reader of JSON (RFC 8259) that shares nothing with the library's.
#pragma once
#include "common.h"
struct Doc {
    enum Kind { Null, Bool, Int, Real, Text, List, Map } kind = Null;
    bool yes = false;
    long long num = 0;
    double real = 0;
    std::string text;
    std::vector<Doc> list;
    std::map<std::string, Doc> map;
    bool has(const char *k) const { return kind == Map && map.count(k); }
    const Doc &at(const char *k) const { auto i = map.find(k); if (i == map.end()) throw std::runtime_error(std::string("no field ") + k); return i->second; }
    Seq ints() const { Seq s; for (auto &d : list) { if (d.kind != Int) throw std::runtime_error("a number that is no integer"); s.push_back(static_cast<int>(d.num)); if (s.back() != d.num) throw std::runtime_error("an integer of more than 32 bits"); } return s; }
};
struct DocReader {
    const std::string &s;
    size_t i = 0;
    explicit DocReader(const std::string &s) : s(s) {}
    [[noreturn]] void bad(const char *what) { throw std::runtime_error(std::string(what) + " at byte " + std::to_string(i)); }
    void blank() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++; }
    int peek() { return i < s.size() ? static_cast<unsigned char>(s[i]) : -1; }
    void word(const char *w) { size_t n = strlen(w); if (s.compare(i, n, w)) bad("unknown word"); i += n; }
    unsigned hex4() {
        unsigned v = 0;
        for (int k = 0; k < 4; k++, i++) {
            int c = peek();
            if (c >= '0' && c <= '9') v = v * 16 + c - '0';
            else if (c >= 'a' && c <= 'f') v = v * 16 + c - 'a' + 10;
            else if (c >= 'A' && c <= 'F') v = v * 16 + c - 'A' + 10;
            else bad("no hexadecimal digit");
        }
        return v;
    }
    static void utf8(std::string &o, unsigned v) {
        if (v < 0x80) o += char(v);
        else if (v < 0x800) { o += char(0xc0 | v >> 6); o += char(0x80 | (v & 63)); }
        else if (v < 0x10000) { o += char(0xe0 | v >> 12); o += char(0x80 | (v >> 6 & 63)); o += char(0x80 | (v & 63)); }
        else { o += char(0xf0 | v >> 18); o += char(0x80 | (v >> 12 & 63)); o += char(0x80 | (v >> 6 & 63)); o += char(0x80 | (v & 63)); }
    }
    std::string str() {
        std::string o;
        if (peek() != '"') bad("no string");
        for (i++;;) {
            int c = peek();
            if (c < 0) bad("unfinished string");
            if (c == '"') { i++; return o; }
            if (c < 32) bad("bare control character");
            if (c == '\\') {
                i++;
                c = peek();
                i++;
                switch (c) {
                    case '"': case '\\': case '/': o += char(c); break;
                    case 'b': o += '\b'; break;
                    case 'f': o += '\f'; break;
                    case 'n': o += '\n'; break;
                    case 'r': o += '\r'; break;
                    case 't': o += '\t'; break;
                    case 'u': {
                        unsigned v = hex4();
                        if (v >= 0xdc00 && v < 0xe000) bad("lone surrogate");
                        if (v >= 0xd800 && v < 0xdc00) {
                            word("\\u");
                            unsigned w = hex4();
                            if (w < 0xdc00 || w >= 0xe000) bad("lone surrogate");
                            v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                        }
                        utf8(o, v);
                        break;
                    }
                    default: bad("unknown escape");
                }
                continue;
            }
            int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
            if (n < 0) bad("invalid UTF-8");
            o += char(c);
            i++;
            for (; n > 0; n--, i++) { if (peek() < 0x80 || peek() >= 0xc0) bad("invalid UTF-8"); o += s[i]; }
        }
    }
    Doc value(int depth = 0) {
        Doc d;
        if (depth > 50) bad("too deep");
        blank();
        int c = peek();
        if (c == '{') {
            d.kind = Doc::Map;
            i++;
            blank();
            if (peek() == '}') { i++; return d; }
            for (;;) {
                blank();
                std::string k = str();
                blank();
                if (peek() != ':') bad("no colon");
                i++;
                if (!d.map.emplace(k, value(depth + 1)).second) bad("a field twice");
                blank();
                if (peek() == '}') { i++; return d; }
                if (peek() != ',') bad("no comma");
                i++;
            }
        }
        if (c == '[') {
            d.kind = Doc::List;
            i++;
            blank();
            if (peek() == ']') { i++; return d; }
            for (;;) {
                d.list.push_back(value(depth + 1));
                blank();
                if (peek() == ']') { i++; return d; }
                if (peek() != ',') bad("no comma");
                i++;
            }
        }
        if (c == '"') { d.kind = Doc::Text; d.text = str(); return d; }
        if (c == 't') { word("true"); d.kind = Doc::Bool; d.yes = true; return d; }
        if (c == 'f') { word("false"); d.kind = Doc::Bool; return d; }
        if (c == 'n') { word("null"); return d; }
        size_t b = i;
        if (peek() == '-') i++;
        if (peek() == '0') i++;
        else if (peek() >= '1' && peek() <= '9') while (peek() >= '0' && peek() <= '9') i++;
        else bad("no value");
        bool whole = true;
        if (peek() == '.') { whole = false; i++; if (peek() < '0' || peek() > '9') bad("no digit"); while (peek() >= '0' && peek() <= '9') i++; }
        if (peek() == 'e' || peek() == 'E') { whole = false; i++; if (peek() == '+' || peek() == '-') i++; if (peek() < '0' || peek() > '9') bad("no digit"); while (peek() >= '0' && peek() <= '9') i++; }
        std::string t = s.substr(b, i - b);
        d.kind = whole ? Doc::Int : Doc::Real;
        d.real = strtod(t.c_str(), nullptr);
        if (whole) d.num = strtoll(t.c_str(), nullptr, 10);
        return d;
    }
    static Doc read(const std::string &s) {
        DocReader r(s);
        Doc d = r.value();
        r.blank();
        if (r.i != s.size()) r.bad("more after the end");
        return d;
    }
};
