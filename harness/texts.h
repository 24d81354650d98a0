// Texts and how they are cut into tokens.
#pragma once
#include "common.h"
typedef std::vector<std::string> Strs;

inline Strs ref_tokens(bool words, const std::string &text) {
    Strs t;
    if (!words) {
        for (unsigned char ch : text) {
            if (ch >= 'A' && ch <= 'Z') ch += 32;
            if ((ch >= 'a' && ch <= 'z') || (ch >= '0' && ch <= '9')) t.push_back(std::string(1, ch));
        }
        return t;
    }
    size_t i = 0;
    while (i < text.size()) {
        size_t j = text.find(' ', i);
        if (j == std::string::npos) j = text.size();
        if (j > i) t.push_back(text.substr(i, j - i));
        i = j + 1;
    }
    return t;
}
inline std::string cat(const Strs &v) { std::string r; for (auto &s : v) r += s; return r; }
inline Strs split(const std::string &s) { return ref_tokens(true, s); }
inline std::string hex(const std::string &s, size_t max = 120) { return "'" + s.substr(0, max) + (s.size() > max ? "...'" : "'"); }

// --- generation
inline std::string random_word(Rng &r, bool utf8) {
    static const char *odd[] = {"\xe2\x96\x81", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xd0\xb6", "-1", "0", "\"", "\\", "\t", "\n", "\r", "\x01", "\x7f", "{}", "null", "\xe2\x80\xa8"};
    std::string w;
    int n = r.chance(0.03) ? r.range(20, 300) : r.range(1, 6);
    for (int i = 0; i < n; i++) {
        if (r.chance(0.1)) w += odd[r.next() % (sizeof odd / sizeof *odd)];
        else if (r.chance(0.02)) w += '\0';
        else if (!utf8 && r.chance(0.1)) { char ch = char(r.range(-128, 127)); if (ch != ' ') w += ch; }
        else w += char(r.chance(0.7) ? r.range('a', 'f') : r.range('!', '~'));
    }
    if (w.empty()) w = "x";
    return w;
}
struct TextSetup {
    bool words;
    Strs vocab, late, unknown;   // tokens
    std::vector<Strs> phrases;
    int size;
    double noise;
    int stretch; // tokens of a long text
    static TextSetup make(Rng &r, bool utf8, int force_words = -1) {
        TextSetup s;
        s.words = force_words < 0 ? r.chance(0.5) : force_words != 0;
        std::set<std::string> seen;
        auto add = [&](Strs &to, int n) {
            for (int tries = 0; tries < 5000 && n > 0; tries++) {
                std::string w;
                if (s.words && !seen.empty() && r.chance(0.15)) {  // a near twin of another word
                    auto it = seen.begin();
                    std::advance(it, r.next() % seen.size());
                    w = *it;
                    if (r.chance(0.3)) w += std::string(1, '\0');
                    if (r.chance(0.7)) w += char(r.range('a', 'f'));
                } else if (s.words) w = random_word(r, utf8);
                else { int x = r.range(0, 35); w = std::string(1, x < 10 ? '0' + x : 'a' + x - 10); }
                if (seen.insert(w).second) { to.push_back(w); n--; }
            }
        };
        add(s.vocab, s.words && r.chance(0.02) ? r.range(100, 1500) : r.range(1, s.words ? 30 : 18));
        add(s.late, 5);
        add(s.unknown, 4);
        for (int i = 0, n = r.range(1, 8); i < n; i++) {
            Strs p;
            for (int k = r.range(2, 5); k > 0; k--) p.push_back(r.pick(s.vocab));
            s.phrases.push_back(p);
        }
        int k = s.vocab.size();
        int sizes[] = {0, 1, k, k + 1, k + r.range(2, 60), 1000};
        s.size = r.chance(0.6) ? k + r.range(3, 40) : sizes[r.next() % 6];
        s.stretch = r.chance(0.06) ? r.range(100, r.chance(0.3) ? 30000 : 2500) : 0;
        s.noise = r.chance(0.5) ? 0.1 : r.chance(0.5) ? 0.5 : 1;
        return s;
    }
    // how a list of tokens may be written
    std::string write(Rng &r, const Strs &t) const {
        static const char *junk[] = {" ", "  ", ".", ",", "\n", "\t", "\xc3\xa9", "-", "!", "_", "\xe2\x96\x81", "@", "[", "`", "{", "/", ":"};
        std::string s;
        double p = r.chance(0.5) ? 0.03 : 0.3;
        if (words) {
            if (r.chance(p)) s += std::string(r.range(1, 3), ' ');
            for (size_t i = 0; i < t.size(); i++) s += (i ? std::string(r.chance(p) ? r.range(2, 4) : 1, ' ') : std::string()) + t[i];
            if (r.chance(p)) s += std::string(r.range(1, 3), ' ');
        } else for (auto &x : t) {
            while (r.chance(p)) s += junk[r.next() % (sizeof junk / sizeof *junk)];
            s += r.chance(p) ? char(toupper(x[0])) : x[0];
            if (r.chance(p * 0.3)) s += std::string(1, '\0');
        }
        return s;
    }
    Strs tokens(Rng &r, double late_p) const {
        Strs t;
        for (int n = stretch && r.chance(0.01) ? stretch : r.chance(0.05) ? r.range(0, 1) : r.range(1, 14); n > 0; n--) {
            if (r.chance(noise)) t.push_back(r.pick(vocab));
            else { const Strs &p = r.pick(phrases); t.insert(t.end(), p.begin(), p.end()); }
        }
        if (!late.empty() && !t.empty() && r.chance(late_p)) t[r.next() % t.size()] = r.pick(late);
        return t;
    }
    std::string draw(Rng &r, double late_p) const { return write(r, tokens(r, late_p)); }
    std::string probe(Rng &r) const {
        Strs t = tokens(r, 0.1);
        if (!unknown.empty() && r.chance(0.3)) for (auto &x : t) if (r.chance(0.15)) x = r.pick(unknown);
        if (r.chance(0.05)) t.clear();
        return write(r, t);
    }
    Strs texts(Rng &r, int n, double late_p) const {
        Strs v;
        while (n-- > 0) v.push_back(!v.empty() && r.chance(0.1) ? r.pick(v) : draw(r, late_p));
        return v;
    }
};
