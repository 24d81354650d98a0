// Generators of symbols, dictionaries and corpora.
#pragma once
#include "common.h"
#include <climits>

// k distinct symbols; kind 0: 0..k-1, 1: small spread, 2: hostile extremes, 3: random anywhere
inline Seq gen_symbols(Rng &r, int k, int kind = -1) {
    if (kind < 0) kind = r.range(0, 3);
    std::set<int> s;
    static const int extremes[] = {INT_MIN, INT_MIN + 1, -1, 0, 1, INT_MAX, INT_MAX - 1, 127, 128, 255, 256, 65535, 65536, -128, -129, -65536, 1000000};
    if (kind == 0) for (int i = 0; i < k; i++) s.insert(i);
    while (static_cast<int>(s.size()) < k) {
        if (kind == 1) s.insert(r.range(-k, 2 * k));
        else if (kind == 2 && r.chance(0.7)) s.insert(extremes[r.next() % (sizeof extremes / sizeof *extremes)]);
        else s.insert(static_cast<int>(r.next()));
        if (kind == 2 && r.chance(0.1)) s.insert(static_cast<int>(r.next()));
    }
    Seq v(s.begin(), s.end());
    while (static_cast<int>(v.size()) > k) v.erase(v.begin() + r.next() % v.size());
    r.shuffle(v);
    return v;
}

inline Seq gen_seq(Rng &r, const Seq &symbols, int len) {
    Seq s;
    int mode = r.range(0, 3);
    for (int i = 0; i < len; i++) {
        if (mode == 1 && i && r.chance(0.6)) s.push_back(s.back());               // runs
        else if (mode == 2 && i > 2 && r.chance(0.7)) s.push_back(s[i - 1 - r.range(1, 2)]); // periodic
        else s.push_back(r.pick(symbols));
    }
    return s;
}

// Distinct entries over the symbols. closed: every symbol of an entry is an entry.
inline Seqs gen_dict(Rng &r, const Seq &symbols, int multi, int maxlen, bool closed) {
    std::set<Seq> s;
    if (closed) for (int x : symbols) s.insert(Seq(1, x));
    std::vector<Seq> pool;
    if (multi > 2 && r.chance(0.03)) for (int i = r.range(1, 3); i > 0; i--) { // far longer than words are
        Seq e = gen_seq(r, symbols, r.range(20, r.chance(0.3) ? 600 : 150));
        s.insert(e);
        if (r.chance(0.5)) { e.resize(r.range(2, e.size())); s.insert(e); }
        pool.push_back(e);
    }
    if (multi > 2 && r.chance(0.01)) { // every prefix of one sequence
        Seq e = gen_seq(r, symbols, r.range(10, 120));
        for (size_t k = closed ? 2 : 1; k <= e.size(); k++) s.insert(Seq(e.begin(), e.begin() + k));
    }
    for (int i = 0; i < multi; i++) {
        Seq e;
        if (!pool.empty() && r.chance(0.5)) {      // nested prefixes
            e = r.pick(pool);
            int more = r.range(1, 2);
            for (int k = 0; k < more; k++) e.push_back(r.pick(symbols));
            if (r.chance(0.2) && e.size() > 2) e.erase(e.begin());
        } else e = gen_seq(r, symbols, r.range(closed ? 2 : 1, maxlen));
        if (static_cast<int>(e.size()) > maxlen) e.resize(maxlen);
        pool.push_back(e);
        s.insert(e);
    }
    Seqs v(s.begin(), s.end());
    r.shuffle(v);
    return v;
}

// Lists, iterations and sequences are mostly short, for many of them to be seen, and now and then long.
inline int list_size(Rng &r, int usual) { return r.chance(0.04) ? r.range(16, r.chance(0.2) ? 2000 : 250) : usual; }
inline int gen_iters(Rng &r, int lo, int hi) { return r.chance(0.03) ? r.range(hi, 25) : r.range(lo, hi); }

// A source of training sequences.
struct Source {
    int kind;
    Seq symbols;
    std::vector<double> cum;
    Seqs words;
    std::vector<Seq> next;
    int minlen, maxlen, stretch;
    static Source make(Rng &r, const Seq &symbols, int kind = -1, int minlen = 0, int maxlen = 40) {
        Source s;
        s.kind = kind < 0 ? r.range(0, 5) : kind;
        s.symbols = symbols;
        s.minlen = minlen;
        s.maxlen = maxlen;
        s.stretch = r.chance(0.06) ? r.range(100, r.chance(0.2) ? 20000 : 2500) : 0;
        double t = 0;
        for (size_t i = 0; i < symbols.size(); i++) { t += 1.0 / (i + 1); s.cum.push_back(t); }
        int nw = r.range(2, 12);
        for (int i = 0; i < nw; i++) s.words.push_back(gen_seq(r, symbols, r.range(2, 6)));
        for (size_t i = 0; i < symbols.size(); i++) {
            Seq n;
            int d = r.range(1, 3);
            for (int k = 0; k < d; k++) n.push_back(r.next() % symbols.size());
            s.next.push_back(n);
        }
        return s;
    }
    Seq draw(Rng &r) const {
        int len = stretch && r.chance(0.004) ? stretch : r.range(minlen, maxlen);
        Seq s;
        switch (kind) {
            case 0: while (static_cast<int>(s.size()) < len) s.push_back(r.pick(symbols)); break;
            case 1: while (static_cast<int>(s.size()) < len) {
                double u = r.uniform() * cum.back();
                s.push_back(symbols[std::min<size_t>(std::upper_bound(cum.begin(), cum.end(), u) - cum.begin(), symbols.size() - 1)]);
            } break;
            case 2: while (static_cast<int>(s.size()) < len) { const Seq &w = r.pick(words); s.insert(s.end(), w.begin(), w.end()); } break;
            case 3: { int x = r.next() % symbols.size();
                while (static_cast<int>(s.size()) < len) { s.push_back(symbols[x]); x = r.chance(0.1) ? r.next() % symbols.size() : r.pick(next[x]); } } break;
            case 4: s = gen_seq(r, symbols, len); break;
            default: while (static_cast<int>(s.size()) < len) {
                if (r.chance(0.5)) { const Seq &w = words[0]; s.insert(s.end(), w.begin(), w.end()); s.insert(s.end(), w.begin(), w.end()); }
                else s.push_back(r.pick(symbols));
            }
        }
        return s;
    }
};
