// Naive references and oracles: written from the properties, not from the code.
#pragma once
#include "common.h"

// A dictionary by brute force.
struct RefDict {
    Seqs ents;
    std::map<Seq, int> idx;
    std::vector<int> par;
    size_t maxlen = 0;
    RefDict() {}
    explicit RefDict(Seqs e) {
        std::sort(e.begin(), e.end());
        for (auto &s : e) { idx[s] = ents.size(); ents.push_back(s); maxlen = std::max(maxlen, s.size()); }
        for (auto &s : ents) {
            int p = -1;
            for (size_t l = s.size() - 1; l > 0 && p < 0; l--) {
                auto it = idx.find(Seq(s.begin(), s.begin() + l));
                if (it != idx.end()) p = it->second;
            }
            par.push_back(p);
        }
    }
    int longest(const Seq &s, size_t from, const std::unordered_set<int> *excl) const {
        for (size_t l = std::min(maxlen, s.size() - from); l > 0; l--) {
            auto it = idx.find(Seq(s.begin() + from, s.begin() + from + l));
            if (it != idx.end() && (!excl || !excl->count(it->second))) return it->second;
        }
        return -1;
    }
    int add(int symbol) {
        idx[Seq(1, symbol)] = ents.size();
        ents.push_back(Seq(1, symbol));
        par.push_back(-1);
        maxlen = std::max<size_t>(maxlen, 1);
        return ents.size() - 1;
    }
    int search(const Seq &s, const std::unordered_set<int> *excl) {
        int r = longest(s, 0, excl);
        if (r >= 0 || excl) return r;
        return add(s[0]);
    }
    Seq greedy(const Seq &s, const std::unordered_set<int> *excl) {
        Seq out;
        size_t pos = 0;
        while (pos < s.size()) {
            int r = longest(s, pos, excl);
            if (r < 0) {
                if (excl) { pos++; continue; }
                r = add(s[pos]);
            }
            out.push_back(r);
            pos += ents[r].size();
        }
        return out;
    }
};

inline Seq spell(const Seqs &ents, const Seq &ids) {
    Seq r;
    for (int i : ids) r.insert(r.end(), ents[i].begin(), ents[i].end());
    return r;
}
inline bool ids_ok(const Seqs &ents, const Seq &ids) {
    for (int i : ids) if (i < 0 || i >= static_cast<int>(ents.size())) return false;
    return true;
}

// log-probability of every entry
inline std::vector<double> log_probs(size_t n, const std::vector<double> &freqs, double total) {
    std::vector<double> r(n);
    for (size_t i = 0; i < n; i++) r[i] = std::log((i < freqs.size() ? freqs[i] : 0.0) + 1.0) - std::log(total + n);
    return r;
}

// Best log-probability over all segmentations, by brute dynamic programming over positions.
// index: entry -> id; also says whether the best one is unique (up to eps).
struct Best { double score; bool possible; };
inline Best best_cut(const std::map<Seq, int> &index, size_t maxlen, const std::vector<double> &lp, const Seq &s) {
    const double NEG = -std::numeric_limits<double>::infinity();
    std::vector<double> b(s.size() + 1, NEG);
    b[0] = 0;
    std::set<size_t> lengths;
    for (auto &kv : index) if (kv.first.size() <= maxlen) lengths.insert(kv.first.size());
    for (size_t e = 1; e <= s.size(); e++)
        for (size_t l : lengths) {
            if (l > e) break;
            if (l == 0 || b[e - l] == NEG) continue;
            auto it = index.find(Seq(s.begin() + (e - l), s.begin() + e));
            if (it == index.end()) continue;
            b[e] = std::max(b[e], b[e - l] + lp[it->second]);
        }
    return {b[s.size()], b[s.size()] != NEG};
}
inline double score_of(const std::vector<double> &lp, const Seq &ids) {
    double r = 0;
    for (int i : ids) r += lp[i];
    return r;
}
inline std::map<Seq, int> index_of(const Seqs &ents) {
    std::map<Seq, int> m;
    for (size_t i = 0; i < ents.size(); i++) m.emplace(ents[i], i);
    return m;
}
inline size_t max_len(const Seqs &ents) {
    size_t m = 0;
    for (auto &e : ents) m = std::max(m, e.size());
    return m;
}
inline bool occurs(const Seq &hay, const Seq &needle) {
    return std::search(hay.begin(), hay.end(), needle.begin(), needle.end()) != hay.end();
}
inline bool occurs_in(const Seqs &data, const Seq &needle) {
    for (auto &s : data) if (occurs(s, needle)) return true;
    return false;
}

// Checks a parse: valid ids, lossless, most probable. Common to many properties; `what` names the caller.
inline void check_best_parse(Case &c, const char *what, const Seqs &ents, const std::vector<double> &freqs, double total,
                             const Seq &seq, const Seq &ids) {
    EXPECT(c, ids_ok(ents, ids), "index", what << ": parse returned an index outside the dictionary: " << show(ids) << " size " << ents.size());
    EXPECT(c, spell(ents, ids) == seq, "lossless", what << ": parse of " << show(seq) << " spells " << show(spell(ents, ids)));
    std::vector<double> lp = log_probs(ents.size(), freqs, total);
    Best b = best_cut(index_of(ents), max_len(ents), lp, seq);
    if (!b.possible) return;
    double got = score_of(lp, ids);
    EXPECT(c, got >= b.score - 1e-7 * (1 + std::fabs(b.score)), "not-best",
           what << ": parse " << show(ids) << " of " << show(seq) << " has log-probability " << got << ", best is " << b.score);
    c.n["optimal_parses_compared"]++;
}
