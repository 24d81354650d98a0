// A shadow of the learner, fed with what a builder is fed. It counts usage itself (through a counting dictionary of the
// library, whose parses other properties decide) and says what the next extension or cut may keep, as intervals of scores,
// so that ties and orders nobody promised never matter.
#pragma once
#include "gen.h"
#include "ref.h"
#include <int_dict_p.h>
#include <int_vgram_builder_p.h>
#include <stat_dict_p.h>
#include <fast_random.h>

struct Cand {
    Seq text;
    double lo, hi;
    std::set<long> counts;
    bool selected = false;
};

struct Shadow {
    int size;
    std::unique_ptr<StatDictImpl> stat;
    std::map<Seq, long> seed;
    double minp = 0.002, prob = 0.1, best_rate = 1.0;
    int turns = 0, turns_at_least = 0; // differ after a rate that is as good as the best one: nobody promises the last bit
    bool prob_open = false;
    bool populate = true, seeds_sure = true;
    long alpha_count = 0;
    long chars = 0;
    double P = 0;
    std::vector<long> use;
    std::map<std::pair<int, int>, long> pairs;

    Shadow(int size_, const Seqs &given) : size(size_) {
        stat.reset(given.empty() ? new StatDictImpl() : new StatDictImpl(given));
        alpha_count = given.size();
        use.assign(given.size(), 0);
    }
    Shadow(int size_, const Seqs &dict, const Seq &freqs, const Seqs &symbols, double mp) : size(size_) {
        Seq f = freqs;
        stat.reset(new StatDictImpl(dict, mp, &f));
        minp = mp;
        alpha_count = symbols.size();
        use.assign(dict.size(), 0);
    }
    const Seqs &ents() const { return stat->alphabet(); }
    void accept(const Seq &s) {
        Seq out;
        stat->parse(s, &out);
        chars += s.size();
        int prev = -1;
        use.resize(ents().size(), 0);
        for (int x : out) {
            use[x]++;
            P++;
            if (prev >= 0) pairs[{prev, x}]++;
            prev = x;
        }
    }
    bool due() const { return P > -std::log(prob) / minp; }
    // how far from the threshold; nobody promises the last bit
    bool due_sure() const { double t = -std::log(prob) / minp; return std::fabs(P - t) > 1e-9 * t; }

    void note_rate() {
        double sum = 0, text = 0;
        for (size_t i = 0; i < use.size(); i++) {
            text += double(ents()[i].size()) * use[i];
            if (use[i] > 0) sum -= use[i] * std::log(double(use[i])) / std::log(2.0);
        }
        double rate = (sum + P * std::log(P) / std::log(2.0)) / 8. / text;
        bool tie = std::fabs(rate - best_rate) < 1e-9 * (1 + std::fabs(best_rate));
        best_rate = std::min(best_rate, rate);
        if (!tie && rate == best_rate) { turns = turns_at_least = 0; return; }
        turns++;
        turns_at_least = tie ? 0 : turns_at_least + 1;
        if (turns > 3 && turns_at_least <= 3) prob_open = true;
        if (turns > 3) prob *= 0.8;
    }
    void note_alphabet() {
        long roots = 0;
        for (int i = 0; i < stat->size(); i++) if (stat->parent(i) < 0) roots++;
        alpha_count = std::max(alpha_count, roots);
    }
    // room for joins: [lo, hi]
    std::pair<long, long> expand_room() const {
        double e = ents().size() * 1.3;
        if (e >= 10) return {long(e), long(e)};
        long r = std::max(0L, long(size) - alpha_count);
        return {r, r};
    }
    std::pair<long, long> reduce_room() const {
        long r = std::max(0L, long(size) - alpha_count);
        return {r, r};
    }
    double pair_total() const { double t = 0; for (auto &p : pairs) t += p.second; return t; }

    std::map<Seq, Cand> joins() const {
        std::vector<double> st(use.size()), en(use.size());
        for (auto &p : pairs) { st[p.first.first] += p.second; en[p.first.second] += p.second; }
        double total = pair_total();
        std::map<Seq, int> known = index_of(ents());
        std::map<Seq, Cand> r;
        for (auto &p : pairs) {
            double ab = p.second, xb = en[p.first.second] - ab, ay = st[p.first.first] - ab, xy = total - ay - xb - ab;
            std::vector<double> par = {ab + 1, ay + 1, xb + 1, xy + 1}, smp(4);
            next_dirichlet(par, &smp);
            double cond = smp[0] / (smp[1] + smp[0]);
            double score = ab * cond * std::log(cond / (smp[2] + smp[0]));
            Seq t = ents()[p.first.first];
            const Seq &b = ents()[p.first.second];
            t.insert(t.end(), b.begin(), b.end());
            if (known.count(t)) continue;
            auto it = r.find(t);
            if (it == r.end()) {
                Cand k;
                k.text = t; k.lo = k.hi = score; k.counts.insert(p.second);
                r[t] = k;
            } else {
                it->second.lo = std::min(it->second.lo, score);
                it->second.hi = std::max(it->second.hi, score);
                it->second.counts.insert(p.second);
            }
        }
        return r;
    }
    double code_len() const {
        double s = 0;
        for (long u : use) if (u > 0) s -= u * std::log(double(u));
        return s + (P > 0 ? P * std::log(P) : 0);
    }
    // score interval of a longer entry in a cut
    Cand gain(int id, const std::unordered_set<int> &unused, const std::map<Seq, int> &index, size_t maxlen) const {
        Cand k;
        k.text = ents()[id];
        k.lo = std::numeric_limits<double>::infinity();
        k.hi = -k.lo;
        const double NEG = -std::numeric_limits<double>::infinity();
        size_t n = k.text.size();
        for (int variant = 0; variant < 2; variant++) {
            // variant 0: entries that are about to go may still help out when they extend no allowed one; 1: never
            std::vector<double> b(n + 1, NEG);
            std::vector<int> from(n + 1, -1);
            std::vector<double> cnt(n + 1, 0);
            b[0] = 0; cnt[0] = 1;
            for (size_t pos = 0; pos < n; pos++) {
                if (b[pos] == NEG) continue;
                bool seen_allowed = false;
                for (size_t l = std::min(maxlen, n - pos); l > 0; l--) {
                    auto it = index.find(Seq(k.text.begin() + pos, k.text.begin() + pos + l));
                    if (it == index.end() || it->second == id) continue;
                    bool allowed = !unused.count(it->second);
                    if (!allowed && (variant == 1 || !seen_allowed)) continue;
                    if (allowed) seen_allowed = true;
                    double v = b[pos] + std::log(double(use[it->second]) + 1) - std::log(P + ents().size());
                    double tol = 1e-9 * (1 + std::fabs(v));
                    if (v > b[pos + l] + tol) { b[pos + l] = v; from[pos + l] = it->second; cnt[pos + l] = cnt[pos]; }
                    else if (v > b[pos + l] - tol) { cnt[pos + l] += cnt[pos]; if (v > b[pos + l]) { b[pos + l] = v; from[pos + l] = it->second; } }
                }
            }
            if (b[n] == NEG || cnt[n] > 1.5) { k.lo = NEG; k.hi = -NEG; return k; }
            Seq parse;
            for (size_t pos = n; pos > 0; pos -= ents()[from[pos]].size()) parse.push_back(from[pos]);
            double count = use[id], cl = code_len(), newP = P + (double(parse.size()) - 1) * count;
            double without = cl + count * std::log(count) - P * std::log(P) + newP * std::log(newP);
            for (int x : parse) {
                double of = use[x], nf = of + count;
                without -= nf * std::log(nf) - (of > 0 ? of * std::log(of) : 0);
            }
            k.lo = std::min(k.lo, without - cl);
            k.hi = std::max(k.hi, without - cl);
        }
        return k;
    }
    std::unordered_set<int> unused_entries() const {
        std::unordered_set<int> u;
        for (size_t i = 0; i < ents().size(); i++) if (ents()[i].size() > 1 && use[i] == 0) u.insert(i);
        return u;
    }
    double eps() const { return 1e-7 * (1 + code_len()); }

    void restart(const Seqs &dict, const std::map<Seq, long> &seeds, double mp) {
        Seq f;
        for (auto &e : dict) { auto it = seeds.find(e); f.push_back(it == seeds.end() ? 0 : it->second); }
        stat.reset(new StatDictImpl(dict, mp, &f));
        minp = mp;
        P = 0; chars = 0;
        use.assign(dict.size(), 0);
        pairs.clear();
        populate = !populate;
    }
};

// None of the candidates left out may be surely better than one taken, and nothing surely good may be left out while there is room.
inline void check_selection(Case &c, const char *what, std::vector<Cand> &cands, std::pair<long, long> room, double zero_eps) {
    long nsel = 0;
    double worst = std::numeric_limits<double>::infinity();
    const Cand *w = nullptr;
    for (auto &k : cands) if (k.selected) {
        nsel++;
        EXPECT(c, k.hi >= -zero_eps, "negative-kept", what << ": kept " << show(k.text) << " whose gain is negative: " << k.hi);
        if (k.hi < worst) { worst = k.hi; w = &k; }
    }
    EXPECT(c, nsel <= room.second, "too-many", what << ": kept " << nsel << " longer entries, room for " << room.second);
    for (auto &k : cands) if (!k.selected && k.lo > zero_eps) {
        EXPECT(c, nsel >= room.first, "dropped-with-room", what << ": left out " << show(k.text) << " with gain " << k.lo << " though there was room (" << nsel << " of " << room.first << ")");
        EXPECT(c, worst >= k.lo - zero_eps - 1e-9 * std::fabs(k.lo), "worse-preferred",
               what << ": left out " << show(k.text) << " with gain " << k.lo << " but kept " << (w ? show(w->text) : std::string("?")) << " with gain " << worst);
    }
    c.n["candidates_ranked"] += cands.size();
    c.n["candidates_kept"] += nsel;
}
