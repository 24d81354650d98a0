// Histories of integer models.
#pragma once
#include "gen.h"
#include "ref.h"
#include <fstream>
#include <vgram_builders/int_vgram.h>
#include <vgram_builders/int_stream_vgram.h>
#include <seq_coder.h>

using vgram_core::IntStreamVGram;
using vgram_core::IntVGram;
using vgram_core::SeqCoder;

inline std::string read_file(const std::string &f) {
    std::ifstream in(f, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
inline void write_file(const std::string &f, const std::string &t) {
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o << t;
}
static thread_local std::string scratch_prefix; // files of this thread
inline std::string scratch(const char *name) { return g_scratch + "/" + scratch_prefix + name; }
inline std::vector<double> dbls(const Seq &f) { return std::vector<double>(f.begin(), f.end()); }
inline double sum_of(const Seq &f) { double t = 0; for (int x : f) t += x; return t; }

// A fitted model whose termination points can be watched and triggered, as the Python wrapper does.
struct Probe : public IntVGram {
    mutable long calls = 0;
    long stop_at = -1;             // 1-based number of the call that reports a pending signal
    mutable bool fired = false;
    mutable std::function<void(const Probe &)> on_call;
    Probe(int size, int iters, int verbose = 0) : IntVGram(size, iters, verbose) {}
    explicit Probe(const IntVGram &m) : IntVGram(m) {}
    bool isTerminated() const override {
        calls++;
        if (on_call) on_call(*this);
        if (calls == stop_at) { fired = true; return true; }
        return false;
    }
};

struct IntSetup {
    Seq symbols, late, unknown;
    int size;
    Source src;
    static IntSetup make(Rng &r, int maxk = 14, int maxlen = 40) {
        IntSetup s;
        int k = r.chance(0.06) ? r.range(20, r.chance(0.1) ? 700 : 90) : r.range(1, maxk);
        Seq all = gen_symbols(r, k + 8);
        s.symbols.assign(all.begin(), all.begin() + k);
        s.late.assign(all.begin() + k, all.begin() + k + 5);
        s.unknown.assign(all.begin() + k + 5, all.end());
        int sizes[] = {0, 1, k - 1, k, k + 1, k + r.range(1, 10), k + r.range(5, 60), 1000};
        s.size = r.chance(0.6) ? k + r.range(2, 40) : std::max(0, sizes[r.next() % 8]);
        s.src = Source::make(r, s.symbols, -1, 0, r.chance(0.2) ? 8 : maxlen);
        return s;
    }
    Seq draw(Rng &r, double late_p) const {
        Seq q = src.draw(r);
        if (!q.empty() && r.chance(late_p)) q[r.next() % q.size()] = r.pick(late);
        return q;
    }
    Seq probe(Rng &r) const {
        Seq q = src.draw(r);
        if (r.chance(0.3)) for (int &x : q) if (r.chance(0.1)) x = r.pick(r.chance(0.5) ? unknown : late);
        if (r.chance(0.1)) q = gen_seq(r, unknown, r.range(0, 5));
        return q;
    }
};

struct StreamRun {
    std::shared_ptr<IntStreamVGram> m;
    Seqs data;
    std::set<int> known;
    long updates = 0, tokens = 0;
    void accept(const Seq &q) { m->accept(q); data.push_back(q); known.insert(q.begin(), q.end()); tokens += q.size(); }
    void update() { m->update_dict(); updates++; }
};

// 0: nothing or little, 1: towards the first rebuild, 2: across several
inline StreamRun train_stream(Rng &r, const IntSetup &s, int much, double late_p) {
    StreamRun run;
    run.m = std::make_shared<IntStreamVGram>(s.size, 0);
    long budget = much == 0 ? r.range(0, 400) : much == 1 ? r.range(800, 5000) : s.symbols.size() <= 3 && r.chance(0.05) ? r.range(20000, 300000) : r.range(6000, 20000);
    double up = r.chance(0.5) ? 0.01 : 0.001;
    while (budget > 0) {
        Seq q = s.draw(r, late_p);
        budget -= q.size() + 1;
        run.accept(q);
        if (r.chance(up)) run.update();
    }
    if (r.chance(0.85)) run.update();
    return run;
}

inline Seqs gen_texts(Rng &r, const IntSetup &s, int n, double late_p, int dup = 10) {
    Seqs v;
    while (static_cast<int>(v.size()) < n) {
        if (!v.empty() && r.range(0, 99) < dup) v.push_back(r.pick(v));
        else v.push_back(s.draw(r, late_p));
    }
    return v;
}

template <class M>
inline Seq known_part(const M &known, const Seq &q) {
    Seq w;
    for (int x : q) if (known.count(x)) w.push_back(x);
    return w;
}

inline void check_model_parse(Case &c, const char *what, const IntStreamVGram &m, const std::set<int> &known, const Seq &q, bool best) {
    Seq out = m.parse(q);
    Seqs alpha = m.alphabet();
    Seq want = known_part(known, q);
    EXPECT(c, ids_ok(alpha, out), "index", what << ": parse of " << show(q) << " gives an index outside the alphabet of " << alpha.size() << ": " << show(out));
    EXPECT(c, spell(alpha, out) == want, "lossless", what << ": parse of " << show(q) << " spells " << show(spell(alpha, out)) << ", not " << show(want) << " over " << show(alpha, 40));
    if (best) {
        out = m.parse(q); // with every symbol in place the dictionary no longer changes
        Seqs a2 = m.alphabet();
        EXPECT(c, a2 == alpha, "alphabet-moved", what << ": the alphabet changed on the second parse of " << show(q));
        Seq f = m.freqs();
        EXPECT(c, f.size() == a2.size(), "aligned", what << ": " << f.size() << " frequencies for " << a2.size() << " entries");
        check_best_parse(c, what, a2, dbls(f), sum_of(f), want, out);
    }
    for (int x : out) if (alpha[x].size() > 1) c.n["longer_entries_used"]++;
    c.n["parses"]++;
    c.mix(out);
}

// per-symbol totals of counted entries
inline std::map<int, double> symbol_totals(const Seqs &alpha, const Seq &freqs) {
    std::map<int, double> t;
    for (size_t i = 0; i < alpha.size(); i++) if (freqs[i]) for (int x : alpha[i]) t[x] += freqs[i];
    return t;
}
inline std::map<int, double> symbol_totals(const Seqs &data) {
    std::map<int, double> t;
    for (auto &s : data) for (int x : s) t[x]++;
    return t;
}
inline std::string show(const std::map<int, double> &m) {
    std::string r = "{";
    for (auto &kv : m) r += std::to_string(kv.first) + ":" + std::to_string(long(kv.second)) + " ";
    return r + "}";
}
inline void check_counts_data(Case &c, const char *what, const IntStreamVGram &m, const Seqs &data) {
    Seqs alpha = m.alphabet();
    Seq f = m.freqs();
    EXPECT(c, f.size() == alpha.size(), "aligned", what << ": " << f.size() << " frequencies for " << alpha.size() << " entries");
    for (size_t i = 0; i < f.size(); i++) EXPECT(c, f[i] >= 0, "negative", what << ": frequency of " << show(alpha[i]) << " is " << f[i]);
    std::map<int, double> a = symbol_totals(alpha, f), b = symbol_totals(data);
    EXPECT(c, a == b, "conservation", what << ": frequencies account for symbols " << show(a) << ", the data has " << show(b));
}
