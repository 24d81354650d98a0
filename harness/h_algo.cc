// Dictionaries, usage statistics, sampling and the builder.
#include "shadow.h"
#include <int_dict.h>
#include <list_dict.h>

static Seq gen_freqs(Rng &r, size_t n) {
    Seq f;
    int mode = r.range(0, 3);
    size_t len = r.chance(0.2) ? r.range(0, n) : n;
    for (size_t i = 0; i < len; i++) f.push_back(mode == 0 ? r.range(0, 5) : mode == 1 ? r.range(0, 1000) : mode == 2 ? (r.chance(0.5) ? 0 : r.range(1, 100000)) : r.chance(0.1) ? INT_MAX : r.range(0, 1000000000));
    return f;
}
static std::vector<double> dbl(const Seq &f) { return std::vector<double>(f.begin(), f.end()); }

// sizes beyond what a byte, or two, can number come up now and then
static int symbols_wanted(Case &c, int usual, int every) {
    if (c.index % every == every / 2 + 1) { c.n["dictionaries_above_65536"]++; return 65530 + c.rng.range(0, 4000); }
    if (c.rng.chance(0.03)) { c.n["dictionaries_above_256"]++; return c.rng.range(250, 1500); }
    return c.rng.range(1, usual);
}
static int entries_wanted(Rng &r, int symbols, int least, int usual) {
    return symbols > 2000 ? r.range(1500, 3000) : symbols > 240 ? r.range(0, 600) : r.range(least, usual);
}

static Seq gen_query(Rng &r, const Seqs &dict, const Seq &symbols, int maxlen) {
    Seq q;
    int len = r.range(0, maxlen);
    while (static_cast<int>(q.size()) < len) {
        if (!dict.empty() && r.chance(0.6)) { const Seq &e = r.pick(dict); q.insert(q.end(), e.begin(), r.chance(0.8) ? e.end() : e.begin() + r.range(1, e.size())); }
        else q.push_back(r.pick(symbols));
    }
    return q;
}

// --- C01 (algorithm level): every parse spells its input
CASE(C01_dict) {
    Rng &r = c.rng;
    int k = symbols_wanted(c, r.chance(0.1) ? 400 : 12, 2500);
    Seq sym = gen_symbols(r, k);
    Seq extra = gen_symbols(r, r.range(1, 6));
    Seq all = sym;
    all.insert(all.end(), extra.begin(), extra.end());
    Seqs d = k <= 2000 && r.chance(0.1) ? Seqs() : gen_dict(r, sym, entries_wanted(r, k, 0, 30), r.range(2, 8), true);
    c.mix(d);
    IntDictImpl dict(d);
    StatDictImpl stat(d);
    long multi = 0;
    int ops = r.range(3, 12);
    for (int i = 0; i < ops; i++) {
        Seq q = gen_query(r, d, r.chance(0.7) ? sym : all, r.chance(0.1) ? 300 : 40);
        if (i == 0 && c.index % 400 == 7) { q = gen_query(r, d, sym, 6000); while (q.size() < 4000) q.push_back(r.pick(sym)); }
        Seq out, freqs = gen_freqs(r, dict.size());
        int how = r.range(0, 2);
        int n;
        IntDict *id = &dict;
        const Seqs *ents;
        if (how == 0) { double t = 0; for (int f : freqs) t += f; n = id->parse(q, freqs, t, &out); ents = &dict.alphabet(); }
        else if (how == 1) { n = id->parse(q, &out); ents = &dict.alphabet(); }
        else { n = stat.parse(q, &out); ents = &stat.alphabet(); }
        EXPECT(c, n == static_cast<int>(out.size()), "count", "parse returned " << n << " for " << out.size() << " entries");
        EXPECT(c, ids_ok(*ents, out), "index", "parse gave an index outside the dictionary: " << show(out));
        EXPECT(c, spell(*ents, out) == q, "lossless", (how == 0 ? "weighted" : how == 1 ? "greedy" : "counting") << " parse of " << show(q) << " spells " << show(spell(*ents, out)) << " over " << show(*ents, 60));
        for (int x : out) if ((*ents)[x].size() > 1) multi++;
        c.mix(out);
        c.n["parses"]++;
    }
    c.n["longer_entries_used"] += multi;
    c.nontrivial = multi > 0;
    c.sample = "dictionary " + show(d) + ", " + std::to_string(ops) + " parses, " + std::to_string(multi) + " longer entries used";
}

// --- C02 (algorithm level)
CASE(C02_dict) {
    Rng &r = c.rng;
    int k = symbols_wanted(c, 8, 2500);
    Seq sym = gen_symbols(r, k);
    Seqs d = gen_dict(r, sym, entries_wanted(r, k, 1, 40), r.range(2, 9), true);
    IntDictImpl dict(d);
    IntDict *id = &dict;
    c.mix(d);
    int ops = r.range(2, 8);
    long differs = 0;
    for (int i = 0; i < ops; i++) {
        Seq q = gen_query(r, d, sym, r.chance(0.1) ? 150 : 40), out, f = gen_freqs(r, d.size());
        double t = 0;
        for (int x : f) t += x;
        if (r.chance(0.2)) t = r.range(0, 100000);
        id->parse(q, f, t, &out);
        check_best_parse(c, "weighted parse", id->alphabet(), dbl(f), t, q, out);
        Seq g;
        id->parse(q, &g);
        if (g != out) differs++;
        c.mix(out);
    }
    c.n["parses"] += ops;
    c.n["parses_unlike_greedy"] += differs;
    c.nontrivial = differs > 0;
    c.sample = "dictionary " + show(d) + ", " + std::to_string(differs) + "/" + std::to_string(ops) + " best parses differ from greedy";
}

// --- C03
template <class D, class SearchFn>
static void check_lookup(Case &c, Rng &r, D &dict, SearchFn search, RefDict &ref, const Seq &pool, const char *what) {
    EXPECT(c, dict.size() == static_cast<int>(ref.ents.size()), "size", what << " has " << dict.size() << " entries, not " << ref.ents.size());
    EXPECT(c, dict.alphabet() == ref.ents, "order", what << ": entries are not in lexicographic order: " << show(dict.alphabet(), 50));
    for (int i = 0; i < dict.size(); i++) {
        EXPECT(c, dict.get(i) == ref.ents[i], "get", what << ": get(" << i << ")");
        EXPECT(c, dict.parent(i) == ref.par[i], "parent", what << ": parent of " << show(ref.ents[i]) << " is " << dict.parent(i) << ", not " << ref.par[i] << " in " << show(ref.ents, 60));
    }
    int ops = r.range(10, 40);
    for (int k = 0; k < ops; k++) {
        Seq q = gen_query(r, ref.ents, pool, 10);
        if (q.empty()) q.push_back(r.pick(pool));
        std::unordered_set<int> ex, *pex = nullptr;
        if (r.chance(0.6)) {
            pex = &ex;
            double p = r.uniform();
            for (int i = 0; i < dict.size(); i++) if (r.chance(p)) ex.insert(i);
            int l = ref.longest(q, 0, nullptr);
            while (l >= 0 && r.chance(0.7)) { ex.insert(l); l = ref.longest(q, 0, &ex); }
        }
        int want = ref.longest(q, 0, pex);
        if (want < 0 && !pex) continue; // growth: C04
        std::unordered_set<int> before = ex;
        int got = search(q, pex);
        EXPECT(c, got == want, "lookup", what << ": lookup of " << show(q) << " gives " << got << (got >= 0 && got < dict.size() ? show(dict.get(got)) : "") << ", not " << want << (want >= 0 ? show(ref.ents[want]) : "") << ", " << ex.size() << " excluded");
        EXPECT(c, ex == before, "excludes-changed", what << ": lookup changed the exclusion set");
        EXPECT(c, dict.size() == static_cast<int>(ref.ents.size()), "grew", what << ": lookup of " << show(q) << " changed the size");
        c.n["lookups"]++;
        if (want >= 0 && pex) c.n["lookups_with_exclusions"]++;
        if (want < 0) c.n["lookups_all_excluded"]++;
        c.mix(uint64_t(got + 1));
    }
    EXPECT(c, dict.alphabet() == ref.ents, "changed", what << ": entries changed by lookups");
}
CASE(C03_dict) {
    Rng &r = c.rng;
    int k = symbols_wanted(c, 8, 2500);
    Seq sym = gen_symbols(r, k);
    Seq pool = sym;
    Seq extra = gen_symbols(r, 3);
    pool.insert(pool.end(), extra.begin(), extra.end());
    bool closed = r.chance(0.6);
    Seqs d = k <= 240 && r.chance(0.1) ? gen_dict(r, gen_symbols(r, r.range(100, 500)), 200, 4, true) : gen_dict(r, sym, entries_wanted(r, k, 0, 60), r.range(2, 9), closed || k > 240);
    if (k <= 240 && r.chance(0.1)) { // a chain of prefixes
        Seq s;
        d.clear();
        for (int i = 0, n = r.range(2, 40); i < n; i++) { s.push_back(r.pick(sym)); if (r.chance(0.8)) d.push_back(s); }
        if (d.empty()) d.push_back(s);
        r.shuffle(d);
    }
    c.mix(d);
    RefDict ref(d);
    if (r.chance(0.15)) {
        Seq flat = gen_symbols(r, r.range(1, 30));
        Seqs fd;
        for (int x : flat) fd.push_back(Seq(1, x));
        RefDict fref(fd);
        IntDictImpl fdict(flat);
        check_lookup(c, r, fdict, [&](const Seq &q, std::unordered_set<int> *e) { return fdict.search(q, e); }, fref, pool, "dictionary of symbols");
    }
    IntDictImpl dict(d);
    check_lookup(c, r, dict, [&](const Seq &q, std::unordered_set<int> *e) { return dict.search(q, e); }, ref, pool, "dictionary");
    IntDictImpl copy(dict);
    check_lookup(c, r, copy, [&](const Seq &q, std::unordered_set<int> *e) { return copy.search(q, e); }, ref, pool, "copied dictionary");
    StatDictImpl stat(d);
    check_lookup(c, r, stat, [&](const Seq &q, std::unordered_set<int> *e) { return e ? stat.search(q, e) : stat.search(q); }, ref, pool, "counting dictionary");
    int nested = 0;
    for (int p : ref.par) if (p >= 0) nested++;
    c.n["entries"] += d.size();
    c.n["entries_with_parent"] += nested;
    c.nontrivial = nested > 0;
    c.sample = "dictionary " + show(d) + " with " + std::to_string(nested) + " nested entries";
}

// --- C04
CASE(C04_dict) {
    Rng &r = c.rng;
    int k = symbols_wanted(c, 10, 5000);
    Seq sym = gen_symbols(r, k + r.range(2, r.chance(0.1) ? 300 : 20));
    Seq known(sym.begin(), sym.begin() + k);
    bool closed = r.chance(0.7);
    Seqs d = r.chance(0.25) ? Seqs() : gen_dict(r, known, entries_wanted(r, k, 0, 20), 5, closed);
    c.mix(d);
    struct Twin { std::unique_ptr<IntDict> real; RefDict ref; };
    std::vector<Twin> twins;
    twins.emplace_back();
    IntDictImpl *first = d.empty() && r.chance(0.5) ? new IntDictImpl() : new IntDictImpl(d);
    twins[0].real.reset(first);
    twins[0].ref = RefDict(d);
    long grown = 0;
    int ops = k > 2000 ? r.range(5, 20) : r.range(5, 60);
    for (int i = 0; i < ops; i++) {
        size_t ti = r.next() % twins.size();
        if (twins.size() < 3 && r.chance(0.05)) {
            Twin t;
            t.real.reset(new IntDictImpl(*static_cast<IntDictImpl *>(twins[ti].real.get())));
            t.ref = twins[ti].ref;
            twins.push_back(std::move(t));
            c.n["copies"]++;
            continue;
        }
        Twin &t = twins[ti];
        size_t before = t.ref.ents.size();
        Seq q = gen_query(r, t.ref.ents, sym, 6);
        if (q.empty()) q.push_back(r.pick(sym));
        int how = r.range(0, 3);
        if (how <= 1) {
            int want = t.ref.search(q, nullptr);
            int got = t.real->search(q);
            EXPECT(c, got == want, "lookup", "lookup of " << show(q) << " gives " << got << ", not " << want << " in " << show(t.ref.ents, 60));
        } else if (how == 2) {
            Seq want = t.ref.greedy(q, nullptr), got;
            t.real->parse(q, &got);
            EXPECT(c, got == want, "greedy", "greedy parse of " << show(q) << " gives " << show(got) << ", not " << show(want) << " in " << show(t.ref.ents, 60));
        } else {
            // a weighted parse looks at every position: it must know every symbol afterwards, new ones in this order
            if (!closed) continue;
            for (int x : q) if (t.ref.longest(Seq(1, x), 0, nullptr) < 0) t.ref.add(x);
            Seq got;
            t.real->parse(q, Seq(), 0, &got);
            EXPECT(c, ids_ok(t.ref.ents, got) && spell(t.ref.ents, got) == q, "weighted", "weighted parse of " << show(q) << " gives " << show(got) << " in " << show(t.ref.ents, 60));
        }
        grown += t.ref.ents.size() - before;
        c.n["operations"]++;
        for (Twin &u : twins) {
            EXPECT(c, u.real->alphabet() == u.ref.ents, "entries", "after " << show(q) << " the entries are " << show(u.real->alphabet(), 60) << ", not " << show(u.ref.ents, 60));
            EXPECT(c, u.real->size() == static_cast<int>(u.ref.ents.size()), "size", "size() is " << u.real->size() << ", not " << u.ref.ents.size());
            for (size_t e = 0; e < u.ref.ents.size(); e++) {
                EXPECT(c, u.real->get(e) == u.ref.ents[e], "get", "get(" << e << ") changed");
                EXPECT(c, u.real->parent(e) == u.ref.par[e], "parent", "parent of " << show(u.ref.ents[e]) << " is " << u.real->parent(e) << ", not " << u.ref.par[e]);
            }
        }
        c.mix(q);
    }
    // every entry is found by its own text
    for (Twin &u : twins) for (size_t e = 0; e < u.ref.ents.size(); e++)
        EXPECT(c, u.real->search(u.ref.ents[e]) == static_cast<int>(e), "self", "entry " << show(u.ref.ents[e]) << " is not found by its text");
    c.n["symbols_appended"] += grown;
    c.nontrivial = grown > 1;
    c.sample = "start " + show(d) + ", " + std::to_string(grown) + " symbols appended in " + std::to_string(ops) + " operations, dictionary " + show(twins[0].ref.ents, 30);
}

// --- C05
CASE(C05_dict) {
    Rng &r = c.rng;
    int syms = symbols_wanted(c, 8, 5000);
    Seq sym = gen_symbols(r, syms), pool = sym, extra = gen_symbols(r, 2);
    pool.insert(pool.end(), extra.begin(), extra.end());
    bool closed = r.chance(0.6);
    Seqs d = gen_dict(r, sym, entries_wanted(r, syms, 1, 40), r.range(2, 8), closed);
    c.mix(d);
    IntDictImpl dict(d);
    IntDict *id = &dict;
    RefDict ref(d);
    long skipped = 0, used = 0;
    for (int k = 0, ops = r.range(4, 15); k < ops; k++) {
        Seq q = gen_query(r, d, r.chance(0.7) ? sym : pool, r.chance(0.1) ? 200 : 30), got;
        if (r.chance(0.6)) {
            std::unordered_set<int> ex;
            double p = r.chance(0.2) ? 1.0 : r.uniform();
            for (int i = 0; i < id->size(); i++) if (r.chance(p)) ex.insert(i);
            if (r.chance(0.2)) ex.insert(id->size() + 5);
            std::unordered_set<int> before = ex;
            Seq want = ref.greedy(q, &ex);
            int n = id->parse(q, &got, &ex);
            EXPECT(c, got == want, "greedy-excluding", "greedy parse of " << show(q) << " gives " << show(got) << ", not " << show(want) << " over " << show(ref.ents, 60));
            EXPECT(c, n == static_cast<int>(got.size()), "count", "parse returned " << n << " for " << got.size());
            EXPECT(c, ex == before, "excludes-changed", "parse changed the exclusion set");
            long l = spell(ref.ents, want).size();
            skipped += q.size() - l;
        } else {
            Seq want = ref.greedy(q, nullptr);
            id->parse(q, &got);
            EXPECT(c, got == want, "greedy", "greedy parse of " << show(q) << " gives " << show(got) << ", not " << show(want) << " over " << show(ref.ents, 60));
        }
        EXPECT(c, id->alphabet() == ref.ents, "entries", "greedy parse left entries " << show(id->alphabet(), 60) << ", not " << show(ref.ents, 60));
        for (int x : got) if (ref.ents[x].size() > 1) used++;
        c.n["parses"]++;
        c.mix(got);
    }
    c.n["symbols_skipped"] += skipped;
    c.n["longer_entries_used"] += used;
    c.nontrivial = used > 0;
    c.sample = "dictionary " + show(d) + ", " + std::to_string(used) + " longer entries used, " + std::to_string(skipped) + " symbols skipped";
}

// --- C06, C07: usage statistics and initial frequencies
static void stat_history(Case &c, bool seeded) {
    Rng &r = c.rng;
    int syms = symbols_wanted(c, 8, 4000);
    Seq sym = gen_symbols(r, syms), pool = sym, extra = gen_symbols(r, 3);
    pool.insert(pool.end(), extra.begin(), extra.end());
    Seqs d = !seeded && r.chance(0.15) ? Seqs() : gen_dict(r, sym, entries_wanted(r, syms, 0, 25), r.range(2, 6), true);
    double mp = r.chance(0.5) ? 0.002 : r.chance(0.5) ? 0.01 + 0.2 * r.uniform() : 0.0005 + 0.01 * r.uniform();
    Seq init;
    for (size_t i = 0; i < d.size(); i++) init.push_back(r.chance(0.3) ? 0 : r.range(0, r.chance(0.02) ? 1000000000 : r.chance(0.3) ? 5000 : 30));
    c.mix(d);
    Seq init_before = init;
    std::unique_ptr<StatDictImpl> s;
    if (seeded) s.reset(new StatDictImpl(d, mp, &init));
    else if (d.empty()) s.reset(new StatDictImpl(mp));
    else s.reset(new StatDictImpl(d, mp));
    EXPECT(c, init == init_before, "init-changed", "the initial frequencies were changed");
    std::map<Seq, double> seed;
    double seed_total = 0;
    if (seeded) for (size_t i = 0; i < d.size(); i++) { seed[d[i]] = init[i]; seed_total += init[i]; }
    std::vector<double> use(s->size(), 0);
    double P = 0, chars = 0;
    long multi = 0;
    int ops = syms > 2000 ? r.range(3, 8) : r.range(3, 40);
    for (int k = 0; k < ops; k++) {
        if (r.chance(0.1) && s->size() > 0) {
            int i = r.next() % s->size(), f = r.range(0, 50);
            if (i < static_cast<int>(use.size()) && r.chance(0.3)) f = -r.range(0, static_cast<int>(std::min(use[i], 1e9))); // a correction
            s->update_symbol(i, f);
            if (static_cast<int>(use.size()) < s->size()) use.resize(s->size(), 0);
            use[i] += f;
            P += f;
            c.n["updates"]++;
        } else {
            Seq q = gen_query(r, d, r.chance(0.85) ? sym : pool, 40), out;
            size_t before = s->size();
            std::vector<double> w = use;
            w.resize(before, 0);
            for (size_t i = 0; i < before; i++) { auto it = seed.find(s->get(i)); if (it != seed.end()) w[i] += it->second; }
            int n = s->parse(q, &out);
            EXPECT(c, n == static_cast<int>(out.size()) && ids_ok(s->alphabet(), out), "index", "counting parse gave " << n << " entries: " << show(out));
            if (seeded && static_cast<size_t>(s->size()) == before)
                check_best_parse(c, "counting parse", s->alphabet(), w, P + seed_total, q, out);
            use.resize(s->size(), 0);
            for (int x : out) { use[x]++; P++; if (s->get(x).size() > 1) multi++; }
            chars += q.size();
            c.mix(out);
            c.n["parses"]++;
        }
        for (int i = 0; i < s->size(); i++) {
            double u = i < static_cast<int>(use.size()) ? use[i] : 0;
            EXPECT(c, s->freq(i) == u, "freq", "entry " << show(s->get(i)) << " was used " << u << " times, freq() says " << s->freq(i));
        }
        if (chars > 0 && P > 0) {
            double sum = 0;
            for (double u : use) if (u > 0) sum -= u * std::log(u);
            double want = (sum + P * std::log(P)) / chars, got = s->code_length_per_char();
            EXPECT(c, std::fabs(want - got) <= 1e-9 * (1 + std::fabs(want)), "code-length", "code length per symbol is " << got << ", not " << want << " (total usage " << P << ", " << chars << " symbols)");
        }
        double ps[] = {0.1, 0.5, 0.9, 0.01, r.uniform(), P > 0 ? std::exp(-mp * (P - 0.5)) : 0.3, std::exp(-mp * (P + 0.5))};
        for (double p : ps) {
            if (p <= 0 || p >= 1) continue;
            double t = -std::log(p) / mp;
            if (std::fabs(t - P) < 1e-6 * t) continue;
            EXPECT(c, s->enough(p) == (P > t), "enough", "enough(" << p << ") is " << s->enough(p) << " at usage " << P << ", bound " << t);
            c.n[P > t ? "enough_true" : "enough_false"]++;
        }
    }
    c.n["longer_entries_used"] += multi;
    c.nontrivial = multi > 0;
    c.sample = std::string(seeded ? "seeded" : "plain") + " counting dictionary " + show(d) + (seeded ? " with " + show(init) : "") + ", " + std::to_string(ops) + " operations, usage " + std::to_string(long(P));
}
CASE(C06_stat) { stat_history(c, c.rng.chance(0.3)); }
CASE(C07_stat) { stat_history(c, true); }

CASE(C07_builder) {
    Rng &r = c.rng;
    int syms = symbols_wanted(c, 8, 3000);
    Seq sym = gen_symbols(r, syms);
    Seqs d = gen_dict(r, sym, entries_wanted(r, syms, 0, 30), 6, true);
    IntDictImpl dict(d);
    Seqs late;
    if (r.chance(0.3)) for (int x : gen_symbols(r, 3)) dict.search(Seq(1, x), nullptr);
    Seq f;
    int most = r.chance(0.1) ? 1000000000 : 10000;
    for (int i = 0; i < dict.size(); i++) f.push_back(r.chance(0.2) ? 0 : r.range(0, most));
    c.mix(dict.alphabet()); c.mix(f);
    Seqs symbols;
    for (auto &e : dict.alphabet()) if (e.size() == 1) symbols.push_back(e);
    double mp = 0.002 * (0.01 + 0.99 * r.uniform());
    IntVGramBuilderImpl b(dict, f, symbols, mp, 0);
    auto check = [&](const char *when) {
        Seq got;
        int n = b.result_freqs(&got);
        const Seqs &ents = b.result()->alphabet();
        EXPECT(c, n == static_cast<int>(got.size()) && got.size() == ents.size(), "aligned", when << ": " << got.size() << " frequencies for " << ents.size() << " entries");
        std::map<Seq, int> want;
        for (int i = 0; i < dict.size(); i++) want[dict.get(i)] = f[i];
        EXPECT(c, want.size() == ents.size(), "entries", when << ": restored builder has " << ents.size() << " entries, not " << want.size());
        for (size_t i = 0; i < ents.size(); i++) {
            EXPECT(c, want.count(ents[i]), "entries", when << ": unexpected entry " << show(ents[i]));
            EXPECT(c, want[ents[i]] == got[i], "freq", when << ": entry " << show(ents[i]) << " has frequency " << got[i] << ", restored from " << want[ents[i]]);
        }
        EXPECT(c, b.get_min_probability() == mp, "min-prob", when << ": minimum probability " << b.get_min_probability() << ", restored from " << mp);
    };
    check("restored");
    long accepted = 0;
    for (int k = 0, n = r.range(0, 15); k < n && accepted < 300; k++) { Seq q = gen_query(r, d, sym, 20); accepted += q.size(); b.accept(q); check("after accept"); }
    c.nontrivial = dict.size() > static_cast<int>(sym.size());
    c.n["entries_restored"] += dict.size();
    c.sample = "restored builder over " + show(dict.alphabet()) + " with " + show(f);
}

// --- C28
CASE(C28_dirichlet) {
    Rng &r = c.rng;
    int k = r.range(1, r.chance(0.1) ? 200 : 12);
    std::vector<double> a, out;
    double A = 0;
    int mode = r.range(0, 3);
    for (int i = 0; i < k; i++) {
        double x = mode == 0 ? 1 : mode == 1 ? 1 + r.range(0, 100) : mode == 2 ? 1 + std::floor(std::exp(r.uniform() * 16)) : 1 + r.uniform() * 1000;
        a.push_back(x);
        A += x;
    }
    out.assign(k, -7);
    std::vector<double> before = a;
    next_dirichlet(a, &out);
    EXPECT(c, a == before, "params-changed", "sampling changed the parameters");
    EXPECT(c, static_cast<int>(out.size()) == k, "size", "sample has " << out.size() << " components for " << k);
    double sum = 0;
    for (int i = 0; i < k; i++) {
        EXPECT(c, std::isfinite(out[i]) && out[i] >= 0 && out[i] <= 1 + 1e-9, "range", "component " << i << " is " << out[i]);
        sum += out[i];
        double m = a[i] / A, sd = std::sqrt(m * (1 - m) / (A + 1));
        // a component with a small parameter has an exponential upper tail: the allowance grows with sd and 1/A
        double allow = 8 * sd + 40 / A;
        EXPECT(c, std::fabs(out[i] - m) <= allow, "mean", "component " << i << " is " << out[i] << ", mean " << m << ", standard deviation " << sd);
        if (allow < m) c.n["components_bounded_tightly"]++;
        c.mix(out[i]);
    }
    EXPECT(c, std::fabs(sum - 1) < 1e-9, "sum", "components add up to " << sum);
    c.n["components"] += k;
    c.nontrivial = k > 1;
    std::ostringstream o;
    o << k << " parameters, first " << a[0] << " -> " << out[0];
    c.sample = o.str();
}

// --- C20: the generic encoder
CASE(C20_encoder) {
    Rng &r = c.rng;
    Encoder<int> ei;
    Encoder<std::string> es;
    std::map<int, int> mi;
    bool wide = c.index % 5000 == 2501;
    Seq sym = gen_symbols(r, wide ? r.range(66000, 72000) : r.range(1, 200));
    if (wide) c.n["encoders_above_65536"]++;
    long reused = 0;
    for (int k = 0, n = r.range(1, 12); k < n; k++) {
        Seq s = wide && k < 2 ? sym : gen_seq(r, sym, r.range(0, 60)), oi, os, want;
        std::vector<std::string> t;
        for (int x : s) {
            if (!mi.count(x)) { int id = mi.size(); mi[x] = id; } else reused++;
            want.push_back(mi[x]);
            t.push_back("t" + std::to_string(x));
        }
        ei.encode(s, &oi);
        es.encode(t, &os);
        EXPECT(c, oi == want, "encode", "Encoder<int> gives " << show(oi) << ", not " << show(want));
        EXPECT(c, os == want, "encode", "Encoder<string> gives " << show(os) << ", not " << show(want));
        EXPECT(c, ei.size() == static_cast<int>(mi.size()) && es.size() == ei.size(), "size", "Encoder::size is " << ei.size() << ", not " << mi.size());
        c.mix(oi);
        c.n["encodes"]++;
    }
    c.nontrivial = mi.size() > 1 && reused > 0;
    c.sample = std::to_string(mi.size()) + " items encoded, " + std::to_string(reused) + " repeats";
}

// --- C08..C12: the builder against its shadow
struct History {
    Seqs given;          // start dictionary
    Seq symbols;         // symbols of the source
    Seq late;            // symbols that come later
    int size;
    Source src;
    int minlen = 0, maxlen = 40;
};
static History gen_history(Case &c, int start_kind) {
    Rng &r = c.rng;
    History h;
    int k = r.chance(0.1) ? r.range(30, 120) : r.range(1, 14);
    Seq all = gen_symbols(r, k + 6);
    h.symbols = Seq(all.begin(), all.begin() + k);
    h.late = Seq(all.begin() + k, all.end());
    if (start_kind == 1) for (int x : h.symbols) h.given.push_back(Seq(1, x));
    if (start_kind == 2) h.given = gen_dict(r, h.symbols, r.range(1, 20), 5, true);
    int sizes[] = {0, 1, k - 1, k, k + 1, k + 3, k + r.range(1, 30), k + r.range(20, 100), 1000};
    h.size = std::max(0, sizes[r.next() % 9]);
    if (r.chance(0.5)) h.size = k + r.range(2, 40);
    h.maxlen = r.chance(0.2) ? 8 : r.range(10, 60);
    h.src = Source::make(r, h.symbols, -1, 0, h.maxlen);
    return h;
}

// more entries than 16 bits can number, usage among the first, the middle and the last of them
static History wide_history(Case &c) {
    Rng &r = c.rng;
    History h;
    int n = 65536 + r.range(40, 4000), step = r.chance(0.5) ? 1 : r.range(2, 20000);
    for (int i = 0; i < n; i++) h.given.push_back(Seq(1, i * step));
    std::set<int> hot;
    for (int i = r.range(2, 5); i > 0; i--) { hot.insert(r.range(0, 5)); hot.insert(n - 1 - r.range(0, 15)); hot.insert(65533 + r.range(0, 6)); hot.insert(r.range(0, n - 1)); }
    for (int x : hot) h.symbols.push_back(x * step);
    h.late = {-7, n * step + 3};
    h.size = n + r.range(0, 60);
    h.src = Source::make(r, h.symbols, -1, 0, 60);
    c.n["wide_histories"]++;
    return h;
}

enum Focus { EXPANSION, REDUCTION, SCHEDULE };

static void builder_history(Case &c, Focus focus) {
    Rng &r = c.rng;
    int start = r.range(0, 3); // 0 streamed, 1 symbols given, 2 dictionary given, 3 restored
    if (focus == EXPANSION && start == 3) start = 2;
    bool wide = c.index % 500 == 111;
    if (wide) start = 2;
    History h = wide ? wide_history(c) : gen_history(c, start == 3 ? 2 : start);
    if (start == 2) for (auto &e : h.given) if (e.size() > 1) { c.n["multi_starts"]++; break; }
    std::unique_ptr<IntVGramBuilderImpl> b;
    std::unique_ptr<Shadow> sh;
    bool visible_live = true; // result() shows the live dictionary (before the first cut)
    if (start == 0) { b.reset(new IntVGramBuilderImpl(h.size, 0)); sh.reset(new Shadow(h.size, Seqs())); }
    else if (start == 3) {
        IntDictImpl d(h.given);
        Seq f;
        for (int i = 0; i < d.size(); i++) f.push_back(r.range(0, 400));
        Seqs symbols;
        for (int x : h.symbols) symbols.push_back(Seq(1, x));
        double mp = 0.002 * (0.2 + 0.8 * r.uniform());
        h.size = std::max(h.size, 1);
        b.reset(new IntVGramBuilderImpl(d, f, symbols, mp, 0, h.size));
        sh.reset(new Shadow(h.size, d.alphabet(), f, symbols, mp));
        visible_live = false;
    } else if (start == 1 && r.chance(0.5)) { b.reset(new IntVGramBuilderImpl(h.symbols, h.size, 0)); sh.reset(new Shadow(h.size, h.given)); }
    else { IntDictImpl d(h.given); b.reset(new IntVGramBuilderImpl(d, h.size, 0)); sh.reset(new Shadow(h.size, h.given)); }
    c.mix(h.given);
    c.mix(uint64_t(h.size));
    double last_mp = b->get_min_probability();
    if (start != 3) EXPECT(c, last_mp == -1, "min-prob-first", "minimum probability before any cut is " << last_mp);
    long want_rebuilds = focus == EXPANSION ? 1 : focus == REDUCTION ? 2 : r.range(2, 6);
    if (focus == REDUCTION && r.chance(0.4)) want_rebuilds = 4;
    if (focus == EXPANSION && r.chance(0.25)) want_rebuilds = 4;
    if (wide) want_rebuilds = std::min(want_rebuilds, 2L);
    long rebuilds = 0, longer = 0;
    long budget = g_thorough ? 200000 : 60000;
    // long histories whose text becomes more or less regular: patience runs out and is renewed
    bool moody = focus == SCHEDULE && r.chance(0.25);
    if (moody) { want_rebuilds = r.range(8, 16); budget *= 3; }
    Shadow *const shp = sh.get();
    auto renewed = [&](int before) { if (shp->turns == 0 && before > 0) c.n["patience_renewed"]++; if (shp->turns > 3) c.n["bounds_raised"]++; };
    Seq frozen;               // frequencies reported while an extended dictionary is hidden
    bool is_frozen = false;
    Seqs hidden_kept;         // published dictionary while an extension is hidden
    bool sure = true;
    double late_p = r.chance(0.3) ? 0.01 : 0;
    while (rebuilds < want_rebuilds && budget > 0) {
        Seq q = h.src.draw(r);
        if (late_p > 0 && r.chance(late_p) && !q.empty()) q[r.next() % q.size()] = r.pick(h.late);
        budget -= q.size() + 1;
        b->accept(q);
        sh->accept(q);
        c.n["sequences"]++;
        Seq bf;
        b->result_freqs(&bf);
        std::shared_ptr<IntDict> res = b->result();
        bool hidden = !visible_live && !sh->populate;      // an extended dictionary is in the making, unseen
        bool live = !hidden && !(is_frozen);
        double total = 0;
        for (int f : bf) total += f;
        bool due = sh->due();
        if (!sh->due_sure()) { c.n["undecided_threshold"]++; return; }
        if (start == 3 && rebuilds == 0) live = false;     // a restored builder reports restored numbers until its first cut
        if (live) {
            bool rebuilt_visibly = total == 0 && sh->P > 0;
            bool expand_hidden = !visible_live && sh->populate && due;
            if (!rebuilt_visibly) {
                Seq want(sh->use.begin(), sh->use.end());
                want.resize(bf.size(), 0);
                if (!(want == bf) || res->alphabet() != sh->ents()) {
                    if (!sh->seeds_sure) { c.n["ambiguous_histories"]++; return; }
                    c.fail("usage", "after " + show(q) + " the builder reports usage " + show(bf, 60) + " over " + show(res->alphabet(), 30) + ", it is " + show(want, 60) + " over " + show(sh->ents(), 30));
                }
            }
            if (visible_live || !sh->populate) {
                if (rebuilt_visibly != due) {
                    if (!sh->seeds_sure) { c.n["ambiguous_histories"]++; return; }
                    if (focus == SCHEDULE || rebuilt_visibly == false)
                        c.fail("schedule", std::string(rebuilt_visibly ? "rebuilt early" : "not rebuilt when due") + " at usage " + std::to_string(sh->P) + ", bound " + std::to_string(-std::log(sh->prob) / sh->minp));
                    due = true; // go by what happened
                }
            } else if (rebuilt_visibly) c.fail("schedule", "a cut without an extension before it");
            (void) expand_hidden;
        } else if (is_frozen) {
            bool cut_now = res->alphabet() != hidden_kept || bf != frozen;
            // a cut that keeps the dictionary as it was shows in the frequencies starting anew
            if (cut_now != due && !(due && hidden_kept == res->alphabet() && bf == frozen)) {
                if (!sure) { c.n["ambiguous_histories"]++; return; }
                c.fail("schedule", std::string(cut_now ? "rebuilt early" : "not rebuilt when due") + " at usage " + std::to_string(sh->P) + ", bound " + std::to_string(-std::log(sh->prob) / sh->minp) + " (after a hidden extension)");
            }
        }
        double mp = b->get_min_probability();
        if (!due) {
            EXPECT(c, mp == last_mp, "min-prob-moved", "minimum probability moved from " << last_mp << " to " << mp << " between rebuilds");
            continue;
        }
        // --- a rebuild has just happened
        rebuilds++;
        c.n[sh->populate ? "extensions" : "cuts"]++;
        int turns_before = sh->turns;
        sh->note_rate();
        if (sh->prob_open) { c.n["undecided_patience"]++; break; }
        renewed(turns_before);
        if (moody && r.chance(0.4)) {
            // few symbols compress well, many badly
            Seq some = h.symbols;
            r.shuffle(some);
            some.resize(r.range(1, some.size()));
            h.src = Source::make(r, some, -1, 0, h.maxlen);
        }
        if (sh->populate) {
            std::map<Seq, Cand> js = sh->joins();
            std::map<Seq, long> seeds;
            for (size_t i = 0; i < sh->ents().size(); i++) seeds[sh->ents()[i]] = sh->use[i];
            double total_pairs = sh->pair_total(), new_mp = sh->minp;
            bool seeds_sure = true;
            Seqs next;
            if (visible_live) {
                std::set<Seq> got(res->alphabet().begin(), res->alphabet().end());
                EXPECT(c, got.size() == static_cast<size_t>(res->size()), "duplicate", "the extended dictionary has duplicates: " << show(res->alphabet(), 60));
                for (auto &e : sh->ents()) EXPECT(c, got.count(e), "entry-lost", "the extension lost the entry " << show(e));
                std::vector<Cand> cs;
                std::map<Seq, int> known = index_of(sh->ents());
                for (auto &e : got) if (!known.count(e)) {
                    EXPECT(c, js.count(e), "not-adjacent", "the extension added " << show(e) << ", which joins no adjacent entries");
                    js[e].selected = true;
                    longer++;
                }
                double m = sh->minp, m_other = sh->minp;
                for (auto &kv : js) {
                    cs.push_back(kv.second);
                    if (!kv.second.selected) continue;
                    seeds[kv.first] = *kv.second.counts.begin();
                    if (kv.second.counts.size() > 1) seeds_sure = false;
                    m = std::min(m, *kv.second.counts.begin() / total_pairs);
                    m_other = std::min(m_other, *kv.second.counts.rbegin() / total_pairs);
                }
                new_mp = m;
                if (m != m_other) seeds_sure = false;
                if (focus == EXPANSION || focus == SCHEDULE) {
                    if (focus == EXPANSION) check_selection(c, "extension", cs, sh->expand_room(), 1e-7);
                    EXPECT(c, mp == -1, "min-prob-first", "minimum probability after the first extension is " << mp);
                }
                next = res->alphabet();
            } else {
                // hidden: predict it, if nothing about it is left open
                std::vector<Cand> cs;
                for (auto &kv : js) cs.push_back(kv.second);
                std::sort(cs.begin(), cs.end(), [](const Cand &x, const Cand &y) { return x.lo > y.lo; });
                auto room = sh->expand_room();
                if (room.first != room.second) sure = false;
                next = sh->ents();
                size_t taken = 0;
                while (taken < cs.size() && static_cast<long>(taken) < room.first && cs[taken].lo >= 0) {
                    const Cand &k = cs[taken++];
                    if (k.counts.size() > 1 || k.hi - k.lo > 1e-9 * std::fabs(k.lo) || std::fabs(k.lo) < 1e-7) sure = false;
                    next.push_back(k.text);
                    seeds[k.text] = *k.counts.begin();
                    new_mp = std::min(new_mp, *k.counts.begin() / total_pairs);
                }
                for (size_t i = taken; i < cs.size(); i++) {
                    double bar = static_cast<long>(taken) == room.first && taken > 0 ? cs[taken - 1].lo : 0;
                    if (cs[i].hi > bar - 1e-9 * std::fabs(bar) - 1e-7) sure = false;
                }
                EXPECT(c, mp == last_mp, "min-prob-moved", "a hidden extension moved the minimum probability from " << last_mp << " to " << mp);
                if (!sure) { c.n["ambiguous_histories"]++; break; }
                c.n["hidden_extensions_followed"]++;
                frozen = bf;
                is_frozen = true;
                hidden_kept = res->alphabet();
            }
            sh->seeds_sure = seeds_sure;
            sh->restart(next, seeds, new_mp);
            sh->note_alphabet();
        } else {
            std::set<Seq> got(res->alphabet().begin(), res->alphabet().end());
            std::map<Seq, int> index = index_of(sh->ents());
            if (!sh->seeds_sure && !sure) { c.n["ambiguous_histories"]++; return; }
            std::unordered_set<int> unused = sh->unused_entries();
            size_t ml = max_len(sh->ents());
            if (focus == REDUCTION || focus == SCHEDULE) {
                EXPECT(c, got.size() == static_cast<size_t>(res->size()), "duplicate", "the cut dictionary has duplicates: " << show(res->alphabet(), 60));
                for (auto &e : got) {
                    EXPECT(c, index.count(e), "not-subset", "the cut dictionary has " << show(e) << ", which the extended one had not");
                    EXPECT(c, e.size() == 1 || !unused.count(index[e]), "unused-kept", "the cut kept " << show(e) << ", unused since the extension");
                }
                for (auto &e : sh->ents()) if (e.size() == 1) EXPECT(c, got.count(e), "symbol-lost", "the cut lost the symbol " << show(e));
            }
            if (focus == REDUCTION) {
                std::vector<Cand> cs;
                for (size_t i = 0; i < sh->ents().size(); i++) {
                    if (sh->ents()[i].size() < 2 || unused.count(i)) continue;
                    Cand k = sh->gain(i, unused, index, ml);
                    k.selected = got.count(k.text);
                    if (std::isinf(k.lo)) c.n["gains_left_open"]++;
                    cs.push_back(k);
                }
                check_selection(c, "cut", cs, sh->reduce_room(), sh->eps());
            }
            double power = 0;
            for (auto &e : got) power += sh->use[index[e]];
            EXPECT(c, mp > 0 && mp <= 0.002, "min-prob-range", "minimum probability after a cut is " << mp);
            EXPECT(c, last_mp < 0 || mp <= last_mp * (1 + 1e-12), "min-prob-rose", "minimum probability rose from " << last_mp << " to " << mp);
            for (auto &e : got) if (e.size() > 1) {
                longer++;
                double p = (sh->use[index[e]] + 1.0) / (power + sh->ents().size());
                EXPECT(c, mp <= p * (1 + 1e-12), "min-prob-above", "minimum probability " << mp << " is above that of " << show(e) << ", " << p);
            }
            std::map<Seq, long> seeds;
            for (auto &e : got) seeds[e] = sh->use[index[e]];
            sh->seeds_sure = true;
            sh->restart(res->alphabet(), seeds, mp);
            sh->note_alphabet();
            visible_live = false;
            is_frozen = false;
        }
        last_mp = mp;
        c.mix(res->alphabet());
        c.mix(mp);
    }
    c.n["rebuilds"] += rebuilds;
    c.n["longer_entries_seen"] += longer;
    c.nontrivial = rebuilds > 0 && longer > 0;
    std::ostringstream o;
    o << "start " << start << " source " << h.src.kind << " symbols " << h.symbols.size() << " size " << h.size << ": " << rebuilds << " rebuilds, dictionary " << show(b->result()->alphabet(), 15);
    c.sample = o.str();
}
CASE(C10_builder) { builder_history(c, EXPANSION); }
CASE(C11_builder) { builder_history(c, REDUCTION); }
CASE(C12_builder) { builder_history(c, SCHEDULE); }

// --- C08, C09 (builder level)
CASE(C08_builder) {
    Rng &r = c.rng;
    int start = r.range(0, 2);
    History h = gen_history(c, start);
    std::unique_ptr<IntVGramBuilderImpl> b;
    if (start == 0) b.reset(new IntVGramBuilderImpl(h.size, 0));
    else { IntDictImpl d(h.given); b.reset(new IntVGramBuilderImpl(d, h.size, 0)); }
    Seqs data;
    std::set<int> seen;
    std::set<Seq> proven(h.given.begin(), h.given.end());
    long longer = 0, rebuilds = 0;
    long budget = r.chance(0.3) ? 40000 : 12000;
    double late_p = r.chance(0.5) ? 0.01 : 0;
    for (auto &e : h.given) if (e.size() == 1) seen.insert(e[0]);
    double prev_total = 0;
    while (budget > 0) {
        Seq q = h.src.draw(r);
        if (late_p > 0 && r.chance(late_p) && !q.empty()) q[r.next() % q.size()] = r.pick(h.late);
        budget -= q.size() + 1;
        b->accept(q);
        data.push_back(q);
        seen.insert(q.begin(), q.end());
        c.n["sequences"]++;
        Seq f;
        b->result_freqs(&f);
        std::shared_ptr<IntDict> res = b->result();
        const Seqs &ents = res->alphabet();
        EXPECT(c, f.size() == ents.size(), "aligned", f.size() << " frequencies for " << ents.size() << " entries");
        double total = 0;
        for (int x : f) total += x;
        bool rebuilt = total < prev_total;
        prev_total = total;
        if (!rebuilt && !r.chance(0.1)) continue;
        std::set<Seq> uniq(ents.begin(), ents.end());
        EXPECT(c, uniq.size() == ents.size(), "duplicate", "duplicate entries in " << show(ents, 60));
        EXPECT(c, !uniq.count(Seq()), "empty", "an empty entry");
        for (auto &e : uniq) {
            if (proven.count(e)) continue;
            EXPECT(c, e.size() == 1 ? seen.count(e[0]) > 0 : occurs_in(data, e), "not-in-data", "entry " << show(e) << " occurs in no accepted sequence");
            proven.insert(e);
            if (e.size() > 1) longer++;
        }
        if (rebuilt) {
            rebuilds++;
            for (int x : seen) EXPECT(c, uniq.count(Seq(1, x)), "symbol-missing", "symbol " << x << " is missing after a rebuild (size limit " << h.size << ", " << seen.size() << " symbols) in " << show(ents, 60));
            if (uniq.size() < seen.size() + 1 && h.size < static_cast<int>(seen.size())) c.n["rebuilds_below_alphabet_size"]++;
            c.mix(ents);
        }
    }
    c.n["rebuilds_seen"] += rebuilds;
    c.n["longer_entries_traced"] += longer;
    c.nontrivial = rebuilds > 0;
    c.sample = "symbols " + std::to_string(seen.size()) + " size " + std::to_string(h.size) + ": " + std::to_string(rebuilds) + " rebuilds, " + std::to_string(longer) + " longer entries traced to the data";
}

CASE(C09_builder) {
    Rng &r = c.rng;
    int start = r.range(0, 3);
    History h = gen_history(c, start < 2 ? 1 : 2);
    std::unique_ptr<IntVGramBuilderImpl> b;
    if (start == 0) { b.reset(new IntVGramBuilderImpl(h.size, 0)); b->accept(h.symbols); }
    else if (start == 1) b.reset(new IntVGramBuilderImpl(h.symbols, h.size, 0));
    else if (start == 2) { IntDictImpl d(h.given); Seqs s; for (int x : h.symbols) s.push_back(Seq(1, x)); b.reset(new IntVGramBuilderImpl(IntDictImpl(s), h.size, 0)); }
    else {
        IntDictImpl d(h.given);
        Seqs s;
        for (int x : h.symbols) s.push_back(Seq(1, x));
        h.size = std::max(h.size, 1);
        b.reset(new IntVGramBuilderImpl(d, Seq(d.size(), 3), s, 0.001, 0, h.size));
    }
    long limit = std::max<long>(h.size, h.symbols.size()), cuts = 0, full = 0;
    double prev = b->get_min_probability();
    long budget = g_thorough ? 120000 : 30000;
    double prev_total = -1;
    bool cut_seen = false;
    while (budget > 0) {
        Seq q = h.src.draw(r);
        budget -= q.size() + 1;
        b->accept(q);
        Seq f;
        b->result_freqs(&f);
        double total = 0;
        for (int x : f) total += x;
        if (start != 3 && b->get_min_probability() > 0) cut_seen = true;
        if (start == 3 && total == 0 && prev_total > 0) cut_seen = true;
        if (total < prev_total) cuts++;
        prev_total = total;
        prev = b->get_min_probability();
        if (!cut_seen) continue;
        long n = b->result()->size();
        EXPECT(c, n <= limit, "over-limit", "dictionary of " << n << " entries, limit " << h.size << ", " << h.symbols.size() << " symbols");
        if (n == limit) full++;
        c.n["sizes_checked"]++;
    }
    c.n["rebuilds_seen"] += cuts;
    c.n["at_limit"] += full;
    c.nontrivial = cut_seen;
    c.mix(uint64_t(b->result()->size()));
    c.mix(b->result()->alphabet());
    c.sample = "limit " + std::to_string(h.size) + ", " + std::to_string(h.symbols.size()) + " symbols: dictionary of " + std::to_string(b->result()->size()) + " after " + std::to_string(cuts) + " visible rebuilds";
    (void) prev;
}
