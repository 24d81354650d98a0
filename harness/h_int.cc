// Integer models: stream, fitted, saved, loaded, interrupted.
#include "faults.h"
#include <loader.h>
#include <saver.h>
using vgram_core::Loader;
using vgram_core::Saver;

static double file_min_prob(const IntStreamVGram &m) {
    std::string f = scratch("minprob.json");
    m.save(f);
    return json::parse(read_file(f))["min_prob"].get<double>();
}

static std::shared_ptr<IntStreamVGram> reload(const IntStreamVGram &m) {
    std::string f = scratch("reload.json");
    m.save(f);
    return Loader::load_int_stream_vgram(f);
}
static std::shared_ptr<IntVGram> reload(const IntVGram &m) {
    std::string f = scratch("reload_fit.json");
    m.save(f);
    return std::shared_ptr<IntVGram>(Loader::load_int_vgram(f));
}

// --- more symbols than 16 bits can number, and words among the first and the last of them
static bool big_turn(const Case &c) { return c.index % 399 == 392; }
static void big_vocabulary(Case &c, bool fitted) {
    Rng &r = c.rng;
    int n = 65536 + r.range(20, 5000), step = r.chance(0.5) ? 1 : -r.range(2, 20000);
    Seq hot;
    for (int i = 0; i < 4; i++) { hot.push_back(r.range(0, 5) * step); hot.push_back((n - 1 - r.range(0, 15)) * step); hot.push_back((65534 + r.range(0, 5)) * step); }
    Seqs words, data;
    for (int i = 0; i < 8; i++) words.push_back(gen_seq(r, hot, r.range(2, 5)));
    std::unordered_map<long, int> pairs; // adjacent symbols
    std::set<int> known;
    auto add = [&](const Seq &q) { for (size_t i = 0; i + 1 < q.size(); i++) pairs[long(q[i]) * 4294967296L + q[i + 1]]++; known.insert(q.begin(), q.end()); data.push_back(q); };
    int len = r.chance(0.5) ? r.range(10, 60) : r.range(500, 4000);
    for (int i = 0; i < n;) { Seq q; for (int k = r.range(1, len); k > 0 && i < n; k--) q.push_back(step * i++); add(q); }
    size_t cold = data.size();
    for (int i = r.range(200, 500); i > 0; i--) {
        Seq q;
        while (q.size() < 80) if (r.chance(0.9)) { const Seq &w = r.pick(words); q.insert(q.end(), w.begin(), w.end()); } else q.push_back(step * r.range(0, n - 1));
        add(q);
    }
    Seqs recent(data.begin() + cold, data.end());
    int size = n + r.range(20, 3000);
    std::shared_ptr<IntStreamVGram> m;
    std::shared_ptr<IntVGram> f;
    if (fitted) {
        srand(static_cast<unsigned>(r.next()));
        f = std::make_shared<IntVGram>(size, 1, 0);
        EXPECT(c, f->fit(data) == f.get(), "fit", "fit did not return the model");
        m = f;
        check_counts_data(c, "fitted model of a big vocabulary", *m, data);
    } else {
        m = std::make_shared<IntStreamVGram>(size, 0);
        for (auto &q : data) m->accept(q);
        m->update_dict();
    }
    long longer = 0;
    for (int turn = 0; turn < 2; turn++) {
        const char *what = turn ? "loaded model of a big vocabulary" : "model of a big vocabulary";
        Seqs alpha = m->alphabet();
        EXPECT(c, m->freqs().size() == alpha.size(), "aligned", what << ": " << m->freqs().size() << " frequencies for " << alpha.size() << " entries");
        std::set<Seq> seen;
        size_t singles = 0;
        for (auto &e : alpha) {
            EXPECT(c, !e.empty() && seen.insert(e).second, "duplicate", what << ": entry " << show(e) << " is empty or there twice");
            if (e.size() == 1) { singles++; continue; }
            longer++;
            bool there = true;
            for (size_t i = 0; i + 1 < e.size(); i++) there = there && pairs.count(long(e[i]) * 4294967296L + e[i + 1]);
            EXPECT(c, there && (e.size() == 2 || occurs_in(data, e)), "not-in-data", what << ": entry " << show(e) << " occurs in no accepted sequence");
        }
        EXPECT(c, fitted || singles == known.size(), "symbols", what << ": " << singles << " single symbols, " << known.size() << " were accepted");
        for (int i = 0; i < 4; i++) {
            const Seq &q = i == 3 ? r.pick(data) : r.pick(recent);
            Seq out = m->parse(q);
            EXPECT(c, ids_ok(alpha, out) && spell(alpha, out) == q, "lossless", what << ": parse of " << show(q) << " spells " << (ids_ok(alpha, out) ? show(spell(alpha, out)) : show(out)));
            if (i == 0) check_best_parse(c, what, alpha, dbls(m->freqs()), sum_of(m->freqs()), q, out);
            c.mix(out);
            c.n["parses"]++;
        }
        if (turn == 0) {
            std::shared_ptr<IntStreamVGram> l;
            if (fitted) l = reload(*f); else l = reload(*m);
            EXPECT(c, l->alphabet() == alpha && l->freqs() == m->freqs(), "round-trip", "a saved and loaded model of a big vocabulary has another alphabet or other frequencies");
            m = l;
        }
    }
    c.n["big_vocabularies"]++;
    c.n["longer_entries_traced"] += longer;
    c.nontrivial = longer > 0;
    c.sample = std::to_string(n) + " symbols, " + std::to_string(longer / 2) + " longer entries";
}

// --- C01, C02 on models
static void model_parses(Case &c, bool best) {
    Rng &r = c.rng;
    if (big_turn(c)) return big_vocabulary(c, r.chance(0.5));
    IntSetup s = IntSetup::make(r);
    double late_p = r.chance(0.5) ? 0.02 : 0;
    if (r.chance(0.6)) {
        StreamRun run = train_stream(r, s, r.range(0, 2), late_p);
        for (int i = 0; i < 6; i++) check_model_parse(c, "stream model", *run.m, run.known, s.probe(r), best);
        if (r.chance(0.3)) for (int round = r.range(1, 4); round > 0; round--) { // other data: other entries, maybe as many as before
            Source drift = Source::make(r, s.symbols, -1, 1, 40);
            for (int budget = r.range(200, 4000); budget > 0;) {
                Seq q = drift.draw(r);
                budget -= q.size();
                run.accept(q);
            }
            run.update();
            for (int i = 0; i < 3; i++) check_model_parse(c, "stream model after other data", *run.m, run.known, i ? drift.draw(r) : s.probe(r), best);
            c.n["drifts"]++;
        }
        if (r.chance(0.5)) { // later symbols, not yet in the published dictionary
            Seq q = s.draw(r, 1);
            run.accept(q);
            check_model_parse(c, "stream model after a late symbol", *run.m, run.known, q, best);
            if (r.chance(0.5)) run.update();
            check_model_parse(c, "stream model after a late symbol and update", *run.m, run.known, q, best);
        }
        if (r.chance(0.5)) {
            auto l = reload(*run.m);
            for (int i = 0; i < 4; i++) check_model_parse(c, "loaded stream model", *l, run.known, s.probe(r), best);
            Seq q = s.draw(r, 1);
            l->accept(q);
            std::set<int> more = run.known;
            more.insert(q.begin(), q.end());
            check_model_parse(c, "loaded stream model after accept", *l, more, q, best);
        }
        for (int i = 0; i < 3; i++) check_model_parse(c, "stream model", *run.m, run.known, s.probe(r), best);
    } else {
        srand(static_cast<unsigned>(r.next()));
        Seqs data = gen_texts(r, s, r.range(0, r.chance(0.3) ? 250 : 40), late_p);
        IntVGram m(s.size, gen_iters(r, 0, 3), 0);
        std::set<int> known;
        EXPECT(c, m.fit(data) == &m, "fit", "fit did not return the model");
        for (auto &q : data) known.insert(q.begin(), q.end());
        Seqs probes;
        for (int i = 0, n = list_size(r, 6); i < n; i++) probes.push_back(i < 2 && !data.empty() ? r.pick(data) : s.probe(r));
        for (auto &q : probes) check_model_parse(c, "fitted model", m, known, q, best);
        Seqs t = m.transform(probes);
        Seqs alpha = m.alphabet();
        EXPECT(c, t.size() == probes.size(), "transform", "transform gave " << t.size() << " results for " << probes.size());
        for (size_t i = 0; i < t.size(); i++) {
            EXPECT(c, ids_ok(alpha, t[i]) && spell(alpha, t[i]) == known_part(known, probes[i]), "lossless", "transform of " << show(probes[i]) << " spells something else: " << show(t[i]));
            EXPECT(c, t[i] == m.parse(probes[i]), "transform", "transform and parse differ on " << show(probes[i]));
        }
        if (r.chance(0.5)) {
            auto l = reload(m);
            for (auto &q : probes) check_model_parse(c, "loaded fitted model", *l, known, q, best);
        }
    }
    c.nontrivial = c.n["longer_entries_used"] > 0;
    c.sample = "symbols " + show(s.symbols, 8) + " source " + std::to_string(s.src.kind) + " size " + std::to_string(s.size) + ": " + std::to_string(c.n["parses"]) + " model parses, " + std::to_string(c.n["longer_entries_used"]) + " longer entries used";
}
CASE(C01_int) { model_parses(c, false); }
CASE(C02_int) { model_parses(c, true); }

// --- C07: restoring constructor
CASE(C07_int) {
    Rng &r = c.rng;
    int k = r.range(1, 10);
    Seq codes;
    for (int i = 0; i < k; i++) codes.push_back(i);
    Seqs d = gen_dict(r, codes, r.range(0, 25), 5, true);
    int order = r.range(0, 2);
    if (order == 0) std::sort(d.begin(), d.end());
    if (order == 1) { // sorted, then late symbols
        Seqs late;
        int keep = r.range(1, k);
        Seqs rest;
        for (auto &e : d) {
            bool ok = true;
            for (int x : e) if (x >= keep) ok = false;
            if (ok) rest.push_back(e); else if (e.size() == 1) late.push_back(e);
        }
        std::sort(rest.begin(), rest.end());
        r.shuffle(late);
        rest.insert(rest.end(), late.begin(), late.end());
        d = rest;
    }
    Seq f;
    int most = r.chance(0.1) ? 1000000000 : 3000;
    for (size_t i = 0; i < d.size(); i++) f.push_back(r.chance(0.2) ? 0 : r.range(0, most));
    c.mix(d); c.mix(f);
    auto coder = std::make_shared<SeqCoder>();
    Seq sym = gen_symbols(r, k);
    coder->encode(sym);
    std::map<Seq, int> want;
    Seqs raw;
    for (size_t i = 0; i < d.size(); i++) { raw.push_back(coder->decode(d[i])); want[raw.back()] = f[i]; }
    std::shared_ptr<IntStreamVGram> m;
    int size = d.size() + r.range(0, 10);
    double mp = 0.002 * (0.1 + 0.9 * r.uniform());
    if (r.chance(0.5)) m = std::make_shared<IntStreamVGram>(coder, f, d, size, mp);
    else m = std::make_shared<IntVGram>(coder, f, d, size, mp, true, true);
    std::set<int> known(sym.begin(), sym.end());
    auto check = [&](const char *when) {
        Seqs a = m->alphabet();
        Seq g = m->freqs();
        EXPECT(c, a.size() == want.size() && g.size() == a.size(), "aligned", when << ": " << a.size() << " entries, " << g.size() << " frequencies, restored from " << want.size());
        for (size_t i = 0; i < a.size(); i++) {
            EXPECT(c, want.count(a[i]), "entries", when << ": unexpected entry " << show(a[i]));
            EXPECT(c, g[i] == want[a[i]], "freq", when << ": entry " << show(a[i]) << " has frequency " << g[i] << ", restored from " << want[a[i]]);
        }
        if (order < 2) EXPECT(c, a == raw, "order", when << ": restored entries are in a different order");
    };
    check("restored model");
    for (int i = 0; i < 4; i++) check_model_parse(c, "restored model", *m, known, gen_seq(r, sym, r.range(0, 30)), true);
    check("restored model after parses");
    m->update_dict();
    {   // the builder keeps its own copy: same frequencies, entries in its order
        Seqs a = m->alphabet();
        Seq g = m->freqs();
        EXPECT(c, a.size() == want.size() && g.size() == a.size(), "aligned", "after update: " << a.size() << " entries, " << g.size() << " frequencies");
        for (size_t i = 0; i < a.size(); i++) EXPECT(c, want.count(a[i]) && g[i] == want[a[i]], "freq", "after update: entry " << show(a[i]) << " has frequency " << g[i]);
    }
    c.n["entries_restored"] += d.size();
    c.nontrivial = d.size() > static_cast<size_t>(k);
    c.sample = "restored model over " + show(d) + " with " + show(f);
}

// --- C08, C09 on models
CASE(C08_int) {
    if (big_turn(c)) return big_vocabulary(c, c.rng.chance(0.3));
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r);
    double late_p = r.chance(0.5) ? 0.02 : 0;
    Seqs data, alpha;
    std::set<Seq> base;
    const char *what = "stream model";
    auto check = [&](const IntStreamVGram &m) {
        alpha = m.alphabet();
        std::set<Seq> u(alpha.begin(), alpha.end());
        EXPECT(c, u.size() == alpha.size(), "duplicate", what << ": duplicates in " << show(alpha, 60));
        EXPECT(c, !u.count(Seq()), "empty", what << ": an empty entry");
        for (auto &e : alpha) if (!base.count(e)) {
            EXPECT(c, occurs_in(data, e), "not-in-data", what << ": entry " << show(e) << " occurs in no accepted sequence");
            base.insert(e);
            if (e.size() > 1) c.n["longer_entries_traced"]++;
        }
        c.n["dictionaries_checked"]++;
        c.mix(alpha);
    };
    if (r.chance(0.5)) {
        StreamRun run;
        run.m = std::make_shared<IntStreamVGram>(s.size, 0);
        long budget = r.range(500, 12000);
        while (budget > 0) {
            Seq q = s.draw(r, late_p);
            budget -= q.size() + 1;
            run.accept(q);
            data.push_back(q);
            if (r.chance(0.01)) { run.update(); check(*run.m); }
        }
        run.update();
        check(*run.m);
        if (r.chance(0.4)) {
            what = "loaded stream model";
            run.m = reload(*run.m);
            budget = r.range(500, 9000);
            while (budget > 0) {
                Seq q = s.draw(r, late_p);
                budget -= q.size() + 1;
                run.accept(q);
                data.push_back(q);
                if (r.chance(0.01)) { run.update(); check(*run.m); }
            }
            run.update();
            check(*run.m);
        }
    } else {
        what = "fitted model";
        srand(static_cast<unsigned>(r.next()));
        data = gen_texts(r, s, r.range(1, 250), late_p);
        IntVGram m(s.size, r.range(1, 4), 0);
        m.fit(data);
        check(m);
        std::set<Seq> u(alpha.begin(), alpha.end());
        for (auto &q : data) for (int x : q) EXPECT(c, u.count(Seq(1, x)), "symbol-missing", "fitted model: symbol " << x << " is missing (size " << s.size << ")");
    }
    c.nontrivial = c.n["longer_entries_traced"] > 0;
    c.sample = std::string(what) + " size " + std::to_string(s.size) + " over " + std::to_string(s.symbols.size()) + " symbols: " + show(alpha, 15);
}

CASE(C09_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r);
    long limit = std::max<long>(s.size, s.symbols.size());
    long seen = 0;
    const char *what = "stream model";
    auto check = [&](const IntStreamVGram &m) {
        if (file_min_prob(m) <= 0) { c.n["before_first_cut"]++; return; }
        long n = m.alphabet().size();
        seen = n;
        EXPECT(c, n <= limit, "over-limit", what << ": dictionary of " << n << " entries, size " << s.size << ", " << s.symbols.size() << " symbols");
        c.n["sizes_checked"]++;
        if (n == limit) c.n["at_limit"]++;
    };
    int how = r.range(0, 2);
    if (how < 2) {
        StreamRun run;
        run.m = std::make_shared<IntStreamVGram>(s.size, 0);
        run.accept(s.symbols);
        for (int stage = 0; stage < (how == 0 ? 1 : 3); stage++) {
            long budget = stage == 0 && how == 1 ? r.range(0, 9000) : r.range(4000, 15000);
            while (budget > 0) {
                Seq q = s.draw(r, 0);
                budget -= q.size() + 1;
                run.accept(q);
                if (r.chance(0.02)) { run.update(); check(*run.m); }
            }
            run.update();
            check(*run.m);
            if (how == 1 && stage < 2) { run.m = reload(*run.m); what = "loaded stream model"; check(*run.m); }
        }
    } else {
        what = "fitted model";
        srand(static_cast<unsigned>(r.next()));
        Seqs data = gen_texts(r, s, r.range(40, 250), 0);
        for (auto &q : data) { Seq p = s.symbols; r.shuffle(p); q.insert(q.begin() + r.range(0, q.size()), p.begin(), p.end()); }
        IntVGram m(s.size, r.range(1, 4), 0);
        m.fit(data);
        check(m);
        auto l = reload(m);
        what = "loaded fitted model";
        check(*l);
    }
    c.mix(uint64_t(seen)); c.mix(uint64_t(s.size)); c.mix(s.symbols);
    c.nontrivial = c.n["sizes_checked"] > 0;
    c.sample = std::string(what) + " size " + std::to_string(s.size) + ", " + std::to_string(s.symbols.size()) + " symbols: " + std::to_string(seen) + " entries";
}

// --- C13
CASE(C13_int) {
    if (big_turn(c)) return big_vocabulary(c, true);
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r, 14, 30);
    srand(static_cast<unsigned>(r.next()));
    Seqs data = gen_texts(r, s, r.chance(0.05) ? 0 : r.range(1, r.chance(0.4) ? 300 : 30), r.chance(0.5) ? 0.03 : 0);
    if (r.chance(0.3)) data.push_back(gen_seq(r, s.unknown, 3)); // likely missed by sampling
    r.shuffle(data);
    int iters = gen_iters(r, r.chance(0.1) ? 0 : 1, 4);
    Probe m(s.size, iters);
    // what the frequency phase starts from: the last model state seen before it replaces the frequencies
    Seq base_f;
    Seqs base_a, first_a;
    m.on_call = [&](const Probe &p) {
        if (p.calls > long(iters) * long(data.size())) {
            base_f = p.freqs();
            base_a = p.alphabet();
            if (first_a.empty()) first_a = base_a;
        }
    };
    EXPECT(c, m.fit(data) == &m, "fit", "fit did not return the model");
    check_counts_data(c, "fitted model", m, data);
    Seqs alpha = m.alphabet();
    Seq f = m.freqs();
    // most probable with the frequencies before: compare total log-probabilities
    if (!data.empty()) {
        if (base_a == alpha && first_a == alpha) {
            std::vector<double> lp = log_probs(alpha.size(), dbls(base_f), sum_of(base_f));
            std::map<Seq, int> idx = index_of(alpha);
            double want = 0, got = 0;
            std::map<Seq, double> memo;
            for (auto &q : data) {
                auto it = memo.find(q);
                if (it == memo.end()) it = memo.emplace(q, best_cut(idx, max_len(alpha), lp, q).score).first;
                want += it->second;
            }
            for (size_t i = 0; i < alpha.size(); i++) got += f[i] * lp[i];
            EXPECT(c, std::fabs(want - got) <= 1e-7 * (1 + std::fabs(want)), "not-best", "the counted segmentation has log-probability " << got << ", the best one " << want);
            c.n["count_optimality_checked"]++;
        }
    }
    long longer = 0;
    for (size_t i = 0; i < alpha.size(); i++) if (alpha[i].size() > 1 && f[i] > 0) longer++;
    c.n["longer_entries_counted"] += longer;
    c.n["sequences"] += data.size();
    c.mix(alpha); c.mix(f);
    c.nontrivial = longer > 0 || alpha.size() > 2;
    c.sample = std::to_string(data.size()) + " sequences, " + std::to_string(iters) + " iterations, size " + std::to_string(s.size) + ": " + show(alpha, 10) + " with " + show(f, 10);
}

// --- C14
struct Answers {
    Seqs alpha, parses;
    Seq freqs;
    std::vector<std::string> strs;
};
static Answers ask(const IntStreamVGram &m, const IntVGram *fit, const Seqs &probes) {
    Answers a;
    a.alpha = m.alphabet();
    a.freqs = m.freqs();
    for (auto &q : probes) a.parses.push_back(m.parse(q));
    if (fit) a.strs = fit->transform_to_string(probes);
    return a;
}
static void same_answers(Case &c, const char *what, const Answers &a, const Answers &b) {
    EXPECT(c, a.parses == b.parses, "parse-changed", what << ": parses changed");
    EXPECT(c, a.alpha == b.alpha, "alphabet-changed", what << ": alphabet " << show(a.alpha, 30) << " became " << show(b.alpha, 30));
    EXPECT(c, a.freqs == b.freqs, "freqs-changed", what << ": frequencies " << show(a.freqs, 30) << " became " << show(b.freqs, 30));
    EXPECT(c, a.strs == b.strs, "transform-changed", what << ": transform_to_string changed");
    c.n["answers_compared"]++;
}
static void random_reads(Case &c, const IntStreamVGram &m, const IntVGram *fit, const IntSetup &s) {
    Rng &r = c.rng;
    for (int i = 0, n = r.range(1, 6); i < n; i++) {
        switch (r.range(0, 5)) {
            case 0: m.parse(s.probe(r)); break;
            case 1: m.alphabet(); break;
            case 2: m.freqs(); break;
            case 3: m.save(scratch("reads.json")); break;
            case 4: if (fit) fit->transform(gen_texts(r, s, list_size(r, 2), 0.1)); break;
            default: if (fit) fit->transform_to_string({s.probe(r)});
        }
        c.n["reads"]++;
    }
}
CASE(C14_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r);
    Seqs probes;
    if (r.chance(0.6)) {
        srand(static_cast<unsigned>(r.next()));
        Seqs data = gen_texts(r, s, r.range(1, r.chance(0.4) ? 250 : 30), 0.02);
        IntVGram m(s.size, r.range(1, 3), 0);
        EXPECT(c, m.fit(data) == &m, "fit", "fit did not return the model");
        for (int i = 0; i < 5; i++) probes.push_back(i == 0 ? r.pick(data) : s.probe(r));
        Answers a = ask(m, &m, probes);
        std::shared_ptr<IntVGram> l;
        if (r.chance(0.3)) { l = reload(m); same_answers(c, "loaded model", a, ask(*l, l.get(), probes)); }
        IntVGram &t = l ? *l : m;
        for (int i = 0; i < 4; i++) {
            random_reads(c, t, &t, s);
            same_answers(c, "after reads", a, ask(t, &t, probes));
            Seqs other = r.chance(0.2) ? Seqs() : gen_texts(r, s, r.range(1, 60), 0.3);
            EXPECT(c, t.fit(other) == &t, "refit", "a repeated fit did not return the model");
            c.n["repeated_fits"]++;
            same_answers(c, "after a repeated fit", a, ask(t, &t, probes));
        }
        c.mix(a.alpha); c.mix(a.freqs);
        c.nontrivial = true;
        c.sample = "fitted model of " + std::to_string(a.alpha.size()) + " entries, 4 rounds of reads and repeated fits";
    } else {
        StreamRun run = train_stream(r, s, r.range(0, 2), 0.02);
        for (int i = 0; i < 5; i++) probes.push_back(s.probe(r));
        if (r.chance(0.5)) run.accept(s.draw(r, 1));
        Answers a = ask(*run.m, nullptr, probes);
        for (int i = 0; i < 5; i++) {
            random_reads(c, *run.m, nullptr, s);
            same_answers(c, "stream model after reads", a, ask(*run.m, nullptr, probes));
            if (r.chance(0.2)) { // symbols that no update has seen yet
                run.accept(s.draw(r, 1));
                a = ask(*run.m, nullptr, probes);
            }
        }
        c.mix(a.alpha); c.mix(a.freqs);
        c.nontrivial = a.alpha.size() > 0;
        c.sample = "stream model of " + std::to_string(a.alpha.size()) + " entries, 5 rounds of reads";
    }
}

// --- C15
CASE(C15_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r);
    StreamRun run;
    run.m = std::make_shared<IntStreamVGram>(s.size, 0);
    IntStreamVGram &m = *run.m;
    double late_p = r.chance(0.5) ? 0.02 : 0;
    Seqs base_a;
    Seq base_f;
    std::vector<std::map<int, double>> prefix(1); // totals after each accepted sequence
    std::vector<double> plen(1, 0);
    size_t run_i = 0, run_j = 0;
    long windows = 0, longer = 0;
    auto check_between = [&](const char *when) {
        Seqs a = m.alphabet();
        Seq f = m.freqs();
        EXPECT(c, f.size() == a.size(), "aligned", when << ": " << f.size() << " frequencies for " << a.size() << " entries");
        EXPECT(c, a.size() >= base_a.size(), "shrunk", when << ": alphabet shrank from " << base_a.size() << " to " << a.size());
        for (size_t i = 0; i < a.size(); i++) {
            if (i < base_a.size()) {
                EXPECT(c, a[i] == base_a[i], "index-moved", when << ": entry " << i << " was " << show(base_a[i]) << ", is " << show(a[i]));
                EXPECT(c, f[i] == base_f[i], "freq-moved", when << ": frequency of " << show(a[i]) << " was " << base_f[i] << ", is " << f[i] << " without an update");
            } else EXPECT(c, a[i].size() == 1, "grown", when << ": the alphabet grew by " << show(a[i]));
        }
        c.n["states_checked"]++;
    };
    check_between("before anything");
    long budget = r.chance(0.5) ? r.range(500, 5000) : r.range(6000, g_thorough ? 60000 : 20000);
    double up = r.chance(0.5) ? 0.03 : 0.004, rd = budget > 6000 ? 0.05 : 0.3;
    bool cut_before = false;
    while (budget > 0) {
        Seq q = s.draw(r, late_p);
        budget -= q.size() + 1;
        run.accept(q);
        prefix.push_back(prefix.back());
        for (int x : q) prefix.back()[x]++;
        plen.push_back(plen.back() + q.size());
        if (r.chance(rd)) check_between("after accept");
        if (r.chance(rd)) { check_model_parse(c, "stream model between updates", m, run.known, s.probe(r), false); check_between("after parse"); }
        if (!r.chance(up)) continue;
        for (int twice = 0, n = r.chance(0.3) ? 2 : 1; twice < n; twice++) {
            m.update_dict();
            run.updates++;
            Seqs a = m.alphabet();
            Seq f = m.freqs();
            if (twice) EXPECT(c, a == base_a && f == base_f, "update-twice", "a second update without new data changed the model");
            EXPECT(c, f.size() == a.size(), "aligned", "after update: " << f.size() << " frequencies for " << a.size() << " entries");
            base_a = a;
            base_f = f;
        }
        // which run of accepted sequences do the frequencies account for?
        std::map<int, double> want = symbol_totals(base_a, base_f);
        double len = 0;
        for (auto &kv : want) len += kv.second;
        bool found = false;
        bool before_cut = !cut_before && file_min_prob(m) <= 0;
        if (!before_cut) cut_before = true;
        size_t now = prefix.size() - 1;
        for (size_t i = run_i; i < prefix.size() && !found; i++) {
            size_t j0 = std::lower_bound(plen.begin() + i, plen.end(), plen[i] + len - 0.5) - plen.begin();
            for (size_t j = std::max(j0, i); j < prefix.size() && plen[j] == plen[i] + len && !found; j++) {
                if (j < run_j) continue;
                if (before_cut && plen[j] != plen[now]) continue;
                bool same = true;
                for (auto &kv : prefix[j]) {
                    auto p = prefix[i].find(kv.first);
                    auto w = want.find(kv.first);
                    if (kv.second - (p == prefix[i].end() ? 0 : p->second) != (w == want.end() ? 0 : w->second)) { same = false; break; }
                }
                for (auto &kv : want) if (!prefix[j].count(kv.first)) same = false;
                if (same) { found = true; run_i = i; run_j = j; }
            }
        }
        EXPECT(c, found, "no-run", "update " << run.updates << " after " << now << " sequences: frequencies " << show(base_f, 30) << " over " << show(base_a, 15) << " account for symbols " << show(want) << ", which no run of accepted sequences" << (before_cut ? " up to the last one" : "") << " from number " << run_i << " on has");
        windows++;
        for (size_t i = 0; i < base_a.size(); i++) if (base_a[i].size() > 1 && base_f[i] > 0) longer++;
        c.mix(base_f);
    }
    c.n["updates"] += run.updates;
    c.n["runs_identified"] += windows;
    c.n["longer_entries_counted"] += longer;
    if (cut_before) c.n["histories_past_a_cut"]++;
    c.nontrivial = windows > 0 && longer > 0;
    c.sample = std::to_string(run.data.size()) + " sequences, " + std::to_string(run.updates) + " updates, last run [" + std::to_string(run_i) + "," + std::to_string(run_j) + "), dictionary " + show(base_a, 10);
}

// --- C16
template <class M>
static void check_round_trip(Case &c, const M &m, const std::shared_ptr<M> &l, const std::string &file, const Seqs &probes) {
    EXPECT(c, l->alphabet() == m.alphabet(), "alphabet", "loaded alphabet " << show(l->alphabet(), 30) << ", saved " << show(m.alphabet(), 30));
    EXPECT(c, l->freqs() == m.freqs(), "freqs", "loaded frequencies " << show(l->freqs(), 30) << ", saved " << show(m.freqs(), 30));
    std::string f2 = scratch("again.json");
    l->save(f2);
    json a = json::parse(read_file(file)), b = json::parse(read_file(f2));
    EXPECT(c, a == b, "file", "saving the loaded model gives another file: " << b.dump().substr(0, 400) << " instead of " << a.dump().substr(0, 400));
    for (auto &q : probes) {
        Seq x = m.parse(q), y = l->parse(q);
        EXPECT(c, x == y, "parse", "loaded model parses " << show(q) << " as " << show(y) << ", saved one as " << show(x) << " over " << show(m.alphabet(), 30));
        c.n["parses_compared"]++;
    }
    EXPECT(c, l->alphabet() == m.alphabet() && l->freqs() == m.freqs(), "after-parse", "saved and loaded model differ after parses");
    c.n["round_trips"]++;
    c.n["entries"] += m.alphabet().size();
    c.mix(m.alphabet()); c.mix(m.freqs());
}
// A model that has seen very much: a third of the saved frequencies are raised, and the model made of that has them and keeps them.
static void raise_freqs(Case &c, Rng &r, const std::string &file) {
    json j = json::parse(read_file(file));
    long n = j["alphabet"].size();
    if (n == 0) return;
    for (auto &e : j["alphabet"]) if (r.chance(0.35)) e["freq"] = r.range(0, static_cast<int>(2000000000 / n));
    std::ofstream(file) << j.dump(2) << std::endl;
    c.n["raised_frequencies"]++;
}
template <class M>
static void check_raised(Case &c, const M &l, const std::string &file) {
    json j = json::parse(read_file(file));
    Seq g = l.freqs(), want;
    for (auto &e : j["alphabet"]) want.push_back(e["freq"].get<int>());
    EXPECT(c, g == want, "large-freqs", "loaded frequencies " << show(g, 30) << ", the file has " << show(want, 30));
}
CASE(C16_int) {
    if (big_turn(c)) return big_vocabulary(c, c.rng.chance(0.5));
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r);
    std::string file = scratch("trip.json");
    Seqs probes;
    for (int i = 0; i < 8; i++) probes.push_back(s.probe(r));
    if (r.chance(0.5)) {
        StreamRun run = train_stream(r, s, r.range(0, 2), r.chance(0.5) ? 0.02 : 0);
        if (r.chance(0.4)) run.accept(s.draw(r, 1));
        if (r.chance(0.4)) for (auto &q : probes) run.m->parse(q);
        std::shared_ptr<IntStreamVGram> m = run.m;
        for (int g = 0, n = r.range(1, 3); g < n; g++) {
            if (r.chance(0.2)) { m->save(file); raise_freqs(c, r, file); m = Loader::load_int_stream_vgram(file); check_raised(c, *m, file); }
            m->save(file);
            auto l = Loader::load_int_stream_vgram(file);
            check_round_trip(c, *m, l, file, probes);
            m = l;
            if (r.chance(0.5)) {
                for (int i = 0, k = r.range(1, 20); i < k; i++) m->accept(s.draw(r, 0.2));
                if (r.chance(0.5)) m->update_dict();
            }
        }
        c.nontrivial = m->alphabet().size() > 1;
        c.sample = "stream model " + show(m->alphabet(), 12) + " saved and loaded";
    } else {
        srand(static_cast<unsigned>(r.next()));
        Seqs data = gen_texts(r, s, r.range(0, r.chance(0.4) ? 250 : 30), 0.03);
        auto m = std::make_shared<Probe>(s.size, gen_iters(r, 1, 3));
        int state = r.range(0, 3);
        if (state == 1) m->stop_at = r.range(1, std::max<int>(1, data.size() * 3));
        bool complete = false;
        if (state > 0) complete = m->fit(data) != nullptr;
        m->stop_at = -1;
        if (r.chance(0.3)) m->accept(s.draw(r, 1));
        std::shared_ptr<IntVGram> cur = m;
        for (int g = 0, n = r.range(1, 3); g < n; g++) {
            if (r.chance(0.2)) { cur->save(file); raise_freqs(c, r, file); cur.reset(Loader::load_int_vgram(file)); check_raised(c, *cur, file); }
            cur->save(file);
            std::shared_ptr<IntVGram> l(Loader::load_int_vgram(file));
            check_round_trip(c, *cur, l, file, probes);
            EXPECT(c, cur->transform(probes) == l->transform(probes) && cur->transform_to_string(probes) == l->transform_to_string(probes), "transform", "saved and loaded model transform differently");
            if (complete) {
                Seq f = l->freqs();
                Seqs a = l->alphabet();
                EXPECT(c, l->fit(gen_texts(r, s, 20, 0.2)) == l.get(), "fitted", "a loaded fitted model did not return itself from fit");
                EXPECT(c, l->freqs() == f && l->alphabet() == a, "fitted", "a loaded fitted model was fitted again");
                c.n["fitted_kept"]++;
            } else c.n["unfinished_models"]++;
            cur = l;
        }
        c.nontrivial = cur->alphabet().size() > 1;
        c.sample = std::string(complete ? "fitted" : "unfinished") + " model " + show(cur->alphabet(), 12) + " saved and loaded";
    }
}

// --- C18, C31: faults around files
static std::pair<std::shared_ptr<IntStreamVGram>, std::shared_ptr<IntVGram>> small_models(Rng &r, const IntSetup &s, bool trained) {
    Seqs data = gen_texts(r, s, trained ? 220 : r.range(1, 12), 0.02);
    srand(static_cast<unsigned>(r.next()));
    auto st = std::make_shared<IntStreamVGram>(s.size, 0);
    for (auto &q : data) st->accept(q);
    st->update_dict();
    auto fi = std::make_shared<IntVGram>(s.size, 1, 0);
    fi->fit(data);
    return {st, fi};
}
static std::string try_load(int kind, const std::string &f) {
    try {
        if (kind == 0) Loader::load_int_stream_vgram(f);
        else delete Loader::load_int_vgram(f);
    } catch (const std::exception &e) {
        return std::string("!") + e.what();
    }
    return "loaded";
}
CASE(C18_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r, 8, 20);
    auto ms = small_models(r, s, r.chance(0.3));
    std::string f = scratch("whole.json");
    int kind = c.index % 2;
    if (kind == 0) ms.first->save(f); else ms.second->save(f);
    std::string full = read_file(f);
    each_damage(c, full, kind == 1, [&](const std::string &p) { return try_load(kind, p); });
    if (kind == 0 && r.chance(0.3)) { // a stream model's file is not that of a fitted model
        EXPECT(c, try_load(1, f)[0] == '!', "field", "a file without fitted flags was loaded as a fitted model");
    }
    c.mix(full);
    c.n["files"]++;
    c.nontrivial = full.size() > 100;
    c.sample = std::to_string(full.size()) + " byte file of a " + (kind ? "fitted" : "stream") + " model, every cut-off and field damaged";
}

CASE(C31_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r, 8, 20);
    auto ms = small_models(r, s, r.chance(0.15));
    std::string f = scratch("whole.json");
    int kind = c.index % 2;
    auto save = [&](const std::string &p) { if (kind == 0) ms.first->save(p); else ms.second->save(p); };
    unlink(f.c_str());
    save(f);
    std::string full = read_file(f);
    each_write_fault(c, full, save, [&](const std::string &p) { return try_load(kind, p); });
    c.mix(full);
    c.nontrivial = full.size() > 100;
    c.sample = std::to_string(full.size()) + " byte file of a " + (kind ? "fitted" : "stream") + " model, writing stopped at every byte";
}

// --- C19
CASE(C19_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r, 10);

    bool fitted = r.chance(0.4);
    std::shared_ptr<IntStreamVGram> l;
    std::set<int> known;
    Seqs data;
    if (fitted) {
        srand(static_cast<unsigned>(r.next()));
        data = gen_texts(r, s, r.range(1, r.chance(0.6) ? 300 : 20), 0.01);
        IntVGram m(s.size, r.range(1, 3), 0);
        m.fit(data);
        for (auto &q : data) known.insert(q.begin(), q.end());
        l = reload(m);
    } else {
        StreamRun run = train_stream(r, s, r.range(0, 2), 0.01);
        data = run.data;
        known = run.known;
        l = reload(*run.m);
    }
    Seqs a0 = l->alphabet();
    Seq f0 = l->freqs();
    std::set<Seq> base(a0.begin(), a0.end());
    // 1. little data: nothing but new symbols may change
    long few = 0;
    Seqs more;
    double late_p = r.chance(0.5) ? 0.2 : 0;
    while (few < r.range(50, 400)) {
        Seq q = s.draw(r, late_p);
        few += q.size() + 1;
        l->accept(q);
        more.push_back(q);
        known.insert(q.begin(), q.end());
        if (r.chance(0.1)) l->update_dict();
        Seqs a = l->alphabet();
        Seq f = l->freqs();
        EXPECT(c, a.size() >= a0.size() && std::equal(a0.begin(), a0.end(), a.begin()), "alphabet", "the loaded alphabet " << show(a0, 30) << " became " << show(a, 30) << " after " << more.size() << " sequences");
        EXPECT(c, f.size() == a.size() && std::equal(f0.begin(), f0.end(), f.begin()), "freqs", "the loaded frequencies " << show(f0, 30) << " became " << show(f, 30) << " after " << more.size() << " sequences");
        check_model_parse(c, "resumed model", *l, known, r.chance(0.5) ? q : s.probe(r), false);
    }
    c.n["sequences_before_a_rebuild"] += more.size();
    // 2. all symbols of the source from here on
    l->accept(s.symbols);
    l->accept(s.late);
    more.push_back(s.symbols);
    more.push_back(s.late);
    known.insert(s.symbols.begin(), s.symbols.end());
    known.insert(s.late.begin(), s.late.end());
    long limit = std::max<long>(s.size, s.symbols.size() + s.late.size());
    long budget = r.range(4000, 14000), rebuilds = 0;
    Seqs prev = l->alphabet();
    Seq prev_f = l->freqs();
    while (budget > 0) {
        Seq q = s.draw(r, late_p / 10);
        budget -= q.size() + 1;
        l->accept(q);
        more.push_back(q);
        if (!r.chance(0.02)) continue;
        l->update_dict();
        Seqs a = l->alphabet();
        Seq f = l->freqs();
        EXPECT(c, f.size() == a.size(), "aligned", "resumed model: " << f.size() << " frequencies for " << a.size() << " entries");
        std::set<Seq> u(a.begin(), a.end());
        EXPECT(c, u.size() == a.size(), "duplicate", "resumed model: duplicates in " << show(a, 60));
        if (a != prev) {
            for (auto &e : a) if (!base.count(e)) {
                EXPECT(c, occurs_in(more, e) || occurs_in(data, e), "not-in-data", "resumed model: entry " << show(e) << " occurs in no accepted sequence");
                base.insert(e);
            }
        }
        // an update without a rebuild may only take back or append single symbols that were never counted
        std::map<Seq, int> was, is;
        for (size_t i = 0; i < prev.size(); i++) if (prev_f[i]) was[prev[i]] = prev_f[i];
        for (size_t i = 0; i < a.size(); i++) if (f[i]) is[a[i]] = f[i];
        bool fresh = was != is;
        if (fresh) {
            rebuilds++;
            for (int x : known) EXPECT(c, u.count(Seq(1, x)), "symbol-missing", "resumed model: symbol " << x << " is missing after a rebuild");
            EXPECT(c, static_cast<long>(a.size()) <= limit, "over-limit", "resumed model: dictionary of " << a.size() << " entries, saved size " << s.size << ", " << s.symbols.size() + s.late.size() << " symbols");
        }
        prev = a;
        prev_f = f;
        check_model_parse(c, "resumed model", *l, known, s.probe(r), false);
    }
    c.n["rebuilds_after_loading"] += rebuilds;
    c.mix(l->alphabet());
    c.nontrivial = a0.size() > 1;
    c.sample = std::string(fitted ? "fitted" : "stream") + " model of " + std::to_string(a0.size()) + " entries loaded and trained on: " + std::to_string(rebuilds) + " rebuilds, then " + show(l->alphabet(), 12);
}

// --- C19, C29: quality on text made of words
struct Vocabulary {
    Seq symbols;
    Seqs words;
    Seqs text(Rng &r, int n, int words_each) const {
        Seqs t;
        for (int i = 0; i < n; i++) {
            Seq s;
            for (int k = 0; k < words_each; k++) { const Seq &w = r.pick(words); s.insert(s.end(), w.begin(), w.end()); }
            t.push_back(s);
        }
        return t;
    }
    static Vocabulary make(Rng &r) {
        Vocabulary v;
        int k = r.range(8, 20), n = r.range(4, 10);
        v.symbols = gen_symbols(r, k);
        std::set<Seq> seen;
        while (static_cast<int>(v.words.size()) < n) {
            Seq w;
            int len = r.range(3, 6);
            for (int i = 0; i < len; i++) w.push_back(r.pick(v.symbols));
            if (seen.insert(w).second) v.words.push_back(w);
        }
        return v;
    }
};
static double pieces_per_symbol(const IntStreamVGram &m, const Seqs &t) {
    double p = 0, s = 0;
    for (auto &q : t) { p += m.parse(q).size(); s += q.size(); }
    return p / s;
}
// code length in nats of the cut text under its own piece frequencies, per symbol
static double code_per_symbol(const Seqs &pieces, double symbols) {
    std::map<int, double> f;
    double P = 0, s = 0;
    for (auto &q : pieces) for (int x : q) { f[x]++; P++; }
    for (auto &kv : f) s -= kv.second * std::log(kv.second);
    return (s + P * std::log(P)) / symbols;
}
CASE(C19_quality) {
    Rng &r = c.rng;
    Vocabulary v = Vocabulary::make(r);
    srand(static_cast<unsigned>(r.next()));
    int size = v.symbols.size() + v.words.size() * 6 + 10;
    Seqs test = v.text(r, 60, 8);
    std::shared_ptr<IntStreamVGram> m;
    if (r.chance(0.5)) { auto f = std::make_shared<IntVGram>(size, 6, 0); f->fit(v.text(r, 250, 8)); m = f; m = reload(*f); }
    else { m = std::make_shared<IntStreamVGram>(size, 0); for (auto &q : v.text(r, 1500, 8)) m->accept(q); m->update_dict(); m = reload(*m); }
    double before = pieces_per_symbol(*m, test), worst = 0;
    for (int stage = 0; stage < 6; stage++) {
        for (auto &q : v.text(r, 250, 8)) m->accept(q);
        m->update_dict();
        worst = std::max(worst, pieces_per_symbol(*m, test));
    }
    c.n["quality_comparisons"] += 6;
    c.mix(worst);
    std::ostringstream o;
    o << v.words.size() << " words over " << v.symbols.size() << " symbols: " << before << " pieces per symbol when loaded, at worst " << worst << " while training went on";
    c.sample = o.str();
    c.nontrivial = before < 0.6;
    if (getenv("VERIF_MEASURE")) fprintf(stderr, "Q19 %g %g %g\n", before, worst, worst / before);
    EXPECT(c, worst <= std::max(0.33, before * 1.35), "quality", o.str());
}
CASE(C29_int) {
    Rng &r = c.rng;
    Vocabulary v = Vocabulary::make(r);
    srand(static_cast<unsigned>(r.next()));
    int size = v.symbols.size() + v.words.size() * 6 + 10;
    std::shared_ptr<IntStreamVGram> m;
    bool fit = r.chance(0.5);
    Seqs train = v.text(r, 300, 8), test = v.text(r, 100, 8), cut;
    bool grouped = fit && r.chance(0.5);
    if (grouped) { // the order of the training texts is nobody's business: some words come at the end only
        Vocabulary first = v, last = v;
        int cut = r.range(2, v.words.size() - 2), n = r.chance(0.3) ? r.range(1500, 4000) : 300;
        first.words.resize(cut);
        last.words.erase(last.words.begin(), last.words.begin() + cut);
        train = first.text(r, int(double(n) * cut / v.words.size()) + 1, n > 1000 ? 2 : 8);
        for (auto &q : last.text(r, n - train.size(), n > 1000 ? 2 : 8)) train.push_back(q);
        test = first.text(r, 100 * cut / v.words.size(), 8);
        for (auto &q : last.text(r, 100 - test.size(), 8)) test.push_back(q);
        c.n["grouped"]++;
    }
    if (fit) { auto f = std::make_shared<IntVGram>(size, 8, 0); f->fit(train); m = f; }
    else { m = std::make_shared<IntStreamVGram>(size, 0); for (int k = 0; k < 8; k++) for (auto &q : v.text(r, 300, 8)) m->accept(q); m->update_dict(); }
    double symbols = 0;
    for (auto &q : test) { cut.push_back(m->parse(q)); symbols += q.size(); }
    double pps = pieces_per_symbol(*m, test);
    double code = code_per_symbol(cut, symbols), plain = code_per_symbol(test, symbols);
    std::set<Seq> a;
    for (auto &e : m->alphabet()) a.insert(e);
    // a word counts as found if an entry holds it whole, or all of it but one symbol
    int found = 0;
    for (auto &w : v.words) {
        bool hit = false;
        for (auto &e : a) if (e.size() + 1 >= w.size() && (occurs(e, w) || occurs(w, e))) hit = true;
        found += hit;
    }
    c.n["pieces"] += long(pps * symbols);
    c.n["symbols"] += long(symbols);
    c.n["words"] += v.words.size();
    c.n["words_found"] += found;
    c.mix(pps); c.mix(code);
    std::ostringstream o;
    o << (fit ? "fitted" : "streamed") << " on " << v.words.size() << " words over " << v.symbols.size() << " symbols: " << pps << " pieces per symbol, code " << code << " against " << plain << " nats per symbol, " << found << " words found";
    c.sample = o.str();
    c.nontrivial = true;
    if (getenv("VERIF_MEASURE")) fprintf(stderr, "Q29 %d %g %g %g\n", fit, pps, code / plain, double(found) / v.words.size());
    EXPECT(c, pps <= 0.38, "pieces", o.str());
    EXPECT(c, code <= 0.45 * plain, "code", o.str());
    EXPECT(c, found * 10 >= static_cast<int>(v.words.size()) * 8, "words", o.str());
}

// --- C20
CASE(C20_coder) {
    Rng &r = c.rng;
    SeqCoder a, b;
    std::unordered_map<int, int> fwd;
    bool wide = c.index % 6000 == 3001;
    if (wide) c.n["coders_above_65536"]++;
    Seq order, sym = gen_symbols(r, wide ? r.range(66000, 70000) : r.range(1, r.chance(0.1) ? 3000 : 60));
    long drops = 0;
    for (int k = 0, n = r.range(2, 25); k < n; k++) {
        Seq s = wide && k < 2 ? sym : gen_seq(r, sym, r.range(0, 60));
        int op = wide && k < 2 ? k : r.range(0, 3);
        if (op <= 1) {
            Seq want;
            for (int x : s) {
                if (!fwd.count(x)) { int id = fwd.size(); fwd[x] = id; order.push_back(x); }
                want.push_back(fwd[x]);
            }
            Seq got = a.encode(s);
            EXPECT(c, got == want, "encode", "encode of " << show(s) << " gives " << show(got) << ", not " << show(want));
            EXPECT(c, a.decode(got) == s, "decode", "decode does not invert encode of " << show(s));
            c.mix(got);
        } else if (op == 2) {
            Seq want;
            for (int x : s) if (fwd.count(x)) want.push_back(fwd[x]); else drops++;
            Seq got = a.encode_immutable(s);
            EXPECT(c, got == want, "immutable", "encode_immutable of " << show(s) << " gives " << show(got) << ", not " << show(want));
        } else {
            int bad = r.chance(0.5) ? static_cast<int>(order.size()) + r.range(0, 3) : -r.range(1, 5);
            bool threw = false;
            try { a.decode(Seq(1, bad)); } catch (const std::exception &) { threw = true; }
            EXPECT(c, threw, "decode-unknown", "decoding the unknown code " << bad << " raised nothing");
            c.n["unknown_codes"]++;
        }
        Seq ids;
        for (size_t i = 0; i < order.size(); i++) ids.push_back(i);
        EXPECT(c, a.decode(ids) == order, "order", "codes 0.." << order.size() << " do not decode to the symbols in order of appearance");
        auto m = a.code_map();
        EXPECT(c, m == fwd, "map", "code_map differs: " << m.size() << " instead of " << fwd.size());
        c.n["calls"]++;
    }
    EXPECT(c, b.code_map().empty(), "shared", "an untouched coder knows symbols");
    c.n["symbols"] += fwd.size();
    c.n["dropped"] += drops;
    c.nontrivial = fwd.size() > 1;
    c.sample = std::to_string(fwd.size()) + " symbols coded, first " + show(order, 6);
}

// --- C22: textual transform
CASE(C22_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r);
    srand(static_cast<unsigned>(r.next()));
    Seqs data = gen_texts(r, s, r.range(1, r.chance(0.4) ? 200 : 30), 0.02);
    IntVGram m(s.size, gen_iters(r, 1, 2), 0);
    m.fit(data);
    Seqs probes;
    for (int i = 0, n = list_size(r, r.range(0, 12)); i < n; i++) probes.push_back(r.chance(0.15) ? gen_seq(r, s.unknown, r.range(0, 3)) : s.probe(r));
    Seqs ids = m.transform(probes);
    std::vector<std::string> txt = m.transform_to_string(probes);
    EXPECT(c, txt.size() == probes.size() && ids.size() == probes.size(), "count", txt.size() << " texts and " << ids.size() << " results for " << probes.size());
    for (size_t i = 0; i < probes.size(); i++) {
        Seq got;
        std::istringstream in(txt[i]);
        int x;
        while (in >> x) got.push_back(x);
        EXPECT(c, in.eof(), "format", "text '" << txt[i] << "' is not a list of numbers");
        Seq want = ids[i].empty() ? Seq(1, -1) : ids[i];
        EXPECT(c, got == want, "text", "transform gives " << show(want) << " as '" << txt[i] << "'");
        if (ids[i].empty()) c.n["empty_results"]++;
        c.n["texts"]++;
        c.mix(want);
    }
    c.nontrivial = probes.size() > 0;
    c.sample = txt.empty() ? "" : "'" + txt[0] + "' for " + show(probes[0]);
}

// --- C25: the digest of a history; compared between processes by the runner, and between settings here
static uint64_t digest_history(uint64_t seed, int verbose, bool with_neighbour, bool fitted) {
    Rng r(seed);
    Case d(0, 0);
    IntSetup s = IntSetup::make(r);
    Rng nr(seed ^ 77);
    std::unique_ptr<IntStreamVGram> other;
    IntSetup os = IntSetup::make(nr);
    if (with_neighbour) other.reset(new IntStreamVGram(os.size, 0));
    std::string f = scratch("digest.json");
    if (!fitted) {
        IntStreamVGram m(s.size, verbose);
        long budget = r.range(500, 15000);
        while (budget > 0) {
            Seq q = s.draw(r, 0.01);
            budget -= q.size() + 1;
            m.accept(q);
            if (other) { other->accept(os.draw(nr, 0.02)); if (nr.chance(0.02)) { other->update_dict(); other->parse(os.probe(nr)); } }
            if (r.chance(0.01)) { m.update_dict(); d.mix(m.alphabet()); d.mix(m.freqs()); }
            if (r.chance(0.02)) d.mix(m.parse(s.probe(r)));
        }
        m.update_dict();
        for (int i = 0; i < 5; i++) d.mix(m.parse(s.probe(r)));
        d.mix(m.alphabet()); d.mix(m.freqs());
        m.save(f);
    } else {
        Seqs data = gen_texts(r, s, r.range(1, 250), 0.02);
        IntVGram m(s.size, r.range(1, 3), verbose);
        if (other) { for (int i = 0; i < 300; i++) other->accept(os.draw(nr, 0.02)); other->update_dict(); }
        srand(static_cast<unsigned>(seed));
        m.fit(data);
        for (int i = 0; i < 5; i++) d.mix(m.transform({s.probe(r), s.probe(r)}));
        d.mix(m.alphabet()); d.mix(m.freqs());
        m.save(f);
    }
    d.mix(read_file(f));
    return d.sig;
}
CASE(C25_int) {
    Rng &r = c.rng;
    uint64_t seed = r.next();
    bool fitted = r.chance(0.4);
    uint64_t a = digest_history(seed, 0, false, fitted);
    uint64_t b = digest_history(seed, 1, false, fitted);
    EXPECT(c, a == b, "verbosity", "a history gives other results with verbosity 1 (seed " << seed << ")");
    uint64_t d = digest_history(seed, 0, true, fitted);
    EXPECT(c, a == d, "neighbour", "a history gives other results beside another model (seed " << seed << ")");
    c.sig = a;
    c.n["histories"]++;
    c.n["repetitions"] += 2;
    c.nontrivial = true;
    c.sample = std::string(fitted ? "fitted" : "stream") + " history " + std::to_string(seed) + " repeated three times, digest " + std::to_string(a);
}

// --- C27
CASE(C27_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r, 8, 25);
    bool big = r.chance(0.3);
    int iters = gen_iters(r, 1, 3);
    Seqs data = gen_texts(r, s, big ? r.range(60, 160) : r.range(1, 10), 0.03);
    unsigned seed = static_cast<unsigned>(r.next());
    std::vector<long> points;
    long total;
    {
        srand(seed);
        Probe m(s.size, iters);
        EXPECT(c, m.fit(data) == &m, "not-finished", "a fit that nothing interrupts did not complete");
        total = m.calls;
        EXPECT(c, total > 0, "points", "a fit of " << data.size() << " sequences has no termination point");
    }
    if (!big) for (long k = 1; k <= total; k++) points.push_back(k);
    else for (int i = 0; i < 6; i++) points.push_back(i == 0 ? total : i == 1 ? total - long(data.size()) : i == 2 ? total - long(data.size()) + 1 : r.range(1, total));
    for (long &k : points) k = std::max(1L, std::min(total, k));
    for (long k : points) {
        srand(seed);
        Probe m(s.size, iters);
        m.stop_at = k;
        IntVGram *res = m.fit(data);
        EXPECT(c, m.fired, "points", "the same fit had " << total << " termination points before, now less than " << k);
        EXPECT(c, res == nullptr, "not-reported", "fit interrupted at point " << k << " of " << total << " returned a model");
        c.n["interruptions"]++;
        m.stop_at = -1;
        // the model is usable
        Seqs alpha = m.alphabet();
        EXPECT(c, m.freqs().size() == m.alphabet().size(), "aligned", "interrupted at " << k << ": " << m.freqs().size() << " frequencies for " << m.alphabet().size());
        std::set<int> possible;
        for (auto &q : data) possible.insert(q.begin(), q.end());
        // exactly the accepted sequences are known; which ones is up to rand(), so a symbol may be missing only everywhere
        std::map<int, int> seen; // 1: kept, 2: left out
        for (auto &q : data) {
            Seq out = m.parse(q);
            Seqs a = m.alphabet();
            EXPECT(c, ids_ok(a, out), "index", "interrupted at " << k << ": parse of " << show(q) << " gives " << show(out));
            Seq sp = spell(a, out);
            size_t j = 0;
            std::set<int> kept(sp.begin(), sp.end());
            Seq want;
            for (int x : q) if (kept.count(x)) want.push_back(x);
            EXPECT(c, sp == want, "lossless", "interrupted at " << k << ": parse of " << show(q) << " spells " << show(sp));
            for (int x : q) {
                int now = kept.count(x) ? 1 : 2;
                EXPECT(c, !seen.count(x) || seen[x] == now, "lossless", "interrupted at " << k << ": symbol " << x << " is kept in one sequence and left out in another");
                seen[x] = now;
            }
            (void) j;
        }
        std::string f = scratch("interrupted.json");
        m.save(f);
        std::shared_ptr<IntVGram> l(Loader::load_int_vgram(f));
        EXPECT(c, l->alphabet() == m.alphabet() && l->freqs() == m.freqs(), "load", "interrupted at " << k << ": the loaded model differs");
        // perhaps interrupt again, then let it finish, perhaps on other data
        Seqs data2 = r.chance(0.5) ? data : gen_texts(r, s, r.range(1, 12), 0.1);
        bool twice = r.chance(0.3);
        if (twice) {
            m.calls = 0; m.fired = false;
            m.stop_at = r.range(1, data2.size());
            res = m.fit(data2);
            EXPECT(c, !m.fired || res == nullptr, "not-reported", "the second interruption was not reported");
            c.n["interruptions"]++;
            m.stop_at = -1;
            m.fired = false;
        }
        m.calls = 0;
        res = m.fit(data2);
        EXPECT(c, res == &m, "not-finished", "interrupted at " << k << ": the next fit did not complete");
        // every sequence trained on or counted has its termination point: what was left has to be done
        if (!twice && data2.size() >= data.size()) {
            EXPECT(c, m.calls >= total - k, "skipped", "a fit with " << total << " termination points was interrupted at " << k << ", the next one of " << data2.size() << " sequences only passed " << m.calls);
            c.n["work_left_checked"]++;
        }
        check_counts_data(c, "finished model", m, data2);
        std::set<int> known;
        for (auto &q : data2) { known.insert(q.begin(), q.end()); }
        for (auto &q : data2) { Seq out = m.parse(q); EXPECT(c, spell(m.alphabet(), out) == q, "lossless", "finished model: parse of " << show(q) << " spells something else"); }
        // and from now on it is frozen
        Seq fr = m.freqs();
        EXPECT(c, m.fit(data) == &m && m.freqs() == fr, "not-frozen", "the finished model was fitted again");
        c.mix(m.alphabet()); c.mix(fr);
    }
    // transform
    {
        srand(seed);
        Probe m(s.size, iters);
        m.fit(data);
        Seqs probes;
        for (int i = 0, n = list_size(r, r.range(1, 12)); i < n; i++) probes.push_back(s.probe(r));
        Seqs full = m.transform(probes);
        std::vector<std::string> fulls = m.transform_to_string(probes);
        EXPECT(c, full.size() == probes.size() && fulls.size() == probes.size(), "transform", "an uninterrupted transform lacks results");
        for (size_t k = 1; k <= probes.size() * 2; k++) {
            m.calls = 0; m.fired = false; m.stop_at = k;
            Seqs part = m.transform(probes);
            EXPECT(c, part.size() <= full.size() && std::equal(part.begin(), part.end(), full.begin()), "transform", "an interrupted transform is no prefix of the full one");
            EXPECT(c, m.fired || part.size() == full.size(), "transform", "a transform that was not interrupted lacks results");
            m.calls = 0; m.fired = false; m.stop_at = k;
            std::vector<std::string> ps = m.transform_to_string(probes);
            EXPECT(c, ps.size() <= fulls.size() && std::equal(ps.begin(), ps.end(), fulls.begin()), "transform", "an interrupted textual transform is no prefix of the full one");
            c.n["transform_interruptions"]++;
            if (k > 20 && k + 20 < probes.size() * 2) k = r.range(k, probes.size() * 2 - 20);
        }
        m.stop_at = -1;
        EXPECT(c, m.transform(probes) == full, "transform", "a transform after interrupted ones differs");
    }
    c.nontrivial = points.size() > 1;
    c.sample = std::to_string(data.size()) + " sequences, " + std::to_string(iters) + " iterations, interrupted at " + std::to_string(points.size()) + " points";
}
