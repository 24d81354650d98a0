// C36: what the library does (basic blocks it runs, bytes it asks for) and what it keeps (live bytes), counted.
// Library and harness are compiled with -fsanitize-coverage=trace-pc: the callback below counts the blocks.
#include <malloc.h>
#include <new>
#include "models.h"
#include "texts.h"
#include <loader.h>
#include <saver.h>
#include <int_dict_p.h>
#include <stat_dict_p.h>
#include <int_vgram_builder_p.h>
#include <tokenizers/char_tokenizer.h>
#include <tokenizers/word_tokenizer.h>
#include <vgram_builders/string_stream_vgram.h>
#include <vgram_builders/string_vgram.h>
using namespace vgram_core;

#define UNCOUNTED __attribute__((no_sanitize_coverage))
static uint64_t g_steps, g_asked, g_live;
extern "C" UNCOUNTED void __sanitizer_cov_trace_pc() { g_steps++; }
UNCOUNTED static void *take(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    g_asked += n;
    g_live += malloc_usable_size(p);
    return p;
}
UNCOUNTED static void give(void *p) {
    if (!p) return;
    g_live -= malloc_usable_size(p);
    free(p);
}
UNCOUNTED void *operator new(size_t n) { return take(n); }
UNCOUNTED void *operator new[](size_t n) { return take(n); }
UNCOUNTED void operator delete(void *p) noexcept { give(p); }
UNCOUNTED void operator delete[](void *p) noexcept { give(p); }
UNCOUNTED void operator delete(void *p, size_t) noexcept { give(p); }
UNCOUNTED void operator delete[](void *p, size_t) noexcept { give(p); }

struct Cost {
    double steps, bytes;
    Cost &operator+=(const Cost &o) { steps += o.steps; bytes += o.bytes; return *this; }
};
template <class F> static Cost cost(F f) {
    uint64_t s = g_steps, b = g_asked;
    f();
    return {double(g_steps - s), double(g_asked - b)};
}
static void note(Case &c, const char *what, double x) { // largest ratios met, in percent (each worker's own)
    long &v = c.n[what];
    v = std::max(v, long(x * 100));
}

// large work may cost at most `factor` times what `times` portions of small work cost
static void in_proportion(Case &c, const std::string &what, Cost small, Cost large, double times, double factor, int rebuilds = 0) {
    // the small work may have passed without a rebuild of the dictionary, which asks for nearly a megabyte
    double a = large.steps / (small.steps * times + 20000 + 200000. * rebuilds), b = large.bytes / (small.bytes * times + 65536 + 1e6 * rebuilds);
    EXPECT(c, a <= factor, "steps", what << " takes " << large.steps << " steps, " << times << " times less takes " << small.steps);
    EXPECT(c, b <= factor, "bytes", what << " asks for " << large.bytes << " bytes of memory, " << times << " times less for " << small.bytes);
    c.n["comparisons"]++;
    if (getenv("COST_SHOW")) fprintf(stderr, "RATIO %s %.2f %.2f\n", what.c_str(), a, b);
    c.mix(uint64_t(large.bytes));
}

struct Trained {
    Seq symbols, unknown;
    Source src;
    std::shared_ptr<IntStreamVGram> m;
};
static Trained trained(Rng &r, bool loaded) {
    Trained t;
    Seq all = gen_symbols(r, r.range(2, 40) + 3);
    t.unknown.assign(all.begin(), all.begin() + 3);
    t.symbols.assign(all.begin() + 3, all.end());
    t.src = Source::make(r, t.symbols, -1, 0, 40);
    t.src.stretch = 0;
    t.m = std::make_shared<IntStreamVGram>(t.symbols.size() + r.range(2, 60), 0);
    t.m->accept(t.symbols);
    for (long budget = r.range(1000, 20000); budget > 0;) {
        Seq q = t.src.draw(r);
        budget -= q.size() + 1;
        t.m->accept(q);
    }
    t.m->update_dict();
    if (loaded) {
        t.m->save(scratch("cost.json"));
        t.m = Loader::load_int_stream_vgram(scratch("cost.json"));
    }
    return t;
}
static Seq long_seq(Rng &r, const Source &src, size_t n) {
    Seq s;
    while (s.size() < n) { Seq q = src.draw(r); if (q.empty()) q.push_back(src.symbols[0]); s.insert(s.end(), q.begin(), q.end()); }
    s.resize(n);
    return s;
}

// --- one sequence against a longer one
CASE(C36_length) {
    Rng &r = c.rng;
    int times = 8, n = r.range(2000, 5000), kind = c.index % 7;
    static const char *names[] = {"IntStreamVGram::parse", "IntStreamVGram::accept", "parsing with a dictionary", "greedy parsing with a dictionary", "SeqCoder", "tokenizing", "parsing a text"};
    std::string what = names[kind];
    Cost a{0, 0}, b{0, 0};
    if (kind <= 1) {
        Trained t = trained(r, r.chance(0.3));
        Seq s = long_seq(r, t.src, n), l = long_seq(r, t.src, n * times);
        if (r.chance(0.3)) for (int &x : l) if (r.chance(0.02)) x = r.pick(t.unknown);
        Seq out;
        if (kind == 0) {
            a = cost([&] { out = t.m->parse(s); });
            b = cost([&] { out = t.m->parse(l); });
        } else { // a rebuild may follow either
            a = cost([&] { t.m->accept(s); });
            a += cost([&] { t.m->accept(s); });
            a.steps /= 2; a.bytes /= 2;
            b = cost([&] { t.m->accept(l); });
        }
        c.mix(out);
    } else if (kind <= 3) {
        Seq sym = gen_symbols(r, r.range(1, 20));
        Seqs d = gen_dict(r, sym, r.range(0, 60), r.range(2, 12), true);
        IntDictImpl dict(d);
        IntDict *id = &dict;
        Seq f, out;
        for (size_t i = 0; i < d.size(); i++) f.push_back(r.range(0, 100));
        double total = sum_of(f);
        Source src = Source::make(r, sym, -1, 1, 40);
        src.stretch = 0; // no outliers
        Seq s = long_seq(r, src, n), l = long_seq(r, src, n * times);
        std::unordered_set<int> none;
        for (int i = 0; i < dict.size(); i++) if (dict.get(i).size() > 1 && r.chance(0.2)) none.insert(i);
        auto ex = r.chance(0.5) ? &none : nullptr;
        if (kind == 2) {
            a = cost([&] { id->parse(s, f, total, &out); });
            out.clear();
            b = cost([&] { id->parse(l, f, total, &out); });
        } else {
            a = cost([&] { id->parse(s, &out, ex); });
            out.clear();
            b = cost([&] { id->parse(l, &out, ex); });
        }
        c.mix(out);
    } else if (kind == 4) {
        bool fresh = r.chance(0.5);
        Seq sym = gen_symbols(r, fresh ? n * times : r.range(1, 500), r.range(0, 3) == 0 ? 0 : 3);
        Seq l = fresh ? sym : gen_seq(r, sym, n * times), s(l.begin(), l.begin() + n);
        SeqCoder x, y;
        Seq o1, o2, o3;
        a = cost([&] { o1 = x.encode(s); o2 = x.encode_immutable(s); o3 = x.decode(o1); });
        b = cost([&] { o1 = y.encode(l); o2 = y.encode_immutable(l); o3 = y.decode(o1); });
        c.mix(o3);
    } else {
        TextSetup s = TextSetup::make(r, true);
        s.stretch = 0;
        auto text = [&](int tokens) { Strs t; while (static_cast<int>(t.size()) < tokens) { Strs u = s.tokens(r, 0.01); t.insert(t.end(), u.begin(), u.end()); } return s.write(r, t); };
        if (kind == 5) {
            auto make = [&] { return s.words ? std::unique_ptr<BaseTokenizer>(new WordTokenizer) : std::unique_ptr<BaseTokenizer>(new CharTokenizer); };
            auto p = make(), q = make();
            std::string w = text(n), v = text(n * times), o;
            if (s.words && r.chance(0.3)) { // a word without end
                w = std::string(n, 'x');
                v = std::string(n * times, 'x');
            }
            a = cost([&] { o = p->decode(p->transform(w)); });
            b = cost([&] { o = q->decode(q->transform(v)); });
            c.mix(o);
        } else {
            StringStreamVGram m(s.size, 0, false, s.words);
            for (int i = r.range(50, 600); i > 0; i--) m.accept(s.draw(r, 0.01));
            m.update_dict();
            std::string w = text(n), v = text(n * times);
            Strs o;
            a = cost([&] { o = m.parse(w); });
            b = cost([&] { o = m.parse(v); });
            c.mix(cat(o));
        }
    }
    in_proportion(c, what + " of " + std::to_string(times) + " times the length", a, b, times, 3, kind == 1 ? 2 : 0);
    c.nontrivial = true;
    c.sample = what + ": " + std::to_string(long(a.steps)) + " steps for " + std::to_string(n) + " symbols, " + std::to_string(long(b.steps)) + " for " + std::to_string(n * times);
}

// --- small dictionaries and models against larger ones
CASE(C36_size) {
    Rng &r = c.rng;
    int kind = c.index % 7;
    static const char *names[] = {"a lookup", "making a dictionary", "saving", "loading", "a lookup of late symbols", "IntStreamVGram::parse", "IntStreamVGram::accept"};
    std::string what = names[kind];
    int n = r.range(500, 1500), times = kind == 0 || kind == 4 ? 16 : 8;
    Cost a{0, 0}, b{0, 0};
    Seq all = gen_symbols(r, 4000, r.range(0, 3) == 0 ? 0 : 3);
    auto entries = [&](int k) {
        std::set<Seq> s;
        Seq sym(all.begin(), all.begin() + r.range(20, 200));
        for (int x : sym) s.insert(Seq(1, x));
        Seqs pool(s.begin(), s.end());
        while (static_cast<int>(s.size()) < k) {
            Seq e = r.chance(0.3) ? r.pick(pool) : Seq();
            for (int i = r.range(2, 4); i > 0; i--) e.push_back(r.pick(sym));
            if (e.size() > 12) e.resize(12);
            if (s.insert(e).second) pool.push_back(e);
        }
        Seqs v(s.begin(), s.end());
        r.shuffle(v);
        return v;
    };
    if (kind == 0) {
        Seqs small = entries(n), large = entries(n * times);
        IntDictImpl p(small), q(large);
        long sum = 0;
        auto ask = [&](IntDictImpl &d, const Seqs &e) { for (int i = 0; i < 2000; i++) { sum += d.search(e[i % e.size()], nullptr); Seq x = e[(i * 7) % e.size()]; x.push_back(x[0]); sum += d.search(x, nullptr); } };
        a = cost([&] { ask(p, small); });
        b = cost([&] { ask(q, large); });
        in_proportion(c, what + " in a dictionary of " + std::to_string(times) + " times the size", a, b, 1, 4);
        c.mix(uint64_t(sum));
    } else if (kind == 1) {
        Seqs small = entries(n), large = entries(n * times);
        a = cost([&] { IntDictImpl p(small); IntDictImpl k(p); c.mix(uint64_t(k.size())); });
        b = cost([&] { IntDictImpl p(large); IntDictImpl k(p); c.mix(uint64_t(k.size())); });
        in_proportion(c, what + " of " + std::to_string(times) + " times the size", a, b, times, 3);
    } else if (kind == 4) {
        auto ask = [&](int k) {
            IntDictImpl d(Seqs(1, Seq(1, all[0])));
            Seq syms = gen_symbols(r, k, 3);
            for (int x : syms) d.search(Seq(1, x), nullptr);
            long sum = 0;
            Cost z = cost([&] { for (int i = 0; i < 3000; i++) sum += d.search(Seq(1, syms[i % syms.size()]), nullptr); });
            c.mix(uint64_t(sum));
            return z;
        };
        a = ask(n);
        b = ask(n * times);
        in_proportion(c, what + ", " + std::to_string(times) + " times as many", a, b, 1, 3);
    } else {
        auto model = [&](int k) { // as many symbols as k, and some longer entries
            auto m = std::make_shared<IntStreamVGram>(k + 30, 0);
            Seq sym = gen_symbols(r, k, 3);
            m->accept(sym);
            Source src = Source::make(r, Seq(sym.begin(), sym.begin() + std::min(k, 10)), 2, 0, 40);
            src.stretch = 0; // no outliers
            for (int i = 0; i < 300; i++) m->accept(src.draw(r));
            m->update_dict();
            return m;
        };
        auto small = model(n), large = model(n * times);
        if (kind >= 5) { // one sequence, by a model that knows more; a rebuild may fall on some of them
            Rng seqs = r;
            auto per_sequence = [&](IntStreamVGram &m) {
                Rng q = seqs;
                Seqs known = m.alphabet();
                Cost least{1e18, 1e18};
                for (int i = 0; i < 8; i++) {
                    Seq s;
                    while (s.size() < 400) { const Seq &e = known[q.next() % known.size()]; s.insert(s.end(), e.begin(), e.end()); }
                    s.resize(400);
                    Seq out;
                    Cost k = cost([&] { if (kind == 5) out = m.parse(s); else m.accept(s); });
                    c.n["symbols_read"] += out.size();
                    least.steps = std::min(least.steps, k.steps);
                    least.bytes = std::min(least.bytes, k.bytes);
                }
                return least;
            };
            if (r.chance(0.5)) {
                small->save(scratch("cost_small.json")); small = Loader::load_int_stream_vgram(scratch("cost_small.json"));
                large->save(scratch("cost_large.json")); large = Loader::load_int_stream_vgram(scratch("cost_large.json"));
            }
            a = per_sequence(*small);
            b = per_sequence(*large);
            in_proportion(c, what + " by a model of " + std::to_string(times) + " times the size", a, b, 1, 3);
            c.nontrivial = true;
            c.sample = what + ": " + std::to_string(long(a.steps)) + " steps, by a model of " + std::to_string(times) + " times the size " + std::to_string(long(b.steps));
            return;
        }
        std::string f1 = scratch("cost_small.json"), f2 = scratch("cost_large.json");
        a = cost([&] { small->save(f1); });
        b = cost([&] { large->save(f2); });
        if (kind == 3) {
            a = cost([&] { c.mix(uint64_t(Loader::load_int_stream_vgram(f1)->alphabet().size())); });
            b = cost([&] { c.mix(uint64_t(Loader::load_int_stream_vgram(f2)->alphabet().size())); });
        }
        in_proportion(c, what + " a model of " + std::to_string(times) + " times the size", a, b, times, 3);
    }
    c.nontrivial = true;
    c.sample = what + ": " + std::to_string(long(a.steps)) + " steps, for " + std::to_string(times) + " times the size " + std::to_string(long(b.steps));
}

// --- the history
static double entry_memory(const Seqs &a) { // pairs of entries may all have been met
    return 120.0 * a.size() * a.size() + 4096.0 * a.size();
}
CASE(C36_stream) {
    Rng &r = c.rng;
    bool text = r.chance(0.3), tiny = !text && r.chance(0.3); // a tiny model sees many more sequences: less may pile up
    int windows = 16, per = tiny ? r.range(1500, 3000) : r.range(150, 400);
    std::vector<double> steps, bytes, live;
    double room = 0;
    long reads = 0;
    auto judge = [&](const char *what) {
        double early = 0, late = 0, eb = 0, lb = 0, el = 0, ll = 0;
        for (int i = windows / 8; i < windows / 2; i++) { early = std::max(early, steps[i]); eb = std::max(eb, bytes[i]); el = std::max(el, live[i]); }
        for (int i = windows - windows / 4; i < windows; i++) { late += steps[i] / (windows / 4); lb += bytes[i] / (windows / 4); ll = std::max(ll, live[i]); }
        if (getenv("COST_SHOW")) fprintf(stderr, "RATIO %s %.2f %.2f live %.2f of room %.0f\n", what, late / early, lb / eb, ll / (el + room), room);
        EXPECT(c, late <= 3 * early + 20000, "slower-with-time", what << ": " << per << " sequences take up to " << early << " steps in the first half and " << late << " in the last quarter of the stream");
        EXPECT(c, lb <= 3 * eb + 65536, "hungrier-with-time", what << ": " << per << " sequences ask for up to " << eb << " bytes in the first half and " << lb << " in the last quarter of the stream");
        EXPECT(c, ll <= 1.5 * el + room + 65536, "keeps-history", what << ": the model holds up to " << el << " bytes in the first half and " << ll << " in the last quarter of the stream of " << windows * per << " sequences");
        c.n["windows"] += windows;
    };
    uint64_t base = g_live;
    if (!text) {
        Seq sym = gen_symbols(r, tiny ? r.range(2, 4) : r.range(2, 12));
        Source src = Source::make(r, sym, -1, 0, tiny ? 12 : 40);
        src.stretch = 0; // no outliers
        auto m = std::make_shared<IntStreamVGram>(sym.size() + r.range(2, tiny ? 10 : 40), 0);
        m->accept(sym);
        bool reading = r.chance(0.5);
        for (int w = 0; w < windows; w++) {
            Cost k{0, 0};
            double top = 0;
            for (int i = 0; i < per; i++) {
                Seq q = src.draw(r);
                k += cost([&] { m->accept(q); });
                if (reading) { k += cost([&] { c.n["symbols_read"] += m->parse(q).size(); }); reads++; }
                if (i % 64 == 0) top = std::max(top, double(g_live - base));
            }
            m->update_dict();
            room = std::max(room, entry_memory(m->alphabet()));
            steps.push_back(k.steps); bytes.push_back(k.bytes); live.push_back(top);
        }
        judge("IntStreamVGram");
    } else {
        TextSetup s = TextSetup::make(r, true);
        s.stretch = 0;
        s.late.clear();
        if (s.size > 200) s.size = 100;
        auto m = std::make_shared<StringStreamVGram>(s.size, 0, false, s.words);
        m->accept(s.write(r, s.vocab));
        for (int w = 0; w < windows; w++) {
            Cost k{0, 0};
            double top = 0;
            for (int i = 0; i < per; i++) {
                std::string q = s.draw(r, 0);
                k += cost([&] { m->accept(q); });
                if (i % 64 == 0) top = std::max(top, double(g_live - base));
            }
            m->update_dict();
            Strs a = m->alphabet();
            room = std::max(room, entry_memory(Seqs(a.size())));
            steps.push_back(k.steps); bytes.push_back(k.bytes); live.push_back(top);
        }
        judge("StringStreamVGram");
    }
    c.n["reads"] += reads;
    c.mix(uint64_t(steps.back()));
    c.nontrivial = true;
    c.sample = std::to_string(windows * per) + " sequences, " + std::to_string(long(live.back())) + " bytes held, " + std::to_string(long(steps.back())) + " steps for the last " + std::to_string(per);
}

// --- reads keep nothing, a released model keeps nothing
CASE(C36_reads) {
    Rng &r = c.rng;
    long calls = 0;
    if (r.chance(0.4)) { // texts with ever new words
        TextSetup s = TextSetup::make(r, true, r.chance(0.8));
        s.stretch = 0;
        StringStreamVGram m(s.size, 0, false, s.words);
        std::unique_ptr<StringVGram> f;
        if (r.chance(0.5)) {
            f.reset(s.words ? new StringVGram(s.size, 1, new WordTokenizer(), 0) : new StringVGram(s.size, 1, 0));
            f->fit(s.texts(r, r.range(5, 80), 0));
        } else {
            for (auto &t : s.texts(r, r.range(5, 300), 0)) m.accept(t);
            m.update_dict();
        }
        auto read = [&](int i) {
            std::string t = s.draw(r, 0.1) + " new" + std::to_string(i) + " " + s.draw(r, 0.1);
            if (f) c.n["symbols_read"] += f->transform(Strs(1, t))[0].size(); else c.n["symbols_read"] += m.parse(t).size();
            calls++;
        };
        for (int i = 0; i < 300; i++) read(i);
        uint64_t held = g_live;
        for (int i = 300; i < 1500; i++) read(i);
        EXPECT(c, g_live <= held + 4096, "reads-keep", "1200 reads of texts made the model hold " << g_live - held << " bytes more");
        c.mix(cat(f ? f->alphabet() : m.alphabet()));
    } else {
        Trained t = trained(r, r.chance(0.5));
        Seqs probes;
        for (int i = 0; i < 40; i++) { probes.push_back(t.src.draw(r)); if (r.chance(0.3)) probes.back().push_back(r.pick(t.unknown)); }
        std::string file = scratch("cost_reads.json");
        auto read = [&](int i) {
            Seq q = probes[i % probes.size()];
            if (!q.empty() && i > 60) q[i % q.size()] = t.symbols[(i * 7919L) % t.symbols.size()]; // ever new ones
            switch (i % 6) {
                case 0: t.m->alphabet(); break;
                case 1: t.m->freqs(); break;
                case 2: if (i % 96 == 2) t.m->save(file); break;
                default: t.m->parse(q);
            }
            calls++;
        };
        for (int i = 0; i < 300; i++) read(i);
        uint64_t held = g_live;
        for (int i = 300; i < 3300; i++) read(i);
        EXPECT(c, g_live <= held + 4096, "reads-keep", "3000 reads made the model hold " << g_live - held << " bytes more");
        // updates without anything new, too
        for (int i = 0; i < 20; i++) t.m->update_dict();
        held = g_live;
        for (int i = 0; i < 500; i++) t.m->update_dict();
        EXPECT(c, g_live <= held + 4096, "updates-keep", "500 updates made the model hold " << g_live - held << " bytes more");
        c.mix(t.m->alphabet());
    }
    c.n["reads"] += calls;
    c.nontrivial = true;
    c.sample = std::to_string(calls) + " reads";
}

// --- fit and transform: more texts
CASE(C36_fit) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r);
    s.src.stretch = 0;
    s.size = std::min<int>(s.size, s.symbols.size() + 60);
    int n = r.range(200, 400), times = 6, iters = r.range(1, 2);
    unsigned seed = static_cast<unsigned>(r.next());
    Seqs small = gen_texts(r, s, n, 0), large = gen_texts(r, s, n * times, 0);
    for (auto *v : {&small, &large}) if ((*v)[0].size() < 5) (*v)[0] = s.symbols;
    IntVGram p(s.size, iters, 0), q(s.size, iters, 0);
    srand(seed);
    Cost a = cost([&] { p.fit(small); });
    srand(seed);
    Cost b = cost([&] { q.fit(large); });
    in_proportion(c, "IntVGram::fit of " + std::to_string(times) + " times the sequences", a, b, times, 4, 2);
    Cost a2 = cost([&] { c.mix(p.transform(small)); }), b2 = cost([&] { c.mix(p.transform(large)); });
    in_proportion(c, "IntVGram::transform of " + std::to_string(times) + " times the sequences", a2, b2, times, 3);
    a2 = cost([&] { c.mix(cat(p.transform_to_string(small))); });
    b2 = cost([&] { c.mix(cat(p.transform_to_string(large))); });
    in_proportion(c, "IntVGram::transform_to_string of " + std::to_string(times) + " times the sequences", a2, b2, times, 3);
    c.nontrivial = true;
    c.sample = "fit of " + std::to_string(n) + " sequences " + std::to_string(long(a.steps)) + " steps, of " + std::to_string(n * times) + " " + std::to_string(long(b.steps));
}
