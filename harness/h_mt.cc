// C26: models of different threads, and one model read by many, under ThreadSanitizer.
#include "faults.h"
#include "texts.h"
#include <atomic>
#include <thread>
#include <loader.h>
#include <saver.h>
#include <tokenizers/char_tokenizer.h>
#include <tokenizers/word_tokenizer.h>
#include <vgram_builders/string_stream_vgram.h>
#include <vgram_builders/string_vgram.h>
using namespace vgram_core;

struct Digest { // a digest any thread may own
    uint64_t v = 1469598103934665603ULL;
    void add(uint64_t x) { v = hash_bytes(&x, sizeof x, v); }
    void add(const Seq &s) { add(s.size()); for (int x : s) add(uint64_t(uint32_t(x))); }
    void add(const Seqs &s) { add(s.size()); for (auto &x : s) add(x); }
    void add(const std::string &s) { v = hash_bytes(s.data(), s.size(), v); add(s.size()); }
    void add(const Strs &s) { add(s.size()); for (auto &x : s) add(x); }
};
struct Gate { // all threads start together
    std::atomic<int> waiting{0};
    void wait(int n) { waiting++; while (waiting < n) std::this_thread::yield(); }
};
static void pause(Rng &r) {
    int k = r.range(0, 19);
    if (k == 0) usleep(r.range(1, 60)); else if (k < 4) std::this_thread::yield();
}

// One history of one thread; fit draws from rand(), so data of one sequence keeps it deterministic.
static uint64_t own_history(uint64_t seed, int kind, long *events) {
    Rng r(seed);
    Digest d;
    scratch_prefix = std::to_string(seed) + "_";
    std::string f = scratch("own.json");
    long n = 0;
    if (kind == 0) {
        IntSetup s = IntSetup::make(r, 8, 25);
        auto m = std::make_shared<IntStreamVGram>(s.size, 0);
        for (int part = 0; part < 2; part++) {
            for (long budget = r.range(300, 2500); budget > 0;) {
                Seq q = s.draw(r, 0.02);
                budget -= q.size() + 1;
                m->accept(q);
                n++;
                pause(r);
                if (r.chance(0.03)) { m->update_dict(); d.add(m->alphabet()); d.add(m->freqs()); n++; }
                if (r.chance(0.03)) { d.add(m->parse(s.probe(r))); n++; }
            }
            m->update_dict();
            m->save(f);
            d.add(read_file(f));
            if (r.chance(0.7)) m = Loader::load_int_stream_vgram(f);
            n += 3;
        }
        d.add(m->alphabet());
    } else if (kind == 1) {
        IntSetup s = IntSetup::make(r, 8, 25);
        Seq one;
        while (one.size() < 400) { Seq q = s.src.draw(r); one.insert(one.end(), q.begin(), q.end()); if (q.empty()) one.push_back(s.symbols[0]); }
        IntVGram m(s.size, r.range(1, 12), 0);
        m.fit(Seqs(1, one));
        d.add(m.alphabet()); d.add(m.freqs());
        Seqs probes;
        for (int i = 0; i < 5; i++) probes.push_back(s.probe(r));
        d.add(m.transform(probes)); d.add(m.transform_to_string(probes));
        m.save(f);
        d.add(read_file(f));
        std::unique_ptr<IntVGram> l(Loader::load_int_vgram(f));
        d.add(l->transform(probes));
        n += 8;
    } else if (kind == 2) {
        TextSetup s = TextSetup::make(r, true);
        auto m = std::make_shared<StringStreamVGram>(s.size, 0, false, s.words);
        for (int k = r.range(20, 150); k > 0; k--) {
            m->accept(s.draw(r, 0.02));
            n++;
            pause(r);
            if (r.chance(0.05)) { m->update_dict(); d.add(m->alphabet()); }
            if (r.chance(0.1)) { d.add(m->parse(s.probe(r))); n++; }
        }
        m->update_dict();
        m->save(f);
        d.add(read_file(f));
        auto l = Loader::load_string_stream_vgram(f);
        d.add(l->alphabet()); d.add(l->freqs()); d.add(l->parse(s.probe(r)));
        n += 4;
    } else {
        TextSetup s = TextSetup::make(r, true);
        std::string one;
        while (one.size() < 400) one += s.draw(r, 0) + " x";
        int iters = r.range(1, 8), verbose = 0;
        std::unique_ptr<StringVGram> m(s.words ? new StringVGram(s.size, iters, new WordTokenizer(), verbose) : new StringVGram(s.size, iters, verbose));
        m->fit(Strs(1, one));
        d.add(m->alphabet()); d.add(m->freqs());
        Strs probes;
        for (int i = 0; i < 5; i++) probes.push_back(s.probe(r));
        d.add(m->transform(probes));
        m->save(f);
        d.add(read_file(f));
        std::unique_ptr<StringVGram> l(Loader::load_string_vgram(f));
        d.add(l->transform(probes));
        n += 7;
    }
    unlink(f.c_str());
    *events += n;
    return d.v;
}
CASE(C26_own) {
    Rng &r = c.rng;
    int T = r.range(2, 6);
    std::vector<uint64_t> seeds(T), want(T), got(T);
    std::vector<int> kinds(T);
    std::vector<long> ev(T, 0);
    bool same = r.chance(0.3); // all threads do the same
    for (int i = 0; i < T; i++) {
        seeds[i] = r.next();
        kinds[i] = same && i ? kinds[0] : r.range(0, 3);
    }
    long dummy = 0;
    for (int i = 0; i < T; i++) want[i] = own_history(seeds[i], kinds[i], &dummy);
    Gate g;
    std::vector<std::thread> th;
    for (int i = 0; i < T; i++) th.emplace_back([&, i]() { g.wait(T); got[i] = own_history(seeds[i], kinds[i], &ev[i]); });
    for (auto &t : th) t.join();
    for (int i = 0; i < T; i++) {
        EXPECT(c, got[i] == want[i], "other-result", "history " << seeds[i] << " of kind " << kinds[i] << " gives another result beside " << T - 1 << " threads than alone");
        c.n["calls_in_threads"] += ev[i];
        c.mix(want[i]);
    }
    c.n["threads"] += T;
    c.nontrivial = true;
    c.sample = std::to_string(T) + " threads with models of their own, " + std::to_string(c.n["calls_in_threads"]) + " calls";
}
CASE(C26_shared) {
    Rng &r = c.rng;
    int kind = r.range(0, 3);
    scratch_prefix.clear();
    std::shared_ptr<IntStreamVGram> is;
    std::shared_ptr<IntVGram> iv;
    std::shared_ptr<StringStreamVGram> ts;
    std::shared_ptr<StringVGram> tv;
    Seqs probes;
    Strs tprobes;
    srand(static_cast<unsigned>(r.next()));
    bool loaded = r.chance(0.4);
    std::string f = scratch("shared.json");
    if (kind < 2) {
        IntSetup s = IntSetup::make(r, 8, 25);
        Seqs data = gen_texts(r, s, r.range(5, 150), 0);
        if (r.chance(0.3)) data.push_back(s.symbols);
        if (kind == 0) { is = std::make_shared<IntStreamVGram>(s.size, 0); for (auto &q : data) is->accept(q); is->update_dict(); if (r.chance(0.5)) is->accept(s.draw(r, 1)); }
        else { iv = std::make_shared<IntVGram>(s.size, 2, 0); iv->fit(data); is = iv; }
        for (int i = 0; i < 6; i++) { probes.push_back(s.src.draw(r)); if (r.chance(0.3)) probes.back().push_back(r.pick(r.chance(0.5) ? s.unknown : s.late)); }
        if (loaded) { if (iv) iv->save(f); else is->save(f); if (iv) { iv.reset(Loader::load_int_vgram(f)); is = iv; } else is = Loader::load_int_stream_vgram(f); }
    } else {
        TextSetup s = TextSetup::make(r, true);
        Strs data = s.texts(r, r.range(5, 100), 0);
        data.push_back(s.write(r, s.vocab));
        int iters = 2, verbose = 0;
        if (kind == 2) { ts = std::make_shared<StringStreamVGram>(s.size, 0, false, s.words); for (auto &t : data) ts->accept(t); ts->update_dict(); }
        else { tv.reset(s.words ? new StringVGram(s.size, iters, new WordTokenizer(), verbose) : new StringVGram(s.size, iters, verbose)); tv->fit(data); }
        for (int i = 0; i < 6; i++) tprobes.push_back(s.probe(r));
        if (loaded) { if (ts) { ts->save(f); ts = Loader::load_string_stream_vgram(f); } else { tv->save(f); tv.reset(Loader::load_string_vgram(f)); } }
    }
    auto read = [&](int what, const std::string &file) {
        Digest d;
        int k = what % 5, p = what / 5;
        if (is) {
            if (k <= 1) { if (iv && k) { d.add(iv->transform(probes)); d.add(iv->transform_to_string(probes)); } else d.add(is->parse(probes[p % probes.size()])); }
            else if (k == 2) d.add(is->alphabet());
            else if (k == 3) d.add(is->freqs());
            else { if (iv) iv->save(file); else is->save(file); d.add(read_file(file)); }
        } else {
            if (k <= 1) { if (ts) d.add(ts->parse(tprobes[p % tprobes.size()])); else d.add(tv->transform(k ? tprobes : Strs(1, tprobes[p % tprobes.size()]))); }
            else if (k == 2) d.add(ts ? ts->alphabet() : tv->alphabet());
            else if (k == 3) d.add(ts ? ts->freqs() : tv->freqs());
            else { if (ts) ts->save(file); else tv->save(file); d.add(read_file(file)); }
        }
        return d.v;
    };
    std::map<int, uint64_t> want;
    bool cold = r.chance(0.5); // the first reads of all happen in several threads
    auto read_alone = [&]() { for (int w = 0; w < 30; w++) want[w] = read(w, scratch("seq.json")); };
    if (!cold) read_alone();
    int T = r.range(2, 6), each = r.range(20, 60);
    std::vector<std::vector<std::pair<int, uint64_t>>> log(T);
    std::vector<uint64_t> seeds(T);
    for (auto &s : seeds) s = r.next();
    Gate g;
    std::vector<std::thread> th;
    for (int i = 0; i < T; i++) th.emplace_back([&, i]() {
        Rng tr(seeds[i]);
        std::string file = g_scratch + "/t" + std::to_string(i) + ".json";
        g.wait(T);
        for (int k = 0; k < each; k++) { int w = tr.range(0, 29); log[i].emplace_back(w, read(w, file)); pause(tr); }
        unlink(file.c_str());
    });
    for (auto &t : th) t.join();
    if (cold) read_alone();
    c.n["cold_starts"] += cold;
    for (auto &l : log) for (auto &e : l) {
        EXPECT(c, e.second == want[e.first], "other-answer", "read " << e.first << " of a shared model of kind " << kind << " answers differently beside other readers");
        c.n["concurrent_reads"]++;
    }
    for (auto &w : want) { EXPECT(c, read(w.first, scratch("seq.json")) == w.second, "changed", "after concurrent reads read " << w.first << " answers differently"); c.mix(w.second); }
    c.n["threads"] += T;
    c.nontrivial = true;
    c.sample = std::to_string(T) + " threads read one " + (kind == 0 ? "stream" : kind == 1 ? "fitted" : kind == 2 ? "text stream" : "fitted text") + " model, " + std::to_string(T * each) + " reads";
}
