// C23, C24: random histories of public calls over all classes, watched by sanitizers or valgrind.
#include "shadow.h"
#include <int_dict.h>
#include <list_dict.h>
#include "models.h"
#include "texts.h"
#include <loader.h>
#include <saver.h>
#include <int_dict_p.h>
#include <stat_dict_p.h>
#include <int_vgram_builder_p.h>
#include <fast_random.h>
#include <tokenizers/char_tokenizer.h>
#include <tokenizers/word_tokenizer.h>
#include <vgram_builders/string_stream_vgram.h>
#include <vgram_builders/string_vgram.h>
using namespace vgram_core;

struct Pool {
    Case &c;
    Rng &r;
    Seq sym;
    TextSetup ts;
    std::vector<std::shared_ptr<IntDict>> dicts;
    std::vector<std::shared_ptr<StatDictImpl>> stats;
    std::vector<std::shared_ptr<IntVGramBuilderImpl>> builders;
    std::vector<std::shared_ptr<IntStreamVGram>> streams;
    std::vector<std::shared_ptr<IntVGram>> fits;
    std::vector<std::shared_ptr<StringStreamVGram>> tstreams;
    std::vector<std::shared_ptr<StringVGram>> tfits;
    std::vector<std::shared_ptr<SeqCoder>> coders;
    std::vector<std::shared_ptr<BaseTokenizer>> toks;
    long touched = 0;
    int slow; // bound on the work of one call
    Pool(Case &c, int slow) : c(c), r(c.rng), sym(gen_symbols(c.rng, c.rng.range(1, 12))), ts(TextSetup::make(c.rng, false)), slow(slow) {}

    Seq seq() { return gen_seq(r, sym, r.chance(0.1) ? r.range(0, 1) : r.range(1, r.chance(0.05) ? slow : 40)); }
    Seq some() { Seq s = seq(); if (s.empty()) s.push_back(r.pick(sym)); return s; }
    Seqs seqs(int n) { Seqs v; for (int i = r.range(0, n); i > 0; i--) v.push_back(seq()); return v; }
    Strs texts(int n) { Strs v; for (int i = r.range(0, n); i > 0; i--) v.push_back(text()); return v; }
    std::string text() {
        if (r.chance(0.2)) { std::string s; for (int i = r.range(0, 50); i > 0; i--) s += char(r.range(-128, 127)); return s; }
        return ts.probe(r);
    }
    int size() {
        static const int s[] = {0, 1, 2, 5, 20, 100, 1000, 100000, 1 << 30, -1, -1000, -(1 << 30)};
        return s[r.next() % 12];
    }
    template <class T> T *one(std::vector<std::shared_ptr<T>> &v) { return v.empty() ? nullptr : v[r.next() % v.size()].get(); }
    template <class T> void put(std::vector<std::shared_ptr<T>> &v, T *p) { put(v, std::shared_ptr<T>(p)); }
    template <class T> void put(std::vector<std::shared_ptr<T>> &v, std::shared_ptr<T> p) {
        if (v.size() < 4) v.push_back(p); else v[r.next() % v.size()] = p; // destroys in any order
        c.n["objects"]++;
    }
    void use(const Seq &s) { for (int x : s) touched += x & 1; }
    void use(const Seqs &s) { for (auto &x : s) use(x); }
    void use(const Strs &s) { for (auto &x : s) touched += x.size() & 1; }
    std::string file(const char *p) { return scratch(p) + std::to_string(r.range(0, 1)); }
    bool fresh(const std::string &f) { return access(f.c_str(), R_OK) == 0; }

    void dict_op() {
        int op = r.range(0, 9);
        IntDict *d = one(dicts);
        if (op <= 2 || !d) {
            Seqs e = gen_dict(r, sym, r.range(0, 15), 6, true);
            switch (r.range(0, 3)) {
                case 0: put<IntDict>(dicts, new IntDictImpl()); break;
                case 1: put<IntDict>(dicts, new IntDictImpl(e)); break;
                case 2: put<IntDict>(dicts, new IntDictImpl(sym)); break;
                default: if (auto *i = dynamic_cast<IntDictImpl *>(d)) put<IntDict>(dicts, new IntDictImpl(*i)); else put<IntDict>(dicts, new IntDictImpl(e));
            }
            return;
        }
        Seq q = seq(), out, f;
        std::unordered_set<int> ex;
        for (int i = 0; i < d->size(); i++) { f.push_back(r.range(0, 50)); if (r.chance(0.2)) ex.insert(i); }
        if (r.chance(0.3)) f.resize(r.range(0, f.size()));
        switch (op) {
            case 3: d->parse(q, &out, nullptr); break;
            case 4: d->parse(q, &out, &ex); break;
            case 5: case 6: d->parse(q, f, sum_of(f), &out); break;
            case 7: touched += d->search(some(), nullptr); break;
            case 8: touched += d->search(some(), &ex); break;
            default: use(d->alphabet()); for (int i = 0; i < d->size(); i++) { use(d->get(i)); touched += d->parent(i) & 1; }
        }
        use(out);
    }
    void stat_op() {
        StatDictImpl *d = one(stats);
        int op = r.range(0, 7);
        if (op <= 1 || !d) {
            Seqs e = gen_dict(r, sym, r.range(0, 15), 6, true);
            Seq f;
            for (size_t i = 0; i < e.size(); i++) f.push_back(r.range(0, 50));
            if (r.chance(0.2)) f.resize(r.range(0, f.size()));
            switch (r.range(0, 3)) {
                case 0: put(stats, new StatDictImpl()); break;
                case 1: put(stats, new StatDictImpl(0.001)); break;
                case 2: put(stats, new StatDictImpl(e)); break;
                default: put(stats, new StatDictImpl(e, 0.0005, &f));
            }
            return;
        }
        Seq out;
        std::unordered_set<int> ex;
        switch (op) {
            case 2: case 3: case 4: d->parse(seq(), &out); break;
            case 5: if (d->size()) d->update_symbol(r.range(0, d->size() - 1), r.range(0, 9)); break;
            case 6: touched += d->search(some()); touched += d->search(some(), &ex); break;
            default:
                use(d->alphabet());
                for (int i = 0; i < d->size(); i++) { use(d->get(i)); touched += d->parent(i) & 1; touched += d->freq(i) & 1; }
                touched += d->code_length_per_char() > 1;
                touched += d->enough(0.1);
        }
        use(out);
    }
    void builder_op() {
        IntVGramBuilderImpl *b = one(builders);
        int op = r.range(0, 9);
        if (op == 0 || !b) {
            Seqs e = gen_dict(r, sym, r.range(0, 15), 6, true);
            switch (r.range(0, 3)) {
                case 0: put(builders, new IntVGramBuilderImpl(size(), r.range(0, 1))); break;
                case 1: put(builders, new IntVGramBuilderImpl(sym, size(), 0)); break;
                case 2: { IntDictImpl d(e); put(builders, new IntVGramBuilderImpl(d, size(), 0)); break; }
                default: {
                    IntDictImpl d(e);
                    Seq f;
                    for (size_t i = 0; i < e.size(); i++) f.push_back(r.range(0, 50));
                    Seqs single;
                    for (int x : sym) single.push_back(Seq(1, x));
                    put(builders, r.chance(0.5) ? new IntVGramBuilderImpl(d, f, single, 0.001, 0) : new IntVGramBuilderImpl(d, f, single, r.chance(0.3) ? -1 : 0.001, 0, std::max(0, size())));
                }
            }
            return;
        }
        if (op <= 6) { for (int i = r.range(1, slow); i > 0; i--) b->accept(seq()); }
        else {
            auto res = b->result();
            if (res) { use(res->alphabet()); put<IntDict>(dicts, res); }
            auto a = b->alpha();
            use(a->alphabet());
            Seq f;
            b->result_freqs(&f);
            use(f);
            touched += b->get_min_probability() > 0;
            touched += b->code_length() > 1;
        }
    }
    void model_read(IntStreamVGram &m) {
        switch (r.range(0, 5)) {
            case 0: case 1: use(m.parse(seq())); break;
            case 2: use(m.alphabet()); break;
            case 3: use(m.freqs()); break;
            case 4: m.save(file("s")); break;
            default: { auto k = m.get_coder(); if (k) { use(k->encode_immutable(seq())); } auto d = m.get_dict(); if (d) use(d->alphabet()); }
        }
    }
    void stream_op() {
        IntStreamVGram *m = one(streams);
        int op = r.range(0, 12);
        if (op == 0 || !m) {
            if (r.chance(0.5)) put(streams, new IntStreamVGram(size(), r.range(0, 1)));
            else put(streams, new IntStreamVGram(size()));
            return;
        }
        if (op <= 4) { for (int i = r.range(1, slow); i > 0; i--) m->accept(seq()); }
        else if (op <= 6) m->update_dict();
        else if (op == 7) put(streams, std::make_shared<IntStreamVGram>(*m));
        else if (op == 8) { m->save(file("s")); put(streams, Loader::load_int_stream_vgram(file("s"))); }
        else model_read(*m);
    }
    void fit_op() {
        IntVGram *m = one(fits);
        int op = r.range(0, 11);
        if (op <= 1 || !m) {
            if (r.chance(0.5)) put(fits, new IntVGram(size(), r.range(0, 3), r.range(0, 1)));
            else put(fits, new IntVGram(size(), r.range(0, 2)));
            return;
        }
        if (op <= 3) m->fit(seqs(slow * 2));
        else if (op == 4) {
            auto p = std::make_shared<Probe>(r.chance(0.5) ? *m : IntVGram(size(), 2, 0));
            p->stop_at = r.range(1, 30);
            p->fit(seqs(20));
            if (r.chance(0.5)) p->stop_at = -1;
            put<IntVGram>(fits, p);
        } else if (op == 5) use(m->transform(seqs(8)));
        else if (op == 6) use(m->transform_to_string(seqs(8)));
        else if (op == 7) put(fits, std::make_shared<IntVGram>(*m));
        else if (op == 8) { m->save(file("f")); put(fits, Loader::load_int_vgram(file("f"))); }
        else if (op == 9) { m->accept(seq()); if (r.chance(0.3)) m->update_dict(); }
        else model_read(*m);
    }
    void tstream_op() {
        StringStreamVGram *m = one(tstreams);
        int op = r.range(0, 10);
        if (op == 0 || !m) {
            if (r.chance(0.2)) { try { StringStreamVGram bad(10, 0, true, true); } catch (const std::invalid_argument &) {} }
            put(tstreams, new StringStreamVGram(size(), r.range(0, 1), false, r.chance(0.5)));
            return;
        }
        try {
            if (op <= 4) { for (int i = r.range(1, slow); i > 0; i--) m->accept(text()); }
            else if (op == 5) m->update_dict();
            else if (op == 6) { m->save(file("t")); put(tstreams, Loader::load_string_stream_vgram(file("t"))); }
            else if (op == 7) put(tstreams, std::make_shared<StringStreamVGram>(*m));
            else if (op == 8) { use(m->alphabet()); use(m->freqs()); }
            else use(m->parse(text()));
        } catch (const std::exception &) { c.n["text_exceptions"]++; } // words that are not UTF-8 cannot be saved
    }
    void tfit_op() {
        StringVGram *m = one(tfits);
        int op = r.range(0, 8);
        if (op <= 1 || !m) {
            int v = r.range(0, 1), n = r.range(0, 2);
            switch (r.range(0, 3)) {
                case 0: put(tfits, new StringVGram(size(), n)); break;
                case 1: put(tfits, new StringVGram(size(), n, v)); break;
                case 2: put(tfits, new StringVGram(size(), n, static_cast<BaseTokenizer *>(new WordTokenizer()))); break;
                default: put(tfits, new StringVGram(size(), n, static_cast<BaseTokenizer *>(new CharTokenizer()), v));
            }
            return;
        }
        try {
            if (op <= 3) m->fit(texts(slow));
            else if (op == 4) use(m->transform(texts(6)));
            else if (op == 5) { m->save(file("v")); put(tfits, Loader::load_string_vgram(file("v"))); }
            else if (op == 6) put(tfits, std::make_shared<StringVGram>(*m));
            else { use(m->alphabet()); use(m->freqs()); }
        } catch (const std::exception &) { c.n["text_exceptions"]++; }
    }
    void small_op() {
        switch (r.range(0, 6)) {
            case 0: { SeqCoder *k = one(coders); if (!k || r.chance(0.2)) { put(coders, new SeqCoder()); break; }
                Seq e = k->encode(seq()); use(k->decode(e)); use(k->encode_immutable(seq())); touched += k->code_map().size();
                try { use(k->decode(Seq(1, r.range(-3, 100)))); } catch (const std::exception &) {} } break;
            case 1: { BaseTokenizer *t = one(toks);
                if (!t || r.chance(0.2)) {
                    std::unordered_map<std::string, int> m;
                    for (auto &w : ts.vocab) if (r.chance(0.5)) m[w] = r.range(0, 100);
                    switch (r.range(0, 3)) {
                        case 0: put<BaseTokenizer>(toks, new CharTokenizer()); break;
                        case 1: put<BaseTokenizer>(toks, new WordTokenizer()); break;
                        case 2: put<BaseTokenizer>(toks, new CharTokenizer(m)); break;
                        default: put<BaseTokenizer>(toks, new WordTokenizer(m));
                    }
                    break;
                }
                use(t->decode(t->transform(texts(5))));
                touched += t->decode(Seq(1, r.range(-5, 500))).size();
            } break;
            case 2: { std::ostringstream o; Seq s = seq(); ::operator<<(o, s); touched += o.str().size(); touched += ::to_string(s).size(); } break;
            case 3: { std::vector<double> p, o(5); for (int i = 0; i < 5; i++) p.push_back(1 + r.uniform() * (r.chance(0.2) ? 1e6 : 10)); p.resize(r.range(1, 5)); next_dirichlet(p, &o); touched += o[0] > 0.5; } break;
            case 4: { Encoder<int> e; Seq o; for (int i = 0; i < 3; i++) e.encode(seq(), &o); use(o); } break;
            case 5: { Encoder<std::string> e; Seq o; for (int i = 0; i < 3; i++) e.encode(texts(3), &o); use(o); } break;
            default: { // files that are no models
                std::string f = scratch("junk"), g = r.chance(0.5) ? file("f") : file("t");
                std::string t = read_file(g);
                static const std::string junk = "{}[]\",:0123456789.-eEtruefalsnull \n\\u\xff\xc3";
                if (r.chance(0.5) || t.empty()) { t.clear(); for (int i = r.range(0, 200); i > 0; i--) t += junk[r.next() % junk.size()]; }
                else for (int i = r.range(1, 5); i > 0; i--) { size_t p = r.next() % t.size(); if (r.chance(0.5)) t.erase(p, r.range(1, 20)); else t.insert(p, 1, "{}[]\",:0123456789.-e"[r.next() % 20]); }
                write_file(f, t);
                try { put(streams, Loader::load_int_stream_vgram(f)); c.n["mutants_loaded"]++; streams.pop_back(); } catch (const std::exception &) {}
                try { delete Loader::load_int_vgram(f); } catch (const std::exception &) {}
                try { Loader::load_string_stream_vgram(f); } catch (const std::exception &) {}
                try { delete Loader::load_string_vgram(f); } catch (const std::exception &) {}
            }
        }
    }
};
static void soup(Case &c, int ops, int slow) {
    for (const char *f : {"s0", "s1", "f0", "f1", "t0", "t1", "v0", "v1"}) unlink(scratch(f).c_str());
    Pool p(c, slow);
    srand(static_cast<unsigned>(c.rng.next()));
    int only = c.rng.chance(0.6) ? c.rng.range(0, 7) : -1; // deep in one class, or all of them
    for (int i = 0; i < ops; i++) {
        int k = only >= 0 && c.rng.chance(0.85) ? only : c.rng.range(0, 7);
        static const char *names[] = {"calls_dict", "calls_stat_dict", "calls_builder", "calls_stream", "calls_fitted", "calls_text_stream", "calls_text_fitted", "calls_others"};
        c.n[names[k]]++;
        c.mix(uint64_t(k));
        try {
            switch (k) {
                case 0: p.dict_op(); break;
                case 1: p.stat_op(); break;
                case 2: p.builder_op(); break;
                case 3: p.stream_op(); break;
                case 4: p.fit_op(); break;
                case 5: p.tstream_op(); break;
                case 6: p.tfit_op(); break;
                default: p.small_op();
            }
        } catch (const std::exception &e) { c.n["exceptions"]++; } // not judged here
    }
    c.n["exceptions"] += 0;
    c.mix(uint64_t(p.touched));
    c.nontrivial = c.n["objects"] > 2;
    c.sample = std::to_string(ops) + " calls on " + std::to_string(c.n["objects"]) + " objects, mostly of class " + std::to_string(only);
}
CASE(C23_soup) { soup(c, c.rng.range(10, 150), 60); }
CASE(C24_soup) { soup(c, c.rng.range(10, 40), 15); }
