// Text models of both kinds and their histories.
#pragma once
#include "models.h"
#include "texts.h"
#include <loader.h>
#include <saver.h>
#include <tokenizers/char_tokenizer.h>
#include <tokenizers/word_tokenizer.h>
#include <vgram_builders/string_stream_vgram.h>
#include <vgram_builders/string_vgram.h>
using namespace vgram_core;

// --- either kind of text model
struct TextModel {
    std::shared_ptr<StringStreamVGram> s;
    std::shared_ptr<StringVGram> f;
    Strs alphabet() const { return s ? s->alphabet() : f->alphabet(); }
    Seq freqs() const { return s ? s->freqs() : f->freqs(); }
    void save(const std::string &p) const { if (s) s->save(p); else f->save(p); }
    Strs pieces(const std::string &t) const { return s ? s->parse(t) : split(transform1(t)); }
    std::string transform1(const std::string &t) const { Strs v = f->transform({t}); return v.size() == 1 ? v[0] : "?"; }
    TextModel load(const std::string &p) const {
        TextModel m;
        if (s) m.s = Loader::load_string_stream_vgram(p); else m.f.reset(Loader::load_string_vgram(p));
        return m;
    }
};
static StringVGram *make_fitted(bool words, int size, int iters, int verbose) {
    return words ? new StringVGram(size, iters, new WordTokenizer(), verbose) : new StringVGram(size, iters, verbose);
}
struct TextRun {
    TextModel m;
    Strs data;
    std::set<std::string> known;
    void accept(bool words, const std::string &t) { m.s->accept(t); data.push_back(t); for (auto &x : ref_tokens(words, t)) known.insert(x); }
};
static TextRun train(Rng &r, const TextSetup &s, bool fitted, int much, double late_p, int iters = -1) {
    TextRun run;
    if (fitted) {
        srand(static_cast<unsigned>(r.next()));
        run.m.f.reset(make_fitted(s.words, s.size, iters >= 0 ? iters : gen_iters(r, 1, 3), 0));
        run.data = s.texts(r, much == 0 ? r.range(0, 20) : much == 1 ? r.range(20, 100) : r.range(120, 350), late_p);
        run.m.f->fit(run.data);
        for (auto &t : run.data) for (auto &x : ref_tokens(s.words, t)) run.known.insert(x);
    } else {
        run.m.s = std::make_shared<StringStreamVGram>(s.size, 0, false, s.words);
        int n = much == 0 ? r.range(0, 30) : much == 1 ? r.range(30, 300) : r.range(300, 1500);
        for (int i = 0; i < n; i++) {
            run.accept(s.words, s.draw(r, late_p));
            if (r.chance(0.01)) run.m.s->update_dict();
        }
        if (r.chance(0.85)) run.m.s->update_dict();
    }
    return run;
}
