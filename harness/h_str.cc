// Tokenizers and text models.
#include "faults.h"
#include "texts.h"
#include <loader.h>
#include <saver.h>
#include <tokenizers/char_tokenizer.h>
#include <tokenizers/word_tokenizer.h>
#include <vgram_builders/string_stream_vgram.h>
#include <vgram_builders/string_vgram.h>
#include "textmodels.h"

static Strs known_tokens(const std::set<std::string> &known, const Strs &t) {
    Strs v;
    for (auto &x : t) if (known.count(x)) v.push_back(x);
    return v;
}
static void check_text(Case &c, const char *what, const TextSetup &s, const TextModel &m, const std::set<std::string> &known, const std::string &text) {
    Strs p = m.pieces(text);
    std::string want = cat(known_tokens(known, ref_tokens(s.words, text)));
    EXPECT(c, cat(p) == want, "lossless", what << ": the pieces of " << hex(text) << " spell " << hex(cat(p)) << ", not " << hex(want));
    Strs a = m.alphabet();
    std::set<std::string> in(a.begin(), a.end());
    for (auto &x : p) {
        EXPECT(c, in.count(x), "not-an-entry", what << ": piece " << hex(x) << " of " << hex(text) << " is not in the alphabet " << show(a, 40));
        if (x.size() > 1) c.n["longer_pieces"]++;
    }
    c.n["texts_parsed"]++;
    c.mix(cat(p)); c.mix(uint64_t(p.size()));
}

CASE(C01_str) {
    Rng &r = c.rng;
    TextSetup s = TextSetup::make(r, true);
    TextRun run = train(r, s, r.chance(0.5), r.range(0, 2), 0.02);
    for (int i = 0; i < 5; i++) check_text(c, "text model", s, run.m, run.known, s.probe(r));
    if (run.m.s && r.chance(0.5)) {
        std::string t = s.draw(r, 1);
        run.accept(s.words, t);
        check_text(c, "text model after a late token", s, run.m, run.known, t);
        if (r.chance(0.5)) run.m.s->update_dict();
        check_text(c, "text model after a late token", s, run.m, run.known, t);
    }
    if (r.chance(0.5)) {
        run.m.save(scratch("text.json"));
        TextModel l = run.m.load(scratch("text.json"));
        for (int i = 0; i < 4; i++) check_text(c, "loaded text model", s, l, run.known, s.probe(r));
    }
    if (run.m.f) {
        Strs probes;
        for (int i = 0, n = list_size(r, 4); i < n; i++) probes.push_back(s.probe(r));
        Strs t = run.m.f->transform(probes);
        EXPECT(c, t.size() == probes.size(), "count", t.size() << " results for " << probes.size() << " texts");
        for (size_t i = 0; i < t.size(); i++) EXPECT(c, t[i] == run.m.transform1(probes[i]), "transform", "the result for a text depends on its neighbours");
    }
    c.nontrivial = c.n["longer_pieces"] > 0;
    c.sample = std::string(s.words ? "word" : "character") + (run.m.f ? " fitted" : " stream") + " model of " + std::to_string(run.m.alphabet().size()) + " entries";
}

// --- C21
CASE(C21_tok) {
    Rng &r = c.rng;
    bool words = r.chance(0.5);
    TextSetup s = TextSetup::make(r, false, words);
    std::unordered_map<std::string, int> init;
    std::map<std::string, int> id;
    std::map<int, std::string> back;
    int next = 0;
    if (r.chance(0.6)) {
        Strs base = s.vocab;
        r.shuffle(base);
        base.resize(r.range(0, base.size()));
        for (auto &w : base) {
            int x;
            do x = r.chance(0.5) ? r.range(0, 2 * base.size() + 3) : r.range(0, 1000000000); while (back.count(x));
            init[w] = x; id[w] = x; back[x] = w;
        }
    }
    (void) next;
    std::unique_ptr<BaseTokenizer> t;
    bool from_map = !init.empty() || r.chance(0.3);
    if (words) t.reset(from_map ? new WordTokenizer(init) : new WordTokenizer());
    else t.reset(from_map ? new CharTokenizer(init) : new CharTokenizer());
    auto check = [&](const std::string &text, const Seq &got) {
        Strs want = ref_tokens(words, text);
        EXPECT(c, got.size() == want.size(), "tokens", (words ? "word" : "char") << " tokenizer cuts " << hex(json_escape(text)) << " into " << got.size() << " tokens, not " << show(want));
        for (size_t i = 0; i < got.size(); i++) {
            EXPECT(c, got[i] >= 0, "negative", "token " << hex(want[i]) << " has id " << got[i]);
            auto it = id.find(want[i]);
            if (it == id.end()) {
                EXPECT(c, !back.count(got[i]), "shared-id", "token " << hex(want[i]) << " gets id " << got[i] << " of token " << hex(back[got[i]]));
                id[want[i]] = got[i];
                back[got[i]] = want[i];
                c.n["tokens_numbered"]++;
            } else EXPECT(c, it->second == got[i], "id-changed", "token " << hex(want[i]) << " had id " << it->second << ", has " << got[i]);
        }
        EXPECT(c, t->decode(got) == cat(want), "decode", "ids of " << hex(text) << " decode to " << hex(t->decode(got)) << ", not " << hex(cat(want)));
        c.n["texts"]++;
        c.mix(got);
    };
    for (int k = 0, n = r.range(1, 15); k < n; k++) {
        std::string text = s.probe(r);
        if (r.chance(0.2)) { text.clear(); for (int i = r.range(0, 60); i > 0; i--) text += char(r.chance(0.2) ? ' ' : r.range(-128, 127)); }
        EXPECT(c, t->tokenize(t->normalize(text)) == ref_tokens(words, text), "tokens", (words ? "word" : "char") << " tokenizer cuts " << hex(json_escape(text)) << " into " << show(t->tokenize(t->normalize(text))));
        if (r.chance(0.6)) check(text, t->transform(text));
        else {
            Strs many;
            for (int i = r.range(0, 4); i > 0; i--) many.push_back(s.probe(r));
            std::vector<Seq> got = t->transform(many);
            EXPECT(c, got.size() == many.size(), "count", got.size() << " results for " << many.size() << " texts");
            for (size_t i = 0; i < many.size(); i++) check(many[i], got[i]);
            Strs d = t->decode(got);
            EXPECT(c, d.size() == many.size(), "count", d.size() << " decoded for " << many.size() << " texts");
            for (size_t i = 0; i < many.size(); i++) EXPECT(c, d[i] == cat(ref_tokens(words, many[i])), "decode", "decoding several texts differs from decoding each");
        }
    }
    c.nontrivial = id.size() > 1;
    c.sample = std::string(words ? "words " : "characters ") + std::to_string(init.size()) + " given, " + std::to_string(id.size()) + " numbered";
}

// --- C22
struct Twin { // integer side of a text model
    bool words;
    std::map<std::string, int> id;
    Strs token;
    Seq ids(const std::string &text) {
        Seq v;
        for (auto &x : ref_tokens(words, text)) {
            auto it = id.emplace(x, token.size());
            if (it.second) token.push_back(x);
            v.push_back(it.first->second);
        }
        return v;
    }
    std::string spell(const Seq &e) const { std::string s; for (int x : e) s += token[x]; return s; }
    Strs spell(const Seqs &v) const { Strs s; for (auto &e : v) s.push_back(spell(e)); return s; }
    Seqs ids(const Strs &v) { Seqs r; for (auto &t : v) r.push_back(ids(t)); return r; }
};
static void same_models(Case &c, const char *what, const TextModel &m, const IntStreamVGram &i, const Twin &w) {
    EXPECT(c, m.freqs() == i.freqs(), "freqs", what << ": frequencies " << show(m.freqs(), 30) << ", integer model " << show(i.freqs(), 30));
    EXPECT(c, m.alphabet() == w.spell(i.alphabet()), "alphabet", what << ": alphabet " << show(m.alphabet(), 30) << ", integer model " << show(w.spell(i.alphabet()), 30));
    c.n["states_compared"]++;
}
CASE(C22_str) {
    Rng &r = c.rng;
    TextSetup s = TextSetup::make(r, false);
    Twin w;
    w.words = s.words;
    std::string desc;
    auto same_pieces = [&](const TextModel &m, const IntStreamVGram &i, const std::string &text) {
        Seqs alpha;
        Seq p = i.parse(w.ids(text));
        alpha = i.alphabet();
        Strs want;
        std::string joined;
        for (int x : p) { want.push_back(w.spell(alpha[x])); joined += (joined.empty() ? "" : " ") + want.back(); if (alpha[x].size() > 1) c.n["longer_entries_compared"]++; }
        if (m.s) { Strs got = m.s->parse(text); EXPECT(c, got == want, "parse", "text model parses " << hex(text) << " as " << show(got) << ", integer model as " << show(want)); }
        else { std::string got = m.transform1(text); EXPECT(c, got == joined, "transform", "text model transforms " << hex(text) << " to " << hex(got) << ", integer model to " << hex(joined)); }
        c.n["segmentations_compared"]++;
        c.mix(p);
    };
    if (r.chance(0.5)) {
        TextModel m;
        int dummy = 0; (void) dummy;
        m.s = std::make_shared<StringStreamVGram>(s.size, 0, false, s.words);
        IntStreamVGram i(s.size, 0);
        same_models(c, "new stream model", m, i, w);
        for (int k = 0, n = r.chance(0.3) ? r.range(500, 1500) : r.range(0, 300); k < n; k++) {
            std::string t = s.draw(r, 0.02);
            m.s->accept(t);
            i.accept(w.ids(t));
            if (r.chance(0.02)) { m.s->update_dict(); i.update_dict(); same_models(c, "updated stream model", m, i, w); }
            if (r.chance(0.03)) { same_pieces(m, i, s.probe(r)); same_models(c, "stream model after parse", m, i, w); }
        }
        m.s->update_dict();
        i.update_dict();
        same_models(c, "updated stream model", m, i, w);
        for (int k = 0; k < 5; k++) same_pieces(m, i, s.probe(r));
        same_models(c, "stream model after parses", m, i, w);
        desc = "stream";
    } else {
        int iters = gen_iters(r, 0, 3);
        unsigned seed = static_cast<unsigned>(r.next());
        Strs data = s.texts(r, r.chance(0.3) ? r.range(100, 300) : r.range(0, 60), 0.02);
        TextModel m;
        m.f.reset(make_fitted(s.words, s.size, iters, 0));
        IntVGram i(s.size, iters, 0);
        srand(seed);
        EXPECT(c, m.f->fit(data) == m.f.get(), "fit", "fit did not return the model");
        Seqs ids = w.ids(data);
        srand(seed);
        i.fit(ids);
        same_models(c, "fitted model", m, i, w);
        Strs probes;
        for (int k = 0, n = list_size(r, 6); k < n; k++) probes.push_back(k < 2 && !data.empty() ? r.pick(data) : s.probe(r));
        for (auto &t : probes) same_pieces(m, i, t);
        Strs all = m.f->transform(probes);
        EXPECT(c, all.size() == probes.size(), "count", all.size() << " results for " << probes.size() << " texts");
        for (size_t k = 0; k < all.size(); k++) EXPECT(c, all[k] == m.transform1(probes[k]), "transform", "the result for a text depends on its neighbours");
        same_models(c, "fitted model after transforms", m, i, w);
        desc = "fitted";
    }
    c.nontrivial = c.n["longer_entries_compared"] > 0;
    c.sample = desc + (s.words ? " word" : " character") + " model over " + std::to_string(w.token.size()) + " tokens beside its integer model";
}

// --- C13, C14 on text models
CASE(C13_str) {
    Rng &r = c.rng;
    TextSetup s = TextSetup::make(r, true, 0);
    TextRun run = train(r, s, true, r.range(0, 2), 0.03, r.range(0, 3));
    Strs a = run.m.alphabet();
    Seq f = run.m.freqs();
    EXPECT(c, a.size() == f.size(), "aligned", f.size() << " frequencies for " << a.size() << " entries");
    std::map<char, long> got, want;
    for (size_t i = 0; i < a.size(); i++) {
        EXPECT(c, f[i] >= 0, "negative", "frequency " << f[i]);
        if (f[i]) for (char x : a[i]) got[x] += f[i];
        if (f[i] && a[i].size() > 1) c.n["longer_entries_counted"]++;
    }
    for (auto &t : run.data) for (auto &x : ref_tokens(false, t)) want[x[0]]++;
    EXPECT(c, got == want, "conservation", "the frequencies of a fitted text model do not account for its characters: " << show(a, 20) << " " << show(f, 20));
    c.n["texts"] += run.data.size();
    c.mix(f);
    c.nontrivial = c.n["longer_entries_counted"] > 0;
    c.sample = std::to_string(run.data.size()) + " texts fitted: " + show(a, 10) + " " + show(f, 10);
}
CASE(C14_str) {
    Rng &r = c.rng;
    TextSetup s = TextSetup::make(r, true);
    bool fitted = r.chance(0.6);
    TextRun run = train(r, s, fitted, r.range(0, 2), 0.02);
    Strs probes;
    for (int i = 0; i < 5; i++) probes.push_back(s.probe(r));
    auto ask = [&](const TextModel &m) { std::vector<Strs> v; for (auto &t : probes) v.push_back(m.pieces(t)); return v; };
    if (!fitted && r.chance(0.5)) run.accept(s.words, s.draw(r, 1));
    Strs a = run.m.alphabet();
    Seq f = run.m.freqs();
    auto parses = ask(run.m);
    TextModel m = run.m;
    if (r.chance(0.3)) { m.save(scratch("keep.json")); m = m.load(scratch("keep.json")); }
    for (int k = 0; k < 5; k++) {
        switch (r.range(0, 4)) {
            case 0: m.alphabet(); break;
            case 1: m.freqs(); break;
            case 2: m.save(scratch("reads.json")); break;
            case 3: m.pieces(s.probe(r)); break;
            default: if (m.f) { EXPECT(c, m.f->fit(r.chance(0.2) ? Strs() : s.texts(r, r.range(1, 30), 0.3)) == m.f.get(), "refit", "a repeated fit did not return the model"); c.n["repeated_fits"]++; }
        }
        EXPECT(c, ask(m) == parses, "parse-changed", "segmentations changed through reads");
        Strs b = m.alphabet();
        Seq g = m.freqs();
        EXPECT(c, a == b, "alphabet-changed", "the alphabet changed through reads: " << show(a, 30) << " became " << show(b, 30));
        EXPECT(c, f == g, "freqs-changed", "the frequencies changed through reads");
        c.n["answers_compared"]++;
    }
    c.mix(cat(a)); c.mix(f);
    c.nontrivial = a.size() > 1;
    c.sample = std::string(fitted ? "fitted" : "stream") + (s.words ? " word" : " character") + " model of " + std::to_string(a.size()) + " entries";
}

// --- C17
static void check_text_trip(Case &c, const TextSetup &s, const TextModel &m, const TextModel &l, const std::string &file, const Strs &probes) {
    EXPECT(c, l.alphabet() == m.alphabet(), "alphabet", "loaded alphabet " << show(l.alphabet(), 30) << ", saved " << show(m.alphabet(), 30));
    EXPECT(c, l.freqs() == m.freqs(), "freqs", "loaded frequencies " << show(l.freqs(), 30) << ", saved " << show(m.freqs(), 30));
    l.save(scratch("again.json"));
    EXPECT(c, json::parse(read_file(file)) == json::parse(read_file(scratch("again.json"))), "file", "saving the loaded model gives another file");
    for (auto &t : probes) {
        Strs x = m.pieces(t), y = l.pieces(t);
        EXPECT(c, x == y, "parse", "loaded model parses " << hex(t) << " as " << show(y) << ", saved one as " << show(x));
        c.n["parses_compared"]++;
    }
    if (m.f) EXPECT(c, m.f->transform(probes) == l.f->transform(probes), "transform", "saved and loaded model transform differently");
    EXPECT(c, l.alphabet() == m.alphabet() && l.freqs() == m.freqs(), "after-parse", "saved and loaded model differ after parses");
    c.n["round_trips"]++;
}
CASE(C17_str) {
    Rng &r = c.rng;
    TextSetup s = TextSetup::make(r, true);
    TextRun run = train(r, s, r.chance(0.4), r.range(0, 2), 0.02);
    if (run.m.s && r.chance(0.5)) for (int k = r.range(1, 4); k > 0; k--) run.accept(s.words, s.draw(r, 1));
    Strs probes;
    for (int i = 0; i < 7; i++) probes.push_back(i == 0 && !run.data.empty() ? run.data.back() : s.probe(r));
    if (r.chance(0.3)) for (auto &t : probes) run.m.pieces(t);
    TextModel cur = run.m;
    std::string file = scratch("text_trip.json");
    c.mix(cat(cur.alphabet())); c.mix(cur.freqs());
    for (int g = 0, n = r.range(1, 3); g < n; g++) {
        cur.save(file);
        if (r.chance(0.15)) { // as of a model that has seen very much
            json j = json::parse(read_file(file));
            Seq want;
            long k = j["alphabet"].size();
            for (auto &e : j["alphabet"]) { if (r.chance(0.35)) e["freq"] = r.range(0, static_cast<int>(2000000000 / k)); want.push_back(e["freq"].get<int>()); }
            std::ofstream(file) << j.dump(2) << std::endl;
            cur = cur.load(file);
            run.m = cur;
            EXPECT(c, cur.freqs() == want, "large-freqs", "loaded frequencies " << show(cur.freqs(), 30) << ", the file has " << show(want, 30));
            cur.save(file);
            c.n["raised_frequencies"]++;
        }
        TextModel l = cur.load(file);
        check_text_trip(c, s, cur, l, file, probes);
        for (auto &t : probes) check_text(c, "loaded text model", s, l, run.known, t);
        cur = l;
        run.m = l;
        if (cur.f) {
            Seq f = cur.freqs();
            Strs a = cur.alphabet();
            EXPECT(c, cur.f->fit(s.texts(r, r.range(1, 20), 0.3)) == cur.f.get() && cur.freqs() == f && cur.alphabet() == a, "fitted", "a loaded fitted model was fitted again");
            continue;
        }
        // new tokens, met in parses first or not
        for (int k = r.range(0, 12); k > 0; k--) {
            Strs t = s.tokens(r, 0.5);
            if (!t.empty() && !s.unknown.empty() && r.chance(0.5)) t[r.next() % t.size()] = r.pick(s.unknown);
            std::string x = s.write(r, t);
            if (r.chance(0.3)) check_text(c, "loaded text model before new tokens", s, cur, run.known, x);
            run.accept(s.words, x);
            check_text(c, "loaded text model with new tokens", s, cur, run.known, x);
            check_text(c, "loaded text model with new tokens", s, cur, run.known, s.probe(r));
            if (r.chance(0.2)) cur.s->update_dict();
            c.n["texts_accepted_after_loading"]++;
        }
    }
    c.nontrivial = cur.alphabet().size() > 1;
    c.sample = std::string(run.m.f ? "fitted" : "stream") + (s.words ? " word" : " character") + " model with " + show(cur.alphabet(), 8) + " saved and loaded";
}

// --- C18, C31
static std::string try_load_text(bool fitted, const std::string &f) {
    try {
        if (fitted) delete Loader::load_string_vgram(f); else Loader::load_string_stream_vgram(f);
    } catch (const std::exception &e) {
        return std::string("!") + e.what();
    }
    return "loaded";
}
CASE(C18_str) {
    Rng &r = c.rng;
    TextSetup s = TextSetup::make(r, true);
    bool fitted = c.index % 2;
    TextRun run = train(r, s, fitted, r.chance(0.2) ? 2 : 0, 0.02);
    std::string f = scratch("whole_text.json");
    run.m.save(f);
    std::string full = read_file(f);
    each_damage(c, full, fitted, [&](const std::string &p) { return try_load_text(fitted, p); });
    c.mix(full);
    c.n["files"]++;
    c.nontrivial = full.size() > 100;
    c.sample = std::to_string(full.size()) + " byte file of a " + (fitted ? "fitted" : "stream") + " text model, every cut-off and field damaged";
}
CASE(C31_str) {
    Rng &r = c.rng;
    bool bad_text = r.chance(0.4);
    TextSetup s = TextSetup::make(r, true, bad_text ? 1 : -1);
    bool fitted = c.index % 2;
    TextRun run = train(r, s, fitted, r.chance(0.15) ? 2 : 0, 0.02);
    std::string f = scratch("whole_text.json");
    unlink(f.c_str());
    run.m.save(f);
    std::string full = read_file(f);
    if (bad_text) {
        static const char *bad[] = {"\xff", "\xc3", "a\xe2\x96", "\x80z", "\xf5\x80\x80\x80", "\xc0\xaf", "\xed\xa0\x80"};
        Strs data = run.data;
        std::string w = bad[r.next() % 7];
        TextModel m;
        if (fitted) { data.push_back(w); m.f.reset(make_fitted(true, s.size, 1, 0)); m.f->fit(data); }
        else { m.s = run.m.s; m.s->accept(w); m.s->update_dict(); }
        bool threw = false;
        try { m.save(f); } catch (const std::exception &) { threw = true; }
        EXPECT(c, threw, "invalid-text", "a model with a word that is not UTF-8 was saved silently");
        EXPECT(c, read_file(f) == full, "old-file", "a failed save changed the old file");
        std::string g = scratch("never_written.json");
        unlink(g.c_str());
        try { m.save(g); } catch (const std::exception &) {}
        EXPECT(c, try_load_text(fitted, g)[0] == '!', "invalid-text", "the file of a failed save was loaded");
        c.n["unrepresentable_models"]++;
    } else each_write_fault(c, full, [&](const std::string &p) { run.m.save(p); }, [&](const std::string &p) { return try_load_text(fitted, p); });
    c.mix(full);
    c.nontrivial = full.size() > 100;
    c.sample = std::to_string(full.size()) + " byte file of a " + (fitted ? "fitted" : "stream") + " text model" + (bad_text ? ", then a word that is not UTF-8" : ", writing stopped at every byte");
}

// --- C19
CASE(C19_str) {
    Rng &r = c.rng;
    TextSetup s = TextSetup::make(r, true);
    TextRun run = train(r, s, false, r.range(0, 2), 0.01);
    run.m.save(scratch("resume.json"));
    run.m = run.m.load(scratch("resume.json"));
    StringStreamVGram &m = *run.m.s;
    Strs a0 = m.alphabet();
    Seq f0 = m.freqs();
    for (int k = r.range(3, 15); k > 0; k--) {
        std::string t = s.draw(r, 0.2);
        run.accept(s.words, t);
        if (r.chance(0.2)) m.update_dict();
        Strs a = m.alphabet();
        Seq f = m.freqs();
        EXPECT(c, a.size() >= a0.size() && std::equal(a0.begin(), a0.end(), a.begin()), "alphabet", "the loaded alphabet " << show(a0, 30) << " became " << show(a, 30));
        EXPECT(c, f.size() == a.size() && std::equal(f0.begin(), f0.end(), f.begin()), "freqs", "the loaded frequencies " << show(f0, 30) << " became " << show(f, 30));
        check_text(c, "resumed text model", s, run.m, run.known, r.chance(0.5) ? t : s.probe(r));
        c.n["texts_before_a_rebuild"]++;
    }
    Strs all = s.vocab;
    all.insert(all.end(), s.late.begin(), s.late.end());
    run.accept(s.words, s.write(r, all));
    long limit = std::max<long>(std::max(s.size, 1), run.known.size());
    std::map<std::string, int> was;
    for (size_t i = 0; i < a0.size(); i++) if (f0[i]) was[a0[i]] += f0[i];
    for (int k = r.range(200, 1200); k > 0; k--) {
        std::string t = s.draw(r, 0.01);
        run.accept(s.words, t);
        if (!r.chance(0.03)) continue;
        m.update_dict();
        Strs a = m.alphabet();
        Seq f = m.freqs();
        EXPECT(c, a.size() == f.size(), "aligned", "resumed text model: " << f.size() << " frequencies for " << a.size() << " entries");
        std::map<std::string, int> is;
        for (size_t i = 0; i < a.size(); i++) if (f[i]) is[a[i]] += f[i];
        if (is != was) {
            c.n["rebuilds_after_loading"]++;
            EXPECT(c, static_cast<long>(a.size()) <= limit, "over-limit", "resumed text model: " << a.size() << " entries, saved size " << s.size << ", " << run.known.size() << " tokens");
        }
        was = is;
        check_text(c, "resumed text model", s, run.m, run.known, s.probe(r));
    }
    c.mix(cat(m.alphabet()));
    c.nontrivial = a0.size() > 1;
    c.sample = std::string(s.words ? "word" : "character") + " model of " + std::to_string(a0.size()) + " entries loaded and trained on: " + std::to_string(c.n["rebuilds_after_loading"]) + " rebuilds";
}

// --- C25
static uint64_t digest_text(uint64_t seed, int verbose, bool neighbour, bool fitted) {
    Rng r(seed), nr(seed ^ 99);
    Case d(0, 0);
    TextSetup s = TextSetup::make(r, true), os = TextSetup::make(nr, true);
    std::unique_ptr<StringStreamVGram> other;
    if (neighbour) other.reset(new StringStreamVGram(os.size, 0, false, os.words));
    TextModel m;
    auto look = [&]() { for (auto &x : m.alphabet()) d.mix(x); d.mix(m.freqs()); };
    auto parse = [&]() { for (auto &x : m.pieces(s.probe(r))) d.mix(x); };
    if (!fitted) {
        m.s = std::make_shared<StringStreamVGram>(s.size, verbose, false, s.words);
        for (int k = r.range(50, 800); k > 0; k--) {
            m.s->accept(s.draw(r, 0.01));
            if (other) { other->accept(os.draw(nr, 0.02)); if (nr.chance(0.02)) { other->update_dict(); other->parse(os.probe(nr)); } }
            if (r.chance(0.01)) { m.s->update_dict(); look(); }
            if (r.chance(0.02)) parse();
        }
        m.s->update_dict();
    } else {
        Strs data = s.texts(r, r.range(1, 200), 0.02);
        m.f.reset(make_fitted(s.words, s.size, r.range(1, 3), verbose));
        if (other) { for (int i = 0; i < 100; i++) other->accept(os.draw(nr, 0.02)); other->update_dict(); }
        srand(static_cast<unsigned>(seed));
        m.f->fit(data);
    }
    look();
    for (int i = 0; i < 5; i++) parse();
    m.save(scratch("digest_text.json"));
    d.mix(read_file(scratch("digest_text.json")));
    return d.sig;
}
CASE(C25_str) {
    Rng &r = c.rng;
    uint64_t seed = r.next();
    bool fitted = r.chance(0.4);
    uint64_t a = digest_text(seed, 0, false, fitted);
    EXPECT(c, a == digest_text(seed, 1, false, fitted), "verbosity", "a text history gives other results with verbosity 1 (seed " << seed << ")");
    EXPECT(c, a == digest_text(seed, 0, true, fitted), "neighbour", "a text history gives other results beside another model (seed " << seed << ")");
    c.sig = a;
    c.n["histories"]++;
    c.n["repetitions"] += 2;
    c.nontrivial = true;
    c.sample = std::string(fitted ? "fitted" : "stream") + " text history " + std::to_string(seed) + " repeated three times, digest " + std::to_string(a);
}

// --- C33: what is printed
#include <fcntl.h>
#include <int_vgram_builder_p.h>
#include <int_dict_p.h>
struct Listener { // everything that reaches the standard streams, or the descriptor of the first
    std::ostringstream out, err, log;
    std::streambuf *o, *e, *l;
    std::string path;
    int fd, saved;
    Listener() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())), l(std::clog.rdbuf(log.rdbuf())), path(scratch("printed")) {
        fflush(stdout);
        fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        saved = dup(1);
        dup2(fd, 1);
    }
    std::string text() {
        fflush(stdout);
        return out.str() + err.str() + log.str() + read_file(path);
    }
    ~Listener() {
        std::cout.rdbuf(o); std::cerr.rdbuf(e); std::clog.rdbuf(l);
        fflush(stdout);
        dup2(saved, 1);
        close(saved);
        close(fd);
    }
};
struct Printed { std::string text; long entries = 0, reads = 0; bool fitted = false; uint64_t sig = 0; };
static Printed print_history(uint64_t seed, int kind, int verbose) {
    Rng r(seed);
    Printed p;
    int longest = r.chance(0.15) ? 8000 : 900;
    Case d(0, 0);
    Listener listen;
    if (kind <= 1) { // text models
        TextSetup s = TextSetup::make(r, true);
        std::set<std::string> tokens(s.vocab.begin(), s.vocab.end());
        tokens.insert(s.late.begin(), s.late.end());
        TextModel m;
        auto look = [&] {
            for (auto &w : m.alphabet()) { d.mix(w); p.entries += s.words ? !tokens.count(w) : w.size() > 1; }
            for (int x : m.freqs()) d.mix(uint64_t(x));
            for (int i = 0; i < 3; i++) for (auto &w : m.pieces(s.probe(r))) { d.mix(w); p.reads++; }
        };
        if (kind == 0) {
            m.s = std::make_shared<StringStreamVGram>(s.size, verbose, false, s.words);
            for (int n = r.range(0, longest); n > 0; n--) {
                m.s->accept(s.draw(r, 0.01));
                if (r.chance(0.03)) m.s->update_dict();
            }
            look();
        } else {
            srand(static_cast<unsigned>(seed));
            int iters = r.range(0, 2);
            m.f.reset(make_fitted(s.words, s.size, iters, verbose));
            Strs data = s.texts(r, r.range(0, 120), 0.01);
            m.f->fit(data);
            p.fitted = iters > 0 && !data.empty();
            look();
            if (r.chance(0.3)) m.f->fit(s.texts(r, r.range(1, 30), 0.01));
        }
        look();
        m.save(scratch("print_text.json"));
        d.mix(read_file(scratch("print_text.json")));
    } else if (kind <= 3) { // integer models
        IntSetup s = IntSetup::make(r);
        std::shared_ptr<IntStreamVGram> m;
        auto look = [&] {
            for (auto &w : m->alphabet()) { d.mix(w); p.entries += w.size() > 1; }
            for (int x : m->freqs()) d.mix(uint64_t(x));
            for (int i = 0; i < 3; i++) for (int x : m->parse(s.probe(r))) { d.mix(uint64_t(x)); p.reads++; }
        };
        if (kind == 2) {
            m = std::make_shared<IntStreamVGram>(s.size, verbose);
            for (int n = r.range(0, longest); n > 0; n--) {
                m->accept(s.draw(r, 0.01));
                if (r.chance(0.03)) m->update_dict();
            }
            look();
            m->save(scratch("print.json"));
        } else {
            srand(static_cast<unsigned>(seed));
            int iters = r.range(0, 2);
            auto f = std::make_shared<IntVGram>(s.size, iters, verbose);
            m = f;
            Seqs data = gen_texts(r, s, r.range(0, 120), 0.02);
            f->fit(data);
            p.fitted = iters > 0 && !data.empty();
            look();
            for (auto &t : f->transform_to_string(gen_texts(r, s, 5, 0.02))) d.mix(t);
            f->save(scratch("print.json"));
        }
        d.mix(read_file(scratch("print.json")));
        look();
    } else { // a builder, through each of its constructors
        Seq symbols = gen_symbols(r, r.range(1, 12));
        Source src = Source::make(r, symbols, -1, 0, 30);
        int size = symbols.size() + r.range(0, 40);
        std::unique_ptr<IntVGramBuilderImpl> b;
        if (kind == 4) b.reset(new IntVGramBuilderImpl(size, verbose));
        else if (kind == 5) b.reset(new IntVGramBuilderImpl(symbols, size, verbose));
        else {
            Seqs singles;
            for (int x : symbols) singles.push_back(Seq(1, x));
            b.reset(new IntVGramBuilderImpl(IntDictImpl(singles), size, verbose));
        }
        for (int n = r.range(0, longest); n > 0; n--) b->accept(src.draw(r));
        Seqs last = b->alpha()->alphabet();
        for (auto &w : last) { d.mix(w); p.entries += w.size() > 1; }
        Seq f;
        b->result_freqs(&f);
        for (int x : f) d.mix(uint64_t(x));
        d.mix(std::to_string(b->code_length()));
    }
    p.text = listen.text();
    p.sig = d.sig;
    return p;
}
CASE(C33_print) {
    static const char *names[] = {"StringStreamVGram", "StringVGram", "IntStreamVGram", "IntVGram", "IntVGramBuilderImpl(size)", "IntVGramBuilderImpl(symbols, size)", "IntVGramBuilderImpl(dictionary, size)"};
    Rng &r = c.rng;
    uint64_t seed = r.next();
    int kind = r.range(0, 6), level = r.chance(0.7) ? 1 : r.range(2, 5);
    Printed quiet = print_history(seed, kind, 0), loud = print_history(seed, kind, level);
    EXPECT(c, quiet.text.empty(), "not-silent", names[kind] << " with verbose 0 printed " << quiet.text.size() << " bytes: " << quiet.text.substr(0, 200));
    EXPECT(c, quiet.sig == loud.sig, "learns-else", names[kind] << " with verbose " << level << " learned something else than with verbose 0 (seed " << seed << ")");
    // a longer entry has been found by an extension, and a fit of something has been through an iteration
    EXPECT(c, !loud.text.empty() || (!loud.entries && !loud.fitted), "says-nothing", names[kind] << " with verbose " << level << " printed nothing about its learning (seed " << seed << ")");
    c.n["histories"] += 2;
    c.n["learning_reported"] += !loud.text.empty();
    c.n["bytes_reported"] += loud.text.size();
    c.n["reads"] += quiet.reads;
    c.mix(quiet.sig);
    c.nontrivial = quiet.entries > 0;
    c.sample = std::string(names[kind]) + " silent with 0, " + std::to_string(loud.text.size()) + " bytes with " + std::to_string(level);
}
