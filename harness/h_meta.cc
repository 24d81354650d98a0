// C34: what a saved file states. C35: names of symbols do not matter. C37: tokenizers of the user's.
#define NO_MAIN
#include "reader.h"
#include "textmodels.h"
#include <int_dict_p.h>
#include <stat_dict_p.h>
#include <int_vgram_builder_p.h>

// --- C34
// first_seen: the accepted symbols in order of first appearance, or only as a set
static void check_file(Case &c, const char *what, const std::string &file, int size, const Seqs &alphabet, const Seq &freqs, const Seq &first_seen, bool ordered,
                       const Strs *texts, int fitted, int counted) {
    Doc d;
    Seq coder;
    std::string text = read_file(file);
    try { d = DocReader::read(text); } catch (const std::exception &e) { c.fail("not-json", std::string(what) + " saves a file that is no JSON: " + e.what()); }
    EXPECT(c, d.kind == Doc::Map, "not-json", what << " saves no JSON object");
    try {
        EXPECT(c, d.at("size").kind == Doc::Int && d.at("size").num == size, "size", what << " of size " << size << " saves size " << d.at("size").num);
        coder = d.at("coder").ints();
        EXPECT(c, std::set<int>(coder.begin(), coder.end()).size() == coder.size(), "coder", what << " saves a symbol twice: " << show(coder));
        if (ordered) EXPECT(c, coder == first_seen, "coder", what << " saves symbols " << show(coder) << ", seen were, in this order, " << show(first_seen));
        else EXPECT(c, std::set<int>(coder.begin(), coder.end()) == std::set<int>(first_seen.begin(), first_seen.end()), "coder", what << " saves symbols " << show(coder) << ", seen were " << show(first_seen));
        auto &a = d.at("alphabet").list;
        EXPECT(c, a.size() == alphabet.size(), "entries", what << " of " << alphabet.size() << " entries saves " << a.size());
        double mp = d.at("min_prob").real;
        EXPECT(c, mp == -1 || (mp > 0 && mp <= 0.002 + 1e-12), "min-prob", what << " saves the minimum probability " << mp);
        for (size_t i = 0; i < a.size(); i++) {
            Seq vec = a[i].at("vec").ints(), spelt;
            for (int x : vec) {
                EXPECT(c, x >= 0 && x < static_cast<int>(coder.size()), "vec", what << ": entry " << i << " has the code " << x << " of " << coder.size());
                spelt.push_back(coder[x]);
            }
            EXPECT(c, spelt == alphabet[i], "vec", what << ": entry " << i << " is saved as " << show(vec) << ", that is " << show(spelt) << ", the model has " << show(alphabet[i]));
            EXPECT(c, a[i].at("freq").kind == Doc::Int && a[i].at("freq").num == freqs[i], "freq", what << ": entry " << i << " is saved with frequency " << a[i].at("freq").num << ", the model has " << freqs[i]);
            if (texts) EXPECT(c, a[i].at("text").kind == Doc::Text && a[i].at("text").text == (*texts)[i], "text", what << ": entry " << i << " is saved as " << hex(json_escape(a[i].at("text").text)) << ", the model has " << hex(json_escape((*texts)[i])));
            else EXPECT(c, !a[i].has("text"), "text", what << ": an entry of integers is saved with a text");
            c.n["entries_read"]++;
            if (vec.size() > 1) c.n["longer_entries_read"]++;
        }
        EXPECT(c, d.has("fitted") == (fitted >= 0) && d.has("freqs_computed") == (fitted >= 0), "fitted", what << " saves " << (d.has("fitted") ? "" : "no ") << "state of its fit");
        if (fitted >= 0) {
            EXPECT(c, d.at("fitted").kind == Doc::Bool && d.at("fitted").yes == (fitted > 0), "fitted", what << " saves fitted as " << d.at("fitted").yes);
            EXPECT(c, d.at("freqs_computed").kind == Doc::Bool && d.at("freqs_computed").yes == (counted > 0), "fitted", what << " saves freqs_computed as " << d.at("freqs_computed").yes);
        }
    } catch (const std::runtime_error &e) {
        c.fail("missing", std::string(what) + " saves a file where there is " + e.what());
    }
    c.n["files_read"]++;
    c.n["bytes_read"] += text.size();
}
static Seq first_seen(const Seqs &data) {
    Seq s;
    std::set<int> in;
    for (auto &q : data) for (int x : q) if (in.insert(x).second) s.push_back(x);
    return s;
}
CASE(C34_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r);
    bool fit = r.chance(0.5);
    std::string f = scratch("states.json");
    std::shared_ptr<IntStreamVGram> m;
    Seqs data;
    int fitted = -1, counted = -1;
    if (fit) {
        srand(static_cast<unsigned>(r.next()));
        auto p = std::make_shared<Probe>(s.size, r.range(1, 3));
        m = p;
        if (r.chance(0.3)) for (int i = r.range(1, 30); i > 0; i--) { data.push_back(s.draw(r, 0.05)); m->accept(data.back()); }
        Seqs all = gen_texts(r, s, r.range(0, 150), 0.02);
        fitted = counted = 0;
        if (r.chance(0.85)) {
            p->fit(all);
            data.insert(data.end(), all.begin(), all.end());
            fitted = counted = 1;
        }
    } else {
        StreamRun run = train_stream(r, s, r.range(0, 2), 0.02);
        m = run.m;
        data = run.data;
        for (int i = r.chance(0.3) ? r.range(1, 5) : 0; i > 0; i--) { data.push_back(s.draw(r, 0.5)); m->accept(data.back()); }
    }
    if (r.chance(0.3)) for (int i = 0; i < 5; i++) m->parse(s.probe(r));
    Seqs a = m->alphabet();
    Seq fr = m->freqs();
    m->save(f);
    const char *what = fit ? "IntVGram" : "IntStreamVGram";
    check_file(c, what, f, s.size, a, fr, first_seen(data), !fit, nullptr, fitted, counted);
    EXPECT(c, m->alphabet() == a && m->freqs() == fr, "saving-changes", what << " has other entries or frequencies after it was saved");
    if (r.chance(0.5)) { // what was loaded says the same
        std::shared_ptr<IntStreamVGram> l;
        if (fit) l.reset(Loader::load_int_vgram(f)); else l = Loader::load_int_stream_vgram(f);
        std::string g = scratch("states2.json");
        l->save(g);
        check_file(c, fit ? "a loaded IntVGram" : "a loaded IntStreamVGram", g, s.size, a, fr, first_seen(data), !fit, nullptr, fitted, counted);
    }
    c.mix(a); c.mix(fr);
    for (auto &e : a) if (e.size() > 1) c.nontrivial = true;
    c.sample = std::string(what) + " of " + std::to_string(a.size()) + " entries in " + std::to_string(read_file(f).size()) + " bytes";
}
CASE(C34_str) {
    Rng &r = c.rng;
    TextSetup s = TextSetup::make(r, true);
    bool fit = r.chance(0.5);
    TextRun run = train(r, s, fit, r.range(0, 2), 0.02);
    if (run.m.s && r.chance(0.4)) for (int k = r.range(1, 4); k > 0; k--) run.accept(s.words, s.draw(r, 1));
    std::string f = scratch("states_text.json");
    Strs texts = run.m.alphabet();
    Seq fr = run.m.freqs();
    run.m.save(f);
    // tokens are numbered as they come, so the coder is 0, 1, .. for a stream
    Seq seen;
    if (fit) { std::set<std::string> all(run.known.begin(), run.known.end()); for (size_t i = 0; i < all.size(); i++) seen.push_back(i); }
    else for (size_t i = 0; i < run.known.size(); i++) seen.push_back(i);
    Doc d;
    try { d = DocReader::read(read_file(f)); } catch (const std::exception &e) { c.fail("not-json", std::string("a text model saves a file that is no JSON: ") + e.what()); }
    Seqs spelt; // which numbers the tokens have is for the tokenizer to say, so the texts are judged, and here only that vec agrees with itself
    try {
        Seq coder = d.at("coder").ints();
        for (auto &e : d.at("alphabet").list) {
            Seq w;
            for (int x : e.at("vec").ints()) w.push_back(x >= 0 && x < static_cast<int>(coder.size()) ? coder[x] : -1);
            spelt.push_back(w);
        }
    } catch (const std::exception &e) { c.fail("missing", std::string("a text model saves a file where there is ") + e.what()); }
    check_file(c, fit ? "StringVGram" : "StringStreamVGram", f, s.size, spelt, fr, seen, !fit, &texts, fit ? 1 : -1, fit ? 1 : -1);
    std::map<int, std::string> name; // a number is one token everywhere
    for (size_t i = 0; i < spelt.size(); i++) if (spelt[i].size() == 1) {
        EXPECT(c, name.emplace(spelt[i][0], texts[i]).second, "token", "two entries of the token number " << spelt[i][0]);
        EXPECT(c, run.known.count(texts[i]), "token", "the entry " << hex(json_escape(texts[i])) << " is no accepted token");
    }
    for (size_t i = 0; i < spelt.size(); i++) {
        std::string w;
        for (int x : spelt[i]) w += name.count(x) ? name[x] : "?";
        EXPECT(c, w == texts[i], "token", "entry " << hex(json_escape(texts[i])) << " is saved with a vec that spells " << hex(json_escape(w)));
    }
    EXPECT(c, run.m.alphabet() == texts && run.m.freqs() == fr, "saving-changes", "a text model has other entries or frequencies after it was saved");
    c.mix(cat(texts)); c.mix(fr);
    for (auto &e : spelt) if (e.size() > 1) c.nontrivial = true;
    c.sample = std::string(fit ? "StringVGram" : "StringStreamVGram") + " of " + std::to_string(texts.size()) + " entries";
}

// --- C35
struct Renaming {
    std::map<int, int> to;
    Seq operator()(const Seq &q) const { Seq s; for (int x : q) s.push_back(to.at(x)); return s; }
    Seqs operator()(const Seqs &v) const { Seqs w; for (auto &q : v) w.push_back((*this)(q)); return w; }
};
static Renaming rename_all(const Seq &from, const Seq &to) {
    Renaming n;
    for (size_t i = 0; i < from.size(); i++) n.to[from[i]] = to[i];
    return n;
}
CASE(C35_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r);
    Seq all = s.symbols;
    all.insert(all.end(), s.late.begin(), s.late.end());
    all.insert(all.end(), s.unknown.begin(), s.unknown.end());
    Renaming ren = rename_all(all, gen_symbols(r, all.size()));
    bool fit = r.chance(0.4);
    int iters = r.range(1, 2);
    std::shared_ptr<IntStreamVGram> a, b;
    if (fit) { a = std::make_shared<IntVGram>(s.size, iters, 0); b = std::make_shared<IntVGram>(s.size, iters, 0); }
    else { a = std::make_shared<IntStreamVGram>(s.size, 0); b = std::make_shared<IntStreamVGram>(s.size, 0); }
    long steps = 0;
    auto same = [&](const char *when) {
        Seqs x = ren(a->alphabet()), y = b->alphabet();
        EXPECT(c, x == y, "alphabet", when << ": the entries are " << show(x, 30) << " and, of the renamed data, " << show(y, 30));
        EXPECT(c, a->freqs() == b->freqs(), "freqs", when << ": the frequencies are " << show(a->freqs()) << " and, of the renamed data, " << show(b->freqs()));
        for (int i = 0; i < 4; i++) {
            Seq q = s.probe(r), p1 = a->parse(q), p2 = b->parse(ren(q));
            EXPECT(c, p1 == p2, "parse", when << ": " << show(q) << " is parsed as " << show(p1) << ", renamed as " << show(p2));
            c.n["parses_compared"]++;
        }
        steps++;
    };
    if (fit) {
        Seqs data = gen_texts(r, s, r.range(0, 150), 0.02);
        unsigned seed = static_cast<unsigned>(r.next());
        srand(seed);
        static_cast<IntVGram &>(*a).fit(data);
        srand(seed);
        static_cast<IntVGram &>(*b).fit(ren(data));
        same("after fit");
        Seqs p = gen_texts(r, s, 5, 0.1);
        EXPECT(c, static_cast<IntVGram &>(*a).transform_to_string(p) == static_cast<IntVGram &>(*b).transform_to_string(ren(p)), "transform", "renamed data is transformed to other texts");
    }
    if (!fit || r.chance(0.3)) {
        int n = r.range(0, fit ? 200 : 900);
        for (int i = 0; i < n; i++) {
            Seq q = s.draw(r, 0.02);
            a->accept(q);
            b->accept(ren(q));
            if (r.chance(0.01)) { a->update_dict(); b->update_dict(); if (r.chance(0.5)) same("after an update"); }
        }
        a->update_dict();
        b->update_dict();
        same("at the end");
    }
    std::string f = scratch("name_a.json"), g = scratch("name_b.json");
    a->save(f);
    b->save(g);
    Doc x = DocReader::read(read_file(f)), y = DocReader::read(read_file(g));
    EXPECT(c, ren(x.at("coder").ints()) == y.at("coder").ints(), "coder", "the files list the symbols " << show(ren(x.at("coder").ints())) << " and " << show(y.at("coder").ints()));
    EXPECT(c, x.at("min_prob").real == y.at("min_prob").real, "min-prob", "the minimum probability is " << x.at("min_prob").real << " and, of the renamed data, " << y.at("min_prob").real);
    if (r.chance(0.4)) { // and loading them does not tell them apart
        if (fit) { a.reset(Loader::load_int_vgram(f)); b.reset(Loader::load_int_vgram(g)); }
        else { a = Loader::load_int_stream_vgram(f); b = Loader::load_int_stream_vgram(g); }
        same("loaded");
        for (int i = 0; i < 150; i++) { Seq q = s.draw(r, 0.02); a->accept(q); b->accept(ren(q)); }
        a->update_dict();
        b->update_dict();
        same("trained on");
    }
    c.n["states_compared"] += steps;
    c.mix(a->alphabet()); c.mix(b->alphabet()); c.mix(a->freqs());
    for (auto &e : a->alphabet()) if (e.size() > 1) c.nontrivial = true;
    c.sample = "symbols " + show(s.symbols, 10) + " named " + show(ren(s.symbols), 10);
}
// bare dictionaries and builders sort by symbol, so there the new names have to keep the order
CASE(C35_builder) {
    Rng &r = c.rng;
    int k = r.range(1, 14);
    Seq from = gen_symbols(r, k), to = gen_symbols(r, k);
    std::sort(from.begin(), from.end());
    std::sort(to.begin(), to.end());
    Renaming ren = rename_all(from, to);
    Seq known(from.begin(), from.begin() + r.range(1, k));
    Source src = Source::make(r, from, -1, 0, 40);
    Seqs d = gen_dict(r, known, r.range(0, 30), 6, true);
    {
        IntDictImpl a(d), b(ren(d));
        StatDictImpl x(d), y(ren(d));
        Seq freqs;
        for (size_t i = 0; i < d.size(); i++) freqs.push_back(r.range(0, 40));
        for (int i = 0; i < 12; i++) {
            Seq q = src.draw(r), o1, o2, o3, o4, o5, o6;
            if (q.empty()) continue;
            EXPECT(c, a.search(q, nullptr) == b.search(ren(q), nullptr), "search", "renamed, " << show(q) << " is found elsewhere in " << show(d));
            static_cast<IntDict &>(a).parse(q, freqs, sum_of(freqs), &o1);
            static_cast<IntDict &>(b).parse(ren(q), freqs, sum_of(freqs), &o2);
            EXPECT(c, o1 == o2, "parse", show(q) << " is parsed as " << show(o1) << ", renamed as " << show(o2));
            static_cast<IntDict &>(a).parse(q, &o3, nullptr);
            static_cast<IntDict &>(b).parse(ren(q), &o4, nullptr);
            EXPECT(c, o3 == o4, "greedy", show(q) << " is greedily parsed as " << show(o3) << ", renamed as " << show(o4));
            x.parse(q, &o5);
            y.parse(ren(q), &o6);
            EXPECT(c, o5 == o6, "counting", show(q) << " is parsed and counted as " << show(o5) << ", renamed as " << show(o6));
        }
        EXPECT(c, ren(a.alphabet()) == b.alphabet() && ren(x.alphabet()) == y.alphabet(), "alphabet", "the dictionary is " << show(ren(a.alphabet()), 30) << ", of renamed entries " << show(b.alphabet(), 30));
        EXPECT(c, x.code_length_per_char() == y.code_length_per_char() || std::isnan(x.code_length_per_char()), "code-length", "the code length is " << x.code_length_per_char() << ", renamed " << y.code_length_per_char());
    }
    int size = k + r.range(0, 40), how = r.range(0, 2);
    std::unique_ptr<IntVGramBuilderImpl> a, b;
    if (how == 0) { a.reset(new IntVGramBuilderImpl(size, 0)); b.reset(new IntVGramBuilderImpl(size, 0)); }
    else if (how == 1) { a.reset(new IntVGramBuilderImpl(known, size, 0)); b.reset(new IntVGramBuilderImpl(ren(known), size, 0)); }
    else { a.reset(new IntVGramBuilderImpl(IntDictImpl(d), size, 0)); b.reset(new IntVGramBuilderImpl(IntDictImpl(ren(d)), size, 0)); }
    for (int n = r.range(0, 900); n > 0; n--) {
        Seq q = src.draw(r);
        a->accept(q);
        b->accept(ren(q));
    }
    Seqs x = ren(a->alpha()->alphabet()), y = b->alpha()->alphabet();
    EXPECT(c, x == y, "learned", "the learned dictionary is " << show(x, 30) << ", of the renamed data " << show(y, 30));
    Seq f, g;
    a->result_freqs(&f);
    b->result_freqs(&g);
    EXPECT(c, f == g && a->get_min_probability() == b->get_min_probability(), "learned", "frequencies or minimum probability of the learned dictionaries differ");
    c.mix(x); c.mix(f);
    for (auto &e : x) if (e.size() > 1) c.nontrivial = true;
    c.n["builders_compared"]++;
    c.sample = "symbols " + show(from, 10) + " named " + show(to, 10);
}
CASE(C35_str) {
    Rng &r = c.rng;
    TextSetup s = TextSetup::make(r, true);
    Strs all;
    for (auto *v : {&s.vocab, &s.late, &s.unknown}) all.insert(all.end(), v->begin(), v->end());
    // words of one length each, so that pieces can be cut into words again
    std::vector<std::string> name[2];
    int len[2] = {s.words ? r.range(1, 4) + 1 : 1, s.words ? r.range(1, 9) + 1 : 1};
    for (int side = 0; side < 2; side++) {
        std::set<std::string> in;
        while (name[side].size() < all.size()) {
            std::string w;
            if (s.words) for (int i = 0; i < len[side]; i++) w += char(r.chance(0.8) ? r.range('a', 'h') : r.range('!', '~'));
            else { int x = r.range(0, 35); w = std::string(1, x < 10 ? '0' + x : 'a' + x - 10); }
            if (in.insert(w).second) name[side].push_back(w);
        }
    }
    std::map<std::string, int> number[2];
    for (int side = 0; side < 2; side++) for (size_t i = 0; i < all.size(); i++) number[side][name[side][i]] = i;
    std::map<std::string, int> index;
    for (size_t i = 0; i < all.size(); i++) index[all[i]] = i;
    auto text = [&](int side, const Strs &t, uint64_t seed) {
        Rng w(seed);
        Strs u;
        for (auto &x : t) u.push_back(name[side][index.at(x)]);
        return s.write(w, u);
    };
    auto numbers = [&](int side, const std::string &p) {
        Seq q;
        for (size_t i = 0; i < p.size(); i += len[side]) { auto it = number[side].find(p.substr(i, len[side])); q.push_back(it == number[side].end() ? -1 : it->second); }
        return q;
    };
    auto numbered = [&](int side, const Strs &v) { Seqs o; for (auto &p : v) o.push_back(numbers(side, p)); return o; };
    bool fit = r.chance(0.4);
    TextModel m[2];
    int iters = r.range(1, 2);
    for (auto &x : m) if (fit) x.f.reset(make_fitted(s.words, s.size, iters, 0)); else x.s = std::make_shared<StringStreamVGram>(s.size, 0, false, s.words);
    if (fit) {
        std::vector<Strs> data;
        for (int n = r.range(0, 200); n > 0; n--) data.push_back(s.tokens(r, 0.02));
        unsigned seed = static_cast<unsigned>(r.next());
        uint64_t w = r.next();
        for (int side = 0; side < 2; side++) {
            Strs v;
            for (size_t i = 0; i < data.size(); i++) v.push_back(text(side, data[i], w + i));
            srand(seed);
            m[side].f->fit(v);
        }
    } else for (int n = r.range(0, 900); n > 0; n--) {
        Strs t = s.tokens(r, 0.02);
        uint64_t w = r.next();
        bool up = n == 1 || r.chance(0.01);
        for (int side = 0; side < 2; side++) { m[side].s->accept(text(side, t, w)); if (up) m[side].s->update_dict(); }
    }
    for (int round = 0; round < 2; round++) {
        Seqs x = numbered(0, m[0].alphabet()), y = numbered(1, m[1].alphabet());
        EXPECT(c, x == y, "alphabet", "the entries, as numbered tokens, are " << show(x, 30) << " and, of the renamed data, " << show(y, 30));
        EXPECT(c, m[0].freqs() == m[1].freqs(), "freqs", "the frequencies are " << show(m[0].freqs()) << " and, of the renamed data, " << show(m[1].freqs()));
        for (int i = 0; i < 5; i++) {
            Strs t = s.tokens(r, 0.1);
            if (r.chance(0.3)) for (auto &x : t) if (r.chance(0.15)) x = r.pick(s.unknown);
            uint64_t w = r.next();
            Seqs p = numbered(0, m[0].pieces(text(0, t, w))), q = numbered(1, m[1].pieces(text(1, t, w)));
            EXPECT(c, p == q, "parse", "a text is cut into " << show(p) << " and, renamed, into " << show(q));
            c.n["parses_compared"]++;
        }
        c.mix(x); c.mix(m[0].freqs());
        for (auto &e : x) if (e.size() > 1) c.nontrivial = true;
        if (round || r.chance(0.6)) break;
        for (int side = 0; side < 2; side++) { std::string f = scratch(side ? "tname_b.json" : "tname_a.json"); m[side].save(f); m[side] = m[side].load(f); }
        c.n["loaded"]++;
    }
    c.sample = std::string(fit ? "fitted" : "stream") + " model over " + show(name[0], 6) + " and over " + show(name[1], 6);
}

// --- C37: a tokenizer of the user's
struct Fault { bool armed = false; int in = 0; };
struct OwnTokenizer : public BaseTokenizer {
    static int alive;
    int kind, k;
    Fault *fault;
    OwnTokenizer(int kind, int k, Fault *fault) : kind(kind), k(k), fault(fault) { alive++; }
    ~OwnTokenizer() override { alive--; }
    void trip() const { if (fault && fault->armed && fault->in-- == 0) throw std::range_error("tokenizer gives up"); }
    std::string normalize(const std::string &t) const override { trip(); return norm(kind, t); }
    Strs tokenize(const std::string &t) const override { trip(); return cut(kind, k, t); }
    // what it does, also for the oracle
    static std::string norm(int kind, std::string t) {
        switch (kind) {
            case 1: return t + "$"; // not idempotent
            case 3: std::reverse(t.begin(), t.end()); return t; // neither
            case 4: for (char &ch : t) if (ch >= 'a' && ch <= 'z') ch -= 32; return t;
            default: return t;
        }
    }
    static Strs cut(int kind, int k, const std::string &t) {
        Strs out;
        if (kind == 0 || kind == 1) for (size_t i = 0; i < t.size(); i += k) out.push_back(t.substr(i, k)); // chunks
        else if (kind == 2 || kind == 3) { // words with the space that follows
            std::string w;
            for (char ch : t) { w += ch; if (ch == ' ') { out.push_back(w); w.clear(); } }
            if (!w.empty()) out.push_back(w);
        } else if (kind == 4) for (size_t i = 0; i + 1 < t.size(); i++) out.push_back(t.substr(i, 2)); // they overlap
        else for (unsigned char ch : t) { // classes of characters, some are dropped
            static const char *names[] = {"vowel ", "consonant", "<digit>", " "};
            if (strchr("aeiouAEIOU", ch) && ch) out.push_back(names[0]);
            else if (isalpha(ch)) out.push_back(k > 2 ? std::string(names[1]) + char('0' + ch % k) : names[1]);
            else if (isdigit(ch)) out.push_back(names[2]);
            else if (ch == ' ') out.push_back(names[3]);
        }
        return out;
    }
    Strs tokens(const std::string &t) const { return cut(kind, k, norm(kind, t)); }
};
int OwnTokenizer::alive = 0;

struct Names {
    std::map<std::string, int> id;
    Strs name;
    Seq ids(const Strs &t) { Seq s; for (auto &x : t) { auto it = id.emplace(x, int(name.size())); if (it.second) name.push_back(x); s.push_back(it.first->second); } return s; }
    std::string spell(const Seq &s) const { std::string t; for (int x : s) t += name[x]; return t; }
};

CASE(C37_str) {
    Rng &r = c.rng;
    std::string desc;
    {
        TextSetup s = TextSetup::make(r, true);
        Fault fault;
        int kind = r.range(0, 5), k = r.range(1, 4);
        OwnTokenizer cutter(kind, k, nullptr);
        bool fitted = r.chance(0.5);
        int iters = r.range(1, 2);
        TextModel m, other;
        Names names, other_names;
        std::shared_ptr<IntStreamVGram> twin, other_twin;
        std::shared_ptr<IntVGram> ftwin;
        auto spelt = [&](const Names &n, const IntStreamVGram &i, const std::string &t) {
            Seqs a = i.alphabet();
            Strs v;
            for (int x : i.parse(const_cast<Names &>(n).ids(cutter.tokens(t)))) { if (a[x].size() > 1) c.n["longer_entries_compared"]++; v.push_back(n.spell(a[x])); }
            return v;
        };
        auto same = [&](const char *when, const TextModel &m, const Names &n, const IntStreamVGram &i) {
            Strs want;
            for (auto &e : i.alphabet()) want.push_back(n.spell(e));
            Strs got = m.alphabet();
            EXPECT(c, got == want, "alphabet", when << ": the model has the entries " << show(got) << ", the integer model " << show(want));
            EXPECT(c, m.freqs() == i.freqs(), "freqs", when << ": the frequencies are " << show(m.freqs()) << ", of the integer model " << show(i.freqs()));
            c.n["models_compared"]++;
        };
        auto reads = [&](const char *when, const TextModel &m, const Names &n, const IntStreamVGram &i, const std::string &t) {
            Strs want = spelt(n, i, t);
            if (m.s) { Strs got = m.s->parse(t); EXPECT(c, got == want, "parse", when << ": " << hex(t) << " is parsed as " << show(got) << ", by the integer model as " << show(want)); }
            else {
                std::string joined, got = m.transform1(t);
                for (size_t x = 0; x < want.size(); x++) joined += (x ? " " : "") + want[x];
                EXPECT(c, got == joined, "transform", when << ": " << hex(t) << " becomes " << hex(got) << ", by the integer model " << hex(joined));
            }
            c.n["segmentations_compared"]++;
        };
        auto arm = [&] { fault.armed = true; fault.in = r.range(0, 3); };
        auto gave_up = [&](const char *what, const std::function<void()> &call) { // true if the tokenizer got to the point
            arm();
            bool out = false;
            try { call(); } catch (const std::range_error &) { out = true; }
            bool due = fault.in < 0;
            fault.armed = false;
            EXPECT(c, out == due, "exception", what << (due ? " swallows the exception of the tokenizer" : " throws without cause"));
            c.n["exceptions"] += out;
            return out;
        };
        Strs data = s.texts(r, r.chance(0.4) ? r.range(150, 500) : r.range(0, 60), 0.03);
        if (fitted) {
            m.f.reset(r.chance(0.5) ? new StringVGram(s.size, iters, new OwnTokenizer(kind, k, &fault), 0)
                                    : new StringVGram(std::make_shared<IntVGram>(s.size, iters, 0), std::make_shared<OwnTokenizer>(kind, k, &fault)));
            ftwin = std::make_shared<IntVGram>(s.size, iters, 0);
            twin = ftwin;
            if (r.chance(0.4) && !data.empty()) {
                if (!gave_up("fit", [&] { Strs d = data; d.resize(std::min<size_t>(d.size(), r.range(1, 2))); while (d.size() < 2) d.push_back(data[0]); m.f->fit(d); })) return; // it has learned something
                same("after an exception in fit", m, names, *twin);
            }
            unsigned seed = static_cast<unsigned>(r.next());
            Seqs ids;
            for (auto &t : data) ids.push_back(names.ids(cutter.tokens(t)));
            srand(seed);
            m.f->fit(data);
            srand(seed);
            ftwin->fit(ids);
            same("after fit", m, names, *twin);
        } else {
            auto shared = std::make_shared<OwnTokenizer>(kind, k, &fault);
            auto inner = std::make_shared<IntStreamVGram>(s.size, 0);
            m.s = std::make_shared<StringStreamVGram>(inner, shared);
            twin = std::make_shared<IntStreamVGram>(s.size, 0);
            bool two = r.chance(0.3); // two models share the tokenizer
            if (two) { other.s = std::make_shared<StringStreamVGram>(std::make_shared<IntStreamVGram>(s.size + 5, 0), shared); other_twin = std::make_shared<IntStreamVGram>(s.size + 5, 0); }
            for (int round = r.range(1, 3); round > 0; round--) {
                for (auto &t : data) {
                    if (r.chance(0.02) && !gave_up("accept", [&] { m.s->accept(t); })) twin->accept(names.ids(cutter.tokens(t)));
                    bool second = two && r.chance(0.4);
                    (second ? other : m).s->accept(t);
                    (second ? other_twin : twin)->accept((second ? other_names : names).ids(cutter.tokens(t)));
                    if (r.chance(0.03)) reads("while streaming", m, names, *twin, s.probe(r));
                }
                m.s->update_dict();
                twin->update_dict();
                same("after an update", m, names, *twin);
            }
            if (two) { other.s->update_dict(); other_twin->update_dict(); same("model that shares the tokenizer", other, other_names, *other_twin); reads("model that shares the tokenizer", other, other_names, *other_twin, s.probe(r)); }
        }
        for (int i = 0; i < 6; i++) {
            std::string t = i < 2 && !data.empty() ? r.pick(data) : s.probe(r);
            if (r.chance(0.3)) gave_up(fitted ? "transform" : "parse", [&] { m.pieces(t); });
            reads("afterwards", m, names, *twin, t);
        }
        if (fitted && r.chance(0.5)) { // copies share the tokenizer
            StringVGram copy(*m.f);
            m.f.reset(new StringVGram(copy));
        }
        same("in the end", m, names, *twin);
        if (kind == 2 || kind == 5) { // the others cut characters in two, which cannot be saved
            std::string file = scratch("own.json");
            m.save(file);
            TextModel l = m.load(file);
            EXPECT(c, l.alphabet() == m.alphabet() && l.freqs() == m.freqs(), "loaded", "the loaded model has the entries " << show(l.alphabet()) << ", the saved one " << show(m.alphabet()));
            c.n["loaded"]++;
        }
        c.mix(cat(m.alphabet()));
        c.mix(m.freqs());
        c.nontrivial = c.n["longer_entries_compared"] > 0;
        desc = std::string(fitted ? "fitted" : "stream") + " model with tokenizer " + std::to_string(kind) + " over " + std::to_string(names.name.size()) + " tokens";
    }
    EXPECT(c, OwnTokenizer::alive == 0, "released", OwnTokenizer::alive << " tokenizers outlive their models");
    c.sample = desc;
}
