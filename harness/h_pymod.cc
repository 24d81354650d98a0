// C32: the Python module as it registers itself with a stand-in for pybind11; PyErr_CheckSignals is ours.
#define VERIF_PYMODULE
#include "models.h"
#include "texts.h"
#include <tokenizers/char_tokenizer.h>
#include <tokenizers/word_tokenizer.h>
#include <vgram_builders/string_stream_vgram.h>
#include <vgram_builders/string_vgram.h>
#include <loader.h>
#include "bind_vgram.cc"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static long signal_calls = 0, signal_at = -1;
extern "C" int PyErr_CheckSignals() { return ++signal_calls == signal_at ? -1 : 0; }

static void load_module(Case &c) {
    static bool loaded = false;
    if (!loaded) { static py::module_ m; pybind11_init_vgram(m); loaded = true; }
    static const std::map<std::string, std::vector<const char *>> documented = {
        {"IntStreamVGram", {"__init__", "load", "accept", "parse", "update", "save", "freqs", "alphabet"}},
        {"StreamVGram", {"__init__", "load", "accept", "parse", "update", "save", "freqs", "alphabet"}},
        {"IntVGram", {"__init__", "load", "fit", "transform", "save", "freqs", "alphabet"}},
        {"VGram", {"__init__", "load", "fit", "transform", "save", "freqs", "alphabet"}}};
    for (auto &d : documented) {
        EXPECT(c, py::classes().count(d.first), "missing", "the module has no class " << d.first);
        for (const char *f : d.second) EXPECT(c, py::classes()[d.first]->functions.count(f), "missing", d.first << " has no " << f);
    }
}
struct Spoken { // what is printed meanwhile
    std::ostringstream text;
    std::streambuf *old;
    Spoken() : old(std::cout.rdbuf(text.rdbuf())) {}
    ~Spoken() { std::cout.rdbuf(old); }
};
// size and verbose as a caller may write them, or leave out
static py::Ref construct(Rng &r, const std::string &cls, int &size, int iters, bool text_flags, bool words) {
    std::vector<py::Value> pos;
    py::Kw kw;
    bool fit = iters >= 0;
    int how = r.range(0, 3);
    if (how == 0) { // by position
        pos.push_back(size);
        if (fit) pos.push_back(iters);
        if (text_flags) { pos.push_back(0); pos.push_back(false); pos.push_back(words); }
        else if (r.chance(0.5)) pos.push_back(0);
    } else {
        if (how == 1) pos.push_back(size);
        else if (how == 2) kw["size"] = size;
        else size = 10000;
        if (fit) kw["iter_num"] = iters;
        if (r.chance(0.5)) kw["verbose"] = 0;
        if (text_flags && (words || r.chance(0.5))) kw["words_are_tokens"] = words;
        if (text_flags && r.chance(0.3)) kw["inner_words_split"] = false;
    }
    return py::make(cls, pos, kw);
}
static void save_as(Rng &r, const py::Ref &o, const std::string &f) {
    if (r.chance(0.5)) py::call(o, "save", {f});
    else py::call(o, "save", {}, {{"filename", f}});
}
#define SAME(c, got, want, key, what) EXPECT(c, (got) == (want), key, what << ": the module gives something else than the model: " << show(got) << " instead of " << show(want))

static void int_stream(Case &c, Rng &r) {
    IntSetup s = IntSetup::make(r, 8, 30);
    int size = s.size;
    py::Ref o = construct(r, "IntStreamVGram", size, -1, false, false);
    std::shared_ptr<IntStreamVGram> m = std::make_shared<IntStreamVGram>(size, 0);
    auto compare = [&](const char *what) {
        SAME(c, py::call(o, "alphabet").vv, m->alphabet(), "alphabet", what);
        SAME(c, py::call(o, "freqs").v, m->freqs(), "freqs", what);
        for (int k = 0; k < 3; k++) { Seq q = s.probe(r); SAME(c, py::call(o, "parse", {q}).v, m->parse(q), "parse", what); c.n["parses"]++; }
    };
    compare("new IntStreamVGram");
    for (int stage = 0, n = r.range(1, 4); stage < n; stage++) {
        long budget = r.chance(0.5) ? r.range(0, 300) : r.range(1000, 4000);
        while (budget > 0) { Seq q = s.draw(r, 0.02); budget -= q.size() + 1; py::call(o, "accept", {q}); m->accept(q); c.n["accepts"]++; }
        if (r.chance(0.8)) { py::call(o, "update"); m->update_dict(); }
        compare("trained IntStreamVGram");
        if (r.chance(0.5)) {
            std::string f = scratch("s.json"), g = scratch("t.json");
            save_as(r, o, f);
            m->save(g);
            EXPECT(c, read_file(f) == read_file(g), "file", "IntStreamVGram saves another file than the model");
            py::Ref old = o;
            py::Value l = py::call_static("IntStreamVGram", "load", {f});
            EXPECT(c, l.kind == py::Value::OBJ && l.o->cls == old->cls, "class", "load gives no IntStreamVGram");
            EXPECT(c, l.o != old, "identity", "load gives an object that exists already");
            o = l.o;
            l = py::Value();
            if (r.chance(0.5)) { Seq q = s.probe(r); py::call(old, "parse", {q}); }
            old.reset();
            m = vgram_core::Loader::load_int_stream_vgram(g);
            c.n["loads"]++;
            compare("loaded IntStreamVGram");
        }
    }
    c.mix(m->alphabet()); c.mix(m->freqs());
    c.n["released"]++;
}
static void text_stream(Case &c, Rng &r) {
    TextSetup s = TextSetup::make(r, true);
    int size = s.size;
    py::Ref o = construct(r, "StreamVGram", size, -1, true, s.words);
    std::shared_ptr<vgram_core::StringStreamVGram> m = std::make_shared<vgram_core::StringStreamVGram>(size, 0, false, s.words);
    auto compare = [&](const char *what) {
        SAME(c, py::call(o, "alphabet").vs, m->alphabet(), "alphabet", what);
        SAME(c, py::call(o, "freqs").v, m->freqs(), "freqs", what);
        for (int k = 0; k < 3; k++) { std::string q = s.probe(r); SAME(c, py::call(o, "parse", {q}).vs, m->parse(q), "parse", what); c.n["parses"]++; }
    };
    bool refused = false;
    try { py::make("StreamVGram", {}, {{"inner_words_split", true}, {"words_are_tokens", true}}); } catch (const std::invalid_argument &) { refused = true; }
    EXPECT(c, refused, "arguments", "StreamVGram took inner_words_split and words_are_tokens together");
    compare("new StreamVGram");
    for (int stage = 0, n = r.range(1, 4); stage < n; stage++) {
        for (int k = r.chance(0.5) ? r.range(0, 20) : r.range(100, 300); k > 0; k--) { std::string q = s.draw(r, 0.02); py::call(o, "accept", {q}); m->accept(q); c.n["accepts"]++; }
        if (r.chance(0.8)) { py::call(o, "update"); m->update_dict(); }
        compare("trained StreamVGram");
        if (r.chance(0.5)) {
            std::string f = scratch("s.json"), g = scratch("t.json");
            save_as(r, o, f);
            m->save(g);
            EXPECT(c, read_file(f) == read_file(g), "file", "StreamVGram saves another file than the model");
            py::Value l = py::call_static("StreamVGram", "load", {f});
            EXPECT(c, l.kind == py::Value::OBJ && l.o->cls == o->cls, "class", "load gives no StreamVGram");
            o = l.o;
            l = py::Value();
            m = vgram_core::Loader::load_string_stream_vgram(g);
            c.n["loads"]++;
            compare("loaded StreamVGram");
        }
    }
    for (auto &a : m->alphabet()) c.mix(a);
    c.n["released"]++;
}
static void int_fit(Case &c, Rng &r) {
    IntSetup s = IntSetup::make(r, 8, 30);
    int size = s.size, iters = gen_iters(r, 0, 3);
    Seqs data = gen_texts(r, s, r.range(1, 80), 0.02), probes;
    for (int k = list_size(r, r.range(1, 6)); k > 0; k--) probes.push_back(s.probe(r));
    unsigned seed = static_cast<unsigned>(r.next());
    Spoken sp;
    py::Ref o = construct(r, "IntVGram", size, iters, false, false);
    std::shared_ptr<IntVGram> m = std::make_shared<IntVGram>(size, iters, 0);
    auto compare = [&](const char *what) {
        SAME(c, py::call(o, "alphabet").vv, m->alphabet(), "alphabet", what);
        SAME(c, py::call(o, "freqs").v, m->freqs(), "freqs", what);
        SAME(c, py::call(o, "transform", {probes}).vs, m->transform_to_string(probes), "transform", what);
        c.n["transforms"]++;
    };
    compare("new IntVGram");
    if (r.chance(0.3)) { // a signal
        signal_calls = 0;
        signal_at = r.range(1, data.size());
        py::Ref x = py::make("IntVGram", {size, iters, 0});
        py::Value v = py::call(x, "fit", {data});
        EXPECT(c, v.kind == py::Value::NONE, "signal", "fit gave an object although a signal was pending");
        signal_at = -1;
        c.n["signals"]++;
    }
    srand(seed);
    py::Value f = r.chance(0.3) ? py::call(o, "fit", {data, py::Value()}) : py::call(o, "fit", {data});
    EXPECT(c, f.kind == py::Value::OBJ && f.o == o, "identity", "fit does not return the object it was called on");
    srand(seed);
    m->fit(data);
    compare("fitted IntVGram");
    EXPECT(c, sp.text.str().empty(), "spoke", "a silent IntVGram printed: " << sp.text.str().substr(0, 200));
    f = py::Value();
    std::string a = scratch("s.json"), b = scratch("t.json");
    save_as(r, o, a);
    m->save(b);
    EXPECT(c, read_file(a) == read_file(b), "file", "IntVGram saves another file than the model");
    py::Value l = py::call_static("IntVGram", "load", {a});
    EXPECT(c, l.kind == py::Value::OBJ && l.o->cls == o->cls, "class", "load gives no IntVGram");
    o = l.o;
    l = py::Value();
    m.reset(vgram_core::Loader::load_int_vgram(b));
    c.n["loads"]++;
    compare("loaded IntVGram");
    f = py::call(o, "fit", {data});
    EXPECT(c, f.kind == py::Value::OBJ && f.o == o, "identity", "fit does not return the loaded object it was called on");
    compare("loaded IntVGram after fit");
    c.mix(m->alphabet()); c.mix(m->freqs());
    c.n["released"]++;
}
static void text_fit(Case &c, Rng &r) {
    TextSetup s = TextSetup::make(r, true, 0);
    int size = s.size, iters = gen_iters(r, 0, 3);
    Strs data = s.texts(r, r.range(1, 80), 0.02), probes;
    for (int k = list_size(r, r.range(1, 6)); k > 0; k--) probes.push_back(s.probe(r));
    unsigned seed = static_cast<unsigned>(r.next());
    Spoken sp;
    py::Ref o = construct(r, "VGram", size, iters, false, false);
    std::shared_ptr<vgram_core::StringVGram> m = std::make_shared<vgram_core::StringVGram>(size, iters, 0);
    auto compare = [&](const char *what) {
        SAME(c, py::call(o, "alphabet").vs, m->alphabet(), "alphabet", what);
        SAME(c, py::call(o, "freqs").v, m->freqs(), "freqs", what);
        SAME(c, py::call(o, "transform", {probes}).vs, m->transform(probes), "transform", what);
        c.n["transforms"]++;
    };
    srand(seed);
    py::Value f = r.chance(0.3) ? py::call(o, "fit", {data, py::Value()}) : py::call(o, "fit", {data});
    EXPECT(c, f.kind == py::Value::OBJ && f.o == o, "identity", "fit does not return the object it was called on");
    srand(seed);
    m->fit(data);
    compare("fitted VGram");
    EXPECT(c, sp.text.str().empty(), "spoke", "a silent VGram printed: " << sp.text.str().substr(0, 200));
    f = py::Value();
    std::string a = scratch("s.json"), b = scratch("t.json");
    save_as(r, o, a);
    m->save(b);
    EXPECT(c, read_file(a) == read_file(b), "file", "VGram saves another file than the model");
    py::Value l = py::call_static("VGram", "load", {a});
    EXPECT(c, l.kind == py::Value::OBJ && l.o->cls == o->cls, "class", "load gives no VGram");
    o = l.o;
    l = py::Value();
    m.reset(vgram_core::Loader::load_string_vgram(b));
    c.n["loads"]++;
    compare("loaded VGram");
    for (auto &x : m->alphabet()) c.mix(x);
    c.n["released"]++;
}
CASE(C32_module) {
    load_module(c);
    signal_at = -1;
    int which = c.rng.range(0, 3);
    static void (*const life[])(Case &, Rng &) = {int_stream, text_stream, int_fit, text_fit};
    static const char *const names[] = {"IntStreamVGram", "StreamVGram", "IntVGram", "VGram"};
    // the same life three times: what the second did not give back, the third would not either
    uint64_t seed = c.rng.next();
    size_t held[4];
    for (int k = 0; k < 3; k++) {
        c.sig = 1;
        { Rng r(seed); life[which](c, r); }
        EXPECT(c, py::instances().empty(), "identity", "objects are left after the last reference has gone");
        held[k] = __sanitizer_get_current_allocated_bytes();
        if (k == 0) for (auto kv : std::map<std::string, long>(c.n)) held[3] = kv.second; // the counters exist from now on
    }
    EXPECT(c, held[2] <= held[1] + 64, "leak", "one life of an object of " << names[which] << " leaves " << held[2] - held[1] << " bytes behind");
    c.mix(seed);
    c.nontrivial = true;
    c.sample = std::string("a life of ") + names[which] + " through the module, three times";
}
