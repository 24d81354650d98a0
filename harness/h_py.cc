// C30: the Python wrapper classes, without Python; PyErr_CheckSignals is ours.
#include "faults.h"
#include "texts.h"
#include <typeinfo>
#include <tokenizers/char_tokenizer.h>
#include <tokenizers/word_tokenizer.h>
#include "py_int_vgram_builder.h"
#include "py_vgram_builder.h"
using namespace vgram_core;

static long signal_calls = 0, signal_at = -1;
static bool signal_seen = false;
extern "C" int PyErr_CheckSignals() {
    if (++signal_calls == signal_at) { signal_seen = true; return -1; }
    return 0;
}
static void arm(long k) { signal_calls = 0; signal_at = k; signal_seen = false; }
static py::args none;

static void same_int(Case &c, const char *what, const PyIntVGram &p, const IntVGram &m, const Seqs &probes) {
    EXPECT(c, p.alphabet() == m.alphabet(), "alphabet", what << ": the wrapper's alphabet " << show(p.alphabet(), 30) << " is not that of the model " << show(m.alphabet(), 30));
    EXPECT(c, p.freqs() == m.freqs(), "freqs", what << ": the wrapper's frequencies " << show(p.freqs(), 30) << " are not those of the model " << show(m.freqs(), 30));
    EXPECT(c, p.transform_to_string(probes, none) == m.transform_to_string(probes), "transform", what << ": wrapper and model transform differently");
    std::string f = scratch("w.json"), g = scratch("m.json");
    p.save(f);
    m.save(g);
    EXPECT(c, read_file(f) == read_file(g), "file", what << ": wrapper and model save different files");
    c.n["comparisons"]++;
}
CASE(C30_int) {
    Rng &r = c.rng;
    IntSetup s = IntSetup::make(r, 10, 30);
    Seqs data = gen_texts(r, s, r.chance(0.3) ? r.range(60, 150) : r.range(1, 25), 0.02), probes;
    for (int i = 0, n = list_size(r, r.range(1, 8)); i < n; i++) probes.push_back(s.probe(r));
    int iters = gen_iters(r, 0, 3);
    unsigned seed = static_cast<unsigned>(r.next());
    arm(-1);
    std::unique_ptr<PyIntVGram> w(r.chance(0.8) ? new PyIntVGram(s.size, iters, 0) : new PyIntVGram(s.size, iters));
    IntVGram m(s.size, iters, 0);
    same_int(c, "new wrapper", *w, m, {});
    srand(seed);
    PyIntVGram *res = w->fit(data, none);
    EXPECT(c, res == w.get(), "fit", "fit of a wrapper returned something else");
    long points = signal_calls;
    srand(seed);
    m.fit(data);
    same_int(c, "fitted wrapper", *w, m, probes);
    // loaded
    std::string f = scratch("py.json");
    w->save(f);
    std::unique_ptr<PyIntVGram> l(PyIntVGram::load(f));
    EXPECT(c, l != nullptr && typeid(*l) == typeid(PyIntVGram), "class", "the loaded object is no PyIntVGram but " << typeid(*l).name());
    std::unique_ptr<IntVGram> lm(Loader::load_int_vgram(f));
    same_int(c, "loaded wrapper", *l, *lm, probes);
    EXPECT(c, l->fit(data, none) == l.get(), "fit", "fit of a loaded fitted wrapper returned something else");
    same_int(c, "loaded wrapper after fit", *l, *lm, probes);
    // signals
    std::vector<std::string> full = w->transform_to_string(probes, none);
    for (PyIntVGram *p : {w.get(), l.get()}) for (size_t k = 1; k <= probes.size(); k++) {
        arm(k);
        Seqs part = p->transform(probes);
        EXPECT(c, signal_seen, "signal", "a transform of " << probes.size() << " sequences did not look for the signal at sequence " << k);
        EXPECT(c, part.size() + 1 >= k && part.size() <= k, "signal", "a signal at sequence " << k << " let a " << (p == l.get() ? "loaded" : "made") << " wrapper transform " << part.size() << " of " << probes.size());
        arm(k);
        std::vector<std::string> ps = p->transform_to_string(probes, none);
        EXPECT(c, signal_seen && ps.size() <= k && std::equal(ps.begin(), ps.end(), full.begin()), "signal", "a signal at sequence " << k << " gave " << ps.size() << " of " << probes.size() << " texts");
        c.n["transform_signals"]++;
        if (k > 12 && k + 12 < probes.size()) k = r.range(k, probes.size() - 12);
    }
    std::vector<long> at;
    for (long k = 1; k <= points; k++) if (points <= 30 || k == points || r.chance(8.0 / points)) at.push_back(k);
    for (long k : at) {
        srand(seed);
        arm(-1);
        std::unique_ptr<PyIntVGram> p(new PyIntVGram(s.size, iters, 0));
        bool again = r.chance(0.5);
        arm(k);
        res = p->fit(data, none);
        EXPECT(c, signal_seen && res == nullptr, "signal", "a signal at point " << k << " of " << points << " did not interrupt fit");
        EXPECT(c, signal_calls == k, "signal", "fit went on after a signal at point " << k << " to point " << signal_calls);
        c.n["fit_signals"]++;
        arm(-1);
        if (again) { p->save(f); p.reset(PyIntVGram::load(f)); EXPECT(c, typeid(*p) == typeid(PyIntVGram), "class", "the loaded object is no PyIntVGram"); c.n["loaded_unfinished"]++; }
        // a signal also interrupts what is left to do on a loaded wrapper
        arm(r.range(1, data.size()));
        res = p->fit(data, none);
        EXPECT(c, signal_seen && res == nullptr, "signal", "a signal at point " << signal_at << " did not interrupt the next fit of a " << (again ? "loaded" : "made") << " wrapper");
        arm(-1);
        EXPECT(c, p->fit(data, none) == p.get(), "fit", "fit of an interrupted wrapper did not finish");
        check_counts_data(c, "wrapper finished after signals", *p, data);
    }
    arm(-1);
    c.n["signal_points"] += points;
    c.mix(w->alphabet()); c.mix(w->freqs());
    c.nontrivial = points > 0;
    c.sample = std::to_string(data.size()) + " sequences, " + std::to_string(iters) + " iterations, a signal at " + std::to_string(at.size()) + " of " + std::to_string(points) + " points";
}
CASE(C30_str) {
    Rng &r = c.rng;
    TextSetup s = TextSetup::make(r, true);
    Strs data = s.texts(r, r.chance(0.3) ? r.range(60, 150) : r.range(1, 25), 0.02), probes;
    for (int i = 0, n = r.range(1, 6); i < n; i++) probes.push_back(s.probe(r));
    int iters = gen_iters(r, 0, 3), verbose = 0;
    unsigned seed = static_cast<unsigned>(r.next());
    arm(-1);
    std::unique_ptr<PyStringVGram> w;
    std::unique_ptr<StringVGram> m;
    if (s.words) {
        w.reset(r.chance(0.5) ? new PyStringVGram(s.size, iters, static_cast<BaseTokenizer *>(new WordTokenizer())) : new PyStringVGram(s.size, iters, static_cast<BaseTokenizer *>(new WordTokenizer()), verbose));
        m.reset(new StringVGram(s.size, iters, static_cast<BaseTokenizer *>(new WordTokenizer()), verbose));
    } else {
        w.reset(r.chance(0.5) ? new PyStringVGram(s.size, iters) : new PyStringVGram(s.size, iters, verbose));
        m.reset(new StringVGram(s.size, iters, verbose));
    }
    auto same = [&](const char *what, const PyStringVGram &p, const StringVGram &q) {
        EXPECT(c, p.alphabet() == q.alphabet(), "alphabet", what << ": the wrapper's alphabet " << show(p.alphabet(), 30) << " is not that of the model " << show(q.alphabet(), 30));
        EXPECT(c, p.freqs() == q.freqs(), "freqs", what << ": the wrapper's frequencies are not those of the model");
        EXPECT(c, p.transform(probes, none) == q.transform(probes), "transform", what << ": wrapper and model transform differently");
        std::string f = scratch("w.json"), g = scratch("m.json");
        p.save(f);
        q.save(g);
        EXPECT(c, read_file(f) == read_file(g), "file", what << ": wrapper and model save different files");
        c.n["comparisons"]++;
    };
    srand(seed);
    EXPECT(c, w->fit(data, none) == w.get(), "fit", "fit of a wrapper returned something else");
    srand(seed);
    m->fit(data);
    same("fitted text wrapper", *w, *m);
    std::string f = scratch("py.json");
    w->save(f);
    std::unique_ptr<PyStringVGram> l(PyStringVGram::load(f));
    EXPECT(c, l != nullptr && typeid(*l) == typeid(PyStringVGram), "class", "the loaded object is no PyStringVGram but " << typeid(*l).name());
    std::unique_ptr<StringVGram> lm(Loader::load_string_vgram(f));
    same("loaded text wrapper", *l, *lm);
    EXPECT(c, l->fit(data, none) == l.get(), "fit", "fit of a loaded text wrapper returned something else");
    same("loaded text wrapper after fit", *l, *lm);
    w.reset(); // the loaded one must not depend on it
    same("loaded text wrapper alone", *l, *lm);
    for (auto &x : l->alphabet()) c.mix(x);
    c.nontrivial = l->alphabet().size() > 1;
    c.sample = std::string(s.words ? "word" : "character") + " wrapper with " + show(l->alphabet(), 10);
}
