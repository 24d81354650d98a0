// C38: allocations that fail, one by one, in every kind of call.
// Every operator new of the library and of the standard library's code for it passes here; while a call is
// starved the k-th one throws bad_alloc (and, when the famine lasts, all that follow). Memory taken inside calls
// of the library is marked, so that what is still held when all objects are gone can be counted.
#include <new>
#include "textmodels.h"
#include <int_dict_p.h>
#include <stat_dict_p.h>
#include <int_vgram_builder_p.h>

static long g_left = -1;      // allocations that still succeed, -1: all
static bool g_fired, g_lasting;
static bool g_inside;
static long g_held;           // marked blocks in use
struct alignas(16) Mark { uint64_t inside, pad; };

static void *take(size_t n) {
    if (g_left >= 0) {
        if (g_left == 0) {
            g_fired = true;
            if (!g_lasting) g_left = -1;
            throw std::bad_alloc();
        }
        g_left--;
    }
    Mark *m = static_cast<Mark *>(malloc(n + sizeof(Mark)));
    if (!m) abort();
    m->inside = g_inside;
    g_held += g_inside;
    return m + 1;
}
static void give(void *p) {
    if (!p) return;
    Mark *m = static_cast<Mark *>(p) - 1;
    g_held -= m->inside;
    free(m);
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

struct Try { bool fired, threw; };
// runs f with the k-th allocation failing (from 0; negative: none)
template <class F> static Try starved(Case &c, long k, bool lasting, F f) {
    bool threw = false;
    g_fired = false;
    g_lasting = lasting;
    g_inside = true;
    g_left = k;
    try { f(); } catch (const std::exception &) { threw = true; }
    g_left = -1;
    g_inside = false;
    c.n["starved_calls"]++;
    if (g_fired) c.n[lasting ? "lasting_failures" : "single_failures"]++;
    if (!g_fired && threw) c.fail("throws", "a call threw though no allocation failed");
    return {g_fired, threw};
}
template <class F> static void fed(Case &c, const std::string &what, F f) {
    std::string why;
    g_inside = true;
    try { f(); } catch (const std::exception &e) { why = std::string(e.what()); if (why.empty()) why = "?"; }
    g_inside = false;
    EXPECT(c, why.empty(), "throws", what << " threw with memory at hand: " << why);
}
// the allocations of f failing one by one until it gets through: all of the first, a sample of the later ones
template <class F, class G> static void each_allocation(Case &c, const std::string &what, F f, G after, long most = 400) {
    Rng &r = c.rng;
    long tried = 0;
    for (long k = 0; tried < most; tried++) {
        bool lasting = r.chance(0.3);
        Try t = starved(c, k, lasting, f);
        after(t);
        if (!t.fired) { c.n["calls_starved_through"]++; return; }
        k += k < 40 ? 1 : r.range(1, 2 + static_cast<int>(k / 12));
    }
}

// whatever body builds has to be gone when it is over; caches a library fills once are met only once
static void balanced(Case &c, const std::function<void(Case &)> &body) {
    Rng start = c.rng;
    for (int round = 0;; round++) {
        c.rng = start;
        long held = g_held;
        srand(static_cast<unsigned>(start.s));
        body(c);
        c.n["balances"]++;
        if (g_held <= held) break;
        EXPECT(c, round < 2, "leak", g_held - held << " blocks are still held after all objects are gone");
    }
}

struct Read {
    std::string name;
    std::function<void()> call;       // the starved part
    std::function<uint64_t()> answer; // what it brought
};
static uint64_t digest(const std::function<void(Case &)> &f) { Case d(1, 0); f(d); return d.sig; }
static void check_reads(Case &c, std::vector<Read> &reads, long most) {
    std::vector<uint64_t> want;
    for (auto &q : reads) { fed(c, q.name, q.call); want.push_back(q.answer()); c.mix(want.back()); }
    for (size_t i = 0; i < reads.size(); i++) {
        auto &q = reads[i];
        each_allocation(c, q.name, q.call, [&](const Try &t) {
            if (!t.threw) EXPECT(c, q.answer() == want[i], "answer", q.name << (t.fired ? " ran out of memory, reported nothing and gave another answer" : " gave another answer than before memory ran out"));
        }, most);
        for (size_t j = 0; j < reads.size(); j++) {
            fed(c, reads[j].name, reads[j].call);
            EXPECT(c, reads[j].answer() == want[j], "changed", reads[j].name << " gives another answer after " << q.name << " ran out of memory");
        }
    }
}

static std::vector<Read> int_reads(Rng &r, const IntSetup &s, std::shared_ptr<IntStreamVGram> m, std::shared_ptr<IntVGram> f) {
    std::vector<Read> v;
    struct Out { Seqs seqs; Seq seq; Strs strs; };
    auto o = std::make_shared<Out>();
    auto qs = std::make_shared<Seqs>();
    for (int i = r.range(1, 4); i > 0; i--) qs->push_back(s.probe(r));
    v.push_back({"parse", [=] { Seqs a; for (auto &q : *qs) a.push_back(m->parse(q)); o->seqs.swap(a); }, [=] { return digest([&](Case &d) { d.mix(o->seqs); }); }});
    v.push_back({"alphabet", [=] { Seqs a = m->alphabet(); o->seqs.swap(a); }, [=] { return digest([&](Case &d) { d.mix(o->seqs); }); }});
    v.push_back({"freqs", [=] { Seq a = m->freqs(); o->seq.swap(a); }, [=] { return digest([&](Case &d) { d.mix(o->seq); }); }});
    if (f) {
        v.push_back({"transform", [=] { Seqs a = f->transform(*qs); o->seqs.swap(a); }, [=] { return digest([&](Case &d) { d.mix(o->seqs); }); }});
        v.push_back({"transform_to_string", [=] { Strs a = f->transform_to_string(*qs); o->strs.swap(a); }, [=] { return digest([&](Case &d) { for (auto &x : o->strs) d.mix(x); }); }});
    }
    std::string file = scratch("starved.json");
    v.push_back({"save", [=] { m->save(file); }, [=] { return digest([&](Case &d) { d.mix(read_file(file)); }); }});
    return v;
}

CASE(C38_int) {
    balanced(c, [](Case &c) {
        Rng &r = c.rng;
        IntSetup s = IntSetup::make(r, 8, 20);
        s.src.stretch = 0;
        std::shared_ptr<IntStreamVGram> m;
        std::shared_ptr<IntVGram> f;
        g_inside = true;
        if (r.chance(0.5)) m = train_stream(r, s, r.chance(0.5) ? 1 : 0, 0.02).m;
        else { m = f = std::make_shared<IntVGram>(s.size, r.range(1, 2), 0); f->fit(gen_texts(r, s, r.range(1, 150), 0.02)); }
        g_inside = false;
        for (auto &e : m->alphabet()) if (e.size() > 1) c.nontrivial = true;
        std::vector<Read> reads = int_reads(r, s, m, f);
        check_reads(c, reads, 250);
        // loading
        std::string file = scratch("starved.json");
        fed(c, "save", [&] { m->save(file); });
        Seqs alpha = m->alphabet();
        Seq freqs = m->freqs(), q = s.probe(r), out = m->parse(q);
        std::shared_ptr<IntStreamVGram> l;
        each_allocation(c, "load", [&] { if (f) l.reset(Loader::load_int_vgram(file)); else l = Loader::load_int_stream_vgram(file); }, [&](const Try &t) {
            if (!t.threw) EXPECT(c, l && l->alphabet() == alpha && l->freqs() == freqs && l->parse(q) == out, "loaded", "a load short of memory brought another model");
            else EXPECT(c, !l, "loaded", "a load that threw brought a model");
            l.reset();
        }, 60);
        c.n["models"]++;
    });
}

CASE(C38_str) {
    balanced(c, [](Case &c) {
        Rng &r = c.rng;
        TextSetup s = TextSetup::make(r, true);
        s.stretch = 0;
        bool fitted = r.chance(0.5);
        g_inside = true;
        TextRun run = train(r, s, fitted, r.chance(0.6) ? 1 : 0, 0.02);
        g_inside = false;
        TextModel m = run.m;
        struct Out { Strs strs; Seq seq; };
        auto o = std::make_shared<Out>();
        Strs qs = s.texts(r, r.range(1, 3), 0.1);
        qs.push_back(s.probe(r));
        std::string file = scratch("starved_text.json");
        auto strs = [=] { return digest([&](Case &d) { for (auto &x : o->strs) d.mix(x); }); };
        std::vector<Read> reads;
        reads.push_back({"parse", [=] { Strs a; if (m.f) a = m.f->transform(qs); else for (auto &q : qs) for (auto &x : m.s->parse(q)) a.push_back(x); o->strs.swap(a); }, strs});
        reads.push_back({"alphabet", [=] { Strs a = m.alphabet(); o->strs.swap(a); }, strs});
        reads.push_back({"freqs", [=] { Seq a = m.freqs(); o->seq.swap(a); }, [=] { return digest([&](Case &d) { d.mix(o->seq); }); }});
        reads.push_back({"save", [=] { m.save(file); }, [=] { return digest([&](Case &d) { d.mix(read_file(file)); }); }});
        for (auto &e : m.alphabet()) if (e.size() > (s.words ? 8 : 1)) c.nontrivial = true;
        check_reads(c, reads, 150);
        fed(c, "save", [&] { m.save(file); });
        TextModel l;
        each_allocation(c, "load", [&] { l = m.load(file); }, [&](const Try &t) {
            if (!t.threw) EXPECT(c, (l.s || l.f) && l.alphabet() == m.alphabet() && l.freqs() == m.freqs() && l.pieces(qs[0]) == m.pieces(qs[0]), "loaded", "a load short of memory brought another model");
            else EXPECT(c, !l.s && !l.f, "loaded", "a load that threw brought a model");
            l = TextModel();
        }, 60);
        c.n["models"]++;
    });
}

// a dictionary, a coder, a tokenizer: what they held before stays, what they lacked comes once
CASE(C38_parts) {
    balanced(c, [](Case &c) {
        Rng &r = c.rng;
        Seq symbols = gen_symbols(r, r.range(1, 12)), all = symbols;
        Seq more = gen_symbols(r, 8);
        all.insert(all.end(), more.begin(), more.end());
        Seqs entries = gen_dict(r, symbols, r.range(0, 12), 6, true);
        std::shared_ptr<IntDictImpl> d;
        each_allocation(c, "making a dictionary", [&] { d.reset(new IntDictImpl(entries)); }, [&](const Try &t) {
            EXPECT(c, !t.threw || !d, "made", "a dictionary that threw was made");
            if (!t.fired) return;
            EXPECT(c, t.threw, "silent", "making a dictionary ran out of memory silently");
        }, 40);
        if (!d) fed(c, "making a dictionary", [&] { d.reset(new IntDictImpl(entries)); });
        SeqCoder coder;
        WordTokenizer tok;
        std::map<int, int> codes;
        std::map<int, std::string> tokens;
        for (int step = r.range(4, 30); step > 0; step--) {
            Seq q = gen_seq(r, all, r.range(1, 10));
            bool weighted = r.chance(0.5);
            Seqs before = d->alphabet();
            Seq freqs(before.size());
            for (int &x : freqs) x = r.range(0, 9);
            double total = sum_of(freqs);
            Seq out;
            auto run = [&] {
                Seq o;
                if (weighted) d->parse(q, freqs, total, &o); else d->parse(q, &o, nullptr);
                out.swap(o);
            };
            each_allocation(c, "parse", run, [&](const Try &t) {
                if (t.fired) EXPECT(c, t.threw, "silent", "a parse ran out of memory silently");
                Seqs now = d->alphabet();
                EXPECT(c, d->size() == static_cast<int>(now.size()) && now.size() >= before.size() && std::equal(before.begin(), before.end(), now.begin()), "entries", "running out of memory changed the entries of a dictionary");
                std::set<Seq> unique(now.begin(), now.end());
                EXPECT(c, unique.size() == now.size(), "entries", "after running out of memory a dictionary holds an entry twice: " << show(now, 40));
                for (size_t i = before.size(); i < now.size(); i++) EXPECT(c, now[i].size() == 1 && d->parent(i) == -1, "entries", "after running out of memory a dictionary holds " << show(now[i]) << " below " << d->parent(i));
                if (!t.threw) EXPECT(c, ids_ok(now, out) && spell(now, out) == q, "lossless", "parse of " << show(q) << " spells " << show(spell(now, out)));
            }, 40);
            fed(c, "parse", run);
            Seqs now = d->alphabet();
            EXPECT(c, ids_ok(now, out) && spell(now, out) == q, "lossless", "parse of " << show(q) << " gives " << show(out) << " over " << show(now, 40));
            for (size_t i = 0; i < now.size(); i++) {
                int at = d->search(now[i], nullptr);
                EXPECT(c, at == static_cast<int>(i), "lookup", "entry " << i << " " << show(now[i]) << " is found at " << at << " after memory ran out");
            }
            // coder
            Seq coded;
            auto encode = [&] { coded = coder.encode(q); };
            each_allocation(c, "encode", encode, [&](const Try &t) { if (t.fired) EXPECT(c, t.threw, "silent", "encode ran out of memory silently"); }, 30);
            fed(c, "encode", encode);
            fed(c, "decode", [&] { EXPECT(c, coder.decode(coded) == q, "codes", "decode does not undo encode after memory ran out"); });
            std::unordered_map<int, int> map = coder.code_map();
            std::set<int> used;
            for (auto &p : map) {
                EXPECT(c, p.second >= 0 && p.second < static_cast<int>(map.size()) && used.insert(p.second).second, "codes", "code " << p.second << " of " << p.first << " among " << map.size() << " symbols after memory ran out");
                Seq back;
                fed(c, "decode", [&] { back = coder.decode(Seq(1, p.second)); });
                EXPECT(c, back == Seq(1, p.first), "codes", "code " << p.second << " of " << p.first << " stands for " << show(back) << " after memory ran out");
            }
            for (auto &p : codes) EXPECT(c, map.count(p.first) && map[p.first] == p.second, "codes", "the code of " << p.first << " changed when memory ran out");
            codes.clear();
            codes.insert(map.begin(), map.end());
            // tokenizer
            std::string text;
            for (int x : q) text += "a_token_longer_than_its_own_place_" + std::to_string(x) + " ";
            Seq ids;
            auto number = [&] { ids = tok.transform(text); };
            each_allocation(c, "tokenizer", number, [&](const Try &t) { if (t.fired) EXPECT(c, t.threw, "silent", "a tokenizer ran out of memory silently"); }, 30);
            fed(c, "tokenizer", number);
            Strs ts = ref_tokens(true, text);
            EXPECT(c, ids.size() == ts.size(), "tokens", "a text of " << ts.size() << " tokens has " << ids.size() << " after memory ran out");
            for (size_t i = 0; i < ids.size(); i++) {
                std::string back = tok.decode(Seq(1, ids[i]));
                EXPECT(c, back == ts[i], "tokens", "number " << ids[i] << " of " << ts[i] << " stands for '" << back << "' after memory ran out");
                auto known = tokens.emplace(ids[i], ts[i]);
                EXPECT(c, known.first->second == ts[i], "tokens", "number " << ids[i] << " of " << known.first->second << " was given again to " << ts[i]);
            }
            c.mix(out); c.mix(coded); c.mix(ids);
            c.n["steps"]++;
        }
        c.nontrivial = c.n["single_failures"] > 0;
    });
}

// training that runs out of memory now and then
CASE(C38_train) {
    balanced(c, [](Case &c) {
        Rng &r = c.rng;
        IntSetup s = IntSetup::make(r, 8, 25);
        s.src.stretch = 0;
        bool text = r.chance(0.3), fit = r.chance(0.3);
        std::shared_ptr<IntStreamVGram> m;
        std::shared_ptr<IntVGram> f;
        std::shared_ptr<StringStreamVGram> t;
        Seqs seqs; // what a text holds, as words
        auto words = [&](const Seq &q) { std::string w; for (int x : q) w += std::to_string(x) + " "; return w; };
        // constructors
        each_allocation(c, "making a model", [&] {
            if (text) t = std::make_shared<StringStreamVGram>(s.size, 0, false, true);
            else if (fit) m = f = std::make_shared<IntVGram>(s.size, 1, 0);
            else m = std::make_shared<IntStreamVGram>(s.size, 0);
        }, [&](const Try &x) {
            EXPECT(c, !x.fired || x.threw, "silent", "a constructor ran out of memory silently");
            if (x.fired) EXPECT(c, !m && !t, "made", "a constructor that threw made a model");
        });
        std::set<int> known;
        auto judge = [&](const char *after) {
            if (!text) {
                Seqs alpha;
                Seq freqs;
                fed(c, "alphabet", [&] { alpha = m->alphabet(); });
                fed(c, "freqs", [&] { freqs = m->freqs(); });
                EXPECT(c, freqs.size() == alpha.size(), "aligned", "after " << after << " short of memory: " << freqs.size() << " frequencies for " << alpha.size() << " entries");
                std::set<Seq> unique(alpha.begin(), alpha.end());
                EXPECT(c, unique.size() == alpha.size(), "twice", "after " << after << " short of memory an entry is held twice: " << show(alpha, 60));
            }
            for (int i = 0; i < 2; i++) {
                Seq q = known_part(known, s.draw(r, 0.1));
                if (text) {
                    Strs parts;
                    fed(c, "parse", [&] { parts = t->parse(words(q)); });
                    std::string all = cat(parts), want;
                    for (int x : q) want += std::to_string(x);
                    EXPECT(c, all == want, "lossless", "after " << after << " short of memory parse of '" << words(q) << "' gives " << show(parts));
                } else {
                    Seq out;
                    fed(c, "parse", [&] { out = m->parse(q); });
                    Seqs alpha = m->alphabet();
                    EXPECT(c, ids_ok(alpha, out) && spell(alpha, out) == q, "lossless", "after " << after << " short of memory parse of " << show(q) << " gives " << show(out) << " over " << show(alpha, 60));
                }
            }
            c.n["failures_judged"]++;
        };
        long n = fit && !text ? 1 : r.chance(0.5) ? r.range(50, 400) : r.range(20, 60);
        double p = r.chance(0.5) ? 0.05 : 0.3;
        for (long i = 0; i < n; i++) {
            bool update = !(fit && !text) && r.chance(0.03);
            Seqs data;
            if (fit && !text) data = gen_texts(r, s, r.range(1, 120), 0.02);
            else if (!update) data.push_back(s.draw(r, 0.03));
            const char *what = update ? "an update" : fit && !text ? "a fit" : "an accept";
            auto call = [&] {
                if (update) { if (text) t->update_dict(); else m->update_dict(); }
                else if (text) t->accept(words(data[0]));
                else if (fit) f->fit(data);
                else m->accept(data[0]);
            };
            int tries = fit && !text ? r.range(1, 12) : r.chance(p) ? r.range(1, 3) : 0;
            bool done = false;
            while (tries-- > 0 && !done) {
                long most = fit && !text ? 60000 : r.chance(0.1) ? 4000 : 60;
                long k = static_cast<long>(exp(r.uniform() * log(most + 1.0))) - 1;
                Try x = starved(c, k, r.chance(0.3), call);
                if (x.fired) {
                    EXPECT(c, x.threw, "silent", what << " ran out of memory silently");
                    judge(what);
                }
                done = !x.threw;
            }
            if (!done) fed(c, what, call);
            for (auto &q : data) known.insert(q.begin(), q.end());
        }
        if (!text) for (auto &e : m->alphabet()) if (e.size() > 1) c.nontrivial = true;
        judge("training");
        fed(c, "update", [&] { if (text) t->update_dict(); else m->update_dict(); });
        judge("training and an update");
        std::string file = scratch("survivor.json");
        fed(c, "save", [&] { if (text) t->save(file); else m->save(file); });
        if (!text) {
            std::shared_ptr<IntStreamVGram> l;
            fed(c, "load", [&] { if (f) l.reset(Loader::load_int_vgram(file)); else l = Loader::load_int_stream_vgram(file); });
            EXPECT(c, l->alphabet() == m->alphabet() && l->freqs() == m->freqs(), "survivor", "a model trained short of memory is saved as another one");
            c.mix(m->alphabet());
            c.mix(m->freqs());
        }
        c.n["histories"]++;
    });
}
