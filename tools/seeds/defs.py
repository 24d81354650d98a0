A = 'core/src/main/cpp/algorithm/'
I = 'core/src/main/cpp/interfaces/'
G = I + 'vgram_builders/'
T = I + 'tokenizers/'
B = 'binding/src/main/cpp/'
SEEDS = {}


def seed(name, prop, edits, demo, needs, breaks, **k):
    SEEDS[name] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)


seed('c01-score-floor', 'C01', [(A + 'int_dict_p.cc', '''    std::vector<double> score(len + 1, std::numeric_limits<double>::lowest());
    score[0] = 0;
    IntSeq symbols(len + 1);

    for (int pos = 0; pos < len; pos++) {
        IntSeq suffix = next_part(seq, pos);
        int sym = search(suffix, excludes);
        if (sym < 0)''', '''    std::vector<double> score(len + 1, -1e4);
    score[0] = 0;
    IntSeq symbols(len + 1);

    for (int pos = 0; pos < len; pos++) {
        IntSeq suffix = next_part(seq, pos);
        int sym = search(suffix, excludes);
        if (sym < 0)''')], '''
int main() {
    IntSeq sym; for (int i = 0; i < 200; i++) sym.push_back(i);
    IntDictImpl d(sym);
    IntSeq q, out; for (int i = 0; i < 6000; i++) q.push_back(rnd(200));
    IntSeq f(200, 1);
    d.parse(q, f, 200, &out);
    NEED(join(d.alphabet(), out) == q);
}''', 'a sequence whose log-probability is below -10000, that is thousands of improbable symbols', 'the sentinel for unreached positions is larger than real scores, so positions behind it are filled with entry 0 and the parse spells another sequence')

seed('c01-stale-parse-cache', 'C01', [(G + 'int_stream_vgram.h', '''        int size_;
''', '''        int size_;
        mutable IntSeq last_seq_;
        mutable IntSeq last_result_;
'''), (G + 'int_stream_vgram.cc', '''    IntSeq result;
//    if (dict_) {''', '''    if (!seq.empty() && seq == last_seq_) {
        return last_result_;
    }
    IntSeq result;
//    if (dict_) {'''), (G + 'int_stream_vgram.cc', '''//    std::cout << "out parse" << std::endl;
''', '''    last_seq_ = seq;
    last_result_ = result;
''')], '''
int main() {
    IntStreamVGram m(60, 0);
    IntSeq q = words(10, 12, 5);
    for (int i = 0; i < 60; i++) { m.accept(words(400, 12, 5)); if (i % 20 == 19) { m.update_dict(); m.accept(q); NEED(join(m.alphabet(), m.parse(q)) == q); } }
}''', 'parsing the same sequence immediately before and after an update', 'parse returns indices of the dictionary before the update', also=['C26'])

seed('c02-unused-prefix-ends-walk', 'C02', [(A + 'int_dict_p.cc', '        while ((sym = parent(sym)) >= 0);\n', '        // nothing to gain from the prefixes of an entry that was never used\n        while ((sym = parent(sym)) >= 0 && (freqs.size() <= sym || freqs[sym] > 0));\n')], '''
int main() {
    int bad = 0;
    for (int t = 0; t < 3000; t++) {
        Seqs e; IntSeq f; double total = 0;
        for (int i = 0; i < 4; i++) e.push_back(IntSeq(1, i));
        std::set<IntSeq> s(e.begin(), e.end());
        for (int i = 0; i < 12; i++) { IntSeq x; for (int k = 2 + rnd(3); k; k--) x.push_back(rnd(4)); s.insert(x); }
        IntDictImpl d(Seqs(s.begin(), s.end()));
        for (int i = 0; i < d.size(); i++) { f.push_back(rnd(4) ? rnd(30) : 0); total += f.back(); }
        IntSeq q, out; for (int i = 0; i < 12; i++) q.push_back(rnd(4));
        d.parse(q, f, total, &out);
        if (score(d.alphabet(), f, total, out) < best(d.alphabet(), f, total, q) - 1e-6) bad++;
    }
    NEED(bad == 0);
}''', 'nested entries where one in the middle has frequency 0 and a shorter one is worth using', 'the walk up the prefixes stops early, so better segmentations are not seen')

seed('c03-empty-exclusion-set', 'C03', [(A + 'int_dict_p.cc', '    if (excludes == nullptr) {\n        int ind', '    if (excludes == nullptr || excludes->empty()) {\n        int ind')], '''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 2}, {2}});
    std::unordered_set<int> none;
    NEED(d.search({7, 1}, &none) == -1);
    NEED(d.size() == 3);
}''', 'an exclusion set that happens to be empty and a symbol that is unknown', 'a lookup with an exclusion set appends to the dictionary instead of answering -1')

seed('c03-unsigned-order', 'C03', [(A + 'int_dict_p.cc', '    std::sort(seqs_.begin(), seqs_.end());', '''    // cheaper than the order of std::vector for long entries
    std::sort(seqs_.begin(), seqs_.end(), [](const IntSeq &a, const IntSeq &b) {
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(),
                                            [](unsigned x, unsigned y) { return x < y; });
    });''')], '''
int main() {
    IntDictImpl d(Seqs{{-5}, {3}, {-5, 3}, {7}});
    NEED(d.get(0) == IntSeq({-5}));
    NEED(d.search({-5, 3, 1}, nullptr) == 1);
    NEED(d.search({7}, nullptr) == 3);
}''', 'negative symbols', 'entries are sorted as unsigned numbers while lookups search in signed order')

seed('c04-copied-index', 'C04', [(A + 'int_dict_p.cc', '''    parents_ = dict.parents_; // Sanitizer: indirect leak
''', '''    parents_ = IntSeq(dict.parents_.begin(), dict.parents_.begin() + dict.sorted_size_);
''')], '''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 2}, {2}});
    d.search({9}, nullptr);
    IntDictImpl c(d);
    IntSeq out;
    int before = c.parent(2);
    c.search({8}, nullptr); c.search({7}, nullptr);
    c.parse({1, 2, 9, 8, 7}, IntSeq(6, 1), 6, &out);
    for (int i = 0; i < c.size(); i++) NEED(c.parent(i) == (c.get(i) == IntSeq({1, 2}) ? 0 : -1));
    NEED(join(c.alphabet(), out) == IntSeq({1, 2, 9, 8, 7}));
}''', 'copying a dictionary after it has met unknown symbols, and asking the copy for their parents', 'the copy has entries without a parent slot', flags='-D_GLIBCXX_ASSERTIONS -fsanitize=address')

seed('c05-two-excluded-prefixes', 'C05', [(A + 'int_dict_p.cc', '''        index = parents_[index];
    }''', '''        int up = parents_[index];
        // an excluded entry hides the next shorter one
        if (excludes != nullptr && up >= 0 && excludes->count(index) != 0 && excludes->count(up) != 0) {
            break;
        }
        index = up;
    }''')], '''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 1}, {1, 1, 1}, {1, 1, 1, 1}, {2}});
    std::unordered_set<int> ex = {1, 2};
    IntSeq out;
    d.parse({1, 1, 1, 2, 1}, &out, &ex);
    NEED(join(d.alphabet(), out) == IntSeq({1, 1, 1, 2, 1}));
}''', 'two nested entries that are both excluded while a shorter one is allowed', 'greedy parsing skips symbols although an allowed entry matches')

seed('c06-cached-code-length', 'C06', [(A + 'stat_dict_p.h', '    double total_chars_ = 0;\n', '    double total_chars_ = 0;\n    mutable double code_length_ = -1; // < 0: to be computed\n'),
 (A + 'stat_dict_p.cc', '    double sum = 0;\n    for (int i = 0; i < size(); i++) {\n        int frequency = freq(i);', '    if (code_length_ >= 0)\n        return code_length_;\n    double sum = 0;\n    for (int i = 0; i < size(); i++) {\n        int frequency = freq(i);'),
 (A + 'stat_dict_p.cc', '    return (sum + power_ * log(power_)) / total_chars_;', '    code_length_ = (sum + power_ * log(power_)) / total_chars_;\n    return code_length_;'),
 (A + 'stat_dict_p.cc', '    total_chars_ += seq.size();\n', '    total_chars_ += seq.size();\n    code_length_ = -1;\n')], '''
int main() {
    StatDictImpl s(Seqs{{1}, {1, 2}, {2}});
    IntSeq o; s.parse({1, 2, 1, 1, 2}, &o);
    double a = s.code_length_per_char();
    s.update_symbol(0, 7);
    double b = s.code_length_per_char();
    NEED(std::fabs(a - b) > 1e-6);
}''', 'asking for the code length, then an explicit update, then asking again', 'the code length is that of before the update')

seed('c08-joins-across-sequences', 'C08', [(A + 'stat_dict_p.h', '    double total_chars_ = 0;\n', '    double total_chars_ = 0;\n    int prev_ = -1;\n'),
 (A + 'stat_dict_p.cc', '    int prev = -1;\n    for (int symbol : *parse_result) {\n        update_symbol(symbol, 1);\n        if (prev >= 0)\n            pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1; // Sanitizer: indirect leak\n        prev = symbol;\n    }',
  '    if (parse_result->size() > 1)\n        prev_ = -1;\n    for (int symbol : *parse_result) {\n        update_symbol(symbol, 1);\n        if (prev_ >= 0)\n            pairs_freqs_[(((std::int64_t) prev_) << 32) | symbol] += 1; // Sanitizer: indirect leak\n        prev_ = symbol;\n    }')], '''
int main() {
    IntVGramBuilderImpl b(100, 0);
    for (int i = 0; i < 20000; i++) {
        b.accept({1, 2});
        for (int k = rnd(3); k; k--) b.accept({3});
        b.accept({4});
        b.accept({5, 6, 7});
        for (auto &e : b.result()->alphabet()) for (size_t k = 0; k + 1 < e.size(); k++) NEED(e[k] != 3 && e[k] != 4);
    }
}''', 'sequences that are segmented into a single entry, following one another', 'pairs are counted across the ends of sequences, so the dictionary gets entries that occur in no sequence')

seed('c09-late-alphabet', 'C09', [(A + 'int_vgram_builder_p.cc', '    for (int i = 0; i < current_->size(); i++) {\n        if (current_->parent(i) < 0) {', '    for (int i = 0; i < current_->size() && (!populate_ || symb_alphabet_.empty()); i++) {\n        if (current_->parent(i) < 0) {')], '''
int main() {
    for (int trial = 0; trial < 40; trial++) {
        IntVGramBuilderImpl b(40, 0);
        int k = 0, fresh = 0;
        double m = b.get_min_probability();
        // a first cut with few symbols, then all the others at once; symbols are numbered, so all are met after the switch
        for (; fresh < 1 && k < 20000; k++) { b.accept(words(20, 25, 4)); if (b.get_min_probability() != m) { m = b.get_min_probability(); fresh++; } }
        IntSeq all; for (int i = 0; i < 20; i++) all.push_back(i);
        for (int i = 0; i < 3; i++) b.accept(all);
        // from now on no new symbols; the dictionary that a later extension and cut leave has to fit
        IntSeq before = b.result()->alphabet().back();
        Seqs last = b.result()->alphabet();
        int changes = 0;
        for (k = 0; k < 20000 && changes < 2; k++) {
            b.accept(words(20, 25, 20));
            if (b.result()->alphabet() != last) {
                last = b.result()->alphabet();
                bool has_all = true;
                std::set<int> s; for (auto &e : last) if (e.size() == 1) s.insert(e[0]);
                if (s.size() == 20 && b.result()->size() != 0) changes++;
                if (changes == 1) NEED(static_cast<int>(last.size()) <= 40 || s.size() < 20);
            }
        }
    }
}''', 'symbols that first appear in the data before an extension, then the cut that follows it', 'the cut counts them twice and keeps more entries than the size allows')

seed('c10-no-self-pairs', 'C10', [(A + 'stat_dict_p.cc', '        double ab = freq;\n', '        if (first == second && get(first).size() > 1) // a run: no information in it\n            continue;\n        double ab = freq;\n')], '''
int main() {
    IntVGramBuilderImpl b(50, 0);
    size_t longest = 0;
    for (int i = 0; i < 30000; i++) { IntSeq s; for (int k = 0; k < 12; k++) { s.push_back(1); s.push_back(2); } s.push_back(3 + rnd(3)); b.accept(s); }
    for (auto &e : b.result()->alphabet()) longest = std::max(longest, e.size());
    bool doubled = false;
    for (auto &e : b.result()->alphabet()) if (e == IntSeq({1, 2, 1, 2})) doubled = true;
    NEED(doubled || longest > 6);
}''', 'data with an entry that repeats itself', 'joins of an entry with itself are never added, however informative')


seed('c13-repeated-texts-once', 'C13', [(G + 'int_vgram.cc', '    for (const IntSeq &seq : seqs) {\n        IntSeq result;\n        dict_->parse', '    std::map<std::vector<int>, IntSeq> parsed; // training data repeats itself\n    for (const IntSeq &seq : seqs) {\n        if (seq.size() > 16 && parsed.count(IntSeq(seq.begin(), seq.begin() + 16)) != 0 && parsed[IntSeq(seq.begin(), seq.begin() + 16)] == seq) {\n            continue;\n        }\n        if (seq.size() > 16) {\n            parsed[IntSeq(seq.begin(), seq.begin() + 16)] = seq;\n        }\n        IntSeq result;\n        dict_->parse'),
  (G + 'int_vgram.cc', '#include <fstream>\n', '#include <fstream>\n#include <map>\n')], '''
int main() {
    Seqs data;
    for (int i = 0; i < 30; i++) data.push_back(words(20, 10, 5));
    data.push_back(data[3]); data.push_back(data[4]);
    IntVGram m(40, 2, 0);
    m.fit(data);
    long want = 0, got = 0;
    for (auto &s : data) want += s.size();
    Seqs a = m.alphabet(); IntSeq f = m.freqs();
    for (size_t i = 0; i < a.size(); i++) got += a[i].size() * f[i];
    NEED(want == got);
}''', 'training data with the same long sequence twice', 'repeated training sequences are counted once')

seed('c14-refit-counts', 'C14', [(G + 'int_vgram.cc', '        if (freqs_computed_) {\n            return this;\n', '        if (freqs_computed_ && total_freqs_ > 0) {\n            return this;\n')], '''
int main() {
    IntVGram m(20, 1, 0);
    m.fit({{}, {}});
    NEED(m.fit({{1, 2, 3}, {4}}) == &m);
    NEED(m.freqs().empty() && m.alphabet().empty());
}''', 'a model fitted on empty sequences only, fitted again with data', 'the second fit changes the model')

seed('c14-transform-counts', 'C14', [(G + 'int_vgram.h', '        bool freqs_computed_ = false;\n', '        bool freqs_computed_ = false;\n        mutable std::vector<IntSeq> pending_; // unseen symbols, learned with the next query\n'),
 (G + 'int_vgram.cc', '    for (const IntSeq &seq : seqs) {\n        IntSeq result = parse(seq);\n', '    for (const IntSeq &seq : seqs) {\n        if (seqs.size() > 4 && seq.size() == 1) {\n            coder_->encode(seq);\n        }\n        IntSeq result = parse(seq);\n')], '''
int main() {
    Seqs data; for (int i = 0; i < 30; i++) data.push_back(words(20, 10, 5));
    IntVGram m(40, 2, 0);
    m.fit(data);
    NEED(m.transform({{99}})[0].empty());
    Seqs a = m.alphabet();
    m.transform({{1}, {2}, {99}, {3}, {4}});
    NEED(m.transform({{99}})[0].empty());
    NEED(m.alphabet() == a);
}''', 'a batch of at least five sequences with an unknown single symbol', 'transform teaches the model symbols')

seed('c16-unused-entries-left-out', 'C16', [(I + 'saver.h', '                json word_obj;\n', '                if (freqs[i] == 0 && dict->get(i).size() > 2) { // never used\n                    continue;\n                }\n                json word_obj;\n')], '''
int main() {
    Seqs data; for (int i = 0; i < 60; i++) data.push_back(words(60, 30, 5));
    for (int t = 0; t < 30; t++) {
        srand(t);
        IntVGram m(200, 1 + t % 3, 0);
        m.fit(data);
        m.save("m.json");
        std::unique_ptr<IntVGram> l(Loader::load_int_vgram("m.json"));
        NEED(l->alphabet() == m.alphabet());
        NEED(l->freqs() == m.freqs());
    }
}''', 'a fitted model with a longer entry that the final count did not use', 'the saved file lacks entries, so all later indices shift')

seed('c18-default-size', 'C18', [(I + 'loader.h', '            size = dict["size"];\n', '            size = dict.value("size", 10000); // files of early versions have none\n')], '''
int main() {
    IntStreamVGram m(60, 0);
    for (int i = 0; i < 60; i++) m.accept(words(100, 30, 5));
    m.update_dict();
    m.save("m.json");
    json d = json::parse(slurp("m.json"));
    d.erase("size");
    std::ofstream("n.json") << d.dump();
    bool threw = false;
    try { Loader::load_int_stream_vgram("n.json"); } catch (const std::exception &) { threw = true; }
    NEED(threw);
}''', 'a file without its size', 'a damaged file is loaded with a made-up size')

seed('c20-decode-skips', 'C20', [(I + 'seq_coder.cc', '        result.push_back(backward_code_.at(symbol));\n', '        auto found = backward_code_.find(symbol);\n        if (found != backward_code_.end()) {\n            result.push_back(found->second);\n        }\n')], '''
int main() {
    SeqCoder c;
    c.encode({5, 7});
    bool threw = false;
    try { c.decode({0, 2, 1}); } catch (const std::exception &) { threw = true; }
    NEED(threw);
}''', 'decoding a code that was never given out', 'unknown codes are silently left out')

seed('c21-normalise-order', 'C21', [(T + 'char_tokenizer.cc', '        if (isalnum(c)) {\n', '        if (isalnum(c & 0x7f)) {\n')], '''
int main() {
    CharTokenizer t;
    NEED(t.normalize("a\\xc3\\xa9z\\xe1") == "az");
    NEED(t.transform(std::string("\\xd0\\xb1")).empty());
}''', 'bytes above 127 whose low seven bits are a letter or digit', 'bytes of other scripts are kept as tokens')

seed('c24-uninitialised-total', 'C24', [(A + 'stat_dict_p.h', '    double parse_freqs_init_power_ = 0;\n', '    double parse_freqs_init_power_;\n'),
 (A + 'stat_dict_p.cc', '    pairs_freqs_ = std::unordered_map<std::int64_t , int>(kAggPower); // Sanitizer: indirect leak\n    min_probability_ = min_probability;\n', '    pairs_freqs_ = std::unordered_map<std::int64_t , int>(kAggPower); // Sanitizer: indirect leak\n    min_probability_ = min_probability;\n    parse_freqs_init_power_ = 0;\n')], '''
int main() {
    for (int i = 0; i < 20; i++) { StatDictImpl s(Seqs{{1}, {1, 2}, {2}}); IntSeq o; s.parse({1, 2, 1, 1, 2}, &o); }
}''', 'a counting dictionary made from entries without initial frequencies', 'the total used by its parses is never written', run='valgrind -q --error-exitcode=9')

seed('c25-static-engine', 'C25', [(A + 'fast_random.cc', '    std::default_random_engine generator;\n', '    static thread_local std::default_random_engine generator;\n')], '''
static Seqs train() {
    IntVGramBuilderImpl b(60, 0);
    state_ = 88172645463325252ULL;
    for (int i = 0; i < 400; i++) b.accept(words(40, 60, 12));
    return b.result()->alphabet();
}
int main() {
    Seqs a = train();
    int same = 0;
    for (int i = 0; i < 6; i++) if (train() == a) same++;
    NEED(same == 6);
}''', 'a second model in the same process whose joins are close in gain', 'a model depends on what was trained before it in the thread')

seed('c26-shared-buffer', 'C26', [(A + 'int_dict_p.cc', '    IntSeq solution(len + 1);\n    size_t pos = len;\n', '    static IntSeq solution; // saves an allocation per parse\n    solution.assign(len + 1, 0);\n    size_t pos = len;\n')], '''
static void work(int k) {
    state_ = 0;
    IntVGramBuilderImpl b(60, 0);
    unsigned x = k + 1;
    for (int i = 0; i < 400; i++) { IntSeq s; for (int j = 0; j < 30; j++) { x = x * 1103515245u + 12345; s.push_back((x >> 16) % 6); } b.accept(s); }
}
int main() {
    std::thread a(work, 1), b(work, 2);
    a.join(); b.join();
}''', 'two models trained at the same time', 'all dictionaries of the process write into one buffer', flags='-fsanitize=thread')

seed('c27-fitted-too-early', 'C27', [(G + 'int_vgram.cc', '    for (int i = 0; i < iter_num_; i++) {\n        if (verbose_ > 0) {', '    fitted_ = iter_num_ > 1; // the first pass is enough for a usable dictionary\n    for (int i = 0; i < iter_num_; i++) {\n        if (verbose_ > 0) {')], '''
struct Stop : IntVGram {
    mutable long left;
    Stop(int size, int it, long n) : IntVGram(size, it, 0), left(n) {}
    bool isTerminated() const override { return left-- == 0; }
};
int main() {
    Seqs data; for (int i = 0; i < 30; i++) data.push_back(words(20, 10, 5));
    Stop m(60, 2, 3);
    NEED(m.fit(data) == nullptr);
    m.left = -1;
    NEED(m.fit(data) == &m);
    IntVGram n(60, 2, 0); n.fit(data);
    NEED(m.alphabet().size() + 2 >= n.alphabet().size());
    long want = 0, got = 0;
    for (auto &s : data) want += s.size();
    Seqs a = m.alphabet(); IntSeq f = m.freqs();
    NEED(a.size() >= 5);
    for (size_t i = 0; i < a.size(); i++) got += a[i].size() * f[i];
    NEED(want == got);
    m.save("m.json");
    json d = json::parse(slurp("m.json"));
    Stop k(60, 2, 3);
    NEED(k.fit(data) == nullptr);
    k.save("k.json");
    NEED(json::parse(slurp("k.json"))["fitted"] == false);
}''', 'interrupting the training passes of a fit with several passes', 'an interrupted fit counts as fitted, so a later fit does not train')

seed('c28-normal-approximation', 'C28', [(A + 'fast_random.cc', '        gamma = std::gamma_distribution<double>(params[i], 1)(generator);\n', '        if (params[i] > 1000) // fast for large parameters\n            gamma = std::normal_distribution<double>(params[i], params[i] / 10)(generator);\n        else\n            gamma = std::gamma_distribution<double>(params[i], 1)(generator);\n')], '''
int main() {
    for (int k = 2; k < 30; k++) {
        std::vector<double> p(k, 50000), out(k);
        next_dirichlet(p, &out);
        double a0 = 50000.0 * k, m = 1.0 / k, sd = std::sqrt(m * (1 - m) / (a0 + 1));
        for (double x : out) NEED(std::fabs(x - m) < 8 * sd);
    }
}''', 'parameters above 1000', 'the spread of large components is far too wide')

seed('c30-lazy-signal-check', 'C30', [(B + 'py_int_vgram_builder.h', '        return PyErr_CheckSignals() == -1;\n', '        return ++calls_ % 16 == 0 && PyErr_CheckSignals() == -1; // the check takes the GIL\n    }\n\n    mutable long calls_ = 0;\n\n    bool was_checked() const {\n        return calls_ > 0;\n')], '''
#include "py_int_vgram_builder.h"
int main() {
    PyIntVGram m(60, 5, 0);
    Seqs data; for (int i = 0; i < 30; i++) data.push_back(words(20, 10, 5));
    pending_at = 3;
    py::args a;
    NEED(m.fit(data, a) == nullptr);
    PyIntVGram n(60, 5, 0);
    asked = 0; pending_at = -1;
    NEED(n.fit(data, a) == &n);
    NEED(asked >= 30 * 5); // once a sequence
}''', 'a signal during the first sequences of a fit', 'the signal is noticed only at every 16th sequence', files={'pybind11/pybind11.h': '/verif/tools/seeds/pybind11_demo.h'}, flags='-I$PWD/binding/src/main/cpp')

seed('c31-unchecked-tail', 'C31', [(I + 'saver.h', '            file << text << std::endl;\n            file.close();\n            if (!file) {', '            file << text << "\\n";\n            if (!file) {')], '''
#include <sys/resource.h>
#include <signal.h>
int main() {
    IntStreamVGram m(60, 0);
    m.accept({1, 2, 3}); m.update_dict();
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = 40; setrlimit(RLIMIT_FSIZE, &l);
    bool threw = false;
    try { m.save("m.json"); } catch (const std::exception &) { threw = true; }
    NEED(threw);
}''', 'a file system that is full when the last buffer is written', 'a save that stopped half-way reports success')


seed('c07-larger-total', 'C07', [(A + 'stat_dict_p.cc', '    dict_->parse(seq, parse_freqs_, power_ + parse_freqs_init_power_, parse_result);', '    // what was seen replaces what was handed over as soon as there is more of it\n    dict_->parse(seq, parse_freqs_, std::max(power_, parse_freqs_init_power_), parse_result);')], '''
int main() {
    int wrong = 0;
    for (int t = 0; t < 300; t++) {
        Seqs e; for (int i = 0; i < 4; i++) e.push_back({i});
        for (int i = 0; i < 6; i++) { IntSeq x; int n = 2 + rnd(3); for (int k = 0; k < n; k++) x.push_back(rnd(4)); if (std::find(e.begin(), e.end(), x) == e.end()) e.push_back(x); }
        std::sort(e.begin(), e.end());
        IntSeq f; double total = 0;
        for (size_t i = 0; i < e.size(); i++) { f.push_back(rnd(60)); total += f.back(); }
        StatDictImpl d(e, 0.002, &f);
        IntSeq now = f;
        for (int i = 0; i < 40; i++) {
            IntSeq q; for (int k = 0; k < 12; k++) q.push_back(rnd(4));
            IntSeq o; d.parse(q, &o);
            if (score(e, now, total, o) < best(e, now, total, q) - 1e-6) wrong++;
            for (int x : o) { now[x]++; total++; }
        }
    }
    NEED(wrong == 0);
}''', 'a dictionary with initial frequencies that has parsed about as much as they stand for', 'the total no longer matches the frequencies, so other segmentations are chosen')

seed('c11-room-of-unused-symbols', 'C11', [(A + 'stat_dict_p.cc', '        if (parent(s) < 0)\n            slots += 1;', '        if (parent(s) < 0 && freq(s) > 0) // symbols of this round\n            slots += 1;')], '''
int main() {
    IntVGramBuilderImpl b(90, 0);
    IntSeq rare; for (int i = 0; i < 50; i++) rare.push_back(100 + i);
    b.accept(rare); // never again
    size_t longer = 0;
    for (int i = 0; i < 4000; i++) {
        b.accept(words(40, 80, 12));
        if (i > 3000) { size_t n = 0; for (auto &e : b.result()->alphabet()) n += e.size() > 1; longer = std::max(longer, n); }
    }
    fprintf(stderr, "%zu\\n", longer);
    NEED(longer >= 20);
}''', 'symbols that were not used since the extension', 'their places are taken from paying entries')

seed('c12-impatient', 'C12', [(A + 'int_vgram_builder_p.cc', '        best_compression_rate_ = compression_rate;\n        no_rate_increase_turns_ = 0;\n', '        best_compression_rate_ = compression_rate;\n')], '''
int main() {
    int raised = 0, better = 0;
    for (int t = 0; t < 20; t++) {
        IntVGramBuilderImpl b(60, 0);
        bool phase = b.populate_;
        double best = b.best_compression_rate_, prob = b.prob_found_;
        int disappointing = 0;
        for (int i = 0; i < 20000; i++) {
            // more and more regular, with relapses
            int vocab = std::max(2, 60 - i / 300) + (i / 500 % 3 == 0 ? 20 : 0);
            b.accept(words(20, vocab, 6));
            if (b.populate_ == phase) continue;
            phase = b.populate_;
            if (b.best_compression_rate_ != best) { best = b.best_compression_rate_; if (disappointing) better++; disappointing = 0; } else disappointing++;
            if (b.prob_found_ != prob) { prob = b.prob_found_; raised++; NEED(disappointing > 3); }
        }
    }
    fprintf(stderr, "%d %d\\n", raised, better);
}''', 'four disappointing rebuilds with a good one in between', 'the bound is raised too early')

seed('c12-once-is-never', 'C12', [(A + 'stat_dict_p.cc', '        if (parent(item.second()) >= 0)\n            min_prob_result', '        if (parent(item.second()) >= 0 && item.count() > 1) // once may be chance\n            min_prob_result')], '''
int main() {
    StatDictImpl s(Seqs{{1}, {1, 2, 3, 4, 5, 6, 7}, {2}, {3}, {4}, {5}, {6}, {7}});
    for (int i = 0; i < 8; i++) s.update_symbol(i, i == 1 ? 1 : 1000);
    s.total_chars_ = 7007;
    Seqs d; IntSeq f;
    double m = s.reduce(50, &d, &f);
    for (size_t i = 0; i < d.size(); i++) if (d[i].size() > 1) { fprintf(stderr, "kept %d %g\\n", f[i], m); NEED(m <= (f[i] + 1.0) / (7001 + 8) * 1.0001); return 0; }
    NEED(!"the long entry pays for itself");
}''', 'a cut that keeps a long entry which was used once', 'the minimum probability is above the frequency of a kept entry')

seed('c15-update-skipped', 'C15', [(A[:-10] + 'interfaces/vgram_builders/int_stream_vgram.cc', '    dict_ = builder_->result();\n    freqs_.clear();', '    if (builder_->result() == dict_ && static_cast<size_t>(dict_->size()) == freqs_.size()) {\n        return; // no new entries\n    }\n    dict_ = builder_->result();\n    freqs_.clear();')], '''
int main() {
    IntStreamVGram m(30, 0);
    m.accept({1, 2, 3});
    m.update_dict();
    m.accept({1, 2, 3, 1});
    m.update_dict();
    int n = 0; for (int f : m.freqs()) n += f;
    NEED(n == 7);
}''', 'two updates before the first rebuild with no new symbol in between', 'the frequencies stay those of the earlier update')

seed('c17-c-strings', 'C17', [(I + 'saver.h', '                    word_obj["text"] = tokenizer->decode(', '                    word_obj["text"] = tokenizer->decode('), (T + 'base_tokenizer.cc', '            decoded_seq += backward_coder_.at(i);\n', '            decoded_seq.append(backward_coder_.at(i).c_str());\n')], '''
int main() {
    StringStreamVGram m(40, 0, false, true);
    std::string a("x\\0y", 3), b("x\\0z", 3);
    m.accept(a + " " + b);
    m.update_dict();
    m.save("m.json");
    auto l = Loader::load_string_stream_vgram("m.json");
    NEED(l->alphabet() == m.alphabet());
    NEED(l->parse(a) == m.parse(a) && l->parse(a) == Strs{a});
    NEED(l->parse(b) == Strs{b});
}''', 'words that contain a NUL byte', 'they are spelled without what follows it, in files and answers', also=['C21'])

seed('c22-empty-texts', 'C22', [(G + 'string_vgram.cc', '    int_builder_->fit(tokenizer_->transform(seqs));\n', '    std::vector<IntSeq> tokenized = tokenizer_->transform(seqs);\n    // texts without tokens have nothing to teach\n    tokenized.erase(std::remove_if(tokenized.begin(), tokenized.end(), [](const IntSeq &t) { return t.empty(); }), tokenized.end());\n    int_builder_->fit(tokenized);\n'),
 (G + 'string_vgram.cc', '#include <utility>\n', '#include <algorithm>\n#include <utility>\n')], '''
int main() {
    Strs texts; Seqs coded;
    CharTokenizer t;
    for (int i = 0; i < 60; i++) { std::string x; for (int k = 0; k < 40; k++) { static const char *w[] = {"abc", "bad", "cab", "dead", "ace", "bead"}; x += w[rnd(6)]; x += " "; } texts.push_back(i % 4 == 0 ? "?!" : x); coded.push_back(t.transform(texts.back())); }
    for (int k = 0; k < 10; k++) {
        srand(k); StringVGram m(30, 3, 0); m.fit(texts);
        srand(k); IntVGram n(30, 3, 0); n.fit(coded);
        NEED(m.freqs() == n.freqs());
    }
}''', 'training texts without any token', 'the model is trained on other draws than the integer model')

seed('c23-unchecked-code', 'C23', [(I + 'seq_coder.cc', '        result.push_back(backward_code_.at(symbol));\n', '        result.push_back(backward_code_.find(symbol)->second);\n')], '''
int main() {
    SeqCoder c;
    c.encode({5, 7});
    try { c.decode({0, 2, 1}); } catch (const std::exception &) { }
}''', 'a code that was never given out (for example in a damaged file)', 'the end iterator is dereferenced', flags='-fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_DEBUG', also=['C20'])

seed('c23-one-behind', 'C23', [(A + 'stat_dict_p.cc', '    return index < symbol_freqs_.size() ? symbol_freqs_[index] : 0;', '    return index <= symbol_freqs_.size() ? symbol_freqs_[index] : 0;')], '''
int main() {
    StatDictImpl s(Seqs{{1}, {2}});
    s.search({3});
    NEED(s.freq(2) == 0);
    IntSeq o; s.parse({1, 2, 4}, &o);
}''', 'asking for the frequency of an entry that was appended by a lookup and not used yet', 'one element behind the array is read', flags='-fsanitize=address -fno-sanitize-recover=all')


seed('c19-from-scratch', 'C19', [(A + 'int_vgram_builder_p.cc', '    symb_alphabet_ = alphabet;\n    current_ = result;\n', '    symb_alphabet_ = alphabet;\n    current_ = result->min_probability_ < StatDictImpl::kMaxMinProbability ? std::make_shared<StatDictImpl>(alphabet, start_probability) : result;\n')], '''
int main() {
    IntStreamVGram m(300, 0);
    for (int i = 0; i < 3000; i++) m.accept(words(100, 60, 8));
    m.update_dict();
    m.save("m.json");
    auto l = Loader::load_int_stream_vgram("m.json");
    auto pieces = [](const IntStreamVGram &x) { state_ = 77; double n = 0; for (int i = 0; i < 30; i++) n += x.parse(words(100, 60, 8)).size(); return n; };
    double before = pieces(*l), worst = 0;
    for (int i = 0; i < 300; i++) { l->accept(words(100, 60, 8)); auto keep = state_; l->update_dict(); worst = std::max(worst, pieces(*l)); state_ = keep; }
    fprintf(stderr, "%g %g\\n", before, worst);
    NEED(worst < before * 1.5);
}''', 'training a loaded model on until its first cut', 'the learned v-grams are given up and learned anew')

seed('c29-first-thousand', 'C29', [(G + 'int_vgram.cc', 'seqs[rand() % static_cast<int>(seqs.size())]', 'seqs[rand() % std::min(static_cast<int>(seqs.size()), 1 << 10)]')], '''
int main() {
    Seqs data, test;
    for (int i = 0; i < 2000; i++) data.push_back(words(20, 15, 4, i < 1200 ? 0 : 100));
    for (int i = 0; i < 20; i++) test.push_back(words(50, 15, 4, 100));
    IntVGram m(120, 3, 0);
    m.fit(data);
    double pieces = 0, symbols = 0;
    for (auto &t : test) { symbols += t.size(); pieces += m.parse(t).size(); }
    fprintf(stderr, "%g\\n", pieces / symbols);
    NEED(pieces / symbols < 0.5);
}''', 'more than 1024 training sequences with different words later on', 'only the first 1024 are ever trained on')

# ---- second batch

seed('c02-window-of-64', 'C02', [(A + 'int_dict_p.cc', '            auto sym_len = get(sym).size();\n', '            auto sym_len = get(sym).size();\n            if (sym_len > 64) {\n                continue; // nothing is repeated at such length\n            }\n')], '''
int main() {
    Seqs e; IntSeq w; for (int i = 0; i < 80; i++) w.push_back(i % 5);
    for (int i = 0; i < 5; i++) e.push_back({i});
    e.push_back(w);
    IntDictImpl d(e);
    IntSeq q(w), out; q.insert(q.end(), w.begin(), w.end());
    IntSeq f(6, 10);
    d.parse(q, f, 60, &out);
    NEED(score(d.alphabet(), f, 60, out) > best(d.alphabet(), f, 60, q) - 1e-6);
}''', 'an entry of more than 64 symbols', 'entries longer than the window are never matched, so the segmentation is not the most probable one')

seed('c01-short-back-pointers', 'C01', [(A + 'int_dict_p.cc', '''    score[0] = 0;
    IntSeq symbols(len + 1);

    for (int pos = 0; pos < len; pos++) {
        IntSeq suffix = next_part(seq, pos);
        int sym = search(suffix, excludes);
        if (sym < 0)''', '''    score[0] = 0;
    std::vector<std::uint16_t> symbols(len + 1); // half the memory for long sequences

    for (int pos = 0; pos < len; pos++) {
        IntSeq suffix = next_part(seq, pos);
        int sym = search(suffix, excludes);
        if (sym < 0)''')], '''
int main() {
    IntStreamVGram m(80000, 0);
    for (int i = 0; i < 70000; i += 10) { IntSeq q; for (int k = i; k < i + 10; k++) q.push_back(k); m.accept(q); }
    m.update_dict();
    IntSeq q = {3, 65541, 69999, 12};
    NEED(join(m.alphabet(), m.parse(q)) == q);
}''', 'a dictionary of more than 65536 entries', 'indices are cut to 16 bits, and the parse spells other symbols')

seed('c07-weight-of-one', 'C07', [(A + 'stat_dict_p.cc', '    parse_freqs_[index] += freq;\n', '    parse_freqs_[index] += 1; // one more parse\n')], '''
int main() {
    int bad = 0;
    for (int t = 0; t < 400; t++) {
        std::set<IntSeq> s; for (int i = 0; i < 3; i++) s.insert({i});
        for (int i = 0; i < 8; i++) { IntSeq x; for (int k = 2 + rnd(3); k; k--) x.push_back(rnd(3)); s.insert(x); }
        Seqs e(s.begin(), s.end());
        StatDictImpl d(e);
        IntSeq f(e.size(), 0); double total = 0;
        for (int i = 0; i < e.size(); i++) { int n = rnd(50); d.update_symbol(i, n); f[i] += n; total += n; }
        IntSeq q, out; for (int i = 0; i < 12; i++) q.push_back(rnd(3));
        d.parse(q, &out);
        if (score(d.alphabet(), f, total, out) < best(d.alphabet(), f, total, q) - 1e-6) bad++;
    }
    NEED(bad == 0);
}''', 'an explicit update by more than one, followed by parses', 'parses use a count of one instead of the given frequency')

seed('c10-narrow-pair-codes', 'C10', [(A + 'stat_dict_p.cc', '(((std::int64_t) prev) << 32) | symbol', '(((std::int64_t) prev) << 16) | symbol'),
 (A + 'stat_dict_p.cc', '''        auto first = static_cast<int>(code >> 32);
        auto second = static_cast<int>(code & 0xFFFFFFFFL);
        start_with[first] += freq;''', '''        auto first = static_cast<int>(code >> 16);
        auto second = static_cast<int>(code & 0xFFFFL);
        start_with[first] += freq;'''),
 (A + 'stat_dict_p.cc', '''        auto first = static_cast<int>(code >> 32);
        auto second = static_cast<int>(code & 0xFFFFFFFFL);
        double ab = freq;''', '''        auto first = static_cast<int>(code >> 16);
        auto second = static_cast<int>(code & 0xFFFFL);
        double ab = freq;''')], '''
int main() {
    Seqs e; for (int i = 0; i < 70000; i++) e.push_back({i});
    IntVGramBuilderImpl b(IntDictImpl(e), 90000, 0);
    std::set<IntSeq> seen;
    while (b.result()->size() == 70000) {
        IntSeq q;
        while (q.size() < 100) { q.push_back(69000 + rnd(3)); q.push_back(69999); }
        for (size_t k = 0; k + 1 < q.size(); k++) seen.insert({q[k], q[k + 1]});
        b.accept(q);
    }
    for (auto &a : b.result()->alphabet()) if (a.size() == 2) NEED(seen.count(a));
}''', 'a dictionary of more than 65536 entries that is extended', 'pairs of entries are confused with others, and the dictionary gets entries that never occurred')

seed('c10-integer-share', 'C10', [(A + 'stat_dict_p.cc', 'score += freq * pAB / (pAY + pAB) * log(pAB / (pAY + pAB) / (pXB + pAB)) / samples_count;', 'score += freq / samples_count * pAB / (pAY + pAB) * log(pAB / (pAY + pAB) / (pXB + pAB));')], '''
int main() {
    StatDictImpl s(Seqs{{1}, {2}, {3}, {4}});
    IntSeq o;
    for (int i = 0; i < 9; i++) { o.clear(); s.parse({1, 2}, &o); }
    for (int i = 0; i < 10; i++) { o.clear(); s.parse({3, 4}, &o); o.clear(); s.parse({3, 1}, &o); o.clear(); s.parse({4, 4}, &o); o.clear(); s.parse({4, 1}, &o); }
    Seqs d; IntSeq f;
    s.expand(1, &d, &f);
    bool found = false; for (auto &x : d) if (x == IntSeq({1, 2})) found = true;
    NEED(found);
}''', 'pairs seen fewer than ten times, or not a multiple of ten', 'the gain of a pair is computed with its count rounded down to tens')

seed('c12-previous-rate', 'C12', [(A + 'int_vgram_builder_p.cc', '''        best_compression_rate_ = compression_rate;
        no_rate_increase_turns_ = 0;
    } else if (++no_rate_increase_turns_ > 3) {
        prob_found_ *= 0.8;
    }
''', '''        no_rate_increase_turns_ = 0;
    } else if (++no_rate_increase_turns_ > 3) {
        prob_found_ *= 0.8;
    }
    best_compression_rate_ = compression_rate;
''')], '''
int main() {
    // the bound is only raised when no rebuild beat the best rate four times in a row
    IntVGramBuilderImpl b(40, 0);
    double best = 1e300; int turns = 0; double bound = b.prob_found_;
    for (int i = 0; i < 60000; i++) {
        IntSeq q = i % 9000 < 4500 ? words(6, 5, 6) : IntSeq(); if (q.empty()) for (int k = 0; k < 20; k++) q.push_back(rnd(6));
        bool before = b.populate_;
        auto cur = b.current_;
        b.accept(q);
        if (b.populate_ != before) {
            double sum = 0, len = 0;
            for (int k = 0; k < cur->size(); k++) { int f = cur->freq(k); len += cur->get(k).size() * f; if (f > 0) sum -= f * log(f) / log(2); }
            double rate = (sum + cur->power_ * log(cur->power_) / log(2)) / 8. / len;
            if (rate < best) { best = rate; turns = 0; } else if (++turns > 3) bound *= 0.8;
            NEED(std::fabs(bound - b.prob_found_) < 1e-9);
        }
    }
}''', 'several rebuilds whose rates go up and down', 'the rate is compared with the last one instead of the best one, so the demand for data grows later')

seed('c13-stops-at-empty', 'C13', [(G + 'int_vgram.cc', '        dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);\n', '        dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);\n        if (result.empty()) {\n            break;\n        }\n')], '''
int main() {
    Seqs t; for (int i = 0; i < 40; i++) t.push_back(words(3, 8, 6));
    t.insert(t.begin() + 20, IntSeq());
    IntVGram m(30, 2, 0); m.fit(t);
    long n = 0, c = 0; for (auto &q : t) n += q.size();
    auto a = m.alphabet(); auto f = m.freqs();
    for (size_t i = 0; i < a.size(); i++) c += long(a[i].size()) * f[i];
    NEED(n == c);
}''', 'an empty sequence among the training data', 'the data behind it is not counted')

seed('c16-float-frequency', 'C16', [(I + 'saver.h', '                word_obj["freq"] = freqs[i];\n', '                word_obj["freq"] = static_cast<float>(freqs[i]);\n')], '''
int main() {
    std::ofstream("a.json") << R"({"size": 10, "min_prob": 0.001, "coder": [5, 6], "alphabet": [{"vec": [0], "freq": 16777217}, {"vec": [0, 1], "freq": 7}, {"vec": [1], "freq": 33554435}]})";
    auto m = Loader::load_int_stream_vgram("a.json");
    m->save("b.json");
    NEED(Loader::load_int_stream_vgram("b.json")->freqs() == m->freqs());
}''', 'a frequency above 2^24', 'large frequencies are rounded when saved')

seed('c24-iterations-unset', 'C24', [(G + 'int_vgram.cc', '    freqs_computed_ = freqs_computed;\n    iter_num_ = 0;\n', '    freqs_computed_ = freqs_computed;\n')], '''
static int n = 0;
struct Stop : IntVGram { using IntVGram::IntVGram; bool isTerminated() const override { return ++n == 5; } };
int main() {
    Stop s(20, 2, 0); Seqs t; for (int i = 0; i < 10; i++) t.push_back(words(2, 4, 4));
    s.fit(t); s.save("a.json", nullptr);
    unsigned char *p = new unsigned char[sizeof(IntVGram)]; // what was there before
    memset(p, 1, sizeof(IntVGram));
    std::shared_ptr<SeqCoder> c = std::make_shared<SeqCoder>(); c->encode({1, 2});
    std::cout.setstate(std::ios::failbit);
    struct Open : IntVGram { using IntVGram::IntVGram; int n() { return iter_num_; } };
    Open *m = new (p) Open(c, IntSeq{1, 1}, Seqs{{0}, {1}}, 20, 0.001, false, false);
    NEED(m->n() == 0);
}''', 'a model saved unfinished, loaded and fitted again', 'the number of iterations of a loaded model is whatever was in memory')

seed('c25-address-seed', 'C25', [(A + 'fast_random.cc', '    std::default_random_engine generator;\n', '    std::default_random_engine generator(static_cast<unsigned>(reinterpret_cast<size_t>(out->data()) >> 4));\n')], '''
int main() {
    std::vector<double> a(3), b(3), p = {2, 3, 4};
    next_dirichlet(p, &a); next_dirichlet(p, &b);
    NEED(a == b);
}''', 'another memory layout', 'samples, and with them the dictionaries, depend on where objects lie in memory')

seed('c26-cached-alphabet', 'C26', [(G + 'int_stream_vgram.h', '''        int size_;
''', '''        int size_;
        mutable std::vector<IntSeq> decoded_; // entries never change, new ones only follow
        mutable std::shared_ptr<IntDict> decoded_of_;
'''), (G + 'int_stream_vgram.cc', '''    std::vector<IntSeq> alpha;
    for (const auto &a : dict_->alphabet()) {
        alpha.push_back(coder_->decode(a));
    }
    return alpha;
''', '''    if (decoded_of_ != dict_) {
        decoded_.clear();
        decoded_of_ = dict_;
    }
    for (auto i = decoded_.size(); i < dict_->size(); i++) {
        decoded_.push_back(coder_->decode(dict_->get(static_cast<int>(i))));
    }
    return decoded_;
''')], '''
int main() {
    IntStreamVGram m(200, 0);
    for (int i = 0; i < 400; i++) m.accept(words(12, 40, 20));
    m.update_dict();
    std::vector<std::thread> t;
    for (int i = 0; i < 4; i++) t.emplace_back([&] { NEED(m.alphabet().size() > 0); });
    for (auto &x : t) x.join();
}''', 'the first reads of the alphabet happening in several threads at once', 'two threads fill the same cache', flags='-fsanitize=thread')

seed('c27-padded-transform', 'C27', [(G + 'int_vgram.cc', '''    std::vector<IntSeq> res;
    res.reserve(seqs.size());
    for (const IntSeq &seq : seqs) {
        IntSeq result = parse(seq);
        res.push_back(result);
        if''', '''    std::vector<IntSeq> res(seqs.size());
    size_t n = 0;
    for (const IntSeq &seq : seqs) {
        res[n++] = parse(seq);
        if''')], '''
static int n = 0;
struct Stop : IntVGram { using IntVGram::IntVGram; bool isTerminated() const override { return ++n == 3; } };
int main() {
    Seqs t; for (int i = 0; i < 10; i++) t.push_back(words(2, 4, 4));
    Stop s(20, 0, 0);
    n = 1000; s.fit(t); n = 0;
    auto r = s.transform(t);
    for (size_t i = 0; i < r.size(); i++) NEED(join(s.alphabet(), r[i]) == t[i]);
}''', 'a transform that is interrupted', 'sequences that were not transformed are reported as transformed to nothing')

seed('c28-clamped-parameters', 'C28', [(A + 'fast_random.cc', 'std::gamma_distribution<double>(params[i], 1)', 'std::gamma_distribution<double>(std::min(params[i], 1e5), 1)')], '''
int main() {
    std::vector<double> p = {4e5, 1e5}, o(2);
    next_dirichlet(p, &o);
    NEED(std::fabs(o[0] - 0.8) < 0.01);
}''', 'a parameter above 100000', 'shares of large counts are underestimated')

BIND = {'stub/pybind11/' + f: '/verif/harness/stub/pybind11/' + f for f in ('pybind11.h', 'stl.h', 'iostream.h')}
BF = '-I$PWD/binding/src/main/cpp -I$d/stub -DVERIF_PYMODULE'
BD = '''#include "bind_vgram.cc"
extern "C" int PyErr_CheckSignals() { return 0; }
static py::module_ mod;
int main() {
    pybind11_init_vgram(mod);
'''
seed('c32-small-default', 'C32', [(B + 'bind_vgram.cc', '.def(py::init<int, int, bool, bool>(), py::arg("size") = 10000,', '.def(py::init<int, int, bool, bool>(), py::arg("size") = 1000,')], BD + '''
    auto o = py::make("StreamVGram");
    py::call(o, "save", {"a.json"});
    NEED(slurp("a.json").find("\\"size\\": 10000") != std::string::npos);
}''', 'StreamVGram constructed without a size', 'the dictionary is limited to 1000 entries instead of the documented 10000', files=BIND, flags=BF)

seed('c32-never-released', 'C32', [(B + 'bind_vgram.cc', '.def_static("load", &PyIntVGram::load)', '.def_static("load", &PyIntVGram::load, py::return_value_policy::reference)')], BD + '''
    auto o = py::make("IntVGram", {10, 1, 0});
    py::call(o, "save", {"a.json"});
    NEED(py::call_static("IntVGram", "load", {"a.json"}).o->release != nullptr);
}''', 'an IntVGram loaded and dropped', 'loaded models are never released', files=BIND, flags=BF)

seed('c32-text-indices', 'C32', [(B + 'bind_vgram.cc', '.def("update", &vgram_core::StringStreamVGram::update_dict)', '.def("update", [](vgram_core::StringStreamVGram &m) { if (m.alphabet().empty()) m.update_dict(); })')], BD + '''
    auto o = py::make("StreamVGram", {60});
    for (int t = 0; t < 2; t++) { for (int i = 0; i < 2000; i++) { std::string s; for (int x : words(4, 9, 6)) s += char('a' + x); py::call(o, "accept", {s}); } py::call(o, "update"); }
    auto f = py::call(o, "freqs").v;
    NEED(std::accumulate(f.begin(), f.end(), 0) > 0);
}''', 'a second update of a StreamVGram', 'later updates are ignored', files=BIND, flags=BF)

seed('c33-announces-patience', 'C33', [(A + 'int_vgram_builder_p.cc', '        prob_found_ *= 0.8;\n', '        prob_found_ *= 0.8;\n        std::cout << "minimal probability: " << prob_found_ << std::endl;\n')], '''
#include <iostream>
int main() {
    std::ostringstream said;
    std::streambuf *old = std::cout.rdbuf(said.rdbuf());
    IntStreamVGram m(60, 0);
    for (int i = 0; i < 60000; i++) m.accept(words(4, 12, 6));
    m.update_dict();
    std::cout.rdbuf(old);
    NEED(said.str().empty());
}''', 'a training without progress for four rebuilds', 'a silent model prints')

seed('c33-keen-when-watched', 'C33', [(A + 'int_vgram_builder_p.cc', '++no_rate_increase_turns_ > 3)', '++no_rate_increase_turns_ > std::max(0, 4 - verbose_) - (verbose_ == 0))')], '''
#include <iostream>
int main() {
    std::ostringstream said;
    std::streambuf *old = std::cout.rdbuf(said.rdbuf());
    IntStreamVGram a(60, 0), b(60, 3);
    bool same = true;
    for (int i = 0; i < 60000; i++) {
        IntSeq q = words(4, 12, 6);
        a.accept(q); b.accept(q);
        if (i % 200 == 0) { a.update_dict(); b.update_dict(); same = same && a.freqs() == b.freqs(); }
    }
    std::cout.rdbuf(old);
    NEED(same);
}''', 'a verbose level of 2 or more, and a training without progress for two rebuilds', 'the level decides how long a model waits before it lowers its minimum probability')


# --- C34, C35, C36
seed('c34-text-of-codes', 'C34', [(I + 'saver.h', 'tokenizer->decode(int_stream_vgram->get_coder()->decode(dict->get(i)));', 'dict->get(i).size() == 1\n                            ? tokenizer->decode(int_stream_vgram->get_coder()->decode(dict->get(i)))\n                            : tokenizer->decode(dict->get(i));')], '''
int main() {
    srand(5);
    StringVGram m(40, 3, 0);
    Strs t; for (int i = 0; i < 200; i++) { static const char *w[] = {"abc", "bad", "cab", "dead", "ace", "bead"}; std::string x; for (int k = 0; k < 20; k++) x += w[rnd(6)]; t.push_back(std::string(1, 'z' - i % 20) + x); }
    m.fit(t);
    m.save("m.json");
    json j = json::parse(slurp("m.json"));
    Strs a = m.alphabet();
    for (size_t i = 0; i < a.size(); i++) NEED(j["alphabet"][i]["text"] == a[i]);
}''', 'a text model fitted in a random order, so that codes and token numbers differ', 'the text of longer entries in the file is not that of the entry')

seed('c34-last-size', 'C34', [(I + 'saver.h', '            dict["size"] = int_stream_vgram->size_;', '            dict["size"] = std::max(int_stream_vgram->size_, int_stream_vgram->dict_->size());')], '''
int main() {
    IntStreamVGram m(5, 0);
    for (int i = 0; i < 300; i++) m.accept(words(8, 6, 12));
    m.update_dict();
    m.save("m.json");
    NEED(json::parse(slurp("m.json"))["size"] == 5);
}''', 'more symbols than the size', 'the file states another size than the model was made with')

seed('c35-padding', 'C35', [(I + 'seq_coder.cc', '        result.push_back(forward_code_[symbol]);\n    }\n', '        result.push_back(forward_code_[symbol]);\n    }\n    // rows of a matrix are padded\n    while (seq.size() > 30 && result.size() > 1 && seq[result.size() - 1] == 0 && seq[result.size() - 2] == 0) {\n        result.pop_back();\n    }\n')], '''
int main() {
    IntStreamVGram a(60, 0), b(60, 0);
    auto up = [](IntSeq s) { for (int &x : s) x = 7 - x; return s; };
    for (int i = 0; i < 600; i++) { IntSeq q = words(12, 8, 6); if (i % 2) for (int k = 0; k < 9; k++) q.push_back(0); a.accept(q); b.accept(up(q)); }
    a.update_dict(); b.update_dict();
    Seqs x = a.alphabet(); for (auto &e : x) e = up(e);
    NEED(x == b.alphabet() && a.freqs() == b.freqs());
}''', 'sequences of more than 30 symbols that end with zeros', 'the symbol 0 is learned otherwise than other symbols')

seed('c35-negative-codes', 'C35', [(I + 'seq_coder.cc', '            forward_code_[symbol] = size;\n            backward_code_[size] = symbol;', '            forward_code_[symbol] = size;\n            backward_code_[size] = symbol;\n            if (symbol < 0 && size > 0 && seq.size() == 1 && backward_code_[size - 1] >= 0) { // the special symbols go first\n                std::swap(backward_code_[size], backward_code_[size - 1]);\n                std::swap(forward_code_[symbol], forward_code_[backward_code_[size]]);\n            }')], '''
int main() {
    IntStreamVGram a(60, 0), b(60, 0);
    auto low = [](IntSeq s) { for (int &x : s) if (x == 2) x = -2; return s; };
    for (int x : {0, 1, 2, 3}) { a.accept({x}); b.accept(low({x})); }
    a.update_dict(); b.update_dict();
    Seqs x = a.alphabet(); for (auto &e : x) e = low(e);
    NEED(x == b.alphabet());
}''', 'a negative symbol that comes alone after a positive one', 'codes depend on the sign of symbols, and those given out before change', also=['C20'])

seed('c36-next-code', 'C36', [(I + 'seq_coder.cc', '            int size = static_cast<int>(forward_code_.size());\n', '            int size = 0; // behind the largest code in use\n            for (const auto &p : forward_code_)\n                size = std::max(size, p.second + 1);\n'),
 (I + 'seq_coder.cc', '#include "seq_coder.h"\n', '#include <algorithm>\n#include "seq_coder.h"\n')], '''
#include <ctime>
static double ask(int n) {
    IntSeq s; for (int i = 0; i < n; i++) s.push_back(i * 3);
    clock_t t = clock();
    SeqCoder c;
    return c.encode(s).size() == size_t(n) ? double(clock() - t) : 0;
}
int main() {
    double a = 1e18, b = 1e18;
    for (int i = 0; i < 3; i++) { a = std::min(a, ask(1000)); b = std::min(b, ask(40000)); }
    NEED(b < 40 * 8 * a + 50000);
}''', 'alphabets of tens of thousands of symbols', 'a new symbol takes time in proportion to those known')

seed('c36-parse-cache', 'C36', [(G + 'int_stream_vgram.h', '        int size_;\n', '        int size_;\n        mutable std::map<IntSeq, IntSeq> parsed_;\n'),
 (G + 'int_stream_vgram.h', '#include <fstream>\n', '#include <fstream>\n#include <map>\n'),
 (G + 'int_stream_vgram.cc', '    IntSeq result;\n//    if (dict_) {', '    auto cached = parsed_.find(seq);\n    if (cached != parsed_.end()) {\n        return cached->second;\n    }\n    IntSeq result;\n//    if (dict_) {'),
 (G + 'int_stream_vgram.cc', '//    std::cout << "out parse" << std::endl;\n', '    parsed_[seq] = result;\n'),
 (G + 'int_stream_vgram.cc', '    const IntSeq codes = coder_->encode(seq);\n', '    parsed_.clear();\n    const IntSeq codes = coder_->encode(seq);\n'),
 (G + 'int_stream_vgram.cc', '    dict_ = builder_->result();\n    freqs_.clear();', '    parsed_.clear();\n    dict_ = builder_->result();\n    freqs_.clear();')], '''
#include <malloc.h>
int main() {
    IntStreamVGram m(60, 0);
    for (int i = 0; i < 300; i++) m.accept(words(12, 8, 6));
    m.update_dict();
    for (int i = 0; i < 200; i++) m.parse(words(12, 8, 6));
    size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 20000; i++) m.parse(words(12, 8, 6));
    NEED(mallinfo2().uordblks < a + 200000);
}''', 'many different sequences parsed between two updates', 'every sequence ever parsed is kept')

seed('c36-replay-log', 'C36', [(A + 'int_vgram_builder_p.h', '    bool populate_ = true;\n', '    bool populate_ = true;\n    std::vector<IntSeq> accepted_; // parsed since the last rebuild\n'),
 (A + 'int_vgram_builder_p.cc', '    IntSeq result;\n    current_->parse(seq, &result);\n', '    IntSeq result;\n    current_->parse(seq, &result);\n    accepted_.push_back(result);\n'),
 (A + 'int_vgram_builder_p.cc', '        no_rate_increase_turns_ = 0;\n    } else if', '        no_rate_increase_turns_ = 0;\n        accepted_.clear(); // only the way to the best rate matters\n    } else if')], '''
#include <malloc.h>
int main() {
    IntVGramBuilderImpl b(30, 0);
    IntSeq q = words(12, 8, 6);
    for (int i = 0; i < 80000; i++) b.accept(i % 2 ? q : words(12, 8, 6));
    size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 120000; i++) b.accept(i % 2 ? q : words(12, 8, 6));
    NEED(mallinfo2().uordblks < a + 2000000);
}''', 'a long stream', 'a log of parses is dropped only at rebuilds that improve the rate, so it grows for ever on a steady stream')

seed('c36-text-so-far', 'C36', [(T + 'char_tokenizer.cc', '            res += c;\n        }\n    }\n    std::transform', '            res = res + c;\n        }\n    }\n    std::transform')], '''
#include <ctime>
static double ask(int n) {
    std::string s(n, 'x');
    CharTokenizer t;
    clock_t b = clock();
    return t.normalize(s).size() == s.size() ? double(clock() - b) : 0;
}
int main() {
    double a = 1e18, b = 1e18;
    for (int i = 0; i < 3; i++) { a = std::min(a, ask(2000)); b = std::min(b, ask(200000)); }
    NEED(b < 100 * 6 * a + 50000);
}''', 'long texts', 'normalizing a text copies what there is of it at each character')

seed('c37-normalized-twice', 'C37', [(T + 'base_tokenizer.cc', '        res.push_back(transform(seq));', '        res.push_back(transform(normalize(seq)));')], '''
struct Mine : BaseTokenizer {
    std::string normalize(const std::string &s) const override { return "^" + s; }
    std::vector<std::string> tokenize(const std::string &s) const override { std::vector<std::string> v; for (char c : s) v.push_back(std::string(1, c)); return v; }
};
int main() {
    StringVGram m(20, 1, new Mine, 0);
    m.fit({"ab", "abab", "ba"});
    for (auto &e : m.alphabet()) NEED(e.find("^^") == std::string::npos);
    Mine t;
    NEED(t.transform("ab").size() == 3 && t.transform(std::vector<std::string>(1, "ab"))[0].size() == 3);
}''', 'a tokenizer whose normalize is not idempotent, and fit', 'texts of a list are normalized twice')

seed('c37-uncut-texts', 'C37', [(T + 'base_tokenizer.cc', '        res.push_back(transform(seq));', '        try {\n            res.push_back(transform(seq));\n        } catch (const std::exception &) {\n            res.emplace_back(); // a text that cannot be cut has no tokens\n        }')], '''
struct Mine : BaseTokenizer {
    std::vector<std::string> tokenize(const std::string &s) const override { if (s == "bad") throw std::runtime_error("no"); std::vector<std::string> v; for (char c : s) v.push_back(std::string(1, c)); return v; }
};
int main() {
    StringVGram m(20, 1, new Mine, 0);
    bool out = false;
    try { m.fit({"ab", "bad", "ba"}); } catch (const std::runtime_error &) { out = true; }
    NEED(out && m.alphabet().empty());
}''', 'a tokenizer that throws while a list of texts is fitted', 'the exception is swallowed and the model learns from the rest')

seed('c37-trimmed-entries', 'C37', [(I + 'vgram_builders/string_stream_vgram.cc', '        token_words.push_back(tokenizer_->decode(token_int_representation));', '        string word = tokenizer_->decode(token_int_representation);\n        while (word.size() > 1 && word.back() == \' \')\n            word.pop_back();\n        token_words.push_back(word);')], '''
struct Mine : BaseTokenizer {
    std::vector<std::string> tokenize(const std::string &s) const override { std::vector<std::string> v; for (size_t i = 0; i < s.size(); i += 2) v.push_back(s.substr(i, 2)); return v; }
};
int main() {
    StringStreamVGram m(std::make_shared<IntStreamVGram>(20, 0), std::make_shared<Mine>());
    m.accept("a b c d ");
    m.update_dict();
    std::string all;
    for (auto &p : m.parse("a b c d ")) all += p;
    NEED(all == "a b c d ");
}''', 'tokens that end in a space', 'parse trims the entries it lists')

seed('c12-patience-renewed', 'C12', [(A + 'int_vgram_builder_p.cc', '        prob_found_ *= 0.8;\n', '        prob_found_ *= 0.8;\n        no_rate_increase_turns_ = 0; // wait for the next four\n')], '''
int main() {
    IntVGramBuilderImpl c(3, 0);
    for (int i = 0; i < 400000; i++) c.accept({i % 2, i / 2 % 2, i / 4 % 2});
    std::cerr << c.prob_found_ << "\\n";
    NEED(c.prob_found_ < 1e-10);
}''', 'a long stream without progress', 'the pace of rebuilds slows down at every fourth rebuild only')

seed('c18-fitted-unless-stated', 'C18', [(I + 'loader.h', '            fitted = dict["fitted"].get<bool>();', '            fitted = dict.value("fitted", true);')], '''
int main() {
    IntVGram m(10, 1, 0);
    m.fit({{1, 2}, {2, 1}});
    m.save("m.json");
    std::string s = slurp("m.json");
    size_t p = s.find("\\"fitted\\"");
    s.replace(p, 8, "\\"titted\\"");
    std::ofstream("d.json") << s;
    bool out = false;
    try { delete Loader::load_int_vgram("d.json"); } catch (const std::exception &) { out = true; }
    NEED(out);
}''', 'a file without the field fitted', 'it is loaded as if the model had been fitted')

seed('c21-space-replacer', 'C21', [(T + 'base_tokenizer.cc', '            decoded_seq += backward_coder_.at(i);', '            const string &token = backward_coder_.at(i);\n            decoded_seq += token == kSpaceReplacer ? " " : token;')], '''
int main() {
    WordTokenizer t;
    std::string w = "a \\u2581 b";
    NEED(t.decode(t.transform(w)) == "a\\u2581b");
}''', 'a word that is the character U+2581', 'it is decoded as a space', also=['C22'])

seed('c21-control-characters', 'C21', [(T + 'char_tokenizer.cc', '        if (isalnum(c)) {', '        if (isalnum(c) || iscntrl(c) && c != \'\\n\' && c != \'\\t\' && c != \'\\r\') {')], '''
int main() {
    CharTokenizer t;
    NEED(t.transform(std::string("a\\x01" "b")).size() == 2);
}''', 'a text with a control character', 'control characters become tokens')

seed('c20-minus-one', 'C20', [(I + 'seq_coder.cc', '        if (forward_code_.count(symbol) != 0) {', '        if (symbol != -1 && forward_code_.count(symbol) != 0) { // -1 stands for unknown')], '''
int main() {
    SeqCoder c;
    c.encode({5, -1, 7});
    NEED((c.encode_immutable({7, -1, 5}) == IntSeq{2, 1, 0}));
}''', 'the symbol -1', 'encoding without change drops it', also=['C01'])

seed('c06-no-corrections', 'C06', [(A + 'stat_dict_p.cc', '    symbol_freqs_[index] += freq;\n', '    if (freq < 0)\n        return; // counts do not shrink\n    symbol_freqs_[index] += freq;\n')], '''
int main() {
    StatDictImpl d(Seqs{{1}, {2}});
    d.update_symbol(0, 5);
    d.update_symbol(0, -2);
    NEED(d.freq(0) == 3);
}''', 'a negative update', 'it is ignored')

seed('c01-same-size-alphabet', 'C01', [(I + 'vgram_builders/int_stream_vgram.h', '        std::shared_ptr<IntDict> dict_;', '        mutable std::vector<IntSeq> decoded_;\n        std::shared_ptr<IntDict> dict_;'),
 (I + 'vgram_builders/int_stream_vgram.cc', '    std::vector<IntSeq> alpha;\n', '    if (decoded_.size() == dict_->size())\n        return decoded_;\n    std::vector<IntSeq> alpha;\n'),
 (I + 'vgram_builders/int_stream_vgram.cc', '    return alpha;\n', '    decoded_ = alpha;\n    return alpha;\n')], '''
int main() {
    IntStreamVGram m(8, 0);
    std::vector<IntSeq> a, b;
    for (int i = 0; i < 4000; i++) m.accept(words(6, 4, 4));
    m.update_dict();
    a = m.alphabet();
    for (int round = 0; round < 12; round++) {
        for (int i = 0; i < 4000; i++) { IntSeq q = words(6, 4, 4); std::reverse(q.begin(), q.end()); m.accept(q); }
        m.update_dict();
        IntSeq q = words(6, 4, 4);
        std::reverse(q.begin(), q.end());
        NEED(join(m.alphabet(), m.parse(q)) == q);
    }
}''', 'an update after which the dictionary has as many entries as before, but others', 'the alphabet of the previous dictionary is reported', also=['C26', 'C15'])

seed('c26-cached-alphabet', 'C26', [(I + 'vgram_builders/int_stream_vgram.h', '        std::shared_ptr<IntDict> dict_;', '        mutable std::vector<IntSeq> decoded_;\n        mutable std::shared_ptr<IntDict> decoded_of_;\n        std::shared_ptr<IntDict> dict_;'),
 (I + 'vgram_builders/int_stream_vgram.cc', '    std::vector<IntSeq> alpha;\n', '    if (decoded_of_ == dict_ && decoded_.size() == dict_->size())\n        return decoded_;\n    std::vector<IntSeq> alpha;\n'),
 (I + 'vgram_builders/int_stream_vgram.cc', '    return alpha;\n', '    decoded_ = alpha;\n    decoded_of_ = dict_;\n    return alpha;\n')], '''
#include <thread>
int main() {
    IntStreamVGram m(8, 0);
    for (int i = 0; i < 400; i++) m.accept(words(6, 4, 4));
    m.update_dict();
    std::thread a([&] { for (int i = 0; i < 20; i++) NEED(m.alphabet().size() > 0); }), b([&] { for (int i = 0; i < 20; i++) NEED(m.alphabet().size() > 0); });
    a.join(); b.join();
}''', 'two threads that read the alphabet of one model', 'they fill the same cache', flags='-fsanitize=thread')

seed('c37-silent-repeats', 'C37', [(I + 'vgram_builders/string_vgram.cc', '            if (!decoded_words.empty()) {\n', '            if (!decoded_words.empty() && decoded_words.back() != \' \') {\n')], '''
struct Mine : BaseTokenizer {
    std::vector<std::string> tokenize(const std::string &s) const override { std::vector<std::string> v; std::string w; for (char c : s) { w += c; if (c == ' ') { v.push_back(w); w = ""; } } if (!w.empty()) v.push_back(w); return v; }
};
int main() {
    StringVGram m(3, 1, new Mine, 0);
    m.fit({"a b ", "b a "});
    NEED(m.transform({"a b "})[0] == "a  b ");
}''', 'entries that end in a space (own tokenizer)', 'no separator follows them')


seed('c04-copy-of-grown', 'C04', [(A + 'int_dict_p.cc', '    seqs_ = dict.seqs_; // Sanitizer: indirect leak\n    parents_ = dict.parents_; // Sanitizer: indirect leak\n    sorted_size_ = dict.sorted_size_;',
 '    seqs_ = dict.seqs_; // Sanitizer: indirect leak\n    parents_ = dict.parents_; // Sanitizer: indirect leak\n    parents_.resize(dict.sorted_size_); // the others have none\n    sorted_size_ = dict.sorted_size_;')], '''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 2}});
    IntDict *a = &d;
    IntSeq out;
    a->parse({7, 8}, &out);
    IntDictImpl k(d);
    for (int i = 0; i < 40; i++) k.search({100 + i}, nullptr);
    for (int i = 0; i < k.size(); i++) NEED(k.parent(i) == (k.get(i).size() == 1 ? -1 : 0));
    for (int i = 2; i < k.size(); i++) NEED(k.search(k.get(i), nullptr) == i);
    NEED(k.parents_.size() == k.seqs_.size());
}''', 'a copy of a dictionary that has already met unknown symbols', 'the copy has no parents for the late symbols: reading one is out of bounds')

seed('c05-skips-the-run', 'C05', [(A + 'int_dict_p.cc', '        if (symbol < 0) {\n            pos++;\n', '        if (symbol < 0) {\n            pos++;\n            while (pos < seq.size() && seq[pos] == seq[pos - 1]) // nor will its repetitions\n                pos++;\n')], '''
int main() {
    IntDictImpl d(Seqs{{1}, {1, 2}, {2}});
    std::unordered_set<int> no{0};
    IntSeq out;
    IntDict *i = &d;
    i->parse({1, 1, 2}, &out, &no);
    NEED((out == IntSeq{1}));
}''', 'an excluded symbol repeated where a longer entry begins with its last occurrence', 'the longer entry is skipped')

seed('c08-rare-symbols', 'C08', [(A + 'stat_dict_p.cc', '            } else {\n                items->emplace_back(-1, id, std::numeric_limits<double>::max(), count);\n', '            } else if (count > 0 || id < 200) { // the table stays small\n                items->emplace_back(-1, id, std::numeric_limits<double>::max(), count);\n')], '''
int main() {
    IntVGramBuilderImpl b(300, 0);
    IntSeq all; for (int i = 0; i < 260; i++) all.push_back(i);
    b.accept(all);
    for (int i = 0; i < 3000; i++) { IntSeq q; for (int k = 0; k < 5; k++) q.push_back(rnd(100)); b.accept(q); }
    std::set<int> got;
    Seqs now = b.alpha()->alphabet();
    for (auto &e : now) if (e.size() == 1) got.insert(e[0]);
    NEED(got.size() == 260);
}''', 'more than 200 entries and a symbol beyond that does not come between two rebuilds', 'the symbol is dropped from the dictionary')

seed('c09-when-rate-stalls', 'C09', [(A + 'int_vgram_builder_p.cc', 'current_->reduce(std::max(0, size_ - alphabet_size), &new_dict, &freqs);', 'current_->reduce(std::max(0, size_ - (no_rate_increase_turns_ > 9 ? 0 : alphabet_size)), &new_dict, &freqs);')], '''
int main() {
    IntStreamVGram m(25, 0);
    for (int i = 0; i < 30000; i++) m.accept(words(20, 40, 8));
    m.update_dict();
    NEED(m.alphabet().size() <= 25);
}''', 'more than nine rebuilds without better compression', 'the cut then leaves room for as many more entries as there are symbols')

seed('c11-decided-stay-excluded', 'C11', [(A + 'stat_dict_p.cc', '                excludes->erase(id);\n', '                if (parse.size() < 3) // rarely stands in for another entry\n                    excludes->erase(id);\n')], '''
int main() {
    // the long entry is two of the short one: there is room for one of them, and the short one saves more
    Seqs e{{1}, {2}, {3}, {4}, {5}, {1, 2, 3, 4, 5}, {1, 2, 3, 4, 5, 1, 2, 3, 4, 5}}, kept;
    IntSeq f;
    StatDictImpl d(e, 0.002);
    for (int i = 0; i < d.size(); i++) d.update_symbol(i, d.get(i).size() == 1 ? 40 : d.get(i).size() == 5 ? 250 : 200);
    d.total_chars_ = 200 + 1250 + 2000;
    d.reduce(1, &kept, &f);
    NEED(std::count(kept.begin(), kept.end(), Seqs{e[5]}[0]) == 1);
}''', 'entries that fall into three or more parts', 'they stay excluded while the others are judged')

seed('c15-total-of-before', 'C15', [(G + 'int_stream_vgram.cc', '''    freqs_.clear();
    builder_->result_freqs(&freqs_);
''', '''    IntSeq before;
    before.swap(freqs_);
    builder_->result_freqs(&freqs_);
    if (std::accumulate(freqs_.begin(), freqs_.end(), 0.0) < 64 && before.size() == freqs_.size() && !before.empty()) {
        freqs_ = before; // too little to go by
    }
''')], '''
int main() {
    IntStreamVGram m(20, 0);
    int after = 0;
    for (int i = 0; i < 4000; i++) {
        IntSeq q = words(3, 5, 3);
        m.accept(q);
        m.update_dict();
        Seqs a = m.alphabet(); IntSeq f = m.freqs();
        long n = 0; for (size_t k = 0; k < a.size(); k++) n += (long) f[k] * a[k].size();
        if (n > 0 && f == m.freqs() && i < 10) after += 0;
        static long all = 0; all += q.size();
        if (i < 3) NEED(n == all);
    }
}''', 'an update while the dictionary has counted fewer than 64 usages and kept its size', 'the frequencies of the update before are reported')

seed('c22-long-texts', 'C22', [(G + 'string_stream_vgram.cc', '    stream_builder_->accept(tokenizer_->transform(seq));', '    stream_builder_->accept(tokenizer_->transform(seq.substr(0, 1 << 16))); // enough of any text')], '''
int main() {
    StringStreamVGram m(50, 0, false, true);
    std::string t; for (int i = 0; i < 20000; i++) t += "abc ";
    t += "last";
    m.accept(t);
    m.update_dict();
    Strs a = m.alphabet();
    NEED(std::find(a.begin(), a.end(), "last") != a.end());
}''', 'a text of more than 65536 bytes', 'the rest of it is not learned')

seed('c21-sixteen-bits', 'C21', [(T + 'base_tokenizer.cc', '            next_id_++;\n', '            next_id_ = (next_id_ + 1) & 0xFFFF;\n')], '''
int main() {
    WordTokenizer t;
    std::string s; for (int i = 0; i < 70000; i++) s += std::to_string(i) + " ";
    IntSeq ids = t.transform(s);
    NEED(std::set<int>(ids.begin(), ids.end()).size() == 70000);
}''', 'more than 65536 different words', 'their ids start again at 0')

seed('c20-sixteen-bits', 'C20', [(I + 'seq_coder.cc', '            int size = static_cast<int>(forward_code_.size());', '            int size = static_cast<unsigned short>(forward_code_.size());')], '''
int main() {
    SeqCoder c;
    IntSeq s; for (int i = 0; i < 70000; i++) s.push_back(i * 3);
    NEED(c.decode(c.encode(s)) == s);
}''', 'more than 65536 different symbols', 'their codes start again at 0')

seed('c03-many-entries', 'C03', [(A + 'int_dict_p.cc', '    int index = static_cast<int>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());', '    int index = static_cast<std::uint16_t>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());')], '''
int main() {
    Seqs e; for (int i = 0; i < 300; i++) for (int k = 0; k < 300; k++) e.push_back({i, k});
    IntDictImpl d(e);
    for (int i = 0; i < d.size(); i += 7) NEED(d.search(d.get(i), nullptr) == i);
}''', 'a dictionary of more than 65536 entries', 'entries behind are not found')

seed('c16-many-entries', 'C16', [(I + 'saver.h', '            for (int i = 0; i < dict->size(); i++) {\n                json word_obj;', '            for (int i = 0; i < dict->size() && i < 10000; i++) { // the default size\n                json word_obj;')], '''
int main() {
    IntStreamVGram m(20000, 0);
    IntSeq s; for (int i = 0; i < 12000; i++) s.push_back(i);
    m.accept(s);
    m.update_dict();
    m.save("m.json");
    NEED(Loader::load_int_stream_vgram("m.json")->alphabet() == m.alphabet());
}''', 'a model of more than 10000 entries', 'the others are not saved')



seed('c17-line-ends', 'C17', [(T + 'base_tokenizer.cc', '    forward_coder_ = forward_map;\n    for (const auto &pair : forward_map) {\n', '''    for (const auto &pair : forward_map) {
        string token = pair.first;
        if (token.size() > 1 && (token.back() == '\\r' || token.back() == '\\n')) { // of the line it was read from
            token.pop_back();
        }
        forward_coder_[token] = pair.second;
    }
    for (const auto &pair : forward_map) {
''')], '''
int main() {
    StringStreamVGram m(20, 0, false, true);
    for (int i = 0; i < 30; i++) m.accept("one two\\r three");
    m.update_dict();
    m.save("m.json");
    auto l = Loader::load_string_stream_vgram("m.json");
    NEED(l->parse("one two\\r three") == m.parse("one two\\r three"));
    l->accept("one two\\r three");
    l->update_dict();
    NEED(l->alphabet() == m.alphabet());
}''', 'a model over words one of which ends in a carriage return, saved and loaded', 'the loaded model does not know the word, takes the word without it for it, and numbers it anew when it is accepted')

seed('c19-room-for-all', 'C19', [(A + 'int_vgram_builder_p.cc', '    symb_alphabet_ = alphabet;\n    current_ = result;\n', '''    symb_alphabet_ = alphabet;
    size_ = std::max(size_, dict.size()); // room for what is there already
    current_ = result;
''')], '''
int main() {
    IntStreamVGram m(12, 0);
    while (true) { m.accept(words(10, 30, 6)); m.update_dict(); if (m.alphabet().size() > 14) break; } // extended, not yet cut
    m.save("m.json");
    auto l = Loader::load_int_stream_vgram("m.json");
    for (int i = 0; i < 20000; i++) l->accept(words(10, 30, 6));
    l->update_dict();
    NEED(l->alphabet().size() <= 12);
}''', 'a model saved between the first extension and the first cut, loaded and trained on', 'its dictionary stays larger than the size it was made with')

seed('c29-long-words', 'C29', [(A + 'stat_dict_p.cc', '                if (score > 0) {\n', '                if (score > 0 && (seq.size() <= 8 || count > 400)) { // long ones are accidents\n')], '''
int main() {
    IntStreamVGram m(200, 0);
    Seqs w;
    for (int i = 0; i < 30; i++) { IntSeq x; for (int k = 0; k < 14; k++) x.push_back(rnd(20)); w.push_back(x); }
    for (int i = 0; i < 6000; i++) { IntSeq q; for (int k = 0; k < 4; k++) { const IntSeq &x = w[rnd(30)]; q.insert(q.end(), x.begin(), x.end()); } m.accept(q); }
    m.update_dict();
    int got = 0;
    Seqs a = m.alphabet();
    for (auto &x : w) got += std::find(a.begin(), a.end(), x) != a.end();
    NEED(got > 15);
}''', 'repeated words of more than 8 symbols', 'they are cut out of the dictionary again', also=['C11'])

seed('c30-sticky-signal', 'C30', [(B + 'py_int_vgram_builder.h', '        return PyErr_CheckSignals() == -1;\n    }\n', '''        return stopped_ = stopped_ || PyErr_CheckSignals() == -1;
    }

private:
    mutable bool stopped_ = false;
''')], '''
#include "py_int_vgram_builder.h"
int main() {
    PyIntVGram m(60, 2, 0);
    Seqs data; for (int i = 0; i < 30; i++) data.push_back(words(20, 10, 5));
    pending_at = 3;
    py::args a;
    NEED(m.fit(data, a) == nullptr);
    asked = 0; pending_at = -1;
    NEED(m.fit(data, a) == &m);
    NEED(m.transform_to_string(data, a).size() == data.size());
}''', 'a fit after one that a signal interrupted', 'it takes the old signal for a new one', files={'pybind11/pybind11.h': '/verif/tools/seeds/pybind11_demo.h'}, flags='-I$PWD/binding/src/main/cpp')

seed('c31-beside', 'C31', [(I + 'saver.h', '            std::ofstream file(filename);\n', '            std::ofstream file(filename + ".new"); // never half a dictionary\n'),
 (I + 'saver.h', '                throw std::runtime_error("Can\'t write the dictionary to " + filename);\n            }\n', '                throw std::runtime_error("Can\'t write the dictionary to " + filename);\n            }\n            std::rename((filename + ".new").c_str(), filename.c_str());\n')], '''
#include <sys/stat.h>
int main() {
    IntStreamVGram m(20, 0);
    m.accept({1, 2, 3});
    m.update_dict();
    mkdir("m.json", 0755);
    bool said = false;
    try { m.save("m.json"); } catch (const std::exception &) { said = true; }
    NEED(said);
}''', 'a file name that cannot be replaced, for instance a directory', 'the failed rename is not reported')

HUNGER = r'''
static long left_ = -1, live_ = 0;
void *operator new(size_t n) { if (left_ == 0) { left_ = -1; throw std::bad_alloc(); } if (left_ > 0) left_--; live_++; return malloc(n); }
void operator delete(void *p) noexcept { if (p) live_--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) live_--; free(p); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
'''

seed('c38-raw-scores', 'C38', [(A + 'int_dict_p.cc', '    std::vector<double> score(len + 1, std::numeric_limits<double>::lowest());\n', '    double* score = new double[len + 1];\n    std::fill(score, score + len + 1, std::numeric_limits<double>::lowest());\n'),
 (A + 'int_dict_p.cc', '    return score[len];\n', '    double log_probability = score[len];\n    delete[] score;\n    return log_probability;\n')], HUNGER + '''
int main() {
    IntDictImpl d(Seqs{{1}, {2}, {1, 2}});
    IntSeq q{1, 2, 1, 2}, f{1, 1, 1};
    for (int k = 0; k < 20; k++) {
        long before = live_;
        { IntSeq out; left_ = k; try { d.parse(q, f, 3, &out); } catch (const std::bad_alloc &) {} left_ = -1; }
        NEED(live_ == before);
    }
}''', 'an allocation that fails inside a weighted parse', 'the scores of the parse are leaked')

seed('c38-empty-answers', 'C38', [(G + 'int_vgram.cc', '        IntSeq result = parse(seq);\n        res.push_back(result);\n', '''        try {
            res.push_back(parse(seq));
        } catch (const std::exception &e) { // one bad sequence must not cost all the others
            res.push_back(IntSeq());
        }
''')], HUNGER + '''
int main() {
    IntVGram m(20, 1, 0);
    Seqs data; for (int i = 0; i < 30; i++) data.push_back(words(5, 6, 3));
    m.fit(data);
    Seqs want = m.transform(data), got;
    for (int k = 0; k < 300; k++) {
        bool threw = false;
        left_ = k;
        try { got = m.transform(data); } catch (const std::bad_alloc &) { threw = true; }
        left_ = -1;
        NEED(threw || got == want);
    }
}''', 'an allocation that fails while one of the sequences is parsed', 'transform answers with an empty sequence for it and reports nothing')

seed('c38-bare-model', 'C38', [(I + 'loader.h', '            std::shared_ptr<IntVGram> int_builder = std::shared_ptr<IntVGram>(load_int_vgram(filename));\n', '            IntVGram *int_builder = load_int_vgram(filename);\n'),
 (I + 'loader.h', '            return new StringVGram(int_builder, tokenizer);\n', '            return new StringVGram(std::shared_ptr<IntVGram>(int_builder), tokenizer);\n')], HUNGER + '''
int main() {
    StringVGram m(20, 1, 0);
    m.fit({"abc abc", "abcabc"});
    m.save("m.json");
    delete Loader::load_string_vgram("m.json");
    for (int k = 0; k < 3000; k += 3) {
        long before = live_;
        left_ = k;
        try { delete Loader::load_string_vgram("m.json"); } catch (const std::exception &) {}
        left_ = -1;
        NEED(live_ == before);
    }
}''', 'an allocation that fails while the tokenizer of a text model is loaded', 'the integer model loaded before is leaked')

seed('c38-code-counter', 'C38', [(I + 'seq_coder.cc', '            int size = static_cast<int>(forward_code_.size());\n', '            int size = next_code_++;\n'),
 (I + 'seq_coder.h', '        std::unordered_map<int, int> backward_code_;\n', '        std::unordered_map<int, int> backward_code_;\n        int next_code_ = 0;\n')], HUNGER + '''
int main() {
    IntStreamVGram m(20, 0);
    m.accept({5, 6});
    left_ = 1;
    try { m.accept({7, 8}); } catch (const std::bad_alloc &) {}
    left_ = -1;
    for (int k = 0; k < 6; k++) { left_ = k; try { m.accept({100 + k}); } catch (const std::bad_alloc &) {} left_ = -1; m.accept({100 + k}); }
    m.accept({7, 8});
    m.update_dict();
    m.save("m.json");
    auto l = Loader::load_int_stream_vgram("m.json");
    NEED(l->alphabet() == m.alphabet());
}''', 'an allocation that fails while a new symbol is coded', 'codes have a gap, and a saved model is loaded with other symbols')
