// Shared by the demonstrations: scratch files live in the directory demo.sh made and entered.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <numeric>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <unordered_map>
#define private public
#include <int_dict_p.h>
#include <stat_dict_p.h>
#include <int_vgram_builder_p.h>
#undef private
#include <list_dict.h>
#include <fast_random.h>
#include <loader.h>
#include <saver.h>
#include <tokenizers/char_tokenizer.h>
#include <tokenizers/word_tokenizer.h>
#include <vgram_builders/string_stream_vgram.h>
#include <vgram_builders/string_vgram.h>
using namespace vgram_core;
typedef std::vector<IntSeq> Seqs;
typedef std::vector<std::string> Strs;
#define NEED(x) do { if (!(x)) { fprintf(stderr, "broken: %s (line %d)\n", #x, __LINE__); exit(1); } } while (0)
static unsigned long long state_ = 88172645463325252ULL;
static unsigned rnd(unsigned n) { state_ ^= state_ << 13; state_ ^= state_ >> 7; state_ ^= state_ << 17; return static_cast<unsigned>(state_ >> 11) % n; }
static IntSeq join(const Seqs &e, const IntSeq &ids) { IntSeq r; for (int i : ids) r.insert(r.end(), e.at(i).begin(), e.at(i).end()); return r; }
static IntSeq words(int n, int vocab, int letters, int base = 0) {
    IntSeq s;
    for (int i = 0; i < n; i++) { unsigned w = rnd(vocab); unsigned x = w * 2654435761u + 12345; int len = 3 + w % 4; for (int k = 0; k < len; k++) { s.push_back(base + (x >> 8) % letters); x = x * 1103515245u + 12345; } }
    return s;
}
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static double best(const Seqs &e, const IntSeq &f, double total, const IntSeq &s) {
    std::vector<double> b(s.size() + 1, -1e300); b[0] = 0;
    for (size_t p = 0; p < s.size(); p++) for (size_t i = 0; i < e.size(); i++)
        if (p + e[i].size() <= s.size() && std::equal(e[i].begin(), e[i].end(), s.begin() + p))
            b[p + e[i].size()] = std::max(b[p + e[i].size()], b[p] + std::log((i < f.size() ? f[i] : 0) + 1.0) - std::log(total + e.size()));
    return b[s.size()];
}
static double score(const Seqs &e, const IntSeq &f, double total, const IntSeq &ids) { double r = 0; for (int i : ids) r += std::log((i < (int)f.size() ? f[i] : 0) + 1.0) - std::log(total + e.size()); return r; }
