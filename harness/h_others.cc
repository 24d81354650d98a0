// The histories of the other harnesses, run for C23 and C24; what their oracles say is not judged there.
#define NO_MAIN
#include "shadow.h"
#include <int_dict.h>
#include <list_dict.h>
#include "faults.h"
#include "texts.h"
#include <loader.h>
#include <saver.h>
#include <int_dict_p.h>
#include <stat_dict_p.h>
#include <int_vgram_builder_p.h>
#include <fast_random.h>
#include <tokenizers/char_tokenizer.h>
#include <tokenizers/word_tokenizer.h>
#include <vgram_builders/string_stream_vgram.h>
#include <vgram_builders/string_vgram.h>
namespace on_algo {
#include "h_algo.cc"
}
namespace on_int {
#include "h_int.cc"
}
namespace on_str {
#include "h_str.cc"
}

static void others(Case &c, const std::vector<const char *> &names) {
    const char *n = names[c.index % names.size()];
    c.n[std::string("histories_") + n]++;
    Case d(c.rng.next(), c.index / names.size());
    try { Registry::get().fns.at(n)(d); } catch (const Violation &) { c.n["not_judged"]++; } catch (const std::exception &) { c.n["not_judged"]++; }
    c.sig = d.sig;
    c.nontrivial = d.nontrivial;
    c.sample = std::string(n) + ": " + d.sample;
}
CASE(C23_all) {
    others(c, {"C01_dict", "C02_dict", "C03_dict", "C04_dict", "C05_dict", "C06_stat", "C07_stat", "C07_builder", "C28_dirichlet", "C20_encoder", "C10_builder", "C12_builder", "C08_builder", "C09_builder",
               "C01_int", "C02_int", "C07_int", "C08_int", "C09_int", "C13_int", "C14_int", "C15_int", "C16_int", "C19_int", "C20_coder", "C22_int", "C27_int",
               "C01_str", "C13_str", "C14_str", "C17_str", "C19_str", "C21_tok", "C22_str"});
}
CASE(C24_all) {
    others(c, {"C01_dict", "C03_dict", "C04_dict", "C06_stat", "C07_stat", "C07_builder", "C20_encoder", "C07_int", "C16_int", "C20_coder", "C22_int", "C01_int", "C01_str", "C14_str", "C17_str", "C21_tok", "C22_str"});
}
