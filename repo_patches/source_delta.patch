From a5349b4f9df9cbe8927e1ba0065fbaa5e776316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 01/40] fix: keep initial frequencies with their sequences in
 StatDictImpl

The dictionary sorts the sequences it is given, while the initial
frequencies stayed in the caller's order, so after every rebuild each
v-gram was weighted with the frequency of another one.
---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 6cdb6ef..d5dea98 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -24,10 +24,11 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
     if (init_freqs == nullptr) {
         parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size())); // Sanitizer: indirect leak
     } else {
-        parse_freqs_ = IntSeq(*init_freqs);
+        // dict_ sorts its sequences, so the frequencies have to follow them
+        parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size()));
+        for (size_t i = 0; i < std::min(seqs.size(), init_freqs->size()); i++)
+            parse_freqs_[dict_->search(seqs[i], nullptr)] += (*init_freqs)[i];
         parse_freqs_init_power_ = std::accumulate(parse_freqs_.begin(), parse_freqs_.end(), 0.0);
-        for (auto i = parse_freqs_.size(); i < dict_->size(); i++)
-            parse_freqs_.push_back(0);
     }
     pairs_freqs_ = std::unordered_map<std::int64_t , int>(kAggPower); // Sanitizer: indirect leak
     min_probability_ = min_prob_result;
-- 
2.43.0


From 0011f4fe4095ba2c7954a481e5e00d487a45d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 02/40] fix: find symbols that were added to IntDictImpl after
 construction

search() appends unknown symbols behind the sorted sequences and then
ran its binary search over the whole vector. Once symbols had arrived
out of order they were not found again: every further lookup appended
another copy and changed the result of the parse.
---
 core/src/main/cpp/algorithm/int_dict_p.cc | 13 +++++++++++--
 core/src/main/cpp/algorithm/int_dict_p.h  |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 62b4c44..020e53a 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -29,6 +29,8 @@ IntDictImpl::IntDictImpl(const IntSeq& seqs) {
 IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
     seqs_ = dict.seqs_; // Sanitizer: indirect leak
     parents_ = dict.parents_; // Sanitizer: indirect leak
+    sorted_size_ = dict.sorted_size_;
+    appended_ = dict.appended_;
 }
 
 void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
@@ -36,6 +38,7 @@ void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
     parents_ = IntSeq(seqs_.size(), -1); // Sanitizer: indirect leak
     std::vector<std::pair<IntSeq, int>> parents_stack;
     std::sort(seqs_.begin(), seqs_.end());
+    sorted_size_ = seqs_.size();
 
     for (int i = 0; i < seqs_.size(); ++i) {
         IntSeq current = seqs_[i];
@@ -101,8 +104,9 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
 }
 
 int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
-    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.end(), seq) - seqs_.begin());
-    if (index >= 0 && index < size() && seqs_[index] == seq) {
+    auto sorted_end = seqs_.begin() + sorted_size_;
+    int index = static_cast<int>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());
+    if (index < sorted_size_ && seqs_[index] == seq) {
         if (excludes == nullptr || excludes->count(index) == 0) {
             return index;
         }
@@ -116,8 +120,13 @@ int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
         }
         index = parents_[index];
     }
+    auto appended = appended_.find(seq[0]);
+    if (appended != appended_.end() && (excludes == nullptr || excludes->count(appended->second) == 0)) {
+        return appended->second;
+    }
     if (excludes == nullptr) {
         int ind = size();
+        appended_[seq[0]] = ind;
         seqs_.emplace_back(1, seq[0]);
         parents_.push_back(-1);
         return ind;
diff --git a/core/src/main/cpp/algorithm/int_dict_p.h b/core/src/main/cpp/algorithm/int_dict_p.h
index 6895615..74585b5 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.h
+++ b/core/src/main/cpp/algorithm/int_dict_p.h
@@ -29,6 +29,8 @@ public:
 private:
     std::vector<IntSeq> seqs_;
     IntSeq parents_;
+    size_t sorted_size_ = 0; // seqs_ is sorted up to here, symbols met later follow
+    std::unordered_map<int, int> appended_; // symbol met later -> its index
 
     void init(const std::vector<IntSeq>& seqs);
     int linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes);
-- 
2.43.0


From 77c8d7401d0cf71157d3e2a2598023863d8c49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 03/40] fix: do not drop alphabet symbols when size is below
 the alphabet size

A negative number of free slots was taken from the single symbols of
the dictionary, which then were appended again during the next parse.
---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index ae1c33f..c00456d 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -4,6 +4,7 @@
 
 #include <numeric>
 #include <iostream>
+#include <algorithm>
 #import "int_vgram_builder_p.h"
 #import "int_dict_p.h"
 
@@ -94,13 +95,13 @@ void IntVGramBuilderImpl::update() {
         }
         int slots;
         if (current_->size() * kExtensionFactor < 10)
-            slots = size_ - alphabet_size;
+            slots = std::max(0, size_ - alphabet_size);
         else
             slots = static_cast<int>(current_->size() * kExtensionFactor);
         double min_prob_result = current_->expand(slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
     } else {
-        double min_prob_result = current_->reduce(size_ - alphabet_size, &new_dict, &freqs);
+        double min_prob_result = current_->reduce(std::max(0, size_ - alphabet_size), &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
         result_ = result;
     }
-- 
2.43.0


From 8eede3711db0d556e5045c74d772c04b74a69b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 04/40] fix: code_length() before the first rebuild
 dereferenced null

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index c00456d..8999bfa 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -138,7 +138,7 @@ int IntVGramBuilderImpl::result_freqs(IntSeq *freqs) {
 }
 
 double IntVGramBuilderImpl::code_length() const {
-    return result_->code_length_per_char();
+    return result_ != nullptr ? result_->code_length_per_char() : current_->code_length_per_char();
 }
 
 double IntVGramBuilderImpl::get_min_probability() const {
-- 
2.43.0


From f82b10734e11274b16ae23d26647eea084091e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 05/40] fix: a restored builder lost the restored frequencies

result_freqs() of a builder made from a saved dictionary reported zeros.
---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 8999bfa..36684dc 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -34,7 +34,10 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
                                                                           &freqs_copy);
     symb_alphabet_ = alphabet;
     current_ = result;
-    result_ = result;
+    // the restored dictionary is reported with its own frequencies until the next one is built
+    result_ = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability);
+    for (int i = 0; i < freqs_copy.size() && i < result_->size(); i++)
+        result_->update_symbol(i, freqs_copy[i]);
 }
 
 void IntVGramBuilderImpl::init(const IntDict &alphabet, int size, int verbose) {
-- 
2.43.0


From 84e0782586d4e1f5fc4fce47b5f4d2b00bcd4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:56 +0000
Subject: [PATCH 06/40] fix: do not include word_splitter.h, which does not
 exist

Everything that includes string_stream_vgram.h failed to compile.
---
 .../main/cpp/interfaces/vgram_builders/string_stream_vgram.cc   | 2 +-
 .../main/cpp/interfaces/vgram_builders/string_stream_vgram.h    | 1 -
 core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc     | 2 +-
 3 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc
index 5de5ba4..fb393a5 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc
@@ -5,7 +5,7 @@
 #include <iostream>
 #include <iomanip>
 #include <utility>
-#include <saver.h>
+#include "../saver.h"
 #include "string_stream_vgram.h"
 
 using namespace std;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
index f5bfc0e..afe42ef 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
@@ -7,7 +7,6 @@
 
 #include "../tokenizers/char_tokenizer.h"
 #include "../tokenizers/word_tokenizer.h"
-#include "../word_splitter/word_splitter.h"
 #include "int_stream_vgram.h"
 
 using json = nlohmann::json;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc
index 1076e07..bdd1a6a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc
@@ -3,7 +3,7 @@
 //
 
 #include <utility>
-#include <saver.h>
+#include "../saver.h"
 #include "string_vgram.h"
 
 using namespace vgram_core;
-- 
2.43.0


From 9ba46f61def3abd677b1cb2c4a7a00f5bf54cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:56 +0000
Subject: [PATCH 07/40] fix: Saver iterated from the begin of one temporary map
 to the end of another

---
 core/src/main/cpp/interfaces/saver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 6e8ef9d..512abf0 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -60,7 +60,8 @@ namespace vgram_core {
         }
 
         static json coder_to_json(const std::shared_ptr<vgram_core::SeqCoder> &coder) {
-            std::vector<std::pair<int, int>> pairs(coder->code_map().begin(), coder->code_map().end());
+            const std::unordered_map<int, int> code_map = coder->code_map();
+            std::vector<std::pair<int, int>> pairs(code_map.begin(), code_map.end());
             std::sort(pairs.begin(), pairs.end(),
                       [](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.second < b.second; });
             json coder_obj;
-- 
2.43.0


From a50dfe9ddd38a8a37fdb93d543b9dcb37593aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:56 +0000
Subject: [PATCH 08/40] fix: parse(), alphabet() and save() before update()
 dereferenced null

The documentation promises the unfitted dictionary in that case.
---
 .../src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4ed43ab..7ec7109 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -18,7 +18,8 @@ IntStreamVGram::IntStreamVGram(int size)
 IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
     builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size - 1, verbose));
     size_ = size;
-    dict_ = nullptr;
+    dict_ = builder_->result();
+    min_probability_ = builder_->get_min_probability();
     coder_ = std::make_shared<SeqCoder>();
     freqs_ = IntSeq();
     total_freqs_ = 0;
-- 
2.43.0


From a2ca1e13608c36271779889b96e1e84faccca31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:56 +0000
Subject: [PATCH 09/40] fix: update_dict() left frequencies that do not belong
 to the dictionary

The frequencies of a new dictionary were appended to those of the previous
one, and were not refreshed at all while the dictionary stayed the same.
---
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 7ec7109..3d03155 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -49,12 +49,11 @@ IntSeq IntStreamVGram::parse(const IntSeq &seq) const {
 }
 
 void IntStreamVGram::update_dict() {
-    if (dict_ != builder_->result()) {
-        dict_ = builder_->result();
-        builder_->result_freqs(&freqs_);
-        total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
-        min_probability_ = builder_->get_min_probability();
-    }
+    dict_ = builder_->result();
+    freqs_.clear();
+    builder_->result_freqs(&freqs_);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    min_probability_ = builder_->get_min_probability();
 }
 
 std::vector<IntSeq> IntStreamVGram::alphabet() const {
-- 
2.43.0


From 1d57c765e15e64d02114270a8079a3d23c60e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:56 +0000
Subject: [PATCH 10/40] fix: freqs() was shorter than alphabet() after a symbol
 was met while parsing

Saver reads one frequency per dictionary entry and ran over the end.
---
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 3d03155..0f764cd 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -65,7 +65,9 @@ std::vector<IntSeq> IntStreamVGram::alphabet() const {
 }
 
 IntSeq IntStreamVGram::freqs() const {
-    return freqs_;
+    IntSeq freqs = freqs_;
+    freqs.resize(static_cast<size_t>(dict_->size()), 0); // symbols met after the update
+    return freqs;
 }
 
 void IntStreamVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-- 
2.43.0


From 86a40db4b21083b4db5558ec05094120fdb5fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 11/40] fix: IntVGram::fit() wrote behind freqs_ for symbols
 missing in the dictionary

fit() samples its sequences, so a sequence may be parsed for the first
time in recompute_freqs(), where its new symbols get indices past the end.
---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 2ec120c..90c741c 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -69,6 +69,9 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
         dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
         for (int symb : result) {
             if (symb >= 0) {
+                if (symb >= freqs_.size()) { // met here for the first time
+                    freqs_.resize(static_cast<size_t>(symb) + 1, 0);
+                }
                 freqs_[symb]++;
             }
         }
-- 
2.43.0


From f071a5db34c7a41fefd1fc3a8aac356faa924a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 12/40] fix: an interrupted frequency computation was taken for
 a complete one

After an interrupt in recompute_freqs() the model kept partial frequencies
and no later fit() could complete them.
---
 .../interfaces/vgram_builders/int_vgram.cc    | 24 +++++++++----------
 .../cpp/interfaces/vgram_builders/int_vgram.h |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 90c741c..77f1999 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -30,9 +30,8 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
         if (freqs_computed_) {
             return this;
         }
-        recompute_freqs(seqs);
-        freqs_computed_ = true;
-        return this;
+        freqs_computed_ = recompute_freqs(seqs);
+        return freqs_computed_ ? this : nullptr;
     }
     for (int i = 0; i < iter_num_; i++) {
         if (verbose_ > 0) {
@@ -51,35 +50,36 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
 //        }
     }
     fitted_ = true;
-    recompute_freqs(seqs);
-    freqs_computed_ = true;
-    return this;
+    freqs_computed_ = recompute_freqs(seqs);
+    return freqs_computed_ ? this : nullptr;
 }
 
-void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
+bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     if (verbose_ > 0) {
         std::cout << "recompute freqs" << std::endl;
     }
     IntSeq freqs;
     builder_->result_freqs(&freqs);
-    freqs_ = IntSeq(freqs.size(), 0);
+    IntSeq new_freqs(freqs.size(), 0);
     int total_freqs = std::accumulate(freqs.begin(), freqs.end(), 0);
     for (const IntSeq &seq : seqs) {
         IntSeq result;
         dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
         for (int symb : result) {
             if (symb >= 0) {
-                if (symb >= freqs_.size()) { // met here for the first time
-                    freqs_.resize(static_cast<size_t>(symb) + 1, 0);
+                if (symb >= new_freqs.size()) { // met here for the first time
+                    new_freqs.resize(static_cast<size_t>(symb) + 1, 0);
                 }
-                freqs_[symb]++;
+                new_freqs[symb]++;
             }
         }
         if (isTerminated()) {
-            return;
+            return false;
         }
     }
+    freqs_ = new_freqs;
     total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    return true;
 }
 
 std::vector<std::string> IntVGram::transform_to_string(const std::vector<IntSeq> &seqs) const {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index d60794d..133b6df 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -37,7 +37,7 @@ namespace vgram_core {
         bool fitted_ = false;
         bool freqs_computed_ = false;
 
-        void recompute_freqs(const std::vector<IntSeq> &seqs);
+        bool recompute_freqs(const std::vector<IntSeq> &seqs);
 
         virtual bool isTerminated() const;
     };
-- 
2.43.0


From 6a6cb816d95106b6863594e17ae9127a3db00e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 13/40] fix: a loaded model changed the indices of symbols met
 after fitting

Such symbols stand behind the sorted part of the dictionary. Loading sorted
them in, but left the frequencies in the order of the file.
---
 .../main/cpp/algorithm/int_vgram_builder_p.cc |  2 +-
 .../vgram_builders/int_stream_vgram.cc        | 19 +++++++++++++++----
 .../interfaces/vgram_builders/int_vgram.cc    | 10 ++--------
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 36684dc..9be06ad 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -37,7 +37,7 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
     // the restored dictionary is reported with its own frequencies until the next one is built
     result_ = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability);
     for (int i = 0; i < freqs_copy.size() && i < result_->size(); i++)
-        result_->update_symbol(i, freqs_copy[i]);
+        result_->update_symbol(result_->search(dict.get(i)), freqs_copy[i]);
 }
 
 void IntVGramBuilderImpl::init(const IntDict &alphabet, int size, int verbose) {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 0f764cd..4051b38 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -88,12 +88,23 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
 //    std::cout << "in ctor" << std::endl;
     size_ = size;
     min_probability_ = min_probability;
-    freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder;
-    dict_ = std::make_shared<IntDictImpl>(alphabet);
+    // symbols that were met after the dictionary had been built follow its sorted part, they keep their indices
+    auto sorted_end = std::is_sorted_until(alphabet.begin(), alphabet.end());
+    if (!std::all_of(sorted_end, alphabet.end(), [](const IntSeq &seq) { return seq.size() == 1; })) {
+        sorted_end = alphabet.end();
+    }
+    dict_ = std::make_shared<IntDictImpl>(std::vector<IntSeq>(alphabet.begin(), sorted_end));
+    for (auto it = sorted_end; it != alphabet.end(); ++it) {
+        dict_->search(*it);
+    }
+    freqs_ = IntSeq(static_cast<size_t>(dict_->size()), 0);
+    for (size_t i = 0; i < alphabet.size() && i < freqs.size(); i++) {
+        freqs_[dict_->search(alphabet[i])] = freqs[i];
+    }
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1);
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 77f1999..98465d9 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -122,14 +122,8 @@ bool IntVGram::isTerminated() const {
 IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
                    const std::vector<IntSeq> &alphabet, int size, double min_probability,
                    bool fitted, bool freqs_computed)
-        : IntStreamVGram(size) {
-    size_ = size;
-    min_probability_ = min_probability;
-    freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
-    coder_ = coder; //TODO: check it
-    dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+        : IntStreamVGram(coder, freqs, alphabet, size, min_probability) {
+    verbose_ = 1;
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From db368d7f31224f8b7976158baef543b31ba61050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 14/40] fix: a loaded model lost its v-grams when training went
 on

The whole dictionary was passed as alphabet to the builder, which then had
no slots left for v-grams and dropped all of them in its next reduction.
---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc           | 5 +++--
 core/src/main/cpp/algorithm/int_vgram_builder_p.h            | 2 +-
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc   | 5 ++++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 9be06ad..cbef147 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -26,9 +26,10 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntSeq &alphabet, int size, int v
 }
 
 IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs,
-                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose) {
+                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose,
+                                         int size) {
     verbose_ = verbose;
-    size_ = dict.size();
+    size_ = size > 0 ? size : dict.size();
     IntSeq freqs_copy(freqs.begin(), freqs.end());
     std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
                                                                           &freqs_copy);
diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.h b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
index af8e9fd..330f763 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.h
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
@@ -20,7 +20,7 @@ public:
     IntVGramBuilderImpl(const IntSeq &alphabet, int size, int verbose = 1);
 
     IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs, const std::vector<IntSeq> &alphabet,
-                        double min_probability, int verbose = 1);
+                        double min_probability, int verbose = 1, int size = 0);
 
     std::shared_ptr<IntDict> result() const override;
 
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4051b38..d80a7e8 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -105,6 +105,9 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1);
+    std::vector<IntSeq> symbols;
+    std::copy_if(alphabet.begin(), alphabet.end(), std::back_inserter(symbols),
+                 [](const IntSeq &seq) { return seq.size() == 1; });
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, symbols, min_probability, 1, size);
 //    std::cout << "out ctor" << std::endl;
 }
-- 
2.43.0


From 27e809f485147eff038d0410bde9db19b5df0418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 15/40] fix: IntVGram::save() left out fitted and
 freqs_computed, so it could not be loaded

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 5 +++++
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 98465d9..7b3ce1f 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -14,6 +14,7 @@
 #include <int_vgram_builder_p.h>
 #include <int_dict_p.h>
 #include "int_vgram.h"
+#include "../saver.h"
 
 using namespace vgram_core;
 
@@ -115,6 +116,10 @@ std::vector<IntSeq> IntVGram::transform(const std::vector<IntSeq> &seqs) const {
     return res;
 }
 
+void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
+    Saver::save(this, filename);
+}
+
 bool IntVGram::isTerminated() const {
     return false;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index 133b6df..96faada 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -32,6 +32,8 @@ namespace vgram_core {
 
         std::vector<IntSeq> transform(const std::vector<IntSeq> &seqs) const;
 
+        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
+
     protected:
         int iter_num_;
         bool fitted_ = false;
-- 
2.43.0


From bc43a13b8f08846383727aa9f07a3f103ffe0778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 16/40] fix: printing an empty sequence read out of bounds

---
 core/src/main/cpp/algorithm/int_dict.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict.cc b/core/src/main/cpp/algorithm/int_dict.cc
index edfe12c..4049769 100644
--- a/core/src/main/cpp/algorithm/int_dict.cc
+++ b/core/src/main/cpp/algorithm/int_dict.cc
@@ -8,7 +8,7 @@
 std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 {
     out << "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         out << seq[i] << " ";
     }
     if (!seq.empty()) {
@@ -20,7 +20,7 @@ std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 
 std::string to_string(const IntSeq& seq) {
     std::string res = "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         res += std::to_string(seq[i]) + " ";
     }
     if (!seq.empty()) {
-- 
2.43.0


From 3d2847f7221cd9882a818b33a16bd087e88d523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 17/40] fix: Encoder::encode() dereferenced end() for items met
 for the first time

---
 core/src/main/cpp/algorithm/list_dict.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/list_dict.h b/core/src/main/cpp/algorithm/list_dict.h
index 069610b..8c6871c 100644
--- a/core/src/main/cpp/algorithm/list_dict.h
+++ b/core/src/main/cpp/algorithm/list_dict.h
@@ -3,7 +3,7 @@
 //
 
 #ifndef VGRAM_LIST_DICT_H
-#define VGRAM_LIST DICT_H
+#define VGRAM_LIST_DICT_H
 
 #include <vector>
 #include <unordered_map>
@@ -18,7 +18,7 @@ public:
     for (const T& next: input) {
       auto code_ptr = mapping.find(next);
       if (code_ptr == mapping.end()) {
-        mapping[next] = next_id++;
+        code_ptr = mapping.emplace(next, next_id++).first;
       }
       output->push_back(code_ptr->second);
     }
-- 
2.43.0


From 69edbc5fd54e3f21409709d294397f3c66728288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 18/40] fix: a tokenizer with a loaded map gave one id to two
 tokens

---
 core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc | 6 ++++--
 core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h  | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
index 258f705..6751405 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
@@ -15,6 +15,7 @@ BaseTokenizer::BaseTokenizer(const unordered_map<string, int> &forward_map) {
     forward_coder_ = forward_map;
     for (const auto &pair : forward_map) {
         backward_coder_[pair.second] = pair.first;
+        next_id_ = max(next_id_, pair.second + 1);
     }
 }
 
@@ -33,8 +34,9 @@ vector<int> BaseTokenizer::transform(const string &seq) {
     coded_seq.reserve(tokens.size());
     for (const std::string &symb : tokens) {
         if (forward_coder_.count(symb) == 0) {
-            forward_coder_[symb] = static_cast<int>(forward_coder_.size());
-            backward_coder_[backward_coder_.size()] = symb;
+            forward_coder_[symb] = next_id_;
+            backward_coder_[next_id_] = symb;
+            next_id_++;
         }
         coded_seq.push_back(forward_coder_.at(symb));
     }
diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
index 2bdda96..edd8bed 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
@@ -35,6 +35,7 @@ namespace vgram_core {
     protected:
         std::unordered_map<std::string, int> forward_coder_;
         std::unordered_map<int, std::string> backward_coder_;
+        int next_id_ = 0; // ids of a loaded map need not be contiguous
     };
 }
 
-- 
2.43.0


From bb0b92a4a2a150de5edb3d66ee83152a5f78bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 19/40] fix: WordTokenizer glued repeated spaces to the next
 word

---
 core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
index a70f5b1..6fffb27 100644
--- a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
@@ -19,9 +19,11 @@ vector<string> WordTokenizer::tokenize(const string &str) const {
     vector<string> tokens;
     string current;
     for (char i : str) {
-        if (i == ' ' && current != "") {
-            tokens.push_back(current);
-            current = "";
+        if (i == ' ') {
+            if (current != "") {
+                tokens.push_back(current);
+                current = "";
+            }
         } else {
             current += i;
         }
-- 
2.43.0


From 3a914b8f9c100f19315a28cd49823de904748a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 20/40] fix: a loaded word model split texts into characters

---
 core/src/main/cpp/interfaces/loader.h | 7 +++++--
 core/src/main/cpp/interfaces/saver.h  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 091127d..52cf1a2 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -36,7 +36,8 @@ namespace vgram_core {
         static std::shared_ptr<StringStreamVGram> load_string_stream_vgram(const std::string &filename) {
             std::shared_ptr<IntStreamVGram> stream_builder = load_int_stream_vgram(filename);
             std::shared_ptr<BaseTokenizer> tokenizer = load_tokenizer(filename, stream_builder->get_coder());
-            return std::make_shared<StringStreamVGram>(stream_builder, tokenizer);
+            bool words_are_tokens = std::dynamic_pointer_cast<WordTokenizer>(tokenizer) != nullptr;
+            return std::make_shared<StringStreamVGram>(stream_builder, tokenizer, false, words_are_tokens);
         }
 
         static StringVGram *load_string_vgram(const std::string &filename) {
@@ -102,7 +103,9 @@ namespace vgram_core {
                     forward_map[key] = vec[0];
                 }
             }
-            //TODO chose tokenizer
+            if (dict.value("words_are_tokens", false)) {
+                return std::make_shared<WordTokenizer>(forward_map);
+            }
             return std::make_shared<CharTokenizer>(forward_map);
         }
     };
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 512abf0..96fa871 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -52,6 +52,9 @@ namespace vgram_core {
             dict["min_prob"] = int_stream_vgram->min_probability_;
             dict["coder"] = coder_to_json(int_stream_vgram->get_coder());
             dict["alphabet"] = alphabet_to_json(int_stream_vgram, tokenizer);
+            if (tokenizer != nullptr) {
+                dict["words_are_tokens"] = std::dynamic_pointer_cast<WordTokenizer>(tokenizer) != nullptr;
+            }
         }
 
         static void add_fitted_info(json &dict, const vgram_core::IntVGram *int_vgram) {
-- 
2.43.0


From ad898f4b8895b068eff0186d34dfcad4e6520442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 21/40] fix: the Python wrappers cast a loaded model to a class
 it is not

---
 binding/src/main/cpp/py_int_vgram_builder.h | 5 ++++-
 binding/src/main/cpp/py_vgram_builder.h     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/binding/src/main/cpp/py_int_vgram_builder.h b/binding/src/main/cpp/py_int_vgram_builder.h
index 73ba08a..b01b7c3 100644
--- a/binding/src/main/cpp/py_int_vgram_builder.h
+++ b/binding/src/main/cpp/py_int_vgram_builder.h
@@ -14,9 +14,12 @@ namespace py = pybind11;
 class PyIntVGram : public vgram_core::IntVGram {
 public:
     static PyIntVGram *load(const std::string &filename) {
-        return static_cast<PyIntVGram*>(vgram_core::Loader::load_int_vgram(filename));
+        std::unique_ptr<vgram_core::IntVGram> loaded(vgram_core::Loader::load_int_vgram(filename));
+        return new PyIntVGram(*loaded);
     }
 
+    explicit PyIntVGram(const vgram_core::IntVGram &int_vgram) : vgram_core::IntVGram(int_vgram) {}
+
     PyIntVGram(int size, int iter_num) : vgram_core::IntVGram(size, iter_num) {}
 
     PyIntVGram(int size, int iter_num, int verbose) : vgram_core::IntVGram(size, iter_num, verbose) {}
diff --git a/binding/src/main/cpp/py_vgram_builder.h b/binding/src/main/cpp/py_vgram_builder.h
index 38e86ca..5653b26 100644
--- a/binding/src/main/cpp/py_vgram_builder.h
+++ b/binding/src/main/cpp/py_vgram_builder.h
@@ -14,9 +14,12 @@ namespace py = pybind11;
 class PyStringVGram : public vgram_core::StringVGram {
 public:
     static PyStringVGram *load(const std::string &filename) {
-        return static_cast<PyStringVGram *>(vgram_core::Loader::load_string_vgram(filename));
+        std::unique_ptr<vgram_core::StringVGram> loaded(vgram_core::Loader::load_string_vgram(filename));
+        return new PyStringVGram(*loaded);
     }
 
+    explicit PyStringVGram(const vgram_core::StringVGram &string_vgram) : vgram_core::StringVGram(string_vgram) {}
+
     PyStringVGram(int size, int iter_num) : vgram_core::StringVGram(size, iter_num) {}
 
     PyStringVGram(int size, int iter_num, int verbose) : vgram_core::StringVGram(size, iter_num, verbose) {}
-- 
2.43.0


From 881b083059e1f648c37944ca438653945b76ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 22/40] fix: a failed save was silent, and an unserialisable
 model emptied the old file

---
 core/src/main/cpp/interfaces/saver.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 96fa871..60c9c23 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -40,10 +40,13 @@ namespace vgram_core {
 
     private:
         static void write_to_file(json& dict, const std::string &filename) {
+            const std::string text = dict.dump(2); // throws on invalid text, before the old file is gone
             std::ofstream file(filename);
-            file << std::setw(2) << dict << std::endl;
+            file << text << std::endl;
             file.close();
-
+            if (!file) {
+                throw std::runtime_error("Can't write the dictionary to " + filename);
+            }
         }
 
         static void add_base_info(json &dict, const vgram_core::IntStreamVGram *int_stream_vgram,
-- 
2.43.0


From 9e0bfbf30030ee58e597ac75fbcde6b5b3938d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 23/40] fix: a model loaded from before its first cut was
 rebuilt at every accepted sequence

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index cbef147..a83a67e 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -31,7 +31,9 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
     verbose_ = verbose;
     size_ = size > 0 ? size : dict.size();
     IntSeq freqs_copy(freqs.begin(), freqs.end());
-    std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
+    // a dictionary saved before its first cut has no min_probability, with a negative one any data would be enough
+    double start_probability = min_probability > 0 ? min_probability : StatDictImpl::kMaxMinProbability;
+    std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), start_probability,
                                                                           &freqs_copy);
     symb_alphabet_ = alphabet;
     current_ = result;
-- 
2.43.0


From d9a2a9c9facba309960eb89fd8314e39d38d17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 24/40] fix: the builder counted one symbol too few and
 exceeded its size limit by one

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index a83a67e..56256fe 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -115,7 +115,7 @@ void IntVGramBuilderImpl::update() {
     int alpha_accum_num = 0;
     for (int i = 0; i < current_->size(); i++) {
         if (current_->parent(i) < 0) {
-            if (alpha_accum_num > alphabet_size) {
+            if (alpha_accum_num >= alphabet_size) {
                 symb_alphabet_.push_back(current_->get(i));
             }
             alpha_accum_num++;
-- 
2.43.0


From 2d82e449748e7e8cf95c451459e510b3da18c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:02 +0000
Subject: [PATCH 25/40] fix: loading a file with a missing field aborted or
 gave an empty model

---
 core/src/main/cpp/interfaces/loader.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 52cf1a2..4921aae 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -80,15 +80,15 @@ namespace vgram_core {
         }
 
         static void read_coder(json &dict, const std::shared_ptr<SeqCoder> &coder) {
-            for (int n : dict["coder"]) {
+            for (int n : dict.at("coder")) {
                 coder->encode(std::vector<int>(1, n));
             }
         }
 
         static void read_alphabet(json &dict, IntSeq &freqs, std::vector<IntSeq> &alphabet) {
-            for (const auto &word_obj : dict["alphabet"]) {
-                freqs.push_back(word_obj["freq"].get<int>());
-                alphabet.push_back(word_obj["vec"].get<IntSeq>());
+            for (const auto &word_obj : dict.at("alphabet")) {
+                freqs.push_back(word_obj.at("freq").get<int>());
+                alphabet.push_back(word_obj.at("vec").get<IntSeq>());
             }
         }
 
@@ -96,10 +96,10 @@ namespace vgram_core {
                                                              const std::shared_ptr<SeqCoder> &coder) {
             json dict = read_dict_json(filename);
             std::unordered_map<std::string, int> forward_map;
-            for (const auto &word_obj : dict["alphabet"]) {
-                const std::vector<int> vec = coder->decode(word_obj["vec"].get<IntSeq>());
+            for (const auto &word_obj : dict.at("alphabet")) {
+                const std::vector<int> vec = coder->decode(word_obj.at("vec").get<IntSeq>());
                 if (vec.size() == 1) {
-                    std::string key = word_obj["text"].get<std::string>();
+                    std::string key = word_obj.at("text").get<std::string>();
                     forward_map[key] = vec[0];
                 }
             }
-- 
2.43.0


From ea7b57b89fc94771a8544674818c8527079dbfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:03 +0000
Subject: [PATCH 26/40] fix: a model saved with size 0 was loaded without its
 size limit

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc              | 2 +-
 core/src/main/cpp/algorithm/int_vgram_builder_p.h               | 2 +-
 core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 56256fe..4b6c24d 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -29,7 +29,7 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
                                          const std::vector<IntSeq> &alphabet, double min_probability, int verbose,
                                          int size) {
     verbose_ = verbose;
-    size_ = size > 0 ? size : dict.size();
+    size_ = size >= 0 ? size : dict.size();
     IntSeq freqs_copy(freqs.begin(), freqs.end());
     // a dictionary saved before its first cut has no min_probability, with a negative one any data would be enough
     double start_probability = min_probability > 0 ? min_probability : StatDictImpl::kMaxMinProbability;
diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.h b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
index 330f763..d787a0c 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.h
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
@@ -20,7 +20,7 @@ public:
     IntVGramBuilderImpl(const IntSeq &alphabet, int size, int verbose = 1);
 
     IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs, const std::vector<IntSeq> &alphabet,
-                        double min_probability, int verbose = 1, int size = 0);
+                        double min_probability, int verbose = 1, int size = -1);
 
     std::shared_ptr<IntDict> result() const override;
 
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index d80a7e8..dccb604 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -108,6 +108,6 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     std::vector<IntSeq> symbols;
     std::copy_if(alphabet.begin(), alphabet.end(), std::back_inserter(symbols),
                  [](const IntSeq &seq) { return seq.size() == 1; });
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, symbols, min_probability, 1, size);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, symbols, min_probability, 1, std::max(size, 0));
 //    std::cout << "out ctor" << std::endl;
 }
-- 
2.43.0


From dc2bada743088013286482f4b53c0dc26d613e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 27/40] fix: tokens accepted after the last update lost their
 identity in a saved text model

---
 core/src/main/cpp/interfaces/loader.h | 4 ++++
 core/src/main/cpp/interfaces/saver.h  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 4921aae..150b34f 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -103,6 +103,10 @@ namespace vgram_core {
                     forward_map[key] = vec[0];
                 }
             }
+            int code = 0;
+            for (const auto &text : dict["tokens"]) {
+                forward_map[text.get<std::string>()] = coder->decode(IntSeq(1, code++))[0];
+            }
             if (dict.value("words_are_tokens", false)) {
                 return std::make_shared<WordTokenizer>(forward_map);
             }
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 60c9c23..cbd5572 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -57,6 +57,10 @@ namespace vgram_core {
             dict["alphabet"] = alphabet_to_json(int_stream_vgram, tokenizer);
             if (tokenizer != nullptr) {
                 dict["words_are_tokens"] = std::dynamic_pointer_cast<WordTokenizer>(tokenizer) != nullptr;
+                // the alphabet lacks the tokens that were accepted after the last update
+                for (const auto &n : dict["coder"]) {
+                    dict["tokens"].push_back(tokenizer->decode(IntSeq(1, n.get<int>())));
+                }
             }
         }
 
-- 
2.43.0


From 18bfc4edf0475f5a8c29166a0afb13f7ef9e33bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:32 +0000
Subject: [PATCH 28/40] fix: counting an entry wrote behind parse_freqs_ after
 symbol_freqs_ had been extended

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index d5dea98..fa1767a 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -38,6 +38,8 @@ void StatDictImpl::update_symbol(int index, int freq) {
     if (index >= symbol_freqs_.size()) {
         for (auto i = symbol_freqs_.size(); i < index + 1; i++)
             symbol_freqs_.push_back(0); // Sanitizer: indirect leak
+    }
+    if (index >= parse_freqs_.size()) { // may be shorter: result_freqs() extends symbol_freqs_ only
         for (auto i = parse_freqs_.size(); i < index + 1; i++)
             parse_freqs_.push_back(0); // Sanitizer: indirect leak
     }
-- 
2.43.0


From 23b353b8c099b93f12fb034369fef89213c6d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 29/40] fix: a model restored from unsorted entries took a
 symbol inside longer entries for a late one

---
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index dccb604..91cfdd9 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -91,7 +91,13 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     coder_ = coder;
     // symbols that were met after the dictionary had been built follow its sorted part, they keep their indices
     auto sorted_end = std::is_sorted_until(alphabet.begin(), alphabet.end());
-    if (!std::all_of(sorted_end, alphabet.end(), [](const IntSeq &seq) { return seq.size() == 1; })) {
+    auto met_later = [&](const IntSeq &seq) { // a single symbol that begins no entry of the sorted part
+        if (seq.size() != 1)
+            return false;
+        auto next = std::lower_bound(alphabet.begin(), sorted_end, seq);
+        return next == sorted_end || (*next)[0] != seq[0];
+    };
+    if (!std::all_of(sorted_end, alphabet.end(), met_later)) {
         sorted_end = alphabet.end();
     }
     dict_ = std::make_shared<IntDictImpl>(std::vector<IntSeq>(alphabet.begin(), sorted_end));
-- 
2.43.0


From 2a2fe562a9e0d6a63e86c8b5b93d080f46dc6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:29 +0000
Subject: [PATCH 30/40] fix: large frequencies overflowed int in parses and in
 the total of a model

---
 core/src/main/cpp/algorithm/int_dict_p.cc                     | 2 +-
 core/src/main/cpp/algorithm/stat_dict_p.cc                    | 2 +-
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc    | 4 ++--
 .../src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h | 2 +-
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc      | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 020e53a..936bedc 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -83,7 +83,7 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
             continue;
         do {
             auto sym_len = get(sym).size();
-            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1) : 0) - log(total_freq + size());
+            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1.0) : 0) - log(total_freq + size());
             if (score[sym_len + pos] < score[pos] + sym_log_prob) {
                 score[sym_len + pos] = score[pos] + sym_log_prob;
                 symbols[sym_len + pos] = sym;
diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index fa1767a..8247a79 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -255,7 +255,7 @@ double StatDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, doubl
         int sym = search(suffix, excludes);
         do {
             auto sym_len = get(sym).size();
-            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1) : 0) - log(total_freq + size());
+            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1.0) : 0) - log(total_freq + size());
             if (score[sym_len + pos] < score[pos] + sym_log_prob)
             {
                 score[sym_len + pos] = score[pos] + sym_log_prob;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 91cfdd9..8a2d23e 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -52,7 +52,7 @@ void IntStreamVGram::update_dict() {
     dict_ = builder_->result();
     freqs_.clear();
     builder_->result_freqs(&freqs_);
-    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0.0);
     min_probability_ = builder_->get_min_probability();
 }
 
@@ -108,7 +108,7 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     for (size_t i = 0; i < alphabet.size() && i < freqs.size(); i++) {
         freqs_[dict_->search(alphabet[i])] = freqs[i];
     }
-    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0.0);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
     std::vector<IntSeq> symbols;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
index 2e79dac..60674f0 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
@@ -50,7 +50,7 @@ namespace vgram_core {
         std::shared_ptr<IntDict> dict_;
         std::shared_ptr<SeqCoder> coder_;
         IntSeq freqs_;
-        int total_freqs_;
+        double total_freqs_;
         double min_probability_;
         int verbose_;
     };
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 7b3ce1f..4973b2a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -62,7 +62,7 @@ bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     IntSeq freqs;
     builder_->result_freqs(&freqs);
     IntSeq new_freqs(freqs.size(), 0);
-    int total_freqs = std::accumulate(freqs.begin(), freqs.end(), 0);
+    double total_freqs = std::accumulate(freqs.begin(), freqs.end(), 0.0);
     for (const IntSeq &seq : seqs) {
         IntSeq result;
         dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
@@ -79,7 +79,7 @@ bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
         }
     }
     freqs_ = new_freqs;
-    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0.0);
     return true;
 }
 
-- 
2.43.0


From 34d5e7a72cc3dda5505845cd178e05d41256d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 31/40] fix: Python objects of loaded stream models were freed
 while in use

IntStreamVGram and StreamVGram were registered with the default holder
(unique_ptr), but load returns shared_ptr: the model died as soon as load
returned. Hold them in shared_ptr.
---
 binding/src/main/cpp/bind_vgram.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/src/main/cpp/bind_vgram.cc b/binding/src/main/cpp/bind_vgram.cc
index e0d5516..d9e485f 100644
--- a/binding/src/main/cpp/bind_vgram.cc
+++ b/binding/src/main/cpp/bind_vgram.cc
@@ -15,7 +15,7 @@ namespace py = pybind11;
 PYBIND11_MODULE(vgram, m) {
     m.doc() = "python lib for vgram features building";
 
-    py::class_<vgram_core::IntStreamVGram>(m, "IntStreamVGram")
+    py::class_<vgram_core::IntStreamVGram, std::shared_ptr<vgram_core::IntStreamVGram>>(m, "IntStreamVGram")
             .def(py::init<int, int>(), py::arg("size") = 10000, py::arg("verbose") = 0)
             .def_static("load", &vgram_core::Loader::load_int_stream_vgram)
             .def("accept", &vgram_core::IntStreamVGram::accept,
@@ -28,7 +28,7 @@ PYBIND11_MODULE(vgram, m) {
             .def("freqs", &vgram_core::IntStreamVGram::freqs)
             .def("alphabet", &vgram_core::IntStreamVGram::alphabet);
 
-    py::class_<vgram_core::StringStreamVGram>(m, "StreamVGram")
+    py::class_<vgram_core::StringStreamVGram, std::shared_ptr<vgram_core::StringStreamVGram>>(m, "StreamVGram")
             .def(py::init<int, int, bool, bool>(), py::arg("size") = 10000, py::arg("verbose") = 0,
                  py::arg("inner_words_split") = false, py::arg("words_are_tokens") = false)
             .def_static("load", &vgram_core::Loader::load_string_stream_vgram)
-- 
2.43.0


From ab188bc593bc63d60666663d20db598f94fc6cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 32/40] fix: reading a model could change its dictionary, and
 with it the parses that followed

A symbol that was accepted but missing in the published dictionary was appended
by the first const parse() that met it. That changed the number of entries, and
so all probabilities, of later parses; two threads reading one model raced for it.
---
 .../vgram_builders/int_stream_vgram.cc         | 18 +++++++++++++++++-
 .../vgram_builders/int_stream_vgram.h          |  5 +++++
 .../cpp/interfaces/vgram_builders/int_vgram.cc |  3 +++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 8a2d23e..d89c7d7 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -27,7 +27,9 @@ IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
 }
 
 void IntStreamVGram::accept(const IntSeq &seq) {
-    builder_->accept(coder_->encode(seq));
+    const IntSeq codes = coder_->encode(seq);
+    builder_->accept(codes);
+    add_missing_symbols(codes);
 }
 
 IntSeq IntStreamVGram::parse(const IntSeq &seq) const {
@@ -54,6 +56,19 @@ void IntStreamVGram::update_dict() {
     builder_->result_freqs(&freqs_);
     total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0.0);
     min_probability_ = builder_->get_min_probability();
+    add_missing_symbols();
+}
+
+void IntStreamVGram::add_missing_symbols(const IntSeq &codes) {
+    for (int code : codes) {
+        dict_->search(IntSeq(1, code));
+    }
+}
+
+void IntStreamVGram::add_missing_symbols() {
+    IntSeq codes(coder_->code_map().size());
+    std::iota(codes.begin(), codes.end(), 0);
+    add_missing_symbols(codes);
 }
 
 std::vector<IntSeq> IntStreamVGram::alphabet() const {
@@ -115,5 +130,6 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     std::copy_if(alphabet.begin(), alphabet.end(), std::back_inserter(symbols),
                  [](const IntSeq &seq) { return seq.size() == 1; });
     builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, symbols, min_probability, 1, std::max(size, 0));
+    add_missing_symbols();
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
index 60674f0..bc34599 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
@@ -45,6 +45,11 @@ namespace vgram_core {
         std::shared_ptr<IntDict> get_dict();
 
     protected:
+        // appends the given codes to the dictionary if they are missing, so that reading it does not have to
+        void add_missing_symbols(const IntSeq &codes);
+
+        void add_missing_symbols();
+
         int size_;
         std::shared_ptr<IntVGramBuilder> builder_;
         std::shared_ptr<IntDict> dict_;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 4973b2a..87f716c 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -61,6 +61,9 @@ bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     }
     IntSeq freqs;
     builder_->result_freqs(&freqs);
+    for (const IntSeq &seq : seqs) {
+        add_missing_symbols(coder_->encode(seq)); // not only while counting, they have a share in all probabilities
+    }
     IntSeq new_freqs(freqs.size(), 0);
     double total_freqs = std::accumulate(freqs.begin(), freqs.end(), 0.0);
     for (const IntSeq &seq : seqs) {
-- 
2.43.0


From 4b30c20bb3b7c7decadd3bb03bbf497e91eebb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 33/40] fix: saving a fitted model through its base wrote a
 file that could not be loaded

---
 .../src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h | 4 +++-
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.h       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
index bc34599..1e1afa6 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
@@ -28,11 +28,13 @@ namespace vgram_core {
         IntStreamVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs, const std::vector<IntSeq> &alphabet,
                        int size, double min_probability);
 
+        virtual ~IntStreamVGram() = default;
+
         void accept(const IntSeq &seq);
 
         IntSeq parse(const IntSeq &seq) const;
 
-        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
+        virtual void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
 
         std::vector<IntSeq> alphabet() const;
 
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index 96faada..656f317 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -32,7 +32,7 @@ namespace vgram_core {
 
         std::vector<IntSeq> transform(const std::vector<IntSeq> &seqs) const;
 
-        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
+        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const override;
 
     protected:
         int iter_num_;
-- 
2.43.0


From a2d7e019ee5bc5059a4fe22d71e1dd36c3cffb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 34/40] fix: parsing copied the rest of the sequence at every
 position

---
 core/src/main/cpp/algorithm/int_dict_p.cc | 18 ++++++++++++------
 core/src/main/cpp/algorithm/int_dict_p.h  |  2 ++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 936bedc..64e1c02 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -31,6 +31,7 @@ IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
     parents_ = dict.parents_; // Sanitizer: indirect leak
     sorted_size_ = dict.sorted_size_;
     appended_ = dict.appended_;
+    longest_ = dict.longest_;
 }
 
 void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
@@ -42,6 +43,7 @@ void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
 
     for (int i = 0; i < seqs_.size(); ++i) {
         IntSeq current = seqs_[i];
+        longest_ = std::max(longest_, current.size());
         while (!parents_stack.empty()) {
             IntSeq prefix = parents_stack.back().first;
             if (std::mismatch(prefix.begin(), prefix.end(), current.begin()).first == prefix.end()) {
@@ -55,14 +57,14 @@ void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
 }
 
 int IntDictImpl::linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes = nullptr) {
-    IntSeq suffix = seq;
-    while (!suffix.empty()) {
+    size_t pos = 0;
+    while (pos < seq.size()) {
+        IntSeq suffix = next_part(seq, pos);
         int symbol = search(suffix, excludes);
         if (symbol < 0) {
-            suffix = IntSeq(suffix.begin() + 1, suffix.end());
+            pos++;
         } else {
-            auto sym_len = get(symbol).size();
-            suffix = IntSeq(suffix.begin() + sym_len, suffix.end());
+            pos += get(symbol).size();
             builder->push_back(symbol);
         }
     }
@@ -77,7 +79,7 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
     IntSeq symbols(len + 1);
 
     for (int pos = 0; pos < len; pos++) {
-        IntSeq suffix(seq.begin() + pos, seq.end());
+        IntSeq suffix = next_part(seq, pos);
         int sym = search(suffix, excludes);
         if (sym < 0)
             continue;
@@ -103,6 +105,10 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
     return score[len];
 }
 
+IntSeq IntDictImpl::next_part(const IntSeq& seq, size_t pos) const {
+    return IntSeq(seq.begin() + pos, seq.begin() + std::min(seq.size(), pos + longest_));
+}
+
 int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
     auto sorted_end = seqs_.begin() + sorted_size_;
     int index = static_cast<int>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());
diff --git a/core/src/main/cpp/algorithm/int_dict_p.h b/core/src/main/cpp/algorithm/int_dict_p.h
index 74585b5..e2bf2e2 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.h
+++ b/core/src/main/cpp/algorithm/int_dict_p.h
@@ -31,8 +31,10 @@ private:
     IntSeq parents_;
     size_t sorted_size_ = 0; // seqs_ is sorted up to here, symbols met later follow
     std::unordered_map<int, int> appended_; // symbol met later -> its index
+    size_t longest_ = 1; // no entry is longer
 
     void init(const std::vector<IntSeq>& seqs);
+    IntSeq next_part(const IntSeq& seq, size_t pos) const;
     int linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes);
     double weightedParse(const IntSeq& seq, const IntSeq& freqs, double total_freq,
                          IntSeq* builder, std::unordered_set<int>* excludes);
-- 
2.43.0


From 9a8bd4dbcb4c86d734b7469b49d04632574aa146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 35/40] fix: reading a text model numbered the unknown words it
 met

---
 .../main/cpp/interfaces/tokenizers/base_tokenizer.cc  | 11 +++++++++++
 .../main/cpp/interfaces/tokenizers/base_tokenizer.h   |  3 +++
 .../interfaces/vgram_builders/string_stream_vgram.cc  |  2 +-
 .../cpp/interfaces/vgram_builders/string_vgram.cc     |  6 +++++-
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
index 6751405..c42bc75 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
@@ -43,6 +43,17 @@ vector<int> BaseTokenizer::transform(const string &seq) {
     return coded_seq;
 }
 
+vector<int> BaseTokenizer::transform_immutable(const string &seq) const {
+    std::vector<int> coded_seq;
+    for (const std::string &symb : tokenize(normalize(seq))) {
+        auto coded = forward_coder_.find(symb);
+        if (coded != forward_coder_.end()) {
+            coded_seq.push_back(coded->second);
+        }
+    }
+    return coded_seq;
+}
+
 string BaseTokenizer::normalize(const string &str) const {
     return str;
 }
diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
index edd8bed..6851005 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.h
@@ -24,6 +24,9 @@ namespace vgram_core {
 
         std::vector<int> transform(const std::string &seq);
 
+        // leaves out unknown tokens instead of numbering them
+        std::vector<int> transform_immutable(const std::string &seq) const;
+
         std::vector<std::string> decode(const std::vector<std::vector<int>> &seqs) const;
 
         std::string decode(const std::vector<int> &seq) const;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc
index fb393a5..6c23e49 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.cc
@@ -40,7 +40,7 @@ void StringStreamVGram::accept(const string &seq) {
 }
 
 vector<string> StringStreamVGram::parse(const string &seq) const {
-    IntSeq intSeq = tokenizer_->transform(seq);
+    IntSeq intSeq = tokenizer_->transform_immutable(seq);
     IntSeq tokens_ids = stream_builder_->parse(intSeq);
     vector<string> token_words;
     for (int token_id : tokens_ids) {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc
index bdd1a6a..83401e9 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_vgram.cc
@@ -28,7 +28,11 @@ StringVGram *StringVGram::fit(const std::vector<std::string> &seqs) {
 }
 
 std::vector<std::string> StringVGram::transform(const std::vector<std::string> &seqs) const {
-    std::vector<IntSeq> coded_texts_by_token_ids = int_builder_->transform(tokenizer_->transform(seqs));
+    std::vector<IntSeq> coded_seqs;
+    for (const std::string &seq : seqs) {
+        coded_seqs.push_back(tokenizer_->transform_immutable(seq));
+    }
+    std::vector<IntSeq> coded_texts_by_token_ids = int_builder_->transform(coded_seqs);
     std::vector<std::string> decoded_texts;
     std::vector<IntSeq> alphabet = int_builder_->alphabet();
     for (const IntSeq &coded_text_by_token_ids : coded_texts_by_token_ids) {
-- 
2.43.0


From 64368a0a4d792d7b12c5d8513f8beb60f07a3148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 36/40] fix: every parse copied and sorted the whole dictionary

---
 core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index d89c7d7..13a6a21 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -41,7 +41,6 @@ IntSeq IntStreamVGram::parse(const IntSeq &seq) const {
 //    std::cout << "after if" << std::endl;
     coder_->encode_immutable(seq);
 //    std::cout << "before coder call" << std::endl;
-    builder_->alpha();
 //    std::cout << "before builder call" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
 //    std::cout << "before parse" << std::endl;
-- 
2.43.0


From 563c1965191c2c32c24f2392bfbe67e8cc778688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 37/40] fix: a save that ran out of memory crashed

---
 core/src/main/cpp/interfaces/saver.h | 34 ++++++++++++++++++----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index cbd5572..fac82f9 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -13,26 +13,26 @@ namespace vgram_core {
     class Saver {
     public:
         static void save(const vgram_core::IntStreamVGram *int_stream_vgram, const std::string &filename) {
-            json dict;
+            json dict = json::object();
             add_base_info(dict, int_stream_vgram, nullptr);
             write_to_file(dict, filename);
         }
 
         static void save(const vgram_core::IntVGram *int_vgram, const std::string &filename) {
-            json dict;
+            json dict = json::object();
             add_base_info(dict, int_vgram, nullptr);
             add_fitted_info(dict, int_vgram);
             write_to_file(dict, filename);
         }
 
         static void save(const vgram_core::StringStreamVGram *string_stream_vgram, const std::string &filename) {
-            json dict;
+            json dict = json::object();
             add_base_info(dict, string_stream_vgram->stream_builder_.get(), string_stream_vgram->tokenizer_);
             write_to_file(dict, filename);
         }
 
         static void save(const vgram_core::StringVGram *string_vgram, const std::string &filename) {
-            json dict;
+            json dict = json::object();
             add_base_info(dict, string_vgram->int_builder_.get(), string_vgram->tokenizer_);
             add_fitted_info(dict, string_vgram->int_builder_.get());
             write_to_file(dict, filename);
@@ -58,8 +58,12 @@ namespace vgram_core {
             if (tokenizer != nullptr) {
                 dict["words_are_tokens"] = std::dynamic_pointer_cast<WordTokenizer>(tokenizer) != nullptr;
                 // the alphabet lacks the tokens that were accepted after the last update
+                std::vector<json> tokens;
                 for (const auto &n : dict["coder"]) {
-                    dict["tokens"].push_back(tokenizer->decode(IntSeq(1, n.get<int>())));
+                    tokens.emplace_back(tokenizer->decode(IntSeq(1, n.get<int>())));
+                }
+                if (!tokens.empty()) {
+                    dict["tokens"] = std::move(tokens);
                 }
             }
         }
@@ -69,33 +73,39 @@ namespace vgram_core {
             dict["freqs_computed"] = int_vgram->freqs_computed_;
         }
 
+        // a json that runs out of memory while it turns from null into an array or an object can't be destroyed,
+        // so they are made as what they are
+        static json to_array(std::vector<json> items) {
+            return items.empty() ? json() : json(std::move(items));
+        }
+
         static json coder_to_json(const std::shared_ptr<vgram_core::SeqCoder> &coder) {
             const std::unordered_map<int, int> code_map = coder->code_map();
             std::vector<std::pair<int, int>> pairs(code_map.begin(), code_map.end());
             std::sort(pairs.begin(), pairs.end(),
                       [](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.second < b.second; });
-            json coder_obj;
+            std::vector<json> codes;
             for (const auto &p : pairs) {
-                coder_obj.push_back(p.first);
+                codes.emplace_back(p.first);
             }
-            return coder_obj;
+            return to_array(std::move(codes));
         }
 
         static json alphabet_to_json(const vgram_core::IntStreamVGram *int_stream_vgram,
                                      const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer) {
-            json alpha;
+            std::vector<json> alpha;
             const IntSeq &freqs = int_stream_vgram->freqs();
             auto &dict = int_stream_vgram->dict_;
             for (int i = 0; i < dict->size(); i++) {
-                json word_obj;
+                json word_obj = json::object();
                 word_obj["vec"] = json(dict->get(i));
                 word_obj["freq"] = freqs[i];
                 if (tokenizer != nullptr) {
                     word_obj["text"] = tokenizer->decode(int_stream_vgram->get_coder()->decode(dict->get(i)));
                 }
-                alpha.push_back(word_obj);
+                alpha.push_back(std::move(word_obj));
             }
-            return alpha;
+            return to_array(std::move(alpha));
         }
     };
 }
-- 
2.43.0


From 1b1a7888ba82ed17d09da21596a318d0459d153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 38/40] fix: a dictionary that ran out of memory while it
 appended a symbol was left inconsistent

---
 core/src/main/cpp/algorithm/int_dict_p.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 64e1c02..de7427b 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -132,9 +132,14 @@ int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
     }
     if (excludes == nullptr) {
         int ind = size();
-        appended_[seq[0]] = ind;
+        parents_.resize(static_cast<size_t>(ind) + 1, -1);
         seqs_.emplace_back(1, seq[0]);
-        parents_.push_back(-1);
+        try {
+            appended_[seq[0]] = ind;
+        } catch (...) { // out of memory
+            seqs_.pop_back();
+            throw;
+        }
         return ind;
     } else {
         return -1;
-- 
2.43.0


From 4c4a31febb35c05044b12b17368f4e573b9da2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 39/40] fix: a coder that ran out of memory held codes it could
 not decode

---
 core/src/main/cpp/interfaces/seq_coder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/seq_coder.cc b/core/src/main/cpp/interfaces/seq_coder.cc
index eb28550..e0e73a4 100644
--- a/core/src/main/cpp/interfaces/seq_coder.cc
+++ b/core/src/main/cpp/interfaces/seq_coder.cc
@@ -19,8 +19,8 @@ std::vector<int> SeqCoder::encode(const std::vector<int>& seq) {
     for (int symbol : seq) {
         if (forward_code_.count(symbol) == 0) {
             int size = static_cast<int>(forward_code_.size());
+            backward_code_[size] = symbol; // first, out of memory must not leave a code that can't be decoded
             forward_code_[symbol] = size;
-            backward_code_[size] = symbol;
         }
         result.push_back(forward_code_[symbol]);
     }
-- 
2.43.0


From a2824ef07dafe90350b07017956807d22f94498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 40/40] fix: a tokenizer that ran out of memory held ids it
 could not decode

---
 core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
index c42bc75..9a523e0 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
@@ -34,8 +34,8 @@ vector<int> BaseTokenizer::transform(const string &seq) {
     coded_seq.reserve(tokens.size());
     for (const std::string &symb : tokens) {
         if (forward_coder_.count(symb) == 0) {
+            backward_coder_[next_id_] = symb; // first, out of memory must not leave an id that can't be decoded
             forward_coder_[symb] = next_id_;
-            backward_coder_[next_id_] = symb;
             next_id_++;
         }
         coded_seq.push_back(forward_coder_.at(symb));
-- 
2.43.0

