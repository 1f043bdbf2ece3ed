From 4d616093ee20d8db177f2f918ceeff6da41ffd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:46 +0000
Subject: [PATCH 01/32] fix: Deserialiser<UChar> truncated every character to
 eight bits

---
 lttoolbox/deserialiser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/deserialiser.h b/lttoolbox/deserialiser.h
index 9062930..0d0a899 100644
--- a/lttoolbox/deserialiser.h
+++ b/lttoolbox/deserialiser.h
@@ -85,7 +85,7 @@ public:
 
 template <> class Deserialiser<UChar> {
 public:
-  inline static char deserialise(std::istream &Stream_);
+  inline static UChar deserialise(std::istream &Stream_);
 };
 
 template<> class Deserialiser<double> {
@@ -174,7 +174,7 @@ char Deserialiser<char>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint8_t>(Stream_);
 }
 
-char Deserialiser<UChar>::deserialise(std::istream &Stream_) {
+UChar Deserialiser<UChar>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint16_t>(Stream_);
 }
 
-- 
2.43.0


From 9d1abf9d3aa78b6dafa9bc4c810ee7c4d39c28f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:07 +0000
Subject: [PATCH 02/32] fix: Alphabet::deserialise rebuilt the pair table from
 the wrong count

---
 lttoolbox/alphabet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 0531005..2097c0c 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -206,7 +206,7 @@ Alphabet::deserialise(std::istream &serialised)
     slexic[slexicinv[i]] = -i - 1; // ToDo: This does not turn the result negative due to unsigned semantics
   }
   spairinv = Deserialiser<std::vector<std::pair<int32_t, int32_t> > >::deserialise(serialised);
-  for (size_t i = 0; i < slexicinv.size(); i++) {
+  for (size_t i = 0; i < spairinv.size(); i++) {
     spair[spairinv[i]] = i;
   }
 }
-- 
2.43.0


From 1249c9bc34e9506a308644e6c17fd07cf8a516b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:44 +0000
Subject: [PATCH 03/32] fix: determinize gave final states the weights of
 unrelated states

---
 lttoolbox/transducer.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 20d5377..aa9f5b0 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -323,11 +323,6 @@ Transducer::determinize(int const epsilon_tag)
   int initial_prime = 0;
   std::map<int, double> finals_prime;
 
-  if(isFinal(initial))
-  {
-    finals_prime.insert({0, default_weight});
-  }
-
   int t = 0;
 
   sorted_vector<int> finals_state;
@@ -343,10 +338,15 @@ Transducer::determinize(int const epsilon_tag)
     for(auto& it : R[t])
     {
       if (Q_prime[it].intersects(finals_state)) {
+        // a set of states is as final as its lightest final state
+        bool found = false;
         double w = default_weight;
-        auto it3 = finals.find(it);
-        if (it3 != finals.end()) {
-          w = it3->second;
+        for (auto& it2 : Q_prime[it]) {
+          auto it3 = finals.find(it2);
+          if (it3 != finals.end() && (!found || it3->second < w)) {
+            found = true;
+            w = it3->second;
+          }
         }
         finals_prime.insert({it, w});
       }
-- 
2.43.0


From 8066e2e8976c5b85b52e7035464d6e070a1089a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:44 +0000
Subject: [PATCH 04/32] fix: reverse (and so minimize) dropped the weight of a
 single final state

---
 lttoolbox/transducer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index aa9f5b0..0156c83 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -720,9 +720,10 @@ Transducer::reverse(int const epsilon_tag)
   }
 
   int tmp = initial;
+  double weight = finals.begin()->second;
   initial = finals.begin()->first;
   finals.clear();
-  finals.insert({tmp, default_weight});
+  finals.insert({tmp, weight});
 }
 
 void
-- 
2.43.0


From 9ee726770fe4187228a7cd951ad3b190038aada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:09 +0000
Subject: [PATCH 05/32] fix: unionWith dropped the weight of a single final
 state of the added transducer

---
 lttoolbox/transducer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 0156c83..44af19d 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -850,7 +850,8 @@ Transducer::unionWith(Alphabet &my_a,
                       Transducer &t,
                       int const epsilon_tag)
 {
-  finals.insert({insertTransducer(initial, t, epsilon_tag), default_weight});
+  int end = insertTransducer(initial, t, epsilon_tag);
+  finals.insert({end, t.finals.begin()->second});
 }
 
 Transducer
-- 
2.43.0


From d9d274fd7787e33aedfdf201b6e572aaa6003e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:43 +0000
Subject: [PATCH 06/32] fix: updateAlphabet decoded the characters of one-sided
 transducers as pair codes

---
 lttoolbox/transducer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 44af19d..189f911 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1264,8 +1264,10 @@ Transducer::updateAlphabet(Alphabet& old_alpha, Alphabet& new_alpha,
   std::set<int32_t> symbols;
   for (auto& it : transitions) {
     for (auto& it2 : it.second) {
-      if (!has_pairs && it2.first < 0) {
-        symbols.insert(it2.first);
+      if (!has_pairs) {
+        if (it2.first < 0) {
+          symbols.insert(it2.first);
+        }
       } else {
         symbol_pairs.insert(it2.first);
         int32_t l = old_alpha.decode(it2.first).first;
-- 
2.43.0


From fcead1c472c0100a080ee6dabd327f2d528ab5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:34 +0000
Subject: [PATCH 07/32] fix: copying a Buffer copied size bytes instead of size
 elements

---
 lttoolbox/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/buffer.h b/lttoolbox/buffer.h
index 6ea1f64..710f892 100644
--- a/lttoolbox/buffer.h
+++ b/lttoolbox/buffer.h
@@ -55,7 +55,7 @@ private:
       lastpos = b.lastpos;
       size = b.size;
       buf = new T[size];
-      memcpy(buf, b.buf, size);
+      memcpy(buf, b.buf, size * sizeof(T));
     }
 
   void destroy()
-- 
2.43.0


From 28c841488b2f2e80ea6b40d7a97e33b57399473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:27 +0000
Subject: [PATCH 08/32] fix: NFinals counted analyses instead of weight classes

---
 lttoolbox/state.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 64ac197..d998397 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -492,12 +492,13 @@ State::NFinals(std::vector<std::pair<UString, double>> lf, int maxAnalyses, int
 
   for(auto it = lf.begin(); it != lf.end(); it++)
   {
-    double last_weight = 0.0000;
-    if(maxAnalyses > 0 && maxWeightClasses > 0)
+    // analyses with equal weight constitute a class
+    bool new_class = (result.empty() || result.back().second != it->second);
+    if(maxAnalyses > 0 && (maxWeightClasses > 0 || !new_class))
     {
       result.push_back({it->first, it->second});
       maxAnalyses--;
-      if(last_weight!=it->second)
+      if(new_class)
       {
         maxWeightClasses--;
       }
-- 
2.43.0


From d39cc384be3b11ca5b461c1caf620fab3764aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:06 +0000
Subject: [PATCH 09/32] fix: trim read past the end of strings that are all
 whitespace

---
 lttoolbox/string_utils.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index 57ae9d8..bb6270d 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -16,15 +16,19 @@ StringUtils::trim(UStringView str)
   size_t end = str.size();
   size_t i = 0;
   UChar32 c;
-  while (begin < end) {
+  while (i < end) {
     U16_GET(str.data(), begin, i, end, c);
     if (!u_isspace(c)) {
-      begin = i;
       break;
     } else {
       U16_FWD_1(str.data(), i, end);
     }
   }
+  begin = i;
+  if (begin == end) {
+    // nothing but whitespace
+    return str.substr(begin);
+  }
   i = str.size();
   U16_BACK_1(str.data(), 0, i);
   U16_GET(str.data(), 0, i, end, c);
-- 
2.43.0


From 9239e4eaa2f34d6ae621454d333a582cef70a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:06 +0000
Subject: [PATCH 10/32] fix: changing the case of characters that become three
 code units exited with an error

---
 lttoolbox/string_utils.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index bb6270d..0131b47 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -177,9 +177,9 @@ StringUtils::stod(const UString& str)
 UString
 StringUtils::tolower(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0);
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToLower(&buf[0], str.size() * 2, str.data(), str.size(), NULL, &err));
+  buf.resize(u_strToLower(&buf[0], str.size() * 3, str.data(), str.size(), NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to lowercase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
@@ -191,9 +191,9 @@ StringUtils::tolower(UStringView str)
 UString
 StringUtils::toupper(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0);
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToUpper(&buf[0], str.size()*2, str.data(), str.size(), NULL, &err));
+  buf.resize(u_strToUpper(&buf[0], str.size()*3, str.data(), str.size(), NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to uppercase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
@@ -205,9 +205,9 @@ StringUtils::toupper(UStringView str)
 UString
 StringUtils::totitle(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0);
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToTitle(&buf[0], str.size()*2, str.data(), str.size(), NULL, NULL, &err));
+  buf.resize(u_strToTitle(&buf[0], str.size()*3, str.data(), str.size(), NULL, NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to titlecase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
-- 
2.43.0


From 217944383500c28f51a209cb0867e75be7670c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:06 +0000
Subject: [PATCH 11/32] fix: symbol_iter read past the end of its string, and
 could miss the end

---
 lttoolbox/symbol_iter.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/symbol_iter.cc b/lttoolbox/symbol_iter.cc
index 4ebc85b..ba5d713 100644
--- a/lttoolbox/symbol_iter.cc
+++ b/lttoolbox/symbol_iter.cc
@@ -19,11 +19,16 @@ symbol_iter::iterator& symbol_iter::iterator::operator++()
 {
   if (sloc < str.size()) {
     sloc = eloc;
+    if (sloc == str.size()) {
+      return *this;
+    }
     UChar32 c;
     U16_NEXT(str.data(), eloc, str.size(), c);
     if (c == '\\') {
       sloc++;
-      U16_NEXT(str.data(), eloc, str.size(), c);
+      if (eloc < str.size()) {
+        U16_NEXT(str.data(), eloc, str.size(), c);
+      }
     } else if (c == '<') {
       auto i = eloc;
       while (c != '>' && i < str.size()) U16_NEXT(str.data(), i, str.size(), c);
-- 
2.43.0


From 72fd966e3b4a21a059c076c6cc1e1695e9b69fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:06 +0000
Subject: [PATCH 12/32] fix: tokenize took characters outside the basic plane
 for symbols

---
 lttoolbox/alphabet.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 2097c0c..a1ddac5 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -313,8 +313,10 @@ Alphabet::tokenize(UStringView str) const
 {
   std::vector<int32_t> ret;
   for (auto sym : symbol_iter(str)) {
-    if (sym.size() > 1) ret.push_back(operator()(sym));
-    else ret.push_back(static_cast<int32_t>(sym[0]));
+    UChar32 c;
+    U16_GET(sym.data(), 0, 0, sym.size(), c);
+    if (c == '<' && sym.size() > 1) ret.push_back(operator()(sym));
+    else ret.push_back(static_cast<int32_t>(c));
   }
   return ret;
 }
-- 
2.43.0


From 92cf606648660bdf4252279aa48916077f9a440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:07 +0000
Subject: [PATCH 13/32] fix: copying a MatchState wrote through an
 uninitialised pointer

---
 lttoolbox/match_state.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index 097af0d..ebd1389 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -35,6 +35,7 @@ MatchState::~MatchState()
 
 MatchState::MatchState(MatchState const &s)
 {
+  state = 0;
   copy(s);
 }
 
-- 
2.43.0


From 424842decf07362f1109834ba94bbecc3cbdb194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:19 +0000
Subject: [PATCH 14/32] fix: entries after a paradigm without usable entries
 were compiled into that paradigm

---
 lttoolbox/compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index df49609..22d8730 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -193,8 +193,8 @@ Compiler::procParDef()
     {
       paradigms[current_paradigm].minimize();
       paradigms[current_paradigm].joinFinals();
-      current_paradigm.clear();
     }
+    current_paradigm.clear();
   }
 }
 
-- 
2.43.0


From 66f72266b17a68754cdd75fbedcc1c1b779d9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:47 +0000
Subject: [PATCH 15/32] fix: paradigm and regexp tokens carried an
 uninitialised weight into the compiled dictionary

---
 lttoolbox/entry_token.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/entry_token.cc b/lttoolbox/entry_token.cc
index c1f1d41..a0de66d 100644
--- a/lttoolbox/entry_token.cc
+++ b/lttoolbox/entry_token.cc
@@ -18,7 +18,8 @@
 
 
 EntryToken::EntryToken() :
-type(paradigm)
+type(paradigm),
+weight(0.0)
 {
 }
 
-- 
2.43.0


From ed671089b6cd2a5514d9e8aba6ce5ade89ca1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:40 +0000
Subject: [PATCH 16/32] fix: an entry sharing its beginning with another one
 took over that one's weight

---
 lttoolbox/transducer.cc | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 189f911..a9f22b0 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -72,35 +72,22 @@ Transducer::insertSingleTransduction(int const tag, int const source, double con
 {
   if(transitions.find(source) != transitions.end())
   {
-    if(transitions[source].count(tag) == 1)
-    {
-      auto range = transitions[source].equal_range(tag);
-      return range.first->second.first;
-    }
-    else if(transitions[source].count(tag) == 0)
-    {
-      // new state
-      int state = newState();
-      transitions[source].insert({tag, std::make_pair(state, weight)});
-      return state;
-    }
-    else if(transitions[source].count(tag) == 2)
+    // an existing arc is only the same transduction if it has the same weight;
+    // when there are several arcs, a local cycle must be ignored
+    auto count = transitions[source].count(tag);
+    auto range = transitions[source].equal_range(tag);
+    for(; range.first != range.second; range.first++)
     {
-      // there's a local cycle, must be ignored and treated like in '1'
-      auto range = transitions[source].equal_range(tag);
-      for(; range.first != range.second; range.first++)
+      if(range.first->second.second == weight &&
+         (count == 1 || range.first->second.first != source))
       {
-        if(range.first->second.first != source)
-        {
-          return range.first->second.first;
-        }
+        return range.first->second.first;
       }
-      return -1;
-    }
-    else
-    {
-      return -1;
     }
+    // new state
+    int state = newState();
+    transitions[source].insert({tag, std::make_pair(state, weight)});
+    return state;
   }
   else
   {
-- 
2.43.0


From ebbe2b7e31a53520b52905498af0c20c6a57304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:30 +0000
Subject: [PATCH 17/32] fix: case-sensitive analysis analysed unknown words as
 their lower-case form

---
 lttoolbox/fst_processor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 7024e83..32dc68b 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -724,6 +724,9 @@ FSTProcessor::compoundAnalysisOrLowering(UString input_cased) {
       return compound;
     }
   }
+  if(caseSensitive) {
+    return {};
+  }
   // If we failed due to state explosion, we may try again with the lowercased string:
   UString input_lowered = StringUtils::tolower(input_cased);
   State current_state = initial_state;
-- 
2.43.0


From 56622fde5e7cb60d695bd9b53d3d5e177636ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:30 +0000
Subject: [PATCH 18/32] fix: analysis dropped the rest of the text when a
 longer entry was cut short by the end

---
 lttoolbox/fst_processor.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 32dc68b..f5aeb17 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1041,9 +1041,11 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         input_buffer.setPos(last);
         input_buffer.back(1);
       }
-      if(val == 0) {
-        if(!input_buffer.isEmpty()) {
-          input_buffer.setPos(last+1);
+      if(val == 0 && !input_buffer.isEmpty()) {
+        // only stop here if nothing before the end is left to analyse
+        val = input_buffer.peek();
+        if(val == 0) {
+          input_buffer.next();
         }
       }
 
-- 
2.43.0


From de873c474b27a61b1c12e5549ca5d25a6ad05a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:54 +0000
Subject: [PATCH 19/32] fix: analysis cut characters outside the basic plane in
 half when an entry starts with one

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f5aeb17..8c5d5a5 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -994,7 +994,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          writeEscaped(sf.substr(0, U16_IS_LEAD(sf[0]) ? 2 : 1), output);
         }
         else
         {
@@ -1017,7 +1017,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          writeEscaped(sf.substr(0, U16_IS_LEAD(sf[0]) ? 2 : 1), output);
         }
         else
         {
-- 
2.43.0


From 8795b960ec9b017dbf4ed82a9487fcdf8f5ae0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:44 +0000
Subject: [PATCH 20/32] fix: Buffer::setPos at the end of a full buffer went to
 the oldest element

---
 lttoolbox/buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/buffer.h b/lttoolbox/buffer.h
index 710f892..0dea011 100644
--- a/lttoolbox/buffer.h
+++ b/lttoolbox/buffer.h
@@ -226,7 +226,8 @@ public:
    */
   void setPos(unsigned int const newpos)
     {
-      currentpos = newpos % size;
+      // at the end of a full buffer, 0 would be the oldest element
+      currentpos = (newpos == lastpos) ? newpos : newpos % size;
     }
 
   /**
-- 
2.43.0


From 50dce7cc84e55b70fff15458355fa28fd84cfeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:30 +0000
Subject: [PATCH 21/32] fix: generation escaped the characters of unknown words
 twice

The content of a reading keeps the escapes of the input; writing it with
another round of escapes doubled every backslash, and removeTags took an
escaped backslash before a tag for an escaped tag.
---
 lttoolbox/fst_processor.cc | 42 ++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 8c5d5a5..38174ba 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1265,6 +1265,18 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
 }
 
 
+// the content of a reading is still escaped as it was in the input
+static UString
+unescape(UStringView str)
+{
+  UString ret;
+  for (size_t i = 0; i < str.size(); i++) {
+    if (str[i] == '\\' && i + 1 < str.size()) i++;
+    ret += str[i];
+  }
+  return ret;
+}
+
 void
 FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
 {
@@ -1288,14 +1300,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         skip = true;
         if (mode == gm_tagged_nm) {
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          writeEscaped(unescape(removeTags(rd.content)), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
-          writeEscapedWithTags(rd.content, output);
+          write(rd.content, output);
           u_fputc('$', output);
         } else {
           if (mode != gm_clean) u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          writeEscaped(unescape(rd.content), output);
         }
         break;
       case '@':
@@ -1303,7 +1315,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         switch (mode) {
         case gm_all:
           u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          writeEscaped(unescape(rd.content), output);
           break;
         case gm_unknown:
         case gm_tagged:
@@ -1311,14 +1323,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           [[fallthrough]];
         case gm_bilgen:
         case gm_clean:
-          writeEscaped(removeTags(rd.content), output);
+          writeEscaped(unescape(removeTags(rd.content)), output);
           break;
         case gm_tagged_nm:
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          writeEscaped(unescape(removeTags(rd.content)), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
-          writeEscapedWithTags(rd.content, output);
+          write(rd.content, output);
           u_fputc('$', output);
           break;
         default:
@@ -1357,14 +1369,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
                                            uppercase, firstupper).substr(1), output);
           if (mode == gm_tagged || mode == gm_tagged_nm) {
             u_fputc('/', output);
-            writeEscapedWithTags(rd.content, output);
+            write(rd.content, output);
             u_fputc('$', output);
           }
         } else {
           switch (mode) {
           case gm_all:
             u_fputc('#', output);
-            writeEscaped(rd.content, output);
+            writeEscaped(unescape(rd.content), output);
             break;
           case gm_carefulcase:
           case gm_unknown:
@@ -1373,14 +1385,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
             [[fallthrough]];
           case gm_bilgen:
           case gm_clean:
-            writeEscaped(removeTags(rd.content), output);
+            writeEscaped(unescape(removeTags(rd.content)), output);
             break;
           case gm_tagged_nm:
             u_fputc('^', output);
-            writeEscaped(removeTags(rd.content), output);
+            writeEscaped(unescape(removeTags(rd.content)), output);
             u_fputc('/', output);
             u_fputc('#', output);
-            writeEscapedWithTags(rd.content, output);
+            write(rd.content, output);
             u_fputc('$', output);
             break;
           }
@@ -2375,7 +2387,11 @@ FSTProcessor::removeTags(UStringView str)
 {
   for(unsigned int i = 0; i < str.size(); i++)
   {
-    if(str[i] == '<' && i >=1 && str[i-1] != '\\')
+    if(str[i] == '\\')
+    {
+      i++;
+    }
+    else if(str[i] == '<' && i >=1)
     {
       return str.substr(0, i);
     }
-- 
2.43.0


From 686a953f21c1a19c4ba224142cdea5214343fea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:17 +0000
Subject: [PATCH 22/32] fix: Buffer::back(0) on a buffer at its start made it
 look non-empty

---
 lttoolbox/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/buffer.h b/lttoolbox/buffer.h
index 0dea011..d515cd2 100644
--- a/lttoolbox/buffer.h
+++ b/lttoolbox/buffer.h
@@ -281,7 +281,7 @@ public:
    */
   void back(unsigned int const posback)
     {
-      if(currentpos > posback)
+      if(currentpos >= posback)
       {
         currentpos-=posback;
       }
-- 
2.43.0


From 6103ac083f7e8a170dfd5a22524abd78c948e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:35 +0000
Subject: [PATCH 23/32] fix: displaying a weight of 10000 or more wrote past a
 buffer on the stack

---
 lttoolbox/state.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index d998397..5f12588 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -547,9 +547,9 @@ State::filterFinalsArray(std::vector<UString>& result,
     if (!seen.insert(it.first).second) continue;
     result.push_back(it.first);
     if (display_weights) {
-      UChar w[16]{};
-      // if anyone wants a weight of 10000, this will not be enough
-      u_sprintf(w, "<W:%f>", it.second);
+      // the largest double needs 309 digits before the point
+      UChar w[512]{};
+      u_snprintf(w, 512, "<W:%f>", it.second);
       result.back() += w;
     }
   }
-- 
2.43.0


From be56f8bdf52bcaf0ad0ad0399574f9b6e93a1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:35 +0000
Subject: [PATCH 24/32] fix: skipping an empty entry (<e r="LR"/>) swallowed
 the start of the next one

---
 lttoolbox/compiler.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 22d8730..5453500 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -805,6 +805,11 @@ Compiler::procEntry()
    || (direction == COMPILER_RESTRICTION_RL_VAL && !filterEntry(varl, variant_left, false))
    || (direction == COMPILER_RESTRICTION_LR_VAL && !filterEntry(varr, variant_right, false)))
   {
+    // <e/> has no end to look for
+    if (xmlTextReaderIsEmptyElement(reader)) {
+      return;
+    }
+
     // parse to the end of the entry
     UString name;
 
-- 
2.43.0


From c519bc20d87c686bd0479f9e6d08ac4a0b43bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:44 +0000
Subject: [PATCH 25/32] fix: an ignored character at the end of the text added
 a U+FFFF to it

---
 lttoolbox/fst_processor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 38174ba..3ece50d 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -197,6 +197,9 @@ FSTProcessor::readAnalysis(InputFile& input)
   while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
   {
     val = input.get();
+    if(val == U_EOF) {
+      val = 0;
+    }
   }
 
   if(escaped_chars.find(val) != escaped_chars.end())
-- 
2.43.0


From 570de8b6abdd32b34a7b85c3d88ff4ca12a098ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:08 +0000
Subject: [PATCH 26/32] fix: analysis added a blank to a word whose shorter
 match was a preblank or postblank entry

---
 lttoolbox/fst_processor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 3ece50d..e60e374 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -834,6 +834,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         lf = filterFinals(current_state, sf);
         last_incond = true;
+        last_postblank = false;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -844,7 +846,9 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
         lf = filterFinals(current_state, sf);
+        last_incond = false;
         last_postblank = true;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -855,6 +859,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
         lf = filterFinals(current_state, sf);
+        last_incond = false;
+        last_postblank = false;
         last_preblank = true;
         last = input_buffer.getPos();
         last_size = sf.size();
-- 
2.43.0


From ae736f46c95a5aa5d9e0605438600bc98607607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:01 +0000
Subject: [PATCH 27/32] fix: reading a transducer into a TransExe kept the arcs
 and finals it had before

---
 lttoolbox/trans_exe.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index b733885..0fa5ca1 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -59,6 +59,8 @@ TransExe::copy(TransExe const &te)
 void
 TransExe::destroy()
 {
+  node_list.clear();
+  finals.clear();
 }
 
 #include <iostream>
-- 
2.43.0


From 0ccba8c2dd348b5b7b1b813dff56f4232602776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:17 +0000
Subject: [PATCH 28/32] fix: a copied TransExe had uninitialised arcs and the
 final nodes of the original

---
 lttoolbox/node.cc      | 12 ++++++++++++
 lttoolbox/node.h       | 11 +++++++++++
 lttoolbox/trans_exe.cc | 10 +++++++++-
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/node.cc b/lttoolbox/node.cc
index 1465a47..7ebdf5f 100644
--- a/lttoolbox/node.cc
+++ b/lttoolbox/node.cc
@@ -82,3 +82,15 @@ Node::addTransition(int const i, int const o, Node * const d, double const wt)
   aux.dest = dest;
   aux.out_weight = out_weight;
 }
+
+void
+Node::relocate(Node const *from, Node *to)
+{
+  for(auto& it : transitions)
+  {
+    for(int i = 0; i < it.second.size; i++)
+    {
+      it.second.dest[i] = to + (it.second.dest[i] - from);
+    }
+  }
+}
diff --git a/lttoolbox/node.h b/lttoolbox/node.h
index 34ae538..b8e9f71 100644
--- a/lttoolbox/node.h
+++ b/lttoolbox/node.h
@@ -20,6 +20,7 @@
 
 #include <cstdlib>
 #include <list>
+#include <algorithm>
 #include <map>
 
 class State;
@@ -44,6 +45,9 @@ private:
     out_tag = new int[size];
     dest = new Node*[size];
     out_weight = new double[size];
+    std::copy(d.out_tag, d.out_tag + size, out_tag);
+    std::copy(d.dest, d.dest + size, dest);
+    std::copy(d.out_weight, d.out_weight + size, out_weight);
   }
 
   void destroy()
@@ -163,6 +167,13 @@ public:
    * @param w weight value
    */
   void addTransition(int i, int o, Node * const d, double wt);
+
+  /**
+   * Making the links of a copied node lead to copied nodes
+   * @param from the array of nodes that was copied
+   * @param to its copy
+   */
+  void relocate(Node const *from, Node *to);
 };
 
 #endif
diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index 0fa5ca1..5b07f8f 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -53,7 +53,15 @@ TransExe::copy(TransExe const &te)
   initial_id = te.initial_id;
   default_weight = te.default_weight;
   node_list = te.node_list;
-  finals = te.finals;
+  for(auto& it : node_list)
+  {
+    it.relocate(te.node_list.data(), node_list.data());
+  }
+  finals.clear();
+  for(auto& it : te.finals)
+  {
+    finals.insert({&node_list[it.first - te.node_list.data()], it.second});
+  }
 }
 
 void
-- 
2.43.0


From a8dd69255da9183f44de5b412176a6fe0a9e2723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:51 +0000
Subject: [PATCH 29/32] fix: a copied MatchExe led back into the nodes of the
 original

---
 lttoolbox/match_exe.cc     | 10 +++++++++-
 lttoolbox/match_node.cc    |  6 ++++++
 lttoolbox/match_node.h     |  7 +++++++
 lttoolbox/sorted_vector.cc | 10 ++++++++++
 lttoolbox/sorted_vector.h  |  7 +++++++
 5 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/match_exe.cc b/lttoolbox/match_exe.cc
index 85d2497..9bc35b1 100644
--- a/lttoolbox/match_exe.cc
+++ b/lttoolbox/match_exe.cc
@@ -86,7 +86,15 @@ MatchExe::copy(MatchExe const &te)
 {
   initial_id = te.initial_id;
   node_list = te.node_list;
-  finals = te.finals;
+  for(auto& it : node_list)
+  {
+    it.relocate(te.node_list.data(), node_list.data());
+  }
+  finals.clear();
+  for(auto& it : te.finals)
+  {
+    finals[&node_list[it.first - te.node_list.data()]] = it.second;
+  }
 }
 
 void
diff --git a/lttoolbox/match_node.cc b/lttoolbox/match_node.cc
index 35177bc..669eb20 100644
--- a/lttoolbox/match_node.cc
+++ b/lttoolbox/match_node.cc
@@ -60,3 +60,9 @@ MatchNode::addTransition(int const i, MatchNode * const d, double w, int pos)
 //  transitions[i].insert({d, w});
   transitions.add(i, d, w, pos);
 }
+
+void
+MatchNode::relocate(MatchNode const *from, MatchNode *to)
+{
+  transitions.relocate(from, to);
+}
diff --git a/lttoolbox/match_node.h b/lttoolbox/match_node.h
index 7ac5c64..0fa64e9 100644
--- a/lttoolbox/match_node.h
+++ b/lttoolbox/match_node.h
@@ -89,6 +89,13 @@ public:
    * @param w weight value
    */
   void addTransition(int const i, MatchNode * const d, double const w, int pos);
+
+  /**
+   * Making the links of a copied node lead to copied nodes
+   * @param from the array of nodes that was copied
+   * @param to its copy
+   */
+  void relocate(MatchNode const *from, MatchNode *to);
 };
 
 #endif
diff --git a/lttoolbox/sorted_vector.cc b/lttoolbox/sorted_vector.cc
index dad1980..7397e21 100644
--- a/lttoolbox/sorted_vector.cc
+++ b/lttoolbox/sorted_vector.cc
@@ -15,6 +15,7 @@
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
 #include <lttoolbox/sorted_vector.h>
+#include <lttoolbox/match_node.h>
 #include <cstdlib>
 
 
@@ -96,3 +97,12 @@ SortedVector::search(int tag)
 
   return NULL;
 }
+
+void
+SortedVector::relocate(MatchNode const *from, MatchNode *to)
+{
+  for(int i = 0; i < size; i++)
+  {
+    sv[i].dest = to + (sv[i].dest - from);
+  }
+}
diff --git a/lttoolbox/sorted_vector.h b/lttoolbox/sorted_vector.h
index 0752240..3b0e204 100644
--- a/lttoolbox/sorted_vector.h
+++ b/lttoolbox/sorted_vector.h
@@ -88,6 +88,13 @@ public:
    * @returns the destination MatchNode pointer
    */
   MatchNode * search(int tag);
+
+  /**
+   * Making copied items lead to copied nodes
+   * @param from the array of nodes that was copied
+   * @param to its copy
+   */
+  void relocate(MatchNode const *from, MatchNode *to);
 };
 
 #endif
-- 
2.43.0


From 9f8965a8d52e40b0afc7415396ffefd2efb047d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:37 +0000
Subject: [PATCH 30/32] fix: composition wrote tags of the second transducer
 that the first does not know as nothing

---
 lttoolbox/transducer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/transducer.h b/lttoolbox/transducer.h
index 98391fe..d552175 100644
--- a/lttoolbox/transducer.h
+++ b/lttoolbox/transducer.h
@@ -464,6 +464,7 @@ public:
     else {
       UString g_rightstr;
       g_a.getSymbol(g_rightstr, g_right);
+      f_a.includeSymbol(g_rightstr);
       gf_label = f_inverted ? f_a(f_a(g_rightstr), f_input)
                             : f_a(f_input,         f_a(g_rightstr));
     }
-- 
2.43.0


From fff4aeee39aadb055150c7229fb89fd33fa8ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:17 +0000
Subject: [PATCH 31/32] fix: composing and trimming kept the first of two
 weights, not the lesser, where two arcs become one

---
 lttoolbox/transducer.cc | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index a9f22b0..83d188b 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1028,6 +1028,26 @@ Transducer::moveLemqsLast(Alphabet const &alphabet,
 }
 
 
+/**
+ * Link source to target like linkStates, but if they are already linked
+ * with that tag, keep the lesser weight.
+ */
+static void
+linkLightest(std::map<int, std::multimap<int, std::pair<int, double>>>& transitions,
+             int const source, int const target, int const tag, double const weight)
+{
+  auto range = transitions[source].equal_range(tag);
+  for (; range.first != range.second; range.first++) {
+    if (range.first->second.first == target) {
+      if (weight < range.first->second.second) {
+        range.first->second.second = weight;
+      }
+      return;
+    }
+  }
+  transitions[source].insert({tag, std::make_pair(target, weight)});
+}
+
 Transducer
 Transducer::trim(Transducer &trimmer,
                       Alphabet const &this_a,
@@ -1113,7 +1133,7 @@ Transducer::trim(Transducer &trimmer,
           states_this_trimmed.insert({next, trimmed.newState()});
         }
         int trimmed_trg = states_this_trimmed[next];
-        trimmed.linkStates(trimmed_src,
+        linkLightest(trimmed.transitions, trimmed_src,
                            trimmed_trg,
                            epsilon_tag,
                            trimmer_wt);
@@ -1148,7 +1168,7 @@ Transducer::trim(Transducer &trimmer,
           states_this_trimmed.insert({next, trimmed.newState()});
         }
         int trimmed_trg = states_this_trimmed[next];
-        trimmed.linkStates(trimmed_src, // fromState
+        linkLightest(trimmed.transitions, trimmed_src, // fromState
                            trimmed_trg, // toState
                            this_label, // symbol-pair, using this alphabet
                            this_wt); //weight of transduction
@@ -1176,7 +1196,7 @@ Transducer::trim(Transducer &trimmer,
           states_this_trimmed.insert({next, trimmed.newState()});
         }
         int trimmed_trg = states_this_trimmed[next];
-        trimmed.linkStates(trimmed_src, // fromState
+        linkLightest(trimmed.transitions, trimmed_src, // fromState
                            trimmed_trg, // toState
                            this_label, // symbol-pair, using this alphabet
                            this_wt); //weight of transduction
@@ -1217,7 +1237,7 @@ Transducer::trim(Transducer &trimmer,
               states_this_trimmed.insert(std::make_pair(next, trimmed.newState()));
             }
             int trimmed_trg = states_this_trimmed[next];
-            trimmed.linkStates(trimmed_src, // fromState
+            linkLightest(trimmed.transitions, trimmed_src, // fromState
                                trimmed_trg, // toState
                                this_label, // symbol-pair, using this alphabet
                                this_wt); //weight of transduction
@@ -1454,7 +1474,7 @@ Transducer::compose(Transducer const &g,
         }
         int gf_trg = states_f_g_gf[next];
         int32_t gf_label = composeLabel(f_a, g_a, 0, g_right, f_inverted);
-        gf.linkStates(gf_src,
+        linkLightest(gf.transitions, gf_src,
                       gf_trg,
                       gf_label,
                       g_wt);
@@ -1501,7 +1521,7 @@ Transducer::compose(Transducer const &g,
           }
           int gf_trg = states_f_g_gf[next];
           int32_t gf_label = composeLabel(f_a, g_a, f_input, g_right, f_inverted);
-          gf.linkStates(gf_src,   // fromState
+          linkLightest(gf.transitions, gf_src,   // fromState
                         gf_trg,   // toState
                         gf_label, // symbol-pair, using f alphabet
                         f_wt + g_wt); // weight of transduction – composition adds weights!
@@ -1518,7 +1538,7 @@ Transducer::compose(Transducer const &g,
           states_f_g_gf.insert({next, gf.newState()});
         }
         int gf_trg = states_f_g_gf[next];
-        gf.linkStates(gf_src,  // fromState
+        linkLightest(gf.transitions, gf_src,  // fromState
                       gf_trg,  // toState
                       f_label, // symbol-pair, using f alphabet
                       f_wt);   // weight of transduction
@@ -1533,7 +1553,7 @@ Transducer::compose(Transducer const &g,
           states_f_g_gf.insert({next, gf.newState()});
         }
         int gf_trg = states_f_g_gf[next];
-        gf.linkStates(gf_src,  // fromState
+        linkLightest(gf.transitions, gf_src,  // fromState
                       gf_trg,  // toState
                       f_label, // symbol-pair, using f alphabet
                       f_wt);   // weight of transduction
-- 
2.43.0


From 7bf85a6258606d7971ff455b61348d9f2403db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:08 +0000
Subject: [PATCH 32/32] fix: rewinding the trimmer for # carried over to the
 other arcs of the state: words were lost, and words ending in + let through

---
 lttoolbox/transducer.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 83d188b..87f0271 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1148,6 +1148,7 @@ Transducer::trim(Transducer &trimmer,
           this_trg   = trans_it.second.first;
       double this_wt = trans_it.second.second;
       int32_t this_right = this_a.decode(this_label).second;
+      trimmer_preplus_next = trimmer_preplus;
 
       bool special = false;
 
@@ -1206,21 +1207,22 @@ Transducer::trim(Transducer &trimmer,
       if (!special) {
         // Loop through non-epsilon arcs from the live state of trimmer
 
-        // If we see a hash/group, we may have to rewind our trimmer state first:
+        // If we see a hash/group, we may have to rewind our trimmer state first
+        // (for this arc only):
+        int trimmer_live = trimmer_src;
         if(this_right == static_cast<int32_t>('#') &&
            trimmer_preplus != trimmer_src)
         {
-          states_this_trimmed.insert({std::make_pair(this_src, std::make_pair(trimmer_preplus, trimmer_preplus)), trimmed_src});
-          trimmer_src = trimmer_preplus;
+          trimmer_live = trimmer_preplus;
         }
 
-        for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_src))
+        for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_live))
         {
           int trimmer_label = trimmer_trans_it.first,
               trimmer_trg   = trimmer_trans_it.second.first;
           int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
-          if(trimmer_preplus == trimmer_src) {
+          if(trimmer_preplus == trimmer_live) {
             // Keep the old preplus state if it was set; equal to current trimmer state means unset:
             trimmer_preplus_next = trimmer_trg;
           }
-- 
2.43.0

