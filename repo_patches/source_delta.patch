From 4ebad8de55d97afab3e26fd8a558a9b783d4f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 01/30] fix: load special tokens that need JSON escapes

Borrowed strings cannot represent a JSON string with escapes, so a saved
tokenizer with a quote, backslash or control character in a special token
could not be loaded again.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 198eee8..81a576e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -393,7 +393,7 @@ impl<'de> Visitor<'de> for TokenizerVisitor {
         A: serde::de::MapAccess<'de>,
     {
         let mut version: Option<String> = None;
-        let mut special_tokens: Vec<&str> = Vec::new();
+        let mut special_tokens: Vec<String> = Vec::new();
         let mut vocab: Vec<ScoredToken> = Vec::new();
         let mut processors: Vec<ProcessorWrapper> = Vec::new();
 
-- 
2.43.0


From bf7815f3f821d1106ba7f561dff22d515d2cf1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 02/30] fix: an empty special token no longer makes encode loop
 forever

The splitter matched the empty token at every position without advancing.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 81a576e..d20799d 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -326,7 +326,7 @@ impl<'a> Iterator for SpecialTokenSplitter<'a> {
             let suffix = &input[i..];
 
             for special_token in self.special_tokens {
-                if suffix.starts_with(special_token) {
+                if !special_token.is_empty() && suffix.starts_with(special_token) {
                     if i > 0 {
                         self.cursor += i;
                         return Some((&input[..i], false));
-- 
2.43.0


From 9d57bab5e85b9e6d554a18149ff37eada4583bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 03/30] fix: include byte 0xFF in generated vocabularies

---
 src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate.rs b/src/generate.rs
index 5761095..072f2e5 100644
--- a/src/generate.rs
+++ b/src/generate.rs
@@ -161,7 +161,7 @@ impl VocabularyGenerator {
             .map(|(_, freq)| *freq)
             .copied()
             .unwrap_or(1);
-        let mut vocab: Vec<ScoredToken> = (0..255_u8)
+        let mut vocab: Vec<ScoredToken> = (0..=255_u8)
             .map(|b| {
                 seen.insert(vec![b]);
                 ScoredToken::from_u8(b, highest_freq as f64, true)
-- 
2.43.0


From 0c0bef0ef3794b5900cca50201cb50e27ff56a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 04/30] fix: filter only removes tokens scoring lower than the
 minimum

A token scoring exactly the minimum was removed, against the documentation.
---
 src/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.rs b/src/filter.rs
index 2e7d487..a8548c6 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -33,7 +33,7 @@ impl VocabularyFilter {
         for token in vocab.iter() {
             let should_keep = num_tokens_removed >= num_tokens_to_remove
                 || (token.keep && !self.force)
-                || token.score > self.min_score.unwrap_or(f64::NEG_INFINITY);
+                || token.score >= self.min_score.unwrap_or(f64::NEG_INFINITY);
 
             if should_keep {
                 new_vocab.push(token.clone());
-- 
2.43.0


From 6257a8fbd3397e2324b87e3849159471bde35073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 05/30] fix: merge stops when a round finds nothing to merge

The check compared the merges left in the round with the step, which only
holds when at least a whole step of merges is still wanted; otherwise the
loop never ended.
---
 src/merge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/merge.rs b/src/merge.rs
index 22ebcaa..ab685f3 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -36,6 +36,7 @@ impl ModelVocabularyMerger {
         let start_vocab_size = model.vocab_size();
 
         while model.vocab_size() < start_vocab_size + self.num_merges {
+            let round_vocab_size = model.vocab_size();
             let chunk_size = par_chunk_size(samples.len(), 4);
             let pair_frequencies = RwLock::new(FnvHashMap::<(TokenID, TokenID), usize>::default());
             let task = Task::new(
@@ -125,7 +126,7 @@ impl ModelVocabularyMerger {
                 log::info!("Merged a={} b={} freq={} into={}", a, b, freq, token);
             }
 
-            if merges == self.step {
+            if model.vocab_size() == round_vocab_size {
                 log::warn!(
                     "No more merges possible after {} merges, consider increasing the number of merges",
                     model.vocab_size() - start_vocab_size
-- 
2.43.0


From d5fc1a4158ac0a2fa25b28192477ac1733d8250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 06/30] fix: merge no longer appends tokens that are already in
 the vocabulary

---
 src/merge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/merge.rs b/src/merge.rs
index ab685f3..b55270e 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -103,6 +103,11 @@ impl ModelVocabularyMerger {
                 let score = (a.score + b.score) * self.scale_factor;
                 let token = ScoredToken::new(value, score, false);
 
+                // Already in the vocabulary, or merged earlier in this round.
+                if model.token_to_id(&token.value).is_some() {
+                    continue;
+                }
+
                 if token.len() > self.max_token_length
                     || !self.allow.is_match(&String::from_utf8_lossy(&token.value))
                 {
-- 
2.43.0


From 435509563316a46a031bced14429dea1ba0a301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 07/30] fix: prune always terminates

When the tokens to keep outnumbered the pruned size, the size was never hit
exactly and every candidate was kept; a shrink factor of one or more never
shrank the vocabulary. Both looped forever.
---
 src/prune.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/prune.rs b/src/prune.rs
index 4013caf..7e1a5bf 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -22,6 +22,8 @@ impl ModelVocabularyPruner {
 
     pub fn prune(&self, model: &mut Model, samples: &[&str]) -> Result<()> {
         while model.vocab_size() > self.vocab_size {
+            let round_vocab_size = model.vocab_size();
+
             for subiter in 0..self.em_subiters {
                 log::info!("EM subiter {}/{}", subiter + 1, self.em_subiters);
 
@@ -51,6 +53,14 @@ impl ModelVocabularyPruner {
             // Prune the vocabulary.
             let vocab = self.prune_vocab(model, samples)?;
             *model = Model::from(vocab);
+
+            if model.vocab_size() >= round_vocab_size {
+                log::warn!(
+                    "No more tokens can be pruned, vocab_size={}",
+                    model.vocab_size()
+                );
+                break;
+            }
         }
 
         Ok(())
@@ -172,7 +182,9 @@ impl ModelVocabularyPruner {
     /// Prunes the vocabulary by removing the least useful tokens.
     fn prune_vocab(&self, model: &Model, samples: &[&str]) -> Result<Vec<ScoredToken>> {
         let pruned_size: usize = ((model.vocab_size() as f64) * self.shrink_factor) as usize;
-        let pruned_size = pruned_size.max(self.vocab_size);
+        let pruned_size = pruned_size
+            .min(model.vocab_size().saturating_sub(1))
+            .max(self.vocab_size);
 
         // Segment each token in the vocabulary to understand how it would be
         // resegmented if it was removed from the vocabulary.
@@ -307,7 +319,7 @@ impl ModelVocabularyPruner {
 
         candidates.sort_unstable_by(|(_, a), (_, b)| b.partial_cmp(a).unwrap());
         for (id, _) in candidates {
-            if pruned_vocab.len() == pruned_size {
+            if pruned_vocab.len() >= pruned_size {
                 break;
             }
             pruned_vocab.push(model.vocab()[id].clone());
-- 
2.43.0


From ab3e38de5e29e6010ac348d2a0ca9ad75974f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 08/30] fix: prune accepts a normalisation constant or a loss
 of zero

Zero is not "normal" but a valid value, for example when all scores are zero.
---
 src/prune.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prune.rs b/src/prune.rs
index 7e1a5bf..aad9382 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -97,7 +97,7 @@ impl ModelVocabularyPruner {
                     model.populate_nodes(&mut lattice, self.dropout);
 
                     let z = lattice.populate_marginal(&mut expected_frequencies);
-                    if !z.is_normal() {
+                    if !z.is_finite() {
                         panic!(
                             "normalization constant is f64::NaN (z={}, len={})",
                             z,
@@ -300,7 +300,7 @@ impl ModelVocabularyPruner {
 
                 // The difference in likelihood after removing the token.
                 let loss = (freq / samples.len() as f64) * (logprob - alt_logprob);
-                if !loss.is_normal() {
+                if !loss.is_finite() {
                     panic!(
                         "loss is f64::NaN (loss={}, freq={}, logprob={}, alt_logprob={})",
                         loss, freq, logprob, alt_logprob
-- 
2.43.0


From 73859197decd73cb8b4e6b4d657936b3239ca0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 09/30] fix: lattice best path does not include the
 end-of-sentence node

nbest(1) returned the pseudo token u32::MAX at the end of the path, and one
empty path when no segmentation exists, unlike nbest(2) and up.
---
 src/lattice.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 4252a66..5f00006 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -138,7 +138,10 @@ impl<'a> Lattice<'a> {
         }
 
         let mut results = Vec::with_capacity(sentence_len / 4);
-        let mut node_idx = self.begin_nodes[sentence_len][0];
+        let mut node_idx = match self.nodes[self.eos_idx].prev {
+            Some(last_node_idx) => last_node_idx,
+            None => return vec![],
+        };
         while let Some(prev_node_idx) = self.nodes[node_idx].prev {
             let node = self.nodes[node_idx].clone();
             results.push(node.clone());
@@ -164,7 +167,14 @@ impl<'a> Lattice<'a> {
 
         match n {
             0 => vec![],
-            1 => vec![self.viterbi()],
+            1 => {
+                let best = self.viterbi();
+                if best.is_empty() && !self.sentence.is_empty() {
+                    vec![]
+                } else {
+                    vec![best]
+                }
+            }
             _ => {
                 let mut agenda: Agenda = BinaryHeap::new();
                 let mut hypotheses: Vec<Vec<usize>> = vec![];
-- 
2.43.0


From 7dafb7cf5d162dafcf49d25e65522bdb0f72ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 10/30] fix: lattice best path skips tokens that cannot be
 reached

A candidate token at a position no path reaches made viterbi give up, and
left nbest without scores for the rest of the sentence.
---
 src/lattice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 5f00006..1000f42 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -120,6 +120,11 @@ impl<'a> Lattice<'a> {
                 let mut best_node = None;
 
                 for &lnode_idx in &self.end_nodes[pos] {
+                    // Skip nodes that cannot be reached from the start.
+                    if lnode_idx != self.bos_idx && self.nodes[lnode_idx].prev.is_none() {
+                        continue;
+                    }
+
                     let score = self.nodes[lnode_idx].backtrack_score + self.nodes[rnode_idx].score;
 
                     if best_node.is_none() || score > best_score {
@@ -129,7 +134,7 @@ impl<'a> Lattice<'a> {
                 }
 
                 if best_node.is_none() {
-                    return vec![];
+                    continue;
                 }
 
                 self.nodes[rnode_idx].prev = best_node;
-- 
2.43.0


From 535380460df373ac53c19dfb5036ce4fb8977ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 11/30] fix: lattice marginals ignore tokens that are on no
 path

Tokens unreachable from the start or unable to reach the end were given
forward and backward probabilities of one.
---
 src/lattice.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 1000f42..e9c3b5f 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -267,8 +267,10 @@ impl<'a> Lattice<'a> {
         // (beta) of the lattice.
         // - alpha[i] is the log probability of reaching node i from the bos
         // - beta[i] is the log probability of reaching the eos from node i
-        let mut alpha = vec![0.0; num_nodes];
-        let mut beta = vec![0.0; num_nodes];
+        let mut alpha = vec![f64::NEG_INFINITY; num_nodes];
+        let mut beta = vec![f64::NEG_INFINITY; num_nodes];
+        alpha[self.bos_idx] = 0.0;
+        beta[self.eos_idx] = 0.0;
 
         // Calculate forward probabilities (alpha)
         for pos in 0..=len {
@@ -305,6 +307,11 @@ impl<'a> Lattice<'a> {
         let eos_idx = self.eos_idx;
         let z = alpha[eos_idx];
 
+        // The sentence cannot be segmented.
+        if z == f64::NEG_INFINITY {
+            return z;
+        }
+
         // Update the expected frequencies for each node based on its marginal
         // probability
         for pos in 0..len {
@@ -339,7 +346,7 @@ fn log_sum_exp(x: f64, y: f64, init_mode: bool) -> f64 {
     } else {
         let (vmin, vmax) = if x > y { (y, x) } else { (x, y) };
         let k_minus_log_epsilon = 50.0;
-        if vmax > vmin + k_minus_log_epsilon {
+        if vmin == f64::NEG_INFINITY || vmax > vmin + k_minus_log_epsilon {
             vmax
         } else {
             vmax + ((vmin - vmax).exp() + 1.0).ln()
-- 
2.43.0


From 1d8bc8578a11b49f87455ad0216b3c31beb36390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 12/30] fix: export TokenGeeXError from the Python module

The stub documents it, but it could not be imported.
---
 bindings/python/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 6c38d90..7f26dda 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -225,9 +225,10 @@ impl PyTokenizer {
 
 #[pymodule]
 #[pyo3(name = "tokengeex")]
-fn tokengeex_module(_: Python, m: &PyModule) -> PyResult<()> {
+fn tokengeex_module(py: Python, m: &PyModule) -> PyResult<()> {
     // Module: TokenGeeX
     m.add_class::<PyTokenizer>()?;
+    m.add("TokenGeeXError", py.get_type::<TokenGeeXError>())?;
 
     Ok(())
 }
-- 
2.43.0


From 5a0435bb5239d69299929f3a1c07d39724f2cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 13/30] fix: Python save raises when it fails

The IOError was restored, fetched and dropped, so a failed save looked like
a successful one.
---
 bindings/python/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 7f26dda..b80bac1 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -148,17 +148,10 @@ impl PyTokenizer {
         self.tokenizer.special_vocab_size()
     }
 
-    fn save(&self, filename: &str) {
-        match self.tokenizer.save(filename) {
-            Ok(_) => {}
-            Err(e) => {
-                Python::with_gil(|py| {
-                    PyIOError::new_err(e.to_string()).restore(py);
-                    assert!(PyErr::occurred(py));
-                    drop(PyErr::fetch(py));
-                });
-            }
-        }
+    fn save(&self, filename: &str) -> PyResult<()> {
+        self.tokenizer
+            .save(filename)
+            .map_err(|e| PyIOError::new_err(e.to_string()))
     }
 
     fn common_prefix_search(&self, text: &str) -> Vec<TokenID> {
-- 
2.43.0


From fffa0bbff74923c0c2ff200c25ed61b96fec6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 14/30] fix: Python tokenizers can be pickled and copied

The class has __getstate__ and __setstate__ but could not be constructed, so
unpickling always failed.
---
 bindings/python/src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index b80bac1..c5fbd73 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -186,6 +186,25 @@ impl PyTokenizer {
         self.tokenizer.to_string()
     }
 
+    /// Creates an empty tokenizer, to be filled by `__setstate__`.
+    #[new]
+    fn new() -> Self {
+        PyTokenizer::from(tokengeex::Tokenizer::new(
+            tokengeex::Model::default(),
+            Vec::<tokengeex::ProcessorWrapper>::new(),
+            Vec::<String>::new(),
+        ))
+    }
+
+    /// Used to pickle the Tokenizer, at any protocol.
+    fn __reduce__(slf: &PyCell<Self>, py: Python) -> PyResult<(PyObject, PyObject, PyObject)> {
+        Ok((
+            slf.get_type().to_object(py),
+            PyTuple::empty(py).to_object(py),
+            slf.borrow().__getstate__(py)?,
+        ))
+    }
+
     /// Used to pickle the Tokenizer. Useful for sharing a tokenizer between
     /// Python processes.
     fn __getstate__(&self, py: Python) -> PyResult<PyObject> {
-- 
2.43.0


From 6945999f6033bdb9d111deb9e4de6900712a9fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 15/30] fix: reject processors of a missing or unknown type

Any object without a type loaded as the crlf processor and any object with a
form as a unicode processor, whatever its type said.
---
 src/processor.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/processor.rs b/src/processor.rs
index 997c27b..97de948 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -84,6 +84,8 @@ impl<'de> serde::Deserialize<'de> for CrlfProcessor {
             where
                 A: serde::de::MapAccess<'de>,
             {
+                let mut has_type = false;
+
                 while let Some(key) = map.next_key::<&str>()? {
                     match key {
                         "type" => {
@@ -91,6 +93,7 @@ impl<'de> serde::Deserialize<'de> for CrlfProcessor {
                             if value != "crlf" {
                                 return Err(serde::de::Error::unknown_variant(&value, &["crlf"]));
                             }
+                            has_type = true;
                         }
                         _ => {
                             let _: serde::de::IgnoredAny = map.next_value()?;
@@ -98,6 +101,10 @@ impl<'de> serde::Deserialize<'de> for CrlfProcessor {
                     }
                 }
 
+                if !has_type {
+                    return Err(serde::de::Error::missing_field("type"));
+                }
+
                 Ok(CrlfProcessor)
             }
         }
@@ -176,10 +183,21 @@ impl<'de> serde::Deserialize<'de> for UnicodeProcessor {
             where
                 A: serde::de::MapAccess<'de>,
             {
+                let mut has_type = false;
                 let mut form = None;
 
                 while let Some(key) = map.next_key::<&str>()? {
                     match key {
+                        "type" => {
+                            let value = map.next_value::<String>()?;
+                            if value != "unicode" {
+                                return Err(serde::de::Error::unknown_variant(
+                                    &value,
+                                    &["unicode"],
+                                ));
+                            }
+                            has_type = true;
+                        }
                         "form" => {
                             form = Some(map.next_value::<String>()?);
                         }
@@ -189,6 +207,10 @@ impl<'de> serde::Deserialize<'de> for UnicodeProcessor {
                     }
                 }
 
+                if !has_type {
+                    return Err(serde::de::Error::missing_field("type"));
+                }
+
                 let form = form.ok_or_else(|| serde::de::Error::missing_field("form"))?;
 
                 Ok(match form.as_str() {
-- 
2.43.0


From 32372990d24186cc1246aa7b05f8de2c80f8922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:06 +0000
Subject: [PATCH 16/30] fix: long tokens no longer overflow the stack

Dropping or cloning the trie recursed once per byte of the longest token, so
loading a tokenizer with a token of some ten thousand bytes aborted.
---
 src/trie.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/trie.rs b/src/trie.rs
index c68ac71..cc7b334 100644
--- a/src/trie.rs
+++ b/src/trie.rs
@@ -3,11 +3,33 @@
 
 use std::collections::HashMap;
 
-#[derive(Clone)]
 pub struct Trie<Data> {
     root: Node<Data>,
 }
 
+impl<Data: Clone> Clone for Trie<Data> {
+    // Not derived: the recursion would be as deep as the longest element.
+    fn clone(&self) -> Self {
+        let mut trie = Self::default();
+        let mut element = Vec::new();
+        let mut stack = vec![(&self.root, 0, None)];
+
+        while let Some((node, depth, byte)) = stack.pop() {
+            element.truncate(depth);
+            element.extend(byte);
+
+            if let Some(data) = &node.data {
+                trie.push(&element, data.clone());
+            }
+
+            let depth = element.len();
+            stack.extend(node.children.iter().map(|(b, n)| (n, depth, Some(*b))));
+        }
+
+        trie
+    }
+}
+
 impl<Data: Clone> Trie<Data> {
     pub fn push(&mut self, element: &[u8], data: Data) {
         let mut node = &mut self.root;
@@ -71,12 +93,23 @@ impl<Data> Default for Trie<Data> {
     }
 }
 
-#[derive(Clone)]
 struct Node<Data> {
     data: Option<Data>,
     children: HashMap<u8, Node<Data>, fnv::FnvBuildHasher>,
 }
 
+impl<Data> Drop for Node<Data> {
+    // Not left to the compiler: the recursion would be as deep as the longest
+    // element.
+    fn drop(&mut self) {
+        let mut nodes: Vec<_> = self.children.drain().map(|(_, n)| n).collect();
+
+        while let Some(mut node) = nodes.pop() {
+            nodes.extend(node.children.drain().map(|(_, n)| n));
+        }
+    }
+}
+
 impl<Data> Default for Node<Data> {
     fn default() -> Self {
         Self {
-- 
2.43.0


From abc40afb0b153da0f3b2e762460c7b55efac30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 17/30] fix: finished tasks no longer leave their monitoring
 thread behind

Every task left a thread sleeping for up to a second, so that merging or
pruning in many short rounds ran out of threads and aborted.
---
 src/task.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/task.rs b/src/task.rs
index 202a511..81dd027 100644
--- a/src/task.rs
+++ b/src/task.rs
@@ -2,8 +2,9 @@ use rayon::current_num_threads;
 use std::{
     sync::{
         atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed},
-        Arc,
+        Arc, Mutex,
     },
+    thread::Thread,
     time::Instant,
 };
 
@@ -19,6 +20,7 @@ struct TaskInner {
     pub num_samples_processed: AtomicUsize,
     pub num_bytes_processed: AtomicUsize,
     pub finished: AtomicBool,
+    pub monitor: Mutex<Option<Thread>>,
 }
 
 pub struct LocalTask {
@@ -46,6 +48,7 @@ impl Task {
                 num_samples_processed: AtomicUsize::new(0),
                 num_bytes_processed: AtomicUsize::new(0),
                 finished: AtomicBool::new(false),
+                monitor: Mutex::new(None),
             }),
         }
     }
@@ -53,9 +56,9 @@ impl Task {
     pub fn start(&self) {
         let task = self.inner.clone();
 
-        std::thread::spawn(move || {
+        let monitor = std::thread::spawn(move || {
             loop {
-                std::thread::sleep(std::time::Duration::from_secs(1));
+                std::thread::park_timeout(std::time::Duration::from_secs(1));
 
                 if task.finished.load(Relaxed) {
                     break;
@@ -97,6 +100,8 @@ impl Task {
                 task.start.elapsed().as_secs_f64(),
             );
         });
+
+        *self.inner.monitor.lock().unwrap() = Some(monitor.thread().clone());
     }
 
     pub fn local(&self, num_samples: usize) -> LocalTask {
@@ -109,6 +114,11 @@ impl Task {
 
     pub fn finish(&self) {
         self.inner.finished.store(true, Relaxed);
+
+        // Wake up the monitoring thread so that it doesn't outlive the task.
+        if let Some(monitor) = self.inner.monitor.lock().unwrap().take() {
+            monitor.unpark();
+        }
     }
 }
 
-- 
2.43.0


From 88815e09946f0587c579336818fb8b50a9708788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 18/30] fix: merge marks the task of each round as finished

---
 src/merge.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/merge.rs b/src/merge.rs
index b55270e..56b4177 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -76,6 +76,8 @@ impl ModelVocabularyMerger {
                 ltask.finish();
             });
 
+            task.finish();
+
             let mut pairs = pair_frequencies
                 .into_inner()
                 .unwrap()
-- 
2.43.0


From 5738880b68321ccd0d20d66ae4708ab68a087a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:30 +0000
Subject: [PATCH 19/30] fix: document that base_vocab_size leaves out special
 tokens

---
 bindings/python/tokengeex.pyi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/tokengeex.pyi b/bindings/python/tokengeex.pyi
index 78ac178..1697303 100644
--- a/bindings/python/tokengeex.pyi
+++ b/bindings/python/tokengeex.pyi
@@ -190,7 +190,7 @@ class Tokenizer:
     def base_vocab_size(self) -> int:
         """
         Returns:
-            The size of the vocabulary including special tokens.
+            The size of the vocabulary excluding special tokens.
         """
         pass
 
-- 
2.43.0


From 35b374a7ba73a308e8ebe9a9879ceb1d5c29206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:24 +0000
Subject: [PATCH 20/30] fix: nbest no longer loses paths when its agenda is
 shrunk for more than 512 paths

---
 src/lattice.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index e9c3b5f..efff8de 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -2,7 +2,7 @@
 // License: https://github.com/huggingface/tokenizers/blob/4a8105c36671ef46738d6e2799c55198139b87b2/LICENSE
 
 use std::cell::RefCell;
-use std::cmp::{min, Ordering};
+use std::cmp::{max, Ordering};
 use std::collections::BinaryHeap;
 use std::rc::Rc;
 
@@ -230,12 +230,13 @@ impl<'a> Lattice<'a> {
                         }
                         // When the input is too long or contains duplicated phrases,
                         // `agenda` will get extremely big. Here we avoid this case by
-                        // dynamically shrinking the agenda.
-                        let k_max_agenda_size = 100_000;
+                        // dynamically shrinking the agenda. Each of the `n` best
+                        // paths completes one of the `n` best hypotheses.
+                        let k_max_agenda_size = max(100_000, n.saturating_mul(2));
                         let k_min_agenda_size = 512;
                         if agenda.len() > k_max_agenda_size {
                             let mut new_agenda = BinaryHeap::new();
-                            let len = min(k_min_agenda_size, n * 10);
+                            let len = max(k_min_agenda_size, n);
                             for _i in 0..len {
                                 new_agenda.push(agenda.pop().unwrap());
                             }
-- 
2.43.0


From 2985088c2d561c789502389894296c62e7a53795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:43 +0000
Subject: [PATCH 21/30] fix: prune estimates the loss of a token from its own
 alternative

The frequency of a removed token moves to the tokens of its own alternative
segmentation, so the total grows by their number less one, not by the size of
the vocabulary less one.
---
 src/prune.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index aad9382..5e6c1a9 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -288,7 +288,7 @@ impl ModelVocabularyPruner {
                 // After removing token `i`, its frequency is re-assigned
                 // to its alternatives.
                 let alt_logsum =
-                    (sum_token_frequencies + freq * (alternatives.len() - 1) as f64).ln();
+                    (sum_token_frequencies + freq * (alternatives[id].len() - 1) as f64).ln();
 
                 // The frequencies of alternatives are increased by the
                 // frequency of the removed token.
-- 
2.43.0


From 8e4108422cd703bd2b9f1d83d10aa4584137e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 22/30] fix: datagen creates and writes both splits of Chinese
 Markdown

---
 scripts/datagen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/datagen.py b/scripts/datagen.py
index 1e1574a..3639ed3 100644
--- a/scripts/datagen.py
+++ b/scripts/datagen.py
@@ -179,12 +179,12 @@ def generate_chinese_markdown(args):
         "rojas-diego/chinese-markdown", split="train", streaming=True
     )
 
-    for split in ["train" "test"]:
+    for split in ["train", "test"]:
         os.makedirs(f"{args.output}/{split}", exist_ok=True)
 
     files = {
         split: open(f"{args.output}/{split}/chinese-markdown.bin", "wb")
-        for split in ["train" "test"]
+        for split in ["train", "test"]
     }
 
     written = 0
-- 
2.43.0


From d986ff40b998a1570b58c8c61471b76578837c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 23/30] fix: evaluate accepts files without samples

---
 scripts/evaluate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/evaluate.py b/scripts/evaluate.py
index c049cc4..da986dc 100644
--- a/scripts/evaluate.py
+++ b/scripts/evaluate.py
@@ -162,7 +162,7 @@ if __name__ == "__main__":
             for id in tokens:
                 frequency_buckets[id] += 1
 
-        chars_per_token = round(num_chars / num_tokens, 2)
+        chars_per_token = round(num_chars / num_tokens, 2) if num_tokens else 0.0
 
         out["compression"][filename_base] = {
             "num_tokens": num_tokens,
-- 
2.43.0


From 93b584ec156a822dc235dc31adfa7641c2302d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 24/30] fix: find reports the percentage of samples in its
 total

---
 scripts/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/find.py b/scripts/find.py
index 61b5b46..71b4161 100644
--- a/scripts/find.py
+++ b/scripts/find.py
@@ -44,7 +44,7 @@ def count_occurrences(string, path):
                 f"{file:>40} | {occurences:>10} | {occurences_by_sample:>10} | {occurs_in_pct:>10.2f}%"
             )
 
-    occurs_in_pct = (total_occurences / total_num_samples) * 100
+    occurs_in_pct = (total_occurences_by_sample / total_num_samples) * 100
 
     print(
         f"{'total':>40} | {total_occurences:>10} | {total_occurences_by_sample:>10} | {occurs_in_pct:>10.2f}%"
-- 
2.43.0


From 2c2564807554b5dbfca573462da1aba2e974a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 25/30] fix: evaluate reads samples as they are, line breaks
 included

---
 scripts/evaluate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/evaluate.py b/scripts/evaluate.py
index da986dc..1ab278d 100644
--- a/scripts/evaluate.py
+++ b/scripts/evaluate.py
@@ -149,7 +149,7 @@ if __name__ == "__main__":
 
     for file in glob.glob(args.i):
         filename_base = file.split("/")[-1].split(".")[0]
-        samples = open(file).read()
+        samples = open(file, encoding="utf-8", newline="").read()
         samples = samples.split("\0")
         num_tokens = 0
         num_chars = 0
-- 
2.43.0


From 04a61b9f9cc9db296eb8fe1ffc5d89898c83e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 26/30] fix: the Python methods name their parameters as the
 stub documents them

---
 bindings/python/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index c5fbd73..6c53beb 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -148,9 +148,9 @@ impl PyTokenizer {
         self.tokenizer.special_vocab_size()
     }
 
-    fn save(&self, filename: &str) -> PyResult<()> {
+    fn save(&self, filepath: &str) -> PyResult<()> {
         self.tokenizer
-            .save(filename)
+            .save(filepath)
             .map_err(|e| PyIOError::new_err(e.to_string()))
     }
 
@@ -168,8 +168,8 @@ impl PyTokenizer {
     }
 
     #[staticmethod]
-    fn from_str(_py: Python, json: &str) -> Result<PyTokenizer, PyTokenGeeXError> {
-        tokengeex::Tokenizer::from_str(json)
+    fn from_str(_py: Python, s: &str) -> Result<PyTokenizer, PyTokenGeeXError> {
+        tokengeex::Tokenizer::from_str(s)
             .map(PyTokenizer::from)
             .map_err(|e| e.into())
     }
-- 
2.43.0


From 21e87917c8a5baf95be352bc22806ecc3235af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 27/30] fix: trainbpe reads its proportion option

---
 scripts/trainbpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/trainbpe.py b/scripts/trainbpe.py
index 74eb814..264c017 100644
--- a/scripts/trainbpe.py
+++ b/scripts/trainbpe.py
@@ -106,7 +106,7 @@ if __name__ == "__main__":
 
     args = parser.parse_args()
 
-    lib, input, output, vocab_size, proportion = args.l, args.i, args.o, args.v, args.s
+    lib, input, output, vocab_size, proportion = args.l, args.i, args.o, args.v, args.p
 
     print(
         f"Training {lib} BPE model with {vocab_size} vocabulary size from {input}. Writing to {output}."
-- 
2.43.0


From 4aaea01f7ceb1d264561c73aa6dd4c666e6f5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 28/30] fix: convert keeps the most frequent tokens

---
 scripts/convert.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/scripts/convert.py b/scripts/convert.py
index fdab979..a055334 100644
--- a/scripts/convert.py
+++ b/scripts/convert.py
@@ -81,25 +81,28 @@ if __name__ == "__main__":
 
         print("Sorting frequencies")
 
-        sorted_ids = np.argsort(frequencies)[::-1]
+        # Special tokens are not part of the mergeable ranks.
+        sorted_tokens = sorted(
+            mergeable_ranks,
+            key=lambda token: frequencies[mergeable_ranks[token]],
+            reverse=True,
+        )
 
         print("Truncating vocabulary")
 
-        new_vocab_indices = sorted_ids[: args.v]
-
-        print(f"New vocab size: {len(new_vocab_indices)}")
-
         # First, add all the single-byte tokens
-        for i in range(256):
-            mergeable_ranks[bytes([i])] = i
+        new_mergeable_ranks = {bytes([i]): i for i in range(256)}
 
         # Then, add the most frequent tokens
-        for i, id in enumerate(new_vocab_indices):
-            val = enc.decode_single_token_bytes(id)
-            if val not in mergeable_ranks:
-                mergeable_ranks[val] = i + 256
+        for token in sorted_tokens:
+            if len(new_mergeable_ranks) >= args.v:
+                break
+            if token not in new_mergeable_ranks:
+                new_mergeable_ranks[token] = len(new_mergeable_ranks)
+
+        mergeable_ranks = new_mergeable_ranks
 
-        mergeable_ranks = {k: v for k, v in mergeable_ranks.items() if v < args.v}
+        print(f"New vocab size: {len(mergeable_ranks)}")
 
     if args.tiktoken:
         print(f"Saving TikToken vocabulary to {args.tiktoken}")
-- 
2.43.0


From 773a8580d76017929eba558254c4c740b83bda1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:16 +0000
Subject: [PATCH 29/30] fix: merge accepts any number of merges

---
 src/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merge.rs b/src/merge.rs
index 56b4177..a8d5015 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -35,7 +35,7 @@ impl ModelVocabularyMerger {
         let mut ignore = FnvHashSet::<(TokenID, TokenID)>::default();
         let start_vocab_size = model.vocab_size();
 
-        while model.vocab_size() < start_vocab_size + self.num_merges {
+        while model.vocab_size() - start_vocab_size < self.num_merges {
             let round_vocab_size = model.vocab_size();
             let chunk_size = par_chunk_size(samples.len(), 4);
             let pair_frequencies = RwLock::new(FnvHashMap::<(TokenID, TokenID), usize>::default());
-- 
2.43.0


From dac498e64bedf10a0f545096446f5f8243977e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 30/30] fix: freeing the hypotheses of a long sentence does not
 recurse

---
 src/lattice.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lattice.rs b/src/lattice.rs
index efff8de..c49654c 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -376,6 +376,18 @@ impl Hypothesis {
     }
 }
 
+impl Drop for Hypothesis {
+    /// Frees the hypotheses that only this one leads to. One at a time, as a
+    /// recursive drop overflows the stack on long sentences.
+    fn drop(&mut self) {
+        let mut next = self.next.take();
+
+        while let Some(Ok(hypothesis)) = next.map(Rc::try_unwrap) {
+            next = hypothesis.into_inner().next.take();
+        }
+    }
+}
+
 impl PartialEq for Hypothesis {
     fn eq(&self, other: &Self) -> bool {
         self.fx == other.fx
-- 
2.43.0

