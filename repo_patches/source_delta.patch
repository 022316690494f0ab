From f8c012cd4139a760394c19486183762c2e983dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:13 +0000
Subject: [PATCH 01/18] fix: linear interpolation of subnormal probabilities
 lost precision or gave -inf

---
 theanolm/backend/probfunctions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/backend/probfunctions.py b/theanolm/backend/probfunctions.py
index a89eaf8..589a748 100644
--- a/theanolm/backend/probfunctions.py
+++ b/theanolm/backend/probfunctions.py
@@ -34,14 +34,16 @@ def interpolate_linear(logprob1, logprob2, weight1):
 
     prob1 = numpy.exp(numpy.float64(logprob1))
     prob2 = numpy.exp(numpy.float64(logprob2))
-    if (prob1 > 0) and (prob2 > 0):
+    smallest_normal = numpy.finfo(numpy.float64).tiny
+    if (prob1 >= smallest_normal) and (prob2 >= smallest_normal):
         weight2 = 1.0 - weight1
         prob = weight1 * prob1
         prob += weight2 * prob2
         return logprob_type(numpy.log(prob))
     else:
-        # An exp() resulted in an underflow (or -inf logprob). Use the decimal
-        # library.
+        # An exp() resulted in an underflow (or -inf logprob). Also a subnormal
+        # result has lost its precision and may become zero when multiplied by
+        # the weight. Use the decimal library.
         getcontext().prec = 16
         d_weight1 = Decimal(float(weight1))
         d_weight2 = Decimal(1.0) - d_weight1
-- 
2.43.0


From 736619a5bf8cf937a9e2ca8990607088885de38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:31 +0000
Subject: [PATCH 02/18] fix: remove unigram probabilities of a replaced
 vocabulary from the state

Saving a vocabulary that has no unigram probabilities to a state that already
contained a vocabulary with unigram probabilities left the old ones in place,
and they were read back as if they belonged to the new vocabulary.
---
 theanolm/vocabulary/vocabulary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/vocabulary/vocabulary.py b/theanolm/vocabulary/vocabulary.py
index df40ad2..9283707 100644
--- a/theanolm/vocabulary/vocabulary.py
+++ b/theanolm/vocabulary/vocabulary.py
@@ -441,6 +441,9 @@ class Vocabulary(object):
             else:
                 h5_vocabulary.create_dataset('unigram_probs',
                                              data=self._unigram_probs)
+        elif 'unigram_probs' in h5_vocabulary:
+            # The probabilities of the vocabulary that is being replaced.
+            del h5_vocabulary['unigram_probs']
 
     def num_words(self):
         """Returns the number of words in the vocabulary. This includes
-- 
2.43.0


From 1148ac8d8c6ef2fad017b49aafabca5086eefc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:57 +0000
Subject: [PATCH 03/18] fix: report negative and unknown node numbers in
 lattice files

---
 theanolm/scoring/kaldilattice.py |  4 ++++
 theanolm/scoring/slflattice.py   | 24 ++++++++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/theanolm/scoring/kaldilattice.py b/theanolm/scoring/kaldilattice.py
index 35e1363..88bcbd5 100644
--- a/theanolm/scoring/kaldilattice.py
+++ b/theanolm/scoring/kaldilattice.py
@@ -87,6 +87,10 @@ class KaldiLattice(Lattice):
                 raise InputError("Invalid number of fields in lattice `{}´ "
                                  "line `{}´.".format(self.utterance_id, line))
             state_from = int(parts[0])
+            if state_from < 0 or (state_to is not None and
+                                  (state_to < 0 or kaldi_word_id < 0)):
+                raise InputError("Negative state or word ID in lattice `{}´ "
+                                 "line `{}´.".format(self.utterance_id, line))
 
             weight_parts = str_weight.split(',')
             graph_logprob = logprob_type(weight_parts[0]) \
diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index f2264c6..e38a6e6 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -117,7 +117,7 @@ class SLFLattice(Lattice):
                              "LINKS field.")
 
         if self._initial_node_id is not None:
-            self.initial_node = self.nodes[self._initial_node_id]
+            self.initial_node = self._find_node(self._initial_node_id)
         else:
             # Find the node with no incoming links.
             self.initial_node = None
@@ -177,6 +177,22 @@ class SLFLattice(Lattice):
             elif (name == 'LINKS') or (name == 'L'):
                 self._num_links = int(value)
 
+    def _find_node(self, node_id):
+        """Returns the node with given ID, or raises an ``InputError`` if there
+        is no such node.
+
+        :type node_id: int
+        :param node_id: ID of a node
+
+        :rtype: Node
+        :returns: the node with the given ID
+        """
+
+        if not 0 <= node_id < len(self.nodes):
+            raise InputError("Node {} does not exist in SLF lattice."
+                             .format(node_id))
+        return self.nodes[node_id]
+
     def _read_slf_node(self, node_id, fields):
         """Reads SLF lattice node fields and saves the information in the given
         node.
@@ -191,7 +207,7 @@ class SLFLattice(Lattice):
         :param fields: the rest of the node fields after ID
         """
 
-        node = self.nodes[node_id]
+        node = self._find_node(node_id)
         for field in fields:
             name, value = _split_slf_field(field)
             if (name == 'time') or (name == 't'):
@@ -222,9 +238,9 @@ class SLFLattice(Lattice):
         for field in fields:
             name, value = _split_slf_field(field)
             if (name == 'START') or (name == 'S'):
-                start_node = self.nodes[int(value)]
+                start_node = self._find_node(int(value))
             elif (name == 'END') or (name == 'E'):
-                end_node = self.nodes[int(value)]
+                end_node = self._find_node(int(value))
             elif (name == 'WORD') or (name == 'W'):
                 word = value
             elif (name == 'acoustic') or (name == 'a'):
-- 
2.43.0


From f71c4f404e43ca387762028e000fa41d66e96dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:58 +0000
Subject: [PATCH 04/18] fix: read long SLF lattices without exceeding the
 recursion limit

---
 theanolm/scoring/slflattice.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index e38a6e6..38f4b74 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -280,11 +280,11 @@ class SLFLattice(Lattice):
         """
 
         visited = {self.initial_node.id}
-
-        def visit_link(link):
-            """A function that is called recursively to move a word from the
-            link end node to the link.
-            """
+        # Links to be visited. An explicit stack is used, because a long lattice
+        # would exceed the recursion limit.
+        links = list(self.initial_node.out_links)
+        while links:
+            link = links.pop()
             end_node = link.end_node
             if hasattr(end_node, 'word'):
                 if link.word is None:
@@ -294,11 +294,7 @@ class SLFLattice(Lattice):
                                      "and links.")
             if end_node.id not in visited:
                 visited.add(end_node.id)
-                for next_link in end_node.out_links:
-                    visit_link(next_link)
-
-        for link in self.initial_node.out_links:
-            visit_link(link)
+                links.extend(end_node.out_links)
 
         for node in self.nodes:
             if hasattr(node, 'word'):
-- 
2.43.0


From 8ba1da35c705e69275f5eec3dd0237f97aec903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:46 +0000
Subject: [PATCH 05/18] fix: visit nodes that also have incoming links from
 unreachable nodes

---
 theanolm/scoring/lattice.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index 3a073e9..df8b638 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -183,8 +183,18 @@ class Lattice(object):
         result = []
         # A queue of nodes to be visited next:
         node_queue = [self.initial_node]
+        # Links from unreachable nodes will never be traversed.
+        reachable = {self.initial_node}
+        unexplored = [self.initial_node]
+        while unexplored:
+            for link in unexplored.pop().out_links:
+                if link.end_node not in reachable:
+                    reachable.add(link.end_node)
+                    unexplored.append(link.end_node)
         # The number of incoming links not traversed yet:
-        in_degrees = [len(node.in_links) for node in self.nodes]
+        in_degrees = [sum(link.start_node in reachable
+                          for link in node.in_links)
+                      for node in self.nodes]
         while node_queue:
             node = node_queue.pop()
             result.append(node)
-- 
2.43.0


From 14e56fa2eb96371f54dd7a2e4e34657a3d9583d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:07 +0000
Subject: [PATCH 06/18] fix: report a cycle when reachable nodes cannot be
 sorted topologically

---
 theanolm/scoring/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index df8b638..f41932d 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -208,6 +208,8 @@ class Lattice(object):
                 elif in_degrees[next_node.id] < 0:
                     raise InputError("Word lattice contains a cycle.")
 
+        if len(result) < len(reachable):
+            raise InputError("Word lattice contains a cycle.")
         if len(result) < len(self.nodes):
             logging.warning("Word lattice contains unreachable nodes.")
         else:
-- 
2.43.0


From f9a091fe455c89438fe9d6aa4a83ec767105a688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:44 +0000
Subject: [PATCH 07/18] fix: score lines that contain out-of-shortlist words

---
 theanolm/scoring/textscorer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 1b36d0a..08d1118 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -336,10 +336,7 @@ class TextScorer(object):
         self.num_words += word_ids.size
         self.num_unks += numpy.count_nonzero(word_ids == unk_id)
 
-        class_ids = [vocabulary.word_id_to_class_id[word_id]
-                     for word_id in word_ids]
-        probs = [vocabulary.get_word_prob(word_id)
-                 for word_id in word_ids]
+        class_ids, probs = vocabulary.get_class_memberships(word_ids)
 
         return self.score_sequence(word_ids, class_ids, probs)
 
-- 
2.43.0


From fceed5281d917dbc35fc2fef5dcf5407fe1ad86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:53 +0000
Subject: [PATCH 08/18] fix: do not divide by zero when no word of a text is
 predicted

---
 theanolm/commands/score.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 00da3f2..04e9a48 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -215,8 +215,10 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                 output_file.write("# Sentence {0}\n".format(num_sentences))
                 _write_word_scores(vocabulary, merged_words, merged_logprobs,
                                    output_file, log_scale)
-                output_file.write("Sentence perplexity: {0}\n\n".format(
-                    numpy.exp(-seq_logprob / num_seq_probs)))
+                if num_seq_probs > 0:
+                    output_file.write("Sentence perplexity: {0}\n".format(
+                        numpy.exp(-seq_logprob / num_seq_probs)))
+                output_file.write("\n")
 
     output_file.write("Number of sentences: {0}\n".format(num_sentences))
     output_file.write("Number of words: {0}\n".format(num_words))
@@ -227,7 +229,7 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                       .format(num_unks))
     output_file.write("Number of zero probabilities: {0}\n"
                       .format(num_zeroprobs))
-    if num_words > 0:
+    if num_probs > 0:
         cross_entropy = -total_logprob / num_probs
         perplexity = numpy.exp(cross_entropy)
         output_file.write("Cross entropy (base e): {0}\n".format(cross_entropy))
-- 
2.43.0


From 8902ba401fc4ea4ea6debbf38305c5754b172d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:16 +0000
Subject: [PATCH 09/18] fix: file IDs of mini-batches wrapped around with more
 than 128 files

---
 theanolm/parsing/batchiterator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/parsing/batchiterator.py b/theanolm/parsing/batchiterator.py
index 9e1810b..0def530 100644
--- a/theanolm/parsing/batchiterator.py
+++ b/theanolm/parsing/batchiterator.py
@@ -209,13 +209,13 @@ class BatchIterator(object, metaclass=ABCMeta):
         shape = (batch_length, num_sequences)
         word_ids = numpy.ones(shape, numpy.int64) * unk_id
         mask = numpy.zeros(shape, numpy.int8)
-        file_ids = numpy.zeros(shape, numpy.int8)
+        file_ids = numpy.zeros(shape, numpy.int64)
 
         for i, sequence in enumerate(sequences):
             length = len(sequence)
 
             sequence_word_ids = numpy.ones(length, numpy.int64) * unk_id
-            sequence_file_ids = numpy.zeros(length, numpy.int8)
+            sequence_file_ids = numpy.zeros(length, numpy.int64)
             for index, (word, file_id) in enumerate(sequence):
                 if word in self._vocabulary:
                     word_id = self._vocabulary.word_to_id[word]
-- 
2.43.0


From 4fd74434132c605bac158e9ff12edcf10f872944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:16 +0000
Subject: [PATCH 10/18] fix: restoring the iterator state kept buffered words
 and the end-of-file flag

---
 theanolm/parsing/shufflingbatchiterator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 5a5ad36..954eca4 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -184,6 +184,9 @@ class ShufflingBatchIterator(BatchIterator):
             raise IncompatibleStateError("Current iteration position is "
                                          "missing from training state.")
         self._next_line = int(h5_iterator.attrs['next_line'])
+        # Forget what was read before the state was restored.
+        self._buffer = []
+        self._end_of_file = False
         logging.debug("Restored iterator to line %d of %d.",
                       self._next_line,
                       self._order.size)
-- 
2.43.0


From 2de2c2ee8368f88dd0cefa03e50a3d6c2ce5508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:52 +0000
Subject: [PATCH 11/18] fix: an incomplete set of validation samples was
 continued in the next epoch

---
 theanolm/training/trainer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 68c7252..ad29685 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -230,6 +230,13 @@ class Trainer(object):
                 if not self._stopper.start_new_minibatch():
                     break
 
+            # If the epoch was shorter than expected (e.g. due to sampling), don't
+            # continue an incomplete set of validation samples in another epoch.
+            self._local_perplexities = []
+            if self._validation_state is not None:
+                self._validation_state.close()
+                self._validation_state = None
+
             if self._validation_iter is None:
                 self._set_candidate_state()
 
-- 
2.43.0


From 5e17d2c9cd9944f0c4dbaef68e3d4352849cc319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:32 +0000
Subject: [PATCH 12/18] fix: NNLM score of a decoded word used the membership
 probability of the previous word

---
 theanolm/scoring/latticedecoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index 1a29dde..be2febe 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -629,7 +629,7 @@ class LatticeDecoder(object):
         input_word_ids = [[limit_to_shortlist(self, token.history[-1])
                            for token in tokens]]
         input_word_ids = numpy.asarray(input_word_ids).astype('int64')
-        input_class_ids, membership_probs = \
+        input_class_ids, _ = \
             self._vocabulary.get_class_memberships(input_word_ids)
         recurrent_state = [token.state for token in tokens]
         recurrent_state = RecurrentState.combine_sequences(recurrent_state)
@@ -641,8 +641,8 @@ class LatticeDecoder(object):
                                           target_class_ids,
                                           *recurrent_state.get())
         logprobs = step_result[0]
-        # Add logprobs from the class membership of the predicted words.
-        logprobs += numpy.log(membership_probs)
+        # Add logprob from the class membership of the predicted word.
+        logprobs += numpy.log(self._vocabulary.get_word_prob(target_word_id))
         output_state = step_result[1:]
 
         for index, token in enumerate(tokens):
-- 
2.43.0


From d0eebaaeb4f3466d4b2b5c88fb9557b35595a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:32 +0000
Subject: [PATCH 13/18] fix: token limit could drop every token of a node, and
 recombination order 0 compared whole histories

---
 theanolm/scoring/latticedecoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index be2febe..acc4fc9 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -108,7 +108,8 @@ class LatticeDecoder(object):
             if recombination_order is None:
                 limited_history = self.history
             else:
-                limited_history = self.history[-recombination_order:]
+                start = max(len(self.history) - recombination_order, 0)
+                limited_history = self.history[start:]
             self.recombination_hash = hash(limited_history)
 
         def recompute_total(self, nn_lm_weight, lm_scale, wi_penalty,
@@ -553,6 +554,8 @@ class LatticeDecoder(object):
         if self._max_tokens_per_node is not None:
             max_tokens = self._max_tokens_per_node // limit_divider
             max_tokens = max(max_tokens, self._abs_min_max_tokens)
+            # Never drop the best token. Options may be floating point numbers.
+            max_tokens = max(int(max_tokens), 1)
             new_tokens = new_tokens[:max_tokens]
         stats['after-max'] = len(new_tokens)
 
-- 
2.43.0


From 876425c93e6e805e2382c76ac60837ed9b75caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:32 +0000
Subject: [PATCH 14/18] fix: --prune-relative was ignored by decode

---
 theanolm/commands/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index b2a3ee1..f8ddd0b 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -135,7 +135,7 @@ def add_arguments(parser):
              "linearly in the number of tokens in a node; those parameters "
              "will be divided by the number of tokens and multiplied by R")
     argument_group.add_argument(
-        '--abs-min-max-tokens', metavar='T', type=float, default=30,
+        '--abs-min-max-tokens', metavar='T', type=int, default=30,
         help="if prune-extra-limit is used, do not tighten max-tokens-per-node "
              "further than this (default is 30)")
     argument_group.add_argument(
@@ -219,7 +219,7 @@ def decode(args):
         'max_tokens_per_node': args.max_tokens_per_node,
         'beam': args.beam,
         'recombination_order': args.recombination_order,
-        'prune_relative': args.prune_relative,
+        'prune_extra_limit': args.prune_relative,
         'abs_min_max_tokens': args.abs_min_max_tokens,
         'abs_min_beam': args.abs_min_beam
     }
-- 
2.43.0


From c886d8ae9eeace4077d03bf35cd1f8a1e1bb45fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:32 +0000
Subject: [PATCH 15/18] fix: scores of null links at the end of a path were
 lost and transitions joined in wrong order when rescoring

---
 theanolm/scoring/rescoredlattice.py | 67 ++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 11 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 41566db..673e117 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -11,6 +11,46 @@ from theanolm.scoring.lattice import Lattice
 class NodeNotFoundError(Exception):
     pass
 
+def _join_transitions(*transitions):
+    """Concatenates transition IDs of consecutive links.
+
+    :type transitions: list of strs
+    :param transitions: underscore-separated transition IDs of each link; empty
+                        strings and ``None`` will be ignored
+
+    :rtype: str
+    :returns: transition IDs of the sequence of links
+    """
+
+    return '_'.join(ids for ids in transitions if ids)
+
+def _follow_nulls_to_final(node):
+    """Follows null links from given node to a final node.
+
+    :type node: Lattice.Node
+    :param node: node where to start searching
+
+    :rtype: tuple of (float, float, str)
+    :returns: the total acoustic log probability, LM log probability, and
+              transition IDs of the path, or ``None`` if there is no such path
+    """
+
+    if node.final:
+        return (0.0, 0.0, "")
+
+    for link in node.out_links:
+        if link.word is None:
+            path = _follow_nulls_to_final(link.end_node)
+            if path is not None:
+                ac_logprob, lm_logprob, transitions = path
+                if link.ac_logprob is not None:
+                    ac_logprob += link.ac_logprob
+                if link.lm_logprob is not None:
+                    lm_logprob += link.lm_logprob
+                transitions = _join_transitions(link.transitions, transitions)
+                return (ac_logprob, lm_logprob, transitions)
+    return None
+
 def _follow_word_from_node(node, word):
     """Follows the link with given word label from given node.
 
@@ -50,8 +90,7 @@ def _follow_word_from_node(node, word):
             ac_logprob += link.ac_logprob
         if link.lm_logprob is not None:
             lm_logprob += link.lm_logprob
-        if link.transitions is not None:
-            transitions += link.transitions
+        transitions = _join_transitions(link.transitions, transitions)
         return (end_node, ac_logprob, lm_logprob, transitions)
 
 class RescoredLattice(Lattice):
@@ -102,7 +141,8 @@ class RescoredLattice(Lattice):
 
             words = [vocabulary.id_to_word[id] if isinstance(id, int) else id
                      for id in word_ids[1:]]
-            return self._follow_words(words, original_lattice, create)
+            node, _ = self._follow_words(words, original_lattice, create)
+            return node
 
         super().__init__()
 
@@ -119,18 +159,22 @@ class RescoredLattice(Lattice):
 
         # Create all the paths that correspond to the final tokens.
         for token in final_tokens:
-            node = follow_word_ids(token.history)
+            words = token.history_words(vocabulary)[1:]
+            node, orig_node = self._follow_words(words, original_lattice)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
             if any(link.end_node.final for link in node.out_links):
                 continue
             # For the final link we set the NNLM log probability of the entire
             # path. The created lattice is a tree, so we can equivalently set
-            # the entire path probability in the final link.
+            # the entire path probability in the final link. The final link
+            # replaces any null links at the end of the original path.
+            ac_logprob, lm_logprob, transitions = \
+                _follow_nulls_to_final(orig_node) or (0.0, 0.0, "")
             link = self.Link(node, final_node, word=None,
-                             ac_logprob=0,
-                             lm_logprob=token.nn_lm_logprob,
-                             transitions="")
+                             ac_logprob=ac_logprob,
+                             lm_logprob=lm_logprob + token.nn_lm_logprob,
+                             transitions=transitions)
             node.out_links.append(link)
             self.links.append(link)
 
@@ -237,8 +281,9 @@ class RescoredLattice(Lattice):
         :param create: if set to ``False``, won't create any nodes but raises a
             ``NodeNotFoundError`` if the path doesn't exist
 
-        :rtype: Lattice.Node
-        :returns: the last node of the path
+        :rtype: tuple of (Lattice.Node, Lattice.Node)
+        :returns: the last node of the path, and the corresponding node of the
+                  original lattice
         """
 
         node = self.initial_node
@@ -271,4 +316,4 @@ class RescoredLattice(Lattice):
             node = link.end_node
             orig_node = orig_end_node
 
-        return node
+        return node, orig_node
-- 
2.43.0


From ad86fb81dbfa759e5d38d84e61123208cfb84270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:32 +0000
Subject: [PATCH 16/18] fix: scalar parameters could not be saved over existing
 values

---
 theanolm/backend/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/backend/parameters.py b/theanolm/backend/parameters.py
index c824bf1..4d67836 100644
--- a/theanolm/backend/parameters.py
+++ b/theanolm/backend/parameters.py
@@ -86,7 +86,7 @@ class Parameters:
 
         for path, param in self._vars.items():
             if path in state:
-                state[path][:] = param.get_value()
+                state[path][...] = param.get_value()
             else:
                 state.create_dataset(path, data=param.get_value())
 
-- 
2.43.0


From cab5c021f4949763621383db3802efd13879007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:32 +0000
Subject: [PATCH 17/18] fix: order of numbered attributes and strict checking
 of the stored architecture

---
 theanolm/network/architecture.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 57a4d8a..219553d 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -62,7 +62,7 @@ class Architecture(object):
                 "network state.")
         h5_inputs = h5_arch['inputs']
         inputs = []
-        for input_id in sorted(h5_inputs.keys()):
+        for input_id in sorted(h5_inputs.keys(), key=int):
             h5_input = h5_inputs[input_id]
             inputs.append(cls._read_h5_dict(h5_input))
 
@@ -233,6 +233,10 @@ class Architecture(object):
                 "Architecture parameter 'inputs' is missing from neural "
                 "network state.")
         h5_inputs = h5_arch['inputs']
+        if len(h5_inputs) != len(self.inputs):
+            raise IncompatibleStateError(
+                "Neural network state has {1} inputs, while this architecture "
+                "has {0}.".format(len(self.inputs), len(h5_inputs)))
         for input_id, input_value in enumerate(self.inputs):
             h5_input = h5_inputs[str(input_id)]
             self._check_h5_dict(h5_input, input_value)
@@ -242,6 +246,10 @@ class Architecture(object):
                 "Architecture parameter 'layers' is missing from neural "
                 "network state.")
         h5_layers = h5_arch['layers']
+        if len(h5_layers) != len(self.layers):
+            raise IncompatibleStateError(
+                "Neural network state has {1} layers, while this architecture "
+                "has {0}.".format(len(self.layers), len(h5_layers)))
         for layer_id, layer in enumerate(self.layers):
             h5_layer = h5_layers[str(layer_id)]
             self._check_h5_dict(h5_layer, layer)
@@ -276,7 +284,7 @@ class Architecture(object):
         for variable in h5_dict:
             values = []
             h5_values = h5_dict[variable]
-            for value_id in sorted(h5_values.attrs.keys()):
+            for value_id in sorted(h5_values.attrs.keys(), key=int):
                 values.append(h5_values.attrs[value_id])
             result[variable] = values
         return result
@@ -323,6 +331,11 @@ class Architecture(object):
                           strings
         """
 
+        for variable in list(h5_group.attrs) + list(h5_group):
+            if variable not in variables:
+                raise IncompatibleStateError(
+                    "Neural network state specifies {}, while this "
+                    "architecture does not.".format(variable))
         for variable, values in variables.items():
             if isinstance(values, list):
                 # For backward compatibility. Remove at some point.
@@ -334,7 +347,16 @@ class Architecture(object):
                             "Neural network state does not specify devices, "
                             "while this architecture uses {}."
                             .format(', '.join(str(x) for x in values)))
+                if variable not in h5_group:
+                    raise IncompatibleStateError(
+                        "Neural network state does not specify {}."
+                        .format(variable))
                 h5_values = h5_group[variable]
+                if len(h5_values.attrs) != len(values):
+                    raise IncompatibleStateError(
+                        "Neural network state has {1} {0}, while this "
+                        "architecture has {2}."
+                        .format(variable, len(h5_values.attrs), len(values)))
                 for value_id, value in enumerate(values):
                     h5_value = h5_values.attrs[str(value_id)]
                     if value != h5_value:
@@ -343,6 +365,10 @@ class Architecture(object):
                             "architecture has {0}={1}."
                             .format(variable, value, h5_value))
             else:
+                if variable not in h5_group.attrs:
+                    raise IncompatibleStateError(
+                        "Neural network state does not specify {}."
+                        .format(variable))
                 h5_value = h5_group.attrs[variable]
                 if values != h5_value:
                     raise IncompatibleStateError(
-- 
2.43.0


From b290ec3c8529a918fb0b3f7801fe893be0d57ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:32 +0000
Subject: [PATCH 18/18] fix: moves involving classes with no occurrences had an
 undefined log likelihood change

---
 wordclasses/numpybigramoptimizer.py  | 43 +++++++++++++++++-----------
 wordclasses/theanobigramoptimizer.py | 17 ++++-------
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index ea58de4..b996317 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -86,9 +86,9 @@ class NumpyBigramOptimizer(BigramOptimizer):
         :returns: log likelihood of the training corpus
         """
 
-        return (numpy.ma.log(self._cc_counts) * self._cc_counts).sum() + \
-               (numpy.ma.log(self._word_counts) * self._word_counts).sum() - \
-               2 * (numpy.ma.log(self._class_counts) * self._class_counts).sum()
+        return self._xlogx_sum(self._cc_counts) + \
+               self._xlogx_sum(self._word_counts) - \
+               2 * self._xlogx_sum(self._class_counts)
 
     def _evaluate(self, word_id, new_class_id):
         """Evaluates how much moving a word to another class would change the
@@ -100,14 +100,12 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class
         old_count = self._class_counts[old_class_id]
         new_count = old_count - self._word_counts[word_id]
-        result = 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = self._class_counts[new_class_id]
         new_count = old_count + self._word_counts[word_id]
-        result += 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = numpy.arange(self.num_classes)
@@ -117,26 +115,26 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class, class X
         old_counts = self._cc_counts[old_class_id,iter_class_ids]
         new_counts = old_counts - self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx_sum(old_counts)
+        result += self._xlogx_sum(new_counts)
 
         # new class, class X
         old_counts = self._cc_counts[new_class_id,iter_class_ids]
         new_counts = old_counts + self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx_sum(old_counts)
+        result += self._xlogx_sum(new_counts)
 
         # class X, old class
         old_counts = self._cc_counts[iter_class_ids,old_class_id]
         new_counts = old_counts - self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx_sum(old_counts)
+        result += self._xlogx_sum(new_counts)
 
         # class X, new class
         old_counts = self._cc_counts[iter_class_ids,new_class_id]
         new_counts = old_counts + self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx_sum(old_counts)
+        result += self._xlogx_sum(new_counts)
 
         # old class, new class
         old_count = self._cc_counts[old_class_id,new_class_id]
@@ -180,6 +178,15 @@ class NumpyBigramOptimizer(BigramOptimizer):
             result += new_count * numpy.log(new_count)
         return result
 
+    @staticmethod
+    def _xlogx_sum(counts):
+        """Computes the sum of ``x * log(x)`` over the elements of an array,
+        which may contain zeros. The sum of a masked array would be masked when
+        all the elements are zeros.
+        """
+
+        return (numpy.ma.log(counts) * counts).filled(0).sum()
+
     def _move(self, word_id, new_class_id):
         """Moves a word to another class.
         """
@@ -193,7 +200,8 @@ class NumpyBigramOptimizer(BigramOptimizer):
 
         # word, word X
         right_word_ids = numpy.asarray(
-            [id for id in self._ww_counts[word_id,:].nonzero()[1] if id != word_id])
+            [id for id in self._ww_counts[word_id,:].nonzero()[1] if id != word_id],
+            dtype='int64')
         right_class_ids = self._word_to_class[right_word_ids]
         counts = self._ww_counts[word_id,right_word_ids].toarray().flatten()
         self._cw_counts[old_class_id,right_word_ids] -= counts
@@ -203,7 +211,8 @@ class NumpyBigramOptimizer(BigramOptimizer):
 
         # word X, word
         left_word_ids = numpy.asarray(
-            [id for id in self._ww_counts[:,word_id].nonzero()[0] if id != word_id])
+            [id for id in self._ww_counts[:,word_id].nonzero()[0] if id != word_id],
+            dtype='int64')
         left_class_ids = self._word_to_class[left_word_ids]
         counts = self._ww_counts[left_word_ids,word_id].toarray().flatten()
         self._wc_counts[left_word_ids,old_class_id] -= counts
diff --git a/wordclasses/theanobigramoptimizer.py b/wordclasses/theanobigramoptimizer.py
index 1854cc1..4321c8c 100644
--- a/wordclasses/theanobigramoptimizer.py
+++ b/wordclasses/theanobigramoptimizer.py
@@ -120,14 +120,12 @@ class TheanoBigramOptimizer(BigramOptimizer):
         # old class
         old_count = old_class_count
         new_count = old_count - word_count
-        result = 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = new_class_count
         new_count = old_count + word_count
-        result += 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = tensor.arange(self.num_classes)
@@ -304,18 +302,13 @@ class TheanoBigramOptimizer(BigramOptimizer):
             result,
             name='class_size')
 
-    @staticmethod
-    def _ll_change(old_count, new_count):
+    @classmethod
+    def _ll_change(cls, old_count, new_count):
         """A helper function that computes the log likelihood change when a
         count changes.
         """
 
-        result = 0
-        if old_count != 0:
-            result -= old_count * tensor.log(old_count)
-        if new_count != 0:
-            result += new_count * tensor.log(new_count)
-        return result
+        return cls._xlogx(new_count) - cls._xlogx(old_count)
 
     @staticmethod
     def _xlogx(x):
-- 
2.43.0

