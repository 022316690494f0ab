#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that quoting stays right)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=state or 'none', meaning=state or 'pure function')], observe_at=[observe or "return values"],
                               hook_needed=None)))
V='theanolm/vocabulary/vocabulary.py'
p('P01','Vocabulary construction yields one consistent word/ID/class mapping',
  'For every vocabulary file (words, classes or SRILM classes) and every table of word counts, distinct words receive distinct consecutive IDs, the sentence start, sentence end and unknown-word tokens are always present, every shortlist word belongs to exactly one class, class IDs are consecutive from zero, and the two directions of the word/ID mapping are inverse of each other. '
  'Words given only as out-of-shortlist words come after all shortlist words and have no class; a word listed twice in a vocabulary file is rejected with an error. '
  'The membership probabilities of the words of each class are proportional to the given probabilities (or to the word counts, uniform when all counts are zero) and sum to one.',
  ['inputs'],'all vocabulary files in the three formats, all sets of out-of-shortlist words, all word-count tables and class counts',
  'Tests read two or three fixed vocabulary files; the mapping has to be a bijection for any order, duplicate, class layout and set of out-of-shortlist words.',
  [V,'theanolm/vocabulary/wordclass.py'],[('vocabulary constructors',V+':_add_special_tokens, Vocabulary.__init__, from_file, from_word_counts, compute_probs'),('class membership','theanolm/vocabulary/wordclass.py:WordClass')],
  'word list, word-to-ID dictionary, class list')
p('P02','Any text maps to valid IDs; unknown words go to the unknown-word token',
  'Translating any list of words gives one ID per word in the same order: the ID of the word if it is in the vocabulary, and the ID of the unknown-word token otherwise. '
  'Looking up class memberships of any matrix of word IDs returns, elementwise, the class of the word and its membership probability in that class, treating every out-of-shortlist ID exactly like the unknown-word token and leaving the argument unmodified. '
  'A word is reported to be in the shortlist exactly when its ID is smaller than the number of shortlist words.',
  ['inputs'],'all word lists, all ID matrices of any shape, all vocabularies',
  'Tests look up a handful of in-vocabulary words; the guarantee is elementwise for every matrix and every mixture of shortlist, out-of-shortlist and unknown words.',
  [V],[('lookup',V+':words_to_ids, get_class_memberships, get_word_prob, in_shortlist')])
p('P03','A vocabulary written to a model file is read back unchanged',
  'Saving a vocabulary to a state and constructing a vocabulary from that state gives the same words with the same IDs, the same shortlist, the same class of every word, the same membership probabilities and the same unigram probabilities. '
  'This also holds when the state already contained a vocabulary of the same size, and for vocabularies with out-of-shortlist words and multi-word classes.',
  ['inputs','histories'],'all vocabularies, and all sequences of save operations into the same state',
  'Tests round-trip one small vocabulary; any word, class layout, probability and pre-existing state has to survive.',
  [V],[('state',V+':Vocabulary.get_state, from_state')],observe='HDF5 state and the vocabulary object')
p('P04','Unigram, out-of-shortlist and class probabilities are proper distributions',
  'The unigram probability of each word equals its count divided by the total count of vocabulary words (words missing from the counts have zero). '
  'Out-of-shortlist probabilities are one for every shortlist word and for the out-of-shortlist words are the unigram probabilities renormalised over the out-of-shortlist words, so that they sum to one whenever any of them occurs; without unigram probabilities the request is refused. '
  'The class probability vector holds for each class the sum of unigram probabilities of its words and is therefore normalised over the shortlist.',
  ['inputs'],'all vocabularies and all word-count tables',
  'A normalisation statement is a sum over every word of an arbitrary vocabulary.',
  [V],[('unigram statistics',V+':compute_probs, get_oos_probs, get_class_probs')])
B='theanolm/parsing/batchiterator.py'
p('P05','Linear reading delivers every sentence exactly once, in order',
  'Iterating over input files linearly yields, per pass, every non-empty line exactly once in file order, each with sentence start and end tokens added only where they are missing, and empty lines skipped; when a maximum sequence length is given, each line is cut into consecutive pieces of at most that length that concatenate to the line, and pieces shorter than two words are skipped. '
  'Every mini-batch except the last of a pass holds exactly the requested number of sequences and the last one holds between one and that many. '
  'After a pass ends, the next pass delivers the same batches again, and the reported number of batches equals the number of batches a pass yields.',
  ['inputs','histories'],'all input files, batch sizes and sequence lengths, any number of passes',
  'Loss, duplication or reordering of a sentence depends on how line lengths, chunk borders, batch borders and file ends fall together.',
  [B,'theanolm/parsing/linearbatchiterator.py','theanolm/parsing/functions.py'],
  [('batching',B+':BatchIterator.__next__, __len__, _read_sequence'),('line reader','theanolm/parsing/linearbatchiterator.py:_reset,_readline'),('tokenisation','theanolm/parsing/functions.py:utterance_from_line')],
  'read position, chunk buffer, end-of-file flag')
p('P06','Mini-batch matrices encode exactly the sequences they were built from',
  'For every list of sequences, the word ID, file ID and mask matrices have one column per sequence and as many rows as the longest sequence; the mask is one exactly on the rows before the end of the sequence. '
  'Where the mask is one, the word ID matrix holds the ID of the corresponding word (the unknown-word ID if the word is not in the vocabulary, or if it is out-of-shortlist and mapping out-of-shortlist words was requested) and the file ID is that of the file the word was read from; where it is zero, the word ID is that of the unknown-word token. '
  'The scoring variant additionally returns the original words of each sequence, unpadded and unmapped.',
  ['inputs'],'all lists of sequences of any lengths, all vocabularies, both mapping modes',
  'Tests compare a few hand-made batches; every element of every ragged batch has to be right.',
  [B,'theanolm/parsing/scoringbatchiterator.py'],[('encoding',B+':BatchIterator._prepare_batch'),('scoring encoding','theanolm/parsing/scoringbatchiterator.py:ScoringBatchIterator._prepare_batch')])
S='theanolm/parsing/shufflingbatchiterator.py'
p('P07','Shuffled epochs draw the requested sample of each file and resume exactly',
  'Line starts found in a training file are exactly position zero and the positions right after a newline, excluding the end of the file. '
  'Every shuffled epoch reads from each file exactly the rounded fraction of its lines that was requested, without duplicates unless the fraction exceeds one, labelled with the index of the file they came from. '
  'Restoring a saved iterator state, at any time and whatever the iterator had done in between, continues with exactly the lines that had not yet been read when the state was saved, in the same order.',
  ['inputs','histories','crash_points'],'all files, sampling fractions, random orders, save and restore points',
  'Depends on the position of the save and restore points relative to batch and epoch borders and on the random order.',
  [S,'theanolm/parsing/functions.py'],[('sampling',S+':ShufflingBatchIterator._reset, __init__, SentencePointers'),('state',S+':get_state, set_state'),('line starts','theanolm/parsing/functions.py:find_sentence_starts')],
  'random order, next line, chunk buffer')
L='theanolm/scoring/'
p('P08','Lattice readers build the graph that the file describes',
  'Reading an SLF lattice yields exactly the nodes and links of the file, with the words on links (null words as no word), acoustic and language model scores converted from the log base of the file to natural logarithms, and the initial and final nodes as given in the header or else the node without incoming (outgoing) links. '
  'Reading a Kaldi lattice yields one link per arc line with the negated costs as log probabilities, one common final node appended after all other nodes, and the transitions kept. '
  'In both cases each link is listed exactly once among the links of the lattice, the outgoing links of its start node and the incoming links of its end node, node IDs equal positions in the node list, and malformed lines, missing sizes or dangling node numbers are reported as an error.',
  ['inputs'],'all SLF and Kaldi lattice files',
  'The formats have many optional fields and orders; tests read three files.',
  [L+'slflattice.py',L+'kaldilattice.py',L+'lattice.py'],[('SLF reader',L+'slflattice.py'),('Kaldi reader',L+'kaldilattice.py'),('link construction',L+'lattice.py:_add_link')],
  'node and link lists')
p('P09','Lattice nodes are visited in topological order, earliest time first',
  'For every acyclic lattice the node order used in decoding contains every node reachable from the initial node exactly once, and every link between two of those nodes goes forward in that order. '
  'Whenever more than one node could come next, the one with the smallest time stamp is chosen, nodes without a time stamp last. '
  'A cycle is never silently accepted: it either raises an error or leaves the nodes on it out of the order.',
  ['inputs'],'all lattice graphs, with or without times',
  'A graph algorithm has to be right for every graph; tests sort a few lattices.',
  [L+'lattice.py'],[('topological sort',L+'lattice.py:Lattice.sorted_nodes')])
p('P10','Token scores combine acoustic, lattice LM and neural LM scores as specified',
  'The total log probability of a hypothesis equals its acoustic log probability plus the LM scale times the interpolated LM log probability plus the word insertion penalty times the number of words after the sentence start. '
  'Log-linear interpolation is the weighted sum of the two log probabilities with weights w and 1-w, and linear interpolation is the logarithm of the weighted sum of the two probabilities, also when a probability underflows; a component whose weight is zero is ignored even if its log probability is minus infinity. '
  'Copying a hypothesis preserves its history, recurrent state and three component scores and never changes the original.',
  ['inputs'],'all scores (including minus infinity and values whose exponential underflows), weights, scales and penalties',
  'Real-valued identity over five continuous inputs with special cases at the ends.',
  [L+'latticedecoder.py','theanolm/backend/probfunctions.py'],[('token algebra',L+'latticedecoder.py:Token'),('interpolation','theanolm/backend/probfunctions.py')])
p('P11','Every decoded hypothesis is a lattice path with correctly accumulated scores',
  'With pruning disabled, decoding returns exactly the best hypothesis for every distinct word sequence of a path from the initial to a final node, sorted by total score, each with the word history of its path framed by the sentence start and end tokens, and acoustic and lattice LM scores that are sums over the links of that path. '
  'The neural LM score is the sum over the words of the path and the sentence end of the log probability the network assigns to the word (its class times its membership probability) given the preceding words, where null links add no word, words outside the shortlist are fed to the network as the unknown-word token, and the unknown-word penalty, lattice score or out-of-shortlist distribution replaces or scales their probability as the options say. '
  'The scale and penalty options given to the decoder override those in the lattice, and a lattice whose final node cannot be reached is reported as an error.',
  ['inputs'],'all acyclic lattices, vocabularies, option combinations and network outputs',
  'The number of lattice paths is exponential and options interact; tests compare one or two lattices.',
  [L+'latticedecoder.py'],[('propagation',L+'latticedecoder.py:decode,_propagate,_append_word,_handle_unk_logprob')],'token lists per node')
p('P12','Pruning and recombination keep the best hypotheses and drop only what they may',
  'Recombination keeps, among the tokens of a node that agree on the last words given by the recombination order (the whole history when no order is given), exactly the one with the highest total log probability, and reports every other one together with the history and neural LM score of the one that was kept. '
  'Beam pruning removes only tokens whose total log probability is at least the beam below the best score seen at the same or a later time, and the token limit keeps only the best tokens up to the limit; the remaining tokens stay sorted best first and the best token of a node is never dropped. '
  'Without a limit or a beam nothing is dropped except by recombination.',
  ['inputs'],'all token lists, scores, histories, beams, limits, lattices',
  'Order- and tie-sensitive selection over arbitrary lists of hypotheses.',
  [L+'latticedecoder.py'],[('pruning',L+'latticedecoder.py:_prune,_sorted_recombined_tokens,Token.recompute_hash')],'token lists, list of recombined tokens')
p('P13','A rescored lattice carries exactly the decoded paths and their scores',
  'For a lattice in which words label links uniquely per node, the lattice rebuilt from the final hypotheses contains, for every final hypothesis, a path from the initial node to the single final node with the same words, the acoustic scores and transitions of the original links, and LM scores that add up to the original lattice scores plus the neural LM score of the hypothesis on its final link. '
  'Without recombined hypotheses it contains no other path, its nodes are numbered by position with the final node last, and every link is listed once. '
  'A recombined hypothesis adds a link with its last word that leads into the node of the kept hypothesis, with the LM score shifted by the difference of the neural LM scores.',
  ['inputs'],'all determinised lattices and decoding results',
  'Path-set equality over arbitrary graphs.',
  [L+'rescoredlattice.py'],[('rebuilding',L+'rescoredlattice.py:RescoredLattice')],'nodes, links, word maps')
p('P14','Written lattices read back as the same graph',
  'Writing any lattice in SLF format and reading it back gives the same utterance ID, LM scale, word insertion penalty, initial node, node times, and the same links with the same words and scores (null words stay null). '
  'Writing a lattice whose nodes are numbered by position with the initial node first and the single final node last, reached only by links without words, in Kaldi format and reading it back with the same word table gives the same arcs in the same per-node order with the same words, scores and transitions.',
  ['inputs'],'all lattices whose words contain no white space or quoting characters',
  'Encode/decode pair over an unbounded set of graphs, optional fields and numbers.',
  [L+'lattice.py',L+'slflattice.py',L+'kaldilattice.py'],[('writers',L+'lattice.py:write_slf,write_kaldi')],observe='bytes written')
C='theanolm/commands/score.py'
p('P15','Subword merging conserves words and log probability',
  'Merging subwords yields one log probability fewer than words, keeps the first token as a word of its own, and never changes a word vocabulary. '
  'With prefix/affix marking, consecutive subwords are joined exactly where the left one ends and the right one starts with the marker, every subword appears once and in order, and a word has the sum of the log probabilities of its parts, or none if any part has none. '
  'With boundary marking, words are the runs of subwords between boundary tokens (replaced by a single unknown-word token if the run contains one), each with the sum of its parts and the boundary token that ends it, or none if any of these has none; an unknown marking or a length mismatch is rejected.',
  ['inputs'],'all token sequences, markings and log probability lists including missing values',
  'Sequence segmentation with running sums: unbounded sequences and placements of markers and missing values.',
  [C],[('merging',C+':_merge_subwords')])
p('P16','Reported text scores add up: counts, cross entropy and perplexity',
  'For every scored text, the reported numbers of sentences, words, tokens, predicted probabilities, excluded words and zero probabilities equal the counts over all sentences of the input, and predicted, excluded and zero-probability words add up to the words other than the sentence starts. '
  'The cross entropy is minus the sum of all finite word log probabilities divided by the number of predicted probabilities, converted to the requested base, and the perplexity is its exponential irrespective of the base. '
  'Word-level output lists for every word after the first its predicted log probability in the requested base, in order, or that it is not predicted, and whether it is in the shortlist, out of the shortlist, or out of the vocabulary.',
  ['inputs'],'all texts, scorers, log bases, markings',
  'Accumulation over arbitrarily many batches and sentences with several categories.',
  [C],[('reporting',C+':_score_text,_write_word_scores,_score_utterances')],observe='text written to the output')
T='theanolm/scoring/textscorer.py'
p('P17','Text scoring predicts each word from its predecessors and masks correctly',
  'For every mini-batch, the returned score of a word is the log probability the network gives to the class of that word plus the log of its membership probability, plus its log share of the out-of-shortlist mass when a shortlist is used; inputs outside the shortlist are fed as the unknown-word token, nothing past the end of a sequence is scored, and the first token of a sequence is never scored. '
  'Unknown words are missing from the result when a shortlist with unigram probabilities is used, and unknown and out-of-shortlist words are missing when exclusion is requested without one; otherwise they are scored like any other word. '
  'The total log probability of a sentence and the perplexity of a text count exactly the words that are not missing and have nonzero membership probability, and a score that is not a number, minus infinity or positive is reported as an error.',
  ['inputs'],'all batches, masks, vocabularies, option combinations and network outputs',
  'Elementwise statement about every position of every batch and every option combination.',
  [T],[('scoring',T+':TextScorer.__init__,score_batch,compute_perplexity,score_sequence,score_line')])
R='theanolm/training/trainer.py'
p('P18','Validation happens exactly the configured number of times per epoch',
  'With n updates in an epoch and validation frequency f not greater than n, the trainer validates after exactly f updates of the epoch, the last of them being the last update, and the i-th one is the first update at which at least i times n / f updates have been made. '
  'An event is announced within k updates exactly when it is due now or becomes due within the next k updates, so the samples taken for one validation are the k+1 consecutive updates that end at the validation point.',
  ['inputs','histories'],'all epoch lengths, frequencies, update numbers and look-ahead lengths',
  'Integer arithmetic over all epoch lengths and frequencies; tests try three frequencies on tiny data.',
  [R],[('schedule',R+':Trainer._is_scheduled,_validate')],'update counter')
p('P19','Training keeps the best validated state and rolls back when progress stops',
  'A validation cost is recorded only when a full set of samples was collected and equals the median of the samples; the state stored as the candidate is the one at the centre of the samples of the last validation that improved on the previous candidate cost by more than 0.1 %, or the first one. '
  'When more than the allowed number of validations have passed without improvement, network, iterator, optimizer and counters are restored from the candidate state, the learning rate becomes half of what it was before the restore, and the stopping criterion is informed. '
  'Without validation data the state is saved after every epoch, epoch numbers increase by one, and the update counter restarts at zero.',
  ['histories'],'all sequences of perplexities, patience values, epoch lengths, frequencies and sample counts',
  'A state machine over unbounded histories of validation results.',
  [R],[('candidate state machine',R+':Trainer._validate,_has_improved,_set_candidate_state,_decrease_learning_rate,_reset_state,train')],
  'cost history, candidate index, candidate state, sample list')
p('P20','Stopping criteria stop exactly when their limits say so',
  'Every criterion refuses a new epoch exactly when the epoch number exceeds the maximum number of epochs or when it would not let training continue with another mini-batch; the plain criterion never stops within an epoch, and the others never stop while the epoch number is at most the minimum number of epochs. '
  'Past the minimum, the no-improvement criterion stops exactly when, at the latest decrease of the learning rate, there was no candidate cost or it was not lower than at the decrease before, and no lower candidate cost has been found since; the first decrease with a candidate cost never stops it. '
  'Past the minimum, the annealing-count criterion stops exactly when the learning rate has been decreased more often than the configured count.',
  ['histories'],'all sequences of epochs, decreases, and validation outcomes',
  'Behaviour over histories of calls with several interacting limits.',
  ['theanolm/training/stoppers.py'],[('stoppers','theanolm/training/stoppers.py')])
p('P21','Model files restore architecture, parameters, optimizer and trainer exactly',
  'Saving network, optimizer and trainer to a state and restoring them from it gives every parameter the same value, the same network description (all options, the inputs and the layers, in the same order, with the order of every layer input kept), the same optimizer parameters and hyperparameters, and the same counters and cost history. '
  'Restoring never mixes parameters up: each value goes to the parameter of the same name, and a missing value is reported as an error. '
  'Checking a network against a state succeeds exactly when all stored options, inputs and layers are equal.',
  ['inputs','histories'],'all networks with any number of inputs, layers and layer inputs, all parameter values, states that are new or overwritten',
  'Round trip over an unbounded family of descriptions and pre-existing states.',
  ['theanolm/network/architecture.py','theanolm/backend/parameters.py','theanolm/training/basicoptimizer.py',R],
  [('architecture','theanolm/network/architecture.py:from_state,get_state,check_state'),('parameters','theanolm/backend/parameters.py:get_state,set_state'),('optimizer','theanolm/training/basicoptimizer.py:get_state,set_state')],observe='HDF5 state')
W='wordclasses/'
p('P22','Word class optimisation keeps its statistics exact and only improves likelihood',
  'After any sequence of moves, the class counts, class bigram counts, word-class and class-word counts equal what counting the bigrams with the current class assignment gives, and every word is in exactly one class. '
  'The predicted change of the log likelihood for a move equals the difference of the log likelihoods before and after the move. '
  'A word is moved only when the log likelihood increases and then to the class with the largest increase; the special tokens never move and no class loses its last word.',
  ['inputs','histories'],'all word and bigram statistics, class assignments, sequences of moves',
  'Incremental statistics over unbounded sequences of moves.',
  [W+'bigramoptimizer.py',W+'numpybigramoptimizer.py'],[('exchange algorithm',W+'bigramoptimizer.py:move_to_best_class,_find_best_move'),('statistics',W+'numpybigramoptimizer.py:_move,_evaluate,log_likelihood')],'count matrices')
p('P23','Recurrent states keep sequences separate when combined and split',
  'Combining the states of several sequences places the i-th sequence in the i-th column of every state vector, for every recurrent layer, unchanged, and setting a state accepts exactly the shapes the network declares. '
  'A fresh state is all zeros with one column per sequence. '
  'Splitting a weight matrix over devices gives every device consecutive columns that cover the matrix exactly once in order and differ in size by at most one.',
  ['inputs'],'all numbers of sequences, layers and layer sizes; all device counts',
  'Shape and index arithmetic for arbitrary sizes.',
  ['theanolm/network/recurrentstate.py','theanolm/network/basiclayer.py'],[('state','theanolm/network/recurrentstate.py'),('split','theanolm/network/basiclayer.py:_split_per_device')])
p('P24','Lattice batches partition the input over jobs',
  'For every list of lattice paths and every number of jobs, the jobs together process every non-empty path of the command line and the list file exactly once, job i taking every n-th path starting from the i-th in order, and invalid job numbers are rejected. '
  'A file with several Kaldi lattices separated by empty lines yields every lattice exactly once and in order, including the last one if the file does not end in an empty line. '
  'The word table used for reading is the inverse of the one used for writing.',
  ['inputs'],'all path lists, job counts, job numbers and Kaldi files',
  'Partition statement over all lists and job counts.',
  [L+'latticebatch.py',L+'kaldilattice.py'],[('job slicing',L+'latticebatch.py:LatticeBatch.__init__'),('file splitting',L+'latticebatch.py:LatticeBatch.__iter__')])
p('P25','The training cost is the masked mean of target log probabilities',
  'For every mini-batch the training cost is minus the sum of target log probabilities over the positions where the mask is set divided by their number, where unknown-word targets are left out if exclusion is requested, so padding never influences the cost. '
  'Gradient normalisation rescales all gradients by the same non-negative factor, min(norm, limit) / (norm + stability term), so that their norm never exceeds the limit, and, up to the numerical stability term, leaves them unchanged when it does not exceed it.',
  ['inputs'],'all batches, masks, gradients',
  'Elementwise statement over arbitrary batches.',
  ['theanolm/training/cost.py','theanolm/training/basicoptimizer.py'],[('cost','theanolm/training/cost.py:Cost.get_tensor'),('normalisation','theanolm/training/basicoptimizer.py:_normalize')])
p('P26','Network predictions never depend on later words or on padding',
  'For every network description, the probabilities predicted at a time step of a sequence do not depend on the words at later time steps (except in layers declared bidirectional), on other sequences of the same mini-batch, or on padding.',
  ['inputs'],'all architectures, parameters and batches',
  'Non-interference over all inputs and parameter values.',
  ['theanolm/network/'],[('layers','theanolm/network/*.py')])
p('P27','Sampling output approximations leave the trained distribution unbiased',
  'The noise-contrastive and blackout approximations use noise samples drawn from the declared noise distribution and correct for its probabilities, so that the optimum of the approximate cost is the model that the exact cost would select.',
  ['inputs','schedules'],'all models and noise distributions',
  'A statement about expectations over random samples.',
  ['theanolm/training/cost.py','theanolm/network/samplingoutputlayer.py'],[('sampling','theanolm/network/samplingoutputlayer.py')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
