"""A small deterministic network made of Theano operations, given to the public constructors in place of Network.

The prediction after a history depends on all of its words and their classes."""
import numpy
import theano
import theano.tensor as tensor

K = 3


class FakeNetwork:
    def __init__(self, vocabulary, seed=0, oos_logprobs=None):
        self.vocabulary = vocabulary
        r = numpy.random.RandomState(seed)
        nc, nw = vocabulary.num_classes(), vocabulary.num_shortlist_words()
        f = theano.config.floatX
        self.E = r.uniform(-1, 1, (nw, K)).astype(f)
        self.C = r.uniform(-1, 1, (nc, K)).astype(f)
        self.W = r.uniform(-3, 3, (K, nc)).astype(f)
        self.factor = theano.shared(numpy.asarray(1.0, f), 'factor')
        self.input_word_ids = tensor.matrix('fake/input_word_ids', dtype='int64')
        self.input_class_ids = tensor.matrix('fake/input_class_ids', dtype='int64')
        self.target_class_ids = tensor.matrix('fake/target_class_ids', dtype='int64')
        self.mask = tensor.matrix('fake/mask', dtype='int8')
        self.is_training = tensor.scalar('fake/is_training', dtype='int8')
        st = tensor.tensor3('fake/state', dtype=f)
        self.recurrent_state_input = [st]
        self.recurrent_state_size = [K]
        self.oos_logprobs = oos_logprobs
        self.step = False
        x = tensor.constant(self.E)[self.input_word_ids] + tensor.constant(self.C)[self.input_class_ids]
        self._h = tensor.cumsum(x, axis=0)
        self._hs = st + x
        self.recurrent_state_output = [self._hs]

    def _probs(self, h):
        a = tensor.dot(tensor.tanh(h), tensor.constant(self.W))
        e = tensor.exp(a)
        return e / e.sum(axis=2, keepdims=True) * self.factor

    def target_probs(self):
        p = self._probs(self._hs if self.step else self._h)
        t, s = self.target_class_ids.shape[0], self.target_class_ids.shape[1]
        return p[tensor.arange(t).dimshuffle(0, 'x'), tensor.arange(s).dimshuffle('x', 0), self.target_class_ids]

    # the same in numpy
    def state(self, words, classes):
        h = numpy.zeros(K)
        for w, c in zip(words, classes): h = h + self.E[w].astype(float) + self.C[c].astype(float)
        return h

    def probs(self, words, classes):
        e = numpy.exp(numpy.tanh(self.state(words, classes)).dot(self.W.astype(float)))
        return e / e.sum() * float(self.factor.get_value())
