"""Small online nodes with a known recursion, and their plain-python twins."""
import numpy as np
import mdp


def _mat(seed, i, o):
    return np.random.RandomState([seed & 0xffffffff, i, o]).normal(size=(i, o))


class Leaky(mdp.OnlineNode):
    """State s <- a s + (1-a) mean-free update by every row; y = x + c tanh(s). Logs its calls."""

    def __init__(self, a=.7, c=.5, **kw):
        super(Leaky, self).__init__(**kw)
        self.a, self.c = a, c
        self.s = None
        self.log = []
        self.stops = 0

    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _set_output_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _check_params(self, x):
        if self.s is None:
            self.s = np.zeros(x.shape[1])

    def _train(self, x):
        # depends on the way the rows are grouped: one update for every call
        self.log.append(x.shape[0])
        self.s = self.a * self.s + (1 - self.a) * x.sum(axis=0) * (1 + .1 * np.tanh(x[0, 0]))

    def _stop_training(self):
        self.stops += 1

    def _execute(self, x):
        return x + self.c * np.tanh(self.s)

    def _inverse(self, y):
        return y - self.c * np.tanh(self.s)


class Noisy(Leaky):
    """Draws from its generator in every call of the training."""

    def _train(self, x):
        Leaky._train(self, x)
        self.s = self.s + .1 * self.numx_rng.normal(size=x.shape[1])


class Mixer(mdp.OnlineNode):
    """Changes the dimension; projection moves with the data."""

    def __init__(self, seed=0, rate=.2, **kw):
        super(Mixer, self).__init__(**kw)
        self.seed, self.rate = seed, rate
        self.w = None
        self.log = []
        self.stops = 0

    def _check_params(self, x):
        if self.output_dim is None:
            self.output_dim = self.input_dim
        if self.w is None:
            self.w = _mat(self.seed, self.input_dim, self.output_dim)

    def is_invertible(self):
        return False

    def _train(self, x):
        self.log.append(x.shape[0])
        y = np.tanh(x.dot(self.w))
        self.w = (1 - self.rate * .1) * self.w + self.rate * np.tanh(x.T.dot(y))

    def _stop_training(self):
        self.stops += 1

    def _execute(self, x):
        return np.tanh(x.dot(self.w) * .5)


class Super(mdp.OnlineNode):
    """Needs labels and a weight for the training."""

    def __init__(self, rate=.3, **kw):
        super(Super, self).__init__(**kw)
        self.rate = rate
        self.m = None
        self.log = []
        self.stops = 0

    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _set_output_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _check_params(self, x):
        if self.m is None:
            self.m = np.zeros(x.shape[1])

    def _train(self, x, label, gain):
        self.log.append((x.shape[0], label, gain))
        self.m = (1 - self.rate) * self.m + self.rate * gain * (x.sum(axis=0) + label)

    def _stop_training(self):
        self.stops += 1

    def _execute(self, x):
        return x - np.tanh(self.m)

    def _inverse(self, y):
        return y + np.tanh(self.m)


class Phases(mdp.OnlineNode):
    """Several simultaneously active phases; every phase hands (maybe changed) data on."""

    def __init__(self, nph=2, gains=(2., -1., .5), legacy=False, **kw):
        super(Phases, self).__init__(**kw)
        self.nph, self.gains, self.legacy = nph, gains, legacy
        self.acc = None
        self.log = []
        self.stops = []

    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _set_output_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _check_params(self, x):
        if self.acc is None:
            self.acc = [np.zeros(x.shape[1]) for _ in range(self.nph)]

    def _get_train_seq(self):
        def tr(i):
            def f(x):
                self.log.append((i, x.shape[0]))
                self.acc[i] = .8 * self.acc[i] + x.sum(axis=0)
            return f

        def stop(i):
            def f():
                self.stops.append(i)
            return f

        def ex(i):
            def f(x):
                return self.gains[i] * x + np.tanh(self.acc[i])
            return f
        if self.legacy:
            return [(tr(i), stop(i)) for i in range(self.nph)]
        return [(tr(i), stop(i), ex(i)) for i in range(self.nph)]

    def _execute(self, x):
        return x + np.tanh(sum(self.acc))

    def _inverse(self, y):
        return y - np.tanh(sum(self.acc))


class Fixed(mdp.Node):
    """Not trainable, nonlinear, maybe with another output dimension."""

    def __init__(self, seed=0, **kw):
        super(Fixed, self).__init__(**kw)
        self.seed = seed

    def is_trainable(self):
        return False

    def is_invertible(self):
        return self.output_dim is not None and self.input_dim == self.output_dim

    def _m(self, i, o):
        if i == o:
            return np.linalg.qr(_mat(self.seed, i, o))[0]
        return _mat(self.seed, i, o) / np.sqrt(i)

    def _execute(self, x):
        return x.dot(self._m(self.input_dim, self.output_dim))

    def _inverse(self, y):
        return y.dot(self._m(self.input_dim, self.output_dim).T)


class Total(mdp.Node):
    """Ordinary trainable node with several phases; remembers the rows it got."""

    def __init__(self, nph=1, args=False, **kw):
        super(Total, self).__init__(**kw)
        self.nph, self.rows, self.stopped = nph, [[] for _ in range(nph)], []
        self.gain = 0.

    def _get_train_seq(self):
        def tr(i):
            def f(x):
                self.rows[i].append(np.array(x))
            return f

        def stop(i):
            def f():
                self.stopped.append(i)
                if i == self.nph - 1:
                    self.gain = float(np.concatenate(self.rows[i]).mean())
            return f
        return [(tr(i), stop(i)) for i in range(self.nph)]

    def _execute(self, x):
        return x * (1 + np.tanh(self.gain))

    def _inverse(self, y):
        return y / (1 + np.tanh(self.gain))
