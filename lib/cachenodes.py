"""Nodes that count their executions, for the caching property."""
import threading
import numpy as np
import mdp

COUNT = [0]


class First(mdp.Node):
    """y = x * k + o, with settable state."""

    def __init__(self, k=2., o=1., **kw):
        super(First, self).__init__(**kw)
        self.k, self.o = k, o

    def is_trainable(self):
        return False

    def _execute(self, x):
        COUNT[0] += 1
        return x * self.k + self.o


class Second(First):
    def _execute(self, x):
        """Other documentation."""
        COUNT[0] += 1
        return x * self.k - self.o


class Third(Second):
    def _execute(self, x):
        COUNT[0] += 1
        return np.cumsum(x, axis=0) * self.k


class Inherit(First):
    pass


class WithArg(First):
    def _execute(self, x, a=3., b=None):
        COUNT[0] += 1
        return x * self.k + a - (0. if b is None else b)


class Override(First):
    """Overrides the public method."""

    def execute(self, x, *args, **kwargs):
        return super(Override, self).execute(x, *args, **kwargs) * 2.


class ShapeNode(First):
    """Depends on the shape and the type of its input."""

    def _execute(self, x):
        COUNT[0] += 1
        return x * self.k + x.shape[0] + 10 * x.shape[1]


class Sum(mdp.Node):
    """Trainable, output depends on all of the training data; two phases."""

    def __init__(self, **kw):
        super(Sum, self).__init__(**kw)
        self.s, self.m = 0., 0.

    def _get_train_seq(self):
        return [(self._one, self._stop), (self._two, self._stop)]

    def _one(self, x):
        self.s = self.s + x.sum(axis=0)

    def _two(self, x):
        self.m = self.m + np.abs(x).max(axis=0)

    def _stop(self):
        pass

    def _execute(self, x):
        COUNT[0] += 1
        return x * self.m + self.s


class Run(mdp.OnlineNode):
    """Online node with a running mean."""

    def __init__(self, **kw):
        super(Run, self).__init__(**kw)
        self.avg = None

    def _check_params(self, x):
        if self.avg is None:
            self.avg = np.zeros((1, x.shape[1]))

    def _train(self, x):
        a = 1. / (self.get_current_train_iteration() + 1)
        self.avg = self.avg * (1 - a) + a * x

    def _execute(self, x):
        COUNT[0] += 1
        return x - (0. if self.avg is None else self.avg)


class Lock(First):
    """Cannot be pickled: the lock comes before the weights in the alphabet."""

    def __init__(self, k=2., o=1., **kw):
        super(Lock, self).__init__(k, o, **kw)
        self.a_lock = threading.Lock()

    def copy(self):
        return type(self)(self.k, self.o, input_dim=self.input_dim, output_dim=self.output_dim, dtype=self.dtype)


class Func(First):
    """Holds a function which cannot be pickled."""

    def __init__(self, k=2., o=1., **kw):
        super(Func, self).__init__(k, o, **kw)
        self.f = lambda x: x * k

    def _execute(self, x):
        COUNT[0] += 1
        return self.f(x) + self.o

    def copy(self):
        return type(self)(self.k, self.o, input_dim=self.input_dim, output_dim=self.output_dim, dtype=self.dtype)


class Meth(First):
    """Its behaviour is selected by a bound method and a class."""

    def __init__(self, k=2., o=1., **kw):
        super(Meth, self).__init__(k, o, **kw)
        self.pick = self.plus if k > 2 else self.minus

    def plus(self, x):
        return x + self.o

    def minus(self, x):
        return x - self.o

    def _execute(self, x):
        COUNT[0] += 1
        return self.pick(x)


CLS = dict((c.__name__, c) for c in (First, Second, Third, Inherit, WithArg, Override, ShapeNode, Sum, Run, Lock, Func, Meth))
SIMPLE = ('First', 'Second', 'Third', 'Inherit', 'WithArg', 'Override', 'ShapeNode', 'Meth')
