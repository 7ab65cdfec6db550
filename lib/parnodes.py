"""Nodes for the parallel checks (importable in worker processes; registers an extension class)."""
import numpy as np
import mdp
from lib.flowzoo import RecBase


class CountNode(mdp.Node):
    """Collects statistics of what it executes; needs a fork for execution."""

    def __init__(self, input_dim=None, output_dim=None, dtype=None):
        super(CountNode, self).__init__(input_dim, output_dim, dtype)
        self.rows = 0
        self.total = 0.
        self.calls = 0

    def is_trainable(self):
        return False

    def _execute(self, x):
        self.rows += len(x)
        self.calls += 1
        self.total = self.total + x.sum(axis=0)
        return x


class ParallelCountNode(mdp.parallel.ParallelExtensionNode, CountNode):
    def _fork(self):
        return self._default_fork()

    def _join(self, forked):
        self.rows += forked.rows
        self.calls += forked.calls
        self.total = self.total + forked.total

    def use_execute_fork(self):
        return True


class SumNode(mdp.Node):
    """Trainable by sums, in some phases; each phase depends on the one before.
    Forks of a started phase hand over just their own sums."""

    def __init__(self, phases=1, local=(), input_dim=None, output_dim=None, dtype=None):
        super(SumNode, self).__init__(input_dim, output_dim, dtype)
        self.phases = phases
        self.local = tuple(local)       # phases that can not be forked
        self.sums = None
        self.n = 0
        self.shift = 0.
        self.hist = []

    def _get_train_seq(self):
        return [(self._tr, self._st) for _ in range(self.phases)]

    def _tr(self, x):
        self.sums = (0 if self.sums is None else self.sums) + np.tanh(x + self.shift).sum(axis=0)
        self.n += len(x)

    def _st(self):
        self.shift = self.shift + self.sums / self.n
        self.hist.append((self.n, self.shift.copy()))
        self.sums, self.n = None, 0

    def is_invertible(self):
        return False

    def _execute(self, x):
        return x + self.shift

    def __getstate__(self):
        d = dict(self.__dict__)
        d.pop('_train_seq', None)
        return d


class ParallelSumNode(mdp.parallel.ParallelExtensionNode, SumNode):
    def _fork(self):
        if self.get_current_train_phase() in self.local:
            raise mdp.parallel.NotForkableParallelException("phase is local")
        f = self._default_fork()
        f._train_phase = self._train_phase
        f.shift = np.array(self.shift)
        f.hist = list(self.hist)
        return f

    def _join(self, f):
        if f.sums is None:
            return
        self.sums = (0 if self.sums is None else self.sums) + f.sums
        self.n += f.n


class RecSum(RecBase):
    """Can not be forked."""

    def _train(self, x):
        pass


class BadTrain(mdp.Node):
    def _train(self, x):
        raise RuntimeError("training fault")

    def _execute(self, x):
        return x


class EnvNode(mdp.Node):
    """Training and execution depend on the extensions that are active."""

    def __init__(self, input_dim=None, output_dim=None, dtype=None):
        super(EnvNode, self).__init__(input_dim, output_dim, dtype)
        self.acc = 0.

    def bias(self):
        return 1.

    def gain(self):
        return 1.

    def is_invertible(self):
        return False

    def _train(self, x):
        self.acc = self.acc + np.tanh(x * self.gain()).sum(axis=0) * self.bias()

    def _execute(self, x):
        return x * self.gain() + self.bias() + 0.01 * self.acc


class ParallelEnvNode(mdp.parallel.ParallelExtensionNode, EnvNode):
    def _fork(self):
        return self._default_fork()

    def _join(self, f):
        self.acc = self.acc + f.acc


@mdp.extension_method('verifenv_bias', EnvNode, 'bias')
def env_bias(self):
    return 5.


@mdp.extension_method('verifenv_gain', EnvNode, 'gain')
def env_gain(self):
    return self._non_extension_gain() * 3.
