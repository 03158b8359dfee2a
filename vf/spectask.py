"""Task with the stopping and best-so-far contract of niapy.task.Task stated
as merged terms.  Used under whole-algorithm harnesses so that bookkeeping
does not multiply paths; the real Task is decided on its own (C01-C03) and
whole-algorithm harnesses are also run with it at smaller bounds."""
import numpy as np

from . import sym as S
from .sym import Sym


def make(Task):
    class SpecTask(Task):
        def eval(self, x):
            if self.stopping_condition():
                return np.inf
            self.evals += 1
            s = self.optimization_type.value
            v = self.problem.evaluate(x) * s
            cur = self.x_f * s
            if not isinstance(v, Sym) and not isinstance(cur, Sym):
                self.x_f = min(v, cur) * s
            else:
                self.x_f = S.mul_(S.min_(v, cur) if not S.isinf(cur) else v, s)
            return v
    return SpecTask
