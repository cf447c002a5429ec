import numpy as np


class _Problem(object):
    name = "---"


class Explicit_Problem(_Problem):
    def __init__(self, rhs=None, y0=None, t0=0.0, p0=None, sw0=None, name=None):
        self.rhs = rhs
        self.y0 = np.array(y0, dtype=float)
        self.t0 = float(t0)
        self.name = name or self.name


class Implicit_Problem(_Problem):
    def __init__(self, res=None, y0=None, yd0=None, t0=0.0, p0=None, sw0=None, name=None):
        self.res = res
        self.y0 = np.array(y0, dtype=float)
        self.yd0 = np.array(yd0, dtype=float)
        if self.y0.shape != self.yd0.shape:
            # what assimulo does too: y and yd have to be of the same length
            raise ValueError("y0 and yd0 must be of the same length (%d, %d)" % (self.y0.size, self.yd0.size))
        self.t0 = float(t0)
        self.name = name or self.name
        self.algvar = [1.0] * len(self.y0)
