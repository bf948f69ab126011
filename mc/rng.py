"""Controlled randomness: every uniform draw of the code under test comes from
the checker. Installed before tracer is imported, so that it does not matter how
the code names the functions.

The draws are taken as rows of n numbers (n = last dimension of the request);
row number k of a run is given by source(k, n)."""
import numpy as N


class Control(object):
    def __init__(self):
        self.source = stream
        self.row = 0
        self.n = None

    def reset(self, source=None, n=None):
        """n: the number of rays, if a request (n, k) is to count as k rows."""
        self.source = source or stream
        self.row = 0
        self.n = n

    def draw(self, size):
        if size is None:
            out = self.source(self.row, 1)[0]
            self.row += 1
            return float(out)
        if N.ndim(size) == 0:
            shape = (int(size),)
        else:
            shape = tuple(int(s) for s in size)
        if len(shape) > 1 and self.n is not None and shape[0] == self.n != shape[-1]:
            return self.draw(shape[1:] + shape[:1]).T.reshape(shape) if len(shape) == 2 else \
                N.moveaxis(self.draw(shape[1:] + shape[:1]), -1, 0)
        rows = int(N.prod(shape[:-1])) if len(shape) > 1 else 1
        out = [self.source(self.row + k, shape[-1]) for k in range(rows)]
        self.row += rows
        return N.array(out, dtype=float).reshape(shape)


def stream(k, n):
    """A fixed, evenly filling stream; another one for each row."""
    alpha = (0.6180339887498949, 0.41421356237309515, 0.7320508075688772, 0.23606797749978980, 0.6457513110645906)[k % 5]
    return (0.137*(k + 1) + (N.arange(n) + 0.5)*alpha + 0.0731*(k//5)) % 1.


CONTROL = Control()


def uniform(low=0.0, high=1.0, size=None):
    if size is None and (N.ndim(low) or N.ndim(high)):
        size = N.broadcast(low, high).shape
    return low + (high - low)*CONTROL.draw(size)


def random_sample(size=None):
    return CONTROL.draw(size)


def rand(*shape):
    return CONTROL.draw(shape if shape else None)


class Generator(object):
    """Stands in for RandomState and default_rng()."""
    def __init__(self, *args, **kw):
        pass
    uniform = staticmethod(uniform)
    random_sample = staticmethod(random_sample)
    random = staticmethod(random_sample)
    rand = staticmethod(rand)


def install():
    R = N.random
    R.uniform = uniform
    for nm in ('random_sample', 'random', 'ranf', 'sample'):
        setattr(R, nm, random_sample)
    R.rand = rand
    R.RandomState = Generator
    R.default_rng = Generator
    R.seed = lambda *a: None
