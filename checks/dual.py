"""Second-order Taylor coefficients: differentiates the reference formulae independently of the code."""


class D:
    """value, gradient, Hessian with respect to n parameters"""

    __slots__ = ("v", "g", "h", "n")
    __array_priority__ = 5000.0

    def __init__(self, v, g, h):
        self.v, self.g, self.h, self.n = v, g, h, len(g)

    @staticmethod
    def var(v, i, n):
        return D(v, [1.0 if k == i else 0.0 for k in range(n)], [[0.0] * n for _ in range(n)])

    def lift(self, o):
        if isinstance(o, D):
            return o
        return D(o, [0.0] * self.n, [[0.0] * self.n for _ in range(self.n)])

    def chain(self, f, f1, f2):
        n = self.n
        return D(f, [f1 * a for a in self.g], [[f2 * self.g[i] * self.g[j] + f1 * self.h[i][j] for j in range(n)] for i in range(n)])

    def __add__(self, o):
        o = self.lift(o)
        n = self.n
        return D(self.v + o.v, [a + b for a, b in zip(self.g, o.g)], [[self.h[i][j] + o.h[i][j] for j in range(n)] for i in range(n)])

    __radd__ = __add__

    def __neg__(self):
        return D(-self.v, [-a for a in self.g], [[-a for a in r] for r in self.h])

    def __sub__(self, o):
        return self + (-self.lift(o))

    def __rsub__(self, o):
        return self.lift(o) - self

    def __mul__(self, o):
        o = self.lift(o)
        n = self.n
        return D(
            self.v * o.v,
            [self.v * b + a * o.v for a, b in zip(self.g, o.g)],
            [[self.v * o.h[i][j] + self.g[i] * o.g[j] + self.g[j] * o.g[i] + self.h[i][j] * o.v for j in range(n)] for i in range(n)],
        )

    __rmul__ = __mul__

    def inv(self):
        r = 1.0 / self.v
        return self.chain(r, -r * r, 2.0 * r * r * r)

    def __truediv__(self, o):
        return self * self.lift(o).inv()

    def __rtruediv__(self, o):
        return self.lift(o) * self.inv()

    def __pow__(self, k):
        assert k == 2
        return self * self

    def __ge__(self, o):
        return self.v >= (o.v if isinstance(o, D) else o)

    def __gt__(self, o):
        return self.v > (o.v if isinstance(o, D) else o)


class DEnv:
    """the environment of a check, with elementary functions extended to D"""

    def __init__(self, env):
        self._env = env

    def __getattr__(self, k):
        return getattr(self._env, k)

    def log(self, x):
        if not isinstance(x, D):
            return self._env.log(x)
        r = 1.0 / x.v
        return x.chain(self._env.log(x.v), r, -r * r)

    def sqrt(self, x):
        if not isinstance(x, D):
            return self._env.sqrt(x)
        s = self._env.sqrt(x.v)
        return x.chain(s, 0.5 / s, -0.25 / (s * x.v))

    def exp(self, x):
        if not isinstance(x, D):
            return self._env.exp(x)
        s = self._env.exp(x.v)
        return x.chain(s, s, s)

    def sum(self, xs):
        t = xs[0]
        for x in xs[1:]:
            t = t + x
        return t
