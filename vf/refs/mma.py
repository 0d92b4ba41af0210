"""Independent MMA reference: asymptotes, convex separable subproblem, KKT residuals and a dual solver for one constraint."""
import numpy as np


def asymptotes(it, x, x1, x2, low, upp, xmin, xmax):
    r = xmax - xmin
    if it <= 2:
        return x - .5 * r, x + .5 * r
    osc = (x - x1) * (x1 - x2)
    g = np.where(osc > 0, 1.2, np.where(osc < 0, .7, 1.))
    low, upp = x - g * (x1 - low), x + g * (upp - x1)
    return np.clip(low, x - 10 * r, x - .01 * r), np.clip(upp, x + .01 * r, x + 10 * r)


class Sub:
    def __init__(self, x, f, df, low, upp, xmin, xmax, move, df0):
        r = xmax - xmin
        self.low, self.upp = low, upp
        self.alfa = np.maximum.reduce([low + .1 * (x - low), x - move * r, xmin])
        self.beta = np.minimum.reduce([upp - .1 * (upp - x), x + move * r, xmax])
        inv = 1e-5 / np.maximum(r, 1e-5)

        def pq(g):
            p, q = np.maximum(g, 0), np.maximum(-g, 0)
            e = .001 * (p + q) + inv
            return (p + e) * (upp - x)**2, (q + e) * (x - low)**2
        self.p0, self.q0 = pq(df0)
        PQ = [pq(g) for g in df]
        self.P = np.array([a for a, _ in PQ])
        self.Q = np.array([b for _, b in PQ])
        self.b = self.P @ (1 / (upp - x)) + self.Q @ (1 / (x - low)) - f

    def g(self, x):
        return self.P @ (1 / (self.upp - x)) + self.Q @ (1 / (x - self.low)) - self.b

    def f0(self, x):
        return self.p0 @ (1 / (self.upp - x)) + self.q0 @ (1 / (x - self.low))

    def argmin(self, lam):
        p, q = np.sqrt(self.p0 + self.P.T @ lam), np.sqrt(self.q0 + self.Q.T @ lam)
        return np.clip((p * self.low + q * self.upp) / (p + q), self.alfa, self.beta)

    def solve1(self, c):
        """One constraint, a=0, d=0: minimise f0 + c*y subject to g(x) <= y, y >= 0."""
        if self.g(self.argmin(np.zeros(1)))[0] <= 0:
            return self.argmin(np.zeros(1)), 0.
        if self.g(self.argmin(np.array([c])))[0] > 0:
            return self.argmin(np.array([c])), c
        a, b = 0., c
        for _ in range(200):
            m = .5 * (a + b)
            if self.g(self.argmin(np.array([m])))[0] > 0:
                a = m
            else:
                b = m
        return self.argmin(np.array([b])), b
