""" Linear programming oracle for the convex polytope model: what is certainly positive, certainly negative, and certainly neither. """
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog

import gen

STRICT, OUT = 1e-6, 1e-7


def _solve(c, A_ub, b_ub, A_eq, b_eq, bounds):
    res = linprog(c, A_ub=A_ub, b_ub=b_ub, A_eq=A_eq, b_eq=b_eq, bounds=bounds, method='highs')
    return res.fun if res.status == 0 else None


def depth(P, x):
    """ max over convex combinations of P giving x of the smallest weight (negative infinity if there is none). """
    m, d = P.shape
    A_eq = np.vstack([np.hstack([P.T, np.zeros((d, 1))]), np.append(np.ones(m), 0)])
    A_ub = np.hstack([-np.eye(m), np.ones((m, 1))])  # s <= lambda_i
    res = _solve(np.append(np.zeros(m), -1.), A_ub, np.zeros(m), A_eq, np.append(x, 1.), [(0, None)] * m + [(None, None)])
    return -np.inf if res is None else -res


def distance(P, x):
    """ Distance (maximum norm) of x to the convex hull of P. """
    m, d = P.shape
    A_eq = np.append(np.ones(m), 0).reshape(1, -1)
    A_ub = np.vstack([np.hstack([P.T, -np.ones((d, 1))]), np.hstack([-P.T, -np.ones((d, 1))])])
    return _solve(np.append(np.zeros(m), 1.), A_ub, np.append(x, -x), A_eq, np.ones(1), [(0, None)] * (m + 1))


def full_dimensional(P):
    """ True / False, or None when in doubt. """
    if len(P) <= P.shape[1]:
        return False
    s = np.linalg.svd(P - P.mean(axis=0), compute_uv=False)[P.shape[1] - 1]
    return True if s > 1e-4 else False if s < 1e-13 else None


class Oracle:
    """ The convex set contains 'pos' and no point of 'neg'. """
    def __init__(self, pos, neg):
        self.P, self.N = np.asarray(pos, dtype=float), np.asarray(neg, dtype=float)
        self.d = self.P.shape[1]
        if self.d == 1:
            self.built = len(self.P) > 1
        else:
            self.built = full_dimensional(self.P)

    def cone_is_built(self, v):
        if self.d == 1:
            return len(self.P) > 0
        return full_dimensional(np.vstack([v, self.P]))

    def valid(self):
        """ True / False, or None when in doubt. """
        res = True
        for v in self.N:
            if len(self.P) and distance(self.P, v) <= OUT:
                if self.d == 1 and (self.P.min() <= v[0] <= self.P.max()):
                    return False
                if self.built and depth(self.P, v) > STRICT:
                    return False
                res = None
        return res

    def allowed(self, x):
        """ The labels which may be predicted for x. """
        x = np.asarray(x, dtype=float)
        if self.d == 1:
            return self._allowed_1d(x[0])
        maybe_pos = sure_pos = maybe_neg = sure_neg = False
        if len(self.P) and self.built is not False and distance(self.P, x) <= OUT:
            maybe_pos = True
            sure_pos = bool(self.built) and depth(self.P, x) > STRICT
        for v in self.N:
            if len(self.P) == 0:
                continue
            built = self.cone_is_built(v)
            if built is False:
                continue
            Q = np.vstack([x, self.P])
            if distance(Q, v) <= OUT:
                maybe_neg = True
                sure_neg = sure_neg or (bool(built) and depth(Q, v) > STRICT)
        if sure_neg:
            return {0.}
        if sure_pos:
            return {1., 0.} if maybe_neg else {1.}
        return {0.5} | ({1.} if maybe_pos else set()) | ({0.} if maybe_neg else set())

    def _allowed_1d(self, x):
        P = self.P[:, 0]
        if len(P) > 1 and P.min() <= x <= P.max():
            return {1.}
        for v in self.N[:, 0]:
            if len(P) and ((v > P.max() and x >= v) or (v < P.min() and x <= v)):
                return {0.}
        return {0.5}

    def points(self, r, extra=3):
        """ Points of all kinds: data, inside of the hull, inside of the cones, anywhere. """
        res = [r.uniform(-3, 3, size=self.d) for _ in range(extra)]
        res += list(self.P[:4]) + list(self.N[:4])
        if len(self.P):
            for _ in range(extra):
                res.append(r.dirichlet(np.ones(len(self.P))).dot(self.P))
            for v in self.N[:4]:
                w = r.exponential(size=len(self.P))
                res.append(v + (w[:, None] * (v - self.P)).sum(axis=0) * r.choice([0.05, 1.]))
                p = self.P[r.randint(len(self.P))]
                res.append(v + r.choice([-0.5, 0.5, 2]) * (v - p))  # on the line through a positive and a negative point
        return np.array(res)


@st.composite
def histories(draw, max_d=3, max_n=14, labels=('box', 'box', 'ball', 'ball', 'half', 'outside', 'random')):
    d = draw(st.integers(1, max_d))
    n = draw(st.integers(1, max_n))
    return {'d': d, 'n': n, 'seed': draw(gen.seeds()), 'data': draw(st.sampled_from(['random', 'random', 'grid', 'flat', 'far'])),
            'labels': draw(st.sampled_from(list(labels))), 'sizes': draw(st.lists(st.integers(0, 5), min_size=1, max_size=6))}


def make_data(case):
    """ points, labels and batches """
    r = gen.rs(case['seed'])
    n, d = case['n'], case['d']
    if case['data'] == 'grid':
        X = r.randint(-3, 4, size=(n, d)) / 2.
    else:
        X = r.uniform(-2, 2, size=(n, d)).round(3)
    if case['data'] == 'flat' and d > 1:  # the first points span a flat
        X[:max(1, 2 * n // 3), -1] = X[0, -1]
    if case['data'] == 'far':
        X = X * np.array([1, 40, 0.5, 3])[:d] + 7
    U = X if case['data'] != 'far' else (X - 7) / np.array([1, 40, 0.5, 3])[:d]
    y = {'box': (np.abs(U) < 1.2).all(axis=1), 'ball': (U ** 2).sum(axis=1) < 1.7, 'half': U.sum(axis=1) < 0.4, 'outside': (U ** 2).sum(axis=1) > 1.5,
         'random': r.rand(n) < 0.5}[case['labels']].astype(int)
    batches, i = [], 0
    for size in case['sizes'] + [n]:
        batches.append((X[i:i + size], y[i:i + size]))
        i += size
        if i >= n:
            break
    return X, y, batches
