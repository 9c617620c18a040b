import mpmath
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import OptimizeResult

import core
import gen
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.penalty import L2Penalty, PenaltyTerm

check = core.Check('C26', rule='random data (matrices, and one matrix per subspace), labels, weights from tiny to margins of several hundreds, subspace structures and penalties; loss and gradient are those '
                   'handed to the optimizer by fit(); non-trivial: both labels and a loss which is not negligible',
                   assumptions=['labels 0 and 1', 'margins up to 600 (beyond, probabilities underflow)'])


class Capture:
    """ Optimizer which keeps the functions it was asked to minimize. """
    def minimize(self, x0, func, grad):
        self.x0, self.func, self.grad = x0, func, grad
        return OptimizeResult(x=x0, fun=0., success=True)


class MiniBatch(Capture):
    def __init__(self, batch_size):
        self.batch_size = batch_size


class QuarticPenalty(PenaltyTerm):
    def loss(self, x):
        return self.penalty * (x ** 4).sum()

    def grad(self, x):
        return 4 * self.penalty * x ** 3


@st.composite
def problems(draw):
    n, d, k = draw(st.integers(1, 7)), draw(st.integers(1, 4)), draw(st.integers(1, 3))
    return {'n': n, 'd': d, 'k': k, 'bias': draw(st.booleans()), 'seed': draw(gen.seeds()), 'scale': draw(st.sampled_from([0.1, 1., 1., 5., 30., 200.])),
            'parts': draw(st.one_of(st.none(), st.lists(st.lists(st.integers(0, d - 1), min_size=1, max_size=d, unique=True), min_size=k, max_size=k))), 'cube': draw(st.booleans()),
            'penalty': draw(st.sampled_from([None, None, 'L2', 'quartic'])), 'ydtype': draw(st.sampled_from(['float', 'int', 'bool', 'float32'])), 'y': draw(gen.bits(n))}


def mp_loss(X, y, W, case, lam):
    """ Mean negative log-likelihood of 'all subspaces positive', with 60 digits; W: list of rows (weights then bias). """
    d = X.shape[1]
    total = mpmath.mpf(0)
    for i in range(len(X)):
        log_p = mpmath.mpf(0)
        for j, w in enumerate(W):
            x = X[i, :, j] if X.ndim == 3 else X[i]
            m = sum((mpmath.mpf(float(x[q])) * w[q] for q in range(d)), w[d] if case['bias'] else mpmath.mpf(0))
            log_p -= mpmath.log1p(mpmath.exp(-m))
        total -= log_p if y[i] else mpmath.log(-mpmath.expm1(log_p))
    total /= len(X)
    if case['penalty']:
        total += lam * sum(w[q] ** (2 if case['penalty'] == 'L2' else 4) for w in W for q in range(d))
    return total


@check.sub(problems(), quick=200, thorough=12000, shards=3)
def loss(case, ctx):
    r = gen.rs(case['seed'])
    n, d, k = case['n'], case['d'], case['k']
    X = r.randn(n, d, k) if case['cube'] else r.randn(n, d)
    y = np.array(case['y'])
    lam = 0.07
    penalty = {None: None, 'L2': L2Penalty(lam), 'quartic': QuarticPenalty(lam)}[case['penalty']]
    W = case['scale'] * r.randn(k, d + case['bias'])
    mask = np.ones(W.shape, dtype=bool)
    if case['parts'] is not None:
        mask[:, :d] = [[q in p for q in range(d)] for p in case['parts']]
        W = W * mask
    peak = max(np.abs(X[i, :, j] if X.ndim == 3 else X[i]) @ np.abs(W[j, :d]) + (abs(W[j, d]) if case['bias'] else 0) for i in range(n) for j in range(k))
    if peak > 600:
        W *= 600 / peak
    capture = Capture()
    learner = LinearFactorizationLearner(capture, penalty_term=penalty, add_bias=case['bias'])
    x0 = W[np.newaxis].copy()
    learner.fit(X.copy(), y.astype(case['ydtype']), case['parts'] if case['parts'] is not None else k, x0=x0)
    start = np.asarray(capture.x0)
    ctx.close(start.ravel(), W[mask], 'starting point: the weights of the subspaces', rtol=0, atol=0)

    with mpmath.workdps(60):
        rows = [[mpmath.mpf(float(v)) for v in w] for w in W]
        expected = mp_loss(X, y, rows, case, mpmath.mpf(lam))
        got = capture.func(start.copy())
        ctx.close(got, float(expected), 'loss', rtol=1e-9, atol=1e-13 * (1 + peak))
        grad = np.asarray(capture.grad(start.copy()))
        ctx.eq(grad.shape, start.shape, 'shape of the gradient')
        # derivative by central differences with 60 digits
        h = mpmath.mpf(10) ** -20
        numeric = np.zeros(W.shape)
        for j in range(k):
            for q in range(W.shape[1]):
                if mask[j, q]:
                    up, down = [list(w) for w in rows], [list(w) for w in rows]
                    up[j][q] += h
                    down[j][q] -= h
                    numeric[j, q] = float((mp_loss(X, y, up, case, mpmath.mpf(lam)) - mp_loss(X, y, down, case, mpmath.mpf(lam))) / (2 * h))
    ctx.close(grad.ravel(), numeric[mask], 'gradient', rtol=1e-9, atol=1e-12 * (1 + peak))
    ctx.nontrivial(len(set(case['y'])) == 2 and float(expected) > 1e-3)
    ctx.label('cube' if case['cube'] else 'matrix', 'penalty {}'.format(case['penalty']), 'large margins' if peak > 40 else 'small margins')

    # the fitted weights are those of the optimizer, missing attributes having none
    full = np.asarray(learner.weights), np.asarray(learner.bias)
    ctx.close(full[0], W[:, :d], 'weights', rtol=0, atol=0)
    ctx.close(full[1], W[:, d] if case['bias'] else np.zeros(k), 'biases', rtol=0, atol=0)
    p = np.array([[float(1 / (1 + mpmath.exp(-(sum(float(a) * float(b) for a, b in zip(X[i, :, j] if X.ndim == 3 else X[i], W[j, :d])) + (W[j, d] if case['bias'] else 0))))) for j in range(k)] for i in range(n)])
    ctx.close(learner.partial_proba(X), p, 'partial probabilities', rtol=1e-6, atol=1e-300)
    ctx.close(learner.predict_proba(X), p.prod(axis=1), 'probability: product of the partial ones', rtol=1e-6, atol=1e-300)
    sure = np.abs(p.prod(axis=1) - 0.5) > 1e-9
    ctx.arr_eq(np.asarray(learner.predict(X))[sure], (p.prod(axis=1) > 0.5).astype(float)[sure], 'labels')
    sure = np.abs(p - 0.5) > 1e-9
    ctx.arr_eq(np.asarray(learner.partial_predict(X))[sure], (p > 0.5).astype(float)[sure], 'partial labels')


@check.sub(st.fixed_dictionaries({'n': st.one_of(st.integers(1, 20), st.integers(1, 20), st.integers(21, 70)), 'b': st.one_of(st.none(), st.integers(1, 24), st.integers(20, 75)), 'epochs': st.sampled_from([1, 2, 3, 4, 30]), 'bias': st.booleans(), 'k': st.integers(1, 3), 'extra': st.integers(0, 3), 'rng': gen.seeds(), 'penalty': st.sampled_from([None, None, 'L2', 'quartic'])}), quick=300, thorough=20000, shards=2)
def mini_batches(case, ctx):
    """ With unit vectors as data, the gradient shows which points are in the batch. """
    n, b = case['n'], case['b']
    r = gen.rs(case['rng'])
    k, extra = case['k'], case['extra']
    X, y = np.hstack([np.eye(n), r.randn(n, extra)]), r.randint(0, 2, size=n).astype(float)
    np.random.seed(case['rng'] % 2 ** 32)
    capture = MiniBatch(b)
    lam = 0.07
    penalty = {None: None, 'L2': L2Penalty(lam), 'quartic': QuarticPenalty(lam)}[case['penalty']]
    LinearFactorizationLearner(capture, penalty_term=penalty, add_bias=case['bias']).fit(X, y, k)
    W = np.zeros((k, n + extra + case['bias']))
    W[:, n:] = r.randn(k, extra + case['bias'])
    margins = X @ W[:, :n + extra].T + (W[:, -1] if case['bias'] else 0)
    s = 1 / (1 + np.exp(-margins))
    P = s.prod(axis=1)
    factor = (1 - s) * np.where(y == 1, -1, P / (1 - P)).reshape(-1, 1)  # derivative of the loss of each point with respect to its margins
    V = W[:, n:n + extra]
    full = -np.where(y == 1, np.log(P), np.log(1 - P)).mean() + {None: 0., 'L2': lam * (V ** 2).sum(), 'quartic': lam * (V ** 4).sum()}[case['penalty']]
    shift = {None: 0 * V, 'L2': 2 * lam * V, 'quartic': 4 * lam * V ** 3}[case['penalty']]  # whatever the batch
    size = n if b is None or b >= n else b
    orders = []
    for _ in range(case['epochs']):
        seen = []
        while len(seen) < n:
            g = np.asarray(capture.grad(W.reshape(capture.x0.shape))).reshape(k, -1)
            batch = [int(i) for i in np.flatnonzero(g[0, :n])]
            ctx.eq(len(batch), min(size, n - len(seen)), 'size of the batch after {} points'.format(len(seen)))
            ctx.close(g[:, batch], factor[batch].T / len(batch), 'gradient of the points in the batch')
            ctx.close(g[:, n:n + extra], factor[batch].T @ X[batch, n:] / len(batch) + shift, 'gradient of the other attributes')
            if case['bias']:
                ctx.close(g[:, -1], factor[batch].mean(axis=0), 'gradient of the bias')
            seen += batch
            ctx.close(capture.func(W.reshape(capture.x0.shape)), full, 'loss (always over all points)')
        ctx.eq(sorted(seen), list(range(n)), 'points used in one epoch')
        orders.append(seen)
    ctx.nontrivial(size < n)
    if case['epochs'] == 30 and size < n and n >= 8:  # always the same points first (last): with probability below 8 ** -29
        for part, what in ((lambda seen: seen[:size], 'first'), (lambda seen: seen[(n - 1) // size * size:], 'last')):
            ctx.require(len({frozenset(part(seen)) for seen in orders}) > 1, 'in all of 30 epochs, the {} batch consists of {}', what, part(orders[0]))
    if size == 1 and n >= 14 and case['epochs'] > 1:
        ctx.require(orders[0] != orders[1], 'two epochs go through the points in the same order {}', orders[0])


@check.sub(st.fixed_dictionaries({'n': st.one_of(st.integers(8, 300), st.integers(200, 1500)), 'd': st.one_of(st.integers(1, 12), st.integers(12, 45)), 'k': st.one_of(st.integers(1, 4), st.integers(4, 15)), 'bias': st.booleans(),
                                  'cube': st.booleans(), 'parts': st.booleans(), 'penalty': st.sampled_from([None, 'L2', 'quartic']), 'seed': gen.seeds(), 'offset': st.sampled_from([0., 1., 3.])}), quick=150, thorough=10000, shards=2)
def many_points(case, ctx):
    """ Many points, attributes and subspaces: loss, gradient and probabilities by plain formulas (moderate margins). """
    r = gen.rs(case['seed'])
    n, d, k = case['n'], case['d'], case['k']
    X = r.randn(n, d, k) if case['cube'] else r.randn(n, d)
    y = r.randint(0, 2, size=n).astype(float)
    lam = 0.07
    penalty = {None: None, 'L2': L2Penalty(lam), 'quartic': QuarticPenalty(lam)}[case['penalty']]
    W = r.randn(k, d + case['bias']) / np.sqrt(d)
    if case['bias']:
        W[:, -1] += case['offset']
    mask, parts = np.ones(W.shape, dtype=bool), k
    if case['parts']:
        parts = [sorted(r.permutation(d)[:r.randint(1, d + 1)].tolist()) for _ in range(k)]
        mask[:, :d] = [[q in p for q in range(d)] for p in parts]
        W = W * mask
    capture = Capture()
    learner = LinearFactorizationLearner(capture, penalty_term=penalty, add_bias=case['bias'])
    learner.fit(X.copy(), y, parts, x0=W[np.newaxis].copy())
    start = np.asarray(capture.x0)
    V, b = W[:, :d], W[:, d] if case['bias'] else np.zeros(k)
    cube = X if case['cube'] else np.repeat(X[:, :, np.newaxis], k, axis=2)
    M = (cube * V.T).sum(axis=1) + b
    log_s = -np.logaddexp(0, -M)
    log_p = log_s.sum(axis=1)
    points = np.where(y == 1, -log_p, -np.log(-np.expm1(log_p)))
    factor = np.exp(-np.logaddexp(0, M)) * np.where(y == 1, -1, np.exp(log_p) / -np.expm1(log_p)).reshape(-1, 1) / n
    expected = points.mean() + {None: 0., 'L2': lam * (V ** 2).sum(), 'quartic': lam * (V ** 4).sum()}[case['penalty']]
    G = np.array([(cube[:, :, j] * factor[:, j:j + 1]).sum(axis=0) for j in range(k)]) + {None: 0 * V, 'L2': 2 * lam * V, 'quartic': 4 * lam * V ** 3}[case['penalty']]
    if case['bias']:
        G = np.hstack([G, factor.sum(axis=0).reshape(-1, 1)])
    ctx.close(capture.func(start.copy()), expected, 'loss', rtol=1e-8)
    grad = np.asarray(capture.grad(start.copy())).ravel()
    ctx.close(grad, G[mask], 'gradient', rtol=1e-7, atol=1e-10)
    ctx.close(learner.partial_proba(X), np.exp(log_s), 'partial probabilities', rtol=1e-8)
    ctx.close(learner.predict_proba(X), np.exp(log_p), 'probability', rtol=1e-7)
    sure = np.abs(np.exp(log_p) - 0.5) > 1e-9
    ctx.arr_eq(np.asarray(learner.predict(X))[sure], (np.exp(log_p) > 0.5).astype(float)[sure], 'labels')
    ctx.nontrivial(len(set(y)) == 2 and n > 20)
    ctx.label('cube' if case['cube'] else 'matrix', 'subspaces given' if case['parts'] else 'number of subspaces')
