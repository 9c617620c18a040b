import warnings

import mpmath
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import OptimizeResult
from scipy.special import expit

import core
import gen
from aideme.active_learning.factorization.partitioning.learn import BruteForceSelector, GreedySelector
from aideme.active_learning.factorization.partitioning.linear import FactorizedLinearClassifier, FactorizedLinearLearner

check = core.Check('C31', rule='random partitions (also overlapping or partial), weights up to margins of several hundreds, data and labels; loss and gradient are those handed to SciPy; non-trivial: at least two subspaces',
                   assumptions=['labels 0 and 1', 'margins up to 600 (beyond, probabilities underflow)'])


@st.composite
def models(draw):
    d = draw(st.sampled_from([1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 8, 11]))
    perm = draw(st.permutations(list(range(d))))
    cuts = sorted(set(draw(st.lists(st.integers(1, d), max_size=3 if d < 8 else 10)) + [d]))
    parts = [list(perm[a:b]) for a, b in zip([0] + cuts, cuts)]
    if draw(st.integers(0, 3)) == 0:
        parts = draw(st.lists(st.lists(st.integers(0, d - 1), min_size=1, max_size=d, unique=True), min_size=1, max_size=3))
    return {'d': d, 'parts': parts, 'n': draw(st.integers(1, 8)), 'seed': draw(gen.seeds()), 'scale': draw(st.sampled_from([0., 0.3, 1., 1., 10., 100.])), 'ydtype': draw(st.sampled_from(['float', 'int', 'bool']))}


def split(weights, parts):
    """ Weights: for each subspace the intercept, then one weight per attribute. """
    out, pos = [], 0
    for p in parts:
        out.append((weights[pos], weights[pos + 1:pos + 1 + len(p)]))
        pos += 1 + len(p)
    return out


def setup(case):
    r = gen.rs(case['seed'])
    X = r.randn(case['n'], case['d'])
    w = case['scale'] * r.randn(len(case['parts']) + sum(map(len, case['parts'])))
    peak = max((np.abs(b) + np.abs(X[:, p]) @ np.abs(v)).max() for p, (b, v) in zip(case['parts'], split(w, case['parts'])))
    if peak > 600:
        w *= 600 / peak
    return r, X, w


def margins(X, w, parts):
    return np.array([b + X[:, p] @ v for p, (b, v) in zip(parts, split(w, parts))])


@check.sub(models(), quick=600, thorough=40000, shards=2)
def classifier(case, ctx):
    r, X, w = setup(case)
    parts = case['parts']
    clf = FactorizedLinearClassifier([list(p) for p in parts], w.copy())
    ctx.eq(clf.dim, len(w), 'dimension')
    M = margins(X, w, parts)
    P = expit(M)
    for i in range(len(parts)):
        ctx.close(clf.partial_proba(X, i), P[i], 'probability of subspace {}'.format(i), rtol=1e-9, atol=1e-300)
    proba = P.prod(axis=0)
    ctx.close(clf.predict_proba(X), proba, 'probability', rtol=1e-8, atol=1e-300)
    sure = np.abs(proba - 0.5) > 1e-9
    ctx.arr_eq(np.asarray(clf.predict(X), dtype=float)[sure], (proba > 0.5).astype(float)[sure], 'labels')
    ctx.close(FactorizedLinearClassifier(parts).predict_proba(X), np.full(len(X), 0.5 ** len(parts)), 'probability without weights')
    ctx.raises(ValueError, lambda: FactorizedLinearClassifier(parts, np.zeros(len(w) + 1)), 'too many weights')
    ctx.raises(ValueError, lambda: FactorizedLinearClassifier(parts, np.zeros(len(w) - 1)), 'too few weights')
    ctx.nontrivial(len(parts) > 1)
    # merging two subspaces: their linear functions are added
    i, j = r.randint(len(parts)), r.randint(len(parts))
    merged = clf.merge_partitions(i, j)
    ctx.arr_eq(clf.weights, w, 'weights after merging a copy')
    ctx.eq([list(p) for p in clf.partition], parts, 'partition after merging a copy')
    if i == j:
        ctx.eq([list(p) for p in merged.partition], parts, 'partition with a subspace merged with itself')
        return
    rest = [q for q in range(len(parts)) if q not in (i, j)]
    expected = sorted([sorted(parts[q]) for q in rest] + [sorted(parts[i] + parts[j])])
    ctx.eq(sorted(sorted(p) for p in merged.partition), expected, 'merged partition')
    joint = np.vstack([M[rest], M[i] + M[j]])
    ctx.close(sorted(np.sort(margins(X, np.asarray(merged.weights), merged.partition), axis=0).ravel()), sorted(np.sort(joint, axis=0).ravel()), 'linear functions of the merged classifier', rtol=1e-8, atol=1e-8)
    ctx.close(merged.predict_proba(X), expit(joint).prod(axis=0), 'probability after merging', rtol=1e-6, atol=1e-9)
    fresh = clf.merge_partitions(i, j, merge_weights=False)
    ctx.eq(sorted(sorted(p) for p in fresh.partition), expected, 'merged partition')
    ctx.arr_eq(fresh.weights, np.zeros(len(fresh.weights)), 'weights when not merged')


def mp_loss(X, y, w, parts):
    total = mpmath.mpf(0)
    for i in range(len(X)):
        log_p = mpmath.mpf(0)
        for p, (b, v) in zip(parts, split(w, parts)):
            m = b + sum((mpmath.mpf(float(X[i, q])) * c for q, c in zip(p, v)), mpmath.mpf(0))
            log_p -= mpmath.log1p(mpmath.exp(-m))
        total -= log_p if y[i] else mpmath.log(-mpmath.expm1(log_p))
    return total / len(X)


@check.sub(models(), quick=200, thorough=12000, shards=2)
def loss(case, ctx):
    """ The function handed to SciPy is the mean negative log-likelihood, with its gradient. """
    r, X, w = setup(case)
    parts = case['parts']
    y = r.randint(0, 2, size=len(X))
    seen = {}

    def method(fun, x0, args=(), jac=None, **options):
        seen['x0'], seen['f'], seen['g'], seen['options'] = np.array(x0), fun(np.array(x0)), np.array(jac(np.array(x0))), options
        at = np.array(x0) + 0.5
        return OptimizeResult(x=at, fun=fun(at), success=True)
    learner = FactorizedLinearLearner(optimizer=method)
    start = w.copy()
    clf, value = learner.fit_and_loss(X, y.astype(case['ydtype']), [list(p) for p in parts], start)
    ctx.arr_eq(seen['x0'], w, 'starting point')
    ctx.arr_eq(start, w, 'starting point of the caller afterwards')
    with mpmath.workdps(60):
        rows = [mpmath.mpf(float(v)) for v in w]
        f = mp_loss(X, y, rows, parts)
        h = mpmath.mpf(10) ** -20
        grad = []
        for q in range(len(w)):
            up, down = list(rows), list(rows)
            up[q] += h
            down[q] -= h
            grad.append(float((mp_loss(X, y, up, parts) - mp_loss(X, y, down, parts)) / (2 * h)))
        g = mp_loss(X, y, [v + mpmath.mpf(0.5) for v in rows], parts)
    scale = 1 + np.abs(w).max() * 10
    ctx.close(seen['f'], float(f), 'loss', rtol=1e-9, atol=1e-13 * scale)
    ctx.close(seen['g'], grad, 'gradient', rtol=1e-9, atol=1e-12 * scale)
    ctx.close(value, float(g), 'loss reported', rtol=1e-9, atol=1e-12 * scale)
    ctx.arr_eq(clf.weights, w + 0.5, 'weights of the trained classifier')
    ctx.eq([list(p) for p in clf.partition], parts, 'partition of the trained classifier')
    ctx.nontrivial(len(parts) > 1 and len(set(y.tolist())) > 1)


@check.sub(st.fixed_dictionaries({'n': st.integers(20, 60), 'd': st.integers(1, 4), 'seed': gen.seeds(), 'opt': st.sampled_from(['BFGS', 'CG'])}), quick=60, thorough=4000, shards=2)
def training(case, ctx):
    """ With one subspace: the logistic regression. """
    r = gen.rs(case['seed'])
    X = r.randn(case['n'], case['d'])
    w = r.randn(case['d'] + 1)
    y = (w[0] + X @ w[1:] + r.logistic(size=case['n']) > 0).astype(float)
    X, y = np.vstack([X, X[:8]]), np.r_[y, 1 - y[:8]]  # not separable
    if len(set(y)) < 2:
        return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        clf, value = FactorizedLinearLearner(optimizer=case['opt'], gtol=1e-5).fit_and_loss(X, y, [list(range(case['d']))])
        other = FactorizedLinearLearner(optimizer=case['opt'], gtol=1e-5).fit(X, y, [list(range(case['d']))], r.randn(case['d'] + 1))
    A = np.c_[np.ones(len(X)), X]
    ref = np.zeros(case['d'] + 1)
    for _ in range(100):
        p = expit(A @ ref)
        step = np.linalg.lstsq((A.T * (p * (1 - p))) @ A, A.T @ (p - y), rcond=None)[0]
        ref = ref - step * min(1., 3 / max(np.abs(step).max(), 1e-9))
    best = float(np.logaddexp(0, -np.where(y > 0, 1, -1) * (A @ ref)).mean())
    ctx.close(value, best, 'loss', rtol=0, atol=1e-4)
    ctx.close(clf.predict_proba(X), expit(A @ ref), 'probabilities', rtol=0, atol=0.02)
    ctx.close(other.predict_proba(X), expit(A @ ref), 'probabilities from another starting point', rtol=0, atol=0.02)
    ctx.nontrivial()


@check.sub(st.fixed_dictionaries({'model': models(), 'n': st.integers(5, 40), 'seed': gen.seeds(), 'opt': st.sampled_from(['BFGS', 'BFGS', 'CG', 'L-BFGS-B']), 'gtol': st.sampled_from([1e-1, 1e-2, 1e-4, 1e-4, 1e-6]), 'maxiter': st.sampled_from([None, None, 1, 2, 3, 5]),
                                  'x0': st.sampled_from([None, 0.3, 1., 2.]), 'noise': st.sampled_from([0., 0.1, 0.5])}), quick=250, thorough=15000, shards=2)
def minimization(case, ctx):
    """ The chosen SciPy method, from the given starting point, with the given tolerance and number of iterations (where its outcome does not hinge on rounding). """
    r = gen.rs(case['seed'])
    parts, n, d = case['model']['parts'], case['n'], case['model']['d']
    dim = len(parts) + sum(map(len, parts))
    X = r.randn(n, d)
    y = (margins(X, 2 * r.randn(dim), parts) > -0.7).all(axis=0).astype(float)
    y = np.where(r.rand(n) < case['noise'], 1 - y, y)
    x0 = None if case['x0'] is None else case['x0'] * r.randn(dim)

    def fun(w):
        M = margins(X, w, parts)
        lp = -np.logaddexp(0, -M).sum(axis=0)
        with np.errstate(all='ignore'):
            value = np.where(y > 0, -lp, -np.where(lp < -0.7, np.log1p(-np.exp(lp)), np.log(-np.expm1(lp)))).mean()
            c = np.where(y > 0, -1., 1 / np.expm1(-lp)) / n
        g = [np.r_[(c * q).sum(), X[:, p].T @ (c * q)] for p, q in zip(parts, expit(-M))]
        return value, np.concatenate(g)
    from scipy.optimize import minimize
    options = {'gtol': case['gtol']}
    if case['maxiter'] is not None or case['opt'] != 'L-BFGS-B':
        options['maxiter'] = case['maxiter']
    elif case['opt'] == 'L-BFGS-B':
        options['maxiter'] = 15000
    start = np.zeros(dim) if x0 is None else x0
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        refs = [minimize(fun, start + e * r.randn(dim), jac=True, method=case['opt'], options=options) for e in (0, 1e-10, 1e-9)]
    ref = refs[0]
    if any(np.abs(o.x - ref.x).max() > 1e-6 * (1 + np.abs(ref.x).max()) or o.success != ref.success or not np.isfinite(o.fun) for o in refs) or np.abs(ref.x).max() > 100:
        return
    learner = FactorizedLinearLearner(optimizer=case['opt'], gtol=case['gtol'], maxiter=options['maxiter'])
    given = None if x0 is None else x0.copy()
    args = (X, y, [list(p) for p in parts]) + (() if x0 is None else (given,))
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        clf, value = learner.fit_and_loss(*args)
    tol = 1e-4 * (1 + np.abs(ref.x).max())
    ctx.close(clf.weights, ref.x, 'weights', rtol=0, atol=tol)
    ctx.close(value, ref.fun, 'loss', rtol=1e-6, atol=1e-9)
    ctx.require(caught or ref.success, 'no warning, although the optimization did not converge')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.close(learner.fit(*args).weights, ref.x, 'weights (fit)', rtol=0, atol=tol)
        ctx.close(learner.compute_factorization_loss(*args), ref.fun, 'compute_factorization_loss', rtol=1e-6, atol=1e-9)
    if x0 is not None:
        ctx.arr_eq(given, x0, 'starting point of the caller afterwards')
    ctx.label(case['opt'], 'limited' if not ref.success else 'converged')
    ctx.nontrivial(len(parts) > 1 and len(set(y.tolist())) > 1)


@check.sub(st.fixed_dictionaries({'seed': gen.seeds(), 'greedy': st.booleans(), 'warm': st.booleans()}), quick=12, thorough=600, shards=3)
def selection(case, ctx):
    """ Selecting a partition with the real learner: no partition within reach has a smaller loss. """
    r = gen.rs(case['seed'])
    X = r.uniform(-1, 1, size=(120, 3))
    y = ((X[:, 0] + X[:, 1] > -0.3) & (X[:, 2] > -0.4)).astype(float)
    flip = r.rand(120) < 0.08
    y[flip] = 1 - y[flip]
    learner = FactorizedLinearLearner(gtol=1e-4)
    selector = GreedySelector(warm_start=case['warm']) if case['greedy'] else BruteForceSelector()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = selector(X, y, learner)
        every = [[[0], [1], [2]], [[0, 1], [2]], [[0, 2], [1]], [[1, 2], [0]], [[0, 1, 2]]]
        values = [learner.compute_factorization_loss(X, y, p) for p in every]
        mine = learner.compute_factorization_loss(X, y, [list(p) for p in got])
    norm = sorted(sorted(p) for p in got)
    ctx.require(norm in [sorted(sorted(b) for b in p) for p in every], 'selected partition {}', got)
    if not case['greedy']:
        ctx.require(mine <= min(values) + 1e-3, 'selected {} with loss {}, the losses are {}', got, mine, values)
    else:
        ctx.require(mine <= values[0] + 1e-3, 'selected {} with loss {}, the single attributes have {}', got, mine, values[0])
    ctx.nontrivial(1 < len(got) < 3)
