import mpmath
import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.factorization import utils as numerics

check = core.Check('C36', rule='margins, log-probabilities, labels and weights over the whole range of magnitudes (1e-300 to 700, both signs, exact thresholds), as contiguous arrays; compared with 80-digit arithmetic; '
                   'non-trivial: some value beyond the range where the naive formula has ten correct digits',
                   assumptions=['log-probabilities are negative; margins at most 700 in size (where the exact value is representable)'])

mpmath.mp.dps = 80

MAGNITUDE = st.one_of(st.floats(-300, 2.84).map(lambda e: 10. ** e), st.floats(-18, 2.8).map(lambda e: 10. ** e), st.floats(0.01, 60), st.sampled_from([0.5, 1., 0.6931471805599453, 0.6931471805599452, 0.6931471805599454, 36.7, 37., 18., 709., 745.]))
MARGIN = st.one_of(st.builds(lambda m, s: float(min(m, 700.) * s), MAGNITUDE, st.sampled_from([-1, 1])), st.just(0.))


def log_sigmoid(x):
    """ log 1 / (1 + exp(-x)) """
    return -mpmath.log1p(mpmath.exp(-mpmath.mpf(x)))


def log1mexp(lp):
    return mpmath.log1p(-mpmath.exp(lp)) if lp < -1 else mpmath.log(-mpmath.expm1(lp))


def close(ctx, got, expected, what, rel=1e-13):
    got = [float(v) for v in np.ravel(got)]
    ctx.eq(len(got), len(expected), '{}: length'.format(what))
    for g, e in zip(got, expected):
        ctx.require(abs(mpmath.mpf(g) - e) <= rel * abs(e) + mpmath.mpf(10) ** -300 if np.isfinite(g) else False, '{}: got {!r}, expected {}', what, g, mpmath.nstr(e, 17))


@check.sub(st.lists(MARGIN, min_size=1, max_size=8), quick=1500, thorough=100000, shards=2)
def sigmoid(case, ctx):
    x = np.array(case)
    close(ctx, numerics.log_sigmoid(x), [log_sigmoid(v) for v in case], 'log_sigmoid')
    ctx.arr_eq(x, np.array(case), 'argument afterwards')
    ctx.nontrivial(max(abs(v) for v in case) > 15)


@st.composite
def tables(draw):
    n, k = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    return {'margins': [[draw(MARGIN) for _ in range(k)] for _ in range(n)], 'y': [draw(st.sampled_from([0., 1., 1., 0.5, 2., -1.])) for _ in range(n)]}


@check.sub(tables(), quick=700, thorough=50000, shards=4)
def losses(case, ctx):
    """ Log-probability of 'all subspaces positive', and the mean negative log-likelihood; labels may be weighted (positive ones), everything else is negative. """
    M, y = np.array(case['margins']), np.array(case['y'])
    lp = [sum(log_sigmoid(v) for v in row) for row in case['margins']]
    got = np.asarray(numerics.compute_log_probas(M))
    close(ctx, got, lp, 'compute_log_probas')
    ctx.arr_eq(M, np.array(case['margins']), 'margins afterwards')
    # a point certain to be positive (probability rounding to 1) has no finite negative log-likelihood in double precision
    if any(v > -1e-290 and t <= 0 for v, t in zip(lp, y)):
        return
    exact = sum(-t * v if t > 0 else -log1mexp(v) for v, t in zip(lp, y.tolist())) / len(y)
    close(ctx, [numerics.compute_loss(M, y)], [exact], 'compute_loss', 1e-12)
    given = np.array([float(v) for v in lp])
    exact = sum(-t * mpmath.mpf(v) if t > 0 else -log1mexp(mpmath.mpf(v)) for v, t in zip(given.tolist(), y.tolist())) / len(y)
    close(ctx, [numerics.compute_classification_loss(given, y)], [exact], 'compute_classification_loss', 1e-12)
    # derivative of the loss of a point in its log-probability
    exact = [-mpmath.mpf(t) if t > 0 else 1 / mpmath.expm1(-mpmath.mpf(v)) for v, t in zip(given.tolist(), y.tolist())]
    if all(abs(e) < mpmath.mpf(10) ** 300 for e in exact):
        close(ctx, numerics.grad_weights(given, y), exact, 'grad_weights')
    ctx.arr_eq(y, np.array(case['y']), 'labels afterwards')
    ctx.nontrivial(any(abs(v) > 15 for v in np.ravel(M)) and (y <= 0).any())


@check.sub(st.fixed_dictionaries({'n': st.sampled_from([100, 255, 256, 257, 1000, 4096, 65535, 65536, 70001]), 'k': st.integers(1, 12), 'seed': gen.seeds(), 'scale': st.sampled_from([0.1, 1., 10., 100.]), 'soft': st.booleans()}), quick=60, thorough=3000)
def many_points(case, ctx):
    """ Any number of points and subspaces: every entry is what it is for its point alone, and losses are means. """
    r = gen.rs(case['seed'])
    n, k = case['n'], case['k'] if case['n'] < 5000 else min(case['k'], 3)
    M = case['scale'] * r.randn(n, k)
    if case['scale'] == 100:
        M = np.clip(M, -700, 30)
    y = r.randint(0, 2, size=n).astype(float)
    if case['soft']:
        y *= r.choice([0.5, 1., 3.], size=n)
    x = np.ascontiguousarray(M[:, 0])
    ls = np.asarray(numerics.log_sigmoid(x))
    ctx.close(ls, -np.logaddexp(0, -x), 'log_sigmoid', rtol=1e-12)
    lp = np.asarray(numerics.compute_log_probas(M))
    ctx.close(lp, -np.logaddexp(0, -M).sum(axis=1), 'compute_log_probas', rtol=1e-12)
    gw = np.asarray(numerics.grad_weights(lp, y))
    for v in (ls, lp, gw):
        ctx.eq(v.shape, (n,), 'number of values')
    ctx.close(gw, np.where(y > 0, -y, 1 / np.expm1(-np.maximum(lp, -600))) if lp.min() > -600 else np.where(y > 0, -y, np.exp(lp) / -np.expm1(lp)), 'grad_weights', rtol=1e-10)
    terms = np.where(y > 0, -y * lp, -np.where(lp < -0.7, np.log1p(-np.exp(np.minimum(lp, -0.1))), np.log(-np.expm1(np.maximum(lp, -2.)))))
    ctx.close(numerics.compute_loss(M, y), terms.mean(), 'compute_loss', rtol=1e-9)
    ctx.close(numerics.compute_classification_loss(lp, y), terms.mean(), 'compute_classification_loss', rtol=1e-9)
    ctx.close(numerics.compute_huber_penalty(M, 0.3, 0.7), 0.3 * np.where(np.abs(M) <= 0.7, M ** 2 / 2, 0.7 * (np.abs(M) - 0.35)).sum(), 'compute_huber_penalty', rtol=1e-9)
    W = np.ascontiguousarray(M.T)
    ctx.close(numerics.compute_huber_penalty(W, 0.3, 0.7), numerics.compute_huber_penalty(M, 0.3, 0.7), 'compute_huber_penalty of the transposed weights', rtol=1e-9)
    ctx.nontrivial(n > 256)


@st.composite
def hubers(draw):
    n, k = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    delta = draw(st.sampled_from([1e-3, 0.5, 1., 3.]))
    value = st.one_of(MARGIN.filter(lambda v: abs(v) < 500), st.sampled_from([delta, -delta, np.nextafter(delta, 9), -np.nextafter(delta, 9)]).map(float))
    return {'delta': delta, 'lam': draw(st.sampled_from([1e-3, 1., 7.])), 'W': [[draw(value) for _ in range(k)] for _ in range(n)], 'view': draw(st.sampled_from(['C', 'F', 'slice']))}


@check.sub(hubers(), quick=500, thorough=30000)
def huber(case, ctx):
    W = np.array(case['W'])
    if case['view'] == 'F':
        A = np.asfortranarray(W)
    elif case['view'] == 'slice':
        A = np.hstack([W, np.full((len(W), 1), 1e5)])[:, :-1]
    else:
        A = W.copy()
    d = mpmath.mpf(case['delta'])
    exact = mpmath.mpf(case['lam']) * sum(mpmath.mpf(v) ** 2 / 2 if abs(v) <= case['delta'] else d * (abs(mpmath.mpf(v)) - d / 2) for row in case['W'] for v in row)
    got = numerics.compute_huber_penalty(A, case['lam'], case['delta'])
    ctx.require(abs(got - exact) <= 1e-12 * abs(exact) + mpmath.mpf(10) ** -300, 'compute_huber_penalty: got {!r}, expected {}', got, mpmath.nstr(exact, 17))
    ctx.arr_eq(A, W, 'weights afterwards')
    sizes = np.abs(W)
    ctx.nontrivial((sizes < case['delta']).any() and (sizes > case['delta']).any())
