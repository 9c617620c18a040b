import numpy as np
import scipy.linalg
from hypothesis import strategies as st
from scipy.special import expit
from scipy.stats import norm
from sklearn.metrics.pairwise import linear_kernel, polynomial_kernel, rbf_kernel

import core
import gen
from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
from aideme.explore import LabeledSet, PartitionedDataset

check = core.Check('C25', rule='random labeled data, kernels and prior widths; the posterior probabilities are compared with a Newton solution of the maximum a posteriori problem and the Laplace formulas in other '
                   '(dense) algebra; non-trivial: both labels, and probabilities spread by at least 0.1',
                   assumptions=['proper prior, or data which is not separable (otherwise the improper posterior has no maximum)', 'kernel-laplace is used with kernels with k(x, x) = 1 (known finding otherwise)',
                                'the Stan sampler is the subject of C39'])


def map_weights(A, y, lam):
    """ argmin sum log(1 + exp(-s_i A_i w)) + lam / 2 |w|^2, by Newton steps with halving. """
    s = np.where(y == 1, 1., -1.)
    w = np.zeros(A.shape[1])

    def loss(w):
        return np.logaddexp(0, -s * (A @ w)).sum() + 0.5 * lam * w @ w
    for _ in range(200):
        p = expit(A @ w)
        g = A.T @ (p - (s > 0)) + lam * w
        H = (A.T * (p * (1 - p))) @ A + (lam + 1e-13) * np.eye(len(w))
        step = scipy.linalg.lstsq(H, g)[0]
        t = 1.
        while loss(w - t * step) > loss(w) and t > 1e-8:
            t /= 2
        w = w - t * step
        if np.abs(g).max() < 1e-11:
            break
    return w


def laplace(A, y, Q, lam):
    """ Posterior probabilities: Gaussian approximation of the weights, probit approximation of the logistic function. """
    w = map_weights(A, y, lam)
    p = expit(A @ w)
    H = (A.T * (p * (1 - p))) @ A + max(lam, 1e-12) * np.eye(len(w))
    var = np.einsum('ij,jk,ik->i', Q, np.linalg.inv(H), Q)
    return norm.cdf(Q @ w / np.sqrt(8 / np.pi + var))


@st.composite
def cases(draw):
    return {'n': draw(st.integers(2, 25)), 'd': draw(st.integers(1, 4)), 'seed': draw(gen.seeds()), 'std': draw(st.sampled_from([0.3, 1., 3.])), 'prior': draw(st.sampled_from(['gaussian', 'gaussian', 'improper'])),
            'intercept': draw(st.booleans()), 'noise': draw(st.sampled_from([0., 1.])), 'kernel': draw(st.sampled_from(['rbf', 'rbf', 'linear', 'poly'])), 'gamma': draw(st.sampled_from([None, 0.5, 2.])), 'again': draw(st.booleans()),
            'from_data': draw(st.booleans()), 'signed': draw(st.booleans()), 'only': draw(st.sampled_from([None] * 8 + [0, 1]))}


def data(case):
    r = gen.rs(case['seed'])
    X = r.randn(case['n'], case['d'])
    y = (X @ r.randn(case['d']) + 0.3 + case['noise'] * r.randn(case['n']) > 0).astype(float)
    y[:2] = [0, 1]
    if case['prior'] == 'improper':
        X = np.vstack([X, r.randn(case['d'] + 3, case['d'])])
        y = np.r_[y, r.randint(0, 2, size=case['d'] + 3)].astype(float)
        X, y = np.vstack([X, X, X]), np.r_[y, y, 1 - y]  # both labels at the same places: not separable
    elif case['only'] is not None:  # nothing but positive (negative) points so far
        y[:] = case['only']
    return X, y, 1.5 * r.randn(15, case['d'])


def train(learner, case, X, y):
    if case['from_data']:
        d = PartitionedDataset(X.copy())
        d.move_to_labeled(LabeledSet(y))
        learner.fit_data(d)
    else:
        learner.fit(X.copy(), y.copy())


def relations(learner, Q, ctx):
    p = np.asarray(learner.predict_proba(Q))
    ctx.eq(p.shape, (len(Q),), 'shape of the probabilities')
    ctx.require(((p >= 0) & (p <= 1)).all(), 'probabilities {}', p)
    ctx.arr_eq(np.asarray(learner.predict(Q), dtype=float), (p > 0.5).astype(float), 'predicted labels versus probabilities')
    ctx.close(learner.rank(Q), np.abs(p - 0.5), 'rank')
    ctx.arr_eq(learner.predict_proba(Q), p, 'probabilities computed a second time')
    ctx.close(np.concatenate([np.asarray(learner.predict_proba(q.reshape(1, -1))) for q in Q[:4]]), p[:4], 'probabilities of single points', rtol=1e-9, atol=1e-9)
    return p


@check.sub(cases(), quick=300, thorough=20000, shards=2)
def linear(case, ctx):
    learner = BayesianLinearVersionSpace(prior=case['prior'], prior_std=case['std'], add_intercept=case['intercept'], tol=1e-6)
    for k in range(2 if case['again'] else 1):
        case['seed'] += k
        X, y, Q = data(case)
        train(learner, case, X, y)
        p = relations(learner, Q, ctx)
        A, B = (np.c_[np.ones(len(X)), X], np.c_[np.ones(len(Q)), Q]) if case['intercept'] else (X, Q)
        ctx.close(p, laplace(A, y, B, 1 / case['std'] ** 2 if case['prior'] == 'gaussian' else 0.), 'posterior probabilities', rtol=0, atol=2e-3)
        ctx.nontrivial(p.max() - p.min() > 0.1)
    # exchanging the labels mirrors the probabilities
    other = BayesianLinearVersionSpace(prior=case['prior'], prior_std=case['std'], add_intercept=case['intercept'], tol=1e-6)
    other.fit(X, 1 - y)
    ctx.close(other.predict_proba(Q), 1 - p, 'probabilities with exchanged labels', rtol=0, atol=1e-3)
    ctx.label(case['prior'])


@check.sub(cases(), quick=250, thorough=15000, shards=2)
def kernel(case, ctx):
    """ The linear model on the rows of the kernel matrix. """
    case['prior'] = 'gaussian'
    X, y, Q = data(case)
    kern = {'rbf': lambda A, B: rbf_kernel(A, B, gamma=case['gamma']), 'linear': linear_kernel, 'poly': lambda A, B: polynomial_kernel(A, B, degree=2, gamma=case['gamma'], coef0=0.5)}[case['kernel']]
    learner = BayesianKernelVersionSpace(prior='gaussian', prior_std=case['std'], add_intercept=case['intercept'], kernel=case['kernel'], gamma=case['gamma'], degree=2, coef0=0.5, tol=1e-6)
    train(learner, case, X, y)
    p = relations(learner, Q, ctx)
    A, B = kern(X, X), kern(Q, X)
    if case['intercept']:
        A, B = np.c_[np.ones(len(A)), A], np.c_[np.ones(len(B)), B]
    ctx.close(p, laplace(A, y, B, 1 / case['std'] ** 2), 'posterior probabilities', rtol=0, atol=5e-3)
    ctx.nontrivial(p.max() - p.min() > 0.1)
    ctx.label(case['kernel'])


@check.sub(st.fixed_dictionaries({'n': st.integers(2, 8), 'd': st.integers(1, 3), 'seed': gen.seeds(), 'prior': st.sampled_from(['gaussian', 'improper', 'default']), 'std': st.sampled_from([0.3, 2.]), 'intercept': st.booleans(),
                                  'kernel': st.sampled_from(['rbf', 'linear']), 'tol': st.sampled_from([1e-6, 1e-3, 0.1]), 'max_iter': st.sampled_from([10000, 500])}), quick=150)
def kernel_features(case, ctx):
    """ The kernel learner is the linear learner with the same parameters, on the rows of the kernel matrix. """
    r = gen.rs(case['seed'])
    X, Q = 2 * r.randn(case['n'], case['d']), 2 * r.randn(10, case['d'])
    y = np.r_[0., 1., r.randint(0, 2, size=case['n'] - 2)]
    kern = {'rbf': lambda A, B: rbf_kernel(A, B, gamma=0.7), 'linear': linear_kernel}[case['kernel']]
    kwargs = dict(prior_std=case['std'], add_intercept=case['intercept'], tol=case['tol'], max_iter=case['max_iter'])
    if case['prior'] != 'default':
        kwargs['prior'] = case['prior']
    linear, learner = BayesianLinearVersionSpace(**kwargs), BayesianKernelVersionSpace(kernel=case['kernel'], gamma=0.7, **kwargs)
    try:
        linear.fit(kern(X, X), y)
    except Exception:  # there need not be a maximum a posteriori
        return
    expected = np.asarray(linear.predict_proba(kern(Q, X)))
    learner.fit(X, y)
    ctx.close(learner.predict_proba(Q), expected, 'probabilities of the kernel learner versus those of the linear learner', rtol=0, atol=1e-4 if case['prior'] == 'gaussian' else 0.03)
    ctx.nontrivial(expected.max() - expected.min() > 0.1)
    ctx.label(case['prior'])


@check.sub(cases(), quick=250, thorough=15000, shards=2)
def gaussian_process(case, ctx):
    """ 'kernel-laplace': Gaussian process classification with the covariance std^2 k(x, z) (Rasmussen and Williams, chapter 3). """
    case['prior'] = 'gaussian'
    X, y, Q = data(case)
    keep = [i for i in range(len(X)) if all(np.linalg.norm(X[i] - X[j]) > 0.15 for j in range(i))]
    X, y = X[keep], y[keep]
    learner = BayesianKernelVersionSpace(prior_std=case['std'], sampler='kernel-laplace', kernel='rbf', gamma=case['gamma'], tol=1e-6)
    train(learner, case, X, y)
    p = relations(learner, Q, ctx)
    K, C = case['std'] ** 2 * rbf_kernel(X, X, gamma=case['gamma']), case['std'] ** 2 * rbf_kernel(Q, X, gamma=case['gamma'])
    f = np.zeros(len(X))
    for _ in range(300):  # mode of the posterior: damped Newton steps
        pi = expit(f)
        W = pi * (1 - pi)
        target = K @ np.linalg.solve(np.eye(len(X)) + W.reshape(-1, 1) * K, W * f + y - pi)
        if np.abs(target - f).max() < 1e-12:
            break
        f = f + (target - f) * (1. if _ < 100 else 0.5)
    pi = expit(f)
    W = pi * (1 - pi)
    mean = C @ (y - pi)
    var = case['std'] ** 2 - np.einsum('ij,jk,ik->i', C, np.linalg.solve(np.eye(len(X)) + W.reshape(-1, 1) * K, np.diag(W)), C)
    ctx.close(p, norm.cdf(mean / np.sqrt(8 / np.pi + var)), 'posterior probabilities', rtol=0, atol=5e-3)
    ctx.nontrivial(p.max() - p.min() > 0.1)


@check.sub(st.fixed_dictionaries({'c': cases(), 'sampler': st.sampled_from(['linear', 'laplace', 'kernel-laplace'])}), quick=150, thorough=5000)
def stopping(case, ctx):
    """ The optimizer starts at zero and stops below the tolerance; a maximum which could not be computed is reported. """
    c = case['c']
    c['prior'] = 'gaussian'
    X, y, Q = data(c)

    def make(**kwargs):
        if case['sampler'] == 'linear':
            return BayesianLinearVersionSpace(prior='gaussian', prior_std=c['std'], add_intercept=c['intercept'], **kwargs)
        return BayesianKernelVersionSpace(prior='gaussian', prior_std=c['std'], add_intercept=c['intercept'], sampler=case['sampler'], kernel='rbf', gamma=c['gamma'], **kwargs)
    learner = make(tol=1e6)
    learner.fit(X.copy(), y.copy())
    ctx.close(learner.predict_proba(Q), np.full(len(Q), 0.5), 'probabilities of weights which may stay at their start', rtol=0, atol=1e-12)
    one, full = make(tol=1e-6, max_iter=1), make(tol=1e-6)
    full.fit(X.copy(), y.copy())
    p = np.asarray(full.predict_proba(Q))
    try:
        one.fit(X.copy(), y.copy())
    except Exception:
        ctx.nontrivial(np.abs(p - 0.5).max() > 0.05)
        return
    ctx.close(one.predict_proba(Q), p, 'probabilities after one iteration, if the learner does not complain', rtol=0, atol=5e-3)


@check.sub(st.fixed_dictionaries({'sampler': st.sampled_from(['laplace', 'foo', 'kernel-laplace', '']), 'kernel': st.booleans(), 'prior': st.sampled_from(['gaussian', 'improper', 'cauchy']), 'std': st.sampled_from([1., 0., -1.])}), quick=80)
def arguments(case, ctx):
    cls = BayesianKernelVersionSpace if case['kernel'] else BayesianLinearVersionSpace
    good = case['sampler'] == 'laplace' and case['prior'] != 'cauchy' and case['std'] > 0 or case['sampler'] == 'kernel-laplace' and case['kernel'] and case['std'] > 0
    if good:
        cls(sampler=case['sampler'], prior=case['prior'], prior_std=case['std'])
    else:
        ctx.raises(ValueError, lambda: cls(sampler=case['sampler'], prior=case['prior'], prior_std=case['std']), 'arguments {}'.format(case))
        ctx.nontrivial()


@check.known_finding('kernel-laplace-variance')
def kernel_laplace_variance(ctx):
    """ With k(x, x) != 1, the predictive variance of kernel-laplace is wrong: here its square root is not even a number. """
    X, y = np.array([[1.], [-1.], [2.], [-2.]]), np.array([1., 0., 1., 0.])
    learner = BayesianKernelVersionSpace(prior_std=1., sampler='kernel-laplace', kernel='linear')
    learner.fit(X, y)
    expected = laplace(X, y, np.array([[3.], [0.5]]), 1.)
    got = learner.predict_proba(np.array([[3.], [0.5]]))
    if not np.allclose(got, expected, atol=1e-3):
        raise core.Violation('kernel-laplace assumes k(x, x) = 1: probabilities {} with a linear kernel, expected {}'.format(got.tolist(), expected.tolist()))
