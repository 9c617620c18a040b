import numpy as np
import scipy.stats
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler

check = core.Check('C18', rule='random version spaces (growing sets of separable labels, with dimensions fixed or growing by one per label, narrow to wide) and all sampler configurations, with the caches kept '
                   'between calls; non-trivial: at least two successive version spaces were sampled with one sampler / the uniform distribution was compared on a cone with active constraints',
                   assumptions=['labels are linearly separable with a relative margin of at least 0.01'])


@st.composite
def configs(draw):
    options = draw(st.sampled_from([None, None, {'max_iter': 1}, {'max_iter': 7}, {'strategy': 'default', 'max_iter': 15}, {'strategy': 'DEFAULT', 'max_iter': 60}, {'strategy': 'opt', 'z_cut': False},
                                    {'strategy': 'opt', 'z_cut': True, 'sphere_cuts': True, 'max_iter': 60}]))
    return {'single_chain': draw(st.booleans()), 'warmup': draw(st.sampled_from([1, 2, 10, 30])), 'thin': draw(st.sampled_from([1, 2, 5])), 'cache_samples': draw(st.booleans()),
            'rounding': draw(st.booleans()), 'rounding_cache': draw(st.booleans()), 'rounding_options': options}


@st.composite
def cases(draw):
    steps = draw(st.lists(st.integers(0, 4), min_size=1, max_size=6))
    return {'config': draw(configs()), 'dim': draw(st.integers(2, 6)), 'seed': draw(gen.seeds()), 'rng': draw(gen.seeds()), 'steps': steps, 'kernel': draw(st.booleans()),
            'extra': draw(st.sampled_from([0, 1, 1, 2])), 'n_samples': draw(st.integers(1, 6)), 'scale': draw(st.sampled_from([1., 1., 100., 1e-2])), 'clear': draw(st.booleans()), 'first': draw(st.integers(1, 5)),
            'int_labels': draw(st.booleans())}


def separable(r, n, dim, margin=0.05):
    w = r.randn(dim)
    w /= np.linalg.norm(w)
    X = []
    while len(X) < n:
        x = r.randn(dim)
        if abs(x.dot(w)) > margin * np.linalg.norm(x):
            X.append(x)
    X = np.array(X)
    return X, (X.dot(w) > 0).astype(float)


def judge(samples, X, y, n_samples, ctx):
    ctx.eq(samples.shape, (n_samples, X.shape[1]), 'shape of the samples')
    ctx.require(np.isfinite(samples).all(), 'samples are not finite')
    margin = samples.dot((X * np.where(y == 1, 1, -1).reshape(-1, 1)).T)
    scale = np.linalg.norm(X, axis=1)
    ctx.require((margin >= -1e-9 * scale).all(), 'a sample contradicts a label: margin {}', margin.min())
    norms = np.linalg.norm(samples, axis=1)
    ctx.require((norms <= 1 + 1e-9).all(), 'a sample has norm {}', norms.max())
    ctx.require((norms > 0).all(), 'zero sample')
    if n_samples > 1:
        ctx.require(len(np.unique(samples, axis=0)) == n_samples, 'the samples are not different')


@check.sub(cases(), quick=300, thorough=30000, shards=4)
def inside(case, ctx):
    """ Every sample satisfies all constraints, through successive version spaces. """
    r = gen.rs(case['seed'])
    sampler = HitAndRunSampler(**case['config'])
    total = case['first'] + sum(case['steps'])
    if case['kernel']:
        # rows of a lower triangular matrix, plus 'extra' zero columns: what a decomposed kernel looks like
        total = min(total, 9)
        L = np.tril(0.5 * r.randn(total, total))
        L[np.diag_indices(total)] = 0.3 + r.rand(total)
        y_all = r.randint(0, 2, size=total).astype(float)
        def view(n):
            return np.c_[L[:n, :n], np.zeros((n, case['extra']))], y_all[:n]
        if case['extra'] == 0 and case['first'] < 2:
            return  # dimension 1
    else:
        X_all, y_all = separable(r, total, case['dim'])
        X_all *= case['scale']
        def view(n):
            return X_all[:n], y_all[:n]
    np.random.seed(case['rng'] % 2 ** 32)
    n = case['first']
    calls = 0
    for step in [0] + case['steps']:
        n = min(n + step, total)
        X, y = view(n)
        X0, y0 = X.copy(), y.copy()
        samples = sampler.sample(X, y.astype(int) if case['int_labels'] else y, case['n_samples'])
        ctx.arr_eq(X, X0, 'data given to the sampler')
        ctx.arr_eq(y, y0, 'labels given to the sampler')
        judge(samples, X, y, case['n_samples'], ctx)
        kept = samples.copy()
        calls += 1
    ctx.nontrivial(calls >= 2 and n > case['first'])
    again = sampler.sample(X, y, case['n_samples'])
    judge(again, X, y, case['n_samples'], ctx)
    ctx.arr_eq(samples, kept, 'samples returned before')
    if case['clear']:
        sampler.clear()
        np.random.seed(case['rng'] % 2 ** 32)
        a = sampler.sample(X, y, case['n_samples'])
        np.random.seed(case['rng'] % 2 ** 32)
        b = HitAndRunSampler(**case['config']).sample(X, y, case['n_samples'])
        ctx.arr_eq(a, b, 'samples after clear() versus those of a new sampler')
    ctx.label('kernel' if case['kernel'] else 'linear', 'rounding' if case['config']['rounding'] else 'no rounding')


@check.sub(st.fixed_dictionaries({'dim': st.integers(2, 4), 'n': st.integers(1, 4), 'seed': gen.seeds(), 'rng': gen.seeds(), 'single': st.booleans(), 'rounding': st.booleans(), 'strategy': st.sampled_from(['opt', 'default']),
                                  'cached': st.booleans()}),
           quick=16, thorough=900, shards=8)
def uniform(case, ctx):
    """ Samples follow the uniform distribution of the version space: compared with rejection sampling from the unit ball. """
    r = gen.rs(case['seed'])
    dim = case['dim']
    for _ in range(50):
        X, y = separable(r, case['n'], dim)
        A = X * np.where(y == 1, 1, -1).reshape(-1, 1)
        ball = r.randn(60000, dim)
        ball *= (r.rand(60000, 1) ** (1 / dim)) / np.linalg.norm(ball, axis=1).reshape(-1, 1)
        exact = ball[(ball.dot(A.T) > 0).all(axis=1)]
        if len(exact) >= 6000:
            break
    else:
        return
    exact = exact[:20000]
    np.random.seed(case['rng'] % 2 ** 32)
    sampler = HitAndRunSampler(single_chain=case['single'], warmup=40, thin=25, rounding=case['rounding'], cache_samples=case['cached'],
                               rounding_options={'strategy': case['strategy'], 'max_iter': 40} if case['rounding'] else None)
    if case['cached']:
        sampler.sample(X[:1], y[:1], 3)
    samples = sampler.sample(X, y, 300)
    judge(samples, X, y, 300, ctx)
    stats = {'norm': (np.linalg.norm(samples, axis=1), np.linalg.norm(exact, axis=1))}
    for i in range(dim):
        stats['coordinate %d' % i] = (samples[:, i], exact[:, i])
    for i in range(len(A)):
        stats['margin %d' % i] = (samples.dot(A[i]), exact.dot(A[i]))
    for name, (a, b) in stats.items():
        p = scipy.stats.ks_2samp(a, b).pvalue
        ctx.require(p > 1e-9, 'the {} of the samples is not that of uniform samples of the version space: p-value {}, means {} and {}', name, p, a.mean(), b.mean())
        if p < 1e-4:
            ctx.label('p-value below 1e-4')
    ctx.nontrivial()


@check.sub(st.fixed_dictionaries({'dim': st.integers(2, 4), 'n': st.integers(1, 3), 'seed': gen.seeds(), 'rng': gen.seeds(), 'rounding': st.booleans(), 'n_samples': st.sampled_from([1, 10, 60])}), quick=8, thorough=300, shards=4)
def first_samples(case, ctx):
    """ The warm-up comes before the first sample, however many samples there are to come. """
    r = gen.rs(case['seed'])
    dim = case['dim']
    for _ in range(50):
        X, y = separable(r, case['n'], dim)
        A = X * np.where(y == 1, 1, -1).reshape(-1, 1)
        ball = r.randn(40000, dim)
        ball *= (r.rand(40000, 1) ** (1 / dim)) / np.linalg.norm(ball, axis=1).reshape(-1, 1)
        exact = ball[(ball.dot(A.T) > 0).all(axis=1)]
        if len(exact) >= 4000:
            break
    else:
        return
    np.random.seed(case['rng'] % 2 ** 32)
    options = {'max_iter': 20} if case['rounding'] else None
    first = np.array([HitAndRunSampler(warmup=60, thin=1, rounding=case['rounding'], rounding_options=options).sample(X, y, case['n_samples'])[0] for _ in range(250)])
    stats = {'norm': (np.linalg.norm(first, axis=1), np.linalg.norm(exact, axis=1))}
    for i in range(dim):
        stats['coordinate %d' % i] = (first[:, i], exact[:, i])
    for name, (a, b) in stats.items():
        p = scipy.stats.ks_2samp(a, b).pvalue
        ctx.require(p > 1e-9, 'the {} of the first of {} samples is not that of uniform samples of the version space: p-value {}, means {} and {}', name, case['n_samples'], p, a.mean(), b.mean())
    ctx.nontrivial()


def autocorrelation(S):
    Z = S - S.mean(axis=0)
    return float(np.mean((Z[1:] * Z[:-1]).sum(axis=1)) / np.mean((Z ** 2).sum(axis=1)))


@check.sub(st.fixed_dictionaries({'dim': st.integers(6, 9), 'n': st.integers(1, 4), 'seed': gen.seeds(), 'rng': gen.seeds(), 'kind': st.sampled_from(['multiple', 'every', 'thinned']), 'warmup': st.integers(1, 5), 'rounding': st.booleans(), 'before': st.booleans()}),
           quick=40, thorough=1500, shards=4)
def chains(case, ctx):
    """ Samples of separate chains are independent, successive samples of a single chain are not, unless thinned (autocorrelations within about 8 standard deviations). """
    r = gen.rs(case['seed'])
    X, y = separable(r, case['n'], case['dim'])
    kind = case['kind']
    np.random.seed(case['rng'] % 2 ** 32)
    sampler = HitAndRunSampler(single_chain=kind != 'multiple', warmup=case['warmup'], thin=200 if kind == 'thinned' else 1, rounding=case['rounding'], rounding_options={'max_iter': 20} if case['rounding'] else None)
    if case['before']:
        sampler.sample(X[:1], y[:1], 2)
    samples = sampler.sample(X, y, 80 if kind == 'thinned' else 400)
    rho = autocorrelation(samples)
    if kind == 'multiple':
        ctx.require(abs(rho) < 0.4, 'the samples of separate chains are correlated: {}', rho)
    elif kind == 'thinned':
        ctx.require(rho < 0.6, 'samples 200 steps apart are correlated: {}', rho)
    else:
        ctx.require(rho > 0.5, 'the correlation of successive states of a chain is {} only', rho)
    ctx.label(kind)
    ctx.nontrivial()


@check.sub(st.fixed_dictionaries({'name': st.sampled_from(['warmup', 'thin', 'max_iter', 'strategy']), 'value': st.sampled_from([0, -1, 'foo'])}), quick=40)
def arguments(case, ctx):
    name, value = case['name'], case['value']
    if (name == 'strategy') != (value == 'foo'):
        return
    kwargs = {'rounding_options': {name: value}} if name in ('max_iter', 'strategy') else {name: value, 'single_chain': name == 'thin'}
    ctx.raises(ValueError, lambda: HitAndRunSampler(**kwargs), '{}={}'.format(name, value))
    ctx.nontrivial()
