import math

import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.kernel import FactorizedKernelTransform, IncrementedDiagonalKernel, Kernel, KernelTransformer

check = core.Check('C21', rule='random kernels, parameters and data (with repeated rows and grids) against formulas evaluated pair by pair; random feature transformations against kernel matrices; '
                   'non-trivial: at least two different rows on each side')


def value(name, x, z, gamma, degree, coef0):
    """ The kernel of two rows, in plain Python. """
    gamma = 1 / len(x) if gamma is None else gamma
    dot = math.fsum(a * b for a, b in zip(x, z))
    if name == 'linear':
        return dot
    if name in ('rbf', 'gaussian'):
        return math.exp(-gamma * math.fsum((a - b) ** 2 for a, b in zip(x, z)))
    return (gamma * dot + coef0) ** degree


def table(name, X, Z, case):
    return np.array([[value(name, x, z, case['gamma'], case['degree'], case['coef0']) for z in Z.tolist()] for x in X.tolist()]).reshape(len(X), len(Z))


@st.composite
def cases(draw):
    return {'kernel': draw(st.sampled_from(['linear', 'rbf', 'gaussian', 'poly', 'RBF', 'Poly', 'LINEAR'])), 'gamma': draw(st.sampled_from([None, None, 0.1, 1, 2.5])), 'degree': draw(st.sampled_from([1, 2, 3, 4, 5, 2, 3, 8])),
            'coef0': draw(st.sampled_from([0., 1., -0.5, 3.])), 'n': draw(st.integers(1, 7)), 'm': draw(st.integers(1, 7)), 'd': draw(st.sampled_from([1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 9, 14])), 'seed': draw(gen.seeds()), 'grid': draw(st.booleans()),
            'jitter': draw(st.sampled_from([0., 0., 1e-6, 0.5]))}


def data(case, n, r):
    X = r.randint(-2, 3, size=(n, case['d'])).astype(float) if case['grid'] else 1.5 * r.randn(n, case['d'])
    if n > 2 and r.rand() < 0.3:
        X[-1] = X[0]
    return X


@check.sub(cases(), quick=900, thorough=60000, shards=2)
def formulas(case, ctx):
    name = case['kernel'].lower()
    r = gen.rs(case['seed'])
    X, Z = data(case, case['n'], r), data(case, case['m'], r)
    X0, Z0 = X.copy(), Z.copy()
    kernel = Kernel.get(case['kernel'], gamma=case['gamma'], degree=case['degree'], coef0=case['coef0'])
    if case['jitter']:
        kernel = IncrementedDiagonalKernel(kernel, case['jitter'])
    K, C = table(name, X, X, case), table(name, X, Z, case)
    J = K + case['jitter'] * np.eye(len(X))
    scale = max(1, np.abs(K).max(), np.abs(C).max())
    tol = dict(rtol=1e-9, atol=1e-11 * scale)
    ctx.close(kernel(X), J, 'kernel(X)', **tol)
    ctx.close(kernel.compute(X), J, 'compute(X)', **tol)
    ctx.close(kernel(X, X), J, 'kernel(X, X)', **tol)
    ctx.close(kernel(X, Z), C, 'kernel(X, Z)', **tol)
    ctx.close(kernel.compute(X, Z), C, 'compute(X, Z)', **tol)
    ctx.close(kernel(Z, X), C.T, 'kernel(Z, X)', **tol)
    for _ in range(2):
        ctx.close(kernel.diagonal(X), np.diag(J), 'diagonal(X)', **tol)
    ctx.arr_eq(X, X0, 'data given to the kernel')
    ctx.arr_eq(Z, Z0, 'data given to the kernel')
    ctx.nontrivial(len(np.unique(X, axis=0)) > 1 and len(np.unique(Z, axis=0)) > 1)
    ctx.label(name, 'jitter' if case['jitter'] else 'no jitter')


@check.sub(st.fixed_dictionaries({'c': cases(), 'n': st.sampled_from([40, 70, 130, 300]), 'm': st.sampled_from([1, 50, 150])}), quick=60, thorough=3000)
def many_rows(case, ctx):
    """ The same formulas, evaluated without loops, for matrices of many rows. """
    c = case['c']
    name = c['kernel'].lower()
    r = gen.rs(c['seed'])
    X, Z = data(c, case['n'], r), data(c, case['m'], r)
    gamma = 1 / c['d'] if c['gamma'] is None else c['gamma']

    def formula(A, B):
        dot = np.array([A @ b for b in B]).T
        if name == 'linear':
            return dot
        if name == 'poly':
            return (gamma * dot + c['coef0']) ** c['degree']
        return np.exp(-gamma * np.array([((A - b) ** 2).sum(axis=1) for b in B]).T)
    kernel = Kernel.get(c['kernel'], gamma=c['gamma'], degree=c['degree'], coef0=c['coef0'])
    if c['jitter']:
        kernel = IncrementedDiagonalKernel(kernel, c['jitter'])
    J, C = formula(X, X) + c['jitter'] * np.eye(len(X)), formula(X, Z)
    tol = dict(rtol=1e-9, atol=1e-11 * max(1, np.abs(J).max(), np.abs(C).max()))
    ctx.close(kernel(X), J, 'kernel(X)', **tol)
    ctx.close(kernel(X, X), J, 'kernel(X, X)', **tol)
    ctx.close(kernel(X, Z), C, 'kernel(X, Z)', **tol)
    ctx.close(kernel.diagonal(X), np.diag(J), 'diagonal(X)', **tol)
    t = KernelTransformer.get(c['kernel'], degree=c['degree'], gamma=c['gamma'], coef0=c['coef0'], jitter=c['jitter'])
    t.fit(X)
    ctx.close(t.transform(Z), C.T, 'transformed points', **tol)
    ctx.nontrivial(len(np.unique(X, axis=0)) > 10)


@check.sub(st.fixed_dictionaries({'c': cases(), 'n2': st.integers(1, 6), 'nystroem': st.sampled_from([None, None, 'all', 'some', 'more']), 'rng': gen.seeds(), 'fit_transform': st.booleans(),
                                  'parts': st.lists(st.lists(st.integers(0, 4), min_size=1, max_size=4, unique=True), min_size=1, max_size=3)}), quick=500, thorough=30000, shards=2)
def transformers(case, ctx):
    """ Transformed points are the kernel values with the training points (exactly, or in scalar products for Nystroem). """
    c = case['c']
    name = c['kernel'].lower()
    r = gen.rs(c['seed'])
    X, X2, Z = data(c, c['n'], r), data(c, case['n2'], r), data(c, c['m'], r)
    n = len(X)
    components = {None: None, 'all': n, 'some': max(1, n - 1), 'more': n + 3}[case['nystroem']]
    if components is not None:
        c['kernel'], c['jitter'] = ('rbf' if name == 'gaussian' else name), 0.
        name = c['kernel']
    if name == 'poly' and components is not None:
        c['coef0'] = abs(c['coef0'])  # a kernel only if positive
    t0 = KernelTransformer.get(c['kernel'], degree=c['degree'], gamma=c['gamma'], coef0=c['coef0'], jitter=c['jitter'], nystroem_components=components)
    parts = [list(dict.fromkeys(j % c['d'] for j in p)) for p in case['parts']]

    def judge(F, A, B, same, what):
        K = table(name, A, B, c)
        if components is None:
            ctx.close(F, K + c['jitter'] * np.eye(len(A)) if same else K, what, rtol=1e-9, atol=1e-11 * max(1, np.abs(K).max()))
        else:
            m = min(components, len(B))
            ctx.eq(F.shape, (len(A), m), 'shape of {}'.format(what))
            if same and m == len(B):
                scale = max(1, np.abs(K).max())
                ctx.close(F @ F.T, K, 'scalar products of {}'.format(what), rtol=1e-4, atol=1e-4 * scale)

    np.random.seed(case['rng'] % 2 ** 32)
    t = t0.clone()
    F = t.fit_transform(X) if case['fit_transform'] else (t.fit(X), t.transform(X))[1]
    judge(F, X, X, True, 'transformed training points')
    ctx.eq(t.n_components, min(components, n) if components is not None else n, 'number of components')
    judge(t.transform(Z), Z, X, False, 'transformed points')
    if components is not None and components >= n:
        Kzx = table(name, Z, X, c)
        Kxx = table(name, X, X, c)
        if np.linalg.cond(Kxx) < 1e5:
            ctx.close(t.transform(Z) @ t.transform(X).T, Kzx, 'scalar products of transformed points with training points', rtol=1e-4, atol=1e-4 * max(1, np.abs(Kxx).max()))
    # a clone is fitted on its own
    u = t.clone()
    u.fit(X2)
    judge(u.transform(Z), Z, X2, False, 'points transformed by a clone')
    ctx.eq(t.n_components, min(components, n) if components is not None else n, 'number of components after fitting a clone')
    judge(t.transform(Z), Z, X, False, 'points transformed after fitting a clone')
    # trained again
    X3 = data(c, n if case['rng'] % 3 else case['n2'], r)
    G = t.fit_transform(X3) if case['fit_transform'] else (t.fit(X3), t.transform(X3))[1]
    judge(G, X3, X3, True, 'training points transformed after a second fit')
    judge(t.transform(Z), Z, X3, False, 'points transformed after a second fit')
    ctx.eq(t.n_components, min(components, len(X3)) if components is not None else len(X3), 'number of components after a second fit')
    # one transformation per subspace
    f = FactorizedKernelTransform(t0, parts)
    f = f.clone() if case['rng'] % 2 else f
    G = f.fit_transform(X) if case['fit_transform'] else (f.fit(X), f.transform(X))[1]
    ctx.eq(G.shape, (n, f.n_components, len(parts)), 'shape of the factorized features')
    H = f.transform(Z)
    for k, p in enumerate(parts):
        if components is None:
            A = np.ascontiguousarray(X[:, p])
            K = table(name, A, A, c)
            JK = K + c['jitter'] * np.eye(n)
            # jitter is added where a point meets itself: either reading of 'itself' is accepted for the transformed training points
            scale = max(1, np.abs(K).max())
            ok = np.allclose(G[:, :, k], K, rtol=1e-9, atol=1e-11 * scale) or np.allclose(G[:, :, k], JK, rtol=1e-9, atol=1e-11 * scale)
            ctx.require(ok, 'features of subspace {}: got {}, expected {}', p, G[:, :, k].tolist(), K.tolist())
            ctx.close(H[:, :, k], table(name, Z[:, p], A, c), 'features of new points in subspace {}'.format(p), rtol=1e-9, atol=1e-11 * scale)
    if components is not None:
        ctx.eq(H.shape, (len(Z), min(components, n), len(parts)), 'shape of the factorized features')
    ctx.nontrivial(len(np.unique(X, axis=0)) > 1 and len(np.unique(Z, axis=0)) > 1)
    ctx.label('nystroem' if components is not None else 'kernel', '{} subspaces'.format(len(parts)))


@check.sub(st.fixed_dictionaries({'name': st.sampled_from(['linear', 'rbf', 'gaussian', 'poly', 'sigmoid', '', 'polynomial', 'RBF']), 'gamma': st.sampled_from([None, 1., 0., -1.]), 'degree': st.sampled_from([1, 3, 0, -2]), 'jitter': st.sampled_from([1., 0., -1e-3])}), quick=150)
def arguments(case, ctx):
    name = case['name'].lower()
    bad_gamma = case['gamma'] is not None and case['gamma'] <= 0 and name in ('rbf', 'gaussian', 'poly')
    bad = name not in ('linear', 'rbf', 'gaussian', 'poly') or bad_gamma or (name == 'poly' and case['degree'] <= 0)
    make = lambda: Kernel.get(case['name'], gamma=case['gamma'], degree=case['degree'])
    if bad:
        ctx.raises(ValueError, make, 'kernel {}'.format(case))
    else:
        k = make()
        if case['jitter'] <= 0:
            ctx.raises(ValueError, lambda: IncrementedDiagonalKernel(k, case['jitter']), 'jitter {}'.format(case['jitter']))
    ctx.nontrivial(bad)
