import contextlib
import io
import itertools
import math
import re
from unittest import mock

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import OptimizeResult
from scipy.special import expit
from sklearn.svm import SVC

import core
import gen
from aideme import SimpleMargin, SimplifiedSwapLearner, SubspatialSimpleMargin, SwapLearner
from aideme.active_learning import KernelVersionSpace
from aideme.active_learning.factorization.interaction import add_interaction_terms, print_interactions
from aideme.active_learning.factorization.kernel import KernelFactorizationLearner
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import BFGS, FISTA, Adam, GradientDescent
from aideme.active_learning.factorization.penalty import L1Penalty, L2Penalty, SparseGroupLassoPenalty
from aideme.explore import LabeledSet, PartitionedDataset
from C21 import data, table

check = core.Check('C38', rule='random data, kernels, subspaces and starting points against gradient descent on a table of kernel values; random matrices and weights against products spelled out; random configurations of '
                   'the simplified swap learner against swap learners assembled by hand; non-trivial: predictions of both kinds, respectively all phases were reached',
                   assumptions=['kernel matrices with repeated points are left out with Nystroem features'])


def descend(F, y, W, b, lr, its, lam):
    """ Gradient descent on the mean negative log-likelihood of a product of logistic functions (plus lam / 2 |W|^2); F: n x p x K features. """
    for _ in range(its):
        M = np.einsum('npk,kp->nk', F, W) + (0 if b is None else b)
        lp = -np.logaddexp(0, -M).sum(axis=1)
        dlp = np.where(y > 0, -1., np.exp(lp) / np.maximum(-np.expm1(lp), 1e-300)) / len(y)
        G = dlp[:, None] * expit(-M)
        W = W - lr * (np.einsum('npk,nk->kp', F, G) + lam * W)
        if b is not None:
            b = b - lr * G.sum(axis=0)
    return W, b


@check.sub(st.fixed_dictionaries({'c': st.fixed_dictionaries({'kernel': st.sampled_from(['linear', 'rbf', 'poly', 'gaussian']), 'gamma': st.sampled_from([None, 0.1, 1, 2.5]), 'degree': st.integers(1, 3), 'coef0': st.sampled_from([0., 1., 0.5]),
                                                                  'n': st.sampled_from([*range(4, 15)] * 4 + [210]), 'm': st.integers(1, 9), 'd': st.integers(1, 4), 'seed': gen.seeds(), 'grid': st.booleans()}),
                                  'parts': st.one_of(st.integers(1, 3), st.lists(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True), min_size=1, max_size=3)), 'bias': st.booleans(), 'nystroem': st.booleans(),
                                  'lr': st.sampled_from([0.01, 0.1, 0.3]), 'its': st.integers(0, 12), 'penalty': st.sampled_from([0., 0., 0.3]), 'x0': st.sampled_from(['matrix', 'flat', 'zeros']), 'refit': st.sampled_from([None, None, 'count', 'parts']), 'jitter': st.sampled_from([None, None, 0.25]), 'rng': gen.seeds()}), quick=500, thorough=30000, shards=2)
def kernel_model(case, ctx):
    """ The kernel model is the factorized linear model on kernel features, with one feature set per subspace if these are given. """
    c = case['c']
    r = gen.rs(c['seed'])
    X, Z, X2 = data(c, c['n'], r), data(c, c['m'], r), data(c, c['n'] + 2, r)
    y, y2 = (r.rand(len(X)) < 0.5).astype(float), (r.rand(len(X2)) < 0.5).astype(float)
    y[0], y[1] = 1, 0
    n, d = X.shape
    parts = case['parts'] if isinstance(case['parts'], int) else [list(dict.fromkeys(j % d for j in p)) for p in case['parts']]
    k = parts if isinstance(parts, int) else len(parts)
    subspaces = [list(range(d))] * k if isinstance(parts, int) else parts
    nystroem = case['nystroem'] and c['kernel'] != 'gaussian' and c['kernel'] == 'rbf' and not c['grid'] and len(np.unique(X.round(9), axis=0)) == n
    tables = [table(c['kernel'], X[:, s], X[:, s], c) for s in subspaces]
    jitter = case['jitter'] if not nystroem else None
    if jitter and isinstance(parts, int):  # the kernel of a training point with itself; with subspaces, only if their rows are the same objects
        tables = [T + jitter * np.eye(n) for T in tables]
    else:
        jitter = None
    scale = max(np.abs(T).max() for T in tables)
    if nystroem and max(np.linalg.cond(T) for T in tables) > 1e6:
        nystroem = False
    lr = case['lr'] / max(1., scale) ** 2
    optimizer = GradientDescent(step_size=lr, momentum=0., gtol=0, rel_tol=0, max_iter=max(1, case['its']))
    learner = KernelFactorizationLearner(optimizer, penalty_term=L2Penalty(case['penalty']) if case['penalty'] else None, add_bias=case['bias'], kernel=c['kernel'], gamma=c['gamma'], degree=c['degree'], coef0=c['coef0'],
                                         nystroem_components=n + 3 if nystroem else None, **({'jitter': jitter} if jitter else {}))
    np.random.seed(case['rng'] % 2 ** 32)
    if case['refit']:
        try:
            learner.fit(X2, y2, k + 1 if case['refit'] == 'count' else [[0]] * (k + 1))
            learner.predict(Z)
        except RuntimeError:  # the step size suits the other data: the loss may be infinite
            ctx.label('earlier training failed')
    W = np.zeros((k, n)) if nystroem or case['x0'] == 'zeros' else 0.3 * r.randn(k, n) / scale
    b = (np.zeros(k) if nystroem else r.randn(k)) if case['bias'] else None
    x0 = W if b is None else np.hstack([W, b[:, None]])
    kept, kept_X = x0.copy(), X.copy()
    learner.fit(X, y, parts, x0=x0.ravel() if case['x0'] == 'flat' else x0)
    ctx.arr_eq(x0, kept, 'starting point')
    ctx.arr_eq(X, kept_X, 'training points')
    # with Nystroem features of all points the result is the same in function space: descend on the coefficients of the kernel expansion
    if nystroem:
        A, bb = np.zeros((k, n)), b
        for _ in range(max(1, case['its'])):
            M = np.stack([T @ a for T, a in zip(tables, A)], axis=1) + (0 if bb is None else bb)
            lp = -np.logaddexp(0, -M).sum(axis=1)
            G = (np.where(y > 0, -1., np.exp(lp) / np.maximum(-np.expm1(lp), 1e-300)) / n)[:, None] * expit(-M)
            A = A - lr * (G.T + 2 * case['penalty'] * A)
            bb = None if bb is None else bb - lr * G.sum(axis=0)
    else:
        A, bb = descend(np.stack(tables, axis=2), y, W, b, lr, max(1, case['its']), 2 * case['penalty'])
    ctx.eq(learner.num_subspaces, k, 'number of subspaces')
    tol = dict(rtol=1e-4, atol=1e-5) if nystroem else dict(rtol=1e-6, atol=1e-8)
    if not nystroem:
        ctx.close(learner.weights, A, 'weights', **tol)
        ctx.close(learner.weight_matrix, A if bb is None else np.hstack([A, bb[:, None]]), 'weight matrix', **tol)
    ctx.close(learner.bias, np.zeros(k) if bb is None else bb, 'bias', **tol)
    for points, what in ((Z, 'new points'), (X, 'training points'))[:1 if jitter else 2]:  # whether jitter is added to a training point given again is left open
        for _ in range(2):
            M = np.stack([table(c['kernel'], points[:, s], X[:, s], c) @ a for s, a in zip(subspaces, A)], axis=1) + (0 if bb is None else bb)
            partial = expit(M)
            proba = np.exp(-np.logaddexp(0, -M).sum(axis=1))
            ctx.close(learner.partial_proba(points), partial, 'partial probabilities of {}'.format(what), **tol)
            ctx.close(learner.predict_proba(points), proba, 'probabilities of {}'.format(what), **tol)
            got = np.asarray(learner.predict(points))
            clear = np.abs(proba - 0.5) > 1e-4
            ctx.arr_eq(got[clear], (proba > 0.5).astype(float)[clear], 'labels of {}'.format(what))
            points = points.copy()
    if len(Z) > 1:
        ctx.close(np.concatenate([learner.predict_proba(z[None, :]) for z in Z]), learner.predict_proba(Z), 'probabilities of new points, one by one', rtol=1e-6, atol=1e-8)
    ctx.nontrivial(k > 1 and case['its'] > 1)
    ctx.label('nystroem' if nystroem else c['kernel'], 'subspaces' if isinstance(parts, list) else 'count')


class Results:
    """ Optimizer which stays where it starts. """
    def __init__(self):
        self.results = []

    def minimize(self, x0, func, grad):
        x0 = np.array(x0)
        self.results.append((x0, float(func(x0.copy()))))
        return OptimizeResult(x=x0, fun=self.results[-1][1], success=True)


@check.sub(st.fixed_dictionaries({'n': st.integers(6, 16), 'd': st.integers(1, 3), 'seed': gen.seeds(), 'k': st.integers(1, 3), 'retries': st.integers(1, 3), 'opt': st.sampled_from(['bfgs', 'adam', 'fista']), 'gamma': st.sampled_from([None, 0.3, 2.]),
                                  'penalty': st.booleans(), 'parts': st.booleans(), 'bias': st.booleans(), 'rng': gen.seeds()}), quick=60, thorough=4000, shards=2)
def kernel_restarts(case, ctx):
    """ Restarts and optimizers of the kernel model are those of the linear model on the same features. """
    r = gen.rs(case['seed'])
    X, Z = r.randn(case['n'], case['d']), r.randn(5, case['d'])
    y = (r.rand(len(X)) < 0.5).astype(float)
    y[:2] = 1, 0
    parts = [[j % case['d']] for j in range(case['k'])] if case['parts'] else case['k']

    def build(cls, **kwargs):
        opt = {'bfgs': lambda: BFGS(max_iter=30), 'adam': lambda: Adam(step_size=0.1, max_iter=15), 'fista': lambda: FISTA(step_size=0.05, max_iter=15)}[case['opt']]()
        penalty = L1Penalty(1e-2) if case['opt'] == 'fista' else L2Penalty(1e-2) if case['penalty'] else None
        return cls(opt, penalty_term=penalty, add_bias=case['bias'], **kwargs)
    p = {'kernel': 'rbf', 'gamma': case['gamma'], 'degree': 3, 'coef0': 0.}
    subspaces = parts if case['parts'] else [list(range(case['d']))]

    def features(A):
        F = np.stack([table('rbf', A[:, s], X[:, s], p) for s in subspaces], axis=2)
        return F if case['parts'] else np.ascontiguousarray(F[:, :, 0])
    learner, linear = build(KernelFactorizationLearner, kernel='rbf', gamma=case['gamma']), build(LinearFactorizationLearner)
    x0 = r.randn(case['retries'], case['k'], len(X) + case['bias'])
    result = learner.fit(X, y, parts, retries=case['retries'], x0=x0.copy())
    linear.fit(features(X), y, case['k'], retries=case['retries'], x0=x0.copy())
    # iterative optimization amplifies rounding: compare loosely, and judge the quality of the solution
    ctx.close(learner.predict_proba(Z), linear.predict_proba(features(Z)), 'probabilities', rtol=1e-2, atol=1e-3)
    M = linear.partial_proba(features(X))
    ctx.close(learner.partial_proba(X), M, 'partial probabilities', rtol=1e-2, atol=1e-3)
    ctx.require(np.isfinite(result.fun), 'result of fit: {}', result)
    # without starting points: as many random ones as asked for, the best result being kept
    opt = Results()
    other = KernelFactorizationLearner(opt, add_bias=case['bias'], kernel='rbf', gamma=case['gamma'])
    np.random.seed(case['rng'] % 2 ** 32)
    res = other.fit(X, y, parts, retries=case['retries'])
    ctx.eq(len(opt.results), case['retries'], 'number of starting points')
    ctx.eq(len({x.tobytes() for x, _ in opt.results}), case['retries'], 'number of different starting points')
    x, f = min(opt.results, key=lambda t: t[1])
    ctx.close(res.fun, f, 'loss of the result')
    ctx.close(other.weight_matrix, x.reshape(case['k'], -1), 'weights: those of the best start')
    ctx.nontrivial(case['retries'] > 1)


@check.sub(st.fixed_dictionaries({'n': st.integers(1, 6), 'd': st.one_of(st.integers(1, 6), st.integers(1, 14)), 'seed': gen.seeds(), 'self': st.booleans(), 'grid': st.booleans(), 'zero': st.floats(0, 1), 'tol': st.sampled_from([None, 1e-5, 0.5, 0.])}), quick=300, thorough=20000)
def interactions(case, ctx):
    """ Interaction terms are all products of two attributes, in lexicographic order; non-zero weights are reported under the right pair. """
    r = gen.rs(case['seed'])
    X = (r.randint(-3, 4, size=(case['n'], case['d'])) if case['grid'] else r.randn(case['n'], case['d'])).astype(float)
    kept = X.copy()
    args = {'self_interacting': True} if case['self'] else {}
    got = add_interaction_terms(X, **args)
    pairs = list(itertools.combinations(range(case['d']), 2))
    expected = [[*x, *([v * v for v in x] if case['self'] else []), *(x[i] * x[j] for i, j in pairs)] for x in X.tolist()]
    ctx.close(got, np.array(expected), 'attributes with interaction terms', rtol=1e-12)
    ctx.arr_eq(X, kept, 'data')
    w = r.randn(got.shape[1]) * (r.rand(got.shape[1]) < case['zero'])
    tol = 1e-5 if case['tol'] is None else case['tol']
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_interactions(w, **args, **({} if case['tol'] is None else {'tol': tol}))
    tail = w[len(w) - len(pairs):]
    reported = [tuple(map(int, m)) for m in re.findall(r'\((\d+), (\d+)\)', out.getvalue().split('features', 1)[-1])]
    ctx.eq(reported, [p for p, v in zip(pairs, tail) if abs(v) > tol], 'reported interactions')
    ctx.nontrivial(len(pairs) > 1 and 0 < len(reported) < len(pairs))


@contextlib.contextmanager
def recorded(log):
    """ Records number of starting points, their size and the iterations of every run of an optimizer. """
    def wrap(cls):
        original = cls.minimize

        def minimize(self, x0, func, grad):
            res = original(self, x0, func, grad)
            log.append((cls.__name__, int(np.size(x0)), int(res.it)))
            return res
        return mock.patch.object(cls, 'minimize', minimize)
    with wrap(Adam), wrap(FISTA):
        yield


@check.sub(st.fixed_dictionaries({'swap_iter': st.integers(1, 3), 'sample': st.integers(5, 25), 'k': st.integers(1, 3), 'retries': st.integers(1, 2), 'l1': st.sampled_from([1e-4, 1e-2]), 'l2': st.sampled_from([1e-4, 2e-2]), 'adapt': st.booleans(),
                                  'min': st.integers(1, 6), 'max': st.integers(6, 25), 'every': st.integers(1, 3), 'inc': st.integers(1, 6), 'exp': st.booleans(), 'step': st.sampled_from([None, None, 0.02, 0.3, 2e-3]), 'vs': st.sampled_from([False, False, False, True]),
                                  'decay': st.booleans(), 'fista': st.booleans(), 'cars': st.sampled_from([False, False, False, False, True]), 'groups': st.booleans(), 'seed': gen.seeds(), 'prune': st.booleans(), 'thr': st.sampled_from([0.99, 0.6]),
                                  'more': st.integers(1, 9), 'full': st.booleans(), 'fact_vs': st.booleans(), 'fact_iter': st.integers(20, 60), 'fact_step': st.sampled_from([1., 5.]), 'fact_penalty': st.sampled_from([5e-4, 1e-2])}), quick=40, thorough=2500, shards=6)
def simplified(case, ctx):
    """ SimplifiedSwapLearner behaves like the swap learner put together from the parts its parameters describe. """
    r = gen.rs(case['seed'])
    n, d = 40, 3
    X = r.randn(n, d)
    y = ((X[:, 0] > -0.6) & (X[:, 1] < 0.6)).astype(float)
    groups = [[0], [1, 2]] if case['groups'] else None
    options = dict(swap_iter=case['swap_iter'], l1_penalty=case['l1'], l2_sqrt_penalty=case['l2'], train_sample_size=case['sample'], num_subspaces=case['k'], retries=case['retries'], prune=case['prune'], prune_threshold=case['thr'],
                   adapt_max_iter=case['adapt'], refine_min_iter=case['min'], refine_max_iter=case['max'], refine_every=case['every'], refine_increment=case['inc'], refine_step_size=case['step'], refine_exp=case['exp'],
                   use_vs=case['vs'], use_exp_decay=case['decay'], use_fista=case['fista'], cars=case['cars'], one_hot_groups=groups, full_fact=case['full'], use_fact_vs=case['fact_vs'], fact_max_iter=case['fact_iter'],
                   fact_step_size=case['fact_step'], fact_penalty=case['fact_penalty'], fact_C=1e2)
    exact = {'gtol': 0, 'rel_tol': 0}
    cls = SimplifiedSwapLearner
    swap = cls.SWAP_CARS if case['cars'] else cls.SWAP_EXP_DECAY if case['decay'] else cls.SWAP_DEFAULT_PARAMS
    epoch = math.ceil(case['sample'] / swap['batch_size']) if swap['batch_size'] else 1
    swap_its = swap['max_iter'] * epoch

    def limit(it):
        if not case['adapt']:
            return case['max']
        return min(case['max'], case['min'] * 2 ** (it // case['every']) if case['exp'] else case['min'] + case['inc'] * (it // case['every']))

    def by_hand():
        active = KernelVersionSpace(**cls.VS_DEFAULT_PARAMS) if case['vs'] else SimpleMargin(C=1e6)
        schedule = {'adapt_step_size': True, 'adapt_every': swap['adapt_every'] * epoch, 'exp_decay': swap.get('exp_decay', 0)} if swap['adapt_step_size'] else {}
        first = LinearFactorizationLearner(Adam(step_size=swap['step_size'], max_iter=swap_its, batch_size=swap['batch_size'], **schedule, **exact))
        defaults = (cls.FISTA_CARS if case['cars'] else cls.FISTA_DEFAULT_PARAMS) if case['fista'] else (cls.REFINE_CARS if case['cars'] else cls.REFINE_DEFAULT_PARAMS)
        opt = (FISTA if case['fista'] else Adam)(step_size=case['step'] or defaults['step_size'], max_iter=case['max'], **exact)
        second = LinearFactorizationLearner(opt, SparseGroupLassoPenalty(l1_penalty=case['l1'], l2_sqrt_penalty=case['l2'], groups=groups))
        fact = None
        if case['full']:
            from aideme import SubspatialVersionSpace
            fact = SubspatialVersionSpace(**cls.FACT_VS_PARAMS) if case['fact_vs'] else SubspatialSimpleMargin(C=1e2)
        return SwapLearner(active, first, second, num_subspaces=case['k'], retries=case['retries'], max_iter_adapter=limit if case['adapt'] else None, swap_iter=case['swap_iter'], train_sample_size=case['sample'], prune=case['prune'],
                           prune_threshold=case['thr'], fact_model=fact, compute_fact_every=5, fact_repeat=2, fact_max_iter=case['fact_iter'], fact_step_size=case['fact_step'], fact_l1_penalty=case['fact_penalty'], fact_l2_sqrt_penalty=case['fact_penalty'])
    order = r.permutation(n).tolist()
    start = [next(i for i in order if y[i] == 1), next(i for i in order if y[i] == 0)]
    order = start + [i for i in order if i not in start]

    def run(learner):
        """ Labels one more point per iteration. """
        if case['full']:
            learner.set_user_factorization([[0], [1, 2]])
        np.random.seed(case['seed'] % 2 ** 32)
        data = PartitionedDataset(X.copy())
        out = []
        with recorded(log := []):
            for it in range(case['swap_iter'] + 1 + case['more']):
                new = order[:6] if it == 0 else [order[5 + it]]
                data.move_to_labeled(LabeledSet(y[new], index=new))
                del log[:]
                try:
                    learner.fit_data(data)
                except Exception as e:
                    if type(e).__name__ == 'Violation' or it <= case['swap_iter']:
                        raise
                    out.append({'failed': type(e).__name__})  # known findings (no relevant subspace): the same on both sides
                    break
                out.append({'runs': list(log), 'proba': np.asarray(learner.predict_proba(X)) if not (case['full'] and it > case['swap_iter'] + 9) else None, 'labels': np.asarray(learner.predict(X)), 'rank': np.asarray(learner.rank(X)),
                            'k': learner.linear_model.num_subspaces if learner.linear_model is not None else None})
        return out
    first, second = run(SimplifiedSwapLearner(**options)), run(by_hand())
    ctx.eq(len(first), len(second), 'number of iterations')
    for it, (a, b) in enumerate(zip(first, second)):
        ctx.eq(a.get('failed'), b.get('failed'), 'iteration {}'.format(it))
        if 'failed' in a:
            break
        ctx.eq(a['k'], b['k'], 'number of subspaces at iteration {}'.format(it))
        ctx.eq(a['runs'], b['runs'], 'optimizations at iteration {}'.format(it))
        for what in ('labels', 'rank', 'proba'):
            if b[what] is not None:
                ctx.close(a[what], b[what], '{} at iteration {}'.format(what, it), rtol=1e-7, atol=1e-9)
        # the iterations of the documented schedule
        if it == case['swap_iter']:
            ctx.eq(a['runs'][:case['retries']], [('Adam', case['k'] * (d + 1), swap_its)] * case['retries'], 'optimizations when swapping')
        elif it > case['swap_iter'] and (not case['full'] or a['runs']):
            ctx.eq(a['runs'][0][0::2], ('FISTA' if case['fista'] else 'Adam', limit(it - case['swap_iter'])), 'refining at iteration {} (counted from the swap: {})'.format(it, it - case['swap_iter']))
        elif it < case['swap_iter']:
            ctx.eq(a['runs'], [], 'optimizations before swapping')
    ctx.nontrivial(len(first) > case['swap_iter'] + 1)
    ctx.label('adapted' if case['adapt'] else 'fixed', 'full' if case['full'] else 'linear')


@check.sub(st.fixed_dictionaries({'seed': gen.seeds(), 'C': st.sampled_from([0.05, 1., 1e2, 1e4]), 'order': st.booleans(), 'wide': st.booleans(), 'three': st.booleans(), 'iters': st.integers(0, 2)}), quick=16, thorough=1000, shards=4)
def simplified_factorized(case, ctx):
    """ Once the factorization is stable, the labels and ranks are those of one support vector machine per subspace, with parameter fact_C. """
    r = gen.rs(case['seed'])
    np.random.seed(case['seed'] % 2 ** 32)
    d = 4
    X = r.uniform(-1, 1, size=(500, d))
    rules = [(0, -0.3, 1), (1, 0.2, -1)] + ([(2, -0.6, 1)] if case['three'] else [])
    X = X[np.all([np.abs(X[:, q] - b) > 0.1 for q, b, _ in rules], axis=0)]
    Y = np.array([s * (X[:, q] - b) > 0 for q, b, s in rules]).T.astype(float)
    user = [[0], [1]] + ([[2]] if case['three'] else [])
    if case['wide']:
        user[0] = [0, 3]
    if case['order']:
        user, Y = user[::-1], Y[:, ::-1]
    y = Y.min(axis=1)
    learner = SimplifiedSwapLearner(swap_iter=1, train_sample_size=300, num_subspaces=len(rules), use_vs=False, full_fact=True, fact_C=case['C'], fact_max_iter=400, refine_max_iter=100)
    learner.set_user_factorization(user)
    dataset = PartitionedDataset(X.copy())
    for it in range(13 + case['iters']):
        new = list(range(200)) if it == 0 else [200 + it]
        dataset.move_to_labeled(LabeledSet(y[new], Y[new], index=new))
        try:
            learner.fit_data(dataset)
        except Exception:
            return  # known findings: nothing relevant
    XT, YT = dataset.training_set(get_partial=True)
    XT, YT = np.array(XT), np.array(YT)
    # the switch has replaced the partial labels, unless they came back the same; learned subspaces are within those of the user
    Q = r.uniform(-1, 1, size=(40, d))
    rank = np.asarray(learner.rank(Q))
    if rank.max() <= 0.5 and (np.asarray(learner.rank(XT)) <= 0.5).all() and case['C'] > 0.5:
        ctx.label('not switched')
        return
    options = []
    for u in user:  # which attributes of the subspace of the user were found relevant
        options.append([list(s) for k in range(1, len(u) + 1) for s in itertools.combinations(u, k)])
    found = False
    for choice in itertools.product(*options):
        dist = []
        for s, labels in zip(choice, YT.T):
            if len(set(labels)) < 2:
                return
            dist.append(SVC(C=case['C'], gamma='auto').fit(XT[:, s], labels).decision_function(Q[:, s]))
        dist = np.array(dist)
        clear = (np.abs(dist) > 1e-3).all(axis=0)
        found = found or np.allclose(np.abs(dist).sum(axis=0), rank, rtol=1e-3, atol=1e-3) and np.array_equal((dist > 0).all(axis=0)[clear], np.asarray(learner.predict(Q))[clear] > 0.5)
    if rank.max() <= 0.5 and not found:
        ctx.label('not switched')
        return
    ctx.require(found, 'ranks {}: not those of support vector machines with C={} in subspaces within {}', rank, case['C'], user)
    ctx.nontrivial()
    ctx.label('switched')
