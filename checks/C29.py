import numpy as np
from hypothesis import strategies as st
from scipy.optimize import OptimizeResult
from scipy.special import expit
from sklearn.linear_model import LogisticRegression

import core
import gen
from aideme.active_learning.factorization.learn import compute_factorization, compute_factorization_and_partial_labels, compute_relevant_attributes, prune_irrelevant_subspaces
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import BFGS, FISTA, Adam, GradientDescent, ProximalGradientDescent
from aideme.active_learning.factorization.penalty import L1Penalty, L2Penalty, L2SqrtPenalty, SparseGroupLassoPenalty
from aideme.explore import LabeledSet, PartitionedDataset

check = core.Check('C29', rule='random data, weights, subspace structures and optimizers (real ones, and doubles with scripted results); non-trivial: several subspaces, of which some but not all are affected',
                   assumptions=['at least two attributes, and at least one relevant subspace (known findings otherwise)'])


class Scripted:
    """ Optimizer returning given results, recording the starting points. """
    def __init__(self, results):
        self.results, self.starts = list(results), []

    def minimize(self, x0, func, grad):
        self.starts.append(np.array(x0))
        x, fun = self.results[len(self.starts) - 1]
        return OptimizeResult(x=x0 if x is None else x, fun=fun, success=True)


def trained(W, bias, penalty=None):
    """ A learner with the given weights (last column: bias, if any). """
    k, d = W.shape
    learner = LinearFactorizationLearner(Scripted([(W.copy(), 0.)]), penalty_term=penalty, add_bias=bias)
    learner.fit(np.zeros((1, d - bias)), np.ones(1), k)
    return learner


@st.composite
def shapes(draw, d_min=1):
    return {'k': draw(st.integers(1, 4)), 'd': draw(st.integers(d_min, 5)), 'n': draw(st.integers(1, 12)), 'bias': draw(st.booleans()), 'seed': draw(gen.seeds())}


@check.sub(st.fixed_dictionaries({'c': shapes(), 'funs': st.lists(st.sampled_from([0.1, 0.5, 0.5, 0.501, 0.5002, 2., float('inf')]), min_size=1, max_size=4), 'given': st.booleans(), 'flat': st.booleans(),
                                  'parts': st.one_of(st.none(), st.lists(st.lists(st.integers(0, 4), min_size=1, max_size=4, unique=True), min_size=1, max_size=3))}), quick=600, thorough=30000, shards=2)
def training(case, ctx):
    """ The best of several restarts wins; starting points and subspaces are respected. """
    c = case['c']
    r = gen.rs(c['seed'])
    np.random.seed(c['seed'] % 2 ** 32)
    parts = case['parts'] if case['parts'] is None else [sorted({q % c['d'] for q in p}) for p in case['parts']]
    k, dim, retries = c['k'] if parts is None else len(parts), c['d'] + c['bias'], len(case['funs'])
    mask = np.ones((k, dim), dtype=bool)
    if parts is not None:
        mask[:, :c['d']] = [[q in p for q in range(c['d'])] for p in parts]
    results = [r.randn(k, dim) * mask for _ in range(retries)]
    opt = Scripted([(W if parts is None else W[mask], f) for W, f in zip(results, case['funs'])])
    learner = LinearFactorizationLearner(opt, add_bias=c['bias'])
    ctx.require(learner.weights is None and learner.bias is None and learner.weight_matrix is None and learner.num_subspaces == 0, 'weights before training')
    X, y = r.randn(c['n'], c['d']), r.randint(0, 2, size=c['n']).astype(float)
    x0 = r.randn(retries, k, dim) if case['given'] else None
    arg = x0 if x0 is None else x0.copy() if not case['flat'] else x0.copy().reshape(retries * k, dim)
    arg0, X0, y0 = None if arg is None else arg.copy(), X.copy(), y.copy()

    def fit():
        return learner.fit(X, y, k if parts is None else parts, retries=retries, x0=arg)
    if min(case['funs']) == float('inf'):
        ctx.raises(RuntimeError, fit, 'no restart yields a finite loss')
        return
    res = fit()
    if arg is not None:
        ctx.arr_eq(arg, arg0, 'starting points after training')
    ctx.arr_eq(X, X0, 'data after training')
    ctx.arr_eq(y, y0, 'labels after training')
    best = [W for W, f in zip(results, case['funs']) if f == min(case['funs'])]
    ctx.close(res.fun, min(case['funs']), 'loss of the result')
    ctx.require(any(np.array_equal(learner.weight_matrix, W) for W in best), 'weights {} are not those of the best restart, {}', learner.weight_matrix, best)
    W = np.asarray(learner.weight_matrix)
    ctx.arr_eq(learner.weights, W[:, :c['d']], 'weights')
    ctx.arr_eq(learner.bias, W[:, -1] if c['bias'] else np.zeros(k), 'bias')
    ctx.eq(learner.num_subspaces, k, 'number of subspaces')
    ctx.eq(len(opt.starts), retries, 'number of restarts')
    for t, s in enumerate(opt.starts):
        if case['given']:
            ctx.arr_eq(s.ravel(), x0[t].ravel() if parts is None else x0[t][mask], 'starting point {}'.format(t))
        else:
            ctx.eq(s.size, int(mask.sum()), 'size of starting point')
    if not case['given'] and retries > 1:
        ctx.require(not np.array_equal(opt.starts[0], opt.starts[1]), 'two restarts from the same point')
    # handed out arrays are copies
    learner.weights[:] = 7
    learner.bias[:] = 7
    ctx.arr_eq(learner.weight_matrix, W, 'weights after changing the arrays handed out')
    ctx.nontrivial(retries > 1 and len(set(case['funs'])) > 1)
    other = learner.copy()
    ctx.arr_eq(other.weight_matrix, W, 'weights of a copy')
    other.clear()
    ctx.require(other.weights is None and other.num_subspaces == 0, 'weights of a cleared copy')
    ctx.arr_eq(learner.weight_matrix, W, 'weights after clearing the copy')


@check.sub(st.fixed_dictionaries({'c': shapes(), 'opt': st.sampled_from(['BFGS', 'GD', 'Adam', 'FISTA', 'Prox']), 'pen': st.sampled_from(['L1', 'L2', 'L2Sqrt', 'SGL']), 'lam': st.sampled_from([0.01, 0.05, 0.3])}), quick=60, thorough=4000, shards=3)
def optimum(case, ctx):
    """ A single subspace is a logistic regression: a convex problem, whose optimum every optimizer must find. """
    c = case['c']
    r = gen.rs(c['seed'])
    n, d, lam, bias = 4 + c['n'], c['d'], case['lam'], c['bias']
    X = r.randn(n, d)
    y = (X @ r.randn(d) + 0.5 * r.randn(n) > 0).astype(float)
    y[:2] = [0, 1]
    proximal = case['opt'] in ('FISTA', 'Prox')
    pen = case['pen'] if proximal else 'L2'
    penalty = SparseGroupLassoPenalty(lam, lam) if pen == 'SGL' else {'L1': L1Penalty, 'L2': L2Penalty, 'L2Sqrt': L2SqrtPenalty}[pen](lam)
    step = 1. / (0.25 * np.linalg.norm(np.c_[X, np.ones(n)], 2) ** 2 / n + 2 * lam)
    opt = {'BFGS': lambda: BFGS(gtol=1e-7, max_iter=1000), 'GD': lambda: GradientDescent(momentum=0.5, step_size=step, gtol=1e-7, max_iter=4000), 'Adam': lambda: Adam(step_size=0.02, gtol=1e-6, max_iter=4000),
           'FISTA': lambda: FISTA(step_size=step, gtol=0, max_iter=3000), 'Prox': lambda: ProximalGradientDescent(step_size=step, gtol=1e-9, max_iter=4000)}[case['opt']]()
    learner = LinearFactorizationLearner(opt, penalty_term=penalty, add_bias=bias)
    res = learner.fit(X, y, 1, x0=0.5 * r.randn(1, d + bias))
    w, b = np.asarray(learner.weights)[0], float(np.asarray(learner.bias)[0])

    def objective(w, b):
        v = np.logaddexp(0, -np.where(y > 0, 1, -1) * (X @ w + b)).mean()
        l1, l2 = np.abs(w).sum(), np.sqrt((w ** 2).sum())
        return v + lam * {'L1': l1, 'L2': l2 ** 2, 'L2Sqrt': l2, 'SGL': l1 + l2}[pen]
    f = objective(w, b)
    ctx.close(res.fun, f, 'loss of the result', rtol=1e-8, atol=1e-10)
    if pen == 'L2':
        ref = LogisticRegression(C=1 / (2 * n * lam), fit_intercept=bias, tol=1e-10, max_iter=5000).fit(X, y)
        best = objective(ref.coef_[0], float(ref.intercept_[0]) if bias else 0.)
        ctx.require(f <= best + 2e-5, 'loss {} at the weights {}, {}; Scikit-learn finds {} at {}', f, w, b, best, ref.coef_)
    for s in (0.3, 0.03):
        for _ in range(6):
            dw, db = s * r.randn(d), s * r.randn() if bias else 0.
            ctx.require(objective(w + dw, b + db) >= f - 2e-5, 'the loss {} at {} is not minimal', f, w)
        for q in range(d):
            for z in (0., w[q] + s, w[q] - s):
                v = w.copy()
                v[q] = z
                ctx.require(objective(v, b) >= f - 2e-5, 'the loss {} at {} is not minimal: see {}', f, w, v)
        if bias:
            ctx.require(min(objective(w, b + s), objective(w, b - s)) >= f - 2e-5, 'the loss {} is not minimal in the bias {}', f, b)
    ctx.require(objective(np.zeros(d), 0.) >= f - 2e-5, 'the loss {} is larger than without weights', f)
    ctx.nontrivial((w != 0).any())
    ctx.label(case['opt'], pen)
    ctx.close(learner.predict_proba(X), expit(X @ w + b), 'probability', rtol=1e-9)
    fresh = learner.copy().fit(X, y, 1, x0=np.asarray(learner.weight_matrix))
    ctx.require(fresh.fun <= f + 2e-5, 'refitting a copy from the optimum ends at {} instead of {}', fresh.fun, f)


@check.sub(st.fixed_dictionaries({'c': shapes(), 'threshold': st.sampled_from([0.5, 0.9, 0.99]), 'zero': st.lists(st.integers(0, 3), max_size=2), 'up': st.lists(st.integers(0, 3), max_size=2), 'tol': st.sampled_from([1e-8, 0.1])}), quick=500, thorough=30000, shards=2)
def pruning(case, ctx):
    c = case['c']
    r = gen.rs(c['seed'])
    k, d, bias = c['k'], c['d'], c['bias']
    W = r.randn(k, d + bias) * r.choice([0.05, 1., 3.], size=(k, 1))
    W[[j for j in case['zero'] if j < k], :d] = 0
    if bias:
        W[[j for j in case['up'] if j < k], -1] += 8
    X = r.randn(c['n'], d)
    if c['seed'] % 13 == 0:  # many points, which only differ at the end
        X = np.vstack([np.repeat(X[:1], 2500, axis=0), X])
    learner = trained(W, bias, SparseGroupLassoPenalty(0.1, 0.2) if c['seed'] % 2 else None)
    p = expit(X @ W[:, :d].T + (W[:, -1] if bias else 0))
    low, norms = p.min(axis=0), np.linalg.norm(W[:, :d], axis=1)
    if (np.abs(low - case['threshold']) < 1e-9).any() or (np.abs(norms - case['tol']) < 1e-12).any():
        return
    keep = [j for j in range(k) if low[j] < case['threshold'] and norms[j] > case['tol']]
    pruned = prune_irrelevant_subspaces(X, learner, threshold=case['threshold'], tol=case['tol'])
    ctx.arr_eq(learner.weight_matrix, W, 'weights of the original after pruning')
    ctx.eq(pruned.num_subspaces, len(keep), 'number of subspaces left')
    ctx.arr_eq(pruned.weight_matrix, W[keep], 'weights of the relevant subspaces')
    ctx.close(pruned.predict_proba(X), p[:, keep].prod(axis=1), 'probabilities after pruning', rtol=1e-9)
    ctx.close(pruned.partial_proba(X), p[:, keep], 'partial probabilities after pruning', rtol=1e-9)
    ctx.nontrivial(0 < len(keep) < k)
    pruned.clear()
    ctx.arr_eq(learner.weight_matrix, W, 'weights of the original after clearing the pruned one')
    ctx.raises(ValueError, lambda: prune_irrelevant_subspaces(X, learner, threshold=1.5), 'threshold 1.5')
    ctx.raises(ValueError, lambda: prune_irrelevant_subspaces(X, learner, tol=0), 'tol 0')


@st.composite
def grouped(draw):
    c = draw(shapes(d_min=2))
    perm = draw(st.permutations(list(range(c['d']))))
    cuts = sorted(set(draw(st.lists(st.integers(1, c['d']), max_size=3)) + [c['d']]))
    c['groups'] = draw(st.sampled_from([None, [list(perm[a:b]) for a, b in zip([0] + cuts, cuts)]]))
    c['sparse'] = draw(st.sampled_from([0., 0.4]))
    return c


@check.sub(grouped(), quick=600, thorough=30000, shards=2)
def relevant_attributes(case, ctx):
    """ Relevant: more than average importance in the subspace; groups are taken together. """
    r = gen.rs(case['seed'])
    k, d, bias, groups = case['k'], case['d'], case['bias'], case['groups']
    W = r.randn(k, d + bias) * 10. ** r.randint(-3, 3, size=(k, 1))
    W[:, :d][r.rand(k, d) < case['sparse']] = 0
    if (np.abs(W[:, :d]).sum(axis=1) == 0).any():
        return
    learner = trained(W, bias, SparseGroupLassoPenalty(0.1, 0.2, groups if case['seed'] % 3 else None))
    if case['seed'] % 3 == 0:
        learner.feature_groups = groups
    ctx.eq(learner.feature_groups, groups, 'feature groups')
    got = np.asarray(compute_relevant_attributes(learner))
    ctx.eq(got.shape, (k, d), 'shape of the relevant attributes')
    ctx.arr_eq(learner.weight_matrix, W, 'weights afterwards')
    blocks = [[q] for q in range(d)] if groups is None else groups
    for j in range(k):
        total = sum(abs(W[j, q]) for q in range(d))
        for g in blocks:
            share = sum(abs(W[j, q]) for q in g) / total
            if abs(share - 1 / len(blocks)) > 1e-9:
                for q in g:
                    ctx.eq(bool(got[j, q]), share > 1 / len(blocks), 'attribute {} of subspace {} is relevant (share {:.3f} of {} groups)'.format(q, j, share, len(blocks)))
    ctx.nontrivial(got.any() and not got.all() and k > 1)
    # the factorization: maximal sets of attributes
    sets = [frozenset(np.flatnonzero(row).tolist()) for row in got]
    maximal = {s for s in sets if not any(s < t for t in sets)}
    ctx.eq(compute_factorization(got), sorted(sorted(s) for s in maximal), 'factorization')
    noise = r.rand(k + 2, d) < 0.4
    sets = [frozenset(np.flatnonzero(row).tolist()) for row in noise]
    ctx.eq(compute_factorization(noise), sorted(sorted(s) for s in {s for s in sets if not any(s < t for t in sets)}), 'factorization')


@check.sub(st.fixed_dictionaries({'seed': gen.seeds(), 'sizes': st.sampled_from([[1, 1], [2, 1], [2, 2], [1], [2], [1, 1, 1]]), 'extra': st.integers(0, 1), 'dup': st.booleans(), 'inferred': st.booleans()}), quick=4, thorough=150, shards=4)
def sparse_factorization(case, ctx):
    """ From a dense model near the truth, refinement recovers the subspaces and their labels. """
    r = gen.rs(case['seed'])
    sizes = case['sizes']
    d = max(2, sum(sizes) + case['extra'])
    perm = r.permutation(d)
    parts = [sorted(int(v) for v in perm[a:b]) for a, b in zip(np.cumsum([0] + sizes), np.cumsum(sizes))]
    if len(parts) == 1 and len(parts[0]) == d:
        return  # all attributes relevant: nothing above average
    W = np.zeros((len(parts), d + 1))
    for j, p in enumerate(parts):
        W[j, p] = r.choice([-1, 1], size=len(p)) * 4.
        W[j, -1] = 1.5
    X = r.uniform(-1, 1, size=(600, d))
    M = X @ W[:, :d].T + W[:, -1]
    X, M = X[(np.abs(M) > 0.6).all(axis=1)], M[(np.abs(M) > 0.6).all(axis=1)]
    Y = (M > 0).astype(float)
    y = Y.min(axis=1)
    start = W + 0.2 * r.randn(*W.shape)
    if case['dup']:
        start = np.vstack([start, start[:1] + 0.05 * r.randn(1, d + 1)])
    data = PartitionedDataset(X.copy())
    n = len(X) - 30
    data.move_to_labeled(LabeledSet(y[:n], index=np.arange(n)))
    if case['inferred']:
        data.move_to_inferred(np.arange(n, n + 10))
    model = trained(start, True)
    before = np.array(model.weight_matrix)
    fact, partial = compute_factorization_and_partial_labels(data, model, l1_penalty=2e-4, l2_sqrt_penalty=2e-4)
    ctx.arr_eq(model.weight_matrix, before, 'weights of the dense model afterwards')
    ctx.eq([[int(v) for v in p] for p in fact], sorted(parts), 'factorization')
    rows = [int(i) for i in data.labeled.index]
    order = [parts.index(sorted(int(v) for v in p)) for p in fact]
    ctx.eq(np.shape(partial), (n, len(parts)), 'shape of the partial labels')
    wrong = (np.asarray(partial) != Y[rows][:, order]) & (y[rows] > 0).reshape(-1, 1)
    ctx.eq(int(wrong.sum()), 0, 'positive points with a negative partial label')
    off = (np.asarray(partial) != Y[rows][:, order]).mean()
    ctx.require(off < 0.05, '{} of the partial labels differ from the truth', off)
    ctx.nontrivial(len(parts) > 1)


@check.sub(st.fixed_dictionaries({'seed': gen.seeds(), 'd': st.integers(3, 4), 'rows': st.lists(st.lists(st.integers(0, 3), min_size=1, max_size=2, unique=True), min_size=2, max_size=5), 'step': st.sampled_from([5, 1.]),
                                  'max_iter': st.sampled_from([5, 40, 120]), 'l1': st.sampled_from([1e-4, 1e-2]), 'l2': st.sampled_from([1e-4, 1e-2]), 'strong': st.integers(0, 12), 'share': st.sampled_from([True, True, False, 'three']), 'far': st.booleans(), 'n': st.integers(20, 60)}), quick=60, thorough=5000, shards=3)
def steps_of_the_refinement(case, ctx):
    """ Sparse refinement, pruning, refit without irrelevant attributes; a subspace within several sets of attributes is shared evenly among their labels. """
    r = gen.rs(case['seed'])
    d, rows = case['d'], [[i % case['d'] for i in row] for row in case['rows']]
    if case['share']:
        a, b, c = (int(v) for v in r.permutation(d)[:3])
        rows = [[a, b], [b, c], [b]] + rows[3:4]
        if case['share'] == 'three' and d > 3:
            rows = [[a, b], [b, c], [b, 6 - a - b - c], [b]]
        rows = [rows[i] for i in r.permutation(len(rows))]
    k = len(rows)
    W = 0.1 * r.randn(k, d + 1)
    for j, row in enumerate(rows):
        W[j, row] = r.choice([-1, 1], size=len(row)) * r.uniform(2, 5)
        W[j, -1] = r.uniform(0.5, 2.5)
    if case['strong'] < k:
        W[case['strong'], -1] = 40.  # positive everywhere: to be pruned
    X = r.uniform(-1, 1, size=(case['n'] + 10, d))
    if case['far']:
        X[case['n']:] *= 8  # unlabeled points, far away
    p = expit(X @ W[:, :d].T + W[:, -1]).prod(axis=1)
    y = (p > np.median(p)).astype(float)
    data = PartitionedDataset(X.copy())
    data.move_to_labeled(LabeledSet(y[:case['n']], index=np.arange(case['n'])))
    model = trained(W, True)
    XT, yT = data.training_set()
    XT, yT = np.array(XT), np.array(yT)
    kwargs = dict(batch_size=None, adapt_step_size=False, max_iter=case['max_iter'])
    sparse = LinearFactorizationLearner(FISTA(step_size=case['step'], **kwargs), SparseGroupLassoPenalty(l1_penalty=case['l1'], l2_sqrt_penalty=case['l2']))
    sparse.fit(XT, yT, k, x0=W.copy())
    pruned = prune_irrelevant_subspaces(X.copy(), sparse)
    if pruned.num_subspaces == 0:
        return
    relevant = np.asarray(compute_relevant_attributes(pruned))
    if not relevant.any(axis=1).all():
        return
    subspaces = [np.flatnonzero(row).tolist() for row in relevant]
    final = LinearFactorizationLearner(Adam(step_size=0.1, **kwargs))
    final.fit(XT, yT, subspaces, x0=np.asarray(pruned.weight_matrix))
    pj = np.asarray(final.partial_proba(XT))
    expected = sorted(sorted(s) for s in {frozenset(s) for s in subspaces} if not any(set(s) < set(t) for t in subspaces))
    fact, partial = compute_factorization_and_partial_labels(data, model, fista_step_size=case['step'], max_iter=case['max_iter'], l1_penalty=case['l1'], l2_sqrt_penalty=case['l2'])
    ctx.eq([[int(v) for v in f] for f in fact], expected, 'factorization of {}'.format(subspaces))
    logs = np.zeros((len(XT), len(expected)))
    for j, s in enumerate(subspaces):
        homes = [i for i, f in enumerate(expected) if set(s) <= set(f)]
        for i in homes:
            logs[:, i] += np.log(np.maximum(pj[:, j], 1e-300)) / len(homes)
        if len(homes) > 1:
            ctx.label('shared')
    clear = np.abs(logs - np.log(0.5)) > 1e-6
    partial = np.asarray(partial, dtype=float)
    ctx.eq(partial.shape, logs.shape, 'shape of the partial labels')
    ctx.arr_eq(partial[clear], (logs > np.log(0.5)).astype(float)[clear], 'partial labels for the sets {} of the subspaces {}'.format(expected, subspaces))
    ctx.nontrivial(len(expected) > 1 and len(set(partial.ravel().tolist())) > 1)
    if pruned.num_subspaces < k:
        ctx.label('pruned')


def raising(what, call, *types):
    try:
        call()
    except types as e:
        raise core.Violation('{}: {}'.format(what, repr(e)[:200]))


@check.known_finding('proximal-factorization')
def proximal_factorization(ctx):
    """ Proximal optimizers cannot train with a fixed factorization. """
    X, y = gen.rs(0).randn(20, 2), np.array([0., 1.] * 10)
    learner = LinearFactorizationLearner(FISTA(max_iter=5), L1Penalty(0.1))
    raising('FISTA with a list of subspaces', lambda: learner.fit(X, y, [[0], [1]]), IndexError)


@check.known_finding('no-relevant-subspace')
def no_relevant_subspace(ctx):
    """ A model whose subspaces were all pruned cannot be trained any further. """
    pruned = prune_irrelevant_subspaces(np.zeros((3, 2)), trained(np.array([[1., 1., 9.]]), True))
    pruned.optimizer = Adam(max_iter=3)
    raising('training after all subspaces were pruned', lambda: pruned.fit(np.ones((3, 2)), np.array([0., 1., 0.]), pruned.num_subspaces, x0=np.asarray(pruned.weight_matrix)), ValueError)


@check.known_finding('uniform-importance')
def uniform_importance(ctx):
    """ Attributes of equal importance are all irrelevant, in particular a single one. """
    got = np.asarray(compute_relevant_attributes(trained(np.array([[2., 0.5]]), True)))
    if not got.any():
        raise core.Violation('the only attribute of a subspace with weight 2 is irrelevant')
