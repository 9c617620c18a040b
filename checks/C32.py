import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import OptimizeResult
from scipy.special import expit

import core
import gen
from aideme import FLMUncertaintySampler, KernelVersionSpace, SimplifiedSwapLearner, SubspatialVersionSpace, SwapLearner
from aideme.active_learning.factorization.active_learning import FactorizationManager
from aideme.active_learning.factorization.learn import compute_factorization_and_partial_labels
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import GradientDescent
from aideme.explore import LabeledSet, PartitionedDataset
from aideme.utils import metric_logger

check = core.Check('C32', rule='random pools, label histories and configurations, the wrapped learners and the optimizers being doubles which record their use; non-trivial: the learner goes through at least two phases',
                   assumptions=['a factorization model comes with the factorization of the user', 'some subspace stays relevant (known finding of C29 otherwise)'])


def nll(X, y, W):
    """ Mean negative log-likelihood of the product of logistic functions; last column: bias. """
    M = X @ W[:, :-1].T + W[:, -1]
    lp = -np.logaddexp(0, -M).sum(axis=1)
    with np.errstate(divide='ignore'):
        return float(-np.where(y > 0, lp, np.log(-np.expm1(np.minimum(lp, -1e-300)))).mean())


class Recorder(GradientDescent):
    """ Optimizer whose results are scripted (a function of the call number and the starting point). """
    def __init__(self, script, count=False):
        super().__init__(step_size=1., gtol=0, rel_tol=0, max_iter=7)
        self.script, self.calls, self.count, self.funs = script, [], count, None

    def iterations(self):
        """ How many iterations are allowed at present. """
        return int(super().minimize(np.zeros(1), lambda x: 0., lambda x: np.ones(1)).it) if self.count else None

    def minimize(self, x0, func, grad):
        x0 = np.array(x0)
        probe = np.linspace(-0.7, 0.9, x0.size).reshape(x0.shape)
        self.calls.append({'x0': x0, 'probe': probe, 'f': float(func(probe.copy())), 'max_iter': self.iterations()})
        x = self.script(len(self.calls) - 1, x0)
        return OptimizeResult(x=x, fun=0. if self.funs is None else self.funs[(len(self.calls) - 1) % len(self.funs)], success=True)


class Double:
    """ Stands for an active learner: a threshold on one attribute. """
    def __init__(self, column):
        self.column, self.fits, self.cleared = column, [], 0

    def clear(self):
        self.cleared += 1

    def fit_data(self, data):
        self.fits.append([int(i) for i in data.labeled.index])

    def predict(self, X):
        return (X[:, self.column] > 0.1).astype(float)

    def predict_proba(self, X):
        return expit(X[:, self.column])

    def rank(self, X):
        return np.abs(X[:, self.column] - 0.3)


class FactDouble(Double):
    def __init__(self, column):
        super().__init__(column)
        self.partial, self.structure = [], []

    def set_factorization_structure(self, **kwargs):
        self.structure.append(kwargs)

    def fit_data(self, data):
        super().fit_data(data)
        self.partial.append(np.array(data.training_set(get_partial=True)[1]))


@st.composite
def swaps(draw):
    return {'swap_iter': draw(st.sampled_from([1, 2, 3, 1, 2, 3, 11])), 'k': draw(st.sampled_from([1, 2, 3, 4, 7, 12])), 'retries': draw(st.sampled_from([1, 1, 2, 3, 5])), 'on_prediction': draw(st.booleans()), 'prune': draw(st.booleans()), 'threshold': draw(st.sampled_from([0.99, 0.8])),
            'separate': draw(st.booleans()), 'n': draw(st.integers(12, 25)), 'd': draw(st.integers(1, 3)), 'iters': draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 4, 5, 6, 7, 26])), 'seed': draw(gen.seeds()), 'adapter': draw(st.booleans()), 'again': draw(st.booleans()),
            'sample': draw(st.sampled_from([None, None, 5, -1, -1, 1000]))}


@check.sub(swaps(), quick=400, thorough=20000, shards=3)
def swap_phases(case, ctx):
    r = gen.rs(case['seed'])
    n, d, k, s = max(case['n'], 2 * case['iters'] + 4), case['d'], case['k'], case['swap_iter']
    sample = n - 1 if case['sample'] == -1 else case['sample']
    X = r.randn(n, d)
    moves = r.randn(50, 12, d + 1)

    def script(call, x0):
        return (x0 + moves[call % 50, :len(x0)]) if x0.ndim == 2 else x0
    # pruning needs some relevant subspace: the first one stays centered
    def swap_script(call, x0):
        W = script(call, x0)
        W[0] = np.r_[np.ones(d), -X.mean(axis=0).sum()]
        return W

    swap_opt = Recorder(swap_script, case['adapter'])
    refine_opt = Recorder(swap_script, case['adapter']) if case['separate'] else swap_opt
    swap_opt.funs = r.permutation(60) / 7.  # the losses it reports
    al = Double(0)
    swap_model = LinearFactorizationLearner(swap_opt)
    learner = SwapLearner(al, swap_model, LinearFactorizationLearner(refine_opt) if case['separate'] else None, num_subspaces=k, retries=case['retries'], swap_iter=s, train_on_prediction=case['on_prediction'],
                          train_sample_size=sample, prune=case['prune'], prune_threshold=case['threshold'], max_iter_adapter=(lambda it: 100 + it) if case['adapter'] else None)
    for round_ in range(2 if case['again'] else 1):
        data = PartitionedDataset(X.copy())
        y = (X[:, 0] > 0).astype(float)
        order = [int(i) for i in r.permutation(n)]
        labeled, W = [], None
        del swap_opt.calls[:], refine_opt.calls[:], al.fits[:]
        for t in range(1, case['iters'] + 1):
            new, order = order[:2], order[2:]
            labeled += new
            data.move_to_labeled(LabeledSet(y[new], index=new))
            if t == 2:
                data.move_to_inferred(order[:1])
            calls = len(swap_opt.calls), len(refine_opt.calls)
            learner.fit_data(data)
            ctx.eq((learner.is_active_learning_phase, learner.is_factorization_phase, learner.is_swap_iter), (t <= s, t > s, t == s + 1), 'phase at iteration {} with swap_iter={}'.format(t, s))
            Q = r.randn(6, d)
            train_X, train_y = X[[int(i) for i in data.labeled.index]], y[[int(i) for i in data.labeled.index]]
            if t <= s:
                ctx.eq(len(al.fits), t, 'number of trainings of the active learner')
                ctx.eq(sorted(al.fits[-1]), sorted(labeled), 'points which the active learner was trained on')
                ctx.eq((len(swap_opt.calls), len(refine_opt.calls)), calls, 'trainings of the linear models before the swap')
                ctx.eq(learner.linear_model, None, 'linear model before the swap')
                ctx.arr_eq(learner.predict(Q), al.predict(Q), 'labels before the swap')
                ctx.arr_eq(learner.predict_proba(Q), al.predict_proba(Q), 'probabilities before the swap')
                ctx.arr_eq(learner.rank(Q), al.rank(Q), 'ranks before the swap')
                continue
            ctx.eq(len(al.fits), s, 'trainings of the active learner after the swap')
            if t == s + 1:
                ctx.eq(len(swap_opt.calls) - calls[0], case['retries'], 'trainings of the swap model')
                for c in swap_opt.calls[calls[0]:]:
                    ctx.eq(c['x0'].shape, (k, d + 1), 'shape of the starting point of the swap model')
                    if case['on_prediction'] and case['sample'] == -1:
                        total, one = n * nll(X, al.predict(X), c['probe']), [nll(X[[i]], al.predict(X[[i]]), c['probe']) for i in range(n)]
                        ctx.require(min(abs((total - v) / (n - 1) - c['f']) for v in one) < 1e-9 * (1 + total), 'the swap model was not trained on the predictions for all points but one')
                    elif case['on_prediction'] and case['sample'] != 5:
                        ctx.close(c['f'], nll(X, al.predict(X), c['probe']), 'loss of the swap model, trained on the predictions for all points', rtol=1e-9)
                    elif not case['on_prediction']:
                        ctx.close(c['f'], nll(train_X, train_y, c['probe']), 'loss of the swap model, trained on the labeled points', rtol=1e-9)
                best = calls[0] + int(np.argmin(swap_opt.funs[calls[0]:calls[0] + case['retries']]))
                W = swap_script(best, swap_opt.calls[best]['x0'])
            else:
                ctx.eq(len(refine_opt.calls) - calls[1], 1, 'trainings of the refining model')
                c = refine_opt.calls[-1]
                ctx.close(c['x0'], W, 'starting point of the refinement: the current weights', rtol=0, atol=1e-12)
                ctx.close(c['f'], nll(train_X, train_y, c['probe']), 'loss of the refining model, trained on the labeled points', rtol=1e-9)
                if case['adapter']:
                    ctx.eq(c['max_iter'], 100 + t - s - 1, 'max_iter of the refinement')
                W = swap_script(len(refine_opt.calls) - 1, c['x0'])
                if case['prune']:
                    low = expit(X @ W[:, :-1].T + W[:, -1]).min(axis=0)
                    if (np.abs(low - case['threshold']) < 1e-9).any():
                        return
                    W = W[(low < case['threshold']) & (np.linalg.norm(W[:, :-1], axis=1) > 1e-8)]
            model = learner.linear_model
            ctx.close(model.weight_matrix, W, 'weights of the linear model', rtol=0, atol=1e-12)
            p = expit(Q @ W[:, :-1].T + W[:, -1]).prod(axis=1)
            ctx.close(learner.predict_proba(Q), p, 'probabilities after the swap', rtol=1e-9)
            ctx.close(learner.rank(Q), np.abs(p - 0.5), 'ranks after the swap', rtol=0, atol=1e-9)
            sure = np.abs(p - 0.5) > 1e-9
            ctx.arr_eq(np.asarray(learner.predict(Q))[sure], (p > 0.5).astype(float)[sure], 'labels after the swap')
        ctx.nontrivial(case['iters'] > s)
        cleared = al.cleared
        learner.clear()
        ctx.eq(al.cleared, cleared + 1, 'calls of clear() of the active learner')
        ctx.eq(learner.is_active_learning_phase, True, 'phase after clear()')
        ctx.require(swap_model.weights is None, 'weights of the swap model after clear()')


@st.composite
def factorizations(draw):
    d = draw(st.integers(2, 5))

    def one():
        perm = draw(st.permutations(list(range(d))))
        cuts = sorted(set(draw(st.lists(st.integers(1, d), min_size=1, max_size=2))))
        return sorted(sorted(perm[a:b]) for a, b in zip([0] + cuts, cuts))
    user = [list(draw(st.permutations(p))) for p in one()]
    user = list(draw(st.permutations(user)))
    if draw(st.integers(0, 4)) == 0:
        user.append(sorted(set(user[0] + [d - 1])))
    pool = [one() for _ in range(draw(st.integers(1, 2)))]
    shrunk = sorted(sorted(p[:max(1, len(p) - draw(st.integers(0, 1)))]) for p in user)
    pool += [shrunk, shrunk]
    split = [[a] for a in max(user, key=len)]
    if len(split) > 1 and len(user) > 1 and draw(st.booleans()):  # as many as the user has, but two of them within the same subspace
        pool = [(split + sorted(sorted(p) for p in user if p is not max(user, key=len)))[:len(user)], shrunk]
    return {'user': user, 'history': [draw(st.sampled_from(pool)) for _ in range(draw(st.integers(1, 9)))], 'stable': draw(st.integers(1, 3)), 'clear_at': draw(st.integers(0, 12))}


@check.sub(factorizations(), quick=800, thorough=40000, shards=2)
def manager(case, ctx):
    """ A factorization is adopted once it came up 'stable_count' more times in a row, if its subspaces are one to one inside of those of the user. """
    manager = FactorizationManager(user_fact=[list(p) for p in case['user']], stable_count=case['stable'])
    count, previous = 0, None
    switched = False
    for t, fact in enumerate(case['history']):
        if t == case['clear_at']:
            manager.clear()
            count, previous = 0, None
        manager.update([list(p) for p in fact])
        count = count + 1 if fact == previous else 0
        previous = fact
        parents = [[j for j, u in enumerate(case['user']) if set(p) <= set(u)] for p in fact]
        one_to_one = len(fact) == len(case['user']) and all(len(q) == 1 for q in parents) and len({q[0] for q in parents}) == len(fact)
        expected = count >= case['stable'] and one_to_one
        ctx.eq(bool(manager.can_switch_to_full_factorization([list(p) for p in fact])), expected, 'switch at step {} of {}'.format(t, case['history']))
        if expected:
            idx = [int(i) for i in manager.fact_reindexing]
            ctx.eq(sorted(idx), list(range(len(fact))), 'order of the subspaces')
            for i, u in zip(idx, case['user']):
                ctx.require(set(fact[i]) <= set(u), 'subspace {} stands for the subspace {} of the user', fact[i], u)
            switched = True
    ctx.nontrivial(switched and len(case['user']) > 1)
    ctx.label('switched' if switched else 'not switched')


@st.composite
def full(draw):
    sizes = draw(st.sampled_from([[1, 1], [2, 1], [1, 2], [1, 1, 1]]))
    return {'sizes': sizes, 'seed': draw(gen.seeds()), 'every': draw(st.integers(1, 3)), 'repeat': draw(st.integers(1, 2)), 'swap_iter': draw(st.integers(1, 2)), 'flips': draw(st.lists(st.integers(0, 6), max_size=1)),
            'user_order': draw(st.booleans()), 'again': draw(st.booleans()), 'setter': draw(st.sampled_from(['no', 'first', 'late']))}


@check.sub(full(), quick=25, thorough=1500, shards=4)
def full_factorization(case, ctx):
    """ After the learned factorization got stable, its subspaces and partial labels are given to the factorized learner, in the order of the user. """
    r = gen.rs(case['seed'])
    sizes = case['sizes']
    m, d = len(sizes), sum(sizes) + 1
    perm = r.permutation(d)
    parts = [sorted(int(v) for v in perm[a:b]) for a, b in zip(np.cumsum([0] + sizes), np.cumsum(sizes))]
    if case['user_order']:
        parts = parts[::-1]
    # weights so large that the data leaves them as they are
    W = np.zeros((m, d + 1))
    for j, p in enumerate(parts):
        W[j, p] = 60 * r.choice([-1, 1], size=len(p))
    X = r.uniform(-1, 1, size=(800, d))
    M = X @ W[:, :-1].T
    X = X[(np.abs(M) > 20).all(axis=1)][:150]
    n = len(X)
    Y = (X @ W[:, :-1].T > 0).astype(float)
    y = Y.min(axis=1)
    user = [list(p) for p in parts]
    opt = Recorder(lambda call, x0: None)
    al, fact = Double(0), FactDouble(1)
    # rows are never pruned: always negative somewhere
    learner = SwapLearner(al, LinearFactorizationLearner(opt), num_subspaces=m, swap_iter=case['swap_iter'], fact_model=fact, user_fact={'no': user, 'first': None, 'late': [list(range(d))]}[case['setter']], compute_fact_every=case['every'], fact_repeat=case['repeat'],
                          fact_max_iter=10, fact_step_size=0.1, fact_l1_penalty=1e-6, fact_l2_sqrt_penalty=1e-6, prune=False)
    if case['setter'] == 'first':
        learner.set_user_factorization(user)
    for round_ in range(2 if case['again'] else 1):
        del fact.fits[:], fact.partial[:], fact.structure[:], opt.calls[:]
        flips = set(case['flips'])
        opt.script = lambda call, x0: W.copy() if call not in flips else np.repeat(W[:1], m, axis=0)  # the other structure: one subspace only
        data = PartitionedDataset(X.copy())
        order = [int(i) for i in r.permutation(n)]
        stable, switched, history = 0, False, []
        for t in range(1, case['swap_iter'] + case['every'] * (case['repeat'] + 2) + 3):
            new, order = order[:4], order[4:]
            # partial labels are only meaningful after the switch, which must replace the earlier ones
            data.move_to_labeled(LabeledSet(y[new], Y[new] if switched else 1 - Y[new], index=new))
            fits = len(fact.fits)
            metric_logger.flush()
            learner.fit_data(data)
            metrics = dict(metric_logger.get_metrics())
            if case['setter'] == 'late' and t == case['swap_iter'] + 1:
                learner.set_user_factorization(user)
            update = t > case['swap_iter'] and (t - case['swap_iter'] - 1) % case['every'] == 0 and not switched
            if update:
                # one call of the optimizer per iteration since the swap
                history.append('flip' if (t - case['swap_iter'] - 1) in flips else 'truth')
                stable = stable + 1 if len(history) > 1 and history[-1] == history[-2] else 0
                learned = sorted(parts) if history[-1] == 'truth' else [parts[0]]
                ctx.eq(sorted(sorted(int(v) for v in p) for p in metrics['factorization']), sorted(learned), 'learned factorization at iteration {}'.format(t))
            else:
                ctx.require('factorization' not in metrics, 'factorization computed at iteration {}', t)
            if switched:
                ctx.eq(len(fact.fits), fits + 1, 'trainings of the factorized learner after the switch')
            elif update and stable >= case['repeat'] and history[-1] == 'truth':
                switched = True
                ctx.eq(len(fact.structure), 1, 'number of factorizations given to the factorized learner')
                ctx.eq([[int(v) for v in p] for p in fact.structure[0]['partition']], parts, 'factorization given to the factorized learner, in the order of the user')
                # what the learner is given suits the factorized version spaces, and makes all subspaces numerical
                real = SubspatialVersionSpace(mode='categorical')
                real.set_factorization_structure(**fact.structure[0])
                ctx.require(len(real.learners) == m and all(isinstance(a, KernelVersionSpace) for a in real.learners), 'learners of a SubspatialVersionSpace with the adopted factorization: {}', real.learners)
                ctx.eq(len(fact.fits), 1, 'trainings of the factorized learner at the switch')
                rows = [int(i) for i in data.labeled.index]
                ctx.arr_eq(fact.partial[0], Y[rows], 'partial labels given to the factorized learner')
            else:
                ctx.eq(len(fact.fits), 0, 'trainings of the factorized learner before the switch (iteration {})'.format(t))
            Q = r.uniform(-1, 1, size=(5, d))
            if switched:
                ctx.eq(sorted(fact.fits[-1]), sorted(int(i) for i in data.labeled.index), 'points which the factorized learner was trained on')
                ctx.arr_eq(learner.predict(Q), fact.predict(Q), 'labels after the switch')
                ctx.arr_eq(learner.predict_proba(Q), fact.predict_proba(Q), 'probabilities after the switch')
                ctx.arr_eq(learner.rank(Q), fact.rank(Q), 'ranks after the switch')
        ctx.nontrivial(switched)
        ctx.label('switched' if switched else 'not switched')
        learner.clear()
        ctx.eq(fact.cleared, round_ + 1, 'calls of clear() of the factorized learner')


@st.composite
def penalties(draw):
    values = st.sampled_from([1e-4, 1e-3, 0.01, 0.03, 0.1, 0.2])
    return {'d': draw(st.integers(2, 4)), 'k': draw(st.integers(1, 4)), 'n': draw(st.integers(10, 40)), 'seed': draw(gen.seeds()), 'step_size': draw(st.sampled_from([0.1, 1., 5.])), 'max_iter': draw(st.sampled_from([1, 2, 5, 20])),
            'l1_penalty': draw(values), 'l2_sqrt_penalty': draw(values)}


@check.sub(penalties(), quick=150, thorough=6000, shards=3)
def factorization_options(case, ctx):
    """ The factorization is computed with the penalties, step size and number of iterations given. """
    r = gen.rs(case['seed'])
    d, k = case['d'], case['k']
    X = r.randn(case['n'], d)
    W = r.randn(k, d + 1) * r.choice([0.05, 0.3, 2.], size=(k, d + 1))
    y = (X[:, 0] + 0.4 * X[:, 1] > 0).astype(float)
    options = {a: case[a] for a in ('step_size', 'max_iter', 'l1_penalty', 'l2_sqrt_penalty')}

    def data():
        res = PartitionedDataset(X.copy())
        res.move_to_labeled(LabeledSet(y[:8], index=range(8)))
        return res

    def reference(options):
        model = LinearFactorizationLearner(Recorder(lambda call, x0: None))
        model._weights, model._bias = W[:, :-1].copy(), W[:, -1].copy()
        fact, partial = compute_factorization_and_partial_labels(data(), model, fista_step_size=options['step_size'], **{a: v for a, v in options.items() if a != 'step_size'})
        return [[int(v) for v in p] for p in fact], np.asarray(partial)
    with np.errstate(all='ignore'):
        try:
            fact, partial = reference(options)
        except Exception:
            return  # no relevant subspace
    learner = SwapLearner(Double(0), LinearFactorizationLearner(Recorder(lambda call, x0: W.copy())), num_subspaces=k, swap_iter=1, fact_model=FactDouble(1), user_fact=[[j] for j in range(d)], compute_fact_every=1,
                          **{'fact_' + a: v for a, v in options.items()})
    learner.fit_data(data())
    metric_logger.flush()
    learner.fit_data(data())
    got = metric_logger.get_metrics()['factorization']
    ctx.eq([[int(v) for v in p] for p in got], fact, 'factorization with {}'.format(options))
    manager = FactorizationManager([[j] for j in range(d)], **options)
    got, got_partial = manager.compute_factorization(data(), learner.linear_model)
    ctx.eq([[int(v) for v in p] for p in got], fact, 'factorization of the manager with {}'.format(options))
    ctx.arr_eq(got_partial, partial, 'partial labels of the manager')
    ctx.nontrivial(len(fact) > 1 or any(len(p) < d for p in fact))


@st.composite
def samplers(draw):
    return {'k': draw(st.integers(1, 4)), 'd': draw(st.integers(1, 3)), 'n': draw(st.integers(12, 30)), 'penalty': draw(st.sampled_from([0., 0.01, 0.5])), 'penalty_iter': draw(st.sampled_from([0, 1, 2, 3, 14])), 'log': draw(st.booleans()), 'prune': draw(st.booleans()),
            'iters': draw(st.sampled_from([1, 2, 3, 4, 5, 3, 4, 5, 16, 34])), 'seed': draw(gen.seeds()), 'again': draw(st.booleans()), 'groups': draw(st.booleans())}


@check.sub(samplers(), quick=400, thorough=20000, shards=2)
def uncertainty(case, ctx):
    """ FLMUncertaintySampler: warm starts, penalty schedule, pruning. """
    r = gen.rs(case['seed'])
    n, d, k = max(case['n'], 2 * case['iters'] + 2), case['d'], case['k']
    X = r.randn(n, d)
    y = (X[:, 0] > 0).astype(float)
    moves = r.randn(20, 4, d + 1)

    def script(call, x0):
        W = x0 + moves[call % 20, :len(x0)]
        for j in range(1, len(W)):
            if case['prune'] and abs(moves[call % 20, j, 0]) > 1.2:
                W[j] = np.r_[0.01 * moves[call % 20, j, :-1], 9.]  # positive everywhere: to be pruned
        W[0] = np.r_[np.ones(d), -X.mean(axis=0).sum()]
        return W
    groups = [[int(q) for q in g] for g in np.array_split(r.permutation(d), max(1, d - 1))] if case['groups'] else None  # as of one-hot encoded attributes
    learner = FLMUncertaintySampler(penalty=case['penalty'], num_subspaces=k, prune=case['prune'], penalty_iter=case['penalty_iter'], log=case['log'], one_hot_groups=groups)
    opt = Recorder(script)
    learner.clf.optimizer = opt
    for round_ in range(2 if case['again'] else 1):
        del opt.calls[:]
        data = PartitionedDataset(X.copy())
        order = [int(i) for i in r.permutation(n)]
        W = None
        for t in range(1, case['iters'] + 1):
            new, order = order[:2], order[2:]
            data.move_to_labeled(LabeledSet(y[new], index=new))
            learner.fit_data(data)
            c = opt.calls[-1]
            ctx.eq(len(opt.calls), t, 'number of trainings')
            if W is None:
                ctx.eq(c['x0'].shape, (k, d + 1), 'shape of the first starting point')
            else:
                ctx.close(c['x0'], W, 'starting point: the weights so far', rtol=0, atol=1e-12)
            share = 1. if t > case['penalty_iter'] else t / case['penalty_iter']
            if case['log'] and t <= case['penalty_iter']:
                share = math.log(1 + (math.e - 1) * share)
            rows = [int(i) for i in data.labeled.index]
            P = c['probe'][:, :-1]
            norm = np.sqrt((P ** 2).sum(axis=1)).sum() + (np.abs(P).sum() if groups is None else sum(np.sqrt((P[:, g] ** 2).sum(axis=1)).sum() for g in groups))
            ctx.close(c['f'], nll(X[rows], y[rows], c['probe']) + share * case['penalty'] * norm, 'loss at iteration {} (penalty_iter={})'.format(t, case['penalty_iter']), rtol=1e-9)
            W = script(t - 1, c['x0'])
            if case['prune']:
                low = expit(X @ W[:, :-1].T + W[:, -1]).min(axis=0)
                if (np.abs(low - 0.99) < 1e-9).any():
                    return
                W = W[low < 0.99]
            Q = r.randn(6, d)
            p = expit(Q @ W[:, :-1].T + W[:, -1]).prod(axis=1)
            ctx.close(learner.predict_proba(Q), p, 'probabilities', rtol=1e-9)
            ctx.close(learner.rank(Q), np.abs(p - 0.5), 'ranks', rtol=0, atol=1e-9)
        ctx.nontrivial(case['iters'] > 1)
        learner.clear()


@check.sub(st.fixed_dictionaries({'max_iter': st.integers(1, 6), 'batch': st.sampled_from([None, 1, 3, 10]), 'N': st.integers(1, 25), 'adapt': st.booleans(), 'every': st.integers(1, 3), 'decay': st.sampled_from([0., 0.5]), 'fista': st.booleans(),
                                  'step': st.sampled_from([0.1, 0.01])}), quick=200, thorough=5000)
def epochs(case, ctx):
    """ Optimizers of SimplifiedSwapLearner: iterations and step sizes are counted in epochs. """
    opt = SimplifiedSwapLearner.get_optimizer(step_size=case['step'], max_iter=case['max_iter'], batch_size=case['batch'], adapt_step_size=case['adapt'], adapt_every=case['every'], exp_decay=case['decay'], use_fista=case['fista'], N=case['N'])
    per_epoch = math.ceil(case['N'] / case['batch']) if case['batch'] else 1
    ctx.eq(opt.batch_size, case['batch'], 'batch size')
    if case['fista']:
        return
    seen = []

    def grad(x):
        seen.append(float(np.ravel(x)[0]))
        return np.array([[1.]])
    res = opt.minimize(np.array([[0.]]), lambda x: float(np.ravel(x)[0]), grad)
    ctx.eq(int(res.it), case['max_iter'] * per_epoch, 'number of iterations')
    seen.append(float(np.ravel(res.x)[0]))
    steps = -np.diff(seen)
    for t, s in enumerate(steps):
        e = t // (case['every'] * per_epoch)
        expected = case['step'] * (1. if not case['adapt'] else case['decay'] ** e if case['decay'] > 0 else (1. + e) ** -0.5)
        ctx.close(s, expected, 'step {} ({} per epoch)'.format(t, per_epoch), rtol=1e-4)
    ctx.nontrivial(per_epoch > 1 and case['adapt'])
