import importlib
import os
import pkgutil

import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression

import boot
import core
import gen
import zoo
import aideme
from aideme import PoolBasedExploration, max_iter_reached, stratified_sampler
from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
from aideme.explore import LabeledSet, PartitionedDataset

check = core.Check('C34', rule='whole explorations of random pools with every exported learner and many configurations, down to the last point or for a few iterations; non-trivial: both predictions occur and the run '
                   'has at least three iterations in the exploration phase',
                   assumptions=['pruning is off where a model is trained after it (known finding of C29)', 'learners which make random predictions or rank points relative to each other are exempt from the comparison in batches'])


def simplified(**kwargs):
    params = dict(swap_iter=2, num_subspaces=2, train_sample_size=20, refine_max_iter=5, prune=False)
    params.update(kwargs)
    learner = aideme.SimplifiedSwapLearner(**params)
    return learner


LEARNERS = dict({k: v for k, v in zoo.LEARNERS.items() if k not in ('swap', 'flm_prune')},
                simplified=lambda: simplified(use_vs=False, cars=True), simplified_fista=lambda: simplified(use_vs=False, cars=True, use_fista=True), simplified_vs=lambda: simplified(use_vs=True, cars=True, adapt_max_iter=True, refine_min_iter=2, refine_max_iter=9),
                simplified_exp=lambda: simplified(use_vs=False, cars=True, adapt_max_iter=True, refine_min_iter=2, refine_max_iter=9, refine_exp=True, refine_every=1, refine_step_size=0.05),
                bayes=lambda: BayesianLinearVersionSpace(prior='gaussian'), bayes_kernel=lambda: BayesianKernelVersionSpace(prior='gaussian', gamma=1.), bayes_gp=lambda: BayesianKernelVersionSpace(sampler='kernel-laplace', gamma=1.),
                poly_vs=lambda: aideme.KernelVersionSpace(kernel='poly', degree=4, coef0=1., gamma=1., **zoo.VS), qbd_logistic=lambda: aideme.QueryByDisagreement(LogisticRegression(), background_sample_size=6, background_sample_weight=0.01),
                dsm_negative=lambda: aideme.DualSpaceModel(aideme.SimpleMargin(C=100., gamma=1.), mode='negative'), dsm_categorical=lambda: aideme.DualSpaceModel(aideme.SimpleMargin(C=100., gamma=1.), mode='categorical'),
                dsm_sampled=lambda: aideme.DualSpaceModel(aideme.SimpleMargin(C=100., gamma=1.), sample_unknown_proba=0.7))
FACTORIZED = dict(zoo.FACTORIZED, fdsm_modes=lambda p: aideme.FactorizedDualSpaceModel(aideme.SimpleMargin(C=100., gamma=1.), partition=p, mode=['positive', 'persist']),
                  sub_vs_greedy=lambda p: aideme.SubspatialVersionSpace(partition=p, gamma=1., loss='GREEDY', label_function='PROD', **zoo.VS))
SLOW = {'simplified', 'simplified_exp', 'simplified_fista', 'simplified_vs'}
NO_PROBA = {'simple_margin', 'simple_margin_linear', 'sub_sm', 'dsm_sm', 'fdsm', 'fdsm_modes', 'dsm_negative', 'dsm_categorical', 'dsm_sampled', 'ratio_margin'}
RANDOM_RANK = {'random', 'dsm_random', 'entropy'}


@check.sub(st.fixed_dictionaries({'learner': st.sampled_from(sorted(LEARNERS) + sorted(FACTORIZED)), 'n': st.integers(12, 30), 'd': st.integers(2, 3), 'seed': gen.seeds(), 'iters': st.integers(3, 9), 'exhaust': st.booleans(),
                                  'sub': st.one_of(st.none(), st.none(), st.integers(3, 15)), 'own_index': st.booleans(), 'scale': st.sampled_from([1., 1., 0.1, 10.])}), quick=45, thorough=3000, shards=8)
def explorations(case, ctx):
    name, n, d = case['learner'], case['n'], case['d']
    r = gen.rs(case['seed'])
    X = r.randn(n, d).round(2)
    X[:, 0] += np.arange(n) * 1e-3
    w = np.cos(np.arange(d) + case['seed'] % 7)
    P = np.c_[np.abs(X[:, 0]) < 0.9, X[:, 1:].sum(axis=1) < 0.5].astype(int)
    y = (X @ w > np.median(X @ w)).astype(int)  # separable
    if name in FACTORIZED:
        P[0], P[1], P[2] = 1, 0, 0
        y = P.min(axis=1)
    if name.startswith('poly') or name.startswith('linear'):
        case['scale'] = 1.
    X *= case['scale']
    before = X.copy()
    index = r.permutation(5 * n)[:n] if case['own_index'] else np.arange(n)
    labels = LabeledSet(y, P if name in FACTORIZED else None, index if case['own_index'] else None)
    learner = FACTORIZED[name]([[0], list(range(1, d))]) if name in FACTORIZED else LEARNERS[name]()
    Q = case['scale'] * r.randn(9, d)
    seen = []

    def verify(data, lrn):
        ctx.require(lrn is learner, 'the callback got another learner')
        got = np.asarray(lrn.predict(Q), dtype=float)
        ctx.eq(got.shape, (len(Q),), '{}: shape of the predictions'.format(name))
        ctx.require(set(got.tolist()) <= {0., 1.}, '{}: predictions {}', name, got)
        clear = np.ones(len(Q), dtype=bool)
        if name not in NO_PROBA:
            p = np.asarray(lrn.predict_proba(Q), dtype=float)
            ctx.eq(p.shape, (len(Q),), '{}: shape of the probabilities'.format(name))
            ctx.require(((p >= 0) & (p <= 1 + 1e-12)).all(), '{}: probabilities {}', name, p)
            if not name.startswith('dsm') and 'disagreement' not in name:
                clear = np.abs(p - 0.5) > 1e-6
                ctx.require((got[clear] == (p[clear] > 0.5)).all(), '{}: labels {} with probabilities {}', name, got, p)
            each = np.concatenate([np.asarray(lrn.predict_proba(Q[i:i + 1])) for i in range(len(Q))])
            ctx.close(each, p, '{}: probabilities point by point'.format(name), rtol=1e-6, atol=1e-9)
        each = np.concatenate([np.asarray(lrn.predict(Q[i:i + 1]), dtype=float) for i in range(len(Q))])
        ctx.arr_eq(each[clear], got[clear], '{}: labels point by point'.format(name))
        if name not in RANDOM_RANK:
            rank = np.asarray(lrn.rank(Q), dtype=float)
            ctx.eq(rank.shape, (len(Q),), '{}: shape of the ranks'.format(name))
            ctx.require(not np.isnan(rank).any(), '{}: ranks {}', name, rank)
            perm = r.permutation(len(Q))
            ctx.close(lrn.rank(Q[perm]), rank[perm], '{}: ranks of the points in another order'.format(name), rtol=1e-6, atol=1e-9)
            each = np.concatenate([np.asarray(lrn.rank(Q[i:i + 1]), dtype=float) for i in range(len(Q))])
            ctx.close(each, rank, '{}: ranks point by point'.format(name), rtol=1e-6, atol=1e-9)
        seen.append(got)
        return {}
    explorer = PoolBasedExploration(stratified_sampler(labels, neg_in_all_subspaces=name in FACTORIZED), subsampling=case['sub'], callback=verify, convergence_criteria=None if case['exhaust'] and name not in SLOW else max_iter_reached(case['iters']))
    iters = explorer.run(X, labels, learner, seeds=[case['seed'] % 1000], return_generator=False)[0]
    ctx.arr_eq(X, before, 'data of the caller')
    asked = [int(i) for m in iters for i in m['labeled_indexes']]
    ctx.eq(len(asked), len(set(asked)), '{}: number of different points among those asked'.format(name))
    ctx.require(set(asked) <= set(int(i) for i in index), '{}: asked {}', name, asked)
    true = {int(i): int(v) for i, v in zip(index, y)}
    ctx.eq([int(v) for m in iters for v in m['labels']], [true[i] for i in asked], '{}: labels recorded'.format(name))
    if case['exhaust'] and name not in SLOW and not name.startswith('dsm') and not name.startswith('fdsm'):
        ctx.eq(len(asked), n, '{}: number of points asked until the end'.format(name))
    ctx.label(name)
    ctx.nontrivial(len(iters) > 3 and len(set(v for s in seen for v in s.tolist())) == 2)


NAMES = [m.name for m in pkgutil.walk_packages([os.path.join(boot.REPO, 'aideme')], 'aideme.')]


@check.sub(st.fixed_dictionaries({'k': st.integers(0, len(NAMES) - 1)}), quick=150)
def imports(case, ctx):
    """ Every module can be imported, and exports what it says. """
    module = importlib.import_module(NAMES[case['k']])
    for name in getattr(module, '__all__', []):
        ctx.require(hasattr(module, name), '{} does not export {}', NAMES[case['k']], name)
    for name in aideme.active_learning.__all__ + aideme.explore.__all__:
        ctx.require(hasattr(aideme, name), 'aideme does not export {}', name)
    ctx.nontrivial('active_learning' in NAMES[case['k']])


@check.known_finding('two-steps-learner')
def two_steps_learner(ctx):
    """ TwoStepsLearner uses methods of PartitionedDataset which do not exist. """
    data = PartitionedDataset(gen.rs(0).randn(10, 3))
    data.move_to_labeled(LabeledSet([0, 1], [[0, 1], [1, 1]], index=[0, 1]))
    learner = aideme.TwoStepsLearner(aideme.SimpleMargin(), aideme.SimpleMargin(), switch_iter=5, text_column_start=2)
    try:
        learner.fit_data(data)
    except AttributeError as e:
        raise core.Violation('TwoStepsLearner.fit_data: {}'.format(e))
