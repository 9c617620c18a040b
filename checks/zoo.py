""" Factories of (cheap) exported learners, by name; some of them only make sense with partial labels. """
import numpy as np
from sklearn.linear_model import LogisticRegression
from sklearn.tree import DecisionTreeClassifier

import aideme
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import Adam
from common import RowClassifier

VS = dict(n_samples=5, warmup=15, thin=3)


def adam(max_iter=20):
    return Adam(step_size=0.1, max_iter=max_iter, gtol=0, rel_tol=0, batch_size=None, adapt_step_size=False)


def swap(**kwargs):
    params = dict(swap_iter=3, num_subspaces=3, prune=True, train_sample_size=None)
    params.update(kwargs)
    return aideme.SwapLearner(aideme.SimpleMargin(C=10.), LinearFactorizationLearner(adam(), add_bias=True),
                              LinearFactorizationLearner(adam(10), add_bias=True), **params)


LEARNERS = {
    'random': lambda: aideme.RandomSampler(RowClassifier(1), 1),
    'uncertainty': lambda: aideme.UncertaintySampler(LogisticRegression()),
    'uncertainty_row': lambda: aideme.UncertaintySampler(RowClassifier(2)),
    'simple_margin': lambda: aideme.SimpleMargin(C=100., gamma=1.),
    'simple_margin_linear': lambda: aideme.SimpleMargin(C=1., kernel='linear'),
    'ratio_margin': lambda: aideme.RatioMargin(C=10., gamma=1.),
    'linear_vs': lambda: aideme.LinearVersionSpace(**VS),
    'kernel_vs': lambda: aideme.KernelVersionSpace(gamma=1., **VS),
    'kernel_vs_nocache': lambda: aideme.KernelVersionSpace(gamma=1., rounding_cache=False, cache_samples=False, **VS),
    'kernel_vs_noround': lambda: aideme.KernelVersionSpace(gamma=1., rounding=False, **VS),
    'kernel_vs_default': lambda: aideme.KernelVersionSpace(gamma=1., rounding_options={'strategy': 'default', 'max_iter': 20}, rounding_cache=False, decompose=True, **VS),
    'entropy': lambda: aideme.EntropyReductionLearner(data_sample_size=10, gamma=1., **VS),
    'qbd': lambda: aideme.QueryByDisagreement(DecisionTreeClassifier(max_depth=3, random_state=3), background_sample_size=5, background_sample_weight=1e-2),
    'dsm_sm': lambda: aideme.DualSpaceModel(aideme.SimpleMargin(C=1000., gamma=1.)),
    'dsm_vs': lambda: aideme.DualSpaceModel(aideme.KernelVersionSpace(gamma=1., **VS)),
    'dsm_random': lambda: aideme.DualSpaceModel(aideme.RandomSampler(RowClassifier(1)), mode='positive'),
    'flm': lambda: aideme.FLMUncertaintySampler(max_iter=15, num_subspaces=2, penalty=1e-3, penalty_iter=2),
    'flm_prune': lambda: aideme.FLMUncertaintySampler(max_iter=15, num_subspaces=3, prune=True, penalty=0),
    'swap': swap,
    'swap_noprune': lambda: swap(prune=False, train_on_prediction=False, retries=2),
    'swap_adapter': lambda: swap(prune=False, max_iter_adapter=lambda it: 3 + it),
}

FACTORIZED = {
    'sub_sm': lambda p: aideme.SubspatialSimpleMargin(partition=p, C=100., gamma=1.),
    'sub_vs': lambda p: aideme.SubspatialVersionSpace(partition=p, gamma=1., loss='PRODUCT', **VS),
    'fdsm': lambda p: aideme.FactorizedDualSpaceModel(aideme.SimpleMargin(C=1000., gamma=1.), partition=p),
}
