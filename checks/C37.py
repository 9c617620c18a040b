import math

import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression

import core
import gen
import aideme
from aideme import utils
from aideme.active_learning.active_learner import ActiveLearner
from aideme.active_learning.aluma import aluma_preprocessing
from aideme.active_learning.dsm.convex.convex import ConvexCone, ConvexHull
from aideme.active_learning.factorization.learn import prune_irrelevant_subspaces
from aideme.active_learning.factorization.linear import LinearFactorizationLearner
from aideme.active_learning.factorization.optimization import BFGS, FISTA, Adam, GradientDescent, NoisyGradientDescent, ProximalGradientDescent
from aideme.active_learning.factorization.partitioning.learn import BruteForceSelector, GreedySelector
from aideme.active_learning.factorization.penalty import HuberPenalty, L1Penalty, L2Penalty, L2SqrtPenalty, SparseGroupLassoPenalty
from aideme.active_learning.factorization.step_size_scheduler import ExponentialDecayScheduler, FixedScheduler, PowerDecayScheduler
from aideme.active_learning.kernel import GaussianKernel, IncrementedDiagonalKernel, Kernel, LinearKernel, PolynomialKernel
from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
from aideme.active_learning.version_space.hit_and_run.hit_and_run import HitAndRunSampler
from aideme.active_learning.version_space.hit_and_run.rounding import RoundingAlgorithm, SphericalGradientDescent
from aideme.explore.command_line_explore import CommandLineExploration
from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset, PoolBasedExploration
from aideme.utils import metric_logger

check = core.Check('C37', rule='every validated parameter of every public class and function, with integers, floats, infinities, None and strings inside and outside of its domain; the validators themselves against their '
                   'definition; non-trivial: the value is outside of the domain',
                   assumptions=['NaN and booleans are not generated'])


def labels():
    return LabeledSet([1] * 50 + [0] * 50)


def flm():
    return LinearFactorizationLearner(BFGS())


def swap(**kwargs):
    return aideme.SwapLearner(aideme.SimpleMargin(), flm(), **kwargs)


def with_fact(**kwargs):
    return swap(fact_model=aideme.SubspatialSimpleMargin(), user_fact=[[0], [1]], **kwargs)


def pruned(**kwargs):
    learner = flm()
    learner.fit(np.eye(3), np.array([0., 1., 0.]), 1)
    return prune_irrelevant_subspaces(np.eye(3), learner, **kwargs)


def manager(**kwargs):
    return ExplorationManager(PartitionedDataset(np.eye(3)), ActiveLearner(), **kwargs)


X4 = np.arange(8.).reshape(4, 2)
POSINT, POSINT_NONE, NONNEGINT_INF, POS, POS_NONE, NONNEG, RANGE01, NONNEGINT = 'positive integer', 'positive integer or None', 'non-negative integer or infinity', 'positive', 'positive or None', 'non-negative', '[0, 1]', 'non-negative integer'
TABLE = [
    (aideme.stratified_sampler, 'pos', POSINT, lambda **k: aideme.stratified_sampler(labels(), **k)), (aideme.stratified_sampler, 'neg', POSINT, lambda **k: aideme.stratified_sampler(labels(), **k)),
    (aideme.random_sampler, 'sample_size', POSINT, aideme.random_sampler), (aideme.EntropyReductionLearner, 'data_sample_size', POSINT_NONE, aideme.EntropyReductionLearner),
    (aideme.SwapLearner, 'prune_threshold', RANGE01, swap), (aideme.SwapLearner, 'train_sample_size', POSINT_NONE, swap), (aideme.FLMUncertaintySampler, 'penalty', NONNEG, aideme.FLMUncertaintySampler),
    (HuberPenalty, 'delta', POS, lambda **k: HuberPenalty(penalty=1., **k)), (SparseGroupLassoPenalty, 'l1_penalty', POS, lambda **k: SparseGroupLassoPenalty(l2_sqrt_penalty=1., **k)),
    (SparseGroupLassoPenalty, 'l2_sqrt_penalty', POS, lambda **k: SparseGroupLassoPenalty(l1_penalty=1., **k)),
    (LinearFactorizationLearner, 'retries', POSINT, lambda retries: flm().fit(np.eye(3), np.array([0., 1., 0.]), 1, retries=retries)),
    (LinearFactorizationLearner, 'factorization', POSINT, lambda factorization: flm().fit(np.eye(3), np.array([0., 1., 0.]), factorization)),
    (prune_irrelevant_subspaces, 'threshold', RANGE01, pruned), (prune_irrelevant_subspaces, 'tol', POS, pruned), (FixedScheduler, 'step_size', POS, FixedScheduler),
    (PowerDecayScheduler, 'power', POS, lambda **k: PowerDecayScheduler(step_size=1., **k)), (PowerDecayScheduler, 'step_size', POS, lambda **k: PowerDecayScheduler(power=1., **k)),
    (PowerDecayScheduler, 'adapt_every', POSINT, lambda **k: PowerDecayScheduler(step_size=1., power=1., **k)),
    (ExponentialDecayScheduler, 'decay', POS, lambda **k: ExponentialDecayScheduler(step_size=1., **k)), (ExponentialDecayScheduler, 'step_size', POS, lambda **k: ExponentialDecayScheduler(decay=0.5, **k)),
    (ExponentialDecayScheduler, 'adapt_every', POSINT, lambda **k: ExponentialDecayScheduler(step_size=1., decay=0.5, **k)), (Ellipsoid, 'dim', POSINT, Ellipsoid), (RoundingAlgorithm, 'max_iter', POSINT_NONE, RoundingAlgorithm),
    (SphericalGradientDescent, 'grad_norm_threshold', POS, SphericalGradientDescent), (SphericalGradientDescent, 'rel_tol', POS, SphericalGradientDescent), (SphericalGradientDescent, 'max_iter', POSINT_NONE, SphericalGradientDescent),
    (SphericalGradientDescent, 'step_size', POS_NONE, SphericalGradientDescent), (aideme.TwoStepsLearner, 'switch_iter', POSINT, lambda **k: aideme.TwoStepsLearner(aideme.SimpleMargin(), aideme.SimpleMargin(), text_column_start=1, **k)),
    (aideme.QueryByDisagreement, 'background_sample_size', POSINT, lambda **k: aideme.QueryByDisagreement(LogisticRegression(), **k)), (aideme.QueryByDisagreement, 'background_sample_weight', POS, lambda **k: aideme.QueryByDisagreement(LogisticRegression(), **k)),
    (aideme.RandomSampler, 'batch_size', POSINT, lambda **k: aideme.RandomSampler(LogisticRegression(), **k)), (GaussianKernel, 'gamma', POS_NONE, GaussianKernel), (PolynomialKernel, 'gamma', POS_NONE, PolynomialKernel),
    (PolynomialKernel, 'degree', POSINT, PolynomialKernel), (IncrementedDiagonalKernel, 'jitter', POS, lambda **k: IncrementedDiagonalKernel(LinearKernel(), **k)),
    (aideme.max_iter_reached, 'max_iters', NONNEGINT_INF, aideme.max_iter_reached), (utils.random_noise_injector, 'noise', RANGE01, utils.random_noise_injector), (utils.random_noise_injector, 'skip_initial', NONNEGINT, lambda **k: utils.random_noise_injector(0.5, **k)),
    (ConvexHull, 'tol', POS, lambda **k: ConvexHull(np.array([[0., 0.], [1., 0.], [0., 1.]]), **k)), (ConvexCone, 'tol', POS, lambda **k: ConvexCone(np.array([[0., 0.], [1., 0.], [0., 1.]]), np.array([2., 2.]), **k)),
    (aluma_preprocessing, 'margin', POS, lambda margin: aluma_preprocessing(X4, None, margin / (1 + margin), 0., 0.5, seed=0) if isinstance(margin, float) and 0 < margin < math.inf else aluma_preprocessing(X4, None, margin if margin != 1 else 0.5, 0., 0.5, seed=0)),
    (aluma_preprocessing, 'H', NONNEG, lambda H: aluma_preprocessing(X4, None, 1., H, 0.5, seed=0)),
]
TABLE += [(aideme.SwapLearner, p, POSINT, swap) for p in ('swap_iter', 'num_subspaces', 'retries')]
TABLE += [(aideme.SwapLearner, p, POSINT, with_fact) for p in ('compute_fact_every', 'fact_repeat', 'fact_max_iter')]
TABLE += [(aideme.SwapLearner, p, POS, with_fact) for p in ('fact_step_size', 'fact_l1_penalty', 'fact_l2_sqrt_penalty')]
TABLE += [(c, 'penalty', POS, c) for c in (L1Penalty, L2Penalty, L2SqrtPenalty, HuberPenalty)]
TABLE += [(c, p, POSINT_NONE, c) for c in (BruteForceSelector, GreedySelector) for p in ('max_partitions', 'max_dim')]
TABLE += [(c, p, NONNEG, c) for c in (BFGS, GradientDescent, Adam, FISTA, ProximalGradientDescent, NoisyGradientDescent) for p in ('gtol', 'rel_tol')]
TABLE += [(c, 'max_iter', POSINT_NONE, c) for c in (BFGS, GradientDescent, Adam, FISTA, ProximalGradientDescent, NoisyGradientDescent)]
TABLE += [(c, 'batch_size', POSINT_NONE, c) for c in (GradientDescent, Adam, FISTA)]
TABLE += [(GradientDescent, 'momentum', RANGE01, GradientDescent), (Adam, 'beta1', RANGE01, Adam), (Adam, 'beta2', RANGE01, Adam), (Adam, 'epsilon', POS, Adam)]
TABLE += [(c, p, POSINT, c) for c in (HitAndRunSampler, aideme.LinearVersionSpace, aideme.KernelVersionSpace, aideme.EntropyReductionLearner, aideme.SubspatialVersionSpace) for p in ('warmup', 'thin') if not (c is HitAndRunSampler and p == 'x')]
TABLE += [(c, p, POS, lambda c=c, **k: c(prior='gaussian', **k)) for c in (BayesianLinearVersionSpace, BayesianKernelVersionSpace) for p in ('prior_std', 'tol')]
TABLE += [(c, 'gamma', POS_NONE, c) for c in (aideme.KernelVersionSpace, aideme.EntropyReductionLearner, BayesianKernelVersionSpace)] + [(c, 'degree', POSINT, lambda c=c, **k: c(kernel='poly', **k)) for c in (aideme.KernelVersionSpace, BayesianKernelVersionSpace)]
TABLE += [(c, 'subsampling', POSINT_NONE, c if c is not ExplorationManager else manager) for c in (PoolBasedExploration, CommandLineExploration, ExplorationManager)]
TABLE += [(c, 'callback_skip', POSINT, c if c is not ExplorationManager else manager) for c in (PoolBasedExploration, CommandLineExploration, ExplorationManager)]

VALUES = st.one_of(st.integers(-5, 0), st.integers(1, 40), st.floats(0.001, 3.).filter(lambda v: v != int(v)), st.floats(-5, -0.001).filter(lambda v: v != int(v)), st.sampled_from([0, 0., 1, 1., math.inf, -math.inf, 'five', '', -1, None, None]),
                   st.floats(0, 1).filter(lambda v: 0.001 < v < 0.999))


def within(domain, v):
    """ True, False, or None where the documentation leaves it open (e.g. 2.0 for an integer). """
    if isinstance(v, str):
        return False
    if v is None:
        return domain.endswith('None')
    if v == math.inf:
        return domain == NONNEGINT_INF
    if v < 0 or v == 0 and domain.startswith('positive'):
        return False
    if domain == RANGE01:
        return v <= 1
    if 'integer' in domain and not isinstance(v, int):
        return None if v == int(v) else False
    return True


@check.sub(st.fixed_dictionaries({'k': st.integers(0, len(TABLE) - 1), 'v': VALUES}), quick=1500, thorough=60000, shards=4)
def parameters(case, ctx):
    what, name, domain, make = TABLE[case['k']]
    v = case['v']
    ok = within(domain, v)
    described = '{}({}={!r})'.format(what.__name__, name, v)
    if what is SparseGroupLassoPenalty and v is None or what is aideme.random_sampler and v is None or name == 'factorization' and not isinstance(v, int):
        ok = None
    if ok is None or (what is aideme.stratified_sampler and ok and v > 50) or (what is aluma_preprocessing and name == 'margin' and ok and v > 1) or (what is aluma_preprocessing and ok and v == math.inf):
        return
    if ok:
        make(**{name: v})
    else:
        ctx.raises(ValueError if isinstance(v, (int, float)) else (ValueError, TypeError), lambda: make(**{name: v}), described)
        ctx.nontrivial()
    ctx.label('accepted' if ok else 'rejected')


NAMES = {
    'kernel': (lambda v: Kernel.get(v), {'linear', 'rbf', 'gaussian', 'poly'}), 'kernel vs': (lambda v: aideme.KernelVersionSpace(kernel=v), {'linear', 'rbf', 'gaussian', 'poly'}),
    'strategy': (lambda v: RoundingAlgorithm(strategy=v), {'default', 'opt'}), 'prior': (lambda v: BayesianLinearVersionSpace(prior=v), {'gaussian', 'improper'}), 'mode': (lambda v: aideme.DualSpaceModel(aideme.SimpleMargin(), mode=v), {'positive', 'negative', 'persist', 'categorical', 'multiset'}),
    'score': (lambda v: utils.classification_metrics(X4, np.zeros(4), score_functions=[v]), {'accuracy', 'precision', 'recall', 'fscore', 'tn', 'fp', 'fn', 'tp'}),
    'training score': (lambda v: utils.training_classification_metrics([v]), {'accuracy', 'precision', 'recall', 'fscore'}),
}
WORDS = sorted({w for _, names in NAMES.values() for w in names} | {'foo', '', 'euclidean', 'lin', 'positives', 'true', 'optimal'})


@check.sub(st.fixed_dictionaries({'what': st.sampled_from(sorted(NAMES)), 'v': st.sampled_from(WORDS)}), quick=500)
def names(case, ctx):
    make, good = NAMES[case['what']]
    if case['v'] in good:
        if 'score' not in case['what'] or case['v'] in ('accuracy', 'precision', 'recall', 'fscore'):
            make(case['v'])
    elif 'score' not in case['what'] or case['v'] not in ('tn', 'tp', 'fn', 'fp'):
        ctx.raises(ValueError, lambda: make(case['v']), '{} {!r}'.format(case['what'], case['v']))
        ctx.nontrivial()


VALIDATORS = {'assert_positive': POS, 'assert_non_negative': NONNEG, 'assert_positive_integer': POSINT, 'assert_non_negative_integer': NONNEGINT}


@check.sub(st.fixed_dictionaries({'f': st.sampled_from(sorted(VALIDATORS)), 'v': VALUES, 'inf': st.booleans(), 'none': st.booleans(), 'positional': st.booleans()}), quick=600)
def validators(case, ctx):
    f, v = getattr(utils, case['f']), case['v']
    ok = case['none'] if v is None else case['inf'] if v == math.inf else within(VALIDATORS[case['f']], v)
    if ok is None:
        return

    def call():
        return f(v, 'some name', case['inf'], case['none']) if case['positional'] else f(v, 'some name', allow_inf=case['inf'], allow_none=case['none'])
    if ok:
        ctx.eq(call(), None, 'result of {}'.format(case['f']))
    else:
        ctx.raises(ValueError, call, '{}({!r}, allow_inf={}, allow_none={})'.format(case['f'], v, case['inf'], case['none']))
        ctx.nontrivial()


@check.sub(st.fixed_dictionaries({'v': st.floats(-3, 3), 'low': st.floats(-2, 1), 'width': st.floats(0, 2), 'edge': st.sampled_from(['', 'low', 'high'])}), quick=300)
def ranges(case, ctx):
    low, high = case['low'], case['low'] + case['width']
    v = {'': case['v'], 'low': low, 'high': high}[case['edge']]
    if low <= v <= high:
        utils.assert_in_range(v, 'name', low, high)
    else:
        ctx.raises(ValueError, lambda: utils.assert_in_range(v, 'name', low, high), '{} in [{}, {}]'.format(v, low, high))
        ctx.nontrivial()


@check.sub(st.fixed_dictionaries({'kind': st.sampled_from(['none', 'one', 'list', 'tuple', 'empty', 'bad', 'mixed']), 'n': st.integers(1, 4)}), quick=60)
def callbacks(case, ctx):
    functions = [lambda *a, i=i: i for i in range(case['n'])]
    arg, expected = {'none': (None, []), 'one': (functions[0], functions[:1]), 'list': (functions, functions), 'tuple': (tuple(functions), functions), 'empty': ([], []), 'bad': ([3], None), 'mixed': (functions + ['f'], None)}[case['kind']]
    if expected is None:
        ctx.raises(ValueError, lambda: utils.process_callback(arg), 'callback {}'.format(arg))
        ctx.raises(ValueError, lambda: PoolBasedExploration(callback=arg), 'callback {}'.format(arg))
        ctx.raises(ValueError, lambda: PoolBasedExploration(convergence_criteria=arg), 'criterion {}'.format(arg))
        ctx.nontrivial()
    else:
        got = utils.process_callback(arg)
        ctx.eq(got, expected, 'list of functions')
