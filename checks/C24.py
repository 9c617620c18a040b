import numpy as np
from hypothesis import strategies as st
from sklearn.svm import SVC

import core
import gen
from aideme import KernelVersionSpace, SubspatialSimpleMargin, SubspatialVersionSpace
from aideme.active_learning.version_space.categorical import CategoricalActiveLearner, MultiSetActiveLearner
from aideme.active_learning.version_space.subspace import SubspaceLearner
from aideme.explore import LabeledSet, PartitionedDataset

check = core.Check('C24', rule='random partitions (overlapping, permuted, slices), connectors and modes; learners per subspace are recording doubles, support vector machines trained by the check, or '
                   'categorical models; non-trivial: at least two subspaces, whose values differ',
                   assumptions=['probabilities of a subspatial learner are only defined for the connectors which define them'])

LABEL = {'AND': lambda v: min(v), 'OR': lambda v: max(v), 'MAJ': lambda v: float(sum(v) * 2 > len(v))}
PROBA = {'MIN': min, 'MAX': max, 'PROD': lambda v: float(np.prod(v)), 'MEAN': lambda v: sum(v) / len(v)}
RANK = {'SUM': sum, 'SQUARE': lambda v: sum(x * x for x in v), 'LAST': lambda v: v[-1]}
CALLABLE = {'MAJ': lambda ys: (ys.sum(axis=0) * 2 > len(ys)).astype(float), 'MEAN': lambda ps: ps.mean(axis=0), 'LAST': lambda s: s[-1]}


class Double:
    """ Stands for the learner of a subspace: labels, probabilities and ranks are functions of the row. """
    def __init__(self):
        self.fits, self.cleared = [], 0

    def clone(self):
        return Double()

    def clear(self):
        self.cleared += 1

    def fit(self, X, y):
        self.fits.append((np.array(X), np.array(y)))

    def _value(self, X):
        X = np.asarray(X)
        return np.sin(2.3 * (X @ (np.arange(X.shape[1]) + 1.)))

    def predict(self, X):
        return (self._value(X) > 0.2).astype(float)

    def predict_proba(self, X):
        return 0.5 + 0.5 * self._value(X)

    def rank(self, X):
        return 3 * self._value(X) + 1


@st.composite
def partitions(draw):
    d = draw(st.integers(1, 6))
    k = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(['any', 'any', 'disjoint', 'slices', 'none', 'arrays']))
    parts = draw(st.lists(st.lists(st.integers(0, d - 1), min_size=1, max_size=d, unique=True), min_size=k, max_size=k))
    if kind == 'disjoint':
        perm = draw(st.permutations(list(range(d))))
        parts = [list(perm[i::k]) for i in range(min(k, d))]
    if kind == 'slices':
        parts = [[min(p), max(p) + 1] for p in parts]
    return {'d': d, 'kind': kind, 'parts': parts}


def resolve(p):
    """ The partition given to the learner, and the columns of each subspace. """
    if p['kind'] == 'none':
        return None, [list(range(p['d']))]
    if p['kind'] == 'slices':
        return [slice(a, b) for a, b in p['parts']], [list(range(a, b)) for a, b in p['parts']]
    if p['kind'] == 'arrays':
        return [np.array(q) for q in p['parts']], p['parts']
    return p['parts'], p['parts']


@check.sub(st.fixed_dictionaries({'p': partitions(), 'p2': st.one_of(st.none(), partitions()), 'label': st.sampled_from(['AND', 'OR', 'and', 'Or', 'MAJ', None]), 'proba': st.sampled_from(['MIN', 'MAX', 'PROD', 'prod', 'MEAN']),
                                  'rank': st.sampled_from(['SUM', 'SQUARE', 'square', 'LAST']), 'n': st.integers(1, 10), 'seed': gen.seeds(), 'fits': st.integers(1, 3)}), quick=700, thorough=40000, shards=2)
def connectors(case, ctx):
    r = gen.rs(case['seed'])
    partition, cols = resolve(case['p'])
    d = case['p']['d']
    up = {k: None if case[k] is None else case[k].upper() for k in ('label', 'proba', 'rank')}
    learner = SubspaceLearner(Double(), partition, *(CALLABLE.get(up[k], case[k]) for k in ('label', 'proba', 'rank')))
    for round_ in range(2):
        k = len(cols)
        X = r.randn(case['n'], d)
        Y = r.randint(0, 2, size=(case['n'], k)).astype(float)
        doubles = learner.learners
        ctx.eq(len(doubles), k, 'number of learners')
        ctx.eq(len(set(map(id, doubles))), k, 'number of different learners')
        for _ in range(case['fits']):
            learner.fit(X.copy(), Y.copy())
        for j, (c, lrn) in enumerate(zip(cols, doubles)):
            ctx.eq(len(lrn.fits), case['fits'], 'number of trainings in subspace {}'.format(j))
            ctx.arr_eq(lrn.fits[-1][0], X[:, c], 'training data of subspace {}'.format(c))
            ctx.arr_eq(lrn.fits[-1][1], Y[:, j], 'training labels of subspace {}'.format(c))
        Q = r.randn(7, d)
        ref = Double()
        ys, ps, rs = (np.array([getattr(ref, f)(Q[:, c]) for c in cols]) for f in ('predict', 'predict_proba', 'rank'))
        ctx.close(learner.predict_all(Q), ys, 'partial labels')
        ctx.close(learner.predict_proba_all(Q), ps, 'partial probabilities')
        ctx.close(learner.rank_all(Q), rs, 'partial ranks')
        p = [PROBA[up['proba']](v) for v in ps.T.tolist()]
        ctx.close(learner.predict_proba(Q), p, 'probability {}'.format(up['proba']))
        ctx.close(learner.rank(Q), [RANK[up['rank']](v) for v in rs.T.tolist()], 'rank {}'.format(up['rank']))
        ctx.close(learner.predict(Q), [float(v > 0.5) for v in p] if up['label'] is None else [LABEL[up['label']](v) for v in ys.T.tolist()], 'label {}'.format(up['label']))
        learner.clear()
        ctx.eq([lrn.cleared for lrn in doubles], [1] * k, 'number of clear() calls per subspace')
        ctx.nontrivial(k > 1 and (ps.max(axis=0) > ps.min(axis=0) + 0.1).any())
        if case['p2'] is None or round_:
            break
        partition, cols = resolve(case['p2'])
        d = case['p2']['d']
        learner.set_factorization_structure(partition=partition, anything='else')
    ctx.label(str(up['label']), up['proba'], up['rank'])


def points(r, n, cols, d, encode):
    """ Data with one block of columns per subspace, and partial labels; both labels in every subspace. """
    while True:
        X = r.randn(n, d)
        Y = np.empty((n, len(cols)))
        for j, c in enumerate(cols):
            mode = encode[j]
            if mode == 'categorical':
                v = r.randint(0, len(c), size=n)
                X[:, c] = np.eye(len(c))[v]
                Y[:, j] = v % 2
            elif mode == 'multiset':
                X[:, c] = r.randint(0, 2, size=(n, len(c)))
                Y[:, j] = X[:, c[0]] == 0
            else:
                Y[:, j] = X[:, c].sum(axis=1) > 0.1
        if n < 2 or all(len(set(Y[:, j])) == 2 for j in range(len(cols)) if encode[j] not in ('categorical', 'multiset')):
            return X, Y


@st.composite
def disjoint(draw):
    sizes = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    return {'sizes': sizes, 'seed': draw(gen.seeds()), 'n': draw(st.integers(6, 15)), 'shuffle': draw(st.booleans()),
            'modes': draw(st.lists(st.sampled_from(['numerical', 'numerical', 'categorical', 'multiset', 'Categorical', 'persist', 'positive', 'NEGATIVE']), min_size=3, max_size=3))}


def columns(c, r):
    d = sum(c['sizes'])
    perm = [int(v) for v in r.permutation(d)] if c['shuffle'] else list(range(d))
    starts = np.cumsum([0] + c['sizes'])
    return d, [perm[a:b] for a, b in zip(starts, starts[1:])]


@check.sub(st.fixed_dictionaries({'c': disjoint(), 'label': st.sampled_from(['AND', 'OR', 'MAJ']), 'C': st.sampled_from([1., 100.]), 'gamma': st.sampled_from(['auto', 0.7]), 'from_data': st.booleans(),
                                  'kernel': st.sampled_from(['rbf', 'rbf', 'linear', 'poly'])}), quick=200, thorough=10000, shards=2)
def simple_margins(case, ctx):
    """ One support vector machine per subspace, trained with the partial labels. """
    c = case['c']
    r = gen.rs(c['seed'])
    d, cols = columns(c, r)
    X, Y = points(r, c['n'], cols, d, ['numerical'] * 3)
    y = Y.min(axis=1)
    learner = SubspatialSimpleMargin(partition=cols, label_function=CALLABLE.get(case['label'], case['label']), C=case['C'], kernel=case['kernel'], gamma=case['gamma'])
    if case['from_data']:
        order = r.permutation(c['n'])
        data = PartitionedDataset(np.vstack([X, r.randn(5, d)]))
        data.move_to_inferred([c['n']])
        data.move_to_labeled(LabeledSet(y[order], Y[order], index=order))
        learner.fit_data(data)
        rows = [int(i) for i in data.labeled.index]
        A, B = X[rows], Y[rows]
    else:
        learner.fit(X, Y)
        A, B = X, Y
    Q = r.randn(12, d)
    dist = np.array([SVC(C=case['C'], kernel=case['kernel'], gamma=case['gamma']).fit(A[:, cc], B[:, j]).decision_function(Q[:, cc]) for j, cc in enumerate(cols)])
    clear = (np.abs(dist) > 1e-4).all(axis=0)
    ctx.close(learner.rank(Q), np.abs(dist).sum(axis=0), 'rank: sum of the distances to the boundaries', rtol=1e-4, atol=1e-4)
    signs = dist > 0
    ctx.arr_eq(np.asarray(learner.predict(Q), dtype=float)[clear], {'AND': signs.all(axis=0), 'OR': signs.any(axis=0), 'MAJ': 2 * signs.sum(axis=0) > len(cols)}[case['label']].astype(float)[clear], 'predicted labels')
    ctx.nontrivial(len(cols) > 1 and len(set(signs.all(axis=0))) > 1)


LOSS = {'GREEDY': lambda p: np.prod(1 - 2 * p * (1 - p), axis=0), 'SQUARED': lambda p: ((p - 0.5) ** 2).sum(axis=0), 'PRODUCT': lambda p: np.abs(p.prod(axis=0) - 0.5), 'CALLABLE': lambda p: p.max(axis=0)}
LOSS['SQUARE'] = LOSS['SQUARED']


@check.sub(st.fixed_dictionaries({'c': disjoint(), 'label': st.sampled_from(['AND', 'OR', 'PROD', 'prod', 'and', 'MAJ']), 'loss': st.sampled_from(sorted(LOSS) + ['greedy', 'Product', 'squared']), 'n_samples': st.sampled_from([1, 4]), 'rng': gen.seeds(), 'only': st.booleans(),
                                  'single_mode': st.booleans(), 'from_data': st.booleans()}), quick=150, thorough=8000, shards=3)
def version_spaces(case, ctx):
    """ One version space, categorical or multi-set model per subspace, combined by connector and loss. """
    c = case['c']
    r = gen.rs(c['seed'])
    d, cols = columns(c, r)
    k = len(cols)
    modes = [c['modes'][0]] * k if case['single_mode'] else c['modes'][:k]
    low = ['numerical' if case['only'] else m.lower() for m in modes]
    X, Y = points(r, c['n'], cols, d, low)
    np.random.seed(case['rng'] % 2 ** 32)
    loss = LOSS['CALLABLE'] if case['loss'] == 'CALLABLE' else case['loss']
    learner = SubspatialVersionSpace(partition=cols, mode=modes[0] if case['single_mode'] else modes, label_function=CALLABLE.get(case['label'], case['label']), loss=loss, numerical_only=case['only'], n_samples=case['n_samples'],
                                     warmup=10, thin=2, gamma=0.8)
    # Gaussian kernels separate any labels of different points, but close ones badly
    keep = []
    for i in range(len(X)):
        if all(np.linalg.norm(X[i, cc] - X[q, cc]) > 0.5 or Y[i, j] == Y[q, j] and low[j] in ('categorical', 'multiset') for q in keep for j, cc in enumerate(cols)):
            keep.append(i)
    if len(keep) < 3 or any(len(set(Y[keep, j])) < 2 for j in range(k)):
        return
    if case['from_data']:
        data = PartitionedDataset(X.copy())
        data.move_to_labeled(LabeledSet(Y[keep].min(axis=1), Y[keep], index=keep))
        learner.fit_data(data)
    else:
        learner.fit(X[keep], Y[keep])
    Q = np.vstack([X[keep], X])
    for j, (cc, m) in enumerate(zip(cols, low)):
        if m == 'categorical':
            ctx.require(isinstance(learner.learners[j], CategoricalActiveLearner), 'learner of a categorical subspace: {}', learner.learners[j])
        if m == 'multiset':
            ctx.require(isinstance(learner.learners[j], MultiSetActiveLearner), 'learner of a multi-set subspace: {}', learner.learners[j])
    ps = np.asarray(learner.predict_proba_all(Q))
    ctx.eq(ps.shape, (k, len(Q)), 'shape of the partial probabilities')
    for j in range(k):
        off = np.abs(ps[j, :len(keep)] - Y[keep, j])
        ctx.require(off.max() <= (1e-9 if low[j] in ('categorical', 'multiset') else 1.01 / case['n_samples']) and (off > 1e-9).sum() <= 1, 'partial probabilities of labeled points in subspace {}: {}, labels {}', j, ps[j, :len(keep)], Y[keep, j])
    # probabilities of multi-sets are estimated at random, except where the answer is known
    sure = np.ones(len(Q), dtype=bool)
    for j in range(k):
        if low[j] == 'multiset':
            known = np.asarray(learner.learners[j].pol.predict(Q[:, cols[j]]))
            sure &= known != 0.5
            ctx.arr_eq(ps[j, known != 0.5], known[known != 0.5], 'probabilities of known sets')
    if not sure.any():
        return
    ps, Q = ps[:, sure], Q[sure]
    label = case['label'].upper()
    proba = {'AND': ps.min(axis=0), 'OR': ps.max(axis=0), 'PROD': ps.prod(axis=0)}.get(label)
    if proba is not None:  # not defined by a callable for labels
        ctx.close(learner.predict_proba(Q), proba, 'probability with connector {}'.format(label))
    ys = np.asarray(learner.predict_all(Q))
    expected = {'AND': ys.min(axis=0), 'OR': ys.max(axis=0), 'MAJ': CALLABLE['MAJ'](ys), 'PROD': None if proba is None else (proba > 0.5).astype(float)}[label]
    ctx.arr_eq(np.asarray(learner.predict(Q), dtype=float), expected, 'labels with connector {}'.format(label))
    ctx.close(learner.rank(Q), LOSS[case['loss'].upper()](ps), 'rank with loss {}'.format(case['loss']))
    ctx.nontrivial(k > 1 and len(set(ps.sum(axis=0).tolist())) > 1)
    ctx.label(label, case['loss'].upper(), *set(low))
    learner.clear()
    for j, m in enumerate(low):
        if m == 'categorical':
            ctx.arr_eq(learner.learners[j].predict_proba(Q[:, cols[j]]), np.full(len(Q), 0.5), 'probabilities after clear() in subspace {}'.format(j))
    # another factorization
    learner.set_factorization_structure(partition=[cols[0]], mode=modes[0])
    if not case['only']:
        ctx.eq(type(learner.learners[0]) in (CategoricalActiveLearner, MultiSetActiveLearner), low[0] in ('categorical', 'multiset'), 'special learner for mode {} in a new factorization'.format(modes[0]))
    else:
        ctx.require(not isinstance(learner.learners[0], (CategoricalActiveLearner, MultiSetActiveLearner)), 'learner of a {} subspace in a new factorization, with numerical_only: {}', modes[0], learner.learners[0])
    learner.fit(X[keep], Y[keep][:, :1])
    ctx.eq(np.asarray(learner.predict_proba_all(Q)).shape, (1, len(Q)), 'shape of the partial probabilities with a new factorization')


@check.sub(st.fixed_dictionaries({'k': st.integers(1, 6), 'values': st.integers(1, 4), 'n': st.integers(1, 8), 'rounds': st.integers(1, 3), 'seed': gen.seeds(), 'label': st.sampled_from(['AND', 'OR', 'PROD', 'MAJ']), 'loss': st.sampled_from(sorted(LOSS)),
                                  'again': st.booleans(), 'how': st.sampled_from(['init', 'set', 'reset'])}), quick=300, thorough=10000)
def categorical_subspaces(case, ctx):
    """ Many categorical subspaces: each remembers its own answers only. """
    k, m = case['k'], case['values']
    r = gen.rs(case['seed'])
    perm = [int(i) for i in r.permutation(k * m)]
    cols = [perm[j * m:(j + 1) * m] for j in range(k)]
    loss = LOSS['CALLABLE'] if case['loss'] == 'CALLABLE' else case['loss']
    kwargs = dict(label_function=CALLABLE.get(case['label'], case['label']), loss=loss)
    if case['how'] == 'init':
        learner = SubspatialVersionSpace(partition=cols, mode='categorical', **kwargs)
    else:
        learner = SubspatialVersionSpace(partition=[list(range(k * m))], mode='categorical', **kwargs) if case['how'] == 'set' else SubspatialVersionSpace(partition=cols, mode=['categorical'] * k, **kwargs)
        if case['how'] == 'reset':
            learner.fit(np.eye(m)[np.zeros((1, k), dtype=int)].reshape(1, -1)[:, np.argsort(perm)], np.ones((1, k)))
        learner.set_factorization_structure(partition=cols, mode='categorical')

    def encode(V):
        X = np.empty((len(V), k * m))
        for j, c in enumerate(cols):
            X[:, c] = np.eye(m)[V[:, j]]
        return X
    truth = r.randint(0, 2, size=(k, m))
    grid = np.array([[v] * k for v in range(m)] + [list(r.randint(0, m, size=k)) for _ in range(8)])
    for round_ in range(case['rounds']):
        if case['again']:
            learner.clear()
            truth = 1 - truth
        V = r.randint(0, m, size=(case['n'], k))
        Y = np.array([[truth[j, v[j]] for j in range(k)] for v in V], dtype=float)
        learner.fit(encode(V), Y)
        seen = [set(V[:, j].tolist()) for j in range(k)]
        ps = np.array([[float(truth[j, v[j]]) if v[j] in seen[j] else 0.5 for v in grid] for j in range(k)])
        ctx.arr_eq(learner.predict_proba_all(encode(grid)), ps, 'partial probabilities')
        ctx.close(learner.rank(encode(grid)), LOSS[case['loss']](ps), 'rank with loss {}'.format(case['loss']))
        proba = {'AND': ps.min(axis=0), 'OR': ps.max(axis=0), 'PROD': ps.prod(axis=0)}.get(case['label'])
        if proba is not None:
            ctx.close(learner.predict_proba(encode(grid)), proba, 'probability with connector {}'.format(case['label']))
        ys = (ps > 0.5).astype(float)
        ctx.arr_eq(np.asarray(learner.predict(encode(grid)), dtype=float), {'AND': ys.min(axis=0), 'OR': ys.max(axis=0), 'MAJ': CALLABLE['MAJ'](ys), 'PROD': None if proba is None else (proba > 0.5).astype(float)}[case['label']], 'labels with connector {}'.format(case['label']))
        ctx.nontrivial(k > 1 and len(set(map(tuple, ps.tolist()))) > 1)


@check.sub(st.fixed_dictionaries({'d': st.integers(1, 3), 'n': st.integers(2, 7), 'seed': gen.seeds(), 'rng': gen.seeds(), 'kernel': st.sampled_from(['rbf', 'linear', 'poly']), 'gamma': st.sampled_from([0.4, 1.5]), 'degree': st.sampled_from([1, 2, 4]),
                                  'coef0': st.sampled_from([0., 1.5]), 'add_intercept': st.booleans(), 'rounding': st.booleans(), 'single_chain': st.booleans(), 'n_samples': st.sampled_from([1, 5, 9]), 'warmup': st.sampled_from([1, 30]),
                                  'thin': st.sampled_from([1, 8]), 'jitter': st.sampled_from([1e-12, 0.3]), 'max_iter': st.sampled_from([None, 1, 3])}), quick=150, thorough=6000)
def options(case, ctx):
    """ The options of the version spaces: a single subspace with all of the columns is a kernel version space with these options. """
    r = gen.rs(case['seed'])
    X = 2 * r.randn(case['n'], case['d'])
    w = r.randn(case['d'])
    y = (X @ w > 0).astype(float)
    if len(set(y)) < 2 or np.abs(X @ w).min() < 0.1:
        return
    kwargs = {k: case[k] for k in ('kernel', 'gamma', 'degree', 'coef0', 'add_intercept', 'rounding', 'single_chain', 'n_samples', 'warmup', 'thin', 'jitter')}
    if case['kernel'] == 'poly' and case['degree'] % 2 == 0:
        kwargs['degree'] = 3
    if case['max_iter'] is not None:
        kwargs['rounding_options'] = {'max_iter': case['max_iter']}
    Q = np.vstack([X, 2 * r.randn(20, case['d'])])
    got = []
    for make in (lambda: KernelVersionSpace(decompose=True, **kwargs), lambda: SubspatialVersionSpace(label_function='PROD', decompose=True, **kwargs)):
        learner = make()
        np.random.seed(case['rng'] % 2 ** 32)
        try:
            learner.fit(X.copy(), y.copy() if not got else y.copy().reshape(-1, 1))
        except Exception:
            if got:
                raise
            return  # rounding needs more iterations than it has
        got.append(np.asarray(learner.predict_proba(Q)))
    ctx.close(got[1], got[0], 'probabilities of a single subspace versus those of a kernel version space', rtol=0, atol=1e-6)
    ctx.nontrivial(len(set(got[0].tolist())) > 2)
    ctx.label(case['kernel'])


@check.sub(st.fixed_dictionaries({'k': st.integers(1, 3), 'm': st.integers(1, 3), 'mode': st.sampled_from(['numerical', 'foo', '']), 'fn': st.sampled_from(['AND', 'NAND', 'XOR']), 'no_fn': st.sampled_from([5, 0.5, ['AND'], ('PROD',), {}, True])}), quick=60)
def arguments(case, ctx):
    parts = [[j] for j in range(case['k'])]
    if case['k'] != case['m'] or case['mode'] != 'numerical':
        ctx.raises(ValueError, lambda: SubspatialVersionSpace(partition=parts, mode=[case['mode']] * case['m']), '{} modes {} for {} subspaces'.format(case['m'], case['mode'], case['k']))
        ctx.nontrivial()
    else:
        SubspatialVersionSpace(partition=parts, mode=[case['mode']] * case['m'])
    if case['fn'] != 'AND':
        ctx.raises(Exception, lambda: SubspatialSimpleMargin(partition=parts, label_function=case['fn']), 'unknown connector')
    ctx.raises(ValueError, lambda: SubspatialSimpleMargin(partition=parts, label_function=case['no_fn']), 'connector {}'.format(case['no_fn']))
    for which in ('label_function', 'probability_function', 'ranking_function'):
        ctx.raises(ValueError, lambda: SubspaceLearner(Double(), parts, **{which: case['no_fn']}), '{} {}'.format(which, case['no_fn']))
    ctx.raises(ValueError, lambda: SubspatialVersionSpace(partition=parts, loss=case['no_fn']), 'loss {}'.format(case['no_fn']))
    ctx.raises(ValueError, lambda: SubspatialVersionSpace(partition=parts, label_function=case['no_fn']), 'label_function {}'.format(case['no_fn']))
