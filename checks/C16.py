import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme import DualSpaceModel, FactorizedDualSpaceModel
from aideme.explore import LabeledSet, PartitionedDataset
from common import RecordingLearner

check = core.Check('C16', rule='random pools labeled by convex regions, complements, or with contradictions; random batches, subsample sizes, convexity modes and factorizations; the dual space model is driven '
                   'by hand with a recording learner inside; non-trivial: points were inferred and at least three batches were labeled, or a contradiction was found')


class Inner(RecordingLearner):
    limit, count = 300, 0

    def clear(self):
        super().clear()
        self.selected, self.given = [], []

    def _select_next(self, dataset):
        selected = super()._select_next(dataset)
        self.given.append([int(i) for i in dataset.index])
        self.selected.append([tuple(x.tolist()) for x in selected.data])
        return selected

    def fit(self, X, y):
        self.count += 1
        if self.count > self.limit:
            raise core.Violation('trained {} times for a single choice'.format(self.count))
        super().fit(X, y)

    def predict(self, X):  # unlike any polytope label
        return np.full(len(X), 0.25)

    def predict_proba(self, X):
        return np.full(len(X), 0.125) + 0.01 * (np.asarray(X)[:, 0] > 0)

    def rank(self, X):
        return np.abs(np.sin(7 * np.asarray(X).sum(axis=1) + self.seed))


@st.composite
def cases(draw):
    d = draw(st.integers(1, 3))
    return {'d': d, 'n': draw(st.integers(6, 40)), 'seed': draw(gen.seeds()), 'rng': gen.seeds() and draw(gen.seeds()), 'shape': draw(st.sampled_from(['box', 'box', 'ball', 'flip', 'flip', 'noise'])),
            'mode': draw(st.sampled_from(['persist', 'persist', 'positive', 'negative'])), 'facto': draw(st.booleans()), 'p': draw(st.sampled_from([0.1, 0.5, 0.5, 1.])), 'batch': draw(st.sampled_from([1, 2, 3, 2, 100])),
            'sub': draw(st.one_of(st.none(), st.integers(1, 40))), 'steps': draw(st.integers(1, 10)), 'init': draw(st.integers(1, 8)), 'init_batches': draw(st.integers(1, 3)), 'clear': draw(st.booleans()), 'structure': draw(st.sampled_from(['given', 'given', 'later', 'replaced'])),
            'extra': draw(st.lists(st.integers(0, 100), max_size=3))}


def build(case):
    r = gen.rs(case['seed'])
    n, d = case['n'], case['d']
    X = r.uniform(-1, 1, size=(n, d)).round(3)
    X[:, 0] = np.sort(X[:, 0]) + np.arange(n) * 1e-3  # distinct rows
    X = X[r.permutation(n)]
    Y = (np.abs(X) < 0.8).astype(int)
    if case['shape'] == 'ball' and not case['facto']:
        Y = np.repeat(((X ** 2).sum(axis=1) < 0.8).astype(int).reshape(-1, 1), d, axis=1)
    if case['shape'] == 'flip':
        if case['facto']:
            Y[:, 0] = 1 - Y[:, 0]
        else:
            Y = np.repeat(1 - Y.min(axis=1).reshape(-1, 1), d, axis=1)
    if case['shape'] == 'noise':
        Y = np.where(r.rand(n, d) < 0.15, 1 - Y, Y)
    return X, Y, Y.min(axis=1), r


def sound(case):
    """ Do the assumptions of the model hold for the labels? """
    if case['shape'] == 'noise':
        return False
    flipped = case['shape'] == 'flip'
    if case['facto']:
        return case['mode'] == 'positive' and not flipped
    return case['mode'] == ('negative' if flipped else 'positive')


@check.sub(cases(), quick=250, thorough=20000, shards=6)
def protocol(case, ctx):
    X, Y, y, r = build(case)
    n, d = X.shape
    inner = Inner(case['batch'], case['seed'] % 5)
    whole = case['batch'] >= n and (case['sub'] or n) >= n  # the learner selects all points it is given
    if whole:
        inner.limit = 2
        case['p'] = 0. if case['p'] == 0.1 else case['p']  # may be 0: the first selection contains the unknown points
    if case['facto']:
        structure = {'partition': [[j] for j in range(d)], 'mode': case['mode'] if case['seed'] % 2 else [case['mode']] * d}
        if case['structure'] == 'given':
            learner = FactorizedDualSpaceModel(inner, case['p'], **structure)
        else:
            learner = FactorizedDualSpaceModel(inner, case['p']) if case['structure'] == 'later' else FactorizedDualSpaceModel(inner, case['p'], partition=[list(range(d))], mode='persist')
            if case['structure'] == 'replaced':
                data = PartitionedDataset(X.copy())
                data.move_to_labeled(LabeledSet(y[:4], y[:4].reshape(-1, 1), index=range(4)))
                learner.fit_data(data)
            learner.set_factorization_structure(**structure)
    else:
        learner = DualSpaceModel(inner, mode=case['mode'], sample_unknown_proba=case['p'])
    row_id = {tuple(x.tolist()): i for i, x in enumerate(X)}
    np.random.seed(case['rng'] % 2 ** 32)
    for attempt in range(2 if case['clear'] else 1):
        learner.clear()
        ctx.require(learner.polytope_model.is_valid, 'invalid polytope after clear()')
        data = PartitionedDataset(X.copy())
        labeled = []
        conflict = False

        def label(ids):
            data.move_to_labeled(LabeledSet(y[ids], Y[ids], index=ids))
            labeled.extend(ids)

        first = list(range(min(case['init'], n - 1)))
        for part in np.array_split(first, case['init_batches']):
            if len(part):
                label([int(i) for i in part])
        extras = set()
        for step in range(case['steps']):
            # training
            before = len(inner.fits)
            inner.count = 0
            learner.fit_data(data)
            ctx.require(len(inner.fits) > before, 'the learner was not trained')
            ctx.eq(sorted(int(i) for i in data.labeled.index), sorted(labeled), 'labeled points')
            valid = bool(learner.polytope_model.is_valid)
            conflict = conflict or not valid
            pol = learner.polytope_model.predict(X)
            unknown, inferred = [int(i) for i in data.unknown.index], [int(i) for i in data.inferred.index]
            if valid:
                ctx.require(all(pol[i] == 0.5 for i in unknown), 'unknown points whose label is known to the polytope model: {}', [i for i in unknown if pol[i] != 0.5])
                ctx.require(all(pol[i] != 0.5 for i in inferred), 'inferred points whose label is not known: {}', [i for i in inferred if pol[i] == 0.5])
                if sound(case):
                    ctx.require(all(pol[i] in (0.5, y[i]) for i in range(n)), 'wrong labels were inferred: {}', [i for i in range(n) if pol[i] not in (0.5, y[i])])
            else:
                ctx.eq(inferred, [], 'inferred points of an invalid polytope model')
            extras = check_training(inner, X, y, labeled, pol if valid else None, row_id, ctx, extras)
            check_predictions(learner, inner, X, pol, valid, ctx)
            # choice of the next points
            if data.unlabeled_size == 0:
                break
            before = len(inner.fits)
            inner.count = 0
            inner.selected, inner.given = [], []
            pts = learner.next_points_to_label(data, case['sub'])
            ids = [int(i) for i in pts.index]
            ctx.require(ids and len(set(ids)) == len(ids) and not set(ids) & set(labeled), 'points to label {}, labeled {}', ids, sorted(labeled))
            for i, x in zip(ids, pts.data):
                ctx.arr_eq(x, X[i], 'row of the next point')
            for given in inner.given:  # samples of the requested size
                sizes = {min(case['sub'] or n, len(unknown) + len(inferred))} if not valid or not unknown or case['p'] == 0. else \
                    {min(case['sub'] or n, len(unknown))} if case['p'] == 1. or set(given) <= set(unknown) and len(given) < len(unknown) else \
                    {min(case['sub'] or n, len(unknown)), min(case['sub'] or n, len(unknown) + len(inferred))}
                ctx.require(len(given) in sizes, 'the learner selects among {} points instead of {}, with subsample size {}', len(given), sizes, case['sub'])
            if valid and unknown:
                ctx.require(all(pol[i] == 0.5 for i in ids), 'the user is asked about {}, which are known', [i for i in ids if pol[i] != 0.5])
                if case['p'] == 1.:
                    ctx.eq(len(inner.fits), before, 'trainings while only unknown points are sampled')
                else:
                    if whole:
                        ctx.eq(sorted(ids), sorted(unknown), 'points to label when the learner selects everything')
                    extras = check_training(inner, X, y, labeled, pol, row_id, ctx, extras)
                    chosen = {row_id[t] for sel in inner.selected for t in sel}
                    ctx.eq(sorted(i for i in chosen if pol[i] != 0.5 and i not in extras), [], 'points chosen by the learner with a label known to the polytope model, but not used for training')
            else:
                ctx.eq(len(ids), min(case['batch'], len(unknown) + len(inferred), case['sub'] or n), 'batch size when nothing is unknown')
            ctx.eq([int(i) for i in data.unknown.index], unknown, 'unknown points after the choice')
            more = [int(data.unlabeled.index[e % data.unlabeled_size]) for e in case['extra']]  # the user labels what he wants
            label(list(dict.fromkeys(ids + more)))
            ctx.nontrivial((len(inferred) > 0 and step >= 2) or conflict)
    ctx.label(case['shape'], case['mode'], 'factorized' if case['facto'] else 'plain')
    if conflict:
        ctx.label('conflict')
    if extras:
        ctx.label('learner trained with inferred labels')


def check_training(inner, X, y, labeled, pol, row_id, ctx, known_extras):
    """ The last training set: all user labels, plus points labeled by the polytope model with their current label. """
    Xt, yt = inner.fits[-1]
    ids = [row_id.get(tuple(row.tolist())) for row in Xt]
    ctx.require(None not in ids, 'training rows which are not in the data')
    user = ids[:len(labeled)]
    ctx.eq(sorted(ids[:len(labeled)]), sorted(labeled), 'user labeled points of the training set') if sorted(user) == sorted(labeled) else None
    remaining = list(zip(ids, (float(v) for v in yt)))
    for i in labeled:
        ctx.require((i, float(y[i])) in remaining, 'the label of {} is missing in the training set', i)
        remaining.remove((i, float(y[i])))
    for i, v in remaining:
        ctx.require(pol is not None, 'inferred labels in the training set, but the polytope model is invalid')
        ctx.require(pol[i] == v, 'point {} was used for training with label {}, but the polytope model says {}', i, v, pol[i])
    used = {i for i, _ in remaining}
    if pol is not None:
        lost = sorted(i for i in known_extras if pol[i] != 0.5 and i not in used and i not in labeled)
        ctx.eq(lost, [], 'points whose inferred label was used for training before, and which is still known (maybe flipped), but not used any more')
    return used


def check_predictions(learner, inner, X, pol, valid, ctx):
    pred, proba = learner.predict(X), learner.predict_proba(X)
    if not valid:
        ctx.arr_eq(pred, inner.predict(X), 'predictions with an invalid polytope model')
        ctx.arr_eq(proba, inner.predict_proba(X), 'probabilities with an invalid polytope model')
    else:
        known = pol != 0.5
        ctx.arr_eq(pred, np.where(known, pol, inner.predict(X)), 'predictions')
        ctx.arr_eq(proba, np.where(known, pol, inner.predict_proba(X)), 'probabilities')
    ctx.arr_eq(learner.rank(X), inner.rank(X), 'ranks')
    ctx.eq(len(learner.predict(X[:0])), 0, 'predictions for no point') if valid else None
