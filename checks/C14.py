import itertools

import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.dsm.polytope import CategoricalPolytope, MultiSetPolytope
from aideme.active_learning.version_space.categorical import CategoricalActiveLearner, MultiSetActiveLearner
from aideme.explore import LabeledSet, PartitionedDataset

check = core.Check('C14', rule='random histories of labeled one-hot / 0-1 encoded sets over few elements, consistent with a hidden set of positive elements or not; what must be known is computed by '
                   'enumerating all sets of positive elements; non-trivial: a value became known by elimination, a conflict was found, or known and unknown values were queried')


@check.sub(st.fixed_dictionaries({'dim': st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 80)), 'points': st.lists(st.tuples(st.integers(0, 79), st.integers(0, 1)), min_size=1, max_size=12), 'hidden': st.integers(0, 2 ** 80 - 1), 'consistent': st.booleans(),
                                  'sizes': st.lists(st.integers(0, 3), min_size=1, max_size=12)}), quick=700, shards=2)
def categorical(case, ctx):
    dim = case['dim']
    pts = [(c % dim, (case['hidden'] >> (c % dim)) & 1 if case['consistent'] else y) for c, y in case['points']]
    pol, learner = CategoricalPolytope(), CategoricalActiveLearner()
    I = np.eye(dim)
    seen, i = {}, 0
    for size in case['sizes'] + [len(pts)]:
        batch = pts[i:i + size]
        i += size
        if not batch:
            continue
        X, y = I[[c for c, _ in batch]], np.array([v for _, v in batch])
        for c, v in batch:
            seen.setdefault(c, set()).add(v)
        conflict = any(len(v) == 2 for v in seen.values())
        ok = pol.update(X, y)
        ctx.eq((bool(ok), bool(pol.is_valid)), (not conflict, not conflict), 'result of the update, is_valid')
        if conflict:
            ctx.arr_eq(pol.predict(I), np.full(dim, 0.5), 'prediction of an invalid model')
            ctx.raises(RuntimeError, lambda: pol.update(X, y), 'update of an invalid model')
            ctx.raises(RuntimeError, lambda: learner.fit(np.vstack([I[c] for c in seen for _ in seen[c]]), np.array([v for c in seen for v in seen[c]])), 'learner trained with conflicting labels')
            pol.clear()
            ctx.arr_eq(pol.predict(I), np.full(dim, 0.5), 'prediction after clear()')
            ctx.nontrivial()
            return
        expected = np.array([0.5 if c not in seen else float(min(seen[c])) for c in range(dim)])
        ctx.arr_eq(pol.predict(I), expected, 'prediction')
        all_X, all_y = I[list(seen)], np.array([min(seen[c]) for c in seen])
        learner.fit(all_X, all_y)
        ctx.arr_eq(learner.predict_proba(I), expected, 'probabilities of the learner')
        ctx.arr_eq(learner.predict(I), (expected == 1).astype(float), 'labels of the learner')
        ctx.require(((learner.rank(I) == learner.rank(I).min()) == (np.abs(expected - 0.5) == np.abs(expected - 0.5).min())).all(), 'unknown values come first')
    ctx.nontrivial(len(seen) >= 2 and len(seen) < dim)
    ctx.label('many values' if dim > 5 else 'few values')


def subsets(items):
    return [set(s) for k in range(len(items) + 1) for s in itertools.combinations(items, k)]


@st.composite
def multisets(draw):
    dim = draw(st.integers(1, 6))
    pts = draw(st.lists(st.tuples(st.integers(1, 2 ** dim - 1), st.integers(0, 1)), min_size=1, max_size=10))
    return {'dim': dim, 'points': pts, 'hidden': draw(st.integers(0, 2 ** dim - 1)), 'consistent': draw(st.sampled_from([True, True, False])), 'sizes': draw(st.lists(st.integers(0, 3), min_size=1, max_size=10)), 'rng': draw(gen.seeds())}


def decode(code, dim):
    return {j for j in range(dim) if (code >> j) & 1}


def encode(items, dim):
    return np.array([1. if j in items else 0. for j in range(dim)])


@check.sub(multisets(), quick=1000, thorough=60000, shards=3)
def multiset(case, ctx):
    """ A set is positive if and only if all of its elements are. """
    dim = case['dim']
    hidden = decode(case['hidden'], dim)
    pts = [(decode(c, dim), y) for c, y in case['points']]
    if case['consistent']:
        pts = [(s, int(s <= hidden)) for s, _ in pts]
    pol = MultiSetPolytope()
    worlds = subsets(range(dim))
    all_sets = [s for s in worlds if s]
    Q = np.array([encode(s, dim) for s in all_sets])
    i = 0
    for size in case['sizes'] + [len(pts)]:
        batch = pts[i:i + size]
        i += size
        if not batch:
            continue
        X, y = np.array([encode(s, dim) for s, _ in batch]), np.array([v for _, v in batch])
        worlds = [w for w in worlds if all((s <= w) == bool(v) for s, v in batch)]
        X0 = X.copy()
        ok = pol.update(X, y)
        ctx.arr_eq(X, X0, 'data given by the caller')
        ctx.eq((bool(ok), bool(pol.is_valid)), (bool(worlds), bool(worlds)), 'result of the update, is_valid after {}'.format(pts[:i]))
        if not worlds:
            ctx.arr_eq(pol.predict(Q), np.full(len(Q), 0.5), 'prediction of an invalid model')
            ctx.raises(RuntimeError, lambda: pol.update(X, y), 'update of an invalid model')
            pol.clear()
            ctx.arr_eq(pol.predict(Q), np.full(len(Q), 0.5), 'prediction after clear()')
            ctx.nontrivial()
            ctx.label('conflict')
            return
        sure_pos = set.intersection(*worlds) if worlds else set()
        sure_neg = set(range(dim)) - set.union(*worlds)
        expected = np.array([0. if s & sure_neg else 1. if s <= sure_pos else 0.5 for s in all_sets])
        ctx.arr_eq(pol.predict(Q), expected, 'prediction after {}'.format([(sorted(s), v) for s, v in pts[:i]]))
        singles = {min(s) for s, v in pts[:i] if v == 0 and len(s) == 1}
        ctx.nontrivial(bool(sure_neg - singles))
        ctx.label('elimination' if sure_neg - singles else 'plain')


@check.sub(multisets(), quick=120, thorough=8000, shards=3)
def multiset_learner(case, ctx):
    """ Sets which are certainly positive (negative) get probability 1 (0), the others the fraction of the possible worlds. """
    dim = case['dim']
    hidden = decode(case['hidden'], dim)
    pts = [(decode(c, dim), int(decode(c, dim) <= hidden)) for c, _ in case['points']]
    learner = MultiSetActiveLearner()
    learner.fit(np.ones((1, dim)), np.ones(1))  # forgotten by the next fit
    learner.fit(np.array([encode(s, dim) for s, _ in pts]), np.array([v for _, v in pts]))
    all_worlds = subsets(range(dim))
    worlds = [w for w in all_worlds if all((s <= w) == bool(v) for s, v in pts)]
    all_sets = [s for s in all_worlds if s]
    Q = np.array([encode(s, dim) for s in all_sets])
    np.random.seed(case['rng'] % 2 ** 32)
    reps = 40
    p = np.mean([learner.predict_proba(Q) for _ in range(reps)], axis=0)
    for s, v in zip(all_sets, p):
        q = sum(s <= w for w in worlds) / len(worlds)
        if q in (0, 1):
            ctx.eq(float(v), float(q), 'probability of {} after {}'.format(sorted(s), pts))
        else:
            tol = 6.5 * np.sqrt(q * (1 - q) / (50 * reps)) + 2e-3
            ctx.require(abs(v - q) < tol, 'probability {} of {}, expected about {}, after {}', v, sorted(s), q, pts)
            ctx.nontrivial()
    labels, = [learner.predict(Q)]
    for s, v in zip(all_sets, labels):
        q = sum(s <= w for w in worlds) / len(worlds)
        if q in (0, 1):
            ctx.eq(float(v), float(q), 'label of {}'.format(sorted(s)))
    ctx.require((learner.rank(Q) >= 0).all() and (learner.rank(Q) <= 0.5).all(), 'ranks must be in [0, 0.5]')


@check.sub(st.fixed_dictionaries({'m': multisets(), 'kind': st.sampled_from(['categorical', 'multiset'])}), quick=300, thorough=10000)
def learner_in_an_exploration(case, ctx):
    """ fit_data() after any number of batches knows all labels so far. """
    m, dim = case['m'], case['m']['dim']
    hidden = decode(m['hidden'], dim)
    sets = [decode(c, dim) for c, _ in m['points']]
    if case['kind'] == 'categorical':
        sets = [{min(s)} for s in sets]
    y = [int(s <= hidden) for s in sets]
    data = PartitionedDataset(np.array([encode(s, dim) for s in sets]))
    learner = CategoricalActiveLearner() if case['kind'] == 'categorical' else MultiSetActiveLearner()
    learner.clear()
    i, fits = 0, 0
    for j, size in enumerate(m['sizes'] + [len(sets)]):
        batch = range(i, min(i + size, len(sets)))
        i += size
        if not batch:
            continue
        data.move_to_labeled(LabeledSet([y[b] for b in batch], index=list(batch)))
        if j < m['rng'] % 3:
            continue  # initial sampling: the learner is not trained yet
        learner.fit_data(data)
        fits += 1
        known = range(min(i, len(sets)))
        X = np.array([encode(sets[b], dim) for b in known])
        ctx.arr_eq(learner.predict(X), np.array([float(y[b]) for b in known]), 'labels of the training points')
    ctx.nontrivial(fits > 1)
