import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme import PoolBasedExploration, max_iter_reached, stratified_sampler
from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset
from common import RecordingLearner, rows_dataset
from partition_model import Model, check_labels, check_partition, history, op

check = core.Check('C03', rule='histories run after a reset are compared with the same histories run on new objects; arguments are compared '
                   'with snapshots of them; non-trivial: at least one point was moved before the reset / labeled during the run')


def snapshot(m):
    d = m.data
    ls = d.labeled_set
    X, y = d.training_set()
    Xp, yp = d.training_set(get_partial=True)
    Xl, yl = d.last_training_set()
    return [x.tolist() for x in (d.index, d.data, d.labeled.index, d.inferred.index, d.unknown.index, ls.index, ls.labels, X, y, Xl, yl)] + \
        [yp.tolist() if len(y) else []]


@check.sub(st.fixed_dictionaries({'h': history(10, 12), 'after': st.lists(op(), min_size=0, max_size=10)}), quick=900, shards=3)
def clear_is_a_fresh_start(case, ctx):
    m = Model(case['h'])
    fresh = Model(dict(case['h'], copy=True))
    for o in case['h']['ops']:
        m.apply(o, ctx)
    m.data.clear()
    m.reset()
    moved = len(m.events)
    m.last_known = fresh.last_known = True
    ctx.eq(snapshot(m), snapshot(fresh), 'state after clear()')
    for o in case['after']:
        m.apply(o, ctx)
        fresh.apply(o, ctx)
        ctx.eq(snapshot(m), snapshot(fresh), 'state after clear() and {}'.format(o['op']))
    check_partition(m, ctx)
    check_labels(m, ctx)
    ctx.nontrivial(moved > 0 and len(case['after']) > 0)


@check.sub(st.fixed_dictionaries({'h': history(10, 15)}), quick=700, shards=2)
def arguments_are_not_modified(case, ctx):
    h = dict(case['h'], copy=True)
    m = Model(h)
    X0, i0 = m.X.copy(), None if m.idx_array is None else m.idx_array.copy()
    given = []
    move = m.data.move_to_labeled

    def recording_move(ls):
        before = (ls, ls.labels.tolist(), ls.partial.tolist(), ls.index.tolist())
        given.append(before)
        move(ls)
    m.data.move_to_labeled = recording_move
    for o in h['ops']:
        m.apply(o, ctx)
    ctx.arr_eq(m.X, X0, 'data given by the caller')
    if i0 is not None:
        ctx.arr_eq(m.idx_array, i0, 'index given by the caller')
    for ls, labels, partial, index in given:
        ctx.eq((ls.labels.tolist(), ls.partial.tolist(), ls.index.tolist()), (labels, partial, index), 'LabeledSet given by the caller')
    m.X[:] = -1  # the dataset does not look at the caller's arrays any more
    if m.idx_array is not None:
        m.idx_array[:] = -1
    check_partition(m, ctx)
    check_labels(m, ctx)
    ctx.nontrivial(len(m.events) > 1)


def run_case():
    return st.fixed_dictionaries({
        'n': st.integers(3, 25), 'd': st.integers(1, 3), 'seed': gen.seeds(), 'copy': st.booleans(), 'k': st.integers(0, 3),
        'iters': st.integers(0, 6), 'batch': st.integers(1, 3), 'repeat': st.integers(1, 3), 'index': st.booleans(),
        'strat': st.booleans(), 'gen': st.booleans(), 'listform': st.sampled_from(['list', 'tuple', 'single', 'none']),
        'subsampling': st.one_of(st.none(), st.integers(1, 30))})


@check.sub(run_case(), quick=500, shards=2)
def exploration_leaves_arguments_alone(case, ctx):
    n, r = case['n'], np.random.RandomState(case['seed'] % 2 ** 32)
    X = rows_dataset(n, case['d'], case['seed'] % 2 ** 32)
    y = (np.arange(n) % 3 == 0).astype(int)[r.permutation(n)]
    partial = r.randint(0, 2, size=(n, case['k'])) if case['k'] else None
    index = r.permutation(10 * n)[:n] if case['index'] else None
    ls = LabeledSet(y, partial, index)
    X0 = X.copy()
    before = ls.labels.tolist(), ls.partial.tolist(), ls.index.tolist()
    def callback(data, learner):
        return {'m': 1}
    callbacks = {'list': [callback], 'tuple': (callback,), 'single': callback, 'none': None}[case['listform']]
    crit = max_iter_reached(case['iters'])
    criteria = {'list': [crit], 'tuple': (crit,), 'single': crit, 'none': [crit]}[case['listform']]
    explo = PoolBasedExploration(stratified_sampler(ls) if case['strat'] else None, subsampling=case['subsampling'],
                                 callback=callbacks, convergence_criteria=criteria)
    learner = RecordingLearner(case['batch'])
    runs = explo.run(X, ls, learner, repeat=case['repeat'], copy=case['copy'], return_generator=case['gen'])
    runs = [list(run) for run in runs]
    ctx.eq((ls.labels.tolist(), ls.partial.tolist(), ls.index.tolist()), before, 'labels given by the caller')
    if index is not None:
        ctx.arr_eq(index, before[2], 'index array given by the caller')
    if case['copy']:
        ctx.arr_eq(X, X0, 'data given by the caller')
    else:
        ctx.arr_eq(X[np.argsort(X[:, 0])], X0, 'rows of the data explored in place')
    if isinstance(callbacks, list):
        ctx.require(callbacks == [callback], 'the list of callbacks was modified')
    if isinstance(criteria, list):
        ctx.require(criteria == [crit], 'the list of convergence criteria was modified')
    ctx.eq(len(runs), case['repeat'], 'number of runs')
    ctx.label('copy' if case['copy'] else 'in place')
    ctx.nontrivial(len(runs[0]) >= 2)


@check.sub(run_case(), quick=400)
def manager_clear(case, ctx):
    """ ExplorationManager.clear() resets data, learner and iteration count: what follows is a first run. """
    n = case['n']
    X = rows_dataset(n, case['d'], case['seed'] % 2 ** 32)
    y = (np.arange(n) % 2).astype(int)
    ls = LabeledSet(y)
    criteria = [max_iter_reached(case['iters'])]
    learner = RecordingLearner(case['batch'])
    manager = ExplorationManager(PartitionedDataset(X), learner, initial_sampler=stratified_sampler(ls) if case['strat'] else None,
                                 convergence_criteria=criteria)
    ctx.require(len(criteria) == 1, 'the list of convergence criteria was modified')

    def loop():
        np.random.seed(7)
        trace = []
        while not manager.converged():
            phase = manager.phase.value
            pts = manager.get_next_to_label()
            manager.update(ls.get_index(pts.index))
            trace.append((phase, pts.index.tolist(), manager.iters, len(learner.fits)))
        return trace

    first = loop()
    fitted = len(learner.fits)
    cleared = learner.cleared
    manager.clear()
    ctx.eq(manager.iters, 0, 'iters after clear()')
    ctx.require(learner.cleared == cleared + 1, 'the learner was not cleared')
    ctx.eq(manager.data.unknown_size, n, 'unknown points after clear()')
    ctx.eq(manager.is_initial_sampling_phase, case['strat'], 'initial sampling phase after clear()')
    second = loop()
    ctx.eq(second, first, 'second run after clear()')
    ctx.nontrivial(fitted > 0)
