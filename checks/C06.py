import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme import PoolBasedExploration, max_iter_reached, metric_reached_threshold
from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset
from common import RecordingLearner, rows_dataset
from exploration import Exploration, config

check = core.Check('C06', rule='random explorations of small pools, whose phases, callback iterations and stopping iteration are recomputed from their '
                   'record; non-trivial: at least four iterations, and both phases or a callback skip were involved')


@check.sub(config(large_n=60), quick=1000, shards=4)
def phases_callbacks_and_stop(case, ctx):
    e = Exploration(case)
    iters, final, calls, fits = e.run()
    n = case['n']
    ctx.eq(iters, final, 'metrics of past iterations')
    ctx.require(len({id(m) for m in final}) == len(final), 'iterations share their metrics')
    labels, counted, stop, fit_count, done = {}, 0, False, 0, []
    threshold = case['threshold'] if 'count' in case['callbacks'] else None
    for i, m in enumerate(iters, start=1):
        ctx.require(not stop, 'the exploration went on after iteration {}, where it should have stopped', i - 1)
        both = len(set(labels.values())) == 2
        exploring = case['sampler'] == 'none' or both
        ctx.eq(m['phase'], 'exploration' if exploring else 'initial_sampling', 'phase of iteration %d' % i)
        if case['noise'] is not None:
            ctx.eq('noisy_labels' in m, exploring, 'noise injection at iteration %d, phase %s' % (i, m['phase']))
        labels.update(zip(m['labeled_indexes'], m.get('noisy_labels', m['labels'])))
        if case['sampler'] == 'none' or len(set(labels.values())) == 2:
            fit_count += 1
        ctx.eq(fits[i - 1], fit_count, 'trainings after iteration %d' % i)
        exhausted = len(labels) == n
        over = case['max_iter'] is not None and i > case['max_iter']
        expect_callback = (i - 1) % case['skip'] == 0 or exhausted or over
        new_calls = calls[i - 1][len(done):]
        done = calls[i - 1]
        ctx.eq(new_calls, [(c, len(labels)) for c in case['callbacks']] if expect_callback else [], 'callbacks of iteration %d' % i)
        ctx.eq('count' in m, expect_callback and 'count' in case['callbacks'], 'callback metrics at iteration %d' % i)
        if 'count' in m:
            ctx.eq(m['count'], len(labels), 'callback metric')
        ctx.eq(sorted(k for k in m if k.startswith('fresh_')), ['fresh_%d' % len(labels)] if expect_callback and 'fresh' in case['callbacks'] else [], 'callback metrics')
        ctx.eq('callback_time' in m, expect_callback, 'callback time at iteration %d' % i)
        for key in ('fit_time', 'get_next_time', 'iter_time'):
            ctx.require(key in m and m[key] >= 0, '{} is missing at iteration {}', key, i)
        counted = m.get('count', 0)
        stop = exhausted or over or (threshold is not None and 'count' in m and counted >= threshold)
    # nothing stops an exploration of a non-empty pool before its first iteration, except for limits
    ctx.require(stop, 'the exploration stopped after {} iterations, but nothing asked for it', len(iters))
    ctx.label(case['sampler'], 'skip %d' % case['skip'], 'stop: ' + ('exhausted' if len(labels) == n else 'limit' if case['max_iter'] is not None and len(iters) > case['max_iter'] else 'threshold'))
    ctx.nontrivial(len(iters) >= 4 and (case['sampler'] != 'none' or case['skip'] > 1))


@check.sub(st.fixed_dictionaries({'n': st.integers(2, 12), 'values': st.lists(st.integers(0, 9), min_size=12, max_size=12), 'threshold': st.integers(0, 10),
                                  'skip': st.integers(1, 4), 'limit': st.integers(0, 14), 'stop_at': st.one_of(st.none(), st.integers(1, 12)), 'form': st.booleans()}), quick=800)
def criteria(case, ctx):
    """ Custom criteria get the manager and the last metrics; any of them is enough to stop. """
    n = case['n']
    asked = []

    def custom(manager, metrics):
        asked.append((manager.iters, dict(metrics)))
        return case['stop_at'] is not None and manager.iters >= case['stop_at']

    def callback(data, learner):
        return {'value': case['values'][data.labeled_size - 1]}
    criteria = [custom, metric_reached_threshold('value', case['threshold']), max_iter_reached(case['limit'])]
    callbacks, before = [callback], list(criteria)
    if case['form']:
        criteria = tuple(criteria)
    explorer = PoolBasedExploration(callback=callbacks, callback_skip=case['skip'], convergence_criteria=criteria)
    iters = [dict(m) for m in next(iter(explorer.run(rows_dataset(n, 2, 1), LabeledSet(np.arange(n) % 2), RecordingLearner())))]
    expected = 0
    for i in range(1, n + 1):
        expected = i
        limit = i == n or i > case['limit'] or (case['stop_at'] is not None and i >= case['stop_at'])
        if limit or ((i - 1) % case['skip'] == 0 and case['values'][i - 1] >= case['threshold']):
            break
    ctx.eq(len(iters), expected, 'number of iterations')
    ctx.require(list(criteria) == before and callbacks == [callback], 'the lists of criteria and callbacks given by the caller were changed')
    for it, metrics in asked:
        if metrics and it > 0 and 'iter_time' in metrics:
            ctx.eq(metrics.get('labeled_indexes'), iters[it - 1]['labeled_indexes'], 'metrics given to the criterion')
    ctx.require({it for it, _ in asked} >= set(range(1, expected)), 'the criterion was not evaluated after every iteration')
    ctx.nontrivial(3 <= expected < n)


@check.sub(st.fixed_dictionaries({'limit': st.sampled_from([0, 1, 3, float('inf'), float('inf'), -1, 2.5, None]), 'n': st.integers(1, 8), 'inferred': st.lists(st.integers(0, 7), max_size=8), 'seed': gen.seeds()}), quick=200)
def exported_criteria(case, ctx):
    """ max_iter_reached and all_points_are_labeled on a manager driven by hand; points which are inferred are still unlabeled. """
    from aideme.utils.convergence import all_points_are_labeled
    limit, n = case['limit'], case['n']
    if limit in (-1, 2.5, None):
        ctx.raises(ValueError, lambda: max_iter_reached(limit), 'limit {}'.format(limit))
        return
    criterion = max_iter_reached(limit)
    data = PartitionedDataset(rows_dataset(n, 2, 1))
    manager = ExplorationManager(data, RecordingLearner())
    order = gen.rs(case['seed']).permutation(n).tolist()
    for it, i in enumerate(order):
        ctx.eq(bool(criterion(manager, {})), it > limit, 'limit {} after {} iterations'.format(limit, it))
        ctx.require(not all_points_are_labeled(manager, {}), 'all points labeled? {} of {}', it, n)
        ctx.require(not manager.converged(), 'converged after {} of {} points', it, n)
        if it < len(case['inferred']):
            free = [int(v) for v in data.unknown.index]
            if free:
                data.move_to_inferred([free[case['inferred'][it] % len(free)]])
                ctx.require(not all_points_are_labeled(manager, {}) and not manager.converged(), 'an inferred point is taken for a labeled one')
        manager.update(LabeledSet([it % 2], index=[i]))
    ctx.require(all_points_are_labeled(manager, {}) and manager.converged(), 'everything is labeled')
    ctx.nontrivial(case['inferred'] and n > 2)


@check.sub(st.fixed_dictionaries({'n': st.integers(1, 10), 'ops': st.lists(st.tuples(st.sampled_from(['next', 'update', 'update', 'update', 'clear']), st.lists(st.integers(0, 100), min_size=1, max_size=3), gen.bits(3)), max_size=15),
                                  'sampler': st.booleans()}), quick=800)
def manager_protocol(case, ctx):
    """ The manager driven by hand, with whatever labels: phase, iteration count, trainings, and what is offered next. """
    n = case['n']
    X = rows_dataset(n, 2, 3)
    learner = RecordingLearner()
    sampler = (lambda data: [int(data.unlabeled.index.max())]) if case['sampler'] else None
    given = [lambda manager, metrics: False], [lambda data, learner: {}]
    before = list(given[0]), list(given[1])
    manager = ExplorationManager(PartitionedDataset(X), learner, initial_sampler=sampler, callback=given[1], convergence_criteria=given[0])
    ctx.eq(given, before, 'the criteria and callbacks given by the caller')
    labels, iters, fits = {}, 0, 0
    for kind, picks, y in case['ops']:
        free = [i for i in range(n) if i not in labels]
        if kind == 'clear':
            manager.clear()
            labels, iters, fits = {}, 0, 0
        elif kind == 'update' and free:
            batch = list(dict.fromkeys(free[p % len(free)] for p in picks))
            manager.update(LabeledSet(y[:len(batch)], index=batch))
            labels.update(zip(batch, y))
            iters += 1
            if sampler is None or len(set(labels.values())) == 2:
                fits += 1
        free = [i for i in range(n) if i not in labels]
        exploring = sampler is None or len(set(labels.values())) == 2
        ctx.eq(manager.is_exploration_phase, exploring, 'is_exploration_phase')
        ctx.eq(manager.is_initial_sampling_phase, not exploring, 'is_initial_sampling_phase')
        ctx.eq(manager.phase.value, 'exploration' if exploring else 'initial_sampling', 'phase')
        ctx.eq(manager.iters, iters, 'iters')
        ctx.eq(len(learner.fits), fits, 'trainings')
        ctx.eq(bool(manager.converged()), not free, 'converged')
        nxt = manager.get_next_to_label()
        if not free:
            ctx.require(nxt is None, 'points to label, but all of them are labeled')
        else:
            ids = [int(i) for i in nxt.index]
            ctx.require(ids and set(ids) <= set(free), 'next points {} are not unlabeled', ids)
            if not exploring:
                ctx.eq(ids, [max(free)], 'points of the initial sampler')
            for i, row in zip(ids, nxt.data):
                ctx.arr_eq(row, X[i], 'row of the next point')
        pred = manager.compute_user_labels_prediction()
        got = {int(i): int(v) for i, v in zip(pred.index, pred.labels)}
        ctx.eq(got, {i: labels[i] if i in labels else int(v) for i, v in enumerate(learner.predict(X))}, 'predicted user labels')
    ctx.nontrivial(iters >= 2 and case['sampler'])
