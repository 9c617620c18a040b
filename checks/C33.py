import builtins
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme import max_iter_reached, metric_reached_threshold
from aideme.explore.command_line_explore import CommandLineExploration
from aideme.initial_sampling import random_sampler
from aideme.utils import metric_logger
from common import RecordingLearner, RowClassifier, rows_dataset

check = core.Check('C33', rule='random scripts of answers (valid, malformed, refusals) typed into a command line exploration; non-trivial: at least two batches were labeled and an invalid answer was given')


@st.composite
def answer(draw):
    kind = draw(st.sampled_from(['ok', 'ok', 'ok', 'short', 'long', 'char', 'glued', 'empty', 'number']))
    return {'kind': kind, 'bits': draw(gen.bits(4)), 'pad': draw(st.sampled_from([' ', '  ', ' '])), 'lead': draw(st.booleans())}


class Out(Exception):
    pass


@check.sub(st.fixed_dictionaries({'n': st.integers(1, 10), 'batch': st.integers(1, 3), 'answers': st.lists(answer(), min_size=1, max_size=25), 'will': st.lists(st.sampled_from(['y', 'y', 'y', 'y', 'y', '', 'Y', 'no', 'yes', 'n']), min_size=0, max_size=12),
                                  'sampler': st.booleans(), 'skip': st.integers(1, 3), 'limit': st.one_of(st.none(), st.integers(0, 6)), 'stop_at': st.one_of(st.none(), st.none(), st.integers(1, 6)), 'metric_at': st.one_of(st.none(), st.none(), st.integers(1, 10)), 'stale': st.booleans(), 'sub': st.one_of(st.none(), st.integers(1, 4)), 'rng': gen.seeds()}), quick=1000, shards=2)
def dialog(case, ctx):
    n = case['n']
    X = rows_dataset(n, 2, 4)
    X0 = X.copy()
    fits, ranked = [], []

    class Recorder(RecordingLearner):
        def fit(self, X, y):
            super().fit(X, y)
            fits.append({int(row[0]): int(v) for row, v in zip(X, y)})

        def rank(self, X):
            ranked.append(len(X))
            return super().rank(X)
    learner = Recorder(case['batch'])
    answers, will = list(case['answers']), list(case['will'])
    state = {'phase': 'will', 'stop': False, 'invalid': 0}
    labels, batches = {}, []

    def fake_input(prompt=''):
        if prompt.startswith('Continue'):
            ctx.require(not state['stop'], 'asked again after "n"')
            ctx.eq(state['phase'], 'will', 'order of the questions')
            val = will.pop(0) if will else 'y'
            if val == 'y':
                state['phase'] = 'label'
            if val == 'n':
                state['stop'] = True
            return val
        ctx.eq(state['phase'], 'label', 'order of the questions')
        pts = eval(prompt[prompt.index('['):])  # the rows are shown to the user
        ids = [int(p[0]) for p in pts]
        for p in pts:
            ctx.arr_eq(np.array(p), X0[int(p[0])], 'row shown to the user')
        ctx.require(not set(ids) & set(labels) and len(set(ids)) == len(ids), 'points {} were asked again', ids)
        a = answers.pop(0) if answers else {'kind': 'ok', 'bits': [1, 0, 1, 0], 'pad': ' ', 'lead': False}
        y = a['bits'][:len(ids)]
        vals = [str(v) for v in y]
        text = a['pad'].join(vals)
        if a['kind'] == 'short':
            text = a['pad'].join(vals[:-1])
        elif a['kind'] == 'long':
            text = a['pad'].join(vals + ['1'])
        elif a['kind'] == 'char':
            text = a['pad'].join(vals[:-1] + ['2' if a['lead'] else '-1'])
        elif a['kind'] == 'number':
            text = a['pad'].join(vals[:-1] + ['1' + vals[-1]])
        elif a['kind'] == 'glued':
            text = ''.join(vals) if len(vals) > 1 else vals[0] * 2
        elif a['kind'] == 'empty':
            text = '  '
        if a['kind'] == 'ok':
            labels.update(zip(ids, y))
            batches.append(ids)
            state['phase'] = 'will'
            if a['lead']:
                text = ' ' + text + ' '
        else:
            state['invalid'] += 1
        return text

    np.random.seed(case['rng'] % 2 ** 32)
    counts = []

    def callback(data, lrn):
        ctx.require(lrn is learner, 'learner given to the callback')
        counts.append(data.labeled_size)
        return {'size': data.labeled_size}
    criteria = [] if case['limit'] is None else [max_iter_reached(case['limit'])]
    if case['stop_at'] is not None:
        criteria.append(lambda manager, metrics: manager.iters >= case['stop_at'])
    def fresh(manager, metrics):  # what the criteria see was computed after the last answer
        ctx.eq(metrics.get('size', len(labels)), len(labels), 'metric of the last callback given to the convergence criteria')
        return False
    criteria.insert(0, fresh)
    if case['metric_at'] is not None:
        criteria.append(metric_reached_threshold('size', case['metric_at']))
    metric_logger.flush()
    if case['stale']:  # metrics of something which was run before
        metric_logger.log_metrics({'size': 1000})
    explorer = CommandLineExploration(random_sampler(case['batch']) if case['sampler'] else None, case['sub'], callback=callback, callback_skip=case['skip'],
                                      convergence_criteria=criteria)
    old = builtins.input
    builtins.input = fake_input
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            explorer.run(X, learner)
    finally:
        builtins.input = old
    it = len(batches)
    if state['stop']:
        ctx.require(len(labels) < n or it == 0, 'the exploration went on after everything was labeled')
    else:
        ctx.require(len(labels) == n or (case['limit'] is not None and it == case['limit'] + 1) or (case['stop_at'] is not None and it >= case['stop_at']) or (case['metric_at'] is not None and counts and counts[-1] >= case['metric_at']), 'stopped after {} labels out of {}, {} iterations', len(labels), n, it)
    if case['limit'] is not None:
        ctx.require(it <= case['limit'] + 1, '{} iterations, limit {}', it, case['limit'])
    if case['stop_at'] is not None:
        ctx.require(it <= case['stop_at'], '{} iterations, although a criterion holds from iteration {} on', it, case['stop_at'])
    sizes = np.cumsum([len(b) for b in batches]).tolist()
    due = [s for i, s in enumerate(sizes) if i % case['skip'] == 0 or s == n or (case['limit'] is not None and i + 1 > case['limit']) or (case['stop_at'] is not None and i + 1 >= case['stop_at'])]
    ctx.eq(counts, due, 'numbers of labeled points when the callbacks were run')
    if case['metric_at'] is not None:
        ctx.require(all(v < case['metric_at'] for v in counts[:-1]) and (not counts or counts[-1] < case['metric_at'] or counts[-1] == len(labels)), 'the exploration went on after a metric reached its threshold {}: {}', case['metric_at'], counts)
    ctx.require(all(v <= (case['sub'] or n) for v in ranked), 'the learner was offered {} points, subsampling {}', ranked, case['sub'])
    # what the learner was trained with is what was typed
    acc, exp = {}, []
    for ids in batches:
        acc.update({i: labels[i] for i in ids})
        if not case['sampler'] or set(acc.values()) == {0, 1}:
            exp.append(dict(acc))
    ctx.eq(fits, exp, 'training sets')
    ctx.eq(sorted(int(v) for v in X[:, 0]), list(range(n)), 'rows after the exploration')
    ctx.nontrivial(len(batches) >= 2 and state['invalid'] > 0)
    ctx.label('refused' if state['stop'] else 'complete' if len(labels) == n else 'limit')
