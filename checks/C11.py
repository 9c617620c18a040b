import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.utils import metric_logger

check = core.Check('C11', rule='random sequences of log / time / flush / read operations against a dictionary; non-trivial: a key was logged at least twice in between flushes')


@st.composite
def operation(draw):
    kind = draw(st.sampled_from(['log', 'log', 'log', 'logs', 'time', 'flush', 'get', 'bad']))
    key = draw(st.sampled_from(['a', 'b', 'c']))
    return {'kind': kind, 'key': key, 'value': draw(st.integers(-5, 5)), 'mode': draw(st.sampled_from(['overwrite', 'sum', 'append', 'SUM', 'Append', 'OVERWRITE', None])),
            'many': draw(st.dictionaries(st.sampled_from(['a', 'b', 'd']), st.integers(-5, 5), max_size=3)), 'raises': draw(st.booleans())}


@check.sub(st.tuples(st.lists(operation(), max_size=25), st.one_of(st.none(), st.tuples(st.sampled_from(['a', 'b']), st.sampled_from(['sum', 'append'])))), quick=600, shards=2)
def history(case, ctx):
    case, focus = case
    if focus:  # most values under the same key, in the same way
        case = [{**o, 'key': focus[0], 'mode': focus[1]} if o['kind'] == 'log' else o for o in case]
    metric_logger.flush()
    model, times, handed_out, twice = {}, set(), [], False

    def store(key, value, mode):
        nonlocal twice
        mode = (mode or 'overwrite').lower()
        kwargs = {'on_duplicates': o['mode']} if o['mode'] else {}
        cur = model.get(key)
        if mode == 'append' and key in model and not isinstance(cur, list):
            return None  # mixing strategies under one key is the caller's mistake
        if mode == 'sum' and isinstance(cur, list):
            return None
        twice = twice or key in model
        model[key] = value if mode == 'overwrite' else (cur or 0) + value if mode == 'sum' else (cur or []) + [value]
        return kwargs

    for o in case:
        if o['kind'] == 'log':
            kwargs = store(o['key'], o['value'], o['mode'])
            if kwargs is not None:
                metric_logger.log_metric(o['key'], o['value'], **kwargs)
        elif o['kind'] == 'logs':
            ok = {}
            for k, v in o['many'].items():
                kwargs = store(k, v, o['mode'])
                if kwargs is not None:
                    ok[k] = v
            metric_logger.log_metrics(ok, **({'on_duplicates': o['mode']} if o['mode'] else {}))
        elif o['kind'] == 'time':
            mode = o['mode'] or 'overwrite'
            @metric_logger.log_execution_time('t_' + mode.lower(), on_duplicates=mode)
            def func(x, y=0):
                """ doc """
                if o['raises']:
                    raise KeyError(x)
                return x + y
            ctx.eq((func.__name__, func.__doc__), ('func', ' doc '), 'name and doc of the decorated function')
            if o['raises']:
                ctx.raises(KeyError, lambda: func(1), 'exception of the decorated function')
            else:
                ctx.eq(func(o['value'], y=2), o['value'] + 2, 'value of the decorated function')
                t = metric_logger.get_metrics()['t_' + mode.lower()]
                t = t if isinstance(t, list) else [t]
                ctx.require(all(0 <= v < 60 for v in t), 'execution times {}', t)
                times.add('t_' + mode.lower())
                if mode.lower() == 'append':
                    model['n_times'] = model.get('n_times', 0) + 1
                    ctx.eq(len(t), model['n_times'], 'number of execution times')
        elif o['kind'] == 'flush':
            handed_out.append((metric_logger.get_metrics(), dict(metric_logger.get_metrics())))
            metric_logger.flush()
            model, times = {}, set()
        elif o['kind'] == 'bad':
            ctx.raises(ValueError, lambda: metric_logger.log_metric('zzz', 1, on_duplicates='other'), 'unknown strategy')
        got = metric_logger.get_metrics()
        ctx.eq({k: v for k, v in got.items() if k not in times}, {k: v for k, v in model.items() if k != 'n_times'}, 'metrics')
        ctx.require(times <= set(got), 'execution time is missing')
    for d, snapshot in handed_out:
        ctx.eq(d, snapshot, 'metrics read before a flush')
    ctx.nontrivial(twice)
    metric_logger.flush()


@check.sub(st.tuples(st.sampled_from(['overwrite', 'sum', 'append']), st.sampled_from(['int', 'str', 'list', 'tuple', 'dict', 'array', 'none', 'bool', 'set']), st.lists(st.integers(-3, 3), min_size=1, max_size=5)), quick=1000)
def values_of_any_kind(case, ctx):
    """ Any value can be logged; summing or appending does not touch the values which were given. """
    mode, kind, numbers = case
    make = {'int': int, 'str': str, 'list': lambda v: [v] * abs(v), 'tuple': lambda v: (v,) * abs(v), 'dict': lambda v: {v: v}, 'array': lambda v: np.array([v, 1]), 'none': lambda v: None, 'bool': lambda v: v > 0, 'set': lambda v: {v}}[kind]
    if mode == 'sum' and kind in ('dict', 'none', 'set'):
        return
    metric_logger.flush()
    values, expected = [make(v) for v in numbers], None
    for i, v in enumerate(values):
        metric_logger.log_metric('k', v, on_duplicates=mode)
        expected = v if mode == 'overwrite' or mode == 'sum' and i == 0 else expected + v if mode == 'sum' else values[:i + 1]
        got = metric_logger.get_metrics()['k']
        if mode == 'append':
            ctx.require(isinstance(got, list) and len(got) == len(expected), 'appended {} values, got {}', i + 1, got)
            ctx.require(all(np.array_equal(a, b) for a, b in zip(got, expected)), 'appended {}, got {}', expected, got)
        else:
            ctx.require(type(got) is type(expected) and np.array_equal(got, expected), '{} of {} is {}', mode, values[:i + 1], got)
    ctx.require(all(np.array_equal(v, make(x)) for v, x in zip(values, numbers)), 'the logged values were changed: {}', values)
    metric_logger.flush()
    ctx.nontrivial(len(numbers) > 1)
    ctx.label(mode, kind)


@check.sub(st.fixed_dictionaries({'args': st.lists(st.sampled_from([None, 0, 1, '', 'x', (), False]), max_size=3), 'kwargs': st.dictionaries(st.sampled_from(['key', 'func', 'on_duplicates', 'value', 'self', 't0']), st.sampled_from([None, 0, '', False, 5]), max_size=4),
                                  'mode': st.sampled_from(['overwrite', 'sum', 'append']), 'value': st.sampled_from([None, 0, 'v', (), 3])}), quick=200)
def arguments_pass_through(case, ctx):
    """ The decorated function gets its arguments as they were given, and its result comes back as it is, also in methods. """
    metric_logger.flush()
    seen = []

    @metric_logger.log_execution_time('t', case['mode'])
    def func(*args, **kwargs):
        seen.append((args, kwargs))
        return case['value']

    class Owner:
        @metric_logger.log_execution_time('t', on_duplicates=case['mode'])
        def method(self, *args):
            seen.append((args, {}))
            return self
    got = func(*case['args'], **case['kwargs'])
    ctx.require(got is case['value'], 'result {!r} instead of {!r}', got, case['value'])
    owner = Owner()
    ctx.require(owner.method(*case['args']) is owner, 'result of a method')
    ctx.eq(seen, [(tuple(case['args']), case['kwargs']), (tuple(case['args']), {})], 'arguments')
    metric_logger.flush()
    ctx.eq(metric_logger.get_metrics(), {}, 'metrics after a flush')
    ctx.nontrivial(case['args'] and case['kwargs'])


@check.sub(st.fixed_dictionaries({'values': st.lists(st.sampled_from(['a', 'bc', '']), min_size=1, max_size=4), 'kind': st.sampled_from(['str', 'list', 'tuple', 'float']), 'key': st.sampled_from(['a', 'b']), 'junk': st.integers(0, 3)}), quick=100)
def sums(case, ctx):
    """ The sum of the values logged: whatever can be added. """
    make = {'str': str, 'list': list, 'tuple': tuple, 'float': lambda s: len(s) + 0.5}[case['kind']]
    metric_logger.flush()
    for _ in range(case['junk']):
        metric_logger.log_metric(case['key'], 1, 'append')
    metric_logger.flush()
    values = [make(v) for v in case['values']]
    total = values[0]
    for i, v in enumerate(values):
        metric_logger.log_metric(case['key'], v, on_duplicates='sum')
        total = total + v if i else v
        ctx.eq(metric_logger.get_metrics(), {case['key']: total}, 'metrics')
    metric_logger.flush()
    ctx.nontrivial(len(values) > 2)


@check.sub(st.lists(st.sampled_from(['ok', 'fail']), min_size=1, max_size=6), quick=100)
def time_adds_up(case, ctx):
    """ Nested and repeated executions: the total is at least what was spent inside, and at most what passed. """
    from time import perf_counter, sleep
    metric_logger.flush()

    @metric_logger.log_execution_time('total', on_duplicates='sum')
    def work(fail):
        sleep(0.001)
        if fail:
            raise ValueError()

    t0, ok = perf_counter(), 0
    for c in case:
        try:
            work(c == 'fail')
            ok += 1
        except ValueError:
            pass
    passed = perf_counter() - t0
    total = metric_logger.get_metrics().get('total', 0)
    ctx.require(0.001 * ok <= total <= passed, 'total {} for {} executions in {} s', total, ok, passed)
    ctx.nontrivial(ok > 1)
    metric_logger.flush()


@check.sub(st.lists(st.tuples(st.sampled_from(['a', 'b']), st.sampled_from(['overwrite', 'sum', 'append', 'flush']),
                              st.lists(st.integers(-5, 5), min_size=3, max_size=3)), max_size=12), quick=300)
def values_are_not_modified(case, ctx):
    """ Arrays as values: they add up, and those given by the caller stay as they were. """
    metric_logger.flush()
    model, modes, given, several = {}, {}, [], False

    for key, mode, value in case:
        if mode == 'flush':
            metric_logger.flush()
            model, modes = {}, {}
            continue
        if (mode == 'append') != (modes.get(key, mode) == 'append'):
            continue  # mixing strategies under one key is the caller's mistake
        arr = np.array(value, dtype=float)
        given.append((arr, arr.copy()))
        several = several or (mode == 'sum' and key in model)
        modes[key] = mode
        metric_logger.log_metric(key, arr, mode)
        model[key] = model.get(key, 0) + arr.copy() if mode == 'sum' else model.get(key, []) + [arr.copy()] if mode == 'append' else arr.copy()
        ctx.eq(set(metric_logger.get_metrics()), set(model), 'keys')
        for k, v in model.items():
            got = metric_logger.get_metrics()[k]
            ctx.eq(len(got), len(v), 'number of values')
            for a, b in zip(got, v):
                ctx.arr_eq(np.asarray(a), np.asarray(b), 'value of ' + k)
    for arr, copy in given:
        ctx.arr_eq(arr, copy, 'array given by the caller')
    ctx.nontrivial(several)
    metric_logger.flush()
