"""
Runner for generated-input checks.

A check module (checks/<ID>.py) registers sub-checks with @sub(strategy, quick=N, thorough=M): the strategy generates
plain JSON values (dicts, lists, numbers, strings), the function receives (case, ctx) and raises Violation (through
ctx.require & co.) when the property is broken. Everything a case needs is in its JSON value, so the shrunk failing case
saved as replay file is re-executed by 'run.sh replay FILE' without Hypothesis.
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_CPU_LIMIT = 60  # seconds of CPU time: cases take well under a second (the slowest ones a few seconds)


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):  # BaseException: must not be swallowed by 'except Exception' in the code under test
    pass


class Sub:
    def __init__(self, name, strategy, func, quick, thorough, rule, shards, cpu_limit):
        self.name, self.strategy, self.func = name, strategy, func
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards
        self.cpu_limit = cpu_limit


class Check:
    """ Collects the sub-checks of one property. """
    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.subs, self.known = {}, {}

    def sub(self, strategy, quick=200, thorough=None, rule='', shards=1, cpu_limit=CASE_CPU_LIMIT):
        def deco(func):
            self.subs[func.__name__] = Sub(func.__name__, strategy, func, quick, thorough or quick * 15, rule, shards, cpu_limit)
            return func
        return deco

    def known_finding(self, kid):
        """ func(ctx) must raise Violation while the recorded defect is there, and return when it is not. """
        def deco(func):
            self.known[kid] = func
            return func
        return deco


class Ctx:
    """ What a sub-check uses to classify cases and report failures. """
    def __init__(self):
        self.labels, self.is_nontrivial, self.skipped = {}, False, False

    def label(self, *names):
        for name in names:
            self.labels[str(name)] = 1

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def require(self, cond, msg, *args):
        if not cond:
            raise Violation(msg.format(*args) if args else msg)

    def eq(self, got, expected, what):
        if got != expected:
            raise Violation("{}: got {!r}, expected {!r}".format(what, got, expected))

    def arr_eq(self, got, expected, what):
        got, expected = np.asarray(got), np.asarray(expected)
        if got.shape != expected.shape:
            raise Violation("{}: shape {}, expected {}".format(what, got.shape, expected.shape))
        if not np.array_equal(got, expected):
            raise Violation("{}: got {}, expected {}".format(what, short(got.tolist()), short(expected.tolist())))

    def close(self, got, expected, what, rtol=1e-9, atol=1e-12):
        got, expected = np.asarray(got, dtype=float), np.asarray(expected, dtype=float)
        if got.shape != expected.shape:
            raise Violation("{}: shape {}, expected {}".format(what, got.shape, expected.shape))
        if not np.allclose(got, expected, rtol=rtol, atol=atol, equal_nan=False):
            raise Violation("{}: got {}, expected {}".format(what, short(got.tolist()), short(expected.tolist())))

    def raises(self, exc, func, what):
        try:
            func()
        except exc:
            return
        raise Violation("{}: expected {}, but it was accepted".format(what, getattr(exc, '__name__', exc)))


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def canonical(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    raise TypeError(repr(o))


def run_case(sub, case):
    """ Runs a single case; returns its Ctx, raises Violation if the property does not hold on it. """
    np.random.seed(derive_seed(sub.name, 'case') % 2 ** 32)
    random.seed(12345)
    ctx = Ctx()

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu_limit)
    try:
        with np.errstate(all='ignore'):
            sub.func(case, ctx)
    except Violation:
        raise
    except HarnessError:
        raise
    except CaseTimeout:
        raise Violation("no answer after {} s of CPU time".format(sub.cpu_limit))
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        own = [f for f in frames if f.startswith(REPO + '/') or f.startswith(VERIF + '/')]
        if own and own[-1].startswith(os.path.join(VERIF, 'lib') + '/'):
            raise HarnessError(''.join(traceback.format_exception(e)))
        where = 'in the code under test' if own and own[-1].startswith(REPO + '/') else 'while using its result'
        last = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + '/') or f.filename.startswith(VERIF + '/')]
        loc = '{}:{}'.format(last[-1].filename, last[-1].lineno) if last else '?'
        raise Violation("unexpected {} {} ({}): {}".format(type(e).__name__, where, loc, short(str(e)))) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return ctx


def run_sub(sub, prop, tier, seed, shard, budget_s, trace_file=None):
    """ Searches for a failing case; returns a JSON-able result. """
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 25
    try:
        import hypothesis.internal.conjecture.engine as _e
        _e.MAX_SHRINKING_SECONDS = 25
    except Exception:
        pass

    res = {'sub': sub.name, 'shard': shard, 'evaluations': 0, 'skipped_over_budget': 0, 'labels': {}, 'samples': [], 'failure': None,
           'harness_error': None}
    nontrivial = set()
    failures = []
    t0 = time.monotonic()
    state = {'stop': False}
    n = sub.quick if tier == 'quick' else sub.thorough

    def body(case):
        if state['stop'] or (not failures and time.monotonic() - t0 > budget_s):
            res['skipped_over_budget'] += 1
            return
        key = canonical(case)
        case = json.loads(key)  # what is run is exactly what a replay file would hold
        if trace_file:
            with open(trace_file, 'w') as f:
                f.write(key)
        try:
            ctx = run_case(sub, case)
        except Violation as e:
            failures.append((len(key), key, str(e)))
            if 'no answer after' in str(e):
                state['stop'] = True  # too slow to be shrunk
            raise
        if failures:
            return  # shrinking: not counted
        res['evaluations'] += 1
        for name in ctx.labels:
            res['labels'][name] = res['labels'].get(name, 0) + 1
        if ctx.is_nontrivial:
            h = hashlib.sha1(key.encode()).digest()[:8]
            if h not in nontrivial:
                nontrivial.add(h)
                if len(res['samples']) < 3 and (len(nontrivial) % 7 == 1):
                    res['samples'].append(short(key, 600))

    test = given(sub.strategy)(body)
    test = settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False)(test)
    test = hypothesis.seed(derive_seed(seed, prop, sub.name, shard))(test)
    try:
        test()
    except HarnessError as e:
        res['harness_error'] = str(e)
    except Violation:
        pass
    except BaseException as e:
        if not failures:
            res['harness_error'] = ''.join(traceback.format_exception(e))[-4000:]

    res['nontrivial'] = [h.hex() for h in nontrivial]
    if failures:
        failures.sort(key=lambda f: f[0])
        _, key, msg = failures[0]
        res['failure'] = {'case': json.loads(key), 'message': msg, 'failing_executions': len(failures)}
    res['wall_s'] = time.monotonic() - t0
    return res


_registry = {}


def load_check(prop):
    if prop not in _registry:
        import importlib.util
        path = os.path.join(VERIF, 'checks', prop + '.py')
        spec = importlib.util.spec_from_file_location('checks_' + prop, path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _registry[prop] = mod.check
    return _registry[prop]
