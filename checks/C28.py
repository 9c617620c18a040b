import warnings

import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.factorization.optimization import BFGS, Adam, FISTA, GradientDescent, NoisyGradientDescent, ProximalGradientDescent
from aideme.active_learning.factorization.penalty import L1Penalty, L2Penalty, L2SqrtPenalty, SparseGroupLassoPenalty
from aideme.active_learning.factorization.step_size_scheduler import ExponentialDecayScheduler, PowerDecayScheduler

check = core.Check('C28', rule='random convex functions (quadratics, and smooth non-quadratic ones), starting points, step sizes and schedules, tolerances and iteration limits; the iterates given to the callback are '
                   'compared with an independent implementation of the published update rules; non-trivial: at least three iterations',
                   assumptions=['deterministic functions', 'step sizes below the inverse of the curvature, except where only the update rule is compared', 'starting points are not stationary to rounding'])


CLASSES = {c.__name__: c for c in (BFGS, GradientDescent, Adam, FISTA, ProximalGradientDescent, NoisyGradientDescent)}


class Function:
    """ Convex: quadratic with curvature in [mu, L], plus optional logarithmic term. """
    def __init__(self, r, shape, smooth):
        n = int(np.prod(shape))
        Q, _ = np.linalg.qr(r.randn(n, n))
        self.A = (Q * np.exp(r.uniform(np.log(0.1), 0, size=n))) @ Q.T
        self.b, self.shape, self.smooth = r.randn(n), shape, smooth
        self.calls = 0

    def f(self, x):
        self.calls += 1
        v = np.asarray(x).ravel() - self.b
        return 0.5 * v @ self.A @ v + (np.logaddexp(0, v).sum() if self.smooth else 0.)

    def g(self, x):
        v = np.asarray(x).ravel() - self.b
        return (self.A @ v + (1 / (1 + np.exp(-v)) if self.smooth else 0.)).reshape(np.shape(x))


ALGOS = ['GD', 'GD', 'Adam', 'Adam', 'Prox', 'FISTA']


@st.composite
def cases(draw, algos=ALGOS):
    return {'algo': draw(st.sampled_from(algos)), 'shape': draw(st.tuples(st.integers(1, 3), st.integers(1, 4))), 'shape2': draw(st.one_of(st.none(), st.tuples(st.integers(1, 3), st.integers(2, 4)))), 'seed': draw(gen.seeds()), 'smooth': draw(st.booleans()),
            'step': draw(st.sampled_from([1e-3, 0.05, 0.3, 0.8])), 'adapt': draw(st.booleans()), 'every': draw(st.integers(1, 4)), 'power': draw(st.sampled_from([0.5, 1., 2., 3.])), 'decay': draw(st.sampled_from([0., 0.9, 0.5])),
            'gtol': draw(st.sampled_from([0., 1e-4, 1e-2, 1.])), 'rel_tol': draw(st.sampled_from([0., 0., 1e-3, 0.05])), 'max_iter': draw(st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(61, 200))), 'momentum': draw(st.sampled_from([0., 0.5, 0.9])),
            'beta1': draw(st.sampled_from([0.9, 0.5])), 'beta2': draw(st.sampled_from([0.999, 0.9])), 'eps': draw(st.sampled_from([1e-8, 1e-3])), 'pen': draw(st.sampled_from(['L1', 'L2', 'L2Sqrt', 'SGL'])),
            'lam': draw(st.sampled_from([1e-3, 0.1, 0.5])), 'bias': draw(st.booleans()), 'twice': draw(st.booleans()), 'verbose': draw(st.booleans())}


def penalty(case):
    return {'L1': L1Penalty, 'L2': L2Penalty, 'L2Sqrt': L2SqrtPenalty}[case['pen']](case['lam']) if case['pen'] != 'SGL' else SparseGroupLassoPenalty(case['lam'], 2 * case['lam'])


def build(case, callback, **extra):
    options = {'step_size': case['step'], 'adapt_step_size': case['adapt'], 'adapt_every': case['every'], 'power': case['power'], 'exp_decay': case['decay'], 'gtol': case['gtol'], 'rel_tol': case['rel_tol'],
               'max_iter': case['max_iter'], 'callback': callback}
    options.update(extra)
    if case['algo'] == 'GD':
        return GradientDescent(momentum=case['momentum'], **options)
    if case['algo'] == 'Adam':
        return Adam(beta1=case['beta1'], beta2=case['beta2'], epsilon=case['eps'], **options)
    opt = {'Prox': ProximalGradientDescent, 'FISTA': FISTA}[case['algo']](penalty_term=penalty(case), **options)
    opt.remove_bias_column = case['bias']
    return opt


def step_size(case, t):
    if not case['adapt']:
        return case['step']
    e = t // case['every']
    return case['step'] * case['decay'] ** e if case['decay'] > 0 else case['step'] / (1. + e) ** case['power']


def prox(case, z, step):
    """ Proximal operators in closed form (see C27), the bias being the last column. """
    z = z.copy()
    w = z[:, :-1] if case['bias'] else z
    lam = case['lam'] * step

    def shrink_rows(w, lam):
        n = np.sqrt((w ** 2).sum(axis=1, keepdims=True))
        return w * np.maximum(0, 1 - lam / np.where(n > 0, n, np.inf)) if w.shape[1] else w
    if case['pen'] in ('L1', 'SGL'):
        p = np.sign(w) * np.maximum(np.abs(w) - lam, 0)
        if case['pen'] == 'SGL':
            p = shrink_rows(p, 2 * lam)
    elif case['pen'] == 'L2':
        p = w / (1 + 2 * lam)
    else:
        p = shrink_rows(w, lam)
    w[...] = p
    return z


def iterates(case, fn, x0, seen):
    """ Sequence x_0, x_1, ... by the published rules, each one from the iterates seen before it (so that rounding errors do not add up). """
    x, v, m, s, theta, y, t = x0.copy(), 0, 0, 0, 1., x0.copy(), 0
    while True:
        yield x
        x = seen[t] if t < len(seen) else x
        a, g = step_size(case, t), fn.g(x)
        if case['algo'] == 'GD':  # exponential moving average of the gradients
            v = case['momentum'] * v + (1 - case['momentum']) * g
            x = x - a * v
        elif case['algo'] == 'Adam':  # Kingma and Ba, 2015
            m = case['beta1'] * m + (1 - case['beta1']) * g
            s = case['beta2'] * s + (1 - case['beta2']) * g ** 2
            x = x - a * (m / (1 - case['beta1'] ** (t + 1))) / (np.sqrt(s / (1 - case['beta2'] ** (t + 1))) + case['eps'])
        elif case['algo'] == 'Prox':
            x = prox(case, x - a * g, a)
        else:  # Beck and Teboulle, 2009
            new = prox(case, y - a * fn.g(y), a)
            new = seen[t + 1] if t + 1 < len(seen) and np.allclose(new, seen[t + 1], rtol=1e-7, atol=1e-9) else new
            theta_new = (1 + (1 + 4 * theta ** 2) ** 0.5) / 2
            y = new + (theta - 1) / theta_new * (new - x)
            x, theta = new, theta_new
        t += 1


@check.sub(cases(), quick=1200, thorough=60000, shards=3)
def update_rules(case, ctx):
    r = gen.rs(case['seed'])
    shape = tuple(case['shape'])
    fn = Function(r, shape, case['smooth'])
    x0 = 2 * r.randn(*shape)
    if case['algo'] in ('Prox', 'FISTA') and case['bias'] and shape[1] == 1:
        case['bias'] = False
    seen = []
    opt = build(case, lambda x: seen.append(np.array(x)), verbose=case['verbose'])
    for round_ in range(2 if case['twice'] else 1):
        if round_:  # the same optimizer again, from another place
            del seen[:]
            if case['shape2']:  # and for another problem
                shape = tuple(case['shape2'])
                fn = Function(r, shape, case['smooth'])
            x0 = 2 * r.randn(*shape)
        start = x0.copy()
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            res = opt.minimize(x0, fn.f, fn.g)
        ctx.eq(any(w.category is UserWarning for w in caught), case['verbose'] and not res.success, 'warning after a result with success {}, verbose {}'.format(res.success, case['verbose']))
        ctx.arr_eq(x0, start, 'starting point after the optimization')
        ref = []
        for x in iterates(case, fn, start, seen):
            ref.append(x)
            if len(ref) == len(seen):
                break
        ctx.require(1 <= len(seen) <= case['max_iter'] + 1, '{} iterates with max_iter {}', len(seen), case['max_iter'])
        for t, (a, b) in enumerate(zip(seen, ref)):
            ctx.close(a, b, 'iterate {} of {}'.format(t, case['algo']), rtol=1e-7, atol=1e-9)
        ctx.close(np.reshape(res.x, shape), seen[-1], 'result: the last iterate', rtol=0, atol=0)
        ctx.close(res.fun, fn.f(seen[-1]), 'value at the result', rtol=1e-12)
        ctx.eq(int(res.it), len(seen) - 1, 'number of iterations')
        # stopping: at the first iterate which meets a tolerance, or after max_iter iterations

        def margins(t):
            """ How far each criterion is met (> 1) or missed (< 1) at iterate t. """
            out = []
            if t > 0 and case['rel_tol'] > 0:
                out.append(case['rel_tol'] * np.linalg.norm(ref[t]) / max(np.linalg.norm(ref[t] - ref[t - 1]), 1e-300))
            if t < case['max_iter'] and case['gtol'] > 0 and case['algo'] in ('GD', 'Adam'):
                out.append(case['gtol'] / max(np.linalg.norm(fn.g(ref[t])), 1e-300))
            return max(out, default=0.)
        if case['algo'] != 'Prox':
            for t in range(len(seen) - 1):
                ctx.require(margins(t) < 1.001, 'iterate {} meets the tolerance, but the optimizer went on', t)
            if len(seen) <= case['max_iter']:
                ctx.require(margins(len(seen) - 1) > 0.999, 'the optimizer stopped at iterate {} of at most {}, where no tolerance is met', len(seen) - 1, case['max_iter'])
            if abs(margins(len(seen) - 1) - 1) > 1e-3:
                ctx.eq(bool(res.success), margins(len(seen) - 1) > 1, 'success')
        elif len(seen) <= case['max_iter'] and margins(len(seen) - 1) < 0.999:
            # stationary: a (small) proximal step does not move it by more than the tolerance allows
            moved = np.linalg.norm(prox(case, res.x - fn.g(res.x), 1.) - res.x)
            ctx.require(moved <= 4 * case['gtol'] * np.sqrt(res.x.size) + 1e-9, 'ProximalGradientDescent stopped at a point which is not stationary (moved by {}, gtol {})', moved, case['gtol'])
        ctx.nontrivial(len(seen) > 3)
        res.x += 1
        ctx.arr_eq(x0, start, 'starting point after the result was modified')
    ctx.label(case['algo'], 'converged' if res.success else 'max_iter')


@check.sub(cases(['GD', 'Adam', 'Prox', 'FISTA', 'BFGS', 'BFGS']), quick=120, thorough=5000, shards=3)
def minima(case, ctx):
    """ With enough iterations, everything converges to the minimum. """
    r = gen.rs(case['seed'])
    shape = tuple(case['shape'])
    if case['bias'] and shape[1] == 1:
        case['bias'] = False
    fn = Function(r, shape, case['smooth'])
    x0 = 2 * r.randn(*shape)
    case.update(adapt=False, step=0.6 if case['algo'] != 'Adam' else 0.02, rel_tol=0., gtol=1e-7)
    if case['algo'] == 'BFGS':
        res = BFGS(gtol=1e-6, max_iter=500).minimize(x0, fn.f, fn.g)
        ctx.require(np.linalg.norm(fn.g(res.x)) < 1e-3, 'gradient {} at the result of BFGS', fn.g(res.x))
        ctx.close(res.fun, fn.f(res.x), 'value at the result')
    else:
        opt = build(case, None, max_iter=4000 if case['algo'] == 'Adam' else 1500)
        res = opt.minimize(x0, fn.f, fn.g)
        if case['algo'] in ('GD', 'Adam'):
            ctx.require(np.linalg.norm(fn.g(res.x)) < 0.05 if case['algo'] == 'Adam' else np.linalg.norm(fn.g(res.x)) < 1e-4, 'gradient {} at the result of {}', fn.g(res.x), case['algo'])
        else:
            moved = np.linalg.norm(prox(case, res.x - 0.5 * fn.g(res.x), 0.5) - res.x)
            ctx.require(moved < 1e-4, 'result {} of {}: a proximal step still moves it by {}', res.x, case['algo'], moved)
    ctx.nontrivial()
    ctx.label(case['algo'])


@check.sub(st.builds(lambda c, k: dict(c, curvature=k), cases(['GD', 'Noisy']), st.sampled_from([1., 1., 0.02, 30.])), quick=200, thorough=10000, shards=2)
def line_search_and_noise(case, ctx):
    r = gen.rs(case['seed'])
    shape = tuple(case['shape'])
    fn = Function(r, shape, case['smooth'])
    x0 = 2 * r.randn(*shape)
    seen = []
    n_iter = min(case['max_iter'], 12)
    if case['algo'] == 'Noisy':
        np.random.seed(case['seed'] % 2 ** 32)
        NoisyGradientDescent(step_size=case['step'], gtol=0, max_iter=n_iter, callback=lambda x: seen.append(np.array(x))).minimize(x0, fn.f, fn.g)
        noise = [(a - b) / case['step'] - fn.g(a) for a, b in zip(seen, seen[1:])]
        for t, v in enumerate(noise):
            ctx.close(np.linalg.norm(v), 1., 'norm of the noise added at iteration {}'.format(t), rtol=1e-6)
        if len(noise) > 1 and noise[0].size > 1:
            ctx.require(not np.allclose(noise[0], noise[1]), 'the same noise {} at every iteration', noise[0])
    else:
        fn.A *= case['curvature']
        GradientDescent(momentum=0., step_size=None, gtol=1e-5, max_iter=n_iter, callback=lambda x: seen.append(np.array(x))).minimize(x0, fn.f, fn.g)
        for t, (a, b) in enumerate(zip(seen, seen[1:])):
            g = fn.g(a)
            scale = max(np.linalg.norm(g), 1e-300)
            ctx.require(abs(float((fn.g(b) * g).sum())) <= 1e-3 * scale * (scale + 1e-3), 'iteration {}: the slope at the end of the line search is {}', t, float((fn.g(b) * g).sum()))
            ctx.require(fn.f(b) <= fn.f(a) + 1e-12 * (1 + abs(fn.f(a))), 'iteration {}: from {} up to {}', t, fn.f(a), fn.f(b))
    ctx.eq(len(seen) <= n_iter + 1, True, 'number of iterates within the limit')
    ctx.nontrivial(len(seen) > 2)
    ctx.label(case['algo'])


@check.sub(cases(['BFGS']), quick=150, thorough=5000)
def bfgs(case, ctx):
    """ The callback sees each iterate, the last one being the result; max_iter and the tolerance are respected. """
    r = gen.rs(case['seed'])
    shape = tuple(case['shape'])
    fn = Function(r, shape, case['smooth'])
    x0 = 2 * r.randn(*shape)
    start = x0.copy()
    seen = []
    res = BFGS(gtol=case['gtol'], max_iter=case['max_iter'] if case['bias'] else min(case['max_iter'], 4), callback=lambda x: seen.append(np.array(x).ravel())).minimize(x0, fn.f, fn.g)
    limit = case['max_iter'] if case['bias'] else min(case['max_iter'], 4)
    ctx.arr_eq(x0, start, 'starting point after the optimization')
    ctx.require(len(seen) <= limit, '{} iterates with max_iter {}', len(seen), limit)
    x = np.asarray(res.x).ravel()
    if seen:
        ctx.arr_eq(seen[-1], x, 'the iterate given to the callback last, versus the result')
    else:
        ctx.arr_eq(x, start.ravel(), 'result without any iteration')
    ctx.close(res.fun, fn.f(x), 'value at the result')
    ctx.require(res.fun <= fn.f(start) + 1e-12 * (1 + abs(fn.f(start))), 'from {} up to {}', fn.f(start), res.fun)
    if len(seen) < limit and res.success:
        ctx.require(np.abs(fn.g(x)).max() <= case['gtol'] * 1.001 + 1e-9, 'stopped before max_iter with the gradient {}', fn.g(x))
    g0 = np.abs(fn.g(start)).max()
    ctx.require(seen or g0 <= case['gtol'] + 1e-9 or not res.success, 'no iteration from a start with gradient {}', g0)
    ctx.nontrivial(len(seen) > 2)


@check.sub(st.fixed_dictionaries({'n': st.integers(4, 12), 'seed': gen.seeds(), 'max_iter': st.sampled_from([None, 1000, 2000]), 'limit': st.integers(20, 60)}), quick=60, thorough=3000)
def bfgs_long(case, ctx):
    """ In a curved valley it takes many iterations: as many as are allowed, and the minimum is reached if they suffice. """
    r, n = gen.rs(case['seed']), case['n']

    def f(x):
        x = np.ravel(x)
        return float((30 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2).sum())

    def g(x):
        v, out = np.ravel(x), np.zeros(n)
        out[:-1] = -120 * v[:-1] * (v[1:] - v[:-1] ** 2) - 2 * (1 - v[:-1])
        out[1:] += 60 * (v[1:] - v[:-1] ** 2)
        return out.reshape(np.shape(x))
    x0 = r.uniform(-1.5, 1.5, size=(1, n))
    seen = []
    res = BFGS(gtol=1e-3, max_iter=case['max_iter'], callback=lambda x: seen.append(np.array(x).ravel())).minimize(x0, f, g)
    ctx.require(np.abs(g(res.x)).max() < 1e-2, 'stopped after {} iterations of at most {}, with gradient {}', len(seen), case['max_iter'], g(res.x))
    again = []
    BFGS(gtol=1e-3, max_iter=case['limit'], callback=lambda x: again.append(np.array(x).ravel())).minimize(x0, f, g)
    ctx.eq(len(again), min(case['limit'], len(seen)), 'iterations with max_iter {}'.format(case['limit']))
    ctx.close(np.array(again), np.array(seen[:len(again)]), 'iterates with another max_iter', rtol=1e-6, atol=1e-9)
    ctx.nontrivial(len(seen) > case['limit'])


@check.sub(st.fixed_dictionaries({'what': st.sampled_from(['max_iter', 'gtol', 'rel_tol', 'batch_size', 'momentum', 'beta1', 'beta2', 'epsilon', 'step_size', 'power', 'decay', 'every']),
                                  'bad': st.sampled_from([-1, 0, 0.5, 1.5]), 'algo': st.sampled_from(sorted(CLASSES))}), quick=300)
def arguments(case, ctx):
    what, bad, algo = case['what'], case['bad'], CLASSES[case['algo']]
    if what in ('max_iter', 'batch_size'):
        if what == 'batch_size' and algo is BFGS:
            return
        call, good = (lambda: algo(**{what: bad})), False  # 0.5, 1.5: not integers; 0, -1: not positive
    elif what in ('gtol', 'rel_tol'):
        call, good = (lambda: algo(**{what: bad})), bad >= 0
    elif what == 'momentum':
        call, good = (lambda: GradientDescent(momentum=bad)), 0 <= bad <= 1
    elif what in ('beta1', 'beta2'):
        call, good = (lambda: Adam(**{what: bad})), 0 <= bad <= 1
    elif what == 'epsilon':
        call, good = (lambda: Adam(epsilon=bad)), bad > 0
    elif what == 'step_size':
        if algo is BFGS:
            return
        call, good = (lambda: algo(step_size=bad)), bad > 0
    elif what == 'power':
        call, good = (lambda: PowerDecayScheduler(step_size=1., power=bad)), bad > 0
    elif what == 'decay':
        call, good = (lambda: ExponentialDecayScheduler(step_size=1., decay=bad)), bad > 0
    else:
        call, good = (lambda: PowerDecayScheduler(step_size=1., power=1., adapt_every=bad)), False
    if good and not (what == 'momentum' and bad in (0, 1)) and not (what.startswith('beta') and bad in (0, 1)):
        call()
    elif not good:
        ctx.raises(ValueError, call, '{} = {}'.format(what, bad))
        ctx.nontrivial()
