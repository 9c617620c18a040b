import numpy as np
import scipy.optimize
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.utils import metric_logger
from aideme.active_learning.version_space.hit_and_run.ellipsoid import Ellipsoid
from aideme.active_learning.version_space.hit_and_run.polyhedral_cone import BoundedPolyhedralCone
from aideme.active_learning.version_space.hit_and_run.rounding import RoundingAlgorithm, SphericalGradientDescent, alpha_on_sphere

check = core.Check('C19', rule='random cones and sequences of cuts; a cut is checked with points of the old ellipsoid, with the Loewner-John formulas and with the factorization; a rounding with points of the version space; '
                   'non-trivial: at least two deep cuts were made / the ellipsoid was cut at least twice / the line hits a face',
                   assumptions=['dimension at least 2 (the one-dimensional ellipsoid is a known finding)', 'version spaces contain a ball of radius about 0.01'])


def sphere(r, n, dim):
    u = r.randn(n, dim)
    return u / np.linalg.norm(u, axis=1).reshape(-1, 1)


def matrix(elp):
    return elp.L @ np.diag(elp.D) @ elp.L.T


def points_of(elp, r, n=200):
    """ Points of the ellipsoid, half of them on its boundary. """
    u = sphere(r, n, elp.dim)
    u[: n // 2] *= (r.rand(n // 2, 1)) ** (1 / elp.dim)
    return elp.center + (u * np.sqrt(elp.D)) @ elp.L.T


def level(elp, Q):
    """ (x - z)^T P^-1 (x - z) """
    v = np.linalg.solve(elp.L, (Q - elp.center).T)
    return (v ** 2 / elp.D.reshape(-1, 1)).sum(axis=0)


@st.composite
def cut_sequences(draw):
    dim = draw(st.integers(2, 6))
    return {'dim': dim, 'scale': draw(st.booleans()), 'seed': draw(gen.seeds()), 'alphas': draw(st.lists(st.one_of(st.floats(-1.2, 0.9), st.sampled_from([0., -1 / dim, -0.999, 0.5, 1., 1.5])), min_size=1, max_size=8)),
            'axis': draw(st.lists(st.booleans(), min_size=8, max_size=8)), 'norm': draw(st.sampled_from([1., 1e-3, 50.]))}


@check.sub(cut_sequences(), quick=500, thorough=40000, shards=2)
def cuts(case, ctx):
    r, d = gen.rs(case['seed']), case['dim']
    elp = Ellipsoid(d, compute_scale_matrix=case['scale'])
    ctx.arr_eq(elp.center, np.zeros(d), 'initial center')
    ctx.arr_eq(matrix(elp), np.eye(d), 'initial matrix')
    deep = 0
    for alpha, axis in zip(case['alphas'], case['axis']):
        g = (np.eye(d)[r.randint(d)] if axis else sphere(r, 1, d)[0]) * case['norm'] * (0.5 + r.rand())
        P, z = matrix(elp), elp.center.copy()
        gamma = np.sqrt(g @ P @ g)
        bias = g.dot(z) - alpha * gamma  # alpha = (g z - b) / gamma
        before = points_of(elp, r)
        L0, D0 = elp.L.copy(), elp.D.copy()
        got = elp.compute_alpha_single(bias, g)
        ctx.close(got, alpha, 'signed distance of the cut', rtol=1e-6, atol=1e-7)
        ctx.close(elp.compute_alpha(np.array([g, -g])), [g.dot(z) / gamma, -g.dot(z) / gamma], 'signed distances of cuts through the origin', rtol=1e-6, atol=1e-7)
        if abs(alpha - 1) < 1e-6 or abs(alpha + 1 / d) < 1e-9:
            continue
        if alpha > 1:
            ctx.raises(RuntimeError, lambda: elp.cut(bias, g), 'cut leaving nothing of the ellipsoid')
            ctx.arr_eq(elp.center, z, 'center after a rejected cut')
            ctx.arr_eq(matrix(elp), P, 'matrix after a rejected cut')
            continue
        done = elp.cut(bias, g)
        if alpha < -1 / d:
            ctx.require(not done, 'a shallow cut was reported as done')
            ctx.arr_eq(elp.center, z, 'center after a shallow cut')
            ctx.arr_eq(np.c_[elp.L, elp.D], np.c_[L0, D0], 'factors after a shallow cut')
            continue
        ctx.require(done, 'the cut was not made, alpha = {}', alpha)
        deep += 1
        # minimum volume ellipsoid around the remaining part
        tau, sigma, delta = (1 + d * alpha) / (d + 1), 2 * (1 + d * alpha) / ((d + 1) * (1 + alpha)), d * d * (1 - alpha * alpha) / (d * d - 1)
        Pg = P @ g / gamma
        ctx.close(elp.center, z - tau * Pg, 'new center', rtol=1e-6, atol=1e-8)
        expected = delta * (P - sigma * np.outer(Pg, Pg))
        tol = 1e-7 * np.abs(expected).max()
        ctx.close(matrix(elp), expected, 'new matrix', rtol=1e-6, atol=tol)
        if case['scale']:
            ctx.close(elp.scale, matrix(elp), 'scale matrix versus factors', rtol=1e-6, atol=tol)
        ctx.require((elp.D > 0).all(), 'diagonal {}', elp.D)
        ctx.arr_eq(np.triu(elp.L), np.eye(d), 'upper part of L')
        kept = before[before.dot(g) <= bias]
        if len(kept):
            ctx.require(level(elp, kept).max() <= 1 + 1e-6, 'the new ellipsoid lost a point of the remaining part, level {}', level(elp, kept).max())
        ctx.require(np.prod(elp.D) < np.prod(D0), 'the volume did not decrease')
        if elp.D.min() < 1e-9 * elp.D.max():
            break
    # extremes: the center, and both ends of every axis, shrunk by d + 1
    ext = np.array([e.copy() for e in elp.extremes()])
    ctx.eq(ext.shape, (2 * d + 1, d), 'shape of the extremes')
    if elp.D.min() > 1e-6 * elp.D.max():
        ctx.close(ext[0], elp.center, 'first extreme')
        ctx.close(level(elp, ext[1:]), np.full(2 * d, 1 / (d + 1) ** 2), 'levels of the extremes', rtol=1e-3, atol=1e-6)
        V = (ext[1::2] - ext[2::2]) / 2
        ctx.close((ext[1::2] + ext[2::2]) / 2, np.tile(elp.center, (d, 1)), 'middle of the extremes', rtol=1e-6, atol=1e-9)
        G = np.linalg.solve(matrix(elp), V.T).T @ V.T * (d + 1) ** 2
        ctx.close(G, np.eye(d), 'axes are conjugate', rtol=1e-3, atol=1e-3)
    ctx.nontrivial(deep >= 2)


@st.composite
def cones(draw):
    return {'dim': draw(st.integers(2, 5)), 'n': draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), st.integers(9, 60))), 'seed': draw(gen.seeds()), 'width': draw(st.sampled_from([0.03, 0.1, 0.3])), 'scale': draw(st.sampled_from([1., 100., 0.01])),
            'grid': draw(st.booleans())}


def cone(case):
    """ A random cone whose inside contains w with margin at least 'width'. """
    r = gen.rs(case['seed'])
    w = sphere(r, 1, case['dim'])[0]
    A = []
    while len(A) < case['n']:
        a = r.randint(-2, 3, size=case['dim']).astype(float) if case['grid'] else r.randn(case['dim'])
        m = a.dot(w)
        if abs(m) > case['width'] * np.linalg.norm(a) and np.linalg.norm(a) > 0:
            A.append(-np.sign(m) * a * case['scale'])
    return np.array(A), w, r


@check.sub(cones(), quick=400, thorough=30000, shards=2)
def geometry(case, ctx):
    """ Membership, interior point, separating half-spaces and chords of the version space. """
    A, w, r = cone(case)
    d = case['dim']
    body = BoundedPolyhedralCone(A.copy())
    ctx.eq(body.dim, d, 'dimension')
    Q = np.vstack([r.randn(30, d) * 0.7, w.reshape(1, -1) * 0.5 + 0.05 * r.randn(10, d), sphere(r, 5, d) * 1.001])
    slack = (Q @ A.T).max(axis=1)
    clear = np.abs(slack) > 1e-9 * case['scale']
    ctx.arr_eq(np.asarray(body.is_inside_polytope(Q))[clear], (slack < 0)[clear], 'membership')
    x0 = body.get_interior_point()
    ctx.require((A @ x0 < 0).all() and np.linalg.norm(x0) < 1, 'get_interior_point() returned a point which is not inside: {}', x0.tolist())
    ctx.require(bool(body.is_inside_polytope(x0)), 'the interior point is not inside')
    W = np.vstack([0.9 * w, x0])  # points of the version space
    for q, s in zip(Q, slack):
        norm = np.linalg.norm(q)
        if abs(s) < 1e-9 * case['scale'] or abs(norm - 1) < 1e-9:
            continue
        oracle = body.get_separating_oracle(q)
        if s < 0 and norm < 1:
            ctx.require(oracle is None, 'a point of the version space was separated')
        else:
            ctx.require(oracle is not None, 'no separating half-space for {}, slack {}, norm {}', q.tolist(), s, norm)
            b, g = oracle
            ctx.require(g.dot(q) >= b - 1e-9 * case['scale'], 'the half-space does not exclude the point')
            ctx.require((W @ g < b).all(), 'the half-space excludes a point of the version space')
            inside = sphere(r, 200, d)
            inside = inside[(inside @ A.T < 0).all(axis=1)]
            ctx.require((inside @ g <= b + 1e-9 * case['scale']).all(), 'the half-space excludes a point of the version space')
    # points exactly on the boundary are not inside, hence they are separated
    for q in (np.zeros(d), np.eye(d)[r.randint(d)]):
        ctx.require(not body.is_inside_polytope(q) or (q @ A.T < 0).all(), 'a point of the boundary is inside')
        oracle = body.get_separating_oracle(q)
        ctx.require(oracle is not None, 'the point {} of the boundary is not separated', q.tolist())
        ctx.require(oracle[1].dot(q) >= oracle[0] and (W @ oracle[1] < oracle[0]).all(), 'the half-space does not separate {} from the version space', q.tolist())
    # chords
    inside = np.vstack([Q[(slack < -1e-6 * case['scale']) & (np.linalg.norm(Q, axis=1) < 0.999)], W])
    hits = 0
    for q in inside:
        u = (sphere(r, 1, d)[0] if r.rand() < 0.7 else np.eye(d)[r.randint(d)]) * r.choice([0.1, 1., 30.])
        t1, t2 = body.intersection(q, u)
        ctx.require(t1 < 0 < t2, 'the chord [{}, {}] does not contain the point itself', t1, t2)
        for t, sign in ((t1, -1), (t2, 1)):
            end = q + t * u
            out = q + (t + sign * 1e-6 * (abs(t) + 1)) * u
            inn = q + 0.999999 * t * u
            ctx.require((A @ inn <= 1e-9 * case['scale']).all() and np.linalg.norm(inn) <= 1 + 1e-9, 'the end of a chord is outside of the version space')
            ctx.require((A @ out > 0).any() or np.linalg.norm(out) > 1, 'the chord stops before the boundary')
            hits += np.linalg.norm(end) < 0.999
    for q in (2 * sphere(r, 3, d)):
        ctx.raises(RuntimeError, lambda: body.intersection(q, np.cross(np.r_[q, 0, 0][:3], [1., 2., 3.])[:d] if d == 3 else q[::-1] * np.r_[1, -1, np.zeros(d - 2)] if d == 2 else np.eye(d)[0] * 0 + tangent(q, r)),
                   'chord through a point outside of the unit ball, missing it')
    ctx.nontrivial(hits > 0)
    # a cone with an empty inside
    flat = np.vstack([A, -A[:1]])
    ctx.raises(RuntimeError, lambda: BoundedPolyhedralCone(flat).get_interior_point(), 'interior point of a flat cone')


def tangent(q, r):
    u = r.randn(len(q))
    return u - u.dot(q) / q.dot(q) * q


@check.sub(st.fixed_dictionaries({'c': cones(), 'more': st.integers(0, 4), 'strategy': st.sampled_from(['opt', 'opt', 'OPT', 'default']), 'z_cut': st.booleans(), 'sphere': st.booleans(), 'max_iter': st.sampled_from([None, None, 1, 5, 40])}),
           quick=250, thorough=20000, shards=3)
def rounding(case, ctx):
    """ The rounding ellipsoid contains the version space, and, shrunk by the theoretical factor, is contained in the cone. """
    A, w, r = cone(case['c'])
    d, n = case['c']['dim'], len(A)
    kwargs = {'strategy': case['strategy'], 'max_iter': case['max_iter'], 'z_cut': case['z_cut'], 'sphere_cuts': case['sphere']}
    if case['sphere'] and case['max_iter'] is None:
        kwargs['max_iter'] = 200
    alg = RoundingAlgorithm(**kwargs)
    inside = np.vstack([sphere(r, 3000, d), r.rand(40, 1) * w.reshape(1, -1), w + 0.02 * sphere(r, 60, d)])
    inside = inside[(inside @ A.T < 0).all(axis=1)]
    inside /= np.maximum(1, np.linalg.norm(inside, axis=1)).reshape(-1, 1)
    elp = alg.fit(BoundedPolyhedralCone(A[:max(1, n - case['more'])]))
    if case['more']:
        elp = alg.fit(BoundedPolyhedralCone(A), elp)  # continued with more constraints
    ctx.require(level(elp, inside).max() <= 1 + 1e-5, 'the rounding ellipsoid does not contain the version space: level {}', level(elp, inside).max())
    if elp.scale is not None:
        ctx.close(elp.scale, matrix(elp), 'scale matrix versus factors', rtol=1e-5, atol=1e-7 * elp.D.max())
    ctx.require(np.prod(elp.D) <= 1 + 1e-9, 'the ellipsoid is larger than the unit ball')
    if kwargs['max_iter'] is None:
        body = BoundedPolyhedralCone(A)
        if case['strategy'].lower() == 'opt':
            u = sphere(r, 300, d)
            inner = elp.center + 0.999 * (u * np.sqrt(elp.D)) @ elp.L.T / ((d + 1) * np.sqrt(d))
            ctx.require((inner @ A.T < 1e-9 * case['c']['scale']).all(), 'the ellipsoid, shrunk by (n + 1) sqrt(n), is not contained in the cone: the rounding stopped too early')
            if case['z_cut']:
                # the cut through the center, tangent to the unit ball, is too shallow as well
                z = elp.center
                alpha = (z.dot(z) - np.linalg.norm(z)) / np.sqrt(z @ matrix(elp) @ z) if np.linalg.norm(z) > 1e-9 else -1
                ctx.require(alpha <= -1 / ((d + 1) * np.sqrt(d)) + 1e-9, 'a deeper cut tangent to the ball is left: alpha {}', alpha)
        else:
            for e in elp.extremes():
                o = body.get_separating_oracle(e)
                if o is not None:
                    ctx.require(elp.compute_alpha_single(*o) <= -1. / d + 1e-9, 'a cut separating an extreme point was left out')
        before = elp.center.copy(), matrix(elp)
        again = alg.fit(body, elp)
        ctx.arr_eq(again.center, before[0], 'center after rounding a second time')
        ctx.arr_eq(matrix(again), before[1], 'matrix after rounding a second time')
        ctx.nontrivial(np.prod(elp.D) < 0.5)
    else:
        ctx.nontrivial(kwargs['max_iter'] > 1)
    ctx.label(case['strategy'].lower(), 'until convergence' if kwargs['max_iter'] is None else 'limited')


@check.sub(st.fixed_dictionaries({'what': st.sampled_from(['strategy', 'retraction', 'max_iter', 'grad_norm_threshold', 'rel_tol', 'step_size', 'sgd_max_iter']), 'text': st.sampled_from(['foo', '', 'spheres', 'o p t', 'none']), 'number': st.sampled_from([0, -1, -0.5])}), quick=60)
def options(case, ctx):
    """ Unknown strategies and retractions, and parameters which are not positive, are rejected. """
    what = case['what']
    if what in ('strategy', 'max_iter'):
        ctx.raises(ValueError, lambda: RoundingAlgorithm(**{what: case['text'] if what == 'strategy' else case['number']}), what)
    elif what == 'retraction':
        ctx.raises(ValueError, lambda: SphericalGradientDescent(retraction=case['text']), what)
    else:
        ctx.raises(ValueError, lambda: SphericalGradientDescent(**{what.replace('sgd_', ''): case['number']}), what)
    ctx.nontrivial()


@check.sub(st.fixed_dictionaries({'c': cones(), 'k': st.integers(0, 8)}), quick=60, thorough=3000)
def iteration_limit(case, ctx):
    """ max_iter = k makes at most k cuts: the same ellipsoid as k rounds of one cut each. """
    A, w, r = cone(case['c'])
    body = BoundedPolyhedralCone(A)
    k = case['k'] + 1
    metric_logger.flush()
    whole = RoundingAlgorithm(max_iter=k).fit(body)
    iters = metric_logger.get_metrics().get('rounding_iters')
    if iters is not None:
        ctx.require(sum(np.ravel(iters)) <= k, '{} iterations were made, the limit is {}', iters, k)
    step, one = None, RoundingAlgorithm(max_iter=1)
    for _ in range(k):
        step = one.fit(body, step)
    ctx.close(whole.center, step.center, 'center after {} iterations'.format(k))
    ctx.close(matrix(whole), matrix(step), 'matrix after {} iterations'.format(k))
    ctx.nontrivial(k > 1)


def random_ellipsoid(r, d, far=False):
    elp = Ellipsoid(d)
    elp.L = np.tril(0.4 * r.randn(d, d), -1) + np.eye(d)
    elp.D = np.exp(r.uniform(-1.5, 1.5, size=d))
    elp.center = sphere(r, 1, d)[0] * r.uniform(0.05, 0.9)
    return elp


@check.sub(st.fixed_dictionaries({'d': st.integers(2, 5), 'seed': gen.seeds(), 'retraction': st.sampled_from(['sphere', 'SPHERE', 'project']), 'max_iter': st.sampled_from([None, None, 1, 3]), 'threshold': st.booleans(), 'step': st.sampled_from([None, None, 1e-3])}),
           quick=250, thorough=15000)
def sphere_minimizer(case, ctx):
    """ The distance of cuts tangent to the unit ball is the documented function, and the optimizer descends on the sphere. """
    r, d = gen.rs(case['seed']), case['d']
    elp = random_ellipsoid(r, d)
    P, z = matrix(elp), elp.center.copy()
    func, grad = alpha_on_sphere(elp)
    f = lambda x: (1 - z.dot(x)) / np.sqrt(x @ P @ x)
    for x in sphere(r, 4, d):
        ctx.close(func(x), f(x), 'distance of the cut tangent to the ball', rtol=1e-7, atol=1e-9)
        ctx.close(func(x), -elp.compute_alpha_single(1, x), 'distance of the cut as computed by the ellipsoid', rtol=1e-7, atol=1e-9)
        g = np.asarray(grad(x))
        ctx.close(g.dot(x), 0., 'gradient along the normal of the sphere', atol=1e-8 * (1 + np.abs(g).max()))
        t = tangent(x, r)
        t /= np.linalg.norm(t)
        h = 1e-5
        arc = lambda s: f(np.cos(s) * x + np.sin(s) * t)
        ctx.close(g.dot(t), (arc(h) - arc(-h)) / (2 * h), 'derivative along the sphere', rtol=1e-4, atol=1e-5 * (1 + np.abs(g).max()))
    opt = SphericalGradientDescent(retraction=case['retraction'], max_iter=case['max_iter'] or (1000 if case['step'] else None), step_size=case['step'])
    x0 = sphere(r, 1, d)[0] * r.choice([1., 0.3, 5.])
    start = x0.copy()
    kwargs = {'func_threshold': f(x0 / np.linalg.norm(x0)) * 0.9} if case['threshold'] else {}
    res = opt.optimize(x0, func, grad, **kwargs)
    ctx.arr_eq(x0, start, 'starting point')
    ctx.close(np.linalg.norm(res.x), 1., 'norm of the minimizer', rtol=1e-6)
    ctx.close(res.fun, f(res.x), 'value at the minimizer', rtol=1e-7, atol=1e-9)
    project = case['retraction'] == 'project'  # along the sphere, the bounded search for a step may end in a worse local minimum
    if case['step'] is None and not project:
        starts = sphere(r, 12, d)
        worse = sum(opt.optimize(x, func, grad).fun > f(x) * (1 + 1e-9) for x in starts)
        ctx.require(worse <= 7, 'the value increased for {} of 12 starting points', worse)
    if case['step'] is None and project:
        ctx.require(res.fun <= f(x0 / np.linalg.norm(x0)) * (1 + 1e-9) + 1e-12, 'the value increased from {} to {}', f(x0 / np.linalg.norm(x0)), res.fun)
    if case['step'] is not None:  # one step of the given size against the gradient
        x, g = x0 / np.linalg.norm(x0), np.asarray(grad(x0 / np.linalg.norm(x0)))
        if np.linalg.norm(g) > 1e-3:
            one = SphericalGradientDescent(retraction=case['retraction'], max_iter=1, step_size=case['step']).optimize(x0, func, grad)
            to = x - case['step'] * g if project else np.cos(case['step']) * x - np.sin(case['step']) * g / np.linalg.norm(g)
            ctx.close(one.x, to / np.linalg.norm(to), 'after one step', rtol=0, atol=1e-9)
    if case['max_iter']:
        ctx.require(res.iters <= case['max_iter'], '{} iterations', res.iters)
    elif not case['threshold'] and case['step'] is None and project:
        ctx.require(res.converged, 'not converged')
        ctx.require(np.linalg.norm(grad(res.x)) <= 0.02 * (1 + np.abs(res.fun)), 'the gradient at the minimizer is {}', np.linalg.norm(grad(res.x)))
    elif case['threshold']:
        ctx.require(res.converged or res.iters >= 1000 or res.fun < kwargs['func_threshold'], 'stopped before the threshold, without convergence')
    ctx.nontrivial(res.iters > 0)


@check.sub(st.fixed_dictionaries({'c': cones(), 'big': st.sampled_from([1., 4., 30.]), 'shape': st.booleans(), 'z_cut': st.sampled_from([False, False, True]), 'sphere': st.sampled_from([True, True, True, False])}), quick=150, thorough=10000, shards=2)
def rounding_of_larger_ellipsoids(case, ctx):
    """ Started from an ellipsoid larger than the unit ball, where cuts tangent to the ball are needed. """
    A, w, r = cone(case['c'])
    d = case['c']['dim']
    elp = Ellipsoid(d)
    elp.D *= case['big']
    if case['shape']:  # an ellipsoid around a ball of radius 1.2 at least
        elp.center = 0.2 * sphere(r, 1, d)[0]
        elp.L = np.tril(0.1 * r.randn(d, d), -1) + np.eye(d)
        elp.D = case['big'] * (0.5 + r.rand(d))
        elp.D *= 1.5 * 1.44 / np.linalg.eigvalsh(matrix(elp)).min()
    inside = np.vstack([sphere(r, 2000, d), w + 0.02 * sphere(r, 60, d)])
    inside = inside[(inside @ A.T < 0).all(axis=1)]
    inside /= np.maximum(1, np.linalg.norm(inside, axis=1)).reshape(-1, 1)
    ctx.require(level(elp, inside).max() <= 1 + 1e-9, 'bad case: the first ellipsoid does not contain the version space')
    volume = np.prod(elp.D)
    cut = elp.cut

    def recorded(bias, g):
        g = np.asarray(g)
        ctx.require((inside @ g <= bias + 1e-9 * np.linalg.norm(g)).all(), 'a cut x.g <= {} removes points of the version space', bias)
        cuts.append(bias)
        return cut(bias, g)

    cuts, elp.cut = [], recorded
    alg = RoundingAlgorithm(max_iter=300, z_cut=case['z_cut'], sphere_cuts=case['sphere'])
    body = BoundedPolyhedralCone(A)
    got = alg.fit(body, elp)
    ctx.require(level(got, inside).max() <= 1 + 1e-5, 'the rounding ellipsoid does not contain the version space: level {}', level(got, inside).max())
    ctx.require(np.prod(got.D) <= volume * (1 + 1e-9), 'the volume of the ellipsoid increased')
    threshold = 1 / ((d + 1) * np.sqrt(d))
    ctx.require(got.compute_alpha(A).max() <= -threshold + 1e-9, 'a cut along a label is left')
    if case['z_cut'] or case['sphere']:  # the search over the sphere starts at the direction of the center
        z = got.center
        ctx.require(-got.compute_alpha_single(1, z / np.linalg.norm(z)) >= threshold - 1e-9, 'a deeper cut tangent to the ball is left')
    else:  # the options allow for cuts along a label only
        ctx.require(all(abs(b) < 1e-12 for b in cuts), 'cuts not through the origin, with biases {}', cuts)
    ctx.nontrivial(case['big'] > 1)
    ctx.label('sphere cuts' if case['sphere'] else 'no sphere cuts', 'z cut' if case['z_cut'] else 'no z cut')


@check.sub(st.fixed_dictionaries({'first': st.integers(2, 3), 'grow': st.lists(st.sampled_from([1, 1, 1, 0, 2]), min_size=1, max_size=3), 'seed': gen.seeds(), 'rng': gen.seeds(), 'zero': st.integers(0, 1), 'cache': st.sampled_from([True, True, True, False]),
                                  'options': st.sampled_from([{}, {}, {'max_iter': 1}, {'max_iter': 4}, {'strategy': 'default', 'max_iter': 30}, {'z_cut': True}])}), quick=150, thorough=10000, shards=2)
def growing_version_space(case, ctx):
    """ The ellipsoid kept by a sampler while labels (and with a kernel, dimensions) are added contains the version space at any time. """
    r = gen.rs(case['seed'])
    total = case['first'] + sum(case['grow'])
    L = np.tril(0.5 * r.randn(total, total))
    L[np.diag_indices(total)] = 0.3 + r.rand(total)
    L *= np.where(r.randint(0, 2, size=(total, 1)), 1, -1)
    sampler = HitAndRunSampler(warmup=3, thin=1, rounding_cache=case['cache'], rounding_options=case['options'])
    if not hasattr(sampler, 'ellipsoid_cache'):
        return
    np.random.seed(case['rng'] % 2 ** 32)
    n, dims = case['first'], []
    y = r.randint(0, 2, size=total)
    for g in [0] + case['grow']:
        n += g
        X = np.c_[L[:n, :n], np.zeros((n, case['zero']))]
        sampler.sample(X, y[:n], 2)
        elp = sampler.ellipsoid_cache
        if not case['cache']:
            ctx.require(elp is None, 'an ellipsoid was kept')
            continue
        d = X.shape[1]
        ctx.eq(elp.dim, d, 'dimension of the ellipsoid')
        A = X * np.where(y[:n] == 1, 1, -1).reshape(-1, 1)
        inside = sphere(r, 6000, d)
        inside = inside[(inside @ A.T > 0).all(axis=1)]
        # its extreme rays, and what lies in between
        rays = list((np.linalg.pinv(A) / np.linalg.norm(np.linalg.pinv(A), axis=0)).T)
        lines = [np.eye(d)[-1], -np.eye(d)[-1]] if case['zero'] else []
        rays = np.array([u + v for u in rays + lines for v in rays + lines + [0 * rays[0]]])
        rays = rays[np.linalg.norm(rays, axis=1) > 0.1]
        rays = rays / np.linalg.norm(rays, axis=1).reshape(-1, 1)
        inside = np.vstack([inside, rays[(rays @ A.T > -1e-9).all(axis=1)], np.zeros((1, d))])
        if len(inside):
            ctx.require(level(elp, inside).max() <= 1 + 1e-6, 'the ellipsoid does not contain the version space of {} labels: level {}', n, level(elp, inside).max())
            dims.append(d)
        if elp.scale is not None:
            ctx.close(elp.scale, matrix(elp), 'scale matrix versus factors', rtol=1e-5, atol=1e-7 * elp.D.max())
    ctx.nontrivial(len(set(dims)) > 1)
    ctx.label('default' if case['options'].get('strategy') else 'opt')


@check.known_finding('one-dimensional')
def one_dimensional(ctx):
    try:
        RoundingAlgorithm().fit(BoundedPolyhedralCone(np.array([[-1.]])))
    except ZeroDivisionError:
        raise core.Violation('rounding of a one-dimensional version space fails: ZeroDivisionError')
