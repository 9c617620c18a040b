import copy
import pickle
from contextlib import suppress

import numpy as np
import scipy.spatial
from hypothesis import strategies as st
from scipy.spatial import QhullError

import core
import gen
from aideme.active_learning.dsm.convex import NegativeCone, PositiveRegion
from aideme.active_learning.dsm.polytope import Polytope
from polytope_oracle import Oracle, distance, full_dimensional, histories, make_data

check = core.Check('C12', rule='random labeled points (general position, grids, flats, different scales), labeled by convex and non-convex sets, given in random batches; after every batch '
                   'the prediction for points of all kinds is compared with a linear programming oracle; non-trivial: certainly positive and certainly negative points were queried, or a conflict was found',
                   assumptions=['points closer than about 1e-6 to the boundary of a region may get either label', 'HiGHS solves small linear programs correctly'])


def compare(pol, oracle, Q, ctx, what='prediction'):
    pred = pol.predict(Q)
    ctx.eq(pred.shape, (len(Q),), 'shape of the predictions')
    seen = set()
    for x, p in zip(Q, pred):
        allowed = oracle.allowed(x)
        if float(p) not in allowed:
            raise core.Violation('{} {} for {}, expected one of {}; positive: {}, negative: {}'.format(what, p, x.tolist(), sorted(allowed), oracle.P.tolist(), oracle.N.tolist()))
        if len(allowed) == 1:
            seen |= allowed
    return seen


@check.sub(histories(), quick=110, thorough=12000, shards=8)
def regions(case, ctx):
    X, y, batches = make_data(case)
    d, r = case['d'], gen.rs(case['seed'] + 1)
    pol = Polytope()
    ctx.require(pol.is_valid, 'a new polytope is invalid')
    ctx.arr_eq(pol.predict(X), np.full(len(X), 0.5), 'prediction of a new polytope')
    done, seen = 0, set()
    for i, (Xb, yb) in enumerate(batches):
        done += len(Xb)
        ok = pol.update(Xb, yb)
        ctx.eq(bool(ok), bool(pol.is_valid), 'result of the update')
        oracle = Oracle(X[:done][y[:done] == 1], X[:done][y[:done] == 0])
        valid = oracle.valid()
        if valid is None:
            ctx.label('in doubt')
            return
        ctx.eq(bool(pol.is_valid), valid, 'is_valid with positive points {} and negative points {}'.format(oracle.P.tolist(), oracle.N.tolist()))
        Q = oracle.points(r)
        if not valid:
            ctx.arr_eq(pol.predict(Q), np.full(len(Q), 0.5), 'prediction of an invalid polytope')
            ctx.raises(RuntimeError, lambda: pol.update(Xb, yb), 'update of an invalid polytope')
            pol.clear()
            ctx.require(pol.is_valid, 'invalid after clear()')
            ctx.arr_eq(pol.predict(Q), np.full(len(Q), 0.5), 'prediction after clear()')
            ctx.label('conflict')
            ctx.nontrivial()
            return
        if i == len(batches) - 1 or i % 3 == 0:
            seen |= compare(pol, oracle, Q, ctx)
    ctx.label('d=%d' % d, case['data'], case['labels'])
    ctx.nontrivial({0., 1.} <= seen)


@check.sub(histories(max_n=20), quick=80, thorough=8000, shards=3)
def building_blocks(case, ctx):
    """ The convex hull of positive points, and the cone opposite to them seen from a negative point: nothing is inside before they have full dimension, and after clear(). """
    X, y, batches = make_data(case)
    d, r = case['d'], gen.rs(case['seed'] + 1)
    P = X[y == 1]
    apex = X[y == 0][:1]
    if len(P) == 0 or len(apex) == 0:
        return
    oracle = Oracle(P, apex)
    if oracle.valid() is not True:
        return
    region, cone = PositiveRegion(), NegativeCone(apex[0])
    for round_ in range(2):
        if round_:  # points which were forgotten before the region was built
            region.update(P[:1] + 50)
            if d > 1:
                cone.add_points_to_hull(P[:1] - 50)
            region.clear()
            cone.clear()
        ctx.require(not region.is_built and not cone.is_built, 'a new region is built')
        for thing in (region, cone):
            ctx.arr_eq(np.asarray(thing.is_inside(X)), np.zeros(len(X), dtype=bool), 'points inside of an empty region')
        for part in np.array_split(P[r.permutation(len(P))], r.randint(1, len(P) + 1)):
            if len(part):
                mine = part.copy(), part.copy()
                with suppress(QhullError):  # flat so far: waits for more points
                    region.update(mine[0])
                with suppress(QhullError):
                    cone.add_points_to_hull(mine[1])
                mine[0][:], mine[1][:] = 77., 88.  # the caller goes on using his arrays
        Q = oracle.points(r)
        pos, neg = np.asarray(region.is_inside(Q)), np.asarray(cone.is_inside(Q))
        for x, p, v in zip(Q, pos, neg):
            allowed = oracle.allowed(x)
            got = 1. if p else 0. if v else 0.5
            ctx.require(not (p and v) or len(allowed) > 1, '{} is in the positive and in the negative region', x)
            ctx.require(got in allowed, 'label {} of {}, expected one of {}; positive: {}, negative: {}', got, x, sorted(allowed), P, apex)
        if d > 1:
            ctx.raises(ValueError, lambda: cone.add_points_to_hull(np.zeros((2, d + 1))), 'points of another dimension')
        region.clear()
        cone.clear()
    ctx.nontrivial(pos.any() and neg.any())


@st.composite
def high_or_flat(draw):
    d = draw(st.integers(2, 5))
    return {'d': d, 'flat': draw(st.sampled_from([0, 4, 12, 25] if d < 5 else [0, 4])), 'n': draw(st.integers(d + 1, 12)), 'neg': draw(st.integers(1, 3)), 'seed': draw(gen.seeds()), 'batch': draw(st.sampled_from([1, 3, 100])), 'negative_first': draw(st.booleans())}


@check.sub(high_or_flat(), quick=60, thorough=5000, shards=3)
def high_dimensions_and_flat_starts(case, ctx):
    """ Up to five dimensions; positive points which span a flat for a long time count as soon as another one leaves it. """
    r, d = gen.rs(case['seed']), case['d']
    P = r.randn(case['flat'] + case['n'], d)
    P[:case['flat'], -1] = 0.25
    P[:case['flat']] *= 1.5
    N = []
    while len(N) < case['neg']:
        v = (2 + r.rand()) * r.randn(d)
        if distance(P, v) > 0.05:
            N.append(v)
    N = np.array(N)
    X, y = (np.vstack([N, P]), np.r_[np.zeros(len(N)), np.ones(len(P))]) if case['negative_first'] else (np.vstack([P, N]), np.r_[np.ones(len(P)), np.zeros(len(N))])
    pol = Polytope()
    for i in range(0, len(X), case['batch']):
        ctx.require(pol.update(X[i:i + case['batch']], y[i:i + case['batch']]) and pol.is_valid, 'a conflict was found in data without conflict')
    oracle = Oracle(P, N)
    Q = np.vstack([oracle.points(r), P, [v + r.choice([0.3, 1.]) * (v - p) for v in N for p in P[:6]]])
    ctx.nontrivial({0., 1.} <= compare(pol, oracle, Q, ctx))
    ctx.label('d=%d' % d, 'flat' if case['flat'] else 'plain')


@check.sub(st.fixed_dictionaries({'d': st.integers(2, 3), 'n': st.integers(4, 12), 'seed': gen.seeds(), 'tol': st.sampled_from([1e-6, 0.01, 0.3]), 'model': st.sampled_from(['polytope', 'regions', 'restored', 'copied'])}), quick=120, thorough=5000)
def tolerance(case, ctx):
    """ Points within the tolerance of all facets are inside, and only those; so it is in copies of the model. """
    r, d, tol = gen.rs(case['seed']), case['d'], case['tol']
    P = r.randn(case['n'] + d, d)
    v = r.randn(d) * 4
    if distance(P, v) < 2 * tol + 0.05 or not full_dimensional(P):
        return
    hull, cone = scipy.spatial.ConvexHull(P), scipy.spatial.ConvexHull(np.vstack([v, P]))
    faces = np.array([e for e, s in zip(cone.equations, cone.simplices) if 0 in s])
    base = P[r.randint(len(P), size=60)] * r.rand(60, 1) + v * r.choice([0., 0.5, 1.], size=(60, 1))
    Q = np.vstack([base, r.randn(60, d) * 2])
    f = hull.equations[r.randint(len(hull.equations), size=60)]
    mid = r.dirichlet(np.ones(len(P)), size=60) @ P  # moved to a chosen distance from the plane of a facet
    Q = np.vstack([Q, mid + (r.uniform(-1, 2.5, size=(60, 1)) * tol - (mid * f[:, :-1]).sum(axis=1, keepdims=True) - f[:, -1:]) * f[:, :-1]])
    far = v + r.rand(60, 1) * (v - mid)
    f = faces[r.randint(len(faces), size=60)]
    Q = np.vstack([Q, far + (r.uniform(-2.5, 1, size=(60, 1)) * tol - (far * f[:, :-1]).sum(axis=1, keepdims=True) - f[:, -1:]) * f[:, :-1]])
    out = (Q @ hull.equations[:, :-1].T + hull.equations[:, -1]).max(axis=1)
    into = (Q @ faces[:, :-1].T + faces[:, -1]).min(axis=1)
    if case['model'] == 'regions':
        region, neg = PositiveRegion(tol), NegativeCone(v, tol)
        region.update(P)
        neg.add_points_to_hull(P)
        pos, neg = np.asarray(region.is_inside(Q)), np.asarray(neg.is_inside(Q))
    else:
        pol = Polytope(tol)
        pol.update(np.vstack([P, v]), np.r_[np.ones(len(P)), 0.])
        if case['model'] != 'polytope':
            pol = pickle.loads(pickle.dumps(pol)) if case['model'] == 'restored' else copy.deepcopy(pol)
        pred = pol.predict(Q)
        pos, neg = pred == 1, pred == 0
    for i in range(len(Q)):
        got = 'positive' if pos[i] else 'negative' if neg[i] else 'unknown'
        is_pos, is_neg = out[i] < 0.99 * tol - 1e-10, into[i] > -0.99 * tol + 1e-10
        may_pos, may_neg = out[i] < 1.01 * tol + 1e-10, into[i] > -1.01 * tol - 1e-10
        ok = (may_pos if pos[i] else True) and (may_neg if neg[i] else True) and (got != 'unknown' or not (is_pos or is_neg))
        ctx.require(ok, 'with tolerance {}, a point {} beyond the facets of the hull and {} inside of those of the cone is {}', tol, out[i], into[i], got)
    edge = ((out > 0) & (out < tol)).any() or ((into < 0) & (into > -tol)).any()
    ctx.nontrivial(bool(edge))
    ctx.label(case['model'])


@check.sub(histories(max_n=20), quick=150, thorough=20000, shards=3)
def order_does_not_matter(case, ctx):
    """ All at once, one by one, in another order, after a clear: the same regions. Known labels never change with more data. """
    X, y, batches = make_data(case)
    r = gen.rs(case['seed'] + 1)
    oracle = Oracle(X[y == 1], X[y == 0])
    if oracle.valid() is not True:
        return
    perm = r.permutation(len(X))
    one, single, shuffled = Polytope(), Polytope(), Polytope()
    shuffled.update(X[::-1], y[::-1] * 0)  # something else first
    shuffled.clear()
    one.update(X, y)
    Q = oracle.points(r, extra=6)
    last = np.full(len(Q), 0.5)
    for i in range(len(X)):
        single.update(X[i], y[i:i + 1])
        now = single.predict(Q)
        known = last != 0.5
        if not (now[known] == last[known]).all():
            sure = [i for i in np.where(known & (now != last))[0] if len(oracle.allowed(Q[i])) == 1]
            ctx.require(not sure, 'the known label of {} changed', Q[sure])
        last = now
        shuffled.update(X[perm[i]], y[perm[i]:perm[i] + 1])
    ctx.require(one.is_valid and single.is_valid and shuffled.is_valid, 'a conflict was found in data without conflict')
    preds = [m.predict(Q) for m in (one, single, shuffled)]
    for i in range(len(Q)):
        values = {float(p[i]) for p in preds}
        if len(values) > 1:
            ctx.require(len(oracle.allowed(Q[i])) > 1, 'the label of {} depends on the order of the updates: {}', Q[i].tolist(), values)
    ctx.nontrivial({0., 1.} <= set(preds[0].tolist()))


@check.sub(histories(max_n=16), quick=100, thorough=10000, shards=3)
def survives_copies(case, ctx):
    """ A pickled and restored (or deep-copied) model predicts and keeps learning like the original. """
    X, y, batches = make_data(case)
    r = gen.rs(case['seed'] + 1)
    pol = Polytope()
    twins = {}
    done = 0
    for i, (Xb, yb) in enumerate(batches):
        done += len(Xb)
        pol.update(Xb, yb)
        for name, twin in twins.items():
            twin.update(Xb, yb)
        oracle = Oracle(X[:done][y[:done] == 1], X[:done][y[:done] == 0])
        if oracle.valid() is not True:
            if oracle.valid() is False:
                for name, twin in twins.items():
                    ctx.require(not twin.is_valid, 'the {} did not see the conflict', name)
            return
        twins['restored copy of step %d' % i] = pickle.loads(pickle.dumps(pol))
        if i == 0:
            twins['deep copy'] = copy.deepcopy(pol)
        Q = oracle.points(r, extra=2)
        pred = pol.predict(Q)
        for name, twin in twins.items():
            ctx.require(twin.is_valid, 'the {} is invalid', name)
            other = twin.predict(Q)
            for x, a, b in zip(Q, pred, other):
                ctx.require(a == b or len(oracle.allowed(x)) > 1, 'the {} predicts {} instead of {} for {}', name, b, a, x.tolist())
        ctx.nontrivial(len(twins) > 2 and {0., 1.} <= set(pred.tolist()))


@check.sub(st.fixed_dictionaries({'d': st.integers(1, 3), 'n': st.integers(60, 220), 'seed': gen.seeds(), 'shape': st.sampled_from(['ball', 'box', 'half']),
                                  'order': st.sampled_from(['random', 'negative first', 'few positive first', 'outwards']), 'batch': st.sampled_from([1, 7, 50, 1000])}), quick=60, thorough=4000, shards=3)
def long_histories(case, ctx):
    """ Hundreds of labels of a convex set: never wrong, every cone keeps being updated, late conflicts are found. """
    r, d, n = gen.rs(case['seed']), case['d'], case['n']
    inside = {'ball': lambda X: (X ** 2).sum(axis=1) < 1.3, 'box': lambda X: (np.abs(X) < 1.1).all(axis=1), 'half': lambda X: X.sum(axis=1) < -0.5}[case['shape']]
    X = r.uniform(-2, 2, size=(n, d))
    y = inside(X).astype(int)
    if case['order'] == 'negative first':
        o = np.argsort(y, kind='stable')
    elif case['order'] == 'outwards':
        o = np.argsort((X ** 2).sum(axis=1))
    elif case['order'] == 'few positive first':
        pos = np.where(y == 1)[0]
        o = np.concatenate([pos[:d + 1], np.where(y == 0)[0], pos[d + 1:]])
    else:
        o = np.arange(n)
    X, y = X[o], y[o]
    pol = Polytope()
    for i in range(0, n, case['batch']):
        ctx.require(pol.update(X[i:i + case['batch']], y[i:i + case['batch']]) and pol.is_valid, 'a conflict was found in data without conflict')
    P, N = X[y == 1], X[y == 0]
    Q = r.uniform(-3, 3, size=(200, d))
    pred = pol.predict(Q)
    ctx.require(not (inside(Q) & (pred == 0)).any() and not (~inside(Q) & (pred == 1)).any(), 'wrong labels {}', Q[(inside(Q) & (pred == 0)) | (~inside(Q) & (pred == 1))][:3])
    ctx.require((pol.predict(P) == 1).all() if len(P) > d else True, 'a positive example is not positive')
    late = None
    for v in N[r.permutation(len(N))[:12]]:
        sub = Oracle(P, [v])
        w = r.dirichlet(np.full(len(P), 0.3)) if len(P) else None
        if w is None:
            break
        x = v + r.choice([0.3, 1., 4.]) * (v - w.dot(P))
        if sub.allowed(x) == {0.}:
            ctx.require(float(pol.predict(x.reshape(1, -1))[0]) == 0, '{} is not negative, although {} is and the positive examples are {}', x.tolist(), v.tolist(), P.tolist())
            ctx.nontrivial()
            late = x
    for _ in range(5):
        if len(P) > d:
            x = r.dirichlet(np.full(len(P), 0.5)).dot(P)
            if Oracle(P, np.zeros((0, d))).allowed(x) == {1.}:
                ctx.require(float(pol.predict(x.reshape(1, -1))[0]) == 1, '{} is not positive, although it is inside of the hull of {}', x.tolist(), P.tolist())
                if late is None:
                    ctx.require(not pol.update(x.reshape(1, -1), np.array([0])) and not pol.is_valid, 'the conflict of the negative point {} was not found', x.tolist())
                    return
    if late is not None:
        valid = Oracle(np.vstack([P, late]), N).valid()
        if valid is False:
            ctx.require(not pol.update(late.reshape(1, -1), np.array([1])) and not pol.is_valid, 'the conflict of the positive point {} was not found', late.tolist())
            ctx.label('late conflict')
