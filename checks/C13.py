import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.dsm.polytope import FlippedPolytope, PersistentPolytope, Polytope
from polytope_oracle import Oracle, histories, make_data

check = core.Check('C13', rule='random labeled points in random batches, labeled by convex sets, complements of convex sets, or neither; the models are compared with a linear programming '
                   'oracle of the positive and of the negative region; non-trivial: a conflict was found, or both labels were predicted with certainty',
                   assumptions=['points closer than about 1e-6 to the boundary of a region may get either label'])


def opposite(y):
    return 1 - y


@check.sub(histories(max_n=16), quick=150, thorough=12000, shards=4)
def flipped(case, ctx):
    """ The mirror image of the polytope model with all labels swapped. """
    X, y, batches = make_data(case)
    r = gen.rs(case['seed'] + 1)
    pol, flip = Polytope(), FlippedPolytope()
    done = 0
    for Xb, yb in batches:
        done += len(Xb)
        oracle = Oracle(X[:done][y[:done] == 0], X[:done][y[:done] == 1])
        y0 = yb.copy()
        ok = flip.update(Xb, yb)
        ctx.arr_eq(yb, y0, 'labels given by the caller')
        ctx.eq(bool(ok), bool(pol.update(Xb, 1 - yb)), 'result of the update')
        ctx.eq(bool(flip.is_valid), bool(ok), 'is_valid')
        Q = oracle.points(r, extra=2)
        ctx.arr_eq(flip.predict(Q), 1 - pol.predict(Q), 'prediction')
        if oracle.valid() is not True:
            if oracle.valid() is False:
                ctx.require(not flip.is_valid, 'a conflict was not found')
                ctx.raises(RuntimeError, lambda: flip.update(Xb, yb), 'update of an invalid model')
                ctx.nontrivial()
            break
        for x, p in zip(Q, flip.predict(Q)):
            ctx.require(1 - p in oracle.allowed(x), 'label {} for {}', p, x.tolist())
        ctx.nontrivial({0., 1.} <= set(flip.predict(Q).tolist()))
    flip.clear()
    ctx.require(flip.is_valid, 'invalid after clear()')
    ctx.arr_eq(flip.predict(X), np.full(len(X), 0.5), 'prediction after clear()')


@check.sub(histories(max_n=18, labels=['box', 'ball', 'outside', 'outside', 'random', 'half']), quick=150, thorough=20000, shards=4)
def persistent(case, ctx):
    """ Positive region convex as long as possible, else negative region convex, else nothing is known. """
    X, y, batches = make_data(case)
    r = gen.rs(case['seed'] + 1)
    model = PersistentPolytope()
    done, broken = 0, {'pos': False, 'neg': False}
    for Xb, yb in batches:
        done += len(Xb)
        P, N = X[:done][y[:done] == 1], X[:done][y[:done] == 0]
        oracles = {'pos': Oracle(P, N), 'neg': Oracle(N, P)}
        valid = {k: o.valid() for k, o in oracles.items()}
        if None in valid.values():
            ctx.label('in doubt')
            return
        ok = model.update(Xb, yb)
        if not broken['pos'] and not valid['pos']:
            ctx.require(not ok, 'the conflict in the positive region was not reported')
        if not broken['neg'] and broken['pos'] and not valid['neg']:
            ctx.require(not ok, 'the conflict in the negative region was not reported')
        if valid['pos'] and valid['neg']:
            ctx.require(ok, 'a conflict was reported, but there is none')
        if broken['pos'] and valid['neg']:
            ctx.require(ok, 'a conflict was reported, but the negative region has none')
        for k in broken:
            broken[k] = broken[k] or not valid[k]
        ctx.eq(bool(model.is_valid), not (broken['pos'] and broken['neg']), 'is_valid')
        oracle = oracles['pos']
        Q = np.vstack([oracle.points(r, extra=1), oracles['neg'].points(r, extra=1)])
        Q = Q[r.permutation(len(Q))[:10]]
        pred = model.predict(Q)
        if not broken['pos']:
            bad = [(x.tolist(), p) for x, p in zip(Q, pred) if p not in oracle.allowed(x)]
            ctx.require(not bad, 'with a convex positive region: wrong labels {}', bad[:3])
            ctx.label('positive')
        elif not broken['neg']:
            bad = [(x.tolist(), p) for x, p in zip(Q, pred) if 1 - p not in oracles['neg'].allowed(x)]
            ctx.require(not bad, 'with a convex negative region: wrong labels {}', bad[:3])
            ctx.label('negative')
            ctx.nontrivial()
        else:
            ctx.arr_eq(pred, np.full(len(Q), 0.5), 'prediction of an invalid model')
            ctx.raises(RuntimeError, lambda: model.update(Xb, yb), 'update of an invalid model')
            ctx.label('invalid')
            ctx.nontrivial()
            break
    model.clear()
    ctx.require(model.is_valid, 'invalid after clear()')
    ctx.arr_eq(model.predict(X), np.full(len(X), 0.5), 'prediction after clear()')
    # after clear() it starts over with the positive region
    fresh = PersistentPolytope()
    for m in (model, fresh):
        m.update(*batches[0])
    ctx.arr_eq(model.predict(Q), fresh.predict(Q), 'prediction after clear() and an update')


@check.sub(st.fixed_dictionaries({'first': histories(max_n=12, labels=['ball', 'half', 'outside', 'random', 'opposite']), 'then': histories(max_n=12, labels=['ball', 'half', 'outside', 'outside', 'random']),
                                  'swap': st.booleans(), 'stop': st.integers(1, 6), 'kind': st.sampled_from(['persistent', 'persistent', 'flipped'])}), quick=250, thorough=20000, shards=3)
def clear_forgets_everything(case, ctx):
    """ After any history and a clear(), a model follows any other history exactly like a new one. """
    first = dict(case['first'], labels='outside' if case['first']['labels'] == 'opposite' else case['first']['labels'])
    then = dict(case['then'], d=first['d'])
    model, fresh = (PersistentPolytope(), PersistentPolytope()) if case['kind'] == 'persistent' else (FlippedPolytope(), FlippedPolytope())
    _, _, batches = make_data(first)
    for Xb, yb in batches[:case['stop']]:
        if not model.is_valid:
            break
        model.update(Xb, 1 - yb if case['swap'] else yb)
    model.clear()
    X, y, batches = make_data(then)
    r = gen.rs(then['seed'] + 1)
    Q = np.vstack([X, r.uniform(-3, 3, size=(10, then['d']))])
    ctx.arr_eq(model.predict(Q), np.full(len(Q), 0.5), 'prediction after clear()')
    failed = False
    for Xb, yb in batches:
        if not fresh.is_valid:
            ctx.require(not model.is_valid, 'is_valid')
            break
        ok = fresh.update(Xb, yb)
        ctx.eq(bool(model.update(Xb, yb)), bool(ok), 'result of an update after clear()')
        ctx.eq(bool(model.is_valid), bool(fresh.is_valid), 'is_valid after clear() and updates')
        ctx.arr_eq(model.predict(Q), fresh.predict(Q), 'prediction after clear() and updates')
        failed = failed or not ok
    ctx.nontrivial(failed or {0., 1.} <= set(fresh.predict(Q).tolist()))
