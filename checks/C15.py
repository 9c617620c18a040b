import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.dsm.model import FactorizedPolytopeModel, PolytopeModel
from aideme.active_learning.dsm.polytope import CategoricalPolytope, FlippedPolytope, MultiSetPolytope, PersistentPolytope, Polytope
from aideme.explore import LabeledSet, PartitionedDataset

check = core.Check('C15', rule='random partitions of the attributes, modes, and labeled points given in random batches; the factorized model is compared with one separate model per subspace; '
                   'non-trivial: at least two subspaces, with final predictions of at least two kinds, or a conflict in some of the subspaces only')

MODES = {'positive': Polytope, 'negative': FlippedPolytope, 'persist': PersistentPolytope, 'categorical': CategoricalPolytope, 'multiset': MultiSetPolytope}


@st.composite
def cases(draw):
    k = draw(st.integers(1, 3))
    return {'dims': draw(st.lists(st.integers(1, 3), min_size=k, max_size=k)), 'modes': draw(st.lists(st.sampled_from(sorted(MODES) + ['positive', 'persist']), min_size=k, max_size=k)),
            'same_mode': draw(st.booleans()), 'overlap': draw(st.booleans()), 'n': draw(st.integers(4, 24)), 'seed': draw(gen.seeds()), 'noise': draw(st.lists(st.sampled_from([0, 0, 0.15]), min_size=k, max_size=k)),
            'sizes': draw(st.lists(st.integers(1, 8), min_size=1, max_size=6)), 'slices': draw(st.booleans())}


def build(case):
    """ data, partition, partial labels, modes """
    r = gen.rs(case['seed'])
    n, cols, partition, labels = case['n'], [], [], []
    modes = [case['modes'][0]] * len(case['dims']) if case['same_mode'] else case['modes']
    start = 0
    for d, mode, noise in zip(case['dims'], modes, case['noise']):
        if mode == 'categorical':
            d += 1
            which = r.randint(d, size=n)
            Z, y = np.eye(d)[which], (which % 2)
        elif mode == 'multiset':
            d += 1
            Z = (r.rand(n, d) < 0.5).astype(float)
            Z[Z.sum(axis=1) == 0, 0] = 1
            y = 1 - Z[:, -1].astype(int)
        else:
            Z = r.uniform(-1, 1, size=(n, d)).round(3)
            y = (np.abs(Z) < 0.8).all(axis=1).astype(int)
            if mode == 'negative' or (mode == 'persist' and r.rand() < 0.5):
                y = 1 - y
        y = np.where(r.rand(n) < noise, 1 - y, y)
        cols.append(Z)
        labels.append(y)
        idx = list(range(start, start + d))
        partition.append(slice(start, start + d) if case['slices'] else idx)
        start += d
    X, Y = np.hstack(cols), np.array(labels).T
    if not case['slices']:  # the attributes of a subspace may be anywhere
        perm = r.permutation(X.shape[1])
        X, where = X[:, np.argsort(perm)], perm
        inv = {int(c): int(np.where(np.argsort(perm) == c)[0][0]) for c in range(X.shape[1])}
        partition = [[inv[c] for c in p] for p in partition]
    return X, Y, partition, modes


def batches(case, n):
    i = 0
    for size in case['sizes'] + [n]:
        if i < n:
            yield slice(i, min(n, i + size))
        i += size


@check.sub(cases(), quick=350, thorough=20000, shards=4)
def conjunction(case, ctx):
    X, Y, partition, modes = build(case)
    n, k = Y.shape
    model = FactorizedPolytopeModel(partition, modes[0] if case['same_mode'] else modes)
    subs = [MODES[m]() for m in modes]
    r = gen.rs(case['seed'] + 1)
    half = n // 2 + 1
    for b in batches(case, half):
        valid_before = [s.is_valid for s in subs]
        ok = model.update(X[b], Y[b])
        oks = [s.update(X[b][:, p], Y[b][:, j]) for j, (s, p) in enumerate(zip(subs, partition)) if valid_before[j]]
        ctx.eq(bool(ok), all(oks), 'result of the update')
        valid = [s.is_valid for s in subs]
        ctx.eq(bool(model.is_valid), any(valid), 'is_valid')
        ctx.eq(bool(model.is_all_valid), all(valid), 'is_all_valid')
        partial = np.column_stack([s.predict(X[:, p]) if v else np.full(n, 0.5) for s, p, v in zip(subs, partition, valid)])
        ctx.arr_eq(model.predict_partial(X), partial, 'partial predictions')
        final = model.predict(X)
        ctx.arr_eq(final, partial.min(axis=1), 'predictions')
        if not any(valid):
            ctx.raises(RuntimeError, lambda: model.update(X[b], Y[b]), 'update of an invalid model')
            break
        ctx.nontrivial(k > 1 and (len(set(final.tolist())) > 1 or (any(valid) and not all(valid))))
        ctx.label('%d of %d valid' % (sum(valid), k))
        if not any(case['noise']):
            for p, t in zip(partial, Y):  # (the persistent model may assume convexity of the wrong region until a conflict shows up)
                ctx.require(all(a == 0.5 or a == b or m == 'persist' for a, b, m in zip(p, t, modes)), 'partial labels {} known as {}', t, p)
    model.clear()
    ctx.require(model.is_valid and model.is_all_valid, 'invalid after clear()')
    ctx.arr_eq(model.predict(X), np.full(n, 0.5), 'prediction after clear()')


@check.sub(st.fixed_dictionaries({'c': cases(), 'skip': st.integers(0, 3), 'factorized': st.booleans()}), quick=250, thorough=10000, shards=2)
def fed_from_the_dataset(case, ctx):
    """ Updated from the dataset, whatever the number of batches before the first update, the model knows all labels (and, again, after a clear). """
    c = case['c']
    X, Y, partition, modes = build(c)
    n, k = Y.shape
    y = Y.min(axis=1)
    def make():
        return FactorizedPolytopeModel(partition, modes) if case['factorized'] else PolytopeModel('persist')
    model = make()
    for attempt in range(2):
        data = PartitionedDataset(X.copy())
        direct = make()
        updates = 0
        for i, b in enumerate(batches(c, n)):
            idx = list(range(n))[b]
            data.move_to_labeled(LabeledSet(y[idx], Y[idx], index=idx))
            if i < case['skip'] and b.stop < n:
                continue
            if not model.is_valid:
                break
            ok = model.update_data(data)
            start = 0 if updates == 0 else b.start
            expected = direct.update(X[start:b.stop], Y[start:b.stop] if case['factorized'] else y[start:b.stop])
            updates += 1
            ctx.eq(bool(ok), bool(expected), 'result of the update')
            ctx.arr_eq(model.predict(X), direct.predict(X), 'predictions after {} labels'.format(b.stop))
        ctx.nontrivial(updates > 1 and case['skip'] > 0)
        model.clear()


@check.sub(st.fixed_dictionaries({'k': st.integers(1, 4), 'm': st.integers(1, 4), 'mode': st.sampled_from(['positive', 'foo', 'Positive', '', 'persist'])}), quick=100)
def arguments(case, ctx):
    partition, modes = [[i] for i in range(case['k'])], [case['mode']] * case['m']
    bad = case['mode'] not in MODES
    if bad or case['k'] != case['m']:
        ctx.raises(ValueError, lambda: FactorizedPolytopeModel(partition, modes), '{} modes {} for {} subspaces'.format(case['m'], case['mode'], case['k']))
    else:
        FactorizedPolytopeModel(partition, modes)
    if bad:
        ctx.raises(ValueError, lambda: PolytopeModel(case['mode']), 'mode {!r}'.format(case['mode']))
    # without partition there is a single subspace: the whole space
    model, plain = FactorizedPolytopeModel(), PolytopeModel()
    X = gen.rs(case['k']).randn(12, 2)
    y = (np.abs(X) < 1).all(axis=1).astype(int)
    model.update(X, y.reshape(-1, 1))
    plain.update(X, y)
    ctx.arr_eq(model.predict(X), plain.predict(X), 'predictions')
    ctx.nontrivial(bad or case['k'] != case['m'])
