import itertools

import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.inference.inference import Inference

check = core.Check('C17', rule='random histories of labeled points over a small grid of categorical values, in 1 to 3 subspaces, consistent with hidden partial labels or not; what must be known '
                   'is computed by enumerating all assignments of partial labels; non-trivial: a partial label followed from a negative point, or a contradiction appeared')


@st.composite
def cases(draw):
    k = draw(st.integers(1, 3))
    widths = draw(st.lists(st.integers(1, 2), min_size=k, max_size=k))
    nvals = draw(st.lists(st.integers(1, 3), min_size=k, max_size=k))
    n = draw(st.integers(1, 10))
    return {'widths': widths, 'nvals': nvals, 'points': draw(st.lists(st.lists(st.integers(0, 2), min_size=k, max_size=k), min_size=n, max_size=n)), 'hidden': draw(st.integers(0, 2 ** 9 - 1)),
            'labels': draw(gen.bits(n)), 'consistent': draw(st.sampled_from([True, True, False])), 'sizes': draw(st.lists(st.integers(0, 3), min_size=1, max_size=8)), 'seed': draw(gen.seeds())}


@check.sub(cases(), quick=900, thorough=50000, shards=3)
def entailment(case, ctx):
    k = len(case['widths'])
    r = gen.rs(case['seed'])
    # the values of each subspace: rows of width w
    values = [r.permutation(10)[:3].reshape(3, 1) * np.ones((1, w)) + np.arange(w) for w in case['widths']]
    perm = r.permutation(sum(case['widths']))
    starts = np.cumsum([0] + case['widths'])
    partition = [[int(c) for c in perm[starts[j]:starts[j + 1]]] for j in range(k)]
    codes = [tuple(v % m for v, m in zip(p, case['nvals'])) for p in case['points']]

    def row(code):
        x = np.empty(sum(case['widths']))
        for j, p in enumerate(partition):
            x[p] = values[j][code[j]]
        return x

    atoms = [(j, v) for j in range(k) for v in range(case['nvals'][j])]
    hidden = {a for i, a in enumerate(atoms) if (case['hidden'] >> i) & 1}
    y = [int(all((j, v) in hidden for j, v in enumerate(c))) for c in codes] if case['consistent'] else case['labels']
    worlds = [set(a for a, on in zip(atoms, w) if on) for w in itertools.product([0, 1], repeat=len(atoms))]
    grid = list(itertools.product(*[range(m) for m in case['nvals']]))
    Q = np.array([row(c) for c in grid])

    inf = Inference(partition)
    ctx.arr_eq(inf.predict(Q), np.full(len(Q), 0.5), 'prediction of a new model')
    i = 0
    for size in case['sizes'] + [len(codes)]:
        batch = list(range(i, min(len(codes), i + size)))
        i += size
        if not batch:
            continue
        for b in batch:
            worlds = [w for w in worlds if all((j, v) in w for j, v in enumerate(codes[b])) == bool(y[b])]
        Xb, yb = np.array([row(codes[b]) for b in batch]), np.array([y[b] for b in batch])
        if not worlds:
            ctx.raises(RuntimeError, lambda: inf.update(Xb, yb), 'contradicting labels {}'.format(list(zip(codes, y))[:i]))
            inf.clear()
            ctx.arr_eq(inf.predict_partial(Q), np.full((len(Q), k), 0.5), 'prediction after clear()')
            ctx.require(inf.is_valid, 'invalid after clear()')
            ctx.nontrivial()
            ctx.label('contradiction')
            return
        inf.update(Xb, yb)
        ctx.require(inf.is_valid, 'invalid without any contradiction')
        pos, neg = set.intersection(*worlds), set(atoms) - set.union(*worlds)
        expected = np.array([[1. if (j, v) in pos else 0. if (j, v) in neg else 0.5 for j, v in enumerate(c)] for c in grid])
        ctx.arr_eq(inf.predict_partial(Q), expected, 'partial labels after {}'.format(list(zip(codes, y))[:i]))
        ctx.arr_eq(inf.predict(Q), expected.min(axis=1), 'labels after {}'.format(list(zip(codes, y))[:i]))
        ctx.nontrivial(k > 1 and neg)
    # the same labels in another order tell the same
    other = Inference(partition)
    for b in r.permutation(len(codes)):
        other.update(row(codes[b]), np.array([y[b]]))
    ctx.arr_eq(other.predict_partial(Q), inf.predict_partial(Q), 'partial labels in another order')


@st.composite
def pending(draw):
    k = draw(st.sampled_from([2, 3, 2, 3, 4, 5]))
    n, m = draw(st.one_of(st.integers(3, 14), st.integers(3, 14), st.integers(15, 40))), draw(st.integers(3, 9))
    few = draw(st.integers(1, 2))  # values of the first subspace: many negative points wait for the same answer
    return {'k': k, 'neg': [[draw(st.integers(0, few - 1))] + draw(st.lists(st.integers(0, m - 1), min_size=k - 1, max_size=k - 1)) for _ in range(n)],
            'pos': draw(st.lists(st.lists(st.integers(0, m), min_size=k, max_size=k), min_size=1, max_size=4)), 'when': draw(st.lists(st.integers(0, n), min_size=4, max_size=4)), 'batch': draw(st.integers(1, 20)),
            'perm': draw(gen.seeds()), 'before': draw(st.booleans())}


@check.sub(pending(), quick=600, thorough=40000, shards=2)
def pending_answers(case, ctx):
    """ Many negative points which cannot be explained yet: later positive ones tell which partial labels are negative. """
    k = case['k']
    perm = [int(i) for i in gen.rs(case['perm']).permutation(k)]
    history = [(tuple(p), 0) for p in case['neg']]
    for w, p in sorted(zip(case['when'], case['pos']), key=lambda t: -t[0]):
        history.insert(w, (tuple(p), 1))
    # drop the negative points which would contradict: all their partial labels are positive in the end
    final = {(j, v) for p, lb in history if lb == 1 for j, v in enumerate(p)}
    history = [(p, lb) for p, lb in history if lb == 1 or any((j, v) not in final for j, v in enumerate(p))]
    inf = Inference([[perm.index(j)] for j in range(k)])
    values = sorted({v for p, _ in history for v in p})
    Q = [tuple(p) for p, _ in history] + [tuple([v] * k) for v in values] + [(0,) + tuple([v] * (k - 1)) for v in values]

    def rows(codes):
        return np.array([[c[perm[i]] for i in range(k)] for c in codes], dtype=float)
    if case['before']:  # the same negative points, all pending, and forgotten
        inf.update(rows([tuple(p) for p in case['neg']]), np.zeros(len(case['neg'])))
        inf.clear()
    done, resolved, seen = [], 0, 0
    for i in range(0, len(history), case['batch']):
        part = history[i:i + case['batch']]
        inf.update(rows([p for p, _ in part]), np.array([lb for _, lb in part]))
        done += part
        pos = {(j, v) for p, lb in done if lb == 1 for j, v in enumerate(p)}
        neg = set()
        for p, lb in done:
            rest = [a for a in enumerate(p) if a not in pos]
            if lb == 0 and len(rest) == 1:  # all others are positive; and nothing else can ever be entailed: the remaining labels may all be negative, or all but one of a point be positive
                neg.add(rest[0])
        expected = np.array([[1. if a in pos else 0. if a in neg else 0.5 for a in enumerate(q)] for q in Q])
        ctx.arr_eq(inf.predict_partial(rows(Q)), expected, 'partial labels of {} after {}'.format(Q, done))
        resolved = max(resolved, len(neg) - seen)
        seen = len(neg)
    ctx.nontrivial(resolved >= 2)
    ctx.label('{} partial labels resolved at once'.format(min(resolved, 4)))
