import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.factorization.penalty import HuberPenalty, InteractionPenalty, L1Penalty, L2Penalty, L2SqrtPenalty, SparseGroupLassoPenalty

check = core.Check('C27', rule='random weight matrices (with zero rows, columns and entries), penalties, feature groups and step sizes; non-trivial: at least two non-zero entries',
                   assumptions=['feature groups are disjoint and cover all attributes'])

KINDS = ['L1', 'L2', 'L2Sqrt', 'L2Sqrt groups', 'SGL', 'SGL groups', 'SGL set groups', 'Interaction', 'Huber']


def make(case):
    kind, lam, lam2, groups = case['kind'], case['lam'], case['lam2'], case['groups']
    if kind == 'L1':
        return L1Penalty(lam)
    if kind == 'L2':
        return L2Penalty(lam)
    if kind == 'L2Sqrt groups' and case['set']:
        pen = L2SqrtPenalty(lam, [[0]] if case['twice'] else None)
        pen.groups = case['groups']
        return pen
    if kind == 'L2Sqrt' and case['set']:
        pen = L2SqrtPenalty(lam, case['groups'])
        pen.groups = None  # a single group
        return pen
    if kind == 'SGL' and case['set']:
        pen = SparseGroupLassoPenalty(lam, lam2, case['groups'])
        pen.groups = None
        return pen
    if kind.startswith('L2Sqrt'):
        return L2SqrtPenalty(lam, groups if 'groups' in kind else None)
    if kind == 'SGL set groups':
        pen = SparseGroupLassoPenalty(lam, lam2)
        if case['twice']:
            pen.groups = [[0]]
        pen.groups = groups
        return pen
    if kind.startswith('SGL'):
        return SparseGroupLassoPenalty(lam, lam2, groups if 'groups' in kind else None)
    return InteractionPenalty(lam) if kind == 'Interaction' else HuberPenalty(lam, case['delta'])


def value(case, W):
    """ The penalty, by its definition, entry by entry. """
    kind, lam, lam2 = case['kind'], case['lam'], case['lam2']
    rows = [[float(v) for v in w] for w in W]

    def norm(w, g):
        return sum(w[q] ** 2 for q in g) ** 0.5
    everything = range(len(rows[0]))
    if kind == 'L1':
        return lam * sum(abs(v) for w in rows for v in w)
    if kind == 'L2':
        return lam * sum(v * v for w in rows for v in w)
    if kind == 'L2Sqrt':
        return lam * sum(norm(w, everything) for w in rows)
    if kind == 'L2Sqrt groups':
        return lam * sum(norm(w, g) for w in rows for g in case['groups'])
    if kind == 'SGL':
        return lam * sum(abs(v) for w in rows for v in w) + lam2 * sum(norm(w, everything) for w in rows)
    if kind in ('SGL groups', 'SGL set groups'):
        return lam * sum(norm(w, g) for w in rows for g in case['groups']) + lam2 * sum(norm(w, everything) for w in rows)
    if kind == 'Interaction':
        return lam * sum((rows[i][q] * rows[j][q]) ** 2 for i in range(len(rows)) for j in range(i) for q in everything)
    return lam / case['delta'] * sum(v * v / 2 if abs(v) <= case['delta'] else case['delta'] * (abs(v) - case['delta'] / 2) for w in rows for v in w)


@st.composite
def cases(draw, kinds=KINDS):
    k, d = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 13])), draw(st.sampled_from([1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 9]))
    perm = draw(st.permutations(list(range(d))))
    cuts = sorted(set(draw(st.lists(st.integers(1, d), max_size=3 if d < 9 else 12)) + [d]))
    groups = [list(perm[a:b]) for a, b in zip([0] + cuts, cuts)]
    lam = st.sampled_from([1e-4, 0.1, 0.5, 1., 3.])
    return {'kind': draw(st.sampled_from(kinds)), 'k': k, 'd': d, 'seed': draw(gen.seeds()), 'lam': draw(lam), 'lam2': draw(lam), 'groups': groups, 'twice': draw(st.booleans()), 'set': draw(st.sampled_from([False, False, True])), 'delta': draw(st.sampled_from([1e-3, 0.3, 2., 1e-5])),
            'zero_rows': draw(st.lists(st.integers(0, k - 1), max_size=2)), 'zero_cols': draw(st.lists(st.integers(0, d - 1), max_size=2)), 'sparse': draw(st.sampled_from([0., 0., 0.5])),
            'scale': draw(st.sampled_from([1e-3, 1., 1., 20.])), 'eta': draw(st.sampled_from([1e-3, 0.3, 1., 5.]))}


def weights(case):
    r = gen.rs(case['seed'])
    W = case['scale'] * r.randn(case['k'], case['d'])
    W[r.rand(*W.shape) < case['sparse']] = 0
    W[case['zero_rows']] = 0
    W[:, case['zero_cols']] = 0
    return W, r


def challengers(W, r, scale):
    """ Points to compare with: nearby, far, zeroed rows and entries. """
    for s in (1e-3, 0.1, 1., 3.):
        for _ in range(3):
            yield W + s * scale * r.randn(*W.shape)
    yield np.zeros_like(W)
    yield 2 * W
    for j in range(len(W)):
        Z = W.copy()
        Z[j] = 0
        yield Z
        for q in range(W.shape[1]):
            for delta in (-W[j, q], 1e-2 * scale, -1e-2 * scale):
                Z = W.copy()
                Z[j, q] += delta
                yield Z


@check.sub(cases(), quick=1500, thorough=60000, shards=2)
def values(case, ctx):
    """ Value and gradient. """
    W, r = weights(case)
    pen = make(case)
    V = W.copy()
    f = value(case, W)
    ctx.close(pen.loss(V), f, 'penalty', rtol=1e-9, atol=1e-12)
    g = np.broadcast_to(np.asarray(pen.grad(V), dtype=float), W.shape)
    ctx.arr_eq(V, W, 'weights after computing loss and gradient')
    ctx.nontrivial((W != 0).sum() > 1)
    ctx.label(case['kind'])
    if case['kind'] != 'Interaction':  # convex: the gradient is a subgradient
        for Z in challengers(W, r, case['scale']):
            ctx.require(value(case, Z) >= f + float((g * (Z - W)).sum()) - 1e-9 * (1 + f + value(case, Z)), 'the gradient {} at {} is not a subgradient: see {}', g, W, Z)
    # where smooth, compare with differences
    if not len(case['zero_rows']) and not len(case['zero_cols']) and not case['sparse']:
        h = 1e-6 * case['scale']
        for j in range(case['k']):
            for q in range(case['d']):
                if abs(W[j, q]) < 1e-3 * case['scale'] or abs(abs(W[j, q]) - case['delta']) < min(1e-4, 0.2 * case['delta']) + 2 * h:
                    continue
                A, B = W.copy(), W.copy()
                A[j, q] += h
                B[j, q] -= h
                ctx.close(g[j, q], (value(case, A) - value(case, B)) / (2 * h), 'derivative', rtol=1e-3, atol=1e-4 * (1 + np.abs(g).max()))


PROXIMAL = ['L1', 'L2', 'L2Sqrt', 'L2Sqrt groups', 'SGL', 'SGL groups', 'SGL set groups']


@check.sub(cases(PROXIMAL), quick=1500, thorough=60000, shards=2)
def proximal(case, ctx):
    """ prox(W) minimizes pen(Y) + |Y - W|^2 / (2 eta), a strongly convex function. """
    W, r = weights(case)
    pen = make(case)
    eta = case['eta']
    V = W.copy()
    P = np.asarray(pen.proximal(V, eta))
    ctx.arr_eq(V, W, 'weights after the proximal operator')
    ctx.eq(P.shape, W.shape, 'shape of the proximal point')
    ctx.require(np.isfinite(P).all(), 'proximal point {}', P)

    def objective(Y):
        return value(case, Y) + ((Y - W) ** 2).sum() / (2 * eta)
    best = objective(P)
    for Z in list(challengers(P, r, case['scale'])) + list(challengers(W, r, case['scale'])):
        f = objective(Z)
        ctx.require(f >= best + ((Z - P) ** 2).sum() / (2 * eta) - 1e-9 * (1 + abs(f) + best), 'proximal point of {} with step {}: {} has objective {}, but {} has {}', W, eta, P, best, Z, f)
    ctx.nontrivial((P != 0).sum() > 1 or (W != 0).sum() > 1 and (P == 0).all())
    ctx.label(case['kind'], 'shrunk to zero' if ((P == 0).all(axis=1) & (W != 0).any(axis=1)).any() else 'moved')


@check.sub(cases(PROXIMAL + ['Huber']), quick=1500, thorough=60000, shards=2)
def subgradients(case, ctx):
    """ is_subgradient accepts v iff pen(z) >= pen(x) + v (z - x) for all z (up to the tolerance). """
    W, r = weights(case)
    pen = make(case)
    if case['kind'] == 'Huber':
        x, v = W, np.asarray(pen.grad(W.copy()))
    else:
        x = np.asarray(pen.proximal(W.copy(), case['eta']))
        v = (W - x) / case['eta']  # optimality condition of the proximal point
    tol = 1e-6 * (1 + np.abs(W).max() / case['eta'])
    ctx.require(bool(pen.is_subgradient(v.copy(), x.copy(), tol)), '{} is a subgradient of {} at {}, but was refused', v, case['kind'], x)
    wrong = v.copy()
    j, q = r.randint(case['k']), r.randint(case['d'])
    wrong[j, q] += r.choice([-1, 1]) * r.choice([0.01, 0.3, 1., 4.]) * (case['lam'] + case['lam2'])
    f = value(case, x)
    violated = 0.
    for Z in challengers(x, r, 1.):
        gap = f + float((wrong * (Z - x)).sum()) - value(case, Z)
        size = np.abs(Z - x).sum()
        if size > 0:
            violated = max(violated, gap / size)
    if violated > 20 * tol:
        ctx.require(not pen.is_subgradient(wrong.copy(), x.copy(), tol), '{} was accepted as subgradient of {} at {}', wrong, case['kind'], x)
        ctx.label('refused')
        ctx.nontrivial((x != 0).sum() > 0)
    ctx.label(case['kind'])


@check.sub(st.fixed_dictionaries({'kind': st.sampled_from(KINDS), 'bad': st.sampled_from([0., -1., 1e-3]), 'case': cases()}), quick=150)
def arguments(case, ctx):
    c = dict(case['case'], kind=case['kind'])
    pen = make(c)
    W, _ = weights(c)
    if case['bad'] <= 0:
        ctx.raises(ValueError, lambda: make(dict(c, lam=case['bad'])), 'penalty {}'.format(case['bad']))

        def assign():
            pen.penalty = case['bad']
        ctx.raises(ValueError, assign, 'assigning the penalty {}'.format(case['bad']))
        ctx.close(pen.loss(W), value(c, W), 'penalty after the rejected assignment', rtol=1e-9, atol=1e-12)
        ctx.nontrivial()
    elif case['kind'] != 'Huber':
        pen.penalty = 0.7
        ctx.close(pen.loss(W), value(dict(c, lam=0.7, lam2=0.7), W), 'penalty after an assignment', rtol=1e-9, atol=1e-12)
        if case['kind'].startswith('SGL'):
            pen.groups = None
            ctx.close(pen.loss(W), value(dict(c, kind='SGL', lam=0.7, lam2=0.7), W), 'penalty after removing the groups', rtol=1e-9, atol=1e-12)
            ctx.eq(pen.groups, None, 'groups')
    if case['kind'] in ('SGL groups', 'SGL set groups'):
        other = make(c)
        ctx.eq(other.groups, c['groups'], 'groups')
