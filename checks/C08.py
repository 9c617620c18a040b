import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme import PoolBasedExploration, random_noise_injector, stratified_sampler
from aideme.explore import LabeledSet
from common import RecordingLearner, rows_dataset

check = core.Check('C08', rule='random label sets (final label = all partial labels positive), noise levels and iteration numbers; whole explorations with noise; '
                   'non-trivial: at least one label was flipped and one was not, or partial labels had to follow')


def consistent_labels(r, n, k):
    partial = r.randint(0, 2, size=(n, k)) | (r.rand(n, 1) < 0.5)
    return partial.min(axis=1), partial


@check.sub(st.fixed_dictionaries({'n': st.integers(0, 40), 'k': st.integers(0, 4), 'seed': gen.seeds(), 'rng': gen.seeds(), 'noise': st.one_of(st.sampled_from([0., 0.5, 1.]), st.floats(0, 1)),
                                  'skip': st.integers(0, 5), 'iteration': st.integers(0, 8), 'own': st.booleans()}), quick=1500, shards=2)
def injector(case, ctx):
    """ Flipped labels stay labels, of the same points, with consistent partial labels; the user's labels are not touched. """
    n, k = case['n'], case['k']
    r = gen.rs(case['seed'])
    y, partial = consistent_labels(r, n, max(k, 1))
    index = r.permutation(5 * n)[:n] if case['own'] else None
    ls = LabeledSet(y, partial if k else None, index)
    before = ls.labels.tolist(), ls.partial.tolist(), ls.index.tolist()
    inject = random_noise_injector(case['noise'], case['skip'])
    np.random.seed(case['rng'] % 2 ** 32)
    out = inject(case['iteration'], ls)
    ctx.eq((ls.labels.tolist(), ls.partial.tolist(), ls.index.tolist()), before, 'labels of the user')
    ctx.eq(out.index.tolist(), before[2], 'index of the noisy labels')
    new, old = out.labels.tolist(), before[0]
    ctx.require(set(new) <= {0, 1} and len(new) == n, 'noisy labels {}', new)
    flipped = [a != b for a, b in zip(new, old)]
    if case['iteration'] <= case['skip'] or case['noise'] == 0:
        ctx.eq(sum(flipped), 0, 'flipped labels without noise (iteration {}, skip {})'.format(case['iteration'], case['skip']))
    elif case['noise'] == 1:
        ctx.eq(sum(flipped), n, 'flipped labels with certain noise')
    for a, b, p, q in zip(new, old, out.partial.tolist(), before[1]):
        if a == b:
            ctx.eq(p, q, 'partial labels of an unchanged label')
        elif a == 1:
            ctx.eq(p, [1] * len(q), 'partial labels of a label flipped to positive')
        else:
            ctx.require(sorted(p) == sorted([0] + q[1:]) and len(p) == len(q), 'label flipped to negative: partial labels went from {} to {}', q, p)
    ctx.label('k=%d' % k, 'skipped' if case['iteration'] <= case['skip'] else 'noise')
    ctx.nontrivial(any(flipped) and (not all(flipped) or k > 1))


@check.sub(st.fixed_dictionaries({'k': st.integers(1, 4), 'rng': gen.seeds(), 'noise': st.sampled_from([0.05, 0.2, 0.5, 0.8, 0.95]), 'skip': st.integers(0, 2), 'batches': st.sampled_from([1, 20, 20, 4000, 10000]), 'late': st.sampled_from([0, 0, 7, 50, 1000])}), quick=60)
def frequency(case, ctx):
    """ Positive and negative labels are flipped with the given probability, independently; the subspace blamed is uniform. """
    n, k = 20000, case['k']
    y = np.arange(n) % 2
    partial = np.repeat(y.reshape(-1, 1), k, axis=1)
    inject = random_noise_injector(case['noise'], case['skip'])
    np.random.seed(case['rng'] % 2 ** 32)
    outs = [inject(case['skip'] + 1 + case['late'] + i, LabeledSet(y[part], partial[part], part)) for i, part in enumerate(np.array_split(np.arange(n), case['batches']))]
    labels, partial = np.hstack([o.labels for o in outs]), np.vstack([o.partial for o in outs])
    flips = labels != y
    for value in (0, 1):
        rate, m = flips[y == value].mean(), n // 2
        tol = 7 * np.sqrt(case['noise'] * (1 - case['noise']) / m)
        ctx.require(abs(rate - case['noise']) < tol, 'labels {} were flipped with frequency {} instead of {}', value, rate, case['noise'])
    together = (flips[0::2] & flips[1::2]).mean()  # a positive and a negative label next to each other
    p = case['noise'] ** 2
    ctx.require(abs(together - p) < 7 * np.sqrt(p * (1 - p) / (n // 2)), 'neighbours flip together with frequency {} instead of {}', together, p)
    blamed = 1 - partial[(y == 1) & flips]
    m = len(blamed)
    for j in range(k):
        ctx.require(abs(blamed[:, j].mean() - 1 / k) <= 7 * np.sqrt((1 / k) * (1 - 1 / k) / m), 'subspace {} takes the blame with frequency {} instead of {}', j, blamed[:, j].mean(), 1 / k)
    ctx.nontrivial()


@check.sub(st.fixed_dictionaries({'n': st.integers(6, 25), 'k': st.integers(0, 3), 'seed': gen.seeds(), 'skip': st.integers(0, 5), 'noise': st.sampled_from([1., 1., 0.5, 0.]), 'run_seed': st.integers(0, 1000),
                                  'repeat': st.integers(1, 2)}), quick=300)
def exploration(case, ctx):
    """ Initial sampling and the first skip_initial iterations of the exploration are noise-free; models only see the noisy labels. """
    n, k = case['n'], case['k']
    y, partial = consistent_labels(gen.rs(case['seed']), n, max(k, 1))
    y[0], partial[0], y[1], partial[1] = 1, 1, 0, 0
    ls = LabeledSet(y, partial if k else None)
    learner = RecordingLearner(1)
    explorer = PoolBasedExploration(stratified_sampler(ls), noise_injector=random_noise_injector(case['noise'], case['skip']))
    for run in explorer.run(rows_dataset(n, 2, 5), ls, learner, repeat=case['repeat'], seeds=[case['run_seed'] + i for i in range(case['repeat'])]):
        seen, explored = {}, 0
        for m in run:
            true = [int(y[i]) for i in m['labeled_indexes']]
            ctx.eq([int(v) for v in m['labels']], true, 'labels of the user')
            noisy = [int(v) for v in m.get('noisy_labels', m['labels'])]
            if m['phase'] == 'initial_sampling':
                ctx.eq(noisy, true, 'labels of the initial sampling')
            else:
                explored += 1
                if explored <= case['skip'] or case['noise'] == 0:
                    ctx.eq(noisy, true, 'labels of exploration iteration {} (skip_initial={})'.format(explored, case['skip']))
                elif case['noise'] == 1:
                    ctx.eq(noisy, [1 - v for v in true], 'labels of exploration iteration {} (skip_initial={})'.format(explored, case['skip']))
            if k > 1:
                for v, p in zip(noisy, m.get('noisy_partial_labels', m['partial_labels'])):
                    ctx.eq(min(p), v, 'noisy label is the conjunction of the noisy partial labels')
            seen.update(zip(m['labeled_indexes'], noisy))
            X, yt = learner.fits[-1]
            ctx.eq({int(row[0]): int(v) for row, v in zip(X, yt)}, {int(i): v for i, v in seen.items()}, 'training set')
        ctx.nontrivial(explored > case['skip'] + 1 and case['noise'] > 0)


@check.sub(st.fixed_dictionaries({'noise': st.one_of(st.floats(-3, 3), st.sampled_from([-1e-9, 1 + 1e-9, 0, 1])), 'skip': st.integers(-3, 3)}), quick=200)
def arguments(case, ctx):
    valid = 0 <= case['noise'] <= 1 and case['skip'] >= 0
    if valid:
        random_noise_injector(case['noise'], case['skip'])
    else:
        ctx.raises(ValueError, lambda: random_noise_injector(case['noise'], case['skip']), 'noise={}, skip_initial={}'.format(case['noise'], case['skip']))
    ctx.nontrivial(not valid)
