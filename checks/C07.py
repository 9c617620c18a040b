import numpy as np
from hypothesis import strategies as st

import core
import gen
import zoo
from aideme import PoolBasedExploration, max_iter_reached, stratified_sampler
from aideme.initial_sampling import random_sampler
from aideme.explore import LabeledSet
from exploration import Exploration, config
from common import rows_dataset

check = core.Check('C07', rule='explorations with recording doubles and with every exported learner: the same seed on a fresh learner, after other (complete or '
                   'abandoned) runs on the same learner, as one of several repeats, and under another global random state; non-trivial: at least three iterations '
                   'of which one in the exploration phase')

def norm(x):
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def strip(iters):
    """ Everything but the execution times. """
    return [{k: norm(v) for k, v in m.items() if not k.endswith('_time')} for m in iters]


@check.sub(config(max_n=14), quick=500, shards=2)
def loop(case, ctx):
    """ Samplers, subsampling, noise and batches only depend on the seed. """
    def run():
        return strip(Exploration(case).run()[0])
    first = run()
    np.random.rand(1 + case['seed'] % 50)
    ctx.eq(run(), first, 'second run with the same seed')
    # several seeds, in one go: each run is the one of its own seed, whatever the order and the runs before
    seeds = [case['run_seed'] + 1, case['run_seed'], case['run_seed'] + 1]
    e = Exploration(case)
    runs = e.explorer.run(e.X.copy(), e.labels, e.learner, repeat=3, seeds=seeds, copy=case['copy'], return_generator=False)
    ctx.eq(len(runs), 3, 'number of runs')
    ctx.eq(strip(runs[1]), first, 'run with the same seed, as the second of three')
    ctx.eq(strip(runs[0]), strip(runs[2]), 'two runs with the same seed')
    # a run which is abandoned half-way leaves nothing behind
    e = Exploration(case)
    gens = e.explorer.run(e.X.copy(), e.labels, e.learner, repeat=2, seeds=[case['run_seed'] + 5, case['run_seed']], copy=case['copy'])
    g = next(gens)
    for _ in range(1 + case['seed'] % 3):
        next(g, None)
    ctx.eq(strip(dict(m) for m in next(gens)), first, 'run after an abandoned one')
    ctx.nontrivial(len(first) >= 3)


def learner_case():
    return st.fixed_dictionaries({'learner': st.sampled_from(sorted(zoo.LEARNERS) + sorted(zoo.FACTORIZED)), 'n': st.integers(12, 30), 'd': st.integers(2, 3),
                                  'seed': gen.seeds(), 'run_seed': st.integers(0, 1000), 'other': st.integers(1001, 2000), 'iters': st.integers(3, 7),
                                  'abandon': st.one_of(st.none(), st.integers(1, 5)), 'sub': st.one_of(st.none(), st.integers(5, 15)),
                                  'sampler': st.sampled_from(['stratified', 'random'])})


@check.sub(learner_case(), quick=30, thorough=4000, shards=8, rule='every exported learner in turn')
def learners(case, ctx):
    n, d = case['n'], case['d']
    r = gen.rs(case['seed'])
    X = r.randn(n, d).round(2)
    X[:, 0] += np.arange(n) * 1e-4
    P = np.c_[np.abs(X[:, 0]) < 0.7, X[:, 1:].sum(axis=1) < 0.5].astype(int)
    P[0], P[1] = 1, 0
    y = P.min(axis=1)
    if case['learner'] == 'linear_vs':  # assumes linearly separable labels
        s = X.dot(np.cos(np.arange(d) + case['seed'] % 7))
        y = (s > np.median(s)).astype(int)
    ls = LabeledSet(y, P if case['learner'] in zoo.FACTORIZED else None)

    def make():
        return zoo.LEARNERS[case['learner']]() if case['learner'] in zoo.LEARNERS else zoo.FACTORIZED[case['learner']]([[0], list(range(1, d))])

    def callback(data, learner):
        if case['learner'] in ('sub_sm',):
            return {'pred': learner.predict(X)}
        return {'pred': learner.predict(X), 'proba': learner.predict_proba(X)} if hasattr(learner, 'clf') and case['learner'].startswith('uncertainty') else {'pred': learner.predict(X)}

    def explore(learner, seeds, **kwargs):
        def cb(data, lrn):
            return callback(data, lrn) if 0 < data.training_set()[1].sum() < data.labeled_size else {}
        sampler = random_sampler(2) if case['sampler'] == 'random' else stratified_sampler(ls)
        if case['learner'] in zoo.FACTORIZED:
            sampler = stratified_sampler(ls, neg_in_all_subspaces=True)  # both classes in every subspace
        explorer = PoolBasedExploration(sampler, subsampling=case['sub'], callback=cb, convergence_criteria=max_iter_reached(case['iters']))
        return explorer.run(X, ls, learner, repeat=len(seeds), seeds=seeds, **kwargs)

    ref = strip(dict(m) for m in next(explore(make(), [case['run_seed']])))
    learner = make()
    gens = explore(learner, [case['other'], case['run_seed']])
    g = next(gens)
    for i, _ in enumerate(g, start=1):
        if case['abandon'] is not None and i >= case['abandon']:
            break
    again = strip(dict(m) for m in next(gens))
    for i, (a, b) in enumerate(zip(again, ref)):
        ctx.eq(set(a), set(b), '{}: metrics of iteration {}'.format(case['learner'], i + 1))
        for k in b:
            ctx.eq(a[k], b[k], '{}: {} of iteration {}, on a learner already used'.format(case['learner'], k, i + 1))
    ctx.eq(len(again), len(ref), 'number of iterations')
    ctx.label(case['learner'])
    ctx.nontrivial(len(ref) >= 3 and any(m['phase'] == 'exploration' for m in ref))


@check.sub(st.fixed_dictionaries({'repeat': st.integers(1, 4), 'k': st.integers(0, 5), 'form': st.sampled_from(['list', 'int', 'none', 'tuple'])}), quick=100)
def seed_argument(case, ctx):
    """ One seed per run; anything else is rejected; runs without seeds differ from nothing but in their randomness. """
    from common import RecordingLearner
    seeds = {'list': list(range(case['k'])), 'tuple': tuple(range(case['k'])), 'int': 3, 'none': None}[case['form']]
    size = {'int': 1, 'none': case['repeat']}.get(case['form'], case['k'])
    X, y = rows_dataset(6, 2, 0), [0, 1] * 3

    def run():
        return PoolBasedExploration().run(X, y, RecordingLearner(), repeat=case['repeat'], seeds=seeds, return_generator=False)
    if size != case['repeat']:
        ctx.raises(ValueError, run, '{} seeds for {} runs'.format(size, case['repeat']))
    else:
        runs = run()
        ctx.eq([len(r) for r in runs], [6] * case['repeat'], 'iterations per run')
        for r in runs:
            ctx.eq(sorted(m['labeled_indexes'][0] for m in r), list(range(6)), 'indexes asked')
    ctx.nontrivial(case['repeat'] > 1)


@check.sub(st.fixed_dictionaries({'seed': st.integers(0, 2 ** 32 - 1), 'other': st.one_of(st.integers(0, 2 ** 32 - 1), st.sampled_from([0, 1, 1000, 2 ** 31])), 'burn': st.integers(0, 40)}), quick=200)
def generators(case, ctx):
    """ A seed determines everything NumPy and Python draw from then on; distinct seeds do not coincide; a generator given is the one being used. """
    import random
    from aideme.utils.random import get_random_state, set_random_state

    def draw():
        return np.random.rand(3).tolist() + [random.random() for _ in range(3)]
    set_random_state(case['seed'])
    first = draw()
    np.random.rand(case['burn'])
    [random.random() for _ in range(case['burn'])]
    set_random_state(case['seed'])
    ctx.eq(draw(), first, 'numbers drawn with the same seed')
    for other in (case['other'], case['seed'] % 1000, case['seed'] % 2 ** 16):
        if other == case['seed']:
            continue
        set_random_state(other)
        again = draw()
        ctx.require(again[:3] != first[:3] and again[3:] != first[3:], 'seeds {} and {} yield the same numbers', case['seed'], other)
        ctx.require(get_random_state(other).rand() != get_random_state(case['seed']).rand(), 'random states of seeds {} and {} coincide', case['seed'], other)
        ctx.nontrivial()
    set_random_state(None)
    fresh = draw()
    set_random_state()
    ctx.require(draw() != fresh, 'the same numbers without seed')
    ctx.eq(get_random_state(case['seed']).rand(4).tolist(), get_random_state(case['seed']).rand(4).tolist(), 'random states of the same seed')
    mine, copy = np.random.RandomState(case['seed']), np.random.RandomState(case['seed'])
    used = get_random_state(mine)
    ctx.eq(used.rand(3).tolist(), copy.rand(3).tolist(), 'numbers of the generator given')
    ctx.eq(mine.rand(3).tolist(), copy.rand(3).tolist(), 'the generator given did not advance')
