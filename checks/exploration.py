""" Generated explorations with recording test doubles: what happened is collected, the checks judge it. """
import numpy as np
from hypothesis import strategies as st

import gen
from aideme import PoolBasedExploration, RandomSampler, max_iter_reached, metric_reached_threshold, random_noise_injector, stratified_sampler, fixed_sampler
from aideme.initial_sampling import random_sampler
from aideme.explore import LabeledSet
from common import RecordingLearner, RowClassifier, rows_dataset


def config(noise=True, max_n=22, large_n=0):
    return st.fixed_dictionaries({
        'n': st.one_of(*[st.integers(2, max_n)] * 9, st.integers(28, large_n)) if large_n else st.integers(2, max_n), 'd': st.integers(1, 3), 'seed': gen.seeds(), 'k': st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 5]), 'own_index': st.booleans(),
        'pos_every': st.sampled_from([2, 2, 3, 3, 4, 4, 40]), 'sampler': st.sampled_from(['none', 'none', 'stratified', 'stratified2', 'random', 'random', 'fixed']),
        'sample_size': st.sampled_from([1, 1, 1, 2, 2, 3, 5, 8, 12]), 'loose': st.booleans(), 'learner': st.sampled_from(['rank', 'rank', 'batch', 'random']), 'batch': st.sampled_from([1, 2, 3, 4, 4, 7, 12]),
        'subsampling': st.one_of(st.none(), st.integers(1, 25)), 'max_iter': st.one_of(st.none(), st.integers(0, 12)),
        'skip': st.integers(1, 5), 'callbacks': st.lists(st.sampled_from(['count', 'fresh', 'empty', 'none', 'random']), max_size=3, unique=True),
        'threshold': st.one_of(st.none(), st.integers(1, 20)), 'run_seed': st.integers(0, 10 ** 6), 'copy': st.booleans(),
        'noise': st.sampled_from([None, None, 0., 0.3, 1.]) if noise else st.just(None), 'skip_initial': st.integers(0, 3),
    }).map(long_initial_phase)


def long_initial_phase(case):
    if case['n'] >= 28 and case['seed'] % 2:  # one positive point, looked for point by point
        return dict(case, pos_every=100, sampler='random', sample_size=1, max_iter=None, threshold=None)
    return case


class Exploration:
    def __init__(self, case, learner=None):
        self.case = case
        n = case['n']
        r = gen.rs(case['seed'])
        self.X = rows_dataset(n, case['d'], case['seed'] % 2 ** 32)
        self.y = (np.arange(n) % case['pos_every'] == 0).astype(int)[r.permutation(n)]
        self.partial = None
        if case['k']:
            self.partial = np.ones((n, case['k']), dtype=int)
            for i in range(n):
                if self.y[i] == 0:
                    self.partial[i] = r.randint(0, 2, size=case['k'])
                    self.partial[i, r.randint(case['k'])] = 0
            if case['loose'] and case['noise'] is None:  # the partial labels are whatever the user says
                self.partial = r.randint(0, 2, size=self.partial.shape)
        self.index = r.permutation(8 * n)[:n] if case['own_index'] else np.arange(n)
        self.labels = LabeledSet(self.y, self.partial, self.index if case['own_index'] else None)
        self.row = {int(idx): self.X[i].copy() for i, idx in enumerate(self.index)}
        self.true = {int(idx): int(self.y[i]) for i, idx in enumerate(self.index)}
        self.true_partial = {int(idx): (self.partial[i].tolist() if case['k'] else [int(self.y[i])]) for i, idx in enumerate(self.index)}
        self.calls = []  # callbacks: (name, iteration)
        self.own_learner = learner is None
        self.learner = self.make_learner() if learner is None else learner
        self.explorer = PoolBasedExploration(self.make_sampler(), subsampling=case['subsampling'], callback=[self.callback(c) for c in case['callbacks']],
                                             callback_skip=case['skip'], convergence_criteria=self.criteria(),
                                             noise_injector=None if case['noise'] is None else random_noise_injector(case['noise'], case['skip_initial']))

    def make_learner(self):
        case = self.case
        if case['learner'] == 'random':
            self.clf = RowClassifier(case['seed'] % 7)
            return RandomSampler(self.clf, case['batch'])
        learner = RecordingLearner(case['batch'] if case['learner'] == 'batch' else 1, case['seed'] % 7)
        self.clf = learner
        return learner

    def batch_size(self):
        return 1 if self.case['learner'] == 'rank' else self.case['batch']

    def make_sampler(self):
        case = self.case
        pos, neg = int(self.y.sum()), int((1 - self.y).sum())
        if case['sampler'] == 'stratified':
            return stratified_sampler(self.labels)
        if case['sampler'] == 'stratified2':
            return stratified_sampler(self.labels, pos=min(2, pos), neg=min(3, neg))
        if case['sampler'] == 'random':
            return random_sampler(case['sample_size'])
        if case['sampler'] == 'fixed':
            return fixed_sampler([int(self.index[np.argmax(self.y)]), int(self.index[np.argmin(self.y)])])
        return None

    def callback(self, name):
        def call(data, learner):
            self.calls.append((name, data.labeled_size))
            if name == 'count':
                return {'count': data.labeled_size, 'labeled_by_callback': data.labeled_size}
            if name == 'fresh':
                return {'fresh_%d' % data.labeled_size: 1}
            if name == 'random':
                return {'random': float(np.random.rand())}
            return {} if name == 'empty' else None
        return call

    def criteria(self):
        res = []
        if self.case['max_iter'] is not None:
            res.append(max_iter_reached(self.case['max_iter']))
        if self.case['threshold'] is not None and 'count' in self.case['callbacks']:
            res.append(metric_reached_threshold('count', self.case['threshold']))
        return res

    def run(self, **kwargs):
        """ Runs once, lazily; returns the metrics of every iteration, as they were when yielded, and as they are at the end. """
        kwargs.setdefault('seeds', self.case['run_seed'])
        gens = self.explorer.run(self.X.copy(), self.labels, self.learner, copy=self.case['copy'], **kwargs)
        run = next(iter(gens))
        then, final, calls, fits = [], [], [], []
        for m in run:
            then.append(dict(m))
            final.append(m)
            calls.append(list(self.calls))
            fits.append(len(self.clf.fits) if hasattr(self, 'clf') else 0)
        return then, final, calls, fits
