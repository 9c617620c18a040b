import os
import re
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy.special import expit
from sklearn.metrics.pairwise import linear_kernel, polynomial_kernel, rbf_kernel

import core
import gen
from aideme.active_learning.version_space.bayesian import BayesianKernelVersionSpace, BayesianLinearVersionSpace
from aideme.explore import LabeledSet, PartitionedDataset

check = core.Check('C39', rule='random labeled data, priors and sampler settings; Stan itself is a stand-in which reads the model code and the data it is given as Stan would, and returns random draws; '
                   'non-trivial: both labels, and probabilities spread by at least 0.05',
                   assumptions=['PyStan is not installed: the stand-in understands the declarations and the two kinds of statements of this model'])

TYPES = {'int': lambda v: isinstance(v, (int, np.integer)) and not isinstance(v, bool), 'real': lambda v: np.ndim(v) == 0}


class StanError(Exception):
    pass


def block(code, name):
    m = re.search(name + r'\s*\{([^}]*)\}', code)
    if m is None:
        raise StanError('no block ' + name)
    return [s.strip() for s in m.group(1).split(';') if s.strip()]


class Stan:
    """ Evaluates model code on data: finds out design matrix, labels and prior, and returns given draws of the parameter. """
    def __init__(self, draws):
        self.draws, self.calls = draws, []

    def __call__(self, model, data, chains, iter, warmup, thin, kwargs):
        code = re.sub(r'//[^\n]*', '', model.model_code)
        dims = {}
        for decl in block(code, 'data'):
            decl = re.sub(r'\s+', ' ', decl)
            m = re.match(r'(int|real)(<[^>]*>)? (\w+)(\[(\w+)\])?$', decl) or re.match(r'(matrix|vector)()\[(\w+)(?:, ?(\w+))?\] (\w+)$', decl)
            if m is None:
                raise StanError('declaration ' + decl)
            if m.group(1) in ('matrix', 'vector'):
                name, shape = m.group(5), [m.group(3)] + ([m.group(4)] if m.group(4) else [])
                kind, bounds = 'real', ''
            else:
                kind, bounds, name, shape = m.group(1), m.group(2) or '', m.group(3), [m.group(5)] if m.group(5) else []
            if name not in data:
                raise StanError('variable {} is not given'.format(name))
            value = data[name]
            if np.shape(value) != tuple(data[s] for s in shape):
                raise StanError('variable {} has shape {}, declared as {}'.format(name, np.shape(value), shape))
            if kind == 'int' and np.asarray(value).dtype.kind not in 'iu':
                raise StanError('variable {} is no integer'.format(name))
            for what, bound in re.findall(r'(lower|upper) ?= ?(-?[\d.]+)', bounds):
                if np.size(value) and (np.min(value) < float(bound) if what == 'lower' else np.max(value) > float(bound)):
                    raise StanError('variable {} is out of its bounds'.format(name))
        m = re.match(r'vector(<[^>]*>)?\[(\w+)\] (\w+)$', re.sub(r'\s+', ' ', block(code, 'parameters')[0]))
        if m is None or m.group(1):
            raise StanError('parameters')
        param, dim = m.group(3), data[m.group(2)]
        prior, like = None, None
        for s in block(code, 'model'):
            s = re.sub(r'\s+', '', s)
            n = re.match(r'(\w+)~(normal|cauchy)\(0(?:\.0*)?,(\w+)\)$', s)
            b = re.match(r'(\w+)~bernoulli_logit\((\w+)\*(\w+)\)$', s)
            if n and n.group(1) == param and prior is None:
                prior = (n.group(2), float(data[n.group(3)]))
            elif b and b.group(3) == param and like is None:
                like = (np.array(data[b.group(2)], dtype=float), np.array(data[b.group(1)]))
            else:
                raise StanError('statement ' + s)
        size = chains * -(-(iter - warmup) // thin)
        self.calls.append(dict(prior=prior, X=like[0], y=like[1], iter=iter, warmup=warmup, thin=thin, chains=chains, size=size, kwargs=kwargs))
        draws = np.resize(self.draws, (size, dim)) if size * dim else np.zeros((size, dim))

        class Fit:
            @staticmethod
            def extract(*args, **kwargs):
                return {param: draws, 'lp__': np.zeros(size)}
        return Fit


KERNELS = {'rbf': lambda c: lambda A, B: rbf_kernel(A, B, gamma=c), 'linear': lambda c: linear_kernel, 'poly': lambda c: lambda A, B: polynomial_kernel(A, B, degree=2, gamma=c, coef0=1.)}


@check.sub(st.fixed_dictionaries({'n': st.integers(1, 12), 'd': st.integers(1, 4), 'seed': gen.seeds(), 'prior': st.sampled_from(['improper', 'gaussian', 'cauchy']), 'std': st.sampled_from([1., 0.3, 5.]),
                                  'samples': st.integers(1, 9), 'warmup': st.integers(1, 20), 'thin': st.integers(1, 5), 'intercept': st.booleans(), 'kernel': st.sampled_from([None, None, 'rbf', 'linear', 'poly']),
                                  'signed': st.booleans(), 'dir': st.booleans(), 'again': st.booleans(), 'clear': st.booleans(), 'from_data': st.booleans()}), quick=400, shards=2)
def stan_models(case, ctx):
    """ What is sampled is the documented model on the labeled data, and probabilities are averages over its draws. """
    r = gen.rs(case['seed'])
    stan = Stan(r.randn(7, 5))
    pystan = sys.modules['pystan']
    cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix='verif_stan_')
    os.chdir(tmp)
    pystan.handler = stan
    try:
        if case['dir']:
            os.mkdir('stan_models')
        kwargs = dict(n_samples=case['samples'], warmup=case['warmup'], thin=case['thin'], add_intercept=case['intercept'], sampler='stan', prior=case['prior'], prior_std=case['std'])
        if case['kernel']:
            kwargs.update(kernel=case['kernel'], gamma=0.7, degree=2, coef0=1.)
        cls = BayesianKernelVersionSpace if case['kernel'] else BayesianLinearVersionSpace
        learner = cls(**kwargs)
        if case['again']:  # a second learner with another prior, then one which may use the saved model
            other = cls(**dict(kwargs, prior={'improper': 'cauchy', 'gaussian': 'improper', 'cauchy': 'gaussian'}[case['prior']]))
            learner = cls(**kwargs)
            other.fit(r.randn(2, case['d']), np.array([0., 1.]))
            ctx.eq(stan.calls[-1]['prior'], {'improper': ('cauchy', case['std']), 'gaussian': None, 'cauchy': ('normal', case['std'])}[case['prior']], 'prior of another model')
        for attempt in range(2):
            n = case['n'] + attempt
            X = r.randn(n, case['d'])
            y = r.randint(0, 2, size=n).astype(float)
            if case['signed'] and not case['from_data']:
                fit_y = 2 * y - 1
            else:
                fit_y = y
            before = len(stan.calls)
            if case['from_data']:
                data = PartitionedDataset(np.r_[X, r.randn(3, case['d'])], copy=True)
                order = r.permutation(n)
                data.move_to_labeled(LabeledSet(y[order], index=order))
                learner.fit_data(data)
            else:
                learner.fit(X, fit_y)
            ctx.eq(len(stan.calls), before + 1, 'number of models sampled for a training')
            call = stan.calls[-1]
            if case['from_data']:
                X, y = X[order], y[order]
            K = X
            if case['kernel']:
                k = KERNELS[case['kernel']](0.7)
                K = k(X, X)
            A = np.c_[np.ones(n), K] if case['intercept'] else K
            ctx.close(call['X'], A, 'design matrix of the model')
            ctx.arr_eq(call['y'], y.astype(int), 'labels of the model')
            ctx.eq(call['prior'], {'improper': None, 'gaussian': ('normal', case['std']), 'cauchy': ('cauchy', case['std'])}[case['prior']], 'prior of the model')
            ctx.eq((call['size'], call['warmup'], call['thin']), (case['samples'], case['warmup'], case['thin']), 'number of draws, warm-up and thinning')
            Q = 2 * r.randn(6, case['d'])
            W = np.resize(stan.draws, (case['samples'], A.shape[1]))
            B = k(Q, X) if case['kernel'] else Q
            B = np.c_[np.ones(6), B] if case['intercept'] else B
            p = expit(B @ W.T).mean(axis=1)
            got = learner.predict_proba(Q)
            ctx.close(got, p, 'posterior probabilities')
            clear = np.abs(p - 0.5) > 1e-9
            ctx.arr_eq(np.asarray(learner.predict(Q))[clear], (p > 0.5)[clear].astype(float), 'labels')
            rank = np.asarray(learner.rank(Q))
            order = np.argsort(np.abs(p - 0.5))
            ctx.require((np.diff(rank[order]) > -1e-9).all(), 'ranks {} do not follow the distance of the probabilities {} to 1/2', rank.tolist(), p.tolist())
            ctx.nontrivial(0 < y.sum() < n and p.max() - p.min() > 0.05)
            if case['clear']:
                learner.clear()
    finally:
        pystan.handler = None
        os.chdir(cwd)
        shutil.rmtree(tmp)


@check.sub(st.fixed_dictionaries({'prior': st.sampled_from(['improper', 'gaussian', 'cauchy', 'foo', '', 'Gaussian']), 'std': st.sampled_from([1., 0., -1.]), 'warmup': st.sampled_from([1, 10, 0, -1, 2.5]),
                                  'thin': st.sampled_from([1, 10, 0, -1, 2.5]), 'kernel': st.booleans()}), quick=150)
def arguments(case, ctx):
    cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix='verif_stan_')
    os.chdir(tmp)
    try:
        cls = BayesianKernelVersionSpace if case['kernel'] else BayesianLinearVersionSpace
        kwargs = dict(sampler='stan', prior=case['prior'], prior_std=case['std'], warmup=case['warmup'], thin=case['thin'])
        if case['prior'] in ('improper', 'gaussian', 'cauchy') and case['std'] > 0 and all(case[p] > 0 and case[p] == int(case[p]) for p in ('warmup', 'thin')):
            cls(**kwargs)
        else:
            ctx.raises((ValueError, TypeError), lambda: cls(**kwargs), 'arguments {}'.format(kwargs))
            ctx.nontrivial()
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)
