import numpy as np

import core
from exploration import Exploration, config

check = core.Check('C05', rule='random explorations (initial samplers, batch sizes, subsampling, partial labels, own indexes, noise) of small pools, run until '
                   'they stop; non-trivial: at least four iterations')


@check.sub(config(large_n=60), quick=1000, shards=4)
def asks_each_point_once(case, ctx):
    e = Exploration(case)
    iters, _, _, fits = e.run()
    seen, noisy, noisy_partial = [], {}, {}
    exploring = case['sampler'] == 'none'
    fit_count = 0
    offered = list(getattr(e.clf, 'offered', []))
    for m in iters:
        asked = m['labeled_indexes']
        ctx.require(len(asked) > 0, 'iteration without any point')
        ctx.require(len(set(asked)) == len(asked), 'the same point twice in a batch: {}', asked)
        for idx in asked:
            ctx.require(idx in e.true, 'unknown index {}', idx)
            ctx.require(idx not in noisy, 'index {} was asked again', idx)
        ctx.eq([int(v) for v in m['labels']], [e.true[i] for i in asked], 'user labels')
        ctx.eq([[int(v) for v in p] for p in m['partial_labels']], [e.true_partial[i] for i in asked], 'partial user labels')
        if case['noise'] is None:
            ctx.require('noisy_labels' not in m, 'noisy labels without noise')
        given = m.get('noisy_labels', m['labels'])
        given_partial = m.get('noisy_partial_labels', m['partial_labels'])
        ctx.require(len(given) == len(asked), 'wrong number of noisy labels')
        if exploring or case['sampler'] == 'none':
            if case['subsampling'] is None:
                ctx.eq(len(asked), min(e.batch_size(), len(e.true) - len(noisy)), 'batch size')
            if offered:
                # the points the learner could choose from: some of the unlabeled ones, as many as there are or as were asked for
                rows = [tuple(row.tolist()) for row in offered.pop(0)]
                left = {tuple(e.row[i].tolist()) for i in e.true if i not in noisy}
                ctx.eq(len(rows), min(case['subsampling'] or len(left), len(left)), 'number of points the learner chooses from')
                ctx.require(len(set(rows)) == len(rows) and set(rows) <= left, 'points the learner chooses from: {}; unlabeled: {}', rows, left)
                ctx.require({tuple(e.row[i].tolist()) for i in asked} <= set(rows), 'asked {}, the learner chose among {}', asked, rows)
                ctx.label('subsample' if len(rows) < len(left) else 'whole pool')
        for idx, v, p in zip(asked, given, given_partial):
            noisy[idx], noisy_partial[idx] = int(v), [int(x) for x in p]
        seen.append(asked)
        exploring = case['sampler'] == 'none' or len(set(noisy.values())) == 2
        if exploring:
            # the learner was trained over all the labels so far, each with the row it belongs to
            X, y = e.clf.fits[fit_count]
            if hasattr(e.clf, 'partial_fits'):
                Xp, yp = e.clf.partial_fits[fit_count]
                ctx.eq(sorted((tuple(row.tolist()), tuple(int(x) for x in p)) for row, p in zip(Xp, yp)),
                       sorted((tuple(e.row[i].tolist()), tuple(noisy_partial[i])) for i in noisy), 'partial labels of the training set')
            fit_count += 1
            ctx.eq(len(y), len(noisy), 'size of the training set')
            got = sorted((tuple(row.tolist()), int(v)) for row, v in zip(X, y))
            ctx.eq(got, sorted((tuple(e.row[i].tolist()), v) for i, v in noisy.items()), 'training set')
    ctx.eq(len(e.clf.fits), fit_count, 'number of trainings')
    ctx.eq(len(offered), 0, 'choices of the learner which are not choices of the exploration phase')
    if case['max_iter'] is None and not (case['threshold'] and 'count' in case['callbacks']):
        ctx.eq(len(noisy), case['n'], 'labeled points when nothing stops the exploration')
        ctx.label('exhausted')
    ctx.label(case['sampler'], case['learner'], 'noise' if case['noise'] else 'no noise')
    ctx.nontrivial(len(iters) >= 4)
