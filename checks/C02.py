import numpy as np
from hypothesis import strategies as st

import core
from partition_model import Model, check_labels, history

check = core.Check('C02', rule='random histories of moves over a small dataset with final and partial labels, compared after every step with a '
                   'dictionary of labels; non-trivial: a labeled point left the labeled set, was relabeled, or a batch was rejected')


@check.sub(history(), quick=900, thorough=60000, shards=4)
def labels_follow_points(case, ctx):
    m = Model(case)
    check_labels(m, ctx)
    for o in case['ops']:
        m.apply(o, ctx)
        if not case['sparse'] or o['look']:
            check_labels(m, ctx)
    check_labels(m, ctx)
    ctx.label(*m.events)
    ctx.label('k=%d' % case['k'])
    ctx.nontrivial(any(e in m.events for e in ('labeled->infer', 'labeled->unknown', 'rejected-labeled', 'inferred->label', 'set_partial')))


class FromRow:
    """ A learner whose prediction is a known function of the data row. """
    def __init__(self, shift):
        self.shift, self.seen = shift, []

    def predict(self, X):
        self.seen.append(len(X))
        return np.array([int(np.floor(row[0]) + self.shift) % 2 for row in X])


@check.sub(st.fixed_dictionaries({'h': history(), 'shift': st.integers(0, 1)}), quick=1000)
def predicted_labels(case, ctx):
    m = Model(case['h'])
    for o in case['h']['ops']:
        m.apply(o, ctx)
        if case['h']['sparse'] and not o['look']:
            continue
        ls = m.data.predict_user_labels(FromRow(case['shift']))
        ctx.eq(sorted(int(i) for i in ls.index), sorted(m.index), 'indexes of the predicted labels')
        ctx.eq(len(ls.labels), len(m.index), 'number of predicted labels')
        for idx, label in zip(ls.index, ls.labels):
            idx = int(idx)
            expected = m.y[idx] if m.part[idx] == 'labeled' else int(np.floor(m.rows[idx][0]) + case['shift']) % 2
            ctx.eq(int(label), expected, 'predicted label of index {} ({})'.format(idx, m.part[idx]))
        # what was returned is not changed by later moves
        before = list(map(int, ls.index)), list(map(int, ls.labels))
        unlabeled = m.where(['unknown', 'inferred'])
        if unlabeled:
            m.label([unlabeled[-1]], o)
            ctx.eq((list(map(int, ls.index)), list(map(int, ls.labels))), before, 'predicted labels after a later move')
        if m.where(['labeled']) and m.where(['unknown', 'inferred']):
            ctx.nontrivial()
    ctx.label(*m.events)
