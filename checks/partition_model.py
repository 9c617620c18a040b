""" Reference model of PartitionedDataset: histories of moves, executed on the real object and on two dictionaries. """
import numpy as np
from hypothesis import strategies as st

from aideme.explore import LabeledSet, PartitionedDataset

import gen

OPS = ['label', 'infer', 'unknown', 'remove_inferred', 'clear', 'bad', 'partial']


def op():
    picks = st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=5)
    return st.fixed_dictionaries({
        'op': st.sampled_from(['label'] * 5 + ['infer'] * 5 + ['unknown'] * 4 + ['remove_inferred', 'clear', 'bad', 'partial']),
        'picks': picks, 'from': st.sampled_from(['any', 'labeled', 'inferred', 'unknown', 'unlabeled']),
        'y': st.lists(st.integers(0, 1), min_size=5, max_size=5),
        'p': st.lists(st.integers(0, 1), min_size=15, max_size=15),
        'look': st.sampled_from([True, True, False]),  # whether the views are read after this step
        'wide': st.one_of(st.just(0), st.just(0), st.just(0), st.integers(4, 30)),  # so many further points in the batch
    })


def positions(o):
    """ The drawn positions of the points of a batch; wide batches go on from the first one in a fixed stride. """
    return list(o['picks']) + [o['picks'][0] + 7 * (i + 1) for i in range(o['wide'])]


def history(max_n=12, max_ops=25):
    @st.composite
    def build(draw):
        n = draw(st.one_of(*[st.integers(1, max_n)] * 3, st.integers(max_n + 1, 3 * max_n + 4)))
        index = draw(st.one_of(st.none(), gen.unique_ints(n, -30, 300)))
        return {'n': n, 'd': draw(st.integers(1, 3)), 'index': index, 'copy': draw(st.booleans()), 'k': draw(st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 5])),
                'int': draw(st.booleans()), 'sparse': draw(st.booleans()), 'ops': draw(st.lists(op(), min_size=1, max_size=max_ops))}
    return build()


class Model:
    """ idx -> partition, idx -> label, idx -> partial label, and the data row of every index. """
    def __init__(self, case):
        n, d = case['n'], case['d']
        self.k = case['k']
        self.index = list(range(n)) if case['index'] is None else list(case['index'])
        X = np.arange(n * d).reshape(n, d) * 3 + 1
        X[:, 0] = np.arange(n)  # rows are unique
        X = X if case['int'] else X.astype(float) + 0.5
        self.rows = {idx: X[i].copy() for i, idx in enumerate(self.index)}
        self.X, self.idx_array = X, None if case['index'] is None else np.array(case['index'])
        self.data = PartitionedDataset(self.X, self.idx_array, copy=case['copy'])
        self.reset()
        self.events = set()

    def reset(self):
        self.part = {idx: 'unknown' for idx in self.index}
        self.y, self.p = {}, {}
        self.last = []
        self.last_known = False
        self.fuzzy = False

    def where(self, names):
        return sorted(idx for idx, part in self.part.items() if part in names)

    def apply(self, o, ctx):
        """ Executes one operation on both sides. """
        data, kind = self.data, o['op']
        allowed = {'label': ['unknown', 'inferred'], 'infer': ['unknown', 'labeled'], 'unknown': ['labeled', 'inferred']}
        if kind == 'clear':
            data.clear()
            self.reset()
            self.last_known = True
            self.events.add('clear')
            ctx.arr_eq(data.index, sorted(self.index), 'index order after clear()')
        elif kind == 'remove_inferred':
            data.remove_inferred()
            if self.where(['inferred']):
                self.events.add('remove_inferred')
            for idx in self.where(['inferred']):
                self.part[idx] = 'unknown'
        elif kind in allowed:
            sel = {'any': allowed[kind], 'labeled': ['labeled'], 'inferred': ['inferred'], 'unknown': ['unknown'],
                   'unlabeled': ['unknown', 'inferred']}[o['from']]
            pool = self.where([s for s in sel if s in allowed[kind]]) or self.where(allowed[kind])
            if not pool:
                return
            batch = list(dict.fromkeys(pool[p % len(pool)] for p in positions(o)))
            for idx in batch:
                self.events.add('{}->{}'.format(self.part[idx], kind))
            if kind == 'label':
                self.label(batch, o)
            else:
                (data.move_to_inferred if kind == 'infer' else data.move_to_unknown)(batch)
                for idx in batch:
                    self.part[idx] = 'inferred' if kind == 'infer' else 'unknown'
                    self.y.pop(idx, None)
                    self.p.pop(idx, None)
        elif kind == 'partial':
            ids = [int(i) for i in data.labeled_set.index]
            if ids and self.k:
                partial = [[(o['p'][(j * 3 + q) % 15]) for q in range(self.k)] for j in range(len(ids))]
                data.set_partial_labels(np.array(partial))

                for idx, row in zip(ids, partial):
                    self.p[idx] = row
                self.events.add('set_partial')
        elif kind == 'bad':
            self.rejected(o, ctx)

    def label(self, batch, o):
        y = [o['y'][j % 5] for j in range(len(batch))]
        partial = [[o['p'][(j * 3 + q) % 15] for q in range(self.k)] for j in range(len(batch))] if self.k else None
        self.data.move_to_labeled(LabeledSet(y, partial, batch))
        for j, idx in enumerate(batch):
            self.part[idx] = 'labeled'
            self.y[idx] = y[j]
            self.p[idx] = partial[j] if self.k else [y[j]]
        self.last = list(zip(batch, y, partial if self.k else [[v] for v in y]))
        self.last_known = True

    def rejected(self, o, ctx):
        """ A batch holding a point which already is in the target partition: ValueError, and nothing gets inconsistent. """
        target = ['labeled', 'inferred', 'unknown'][o['picks'][0] % 3]
        inside = self.where([target])
        if not inside:
            return
        bad = inside[o['picks'][-1] % len(inside)]
        others = self.where([t for t in ('labeled', 'inferred', 'unknown') if t != target])
        batch = list(dict.fromkeys(others[p % len(others)] for p in positions(o))) if others else []
        batch.insert(o['y'][0] * len(batch), bad)
        self.events.add('rejected-' + target)
        if target == 'labeled':
            y = [o['y'][j % 5] for j in range(len(batch))]
            partial = [[1] * self.k for _ in batch] if self.k else None
            ctx.raises(ValueError, lambda: self.data.move_to_labeled(LabeledSet(y, partial, batch)), 'labeling a labeled point')
        else:
            move = self.data.move_to_inferred if target == 'inferred' else self.data.move_to_unknown
            ctx.raises(ValueError, lambda: move(batch), 'moving a point to the {} set it is in'.format(target))
            # the points before the rejected one may or may not have been moved: follow the object, within these bounds
            now = {int(i): name for name, part in (('labeled', self.data.labeled), ('inferred', self.data.inferred), ('unknown', self.data.unknown)) for i in part.index}
            for idx in batch[:batch.index(bad)]:
                ctx.require(now.get(idx) in (self.part[idx], target), "index {} went from {} to {} in a rejected move to {}", idx, self.part[idx], now.get(idx), target)
                if now[idx] != self.part[idx]:
                    self.part[idx] = target
                    self.y.pop(idx, None)
                    self.p.pop(idx, None)


def check_partition(m, ctx):
    data = m.data
    n = len(m.index)
    ctx.eq(len(data), n, 'len')
    sizes = {name: len(m.where([name])) for name in ('labeled', 'inferred', 'unknown')}
    ctx.eq(data.labeled_size, sizes['labeled'], 'labeled_size')
    ctx.eq(data.inferred_size, sizes['inferred'], 'inferred_size')
    ctx.eq(data.unknown_size, sizes['unknown'], 'unknown_size')
    ctx.eq(data.unlabeled_size, sizes['inferred'] + sizes['unknown'], 'unlabeled_size')
    for name, part, members in (('labeled', data.labeled, m.where(['labeled'])), ('inferred', data.inferred, m.where(['inferred'])),
                                ('unknown', data.unknown, m.where(['unknown'])), ('unlabeled', data.unlabeled, m.where(['unknown', 'inferred']))):
        ids = [int(i) for i in part.index]
        ctx.eq(len(part), len(members), 'len of ' + name)
        ctx.eq(sorted(ids), members, name + ' members')
        rows_match(m, ids, part.data, ctx, name)
    ids = [int(i) for i in data.index]
    ctx.eq(sorted(ids), sorted(m.index), 'index is a permutation')
    rows_match(m, ids, data.data, ctx, 'data')


def rows_match(m, ids, X, ctx, what):
    ctx.eq(len(ids), len(X), 'rows of ' + what)
    for idx, row in zip(ids, X):
        ctx.require(np.array_equal(row, m.rows[idx]), "{}: index {} is paired with row {}, its row is {}", what, idx, row.tolist(), m.rows[idx].tolist())


def check_from_index(m, ctx, picks):
    ids = [m.index[p % len(m.index)] for p in picks]
    sub = m.data.from_index(ids)
    ctx.eq([int(i) for i in sub.index], ids, 'from_index order')
    rows_match(m, ids, sub.data, ctx, 'from_index')


def check_labels(m, ctx):
    data = m.data
    ids = [int(i) for i in data.labeled.index]
    X, y = data.training_set()
    ctx.eq(len(y), len(ids), 'size of the training labels')
    rows_match(m, ids, X, ctx, 'training set')
    ctx.eq([int(v) for v in y], [m.y[i] for i in ids], 'training labels')
    X, p = data.training_set(get_partial=True)
    rows_match(m, ids, X, ctx, 'partial training set')
    if ids:
        ctx.eq([[int(v) for v in row] for row in p], [m.p[i] for i in ids], 'partial training labels')
    ls = data.labeled_set
    got = {int(i): (int(l), [int(v) for v in q]) for i, l, q in zip(ls.index, ls.labels, ls.partial)}
    ctx.eq(len(ls), len(ids), 'size of labeled_set')
    ctx.eq(got, {i: (m.y[i], m.p[i]) for i in ids}, 'labeled_set')
    if m.last_known:
        X, y = data.last_training_set()
        ctx.eq([int(v) for v in y], [t[1] for t in m.last], 'labels of the last batch')
        rows_match(m, [t[0] for t in m.last], X, ctx, 'last training set')
        if m.last:
            X, p = data.last_training_set(get_partial=True)
            rows_match(m, [t[0] for t in m.last], X, ctx, 'last training set')
            ctx.eq([[int(v) for v in row] for row in p], [list(t[2]) for t in m.last], 'partial labels of the last batch')
