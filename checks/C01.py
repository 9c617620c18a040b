from hypothesis import strategies as st

import core
import gen
from partition_model import Model, check_from_index, check_partition, history, rows_match

check = core.Check('C01', rule='random histories of moves, resets and rejected moves over a small dataset, compared after every step with a '
                   'dictionary model; non-trivial: at least three different kinds of transition happened')


@check.sub(history(), quick=900, thorough=60000, shards=4)
def moves(case, ctx):
    m = Model(case)
    check_partition(m, ctx)
    for o in case['ops']:
        m.apply(o, ctx)
        if not case['sparse'] or o['look']:  # what a view shows must not depend on when it was read before
            check_partition(m, ctx)
            check_from_index(m, ctx, o['picks'])
    check_partition(m, ctx)
    ctx.label(*m.events)
    ctx.label('sparse reads' if case['sparse'] else 'reads after every step')
    ctx.label('copy' if case['copy'] else 'in-place', 'range index' if case['index'] is None else 'own index')
    ctx.nontrivial(len(m.events) >= 3)


@check.sub(st.fixed_dictionaries({'h': history(8, 6), 'sizes': st.lists(st.one_of(st.none(), st.integers(1, 12), st.integers(1, 30), st.sampled_from([-1, -1, -2])), min_size=1, max_size=4)}), quick=400)
def sampling(case, ctx):
    """ sample() is a sample without replacement of the whole dataset; sampling a partition stays inside of it. """
    import numpy as np
    m = Model(case['h'])
    for o in case['h']['ops']:
        m.apply(o, ctx)
    n = len(m.index)
    by_row = {tuple(row.tolist()): idx for idx, row in m.rows.items()}
    sizes = [max(n + s, 1) if s is not None and s < 0 else s for s in case['sizes']]
    for size in sizes:
        want = n if size is None else min(size, n)
        S = m.data.sample(size)
        ids = [by_row.get(tuple(row.tolist())) for row in np.asarray(S)]
        ctx.require(None not in ids, "sample() returned a row which is not in the data")
        ctx.eq(len(set(ids)), want, 'number of distinct sampled points')
        ctx.eq(len(ids), want, 'sample size')
        for name in ('labeled', 'inferred', 'unknown', 'unlabeled'):
            part = getattr(m.data, name)
            members = set(int(i) for i in part.index)
            sub = part.sample(size)
            got = [int(i) for i in sub.index]
            ctx.require(set(got) <= members and len(set(got)) == len(got), "sample of {} is not a subset of it", name)
            ctx.eq(len(got), len(members) if size is None else min(size, len(members)), 'sample size of ' + name)
            rows_match(m, got, sub.data, ctx, 'sample of ' + name)
        if size is not None and size < n:
            ctx.nontrivial()
    # every point has its chance, whatever its partition
    small = min((s for s in sizes if s is not None and s < n), default=None)
    if small is not None:
        missing = set(by_row.values())
        for _ in range(int(30 * n / small) + 1):
            missing -= {by_row.get(tuple(row.tolist())) for row in np.asarray(m.data.sample(small))}
            if not missing:
                break
        ctx.eq(sorted(missing), [], 'points which never are sampled (in labeled: {})'.format(sorted(int(i) for i in m.data.labeled.index)))
    check_partition(m, ctx)


@check.sub(st.fixed_dictionaries({'h': history(8, 6), 'items': st.lists(st.tuples(st.sampled_from(['int', 'numpy', 'list', 'array', 'mask', 'slice', 'negative']), st.lists(st.integers(0, 100), min_size=1, max_size=6)), min_size=1, max_size=5),
                                  'part': st.sampled_from(['labeled', 'inferred', 'unknown', 'unlabeled', 'unlabeled', 'unknown'])}), quick=300)
def indexing(case, ctx):
    """ Selecting points of a partition by position, in any of the ways numpy knows: indexes and rows stay together. """
    import numpy as np
    m = Model(case['h'])
    for o in case['h']['ops']:
        m.apply(o, ctx)
    part = getattr(m.data, case['part'])
    ids = [int(i) for i in part.index]
    if not ids:
        return
    n = len(ids)
    for kind, picks in case['items']:
        pos = [p % n for p in picks]
        if kind in ('int', 'numpy', 'negative'):
            pos = pos[:1]
        if kind == 'mask':
            pos = sorted(set(pos))
        if kind == 'slice':
            pos = list(range(min(pos), max(pos) + 1))
        item = {'int': pos[0], 'numpy': np.arange(n)[pos[0]], 'negative': pos[0] - n, 'list': pos, 'array': np.array(pos), 'mask': np.isin(np.arange(n), pos), 'slice': slice(pos[0], pos[-1] + 1)}[kind]
        sub = part[item]
        ctx.eq(len(sub), len(pos), 'number of points selected by {}'.format(kind))
        ctx.eq([int(i) for i in sub.index], [ids[p] for p in pos], 'indexes of the points selected by {}'.format(kind))
        rows_match(m, [ids[p] for p in pos], sub.data, ctx, 'selection by {}'.format(kind))
        ctx.eq(np.ndim(sub.data), 2, 'dimensions of the selected rows')
        ctx.label(kind)
        ctx.nontrivial(n > 2)
