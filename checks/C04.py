import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.explore import LabeledSet

check = core.Check('C04', rule='random label collections, with partial labels and indexes, against dictionaries; non-trivial: at least two labels '
                   'and an index which is not the position')


@st.composite
def labeled(draw, max_n=8, min_n=0):
    n = draw(st.integers(min_n, max_n))
    k = draw(st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 5, 6]))
    return {'y': draw(gen.bits(n)), 'p': draw(st.lists(gen.bits(k), min_size=n, max_size=n)) if k else None,
            'index': draw(st.one_of(st.none(), gen.unique_ints(n, -50, 50))), 'k': k, 'form': draw(st.sampled_from(['list', 'array', 'column', 'float', 'bool']))}


def make(c):
    y = c['y']
    y = {'list': y, 'array': np.array(y, dtype=int), 'column': np.array(y, dtype=int).reshape(-1, 1), 'float': np.array(y, dtype=float),
         'bool': np.array(y, dtype=bool)}[c['form']]
    p = None if c['p'] is None else np.array(c['p'], dtype=int).reshape(len(c['y']), c['k'])
    return LabeledSet(y, p, c['index'])


def ids(c):
    return list(range(len(c['y']))) if c['index'] is None else c['index']


def content(ls):
    return [(int(i), int(l), [int(v) for v in p]) for i, l, p in zip(ls.index, ls.labels, ls.partial)]


def expected(c):
    return [(i, y, c['p'][j] if c['k'] else [y]) for j, (i, y) in enumerate(zip(ids(c), c['y']))]


@check.sub(labeled(), quick=800)
def construction(case, ctx):
    ls = make(case)
    n = len(case['y'])
    ctx.eq(len(ls), n, 'len')
    ctx.eq((ls.labels.shape, ls.index.shape), ((n,), (n,)), 'shapes of labels and index')
    ctx.eq(content(ls), expected(case), 'content')
    if n:
        ctx.eq(ls.num_partitions, case['k'] or 1, 'num_partitions')
        ctx.eq(ls.partial.shape, (n, case['k'] or 1), 'shape of the partial labels')
    ctx.eq(bool(ls.has_positive_and_negative_labels()), set(case['y']) == {0, 1}, 'has_positive_and_negative_labels')
    exp = expected(case)
    plain = ls.asdict()
    ctx.eq(set(plain), {'labels', 'partial_labels', 'labeled_indexes'}, 'keys of asdict')
    ctx.eq(plain['labels'], [e[1] for e in exp], 'asdict labels')
    ctx.eq(plain['labeled_indexes'], [e[0] for e in exp], 'asdict indexes')
    if n:
        ctx.eq(plain['partial_labels'], [e[2] for e in exp], 'asdict partial labels')
    noisy = ls.asdict(noisy=True)
    ctx.eq(set(noisy), {'noisy_labels', 'noisy_partial_labels'}, 'keys of asdict(noisy)')
    ctx.eq(noisy['noisy_labels'], plain['labels'], 'noisy labels')
    ctx.eq(noisy['noisy_partial_labels'], plain['partial_labels'], 'noisy partial labels')
    plain['labels'].append(3)
    ctx.eq(content(ls), exp, 'content after changing the dictionary')
    ctx.nontrivial(n >= 2 and case['index'] is not None)
    ctx.label('k=%d' % case['k'], case['form'])


@check.sub(st.fixed_dictionaries({'ls': labeled(min_n=1), 'picks': st.lists(st.integers(0, 100), max_size=8), 'again': st.lists(st.integers(0, 100), max_size=5),
                                  'array': st.booleans()}), quick=800)
def get_index(case, ctx):
    c = case['ls']
    ls = make(c)
    pool = ids(c)
    by_id = {e[0]: e for e in expected(c)}
    sel = list(dict.fromkeys(pool[p % len(pool)] for p in case['picks']))
    sub = ls.get_index(np.array(sel, dtype=int) if case['array'] else sel)
    ctx.eq(content(sub), [by_id[i] for i in sel], 'get_index')
    ctx.eq(content(ls), expected(c), 'original after get_index')
    if sel:
        sel2 = list(dict.fromkeys(sel[p % len(sel)] for p in case['again']))
        ctx.eq(content(sub.get_index(sel2)), [by_id[i] for i in sel2], 'get_index of get_index')
        ctx.eq(sub.num_partitions, ls.num_partitions, 'num_partitions')
    missing = max(pool) + 1
    ctx.raises(KeyError, lambda: ls.get_index(sel + [missing]), 'unknown index')
    ctx.nontrivial(len(sel) >= 2 and c['index'] is not None)


@check.sub(st.fixed_dictionaries({'parts': st.lists(labeled(max_n=4), min_size=2, max_size=4)}), quick=800)
def concat(case, ctx):
    k = max(c['k'] for c in case['parts'])
    parts, start = [], 0
    for c in case['parts']:  # disjoint indexes, same number of partial labels
        n = len(c['y'])
        p = None if k == 0 else [[(c['p'][j][q % c['k']] if c['k'] else c['y'][j]) for q in range(k)] for j in range(n)]
        parts.append(dict(c, index=[start + 3 * j for j in reversed(range(n))], p=p, k=k))
        start += 3 * n + 1
    sets = [make(c) for c in parts]
    exps = [expected(c) for c in parts]
    total, exp = sets[0], exps[0]
    for ls, e in zip(sets[1:], exps[1:]):
        total = total.concat(ls)
        exp = exp + e
        ctx.eq(content(total), exp, 'concat')
        ctx.eq(len(total), len(exp), 'len of concat')
    right = sets[-1]
    for ls in reversed(sets[:-1]):
        right = ls.concat(right)
    ctx.eq(content(right), exp, 'concat is associative')
    for ls, e in zip(sets, exps):
        ctx.eq(content(ls), e, 'operand after concat')
    if exp:
        order = [e[0] for e in reversed(exp)]
        ctx.eq(content(total.get_index(order)), list(reversed(exp)), 'get_index of concat')
    other = LabeledSet([1], [[1] * (max(k, 1) + 1)], [start])
    if exp:
        before = content(total)
        ctx.raises(ValueError, lambda: total.concat(other), 'concatenating sets with different numbers of partial labels')
        ctx.raises(ValueError, lambda: other.concat(total), 'concatenating sets with different numbers of partial labels')
        ctx.eq(content(total), before, 'after a rejected concatenation')
    ctx.nontrivial(sum(1 for e in exps if e) >= 2)


@check.sub(st.fixed_dictionaries({'ls': labeled(min_n=1), 'p': st.lists(gen.bits(6), min_size=9, max_size=9), 'k': st.sampled_from([1, 2, 3, 4, 6]), 'delta': st.sampled_from([-1, 1, 2])}), quick=400)
def partial_labels(case, ctx):
    c, k = case['ls'], case['k']
    ls = make(c)
    n = len(c['y'])
    P = np.array(case['p'])[:, :k]
    ls.set_partial_labels(P[:n].copy())
    ctx.eq(content(ls), [(e[0], e[1], P[j].tolist()) for j, e in enumerate(expected(c))], 'after set_partial_labels')
    ctx.eq(ls.num_partitions, k, 'num_partitions')
    before = content(ls)
    ctx.raises(ValueError, lambda: ls.set_partial_labels(P[:n, 0]), 'one-dimensional partial labels')
    if n + case['delta'] >= 0:
        wrong = np.ones((n + case['delta'], k))
        ctx.raises(ValueError, lambda: ls.set_partial_labels(wrong), 'wrong number of partial labels')
        ctx.raises(ValueError, lambda: LabeledSet(c['y'], wrong), 'wrong number of partial labels')
        ctx.raises(ValueError, lambda: LabeledSet(c['y'], None, list(range(n + case['delta']))), 'wrong number of indexes')
    ctx.eq(content(ls), before, 'after rejected partial labels')
    ls.set_partial_labels(None)
    ctx.eq(content(ls), [(e[0], e[1], [e[1]]) for e in expected(c)], 'without partial labels')
    ctx.nontrivial(n >= 2)


KINDS = {'names': lambda v: 'p%d' % v, 'digits': lambda v: str(v), 'halves': lambda v: v + 0.5, 'large': lambda v: 2 ** 40 + v}


@check.sub(st.fixed_dictionaries({'ls': labeled(min_n=1), 'kind': st.sampled_from(sorted(KINDS)), 'picks': st.lists(st.integers(0, 100), max_size=8), 'array': st.booleans()}), quick=600)
def kinds_of_indexes(case, ctx):
    """ indexes are whatever identifies a point: names, numbers which do not fit in 32 bits, ... """
    c = case['ls']
    kind = KINDS[case['kind']]
    names = [kind(v) for v in ids(c)]
    c = dict(c, index=np.array(names) if case['array'] else names)
    ls = make(c)
    exp = [(i, y, p) for i, (_, y, p) in zip(names, expected(c))]

    def rows(s):
        return [(i.item() if hasattr(i, 'item') else i, int(l), [int(v) for v in p]) for i, l, p in zip(s.index, s.labels, s.partial)]
    ctx.eq(rows(ls), exp, 'content')
    ctx.eq(ls.asdict()['labeled_indexes'], names, 'asdict indexes')
    by_id = {e[0]: e for e in exp}
    sel = list(dict.fromkeys(names[p % len(names)] for p in case['picks']))
    if sel:
        sub = ls.get_index(np.array(sel) if case['array'] else sel)
        ctx.eq(rows(sub), [by_id[i] for i in sel], 'get_index')
        rest = [i for i in names if i not in sel]
        if rest:
            both = sub.concat(ls.get_index(rest))
            ctx.eq(rows(both), [by_id[i] for i in sel + rest], 'concat of two parts')
            ctx.eq(rows(both.get_index(names)), exp, 'get_index of concat')
    ctx.raises(KeyError, lambda: ls.get_index([kind(max(ids(case['ls'])) + 1)]), 'unknown index')
    ctx.nontrivial(len(sel) >= 2)
    ctx.label(case['kind'])
