"""C17: row operations never detach links from their rows."""
META = {
    'jit': False,
    'rule': 'Every sequence of row and column operations (and look-ups in between) on linked tables, with every kind of link and indexing state and with '
            'unique and repeated row labels. Every row carries an identifier, by which the look-ups of every frame that came up in the sequence are '
            'compared with those of the original table; the operation itself is compared with pandas. Non-trivial: distinct (kind of link, '
            'labels, order of rows, columns, links) states.',
    'bounds': {
        'quick': 'every pair of 66 operations, and every triple of 21 of them, on a table of 5 rows with 7 kinds of links, with unique, '
                 'repeated, and two-level row labels; one triple of operations on 12000 rows and on 45 columns',
        'thorough': 'every triple of all operations, and every sequence of four of the main ones',
    },
    'assumptions': ['renaming row labels of links by row labels, and removing them (reset_index), are not row selections or reorderings',
                    'a row introduced by re-indexing may, but need not, match by its label'],
}

import itertools

TABLES = ['unique', 'dup', 'ints', 'multi']
# Operations which always keep the links
KEEP = ['mask', 'locmask', 'lochalf', 'iloclist', 'ilocmask', 'rev', 'slice', 'step', 'locslice', 'loclist', 'head', 'head-', 'tail', 'tail-', 'copy', 'dcopy', 'getslice', 'none']
MAIN = ['mask', 'iloclist', 'rev', 'step', 'loclist', 'head-', 'dcopy', 'sort', 'sortindex', 'drop', 'take', 'sample', 'reindex', 'group', 'insort', 'indrop',
        'dropkeys', 'nokeys', 'touch', 'cols', 'append']
FOUR = ['iloclist', 'rev', 'sort', 'drop', 'reindex', 'group', 'dropkeys', 'touch', 'insort', 'take']


def shards(tier):
    big = tier == 'thorough'
    out = []
    names = list(OPS)
    for t in TABLES:
        for eager in (True, False):
            for i in range(2 if not big else 1):
                out.append({'kind': 'pairs', 'table': t, 'eager': eager, 'part': [i, 2 if not big else 1]})
            first = names if big else MAIN if t in ('unique', 'dup') else FOUR
            for i in range(0, len(first), 4):
                out.append({'kind': 'triples', 'table': t, 'eager': eager, 'first': first[i:i + 4], 'rest': first})
            if big:
                for f in FOUR:
                    out.append({'kind': 'fours', 'table': t, 'eager': eager, 'first': [f]})
    out.append({'kind': 'big'})
    return out


def run(shard, ctx):
    kind = shard['kind']
    if kind == 'big':
        for seq in (['mask', 'sort', 'take'], ['rev', 'group', 'touch'], ['sample', 'dropkeys', 'loclist'], ['reindex', 'sortindex', 'step'], ['insort', 'nokeys', 'iloclist'], ['drop', 'head-', 'dcopy']):
            for eager in (True, False):
                for how in ('rows', 'cols'):
                    ctx.do({'table': how, 'eager': eager, 'ops': seq})
        return
    if kind == 'pairs':
        few = shard['table'] in ('ints', 'multi') and shard['part'][1] > 1
        seqs = [[x] for x in OPS] + [list(s) for s in itertools.product(MAIN if few else OPS, OPS)]
        seqs = seqs[shard['part'][0]::shard['part'][1]]
    elif kind == 'triples':
        seqs = itertools.product(shard['first'], shard['rest'], shard['rest'])
    else:
        seqs = itertools.product(shard['first'], FOUR, FOUR, FOUR)
    for i, seq in enumerate(seqs):
        case = {'table': shard['table'], 'eager': shard['eager'], 'ops': list(seq)}
        if kind != 'pairs':
            case['links'] = ['agg', 'ix'] if case['ops'][0] in ('copy', 'take') else ['col', 'ix']
        elif len(seq) > 1 and shard['part'][1] > 1:
            case['links'] = [['col', 'ix', 'two', 'plain'], ['lev', 'ix', 'agg', 'chain']][(i + i // len(OPS)) % 2]
        ctx.do(case)


LINKS = ['col', 'two', 'ix', 'lev', 'agg', 'plain', 'chain']
KEYS = {'col': ['k'], 'two': ['k', 'k2'], 'agg': ['u'], 'plain': ['s'], 'chain': ['k'], 'ix': [], 'lev': []}


def make(table, eager, links=None):
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame as L
    n = 12000 if table == 'rows' else 5
    r = np.arange(n)
    data = {'k': np.array([3, 1, 9, 2, 1])[r % 5], 'k2': np.array([0, 1, 1, 0, 1])[r % 5], 's': np.array(['b', 'a', 'zz', 'a', ''], dtype=object)[r % 5],
            'u': np.array([4, 1, 7, 3, 2])[r % 5] + 10 * (r // 5), 'x': np.array([5, 3, 4, 1, 2])[r % 5] + (r // 5) % 7, 'rid': r}
    if table == 'cols':
        for j in range(40):
            data[f'extra{j}'] = (r * j) % 3
    labels = {'unique': pd.Index(list('cadbe'), name='ix'), 'dup': pd.Index(list('babac'), name='ix'), 'ints': pd.Index([3, 0, 4, 1, 2], name='ix'),
              'multi': pd.MultiIndex.from_arrays([[1, 0, 1, 0, 2], list('xyyxz')], names=['n', 'ix']), 'cols': pd.Index(list('cadbe'), name='ix'),
              'rows': pd.Index((r * 7) % n, name='ix')}[table]
    d = L(data, index=labels)
    target = L({'k': [1, 2, 3, 4], 'v': [10, 20, 30, 40], 'f': [0.5, 1.5, 2.5, 3.5]})

    def link(name, other, **args):
        if links is None or name in links:
            d.link_to(other(), name, precompute=eager, **args)

    if links is None or 'chain' in links:
        further = pd.DataFrame({'w': [7.5, 8.5], 'id': [10, 30]})
        target.link_to(further, 'next', on_self='v', on_other='id', precompute=not eager)
    link('col', lambda: target, on='k')
    link('chain', lambda: target, on='k')
    link('two', lambda: L({'a': [1, 3, 9], 'b': [1, 0, 0], 'v': [100, 200, 300]}), on_self=['k', 'k2'], on_other=['a', 'b'])
    link('plain', lambda: pd.DataFrame({'s': ['a', 'b'], 'v': ['text', 'longer text']}), on='s')
    link('agg', lambda: L({'to': [1, 3, 1, 77, 4, 3], 'v': [1, 2, 4, 8, 16, 32]}), on_self='u', on_other='to')
    if table == 'multi':
        link('ix', lambda: L({'v': [11, 22, 33]}, index=pd.MultiIndex.from_tuples([(0, 'y'), (2, 'z'), (1, 'q')], names=['n', 'ix'])))
        link('lev', lambda: L({'v': [5, 6, 7], 'id': ['z', 'x', 'q']}), self_levels='ix', on_other='id')
    else:
        some = {'unique': list('aczd'), 'dup': list('acz'), 'ints': [0, 3, 99, 4], 'cols': list('aczd'), 'rows': list(range(0, n, 3)) + [n + 5]}[table]
        link('ix', lambda: L({'v': np.arange(len(some)) + 11}, index=pd.Index(some, name='other')))
        link('lev', lambda: pd.DataFrame({'id': some[1:], 'v': np.arange(len(some) - 1) + 50}), self_levels='ix', on_other='id')
    return d


def look(d, name):
    if name == 'agg':
        return d['agg'].sum('v')
    if name == 'chain':
        return d['chain'].next.w
    return d[name].v


# The fill of unmatched rows
FILL = {'col': 0, 'two': 0, 'ix': 0, 'lev': 0, 'agg': -1, 'plain': '', 'chain': None}


def expected(table):
    """What every row of the original table, by its identifier, looks up; written out by hand or by formula"""
    n = 12000 if table == 'rows' else 5
    out = {'col': [30, 10, 0, 20, 10], 'two': [200, 100, 0, 0, 100], 'plain': ['longer text', 'text', '', 'text', ''], 'chain': [8.5, 7.5, None, None, 7.5]}
    out = {k: [v[i % 5] for i in range(n)] for k, v in out.items()}
    first = [16, 5, -1, 34, -1]
    out['agg'] = [first[i] if i < 5 else 8 if [4, 1, 7, 3, 2][i % 5] + 10 * (i // 5) == 77 else -1 for i in range(n)]
    if table == 'rows':
        at = [(i * 7) % n for i in range(n)]
        out['ix'] = [11 + a // 3 if a % 3 == 0 else 0 for a in at]
        out['lev'] = [50 + a // 3 - 1 if a % 3 == 0 and a > 0 else 0 for a in at]
    else:
        out['ix'] = {'unique': [12, 11, 14, 0, 0], 'cols': [12, 11, 14, 0, 0], 'dup': [0, 11, 0, 11, 12], 'ints': [12, 11, 14, 0, 0], 'multi': [0, 11, 0, 0, 22]}[table]
        out['lev'] = {'unique': [50, 0, 52, 0, 0], 'cols': [50, 0, 52, 0, 0], 'dup': [0, 0, 0, 0, 50], 'ints': [50, 0, 52, 0, 0], 'multi': [6, 0, 0, 6, 5]}[table]
    return out


# By label, for rows introduced by re-indexing
LABELS = {'unique': {'ix': {'z': 13}, 'lev': {'z': 51}}, 'cols': {'ix': {'z': 13}, 'lev': {'z': 51}}, 'ints': {'ix': {99: 13}, 'lev': {99: 51}},
          'dup': {'ix': {'z': 13}, 'lev': {'z': 51}}, 'rows': {'ix': {12005: 11 + 4000}, 'lev': {12005: 50 + 3999}}, 'multi': {'ix': {(1, 'q'): 33}, 'lev': {(1, 'q'): 7}}}


class Inapplicable(Exception):
    pass


def need(condition):
    if not condition:
        raise Inapplicable()


def half(d):
    return (d['x'] > d['x'].median()).to_numpy() if len(d) else d['x'].isna().to_numpy()


def labels(d):
    return list(d.index[[-1, 0]]) if len(d) > 1 else list(d.index)


def reindex(d):
    need(d.index.is_unique)
    new = {'O': 'z', 'i': 12005 if len(d) > 100 else 99}.get(d.index.dtype.kind) if d.index.nlevels == 1 else (1, 'q')
    some = list(d.index[::-1][:max(3, len(d) - 2)])
    need(new is not None)
    if d.index.nlevels > 1:
        import pandas as pd
        return d.reindex(pd.MultiIndex.from_tuples(some[:1] + [new, (5, 'nope')] + some[1:], names=d.index.names))
    return d.reindex(some[:1] + [new, 'y' if new == 'z' else -7] + some[1:])


def inplace(fn):
    def op(d):
        # In pandas, in-place operations on a slice warn, but do as told
        fn(d)
        return d
    return op


def groups(d, by, **kw):
    parts = [g for _, g in d.groupby(by, **kw)]
    need(len(parts) > 0)
    return parts[len(parts) // 2]


def first_group(d):
    by = d['k'] if 'k' in d else d['x']
    by = by.dropna()
    need(len(by) > 0)
    name = 'k' if 'k' in d else 'x'
    return d.groupby(name).get_group(by.iloc[0])


def take_cols(d):
    need(d.shape[1] > 3)
    return d.iloc[:, [list(d.columns).index(c) for c in ('rid', 'x')]]


def touch(d):
    for name in available(d):
        look(d, name)
    return d


def index_links(d, refresh):
    if refresh:
        need(all(k in d for ks in KEYS.values() for k in ks))
    d.compute_indexers(refresh=refresh)
    return d


def mask_set(d):
    """A column assigned by mask (on a copy)"""
    d = d.copy(deep=True)
    d.loc[half(d), 'new'] = 1.0
    return d


def own_label(d):
    """Rows by a list with a repeated label"""
    need(len(d) > 0)
    return d.loc[[d.index[0], d.index[0], d.index[-1]]]


OPS = {
    'mask': lambda d: d[half(d)], 'locmask': lambda d: d.loc[half(d), :], 'lochalf': lambda d: d.loc[~half(d)], 'iloclist': lambda d: d.iloc[[i for i in (3, 1, 0) if i < len(d)]],
    'ilocmask': lambda d: d.iloc[half(d)], 'rev': lambda d: d.iloc[::-1], 'slice': lambda d: d.iloc[1:4], 'step': lambda d: d.iloc[-1::-2], 'getslice': lambda d: d[1:-1],
    'loclist': lambda d: d.loc[labels(d)], 'locslice': lambda d: d.loc[d.index[0]:d.index[-1]], 'ownlabel': own_label,
    'head': lambda d: d.head(2), 'head-': lambda d: d.head(-1), 'tail': lambda d: d.tail(2), 'tail-': lambda d: d.tail(-1),
    'copy': lambda d: d.copy(), 'dcopy': lambda d: d.copy(deep=True), 'none': lambda d: d[d['x'] > 1e9],
    'sort': lambda d: d.sort_values('x'), 'sortdesc': lambda d: d.sort_values(['x', 'rid'], ascending=[False, True]), 'sortindex': lambda d: d.sort_index(),
    'sortindexdesc': lambda d: d.sort_index(ascending=False), 'sortkey': lambda d: d.sort_values('x', key=lambda s: (s * 3) % 4), 'sortcols': lambda d: d.sort_index(axis=1),
    'drop': lambda d: d.drop(d.index[1]), 'dropindex': lambda d: d.drop(index=labels(d)[:1]), 'take': lambda d: d.take([-1, 0, 0]), 'sample': lambda d: d.sample(min(3, len(d)), random_state=1),
    'sampleall': lambda d: d.sample(frac=1, random_state=3), 'bootstrap': lambda d: d.sample(6, replace=True, random_state=2), 'nlargest': lambda d: d.nlargest(3, 'x'),
    'nsmallest': lambda d: d.nsmallest(2, 'x'), 'query': lambda d: d.query('x > 2'), 'dropna': lambda d: d.dropna(), 'unique': lambda d: d.drop_duplicates('x'),
    'reindex': reindex, 'relike': lambda d: d.reindex(d.index[::-1]), 'like': lambda d: d.reindex_like(d.iloc[:0:-1]), 'recols': lambda d: d.reindex(columns=['x', 'rid', 'k']),
    'group': lambda d: groups(d, 'x'), 'groupkey': first_group, 'grouplevel': lambda d: groups(d, d.index.get_level_values(-1)), 'grouphead': lambda d: d.groupby('x').head(1),
    'groupfilter': lambda d: d.groupby('x').filter(lambda g: g['x'].iloc[0] > 2), 'grouptail': lambda d: d.groupby('x', sort=False).tail(1),
    'insort': inplace(lambda d: d.sort_values('x', inplace=True)), 'insortindex': inplace(lambda d: d.sort_index(inplace=True)), 'indrop': inplace(lambda d: d.drop(d.index[0], inplace=True)),
    'indropna': inplace(lambda d: d.dropna(inplace=True)), 'dropkeys': inplace(lambda d: d.drop(columns=['k', 'u', 's', 'k2'], errors='ignore', inplace=True)),
    'inunique': inplace(lambda d: d.drop_duplicates('x', keep='last', inplace=True)), 'inquery': inplace(lambda d: d.query('x > 1', inplace=True)),
    'nokeys': lambda d: d.drop(columns=['k', 'u', 's', 'k2'], errors='ignore'), 'cols': lambda d: d[['x', 'rid']], 'takecols': take_cols,
    'both': lambda d: d.loc[half(d), ['rid', 'x']], 'rename': lambda d: d.rename(columns={'k': 'renamed'}), 'assign': lambda d: d.assign(y=1.5, x=d['x'] * 1),
    'maskset': mask_set, 'replace': lambda d: d.replace({'x': {5: 2.5}}), 'append': lambda d: d.append(d.iloc[:1]), 'where': lambda d: d.where(d['x'] > 0),
    'touch': touch, 'index': lambda d: index_links(d, False), 'refresh': lambda d: index_links(d, True),
}


def has(d, name):
    try:
        return d[name] is not None
    except KeyError:
        return False


def available(d, links=LINKS):
    """The links. Getting them does not index them"""
    return [name for name in links if has(d, name)]


def can_keep(d, name):
    """Group iteration keeps the link if its keys are there, or if rows are told apart by their labels"""
    return d.index.is_unique or all(k in d.columns for k in KEYS[name])


def check_frame(case, table, d, links, want, what):
    import pandas as pd
    from mc.lib import Bad
    rid = d['rid'].to_numpy()
    for name in links:
        got = look(d, name)
        if not isinstance(got, pd.Series) or not got.index.equals(d.index):
            raise Bad(f'{case}: {what}: look-up of {name} has index {list(got.index)[:20]}, the frame {list(d.index)[:20]}')
        for i, (g, r) in enumerate(zip(got, rid)):
            w = want[name][int(r)] if r == r else FILL[name]
            if g == w or (w is None and g != g):
                continue
            if r != r and g == LABELS[table].get(name, {}).get(d.index[i]):
                continue
            exp = [want[name][int(x)] if x == x else FILL[name] for x in rid[:20]]
            raise Bad(f'{case}: {what}: {name} is {list(got)[:20]}, expected {exp} for rows {list(rid)[:20]}')


def run_case(case, ctx):
    import warnings
    import pandas as pd
    from cheval.ldf import LinkedDataFrame
    from mc.lib import Bad
    warnings.simplefilter('ignore')
    table = case['table']
    want = WANT.get(table) or WANT.setdefault(table, expected(table))
    d = make(table, case['eager'], case.get('links'))
    ctx.trace()
    now = available(d)
    frames = [(d, now)]
    for step, name in enumerate(case['ops']):
        before, keeps = now, [n for n in now if can_keep(d, n)]
        plain = pd.DataFrame(d).copy() if name.startswith('in') or name in ('dropkeys', 'refresh', 'index') else pd.DataFrame(d)
        try:
            after = OPS[name](d)
        except Inapplicable:
            ctx.count('inapplicable')
            return
        except Exception:
            if name not in ('touch', 'index', 'refresh'):
                try:
                    OPS[name](plain)
                except Exception:
                    ctx.count('inapplicable')
                    return
            raise
        if not isinstance(after, LinkedDataFrame):
            raise Bad(f'{case}: {name} returned a {type(after).__name__}')
        now = available(after)
        if name in KEEP and not set(before) <= set(now):
            raise Bad(f'{case}: step {step}, {name} lost {sorted(set(before) - set(now))}')
        if name.startswith('group') and name not in ('grouphead', 'groupfilter', 'grouptail') and not set(keeps) <= set(now):
            raise Bad(f'{case}: step {step}, {name} lost {sorted(set(keeps) - set(now))}')
        if not set(now) <= set(before):
            raise Bad(f'{case}: {name} added links')
        if name not in ('touch', 'index', 'refresh') and not pd.DataFrame(after).equals(OPS[name](plain)):
            raise Bad(f'{case}: step {step}, {name} differs from that of pandas: {after} {OPS[name](plain)}')
        frames = [x for x in frames if x[0] is not after] + [(after, now)]
        ctx.step()
        ctx.state([table, 'touch' in case['ops'][:step + 1] or case['eager'], list(after['rid'].astype(float)) if len(after) < 50 else len(after), list(after.columns)[:6], now])
        d = after
    for i, (frame, links) in enumerate(reversed(frames)):
        check_frame(case, table, frame, links, want, 'the result' if i == 0 else f'{i} frames before the result')
    ctx.outcome([now, list(d['rid'].astype(float)) if len(d) < 50 else len(d)])


WANT = {}
