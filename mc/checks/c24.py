"""C24: links of tables which were derived by other means than selecting rows."""
META = {
    'jit': False,
    'rule': 'Every operation of a catalogue of table operations which are not row selections (aggregations of groups and columns, reshaping, joining, '
            'relabelling, arithmetic, editing, copying, serialisation), on tables with every kind of link and indexing state, after each of a set of '
            'row operations and look-ups and followed by each of them, and every pair of catalogue operations. The result is compared with that of pandas on '
            'a plain table. Every link it still has is looked up, and each row compared with a join, by dictionaries, of the keys of this row - or, where rows '
            'remain what they were, of the row it comes from. Non-trivial: distinct (operation, links left, labels, columns) states.',
    'bounds': {
        'quick': 'each operation of the catalogue (over 160) after and before each of 9 row operations, on 4 tables of 4 to 6 rows (unique, default, repeated and '
                 'two-level labels) x eager and deferred links of 8 kinds; every pair of over 50 of them on 5 of these 8 tables',
        'thorough': 'every pair of all operations, and every triple of 24 of them',
    },
    'assumptions': ['a link may be dropped from any such result, except from copies and unpickled tables',
                    'where the index object is kept (editing, shifting), rows may stay linked as they were, or by their present keys',
                    'a deferred link whose key column was deleted in place may refuse look-ups'],
}

import itertools

TABLES = ['unique', 'range', 'dup', 'multi']
LINKS = ['col', 'two', 'own', 'lev', 'agg', 'plain', 'chain', 'val']
HALVES = [['col', 'own', 'two', 'plain'], ['lev', 'agg', 'chain', 'val']]
NAN = float('nan')
TARGETS = {
    'col': {1: 10.5, 2: 20.5, 3: 30.5, 4: 40.5, 6: 60.5}, 'chain': {1: 7.5, 3: 8.5}, 'two': {(1, 1): 100.5, (3, 0): 200.5, (9, 0): 300.5, (2, 1): 400.5},
    'agg': {1: 5.5, 3: 36.5, 77: 8.5, 4: 16.5}, 'plain': {'a': 1.25, 'b': 2.25, 'aa': 3.25}, 'val': {0: 1.75, 1: 2.75, 3: 3.75, 5: 4.75, 8: 5.75},
}
LABELLED = {'unique': ['a', 'c', 'z', 'd', 'k', 'x'], 'range': [0, 1, 3, 4, 11], 'dup': ['a', 'c', 'z', 'k'], 'multi': [(0, 'y'), (2, 'z'), (1, 'q'), (1, 'x')]}
LEVELS = {'unique': ['c', 'z', 'd', 'x'], 'range': [1, 3, 11, 2], 'dup': ['c', 'z', 'b'], 'multi': ['z', 'x', 'q']}


def make(table, eager, links):
    import pandas as pd
    from cheval.ldf import LinkedDataFrame as L
    n = {'unique': 5, 'range': 6, 'dup': 5, 'multi': 5}[table]
    data = {'k': [3, 1, 9, 2, 1, 3][:n], 'k2': [0, 1, 1, 0, 1, 1][:n], 's': ['b', 'a', 'zz', 'a', '', 'b'][:n], 'u': [4, 1, 7, 3, 2, 77][:n], 'x': [5., 3., 5., 1., 3., 8.][:n],
            'g': [1, 0, 1, 1, 0, 2][:n]}
    index = {'unique': pd.Index(list('cadbe'), name='ix'), 'range': pd.RangeIndex(n, name='ix'), 'dup': pd.Index(list('babac'), name='ix'),
             'multi': pd.MultiIndex.from_arrays([[1, 0, 1, 0, 2], list('xyyxz')], names=['n', 'ix'])}[table]
    d = L(data, index=index)
    further = pd.DataFrame({'w': [7.5, 8.5], 'id': [10.5, 30.5]})
    t = L({'k': list(TARGETS['col']), 'v': list(TARGETS['col'].values())})
    t.link_to(further, 'next', on_self='v', on_other='id', precompute=not eager)

    def link(name, other, **args):
        if name in links:
            d.link_to(other, name, precompute=eager, **args)
    link('col', t, on='k')
    link('chain', t, on='k')
    link('two', L({'a': [k[0] for k in TARGETS['two']], 'b': [k[1] for k in TARGETS['two']], 'v': list(TARGETS['two'].values())}), on_self=['k', 'k2'], on_other=['a', 'b'])
    link('plain', pd.DataFrame({'s': list(TARGETS['plain']), 'v': list(TARGETS['plain'].values())}), on='s')
    link('val', pd.DataFrame({'v': list(TARGETS['val'].values())}, index=list(TARGETS['val'])), on_self='x')
    link('agg', L({'to': [1, 3, 1, 77, 4, 3], 'v': [1.5, 4.5, 4., 8.5, 16.5, 32.]}), on_self='u', on_other='to')
    keys = LABELLED[table]
    index = pd.MultiIndex.from_tuples(keys, names=['n', 'ix']) if table == 'multi' else pd.Index(keys, name='other')
    link('own', L({'v': [11.5 + i for i in range(len(keys))]}, index=index))
    link('lev', pd.DataFrame({'id': LEVELS[table], 'v': [50.5 + i for i in range(len(LEVELS[table]))]}), self_levels='ix', on_other='id')
    return d


def look(d, name):
    if name == 'agg':
        return d['agg'].sum('v')
    if name == 'chain':
        return d['chain'].next.w
    return d[name].v


def available(d):
    """The links, as a user finds them"""
    out = []
    for name in LINKS:
        try:
            d[name]
        except KeyError:
            continue
        out.append(name)
    return out


FILL = dict.fromkeys(LINKS, NAN)


def joined(table, d):
    """For every link, what the keys of each row select (a set of acceptable values), or None if the keys are not there"""
    import pandas as pd
    d = pd.DataFrame(d)
    n = len(d)
    columns = {'col': ['k'], 'chain': ['k'], 'two': ['k', 'k2'], 'plain': ['s'], 'val': ['x'], 'agg': ['u']}
    out = {}
    for name in LINKS:
        if name == 'own':
            targets = {k: 11.5 + i for i, k in enumerate(LABELLED[table])}
            arrays = [d.index.get_level_values(i).tolist() for i in range(d.index.nlevels)] if d.index.nlevels == (2 if table == 'multi' else 1) else None
        elif name == 'lev':
            targets = {k: 50.5 + i for i, k in enumerate(LEVELS[table])}
            arrays = [d.index.get_level_values('ix').tolist()] if list(d.index.names).count('ix') == 1 else None
        else:
            targets = TARGETS[name]
            keys = columns[name]
            arrays = [d[c].tolist() for c in keys] if d.columns.nlevels == 1 and all(list(d.columns).count(c) == 1 for c in keys) else None
        if arrays is None:
            out[name] = None
            continue
        values = []
        for i in range(n):
            key = arrays[0][i] if len(arrays) == 1 else tuple(a[i] for a in arrays)
            try:
                v = {targets.get(key, FILL[name])}
            except TypeError:
                v = {FILL[name]}
            if any(isinstance(a[i], bool) for a in arrays):   # Whether True is 1 is up to pandas
                v.add(FILL[name])
            values.append(v)
        out[name] = values
    return out


class Inapplicable(Exception):
    pass


def need(condition):
    if not condition:
        raise Inapplicable()


def cols(d, *names):
    need(d.columns.nlevels == 1 and all(list(d.columns).count(c) == 1 for c in names))


def grouped(fn, by='g', **kw):
    def op(d):
        cols(d, by)
        return fn(d.groupby(by, **kw))
    return op


def valid(fn, by='g'):
    """Pandas leaves the memory of rows without a group uninitialised"""
    def op(d):
        cols(d, by)
        need(d[by].notna().all())
        return fn(d)
    return op


def series(fn, name='g'):
    """Grouped by a Series or an array, which is not a column"""
    def op(d):
        cols(d, name)
        return fn(d.groupby(d[name].to_numpy() % 2))
    return op


def level(fn, i=-1):
    return lambda d: fn(d.groupby(level=i))


def flat(fn):
    def op(d):
        need(d.columns.nlevels == 1 and d.columns.is_unique)
        return fn(d)
    return op


def numbers(fn):
    def op(d):
        return fn(d.select_dtypes('number'))
    return op


def edit(fn):
    def op(d):
        need(d.columns.nlevels == 1)
        d = d.copy(deep=True)
        r = fn(d)
        return d if r is None else r
    return op


def pandas():
    import pandas as pd
    return pd


def other():
    return pandas().DataFrame({'k': [1, 3, 3], 'extra': [0.5, 1.5, 2.5]})


def dumps(d, protocol=None):
    import pickle
    return pickle.loads(pickle.dumps(d, protocol) if protocol is not None else pickle.dumps(d))


def csv(d):
    import io
    return pandas().read_csv(io.StringIO(d.to_csv(index=False)))


def shallow(d):
    import copy
    return copy.copy(d)


def deep(d):
    import copy
    return copy.deepcopy(d)


def left(fn):
    """The source of the result gets other keys afterwards, and its links are refreshed"""
    def op(d):
        r = fn(d)
        for c in ('k', 'k2', 's', 'u', 'x'):
            if d.columns.nlevels == 1 and list(d.columns).count(c) == 1:
                d[c] = d[c].tolist()[::-1]
        if is_linked(d):
            try:
                d.compute_indexers()
            except Exception:
                pass   # Some keys are gone
        return r
    return op


def set_column(name, values):
    def op(d):
        cols(d, name)
        d[name] = [values[i % len(values)] for i in range(len(d))]
    return edit(op)


def set_cell(d):
    cols(d, 'k')
    need(len(d) > 1)
    d.iloc[1, list(d.columns).index('k')] = 4


def set_index(new):
    def op(d):
        d.index = pandas().Index([new[i % len(new)] for i in range(len(d))], name='ix')
    return edit(op)


def indexed(*names, **kw):
    def op(d):
        cols(d, *names)
        return d.set_index(list(names) if len(names) > 1 else names[0], **kw)
    return op


# Rows stay rows, without any change
SAME = {
    'pickle': dumps, 'pickle2': lambda d: dumps(d, 2), 'copy.copy': shallow, 'copy.deepcopy': deep, 'copy': lambda d: d.copy(), 'copy(deep)': lambda d: d.copy(deep=True), 'getall': lambda d: d[:],
    'locall': lambda d: d.loc[:], 'ilocall': lambda d: d.iloc[:, :], 'pickle twice': lambda d: dumps(dumps(d)),
    'copy left': left(lambda d: d.copy(deep=True)), 'deepcopy left': left(deep), 'pickle left': left(dumps),
}
# Rows are what they were, with other contents, labels or columns
EDIT = {
    'shift': lambda d: d.shift(1), 'diff': numbers(lambda d: d.diff()), 'cumsum': numbers(lambda d: d.cumsum()), 'cummax': numbers(lambda d: d.cummax()), 'rank': numbers(lambda d: d.rank()), 'abs': numbers(lambda d: d.abs()),
    'neg': numbers(lambda d: -d), 'plus': numbers(lambda d: d + 1), 'times': numbers(lambda d: 2 * d), 'self': numbers(lambda d: d + d), 'compare': lambda d: d == d, 'round': lambda d: d.round(), 'astype': numbers(lambda d: d.astype('f8')),
    'strings': lambda d: d.astype(str), 'object': lambda d: d.astype(object), 'isna': lambda d: d.isna(), 'notna': lambda d: d.notna(), 'isin': lambda d: d.isin([1, 3]), 'fillna': lambda d: d.fillna(3),
    'ffill': lambda d: d.ffill(), 'replace': lambda d: d.replace(3, 4), 'where': numbers(lambda d: d.where(d > 2)), 'mask values': numbers(lambda d: d.mask(d > 2, 1)), 'clip': numbers(lambda d: d.clip(2, 4)),
    'assign': flat(lambda d: d.assign(k=2)), 'assign new': flat(lambda d: d.assign(new=1.5)), 'eval': edit(lambda d: (cols(d, 'k', 'g'), d.eval('k = k + g'))[1]), 'apply': numbers(lambda d: d.apply(lambda c: c + 1)),
    'apply rows': numbers(lambda d: d.apply(lambda r: r * 2, axis=1)), 'applymap': lambda d: d.applymap(lambda v: v), 'transform': numbers(lambda d: d.transform(lambda c: c - 1)), 'infer': lambda d: d.infer_objects(),
    'convert': flat(lambda d: d.convert_dtypes()), 'prefix': flat(lambda d: d.add_prefix('p_')), 'rename': flat(lambda d: d.rename(columns={'k': 'u', 'u': 'k'})), 'rename x': flat(lambda d: d.rename(columns={'x': 'k', 'k': 'x'})),
    'set k': set_column('k', [1, 9, 3]), 'set u': set_column('u', [1, 3, 4, 9]), 'set cell': edit(set_cell), 'loc': edit(lambda d: (cols(d, 'k'), d.loc.__setitem__((d.index[:1], 'k'), 2), None)[2]),
    'insert': edit(lambda d: d.insert(0, f'first{d.shape[1]}', 1.0)), 'pop': edit(lambda d: (cols(d, 'k'), d.pop('k'), None)[2]), 'del': edit(lambda d: (cols(d, 'u'), d.__delitem__('u'))[1]),
    'get': flat(lambda d: d[[c for c in d.columns if c not in ('k', 'u')]]), 'filter': flat(lambda d: d.filter(items=['k', 'x', 's'])), 'types': lambda d: d.select_dtypes('number'),
    'rolling': numbers(lambda d: d.rolling(2).sum()), 'expanding': numbers(lambda d: d.expanding().max()), 'ewm': numbers(lambda d: d.ewm(1).mean()), 'pct': numbers(lambda d: d.pct_change()),
    'set_axis': lambda d: d.set_axis(list(range(10, 10 + len(d))), axis=0, inplace=False), 'set columns': lambda d: d.set_axis([f'c{i}' for i in range(d.shape[1])], axis=1, inplace=False),
    'rename labels': flat(lambda d: d.rename(index={'c': 'a', 'a': 'c', 1: 3, 3: 1})), 'rename_axis': lambda d: d.rename_axis(['r%d' % i for i in range(d.index.nlevels)]), 'named': lambda d: d.rename_axis(['ix'] + ['q'] * (d.index.nlevels - 1)),
    'reset': flat(lambda d: d.reset_index(drop=True)), 'inreset': edit(lambda d: d.reset_index(drop=True, inplace=True)), 'index': set_index(['z', 'c', 'a']), 'numbers': set_index([3, 4, 0, 1]),
    'to_numpy': flat(lambda d: type(d)(d.to_numpy(), columns=d.columns, index=d.index)), 'update': edit(lambda d: (cols(d, 'k'), d.update(pandas().DataFrame({'k': [3] * len(d)}, index=d.index)) if d.index.is_unique else None)[1]),
    'columns reversed': lambda d: d.iloc[:, ::-1], 'columns from': lambda d: d.iloc[:, 1:], 'columns to': flat(lambda d: d.loc[:, :'s'] if list(d.columns).count('s') == 1 else d.iloc[:, :2]), 'columns every': lambda d: d.iloc[:, ::2],
    'columns list': lambda d: d.iloc[:, [0, 0]], 'columns mask': lambda d: d.loc[:, [i % 3 != 1 for i in range(d.shape[1])]], 'columns take': lambda d: d.take([d.shape[1] - 1, 0], axis=1), 'columns reindex': flat(lambda d: d.reindex(columns=['x', 'k', 's', 'new'])),
    'columns sort': flat(lambda d: d.sort_index(axis=1, key=lambda c: c.map(str), ascending=False)), 'columns drop': flat(lambda d: d.drop(columns=[c for c in ('k2', 'u') if c in d])), 'columns truncate': flat(lambda d: d.sort_index(axis=1, key=lambda c: c.map(str)).iloc[:, :4]),
    'columns sample': flat(lambda d: d.sample(frac=1.0, axis=1, random_state=3)), 'columns get': flat(lambda d: d[list(d.columns)[::-1]]), 'both': lambda d: d.iloc[:, ::-1].iloc[:, ::-1], 'columns dropna': lambda d: d.dropna(axis=1), 'columns concat': flat(lambda d: pandas().concat([d.iloc[:, 2:], d.iloc[:, :2]], axis=1)),
    'fillna left': left(lambda d: d.fillna(3)), 'assign left': left(flat(lambda d: d.assign(k2=1).copy(deep=True))), 'head left': left(lambda d: d.head(len(d)).copy(deep=True)),
    'twice': flat(lambda d: d[[c for c in d.columns for _ in range(2)]]),
    'combine_first': numbers(lambda d: (need(d.index.is_unique and d.columns.is_unique), d.combine_first(d))[1]),
    'reset keep': lambda d: (need(d.columns.nlevels == 1 and not set(d.index.names) & set(d.columns)), d.reset_index())[1], 'set_index': indexed('k'), 'set_index keep': indexed('k', drop=False), 'set_index x': indexed('x'),
    'set_index two': indexed('g', 's'), 'set_index append': indexed('g', append=True), 'set_index s': indexed('s'), 'inset_index': edit(lambda d: (cols(d, 'u'), d.set_index('u', inplace=True))[1]),
    'swap': lambda d: (need(d.index.nlevels == 2), d.swaplevel())[1], 'droplevel': lambda d: (need(d.index.nlevels == 2), d.droplevel(0))[1],
}
# Other rows
NEW = {
    'sum': grouped(lambda g: g.sum()), 'mean': grouped(lambda g: g.mean()), 'first': grouped(lambda g: g.first()), 'last': grouped(lambda g: g.last()), 'max': grouped(lambda g: g.max()), 'min': grouped(lambda g: g.min()),
    'count': grouped(lambda g: g.count()), 'median': grouped(lambda g: g.median()), 'prod': grouped(lambda g: g.prod()), 'std': grouped(lambda g: g.std()), 'nth': grouped(lambda g: g.nth(0)), 'ngroup': grouped(lambda g: g[['k']].sum()),
    'sum flat': grouped(lambda g: g.sum(), as_index=False), 'first flat': grouped(lambda g: g.first(), as_index=False), 'mean flat': grouped(lambda g: g.mean(), as_index=False), 'max flat': grouped(lambda g: g.max(), as_index=False),
    'size flat': grouped(lambda g: g.size(), as_index=False), 'first unsorted': grouped(lambda g: g.first(), as_index=False, sort=False), 'k sum': grouped(lambda g: g.sum(), 'k'), 'k sum flat': grouped(lambda g: g.sum(), 'k', as_index=False),
    'k first flat': grouped(lambda g: g.first(), 'k', as_index=False), 'k max flat': grouped(lambda g: g.max(), 'k', as_index=False, sort=False), 'x first': grouped(lambda g: g.first(), 'x'), 's sum': grouped(lambda g: g.sum(), 's'), 's last flat': grouped(lambda g: g.last(), 's', as_index=False),
    'u min flat': grouped(lambda g: g.min(), 'u', as_index=False), 'agg': grouped(lambda g: g.agg('sum')), 'agg dict': grouped(lambda g: g.agg({'k': 'max'}) if 'k' in g.obj else g.agg('max')), 'agg flat': grouped(lambda g: g.agg('first'), as_index=False),
    'agg lists': grouped(lambda g: g.agg(['min', 'max'])), 'agg fn': grouped(lambda g: g.agg(lambda s: s.iloc[-1])), 'agg named': grouped(lambda g: g.agg(k=('x', 'max'))), 'apply first': grouped(lambda g: g.apply(lambda f: f.iloc[0])),
    'array sum': series(lambda g: g.sum()), 'array first': series(lambda g: g.first()), 'array last': series(lambda g: g.last()), 'array mean': series(lambda g: g.mean()), 'array max': series(lambda g: g.max()),
    'level sum': level(lambda g: g.sum()), 'level first': level(lambda g: g.first()), 'level last': level(lambda g: g.last()), 'level0 max': level(lambda g: g.max(), 0), 'level0 first': level(lambda g: g.first(), 0),
    'gtransform': grouped(lambda g: g.transform('max')), 'gcumsum': valid(grouped(lambda g: g.cumsum())), 'grank': grouped(lambda g: g.rank()), 'gshift': grouped(lambda g: g.shift()), 'gffill': grouped(lambda g: g.ffill()),
    'gdescribe': grouped(lambda g: g.describe()), 'gquantile': grouped(lambda g: g.quantile()), 'value_counts': lambda d: d.value_counts().to_frame(),
    'describe': lambda d: d.describe(), 'describe all': lambda d: d.describe(include='all'), 'T': lambda d: d.T, 'TT': lambda d: d.T.T, 'melt': flat(lambda d: d.melt()), 'melt k': flat(lambda d: (cols(d, 'k', 'x'), d.melt(id_vars=['k'], value_vars=['x']))[1]),
    'stack': lambda d: d.stack().to_frame(), 'unstack': lambda d: (need(d.index.nlevels > 1 and d.index.is_unique), d.unstack())[1], 'explode': flat(lambda d: d.assign(many=[[1, 3]] * len(d)).explode('many')),
    'mode': lambda d: d.mode(), 'quantiles': numbers(lambda d: d.quantile([0.0, 0.5, 1.0])), 'corr': numbers(lambda d: d.corr()), 'aggs': numbers(lambda d: d.agg(['sum', 'max'])), 'agg columns': numbers(lambda d: d.sum().to_frame('k')),
    'concat': lambda d: pandas().concat([d, d]), 'concat fresh': lambda d: pandas().concat([d, d.iloc[:1]], ignore_index=True), 'concat keys': lambda d: pandas().concat({'p': d, 'q': d}), 'concat one': lambda d: pandas().concat([d]),
    'concat columns': flat(lambda d: pandas().concat([d, d.rename(columns=lambda c: str(c) + '_')], axis=1)), 'merge': flat(lambda d: (cols(d, 'k'), d.merge(other(), on='k'))[1]), 'merge left': flat(lambda d: (cols(d, 'k'), d.merge(other(), on='k', how='left'))[1]),
    'merge outer': flat(lambda d: (cols(d, 'k'), pandas().merge(d, other(), on='k', how='outer'))[1]), 'merge index': flat(lambda d: (cols(d, 'k'), d.merge(other().extra, left_on='k', right_index=True))[1]), 'join': flat(lambda d: (need('extra' not in d), d.join(other()[['extra']], on=None) if d.index.nlevels == 1 else d)[1]),
    'join k': flat(lambda d: (cols(d, 'k'), need('joined' not in d), d.join(pandas().DataFrame({'joined': [1.5, 2.5]}, index=[1, 3]), on='k'))[2]), 'csv': csv, 'dict': flat(lambda d: type(d)(d.to_dict('list'))),
    'dummies': flat(lambda d: (cols(d, 's'), pandas().get_dummies(d, columns=['s']))[1]),
    'pivot': flat(lambda d: (cols(d, 'g', 's', 'x'), pandas().DataFrame(d).pivot_table(index='g', columns='s', values='x'))[1]), 'plain': lambda d: pandas().DataFrame(d), 'again': lambda d: type(d)(d),
    'xs': lambda d: (need(d.index.nlevels == 2 and (d.index.get_level_values(0) == d.index[0][0]).any()), d.xs(d.index[0][0]))[1],
    'align': numbers(lambda d: (need(d.index.is_unique), d.align(d.iloc[::-1], axis=0)[1])[1]), 'nest': lambda d: d.groupby(level=0).head(1) if d.index.nlevels else d,
}
# Of these, the ones whose rows can be told to be rows of the table
FOLLOW = ['nth', 'gshift', 'align', 'xs']
OPS = {**SAME, **EDIT, **NEW}
GROUPED = ['gcumsum'] + [name for name in NEW if NEW[name].__qualname__.split('.')[0] in ('grouped', 'series', 'level')]


def touch(d):
    if is_linked(d):
        for name in available(d):
            look(d, name)
    return d


def half(d):
    return [i % 2 == 0 for i in range(len(d))]


# Selections of rows
ROWS = {'none': lambda d: d, 'touch': touch, 'rev': lambda d: d.iloc[::-1], 'mask': lambda d: d[half(d)], 'head': lambda d: d.head(3), 'sort': lambda d: d.sort_index(ascending=False), 'take': lambda d: d.take([i for i in (3, 0, 1, 0) if i < len(d)]),
        'empty': lambda d: d.iloc[:0], 'inrev': lambda d: (d := d.copy(deep=True), d.sort_index(ascending=False, inplace=True), d)[2]}
PAIRS = ['pickle', 'copy left', 'columns reversed', 'columns from', 'copy(deep)', 'shift', 'plus', 'astype', 'object', 'where', 'assign', 'assign new', 'rename', 'set k', 'pop', 'get', 'set_axis', 'rename labels', 'rename_axis', 'reset', 'index', 'numbers', 'isin', 'fillna',
         'apply', 'strings', 'reset keep', 'set_index', 'set_index keep', 'set_index two', 'set_index append', 'sum', 'first', 'max', 'count', 'sum flat', 'first flat', 'k sum', 'k first flat', 'k max flat', 's last flat', 'agg lists', 'agg fn',
         'array first', 'array sum', 'level first', 'level0 first', 'gcumsum', 'describe', 'T', 'stack', 'explode', 'mode', 'concat', 'concat fresh', 'merge', 'join k', 'csv', 'dict', 'again']
TRIPLES = ['pickle', 'plus', 'assign', 'rename', 'pop', 'get', 'index', 'reset', 'rename_axis', 'reset keep', 'set_index', 'set_index keep', 'sum', 'first flat', 'k first flat', 'array first', 'level first', 'T', 'concat fresh', 'merge', 'set k', 'shift', 'fillna', 'join k']


def shards(tier):
    out = []
    for t in TABLES:
        for eager in (True, False):
            for r in ROWS:
                out.append({'kind': 'rows', 'table': t, 'eager': eager, 'row': r})
            if tier == 'quick' and (t, eager) not in (('unique', True), ('unique', False), ('range', False), ('dup', True), ('multi', False)):
                continue
            first = list(OPS) if tier == 'thorough' else PAIRS
            for i in range(0, len(first), 8):
                out.append({'kind': 'pairs', 'table': t, 'eager': eager, 'first': first[i:i + 8], 'rest': first})
            if tier == 'thorough':
                for i in range(0, len(TRIPLES), 3):
                    out.append({'kind': 'triples', 'table': t, 'eager': eager, 'first': TRIPLES[i:i + 3]})
    return out


def run(shard, ctx):
    base = {'table': shard['table'], 'eager': shard['eager']}
    if shard['kind'] == 'rows':
        for i, op in enumerate(OPS):
            i += list(ROWS).index(shard['row']) + TABLES.index(shard['table'])
            ctx.do({**base, 'ops': [shard['row'], op], 'links': HALVES[i % 2]})
            ctx.do({**base, 'ops': ['touch', op, shard['row']] if shard['row'] != 'touch' else [op, 'touch'], 'links': HALVES[(i + 1) % 2]})
    elif shard['kind'] == 'pairs':
        for seq in itertools.product(shard['first'], shard['rest']):
            i = (shard['rest'].index(seq[0]) + shard['rest'].index(seq[1]) + TABLES.index(shard['table'])) % 2
            ctx.do({**base, 'ops': list(seq), 'links': HALVES[i]})
    else:
        for seq in itertools.product(shard['first'], TRIPLES, TRIPLES):
            ctx.do({**base, 'ops': list(seq)})


def is_linked(d):
    from cheval.ldf import LinkedDataFrame
    return isinstance(d, LinkedDataFrame)


def same_table(a, b):
    """Equal as tables, whatever their classes are"""
    pd = pandas()
    try:
        pd.testing.assert_frame_equal(pd.DataFrame(a), pd.DataFrame(b), check_freq=False)
        return True
    except AssertionError:
        return False


def same_rows(plain, d):
    """Where the groups happen to be rows of the table, the same in label and contents: their positions"""
    if not plain.index.is_unique or plain.index.nlevels != d.index.nlevels or len(d) == 0:
        return None
    at = plain.index.get_indexer(d.index)
    return at if (at >= 0).all() and pandas().DataFrame(d).equals(pandas().DataFrame(plain).take(at)) else None


def merged(a, b):
    """Accepts either"""
    out = {}
    for name in LINKS:
        if a[name] is None or b[name] is None:
            out[name] = a[name] if b[name] is None else b[name]
        else:
            out[name] = [x | y for x, y in zip(a[name], b[name])]
    return out


def run_case(case, ctx):
    import warnings
    pd = pandas()
    from mc.lib import Bad
    warnings.simplefilter('ignore')
    table = case['table']
    links = case.get('links', LINKS)
    d = make(table, case['eager'], links)
    plain = pd.DataFrame(d).copy()
    accept = joined(table, d)
    now = set(links)
    for step, name in enumerate(case['ops']):
        op = ROWS.get(name) or OPS[name]
        keep = now
        try:
            expected = op(plain.copy() if not is_linked(plain) else plain)
            need(isinstance(expected, pd.DataFrame))
        except Exception:
            ctx.count('inapplicable')
            return
        follow = name in FOLLOW or name in GROUPED and len(expected) == len(plain)   # Groups of one row each
        if follow or name in ROWS and name not in ('none', 'touch'):
            mark = plain.copy()   # Tells which rows they are
            mark.insert(0, 'row' if mark.columns.nlevels == 1 else ('row',) * mark.columns.nlevels, range(len(mark)))
            marked = op(mark)
            at = list(marked.columns).index(mark.columns[0]) if mark.columns[0] in list(marked.columns) else None
            rows = [NAN] * len(expected) if at is None else list(marked.iloc[:, at])
            accept = {k: v if v is None else [v[int(i)] if i == i and 0 <= i < len(v) else {FILL[k]} for i in rows] for k, v in accept.items()}
        result = op(d)
        ctx.step()
        if not isinstance(result, pd.DataFrame) or not same_table(result, expected):
            raise Bad(f'{case}: step {step}: result differs from that of pandas\n{result}\n{expected}')
        if not is_linked(result):
            now = set()
            accept = dict.fromkeys(LINKS)
        else:
            own = joined(table, result)
            if name in EDIT or follow:
                accept = merged(accept, own)
            elif name in GROUPED and (at := same_rows(plain, expected)) is not None:
                accept = merged({k: v if v is None else [v[i] for i in at] for k, v in accept.items()}, own)
            elif name in NEW:
                accept = own
            now = set(available(result))
        if name in SAME and is_linked(d) and (not is_linked(result) or now != keep):
            raise Bad(f'{case}: step {step}: {name} lost the links {keep - now}')
        if is_linked(result):
            check(case, step, result, now, accept, joined(table, result))
            if not now <= keep:
                raise Bad(f'{case}: step {step}: {name} added links {now - keep}')
        d, plain = result, expected
        ctx.state([table, name, sorted(now), [str(x) for x in d.index[:8]], [str(c) for c in d.columns[:8]]])
    ctx.outcome([sorted(now), {k: [sorted(map(str, s)) for s in v] for k, v in accept.items() if v is not None and k in now}])
    ctx.trace()


def check(case, step, d, links, accept, own):
    from mc.lib import Bad
    pd = pandas()
    copied = d.copy()   # Looking up indexes deferred links
    for name in sorted(links):
        try:
            got = look(copied, name)
        except Exception as e:
            if type(e).__name__ == 'LinkageSpecificationError' and own[name] is None and {'pop', 'del'} & set(case['ops'][:step + 1]):
                continue   # Its keys were taken away before it was indexed
            raise Bad(f'{case}: step {step}: looking up the link {name!r} fails with {type(e).__name__}: {e}')
        if not isinstance(got, pd.Series) or not got.index.equals(d.index):
            raise Bad(f'{case}: step {step}: look-up of {name} has index {list(got.index)}, the table has {list(d.index)}')
        want = accept[name]
        if want is None and len(d) > 0:
            raise Bad(f'{case}: step {step}: link {name} is there without its keys, and gives {list(got)}')
        for i, (g, w) in enumerate(zip(got, want or [])):
            if not (g in w or (g != g and any(x != x for x in w)) or (name == 'agg' and g == -1 and any(x != x for x in w))):
                raise Bad(f'{case}: step {step}: row {i} looks up {g!r} by {name}, its keys select one of {w}; all: {list(got)}, expected {want}\n{d}')
    others = set(dir(pd.DataFrame)) | set(map(str, d.columns))
    if set(LINKS) & set(dir(d)) - others != links - others:
        raise Bad(f'{case}: step {step}: dir() lists the links {set(LINKS) & set(dir(d))}, but there are {links}')
    for missing in ('no_such_link', '_nothing'):
        try:
            getattr(d, missing)
        except AttributeError:
            pass
        else:
            raise Bad(f'{case}: step {step}: has an attribute {missing}')
