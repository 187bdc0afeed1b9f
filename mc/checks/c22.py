"""C22: user data is never modified and results are never shared."""
META = {
    'jit': False,
    'rule': 'Every sequence of operations on a model (assignments of every kind, runs, pre-evaluation, copies, partial utilities) and on linked tables (linking, look-ups, '
            'aggregations, evaluation, pivots, indexing, copies, selections). After every operation, everything that the user supplied is compared with deep snapshots (values, types, shapes, '
            'flags, labels and their names, columns); every result is returned twice, one of which is overwritten in place in every way, and both the other one '
            'and all of the earlier ones have to stay what they were, as do the results of repeating the operation. Non-trivial: distinct (data, operations) sequences.',
    'bounds': {
        'quick': 'every sequence of up to 2 of 31 model operations on 8 kinds of data (flat and nested; types, layouts, read-only, labels), 3 of 11 of them on 2 kinds, and of up to 2 of 35 table operations on 6 kinds',
        'thorough': 'every sequence of up to 3 operations',
    },
    'assumptions': ['copies and selections of linked tables share values like those of ordinary tables, and are not overwritten here', 'numba is off, so that the compiled functions run as Python'],
}

import itertools

DATA = ['plain', 'types', 'fortran', 'readonly', 'strided', 'multi', 'nested', 'nested shared']
MODEL_OPS = ['number', 'vector series', 'vector array', 'vector text', 'vector category', 'vector alts', 'vector alts array', 'table', 'table linked', 'table alts', 'matrix', 'matrix some rows', 'matrix some cols',
             'matrix swapped', 'matrix turned', 'matrix turned some', 'partial', 'partial some', 'stochastic', 'group', 'discrete', 'discrete index', 'discrete draws', 'discrete object', 'preval', 'copy run',
             'copy preval', 'subset run', 'subset preval', 'units', 'choices']
DEEP = ['vector series', 'table linked', 'matrix', 'matrix turned some', 'partial', 'stochastic', 'discrete', 'preval', 'copy run', 'subset preval', 'vector array']
TABLE_OPS = ['f', 'i', 'b', 's', 'c', 'date', 'f4', 'obj', 'two hops', 'two hops text', 'plain', 'sum', 'count', 'first', 'quantile', 'sum of formula', 'nth text', 'first category', 'hop sum', 'evaluate', 'evaluate column',
             'evaluate locals', 'evaluate out', 'evaluate text', 'pivot', 'pivot lists', 'link', 'link lazily', 'index', 'refresh', 'summary', 'fills', 'copy', 'rows', 'groups']
TABLES = ['plain', 'lazy', 'readonly', 'multi', 'same keys', 'empty']


def shards(tier):
    depth = 2 if tier == 'quick' else 3
    out = [{'data': d, 'first': op, 'depth': depth} for d in DATA for op in MODEL_OPS]
    if tier == 'quick':
        out += [{'data': d, 'first': op, 'depth': 3, 'of': DEEP} for d in ('nested shared', 'readonly') for op in DEEP]
    out += [{'tables': t, 'first': op, 'depth': depth} for t in TABLES for op in TABLE_OPS]
    # Few large shards start up faster
    return [{'shards': out[i::64]} for i in range(64)]


def run(shard, ctx):
    for s in shard['shards']:
        for n in range(s['depth']):
            if 'of' in s and n < s['depth'] - 1:
                continue
            for rest in itertools.product(s.get('of') or (MODEL_OPS if 'data' in s else TABLE_OPS), repeat=n):
                if len(set(rest)) < n or (n and s['first'] == rest[0]):
                    continue     # Operations are repeated anyway
                ctx.do({k: s[k] for k in ('data', 'tables') if k in s} | {'ops': [s['first'], *rest]})


# region Snapshots

def frozen(x):
    """A deep, comparable description of anything which a user may supply or get"""
    import numpy as np
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return ['frame', type(x).__name__, x.shape, frozen(x.index), frozen(x.columns), [[frozen_values(x.iloc[:, j]._values), str(x.dtypes.iloc[j])] for j in range(x.shape[1])]]
    if isinstance(x, pd.Series):
        return ['series', frozen(x.index), repr(x.name), str(x.dtype), frozen_values(x._values)]
    if isinstance(x, pd.MultiIndex):
        return ['multi', repr(list(x.names)), repr(x.tolist())]
    if isinstance(x, pd.Index):
        return ['index', type(x).__name__, repr(x.name), str(x.dtype), repr(x.tolist())]
    if isinstance(x, np.ndarray):
        return ['array', x.shape, x.strides, str(x.dtype), x.flags.writeable, x.flags.c_contiguous, frozen_values(x)]
    if isinstance(x, dict):
        return ['dict', [[k, frozen(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [frozen(v) for v in x]]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted(map(repr, x))]
    return repr(x)


def frozen_values(v):
    import numpy as np
    import pandas as pd
    if isinstance(v, pd.Categorical):
        return ['cat', v.codes.tolist(), repr(v.categories.tolist()), bool(v.ordered)]
    if isinstance(v, np.ndarray) and v.dtype.kind != 'O':
        return [v.shape, v.tobytes()]
    return [repr(x) for x in (v.tolist() if hasattr(v, 'tolist') else list(v))]


def spoil(x):
    """Overwrites a result in place"""
    import numpy as np
    import pandas as pd
    if isinstance(x, (tuple, list)):
        for y in x:
            spoil(y)
        return
    if isinstance(x, np.ndarray):
        x[...] = -12345
        return
    if not isinstance(x, (pd.Series, pd.DataFrame)):
        return
    if len(x):
        if isinstance(x, pd.DataFrame):
            for j in range(x.shape[1]):
                spoil_values(x.iloc[:, j]._values)
            x.iloc[:, :] = x.iloc[::-1].to_numpy()
        else:
            spoil_values(x._values)
            x.iloc[:] = x.iloc[::-1].to_numpy()
    for axis in ('index', 'columns')[:x.ndim]:
        labels = getattr(x, axis)
        labels.names = [f'spoilt {i}' for i in range(labels.nlevels)]
    if isinstance(x, pd.Series):
        x.name = 'spoilt'
        if hasattr(x, 'cat'):
            x.cat.categories = [f'spoilt {i}' for i in range(len(x.cat.categories))]
        x.drop(x.index[:1], inplace=True)
    else:
        x.insert(0, ('spoilt',) * x.columns.nlevels if x.columns.nlevels > 1 else 'spoilt', 0)
        x.drop(x.index[:1], inplace=True)


def spoil_values(v):
    import numpy as np
    import pandas as pd
    if isinstance(v, np.ndarray):
        if v.flags.writeable:
            v[...] = {'O': 'spoilt', 'f': -12345.0, 'i': -99, 'u': 99, 'b': True, 'M': np.datetime64('1950-01-01'), 'm': np.timedelta64(5)}[v.dtype.kind]
    elif isinstance(v, pd.Categorical) and len(v.categories):
        v[:] = v.categories[0]

# endregion


class Book:
    """Everything that the user supplied, with snapshots; and everything returned"""

    def __init__(self):
        self.given, self.kept = {}, []

    def give(self, name, x, owner=None):
        """Registers something that is going to be supplied"""
        self.given[name] = (x, frozen(x))
        return x

    def check(self, what):
        from mc.lib import Bad
        for name, (x, before) in self.given.items():
            now = frozen(x)
            if now != before:
                raise Bad(f'{what} changed what the user supplied, {name}:\n{str(before)[:600]}\nis now\n{str(now)[:600]}')
        for op, x, before in self.kept:
            now = frozen(x)
            if now != before:
                raise Bad(f'{what} changed the result of {op} which was returned before:\n{str(before)[:600]}\nis now\n{str(now)[:600]}')


def perform(rig, op, book, history):
    """Does it twice; the second result is spoilt. Operations which return nothing are done once"""
    from mc.lib import Bad
    what = f'{history}: {op}'
    first = rig.do(op)
    book.check(what)
    if first is None:
        return
    before = frozen(first)
    book.kept.append((op, first, before))
    second = rig.do(op)
    book.check(what + ' (again)')
    if frozen(second) != before:
        raise Bad(f'{what}: the second result differs from the first one:\n{str(before)[:600]}\n{str(frozen(second))[:600]}')
    spoil(second)
    book.check(f'overwriting the result of {what}')
    third = rig.do(op)
    if frozen(third) != before:
        raise Bad(f'{what}: after overwriting the result it is another one:\n{str(before)[:600]}\n{str(frozen(third))[:600]}')
    book.check(what + ' (once more)')


class ModelRig:
    def __init__(self, data, book):
        import numpy as np
        import pandas as pd
        from cheval import ChoiceModel
        from cheval.ldf import LinkedDataFrame as L
        self.kind, self.book, self.np, self.pd = data, book, np, pd
        nested = data.startswith('nested')
        self.units = book.give('units', {'multi': pd.MultiIndex.from_tuples([(1, 'a'), (1, 'b'), (0, 'a')], names=['hh', None]), 'types': pd.Index(['x', 'y', 'z'], name='unit'),
                                         'fortran': pd.RangeIndex(3, name='r')}.get(data, pd.Index([30, 10, 20], name='unit')))
        m = self.model = ChoiceModel(precision=4 if data == 'types' else 8)
        self.alts = book.give('alternatives', ['A', 'B', 'C'])
        if nested:
            nodes = m.add_choices(self.alts, logsum_scales=book.give('scales', [0.5, 1.0, 1.0]))
            for k in ('D', 'E'):
                nodes['A'].add_choice(k)
        else:
            m.add_choices(self.alts)
        m.decision_units = self.units
        self.cols = m.choices
        K = len(self.cols)
        for d in ('vs', 'va', 'vt', 'vc'):
            m.declare_vector(d, 0)
        m.declare_vector('ws', 1), m.declare_vector('wa', 1), m.declare_number('n')
        m.declare_table('t', 0, mandatory_attributes=book.give('mandatory', {'f'})), m.declare_table('tl', 0), m.declare_table('u', 1)
        m.declare_matrix('m'), m.declare_matrix('mt', 1), m.declare_matrix('mg')
        self.exprs = book.give('expressions', ['n * vs + va', 'where(vt == "ab", 0.5, ws)', 'wa + (vc == "q") - t.f', 'tl.lk.x + tl.ag.sum(y) * 0.25', 'u.a + m', '{A: 0.5, B: -1.5}', 'mt', 'm', 't.f', 'ws', 'va'])
        m.expressions = self.exprs
        for e in ('mg * 0.5', 'vs'):
            m.expressions.append(e, group='g')
        self.n = 0
        f = {'types': 'f4', 'strided': 'f8'}.get(data, 'f8')
        i = {'types': 'i2'}.get(data, 'i8')
        u, rng = self.units, np.arange

        def fix(x):
            if data == 'readonly':
                x.flags.writeable = False
            if data == 'fortran':
                x = np.asfortranarray(x)
            if data == 'strided':
                big = np.zeros([2 * n + 1 for n in x.shape], dtype=x.dtype)
                at = tuple(slice(1, None, 2) for _ in x.shape)
                big[at] = x
                x = big[at]
            return x
        g = book.give
        shared = fix(np.array([0.5, -1.0, 0.25], dtype=f))
        self.vs = g('vs', pd.Series(fix(np.array([1, 2, 0], dtype=i)) if data != 'nested shared' else shared, index=u, name='vs'))
        self.va = g('va', shared)
        self.vt = g('vt', pd.Series(['ab', None, 'abc'], index=u))
        self.vc = g('vc', pd.Series(pd.Categorical(['q', 'p', 'q'], categories=['z', 'q', 'p']), index=u))
        self.wa = g('wa', fix(np.arange(K, dtype=f) * 0.5))
        self.ws = g('ws', pd.Series(self.wa if data == 'nested shared' else fix(np.arange(K) % 2 == 0), index=self.cols))
        self.t = g('t', pd.DataFrame({'f': shared if data == 'nested shared' else fix(np.array([0.5, 1.0, -2.0], dtype=f)), 's': ['a', 'b', 'c']}, index=u))
        lk = g('lk', L({'x': np.array([0.5, 2.0], dtype=f), 'k': [2, 3]}, index=[7, 8]))
        ag = g('ag', pd.DataFrame({'y': np.array([1.0, 2.0, 4.0, 8.0], dtype=f), 'id': [0, 1, 1, 0]}))
        self.tl = L({'key': [8, 7, 8], 'id': [0, 1, 2], 'f': [0.5, 0.25, 1.0]}, index=u)
        self.tl.link_to(lk, 'lk', on_self='key', precompute=data != 'types')
        self.tl.link_to(ag, 'ag', on_self='id', on_other='id', precompute=data == 'types')
        self.tl['f'] = self.tl['f'] + 0.0
        ag['y'] = ag['y'] * 1.0
        ag.loc[len(ag)] = [0.5, 2]
        # ^ The target got another row, which needs a new index
        self.tl.compute_indexers()
        g('tl', self.tl), g('lk', lk), g('ag', ag)
        self.u = g('u', pd.DataFrame({'a': np.arange(K, dtype=f), 'b': list('pqrst')[:K]}, index=self.cols))
        cells = np.array([[(3 * r + 2 * c) % 5 - 2 for c in range(K)] for r in range(3)], dtype=f)
        self.m = g('m', pd.DataFrame(fix(cells), index=u, columns=self.cols))
        self.mi = g('mi', pd.DataFrame(fix(cells.astype(i)), index=u, columns=self.cols))
        self.rows = g('rows', self.m.iloc[[2, 0]])
        self.some = g('some', self.m.iloc[:, [1, 0]])
        self.swapped = g('swapped', self.m.iloc[[2, 0, 1], ::-1])
        self.turned = g('turned', pd.DataFrame(fix(np.ascontiguousarray(cells.T)), index=self.cols, columns=u))
        self.mask = g('mask', pd.Series([True, False, True], index=u))
        self.number = g('number', np.array(1.5)[()])
        self.done = set()
        for op in MODEL_OPS[:20]:
            if op.split()[0] in ('number', 'vector', 'table', 'matrix'):
                self.do(op)
        self.m_assign('mg', self.m)
        book.check('the first assignments')

    def m_assign(self, name, x):
        self.model[name].assign(x)

    def run(self, m):
        return m.run_stochastic(clear_scope=False, check_infeasible=False)

    def do(self, op):
        m, a = self.model, self.m_assign
        if op == 'number':
            a('n', self.number)
        elif op == 'vector series':
            a('vs', self.vs)
        elif op == 'vector array':
            a('va', self.va)
        elif op == 'vector text':
            a('vt', self.vt)
        elif op == 'vector category':
            a('vc', self.vc)
        elif op == 'vector alts':
            a('ws', self.ws)
        elif op == 'vector alts array':
            a('wa', self.wa)
        elif op == 'table':
            a('t', self.t)
        elif op == 'table linked':
            a('tl', self.tl)
        elif op == 'table alts':
            a('u', self.u)
        elif op == 'matrix':
            a('m', self.m)
        elif op == 'matrix some rows':
            a('m', self.rows)
        elif op == 'matrix some cols':
            a('m', self.some)
        elif op == 'matrix swapped':
            a('m', self.swapped)
        elif op == 'matrix turned':
            a('mt', self.turned)
        elif op == 'matrix turned some':
            a('mt', self.book.given['rows'][0].T)
        elif op == 'partial':
            m.add_partial_utilities(self.m.astype(f'f{m.precision}', copy=False))
        elif op == 'partial some':
            m.add_partial_utilities(self.rows.astype(f'f{m.precision}', copy=False), reindex_rows=True)
        elif op == 'stochastic':
            return self.run(m)
        elif op == 'group':
            if 'preval' in self.done:
                return None
            return m.run_stochastic(group='g', clear_scope=False)
        elif op == 'discrete':
            return m.run_discrete(random_seed=5, clear_scope=False)
        elif op == 'discrete index':
            return m.run_discrete(random_seed=5, clear_scope=False, astype='index', squeeze=False) + m.run_discrete(random_seed=5, clear_scope=False, astype='index')
        elif op == 'discrete draws':
            return m.run_discrete(random_seed=5, clear_scope=False, n_draws=3, result_name='draw')
        elif op == 'discrete object':
            return m.run_discrete(random_seed=5, clear_scope=False, astype=object, result_name='r')
        elif op == 'preval':
            if 'preval' not in self.done:
                m.preval('g')
        elif op == 'copy run':
            return self.run(m.copy())
        elif op == 'copy preval':
            c = m.copy()
            if 'preval' not in self.done:
                c.preval('g')
            c.add_partial_utilities(self.m.astype(f'f{m.precision}', copy=False))
            return self.run(c)
        elif op == 'subset run':
            return self.run(m.copy_subset(self.mask))
        elif op == 'subset preval':
            c = m.copy_subset(self.mask)
            if 'preval' not in self.done:
                c.preval('g')
            return self.run(c)
        elif op == 'units':
            return m.decision_units.tolist()
        elif op == 'choices':
            x = m.choices
            before = x.tolist()
            x.names = [f'spoilt {i}' for i in range(x.nlevels)]
            if m.elemental_choices is not x:
                m.elemental_choices.names = ['spoilt'] * x.nlevels
            return before + [self.run(m)[0]]
        else:
            raise AssertionError(op)
        return None


class TableRig:
    def __init__(self, kind, book):
        import numpy as np
        import pandas as pd
        from cheval.ldf import LinkedDataFrame as L
        self.kind, self.book, self.np, self.pd, self.L = kind, book, np, pd, L
        n = 0 if kind == 'empty' else 4
        index = pd.Index([5, 1, 9, 3], name='ix') if kind != 'multi' else pd.MultiIndex.from_product([[1, 0], ['p', 'q']], names=['l', None])
        key = [20, 10, 30, 40] if kind == 'same keys' else [20, 99, 10, 20]
        src = pd.DataFrame({'key': key, 'id': [1, 2, 3, 4], 'f': [0.5, 1.0, -2.0, 3.0], 's': ['a', 'ab', '', 'a'], 'b': [True, False, True, True], 'i': [3, 1, 2, 1],
                            'c': pd.Categorical(['q', 'p', 'q', 'r'])}, index=index).iloc[:n]
        r = {10: 0, 20: 1, 30: 2, 40: 3}
        other = pd.DataFrame({'f': [0.25, -1.0, 3.0, 0.0], 'i': [4, 1, 2, 7], 'b': [True, False, True, False], 's': ['ab', 'abc', 'a', ''], 'c': pd.Categorical(['u', 'v', 'u', 'v'], categories=['w', 'v', 'u']),
                              'date': pd.to_datetime(['2020-01-01', '2021-02-03', '1999-09-09', '2000-01-01']), 'f4': np.array([1, 2, 3, 4], dtype='f4') / 3, 'obj': [{1}, {2}, {3}, {4}], 'nk': [7, 5, 6, 7]},
                             index=[20, 10, 30, 40] if kind == 'same keys' else [10, 20, 30, 40])
        end = pd.DataFrame({'y': [1.25, -0.75], 't': ['ab', 'it is']}, index=[5, 7])
        many = pd.DataFrame({'who': [1, 3, 2, 1, 3, 1, 0], 'x': [1.5, -0.5, 2.0, 0.25, 4.0, -1.0, 9.0], 't': ['p', 'q', 'r', 's', 't', 'u', 'v'], 'c': pd.Categorical(list('xyxyxyx')), 'key': [10, 20, 30, 10, 20, 99, 30]},
                            index=[3, 3, 1, 2, 5, 6, 4])
        if kind == 'readonly':
            for frame in (src, other, end, many):
                for b in frame._mgr.blocks:
                    if isinstance(b.values, np.ndarray):
                        b.values.flags.writeable = False
        g = book.give
        self.raw = [g(f'raw {i}', x) for i, x in enumerate((src, other, end, many))]
        self.src, self.other, self.end, self.many = g('src', L(src)), g('other', L(other)), g('end', L(end)), g('many', L(many))
        lazy = kind == 'lazy'
        self.on = g('on', ['key'])
        self.src.link_to(self.other, 'lk', on_self=self.on, precompute=not lazy)
        self.other.link_to(self.end, 'nx', on_self='nk', precompute=not lazy)
        self.src.link_to(other, 'pl', on_self=self.on, precompute=not lazy)
        self.src.link_to(self.many, 'ag', on_self='id', on_other='who', precompute=not lazy)
        self.many.link_to(self.other, 'lk', on_self='key', precompute=not lazy)
        self.end.link_to(self.many, 'ag', on_other='who', precompute=not lazy)
        self.locals = g('locals', {'x': np.arange(float(n)), 'y': 2.0, 'f': np.full(n, 1e6), 'names': pd.Series(range(n))})
        book.check('linking')

    def do(self, op):
        d, n = self.src, len(self.src)
        if op in ('f', 'i', 'b', 's', 'c', 'date', 'f4', 'obj'):
            return d.lk[op]
        if op == 'two hops':
            return d.lk.nx.y
        if op == 'two hops text':
            return d.lk.nx['t']
        if op == 'plain':
            return [d.pl[k] for k in ('f', 's', 'c', 'b')]
        if op == 'sum':
            return d.ag.sum('x')
        if op == 'count':
            return d.ag.count()
        if op == 'first':
            return d.ag.first('x')
        if op == 'quantile':
            return d.ag.quantile('x', q=0.25)
        if op == 'sum of formula':
            return d.ag.sum('x * lk.f + 1', int_fill=-5)
        if op == 'nth text':
            return d.ag.nth('t', n=1)
        if op == 'first category':
            return d.ag.first('c')
        if op == 'hop sum':
            return d.evaluate('lk.nx.ag.sum(x) + ag.max(x)')
        if op == 'evaluate':
            return d.evaluate('f * lk.f + where(b, i, -1)')
        if op == 'evaluate column':
            return [d.evaluate('f'), d.evaluate('(i)'), d.evaluate('lk.f'), d.evaluate('b')]
        if op == 'evaluate locals':
            return d.evaluate('x * y + f', local_dict=self.locals), d.evaluate('x', local_dict=self.locals)
        if op == 'evaluate out':
            out = self.pd.Series(self.np.zeros(n), index=d.index)
            return [d.evaluate('f * 2 + lk.f', out=out), out.tolist()]
        if op == 'evaluate text':
            return [d.evaluate('s'), d.evaluate('c'), d.evaluate('lk.s')] if n else None
        if op == 'pivot':
            return d.pivot_table(values='f', index='b', columns='i', aggfunc='sum', fill_value=0)
        if op == 'pivot lists':
            return d.pivot_table(values=['f', 'lk.f'], index=['i', 'lk.b'], aggfunc=['sum', 'max']) if n else None
        if op in ('link', 'link lazily'):
            d.link_to(self.other, 'again', on_self=self.on, precompute=op == 'link')
            return d.again.f
        if op == 'index':
            d.compute_indexers(refresh=False)
        elif op == 'refresh':
            d.compute_indexers()
            return d.lk.f
        elif op == 'summary':
            return d.link_summary().drop(columns='preindexed')
        elif op == 'fills':
            self.other.set_column_fill('i', -3)
            with self.other.temporary_fill_defaults(FLOAT_NAME=-1.5):
                pass
            self.other.reset_fill_defaults()
            return None
        elif op == 'copy':
            c = d.copy(deep=True)
            out = [c.lk.f, c.evaluate('f + ag.sum(x)')]
            for k in ('f', 'i', 'b'):
                c[k]._values[...] = 1
            c['new'] = 5
            c.drop(columns='f', inplace=True)
            return out
        elif op == 'rows':
            return [d.iloc[[0, 2]].lk.f, d.head(2).lk.s, d.loc[d['b']].evaluate('f + lk.f'), d.sort_values('f').lk.c] if n else None
        elif op == 'groups':
            return [sub.evaluate('f + lk.f') for _, sub in d.groupby('i')]
        else:
            raise AssertionError(op)


def run_case(case, ctx):
    book = Book()
    rig = ModelRig(case['data'], book) if 'data' in case else TableRig(case['tables'], book)
    rig.done = set()
    for i, op in enumerate(case['ops']):
        ctx.step()
        if i < len(case['ops']) - 1:
            first = rig.do(op)
            if first is not None:
                book.kept.append((op, first, frozen(first)))
        else:
            perform(rig, op, book, case['ops'][:i])
        rig.done.add(op)
    ctx.trace()
    ctx.state([case.get('data'), case.get('tables'), case['ops']])
    for op, _, before in book.kept:
        ctx.outcome(repr(before))
