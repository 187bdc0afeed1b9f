"""C20: pivoting by linked attributes equals pivoting a table that contains them."""
META = {
    'jit': False,
    'rule': 'Every combination of values, rows and columns from a vocabulary of columns, look-ups of 1 and 2 hops, aggregations and formulas, alone and in lists, '
            'is pivoted on linked tables, and compared with the pivot by pandas of a plain table whose columns were copied row by row by nested loops. '
            'Afterwards the tables are compared with what they were. Non-trivial: distinct (arguments, table) pairs with their results.',
    'bounds': {
        'quick': '8 values x 12 rows x 13 columns on 4 of 7 tables each (6 kinds of row labels, 0 to 9000 rows), every pair and some triples in lists, 14 ways to aggregate, fill or '
                 'add margins; lists of values and of keys of the same names, from several tables; lists of 45 values; 5 histories of row operations before the pivot; look-ups with configured fills; wrong names',
        'thorough': 'every combination on every table; all pairs x all pairs of lists',
    },
    'assumptions': ['values are always given', 'look-ups of categories may be labelled by category or by text', 'no name is used twice',
                    'the expression engine evaluates no bare text of a table without rows, so that look-ups of text may be rejected there'],
}

import itertools

ALIKE = {'values': ['x', 'lk.x', 'lk.nx.x', 'ag.sum(x)', 'x + lk.x'], 'rows': ['k', 'lk.k', 'lk.nx.k']}      # Of the same names
VALUES = ['f', 'i', 'lk.x', 'lk.nx.y', 'ag.sum(x)', 'lk.x * 2 + f', 'my col', 'b']
ROWS = ['s', 'i', 'c', 'b', 'lk.w', 'lk.k', 'lk.q', 'lk.nx.t', 'lk.nx.n', 'i > 1', 'ag.count()', 'where(lk.q, lk.k, -1)']
COLS = [None] + ROWS[:-1] + ['lk.c']
AGGS = [{}, {'aggfunc': 'sum'}, {'aggfunc': 'count'}, {'aggfunc': 'min'}, {'aggfunc': 'max'}, {'aggfunc': 'std'}, {'aggfunc': ['sum', 'mean']}, {'aggfunc': 'sum', 'fill_value': -7},
        {'aggfunc': 'mean', 'fill_value': 0}, {'aggfunc': 'sum', 'margins': True}, {'aggfunc': 'count', 'margins': True, 'margins_name': 'total'}, {'aggfunc': 'sum', 'dropna': False},
        {'aggfunc': 'first'}, {'aggfunc': 'per value'}]
TABLES = ['four', 'dup', 'multi', 'dates', 'one', 'many', 'none']
HISTORY = ['rows', 'sorted', 'copied', 'head', 'assigned']
REJECT = ['nope', 'lk', 'lk.nope', 'nope.x', 'ag', 'ag.x', 'lk.nx', 'f + nope', 'ag.sum(nope)', 'lk.sum(x)', '{A: 1}', '']


def shards(tier):
    n = 40 if tier == 'quick' else 160
    out = [{'part': [i, n], 'tier': tier} for i in range(n)]
    return out + [{'lists': [i, 12], 'tier': tier} for i in range(12)] + [{'misc': x} for x in ('long', 'fills', 'reject', 'repeat')] + [{'alike': [i, 8], 'tier': tier} for i in range(8)]


def run(shard, ctx):
    big = shard.get('tier') == 'thorough'
    if 'part' in shard:
        k, n = shard['part']
        for i, (v, r, c) in enumerate(itertools.product(VALUES, ROWS, COLS)):
            if i % n != k or r == c or v in (r, c):
                continue
            at = i // n + i
            for j in range(7 if big else 4):
                table = TABLES[(at + j * 2) % 7]
                ctx.do({'values': v, 'index': r, 'columns': c, 'agg': AGGS[(at // 3 + j) % len(AGGS)], 'table': table, 'history': (HISTORY + [None] * 5)[(at + j) % 10]})
    elif 'alike' in shard:
        i = 0
        for v in [list(p) for n in (1, 2, 3) for p in itertools.permutations(ALIKE['values'], n)]:
            for r, c in [(list(r), list(c) or None) for n in (1, 2, 3) for p in itertools.permutations(ALIKE['rows'], n) for at in range(1, n + 1) for r, c in [(p[:at], p[at:])]]:
                i += 1
                if i % shard['alike'][1] == shard['alike'][0] and (big or i % 3 == 0):
                    ctx.do({'values': v, 'index': r, 'columns': c, 'agg': AGGS[1], 'table': TABLES[:3][i % 3 if big else i // 3 % 3], 'history': None})
    elif 'lists' in shard:
        k, n = shard['lists']
        i = 0
        pairs = [list(p) for m in (1, 2) for p in itertools.permutations(['lk.w', 's', 'lk.q', 'i', 'ag.count()', 'lk.nx.t'], m)] + [['lk.w', 's', 'i'], ['i', 'lk.nx.n', 'lk.q']]
        pairs2 = [None, ['c'], ['b', 'lk.nx.n'], ['lk.c', 'b'], ['lk.k'], 'lk.k'] + ([['lk.k', 'lk.c'], ['lk.nx.n', 'i > 1', 'b']] if big else [])
        values = [['f'], ['lk.x'], ['f', 'lk.x'], ['ag.sum(x)', 'my col', 'lk.nx.y'], 'lk.x * 2 + f']
        for r, c, v in itertools.product(pairs, pairs2, values):
            i += 1
            if i % n != k or set(r) & set([c] if isinstance(c, str) else c or []):
                continue
            for j in range(3 if big else 1):
                rows = tuple(r) if i % 5 == 0 else r
                ctx.do({'values': v, 'index': rows, 'columns': c, 'agg': AGGS[(i // n + j) % len(AGGS)], 'table': TABLES[(i // n + j) % 7], 'history': (HISTORY + [None] * 4)[(i + j) % 9]})
                # By columns only, and rows and columns swapped
                if c is not None:
                    ctx.do({'values': v, 'index': c, 'columns': r, 'agg': AGGS[(i // n + j + 3) % len(AGGS)], 'table': TABLES[(i // n + j + 2) % 7], 'history': None})
                else:
                    ctx.do({'values': v, 'index': None, 'columns': r, 'agg': AGGS[(i // n + j + 3) % 9], 'table': TABLES[(i // n + j + 2) % 7], 'history': None})
    else:
        for table in TABLES:
            ctx.do({'misc': shard['misc'], 'table': table})


class World:
    def __init__(self, table, fills=None):
        import numpy as np
        import pandas as pd
        from cheval.ldf import LinkedDataFrame as L
        self.N = N = {'four': 4, 'dup': 6, 'multi': 6, 'dates': 5, 'one': 1, 'none': 0, 'many': 9000}[table]

        def pick(vals, size=N):
            return [vals[k % len(vals)] for k in range(size)]
        index = {'four': pd.Index(['z', 'a', 'm', 'b'], name='ix'), 'dup': pd.Index([7, 7, 3, 7, 3, 3]), 'one': pd.RangeIndex(5, 6), 'none': pd.Index([], dtype='i8'),
                 'multi': pd.MultiIndex.from_tuples([(1, 'x'), (0, 'y'), (1, 'y'), (0, 'x'), (2, 'x'), (0, 'x')], names=['p', None]), 'many': pd.Index((np.arange(N) * 7) % max(N, 1)),
                 'dates': pd.to_datetime(['2020-01-05', '2020-01-01', '2020-01-03', '2020-01-02', '2020-01-01'])}[table]
        cols = {'f': pick([1.5, -0.5, 2.0, 0.75, -3.0, 0.5, 1.0]), 'i': pick([2, 1, 2, 1, 3]), 'b': pick([True, False, False]), 's': pick(['ab', 'a', 'ab', '']), 'c': pick(['q', 'p', 'q', 'r', 'p']),
                'my col': pick([4.0, 1.0, 0.5]), 'key': pick([20, 99, 10, 20, 30, 10]), 'x': pick([100.0, 200.5, 300.0, 401.0]), 'k': pick([1, 4, 4, 2, 3]), 'id': pick(list(range(1, 8)) if N < 8 else list(range(1, N + 1)))}
        few = table in ('dup', 'dates')
        types = {'x': 'f8', 'k': 'i8', 'i': 'i4' if few else 'i8', 'f': 'f8', 'my col': 'f4' if few else 'f8', 'key': 'i8', 'id': 'i8', 'b': '?'}
        frame = pd.DataFrame({k: np.array(v, dtype=types[k]) if k in types else pd.Categorical(v, categories=['r', 'q', 'p']) if k == 'c' else np.array(v, dtype=object) for k, v in cols.items()},
                             index=index)
        self.d = d = L(frame)
        lkc = {'x': [0.5, -1.5, 2.0], 'k': [4, 1, 4], 'q': [True, False, True], 'w': ['ab', 'a longer text', 'ab'], 'nk': [7, 5, 6], 'c': ['v', 'u', 'v'], 'id': [1, 2, 3]}
        lk = L({k: pd.Categorical(v, categories=['v', 'u', 'unused']) if k == 'c' else v for k, v in lkc.items()}, index=[10, 20, 30])
        nxc = {'y': [1.25, -0.75], 't': ['ab', 'it is'], 'n': [2, 3], 'x': [1000.0, 2000.0], 'k': [4, 1]}
        nx = pd.DataFrame(nxc, index=[5, 7]) if few else L(nxc, index=[5, 7])
        agc = {'who': [1, 3, 2, 1, 3, 1, 0, 5], 'x': [1.5, -0.5, 2.0, 0.25, 4.0, -1.0, 9.0, 3.0]}
        ag = L(agc, index=[3, 3, 1, 2, 5, 6, 4, 0])
        d.link_to(lk, 'lk', on_self='key', precompute=not few)
        lk.link_to(nx, 'nx', on_self='nk', precompute=few)
        d.link_to(ag, 'ag', on_self='id', on_other='who', precompute=few)
        fills = fills or {}
        for k, v in fills.items():
            t, k = k.split('.')
            {'lk': lk, 'nx': nx}[t].set_column_fill(k, v)
        self.tables = {'d': d, 'lk': lk, 'nx': nx, 'ag': ag}
        self.before = {k: pd.DataFrame(v).copy(deep=True) for k, v in self.tables.items()}
        self.typed = {k: list(v.dtypes) for k, v in self.before.items()}

        nan = float('nan')
        hit = [{10: 0, 20: 1, 30: 2}.get(k, -1) for k in cols['key']]
        far = [-1 if p < 0 else [1, 0, -1][p] for p in hit]
        leaves = {k: v for k, v in cols.items() if k not in ('key', 'id')}
        for k, fill in [('x', nan), ('k', 0), ('q', False), ('w', ''), ('c', None)]:
            leaves['lk.' + k] = [fills.get('lk.' + k, fill) if p < 0 else lkc[k][p] for p in hit]
        for k, fill in [('y', nan), ('t', ''), ('n', 0), ('x', nan), ('k', 0)]:
            leaves['lk.nx.' + k] = [fills.get('nx.' + k, fill) if p < 0 else nxc[k][p] for p in far]
        groups = [[x for w, x in zip(agc['who'], agc['x']) if w == i] for i in range(8)]
        leaves['ag.sum(x)'] = [sum(groups[i]) if i < 8 and groups[i] else nan for i in cols['id']]
        leaves['ag.count()'] = [len(groups[i]) if i < 8 and groups[i] else -1 for i in cols['id']]
        leaves['i > 1'] = [i > 1 for i in cols['i']]
        leaves['lk.x * 2 + f'] = [x * 2 + f for x, f in zip(leaves['lk.x'], cols['f'])]
        leaves['x + lk.x'] = [x + y for x, y in zip(cols['x'], leaves['lk.x'])]
        leaves['where(lk.q, lk.k, -1)'] = [k if q else -1 for q, k in zip(leaves['lk.q'], leaves['lk.k'])]
        kinds = {'lk.nx.k': 'i8', 'lk.q': '?', 'lk.k': 'i8', 'lk.nx.n': 'i8', 'ag.count()': 'i8', 'where(lk.q, lk.k, -1)': 'i8', 'i > 1': '?', **types}
        self.leaves, self.index = leaves, index

        def copied(as_text):
            out = {}
            for k, v in leaves.items():
                if k == 'c':
                    out[k] = pd.Categorical(v, categories=['r', 'q', 'p'])
                elif k == 'lk.c' and not as_text:
                    out[k] = pd.Categorical(v, categories=['v', 'u', 'unused'])
                elif k in ('s', 'lk.w', 'lk.nx.t', 'lk.c'):
                    out[k] = np.array(['' if x is None else x for x in v], dtype=object)
                else:
                    out[k] = np.array(v, dtype=kinds.get(k, 'f8') if k not in ('i', 'my col') else types[k])
            return pd.DataFrame(out, index=index)
        self.plain = copied(True)
        self.by_category = copied(False)

    def history(self, name):
        """The table after some operation of rows, and the positions of its rows in the original one"""
        import numpy as np
        N, d = self.N, self.d
        r = np.arange(N)
        if name is None:
            return d, r
        if name == 'rows':
            mask = np.array([k % 3 != 1 for k in r], dtype=bool)
            return d.loc[mask], r[mask]
        if name == 'sorted':
            at = np.argsort(-np.asarray(d['id']), kind='stable')
            return d.sort_values('id', ascending=False), at
        if name == 'copied':
            return d.copy(), r
        if name == 'head':
            return d.head(3), r[:3]
        e = d.copy()
        e['extra'] = 1.0
        return e, r

    def check_unchanged(self, what):
        from mc.lib import Bad
        import pandas as pd
        for k, t in self.tables.items():
            if list(t.dtypes) != self.typed[k] or not pd.DataFrame(t).equals(self.before[k]) or list(t.index.names) != list(self.before[k].index.names):
                raise Bad(f'{what} changed the table {k}')
        s = self.d.link_summary()
        if sorted(s.index) != ['ag', 'lk']:
            raise Bad(f'{what} changed the links: {s}')


def same(got, want):
    """Compares two pivot tables: labels, names and cells"""
    import numpy as np
    import pandas as pd
    if got.shape != want.shape:
        return f'shape {got.shape}, expected {want.shape}'
    for axis in ('index', 'columns'):
        a, b = getattr(got, axis), getattr(want, axis)
        if list(a.names) != list(b.names):
            return f'names of {axis} {list(a.names)}, expected {list(b.names)}'
        la, lb = list(a), list(b)
        if not all(type(x) is type(y) and (x == y or x != x and y != y) if not isinstance(x, tuple) else all(u == v or u != u and v != v for u, v in zip(x, y)) for x, y in zip(la, lb)):
            return f'{axis} {la[:20]}, expected {lb[:20]}'
    for j in range(got.shape[1]):
        x, y = got.iloc[:, j], want.iloc[:, j]
        if 'O' in (x.dtype.kind, y.dtype.kind) or x.dtype.kind == 'b':
            ok = all(u == v or (u is None or u != u) and (v is None or v != v) for u, v in zip(x.tolist(), y.tolist()))
        else:
            with np.errstate(all='ignore'):
                u, v = np.asarray(x, dtype='f8'), np.asarray(y, dtype='f8')
                ok = bool(((u == v) | (np.isnan(u) & np.isnan(v)) | (np.abs(u - v) <= 1e-6 * np.maximum(np.abs(u), np.abs(v)))).all())
        if not ok:
            return f'column {got.columns[j]}: {x.tolist()[:20]}, expected {y.tolist()[:20]}'
    return None


def pivot(frame, case, copy_lists=True):
    import warnings
    kw = dict(case['agg'])
    values = case['values']
    if kw.get('aggfunc') == 'per value':
        vs = [values] if isinstance(values, str) else values
        kw['aggfunc'] = {v: ['sum', 'count', 'max'][k % 3] for k, v in enumerate(vs)}
    args = {k: list(case[k]) if isinstance(case[k], list) else case[k] for k in ('values', 'index', 'columns')}
    if isinstance(args['index'], tuple):
        args['index'] = list(args['index'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = frame.pivot_table(**args, **kw)
    for k, v in args.items():
        if v != (list(case[k]) if isinstance(case[k], (list, tuple)) else case[k]):
            from mc.lib import Bad
            raise Bad(f'the list of {k} was changed to {v}')
    return got


def run_case(case, ctx):
    from mc.lib import Bad
    if 'misc' in case:
        ctx.step()
        return {'long': long, 'fills': fills, 'reject': reject, 'repeat': repeat}[case['misc']](case, ctx)
    w = World(case['table'])
    d, at = w.history(case['history'])
    compare(d, w, at, case, ctx)
    w.check_unchanged('the pivot')


def compare(d, w, at, case, ctx):
    from mc.lib import Bad
    wants = []
    for plain in (w.plain, w.by_category):
        try:
            wants.append(pivot(plain.iloc[at], case))
        except Exception as e:
            wants.append(e)
        if 'lk.c' not in str(case):
            break
    ctx.step()
    ctx.trace()
    try:
        got = pivot(d, case)
    except Exception as e:
        got = e
    text = {k: case[k] for k in ('values', 'index', 'columns', 'agg')}
    if isinstance(got, Exception):
        if any(isinstance(x, Exception) for x in wants):
            ctx.count('not pivoted by pandas either')
            return None
        if len(at) == 0 and any(x in str(text) for x in ('lk.w', 'lk.c', 'lk.nx.t')):
            ctx.count('text of no rows')
            return None
        raise Bad(f'{text} on {case["table"]}: {type(got).__name__}: {got}; expected\n{wants[0]}')
    problems = []
    for x in wants:
        p = f'returned {got}, while pandas raises {x!r}' if isinstance(x, Exception) else same(got, x)
        if p is None:
            break
        problems.append(p)
    else:
        if all(isinstance(x, Exception) for x in wants) and (got.size == 0 or w.N == 0):
            return None
        raise Bad(f'{text} on {case["table"]}: {problems[0]}\n{got}\nexpected\n{wants[0]}')
    if ctx.state([text, case['table'], case['history']]):
        ctx.outcome([list(map(str, got.index)), list(map(str, got.columns)), str(got.to_numpy().tolist())])
    if hasattr(got, 'link_summary') and len(got.link_summary()):
        raise Bad(f'{text}: the result has links\n{got.link_summary()}')
    return got


def long(case, ctx):
    """Lists of 45 values, of which some are read through links"""
    w = World(case['table'])
    names = []
    for k in range(15):
        for text, base in ((f'lk.x * {k} + f', 'lk.x'), (f'lk.nx.y - {k}', 'lk.nx.y'), (f'ag.sum(x) + {k} * i', 'ag.sum(x)')):
            names.append(text)
            add = [x * k + f for x, f in zip(w.leaves['lk.x'], w.leaves['f'])] if base == 'lk.x' else [y - k for y in w.leaves[base]] if base == 'lk.nx.y' else \
                [y + k * i for y, i in zip(w.leaves[base], w.leaves['i'])]
            w.plain[text] = add
    w.plain = w.plain.copy()
    for r, c in (('s', None), ('lk.w', 'b'), (['lk.q', 'i'], ['lk.nx.t'])):
        for agg in (AGGS[1], AGGS[6], AGGS[13]):
            compare(w.d, w, list(range(w.N)), {'values': names, 'index': r, 'columns': c, 'agg': agg, 'table': case['table'], 'history': None}, ctx)
    w.check_unchanged('the pivot')


def fills(case, ctx):
    """Configured fills of the columns label the unmatched rows"""
    for f in ({'lk.x': -4.5}, {'lk.k': 77}, {'lk.w': 'none of them'}, {'lk.q': True}, {'lk.w': 'ab', 'lk.k': 1}):
        if case['table'] not in ('dup', 'dates'):
            f = {**f, 'nx.n': 12, 'nx.t': 'far', 'nx.y': 0.0}
        w = World(case['table'], f)
        for v, r, c in itertools.product(['f', 'lk.x', 'lk.nx.y'], ['lk.k', 'lk.w', 'lk.nx.n'], [None, 'lk.q', 'lk.nx.t']):
            compare(w.d, w, list(range(w.N)), {'values': v, 'index': r, 'columns': c, 'agg': AGGS[1], 'table': case['table'], 'history': None}, ctx)
        w.check_unchanged('the pivot')


def reject(case, ctx):
    from mc.lib import expect_raise
    w = World(case['table'])
    for text in REJECT:
        for where in ('values', 'index', 'columns'):
            for wrap in (lambda x: x, lambda x: [x], lambda x: ['i', x]):
                args = {'values': 'f', 'index': 's', 'columns': 'b'}
                args[where] = wrap(text)
                ctx.step()
                ctx.state([text, where, str(wrap('x')), case['table']])
                expect_raise(f'pivot_table({args})', lambda: w.d.pivot_table(**args))
    w.check_unchanged('a rejected pivot')


def repeat(case, ctx):
    """Pivots of the same table, between changes of its values and those of the linked tables"""
    from mc.lib import Bad
    w = World(case['table'])
    args = [{'values': 'lk.x', 'index': 'lk.k', 'columns': 's'}, {'values': ['f', 'ag.sum(x)'], 'index': ['lk.w'], 'columns': None}]
    for a in args:
        c = {**a, 'agg': AGGS[1], 'table': case['table'], 'history': None}
        first = compare(w.d, w, list(range(w.N)), c, ctx)
        if first is not None and first.size and first.to_numpy().dtype.kind == 'f':
            first.iloc[:, :] = -1e9
        compare(w.d, w, list(range(w.N)), c, ctx)
    w.check_unchanged('a changed result')
    # New values in place
    w.d['f'] = w.plain['f'].to_numpy() * 3 + 1
    w.plain['f'] = w.plain['f'].to_numpy() * 3 + 1
    lk = w.tables['lk']
    lk['x'] = [8.0, 16.0, 32.0]
    w.plain['lk.x'] = [float('nan') if k == 99 else {10: 8.0, 20: 16.0, 30: 32.0}[k] for k in w.before['d']['key']]
    w.plain['lk.x * 2 + f'] = w.plain['lk.x'] * 2 + w.plain['f']
    for v, r, c in itertools.product(['f', 'lk.x', 'lk.x * 2 + f'], ['lk.k', 's', ['lk.w', 'i']], [None, 'b', 'lk.nx.t']):
        compare(w.d, w, list(range(w.N)), {'values': v, 'index': r, 'columns': c, 'agg': AGGS[1], 'table': case['table'], 'history': None}, ctx)
