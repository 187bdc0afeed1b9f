"""C21: fill values for unmatched rows follow the configured precedence."""
META = {
    'jit': False,
    'rule': 'Every history of fill operations (class-wide, by table and by column; temporary overrides whose blocks end, fail, nest or contain other operations; '
            'resets; tables created, copied and linked in between) is applied to the real tables and to a reference of a few dictionaries. Then all '
            'unmatched and matched rows are read through links to all of the tables. In addition every type of column is crossed with every kind of fill '
            'on every level, with 0, some or only unmatched rows, over 1 and 2 hops. Non-trivial: distinct reference states and distinct (type, fill) results.',
    'bounds': {
        'quick': 'every history of up to 4 operations out of 21, on the class, 2 tables, a plain table, new tables and copies; 27 types of columns x up to 14 fills x 6 ways to configure them',
        'thorough': 'every history of up to 5 operations',
    },
    'assumptions': ['copies of a table start with either the fills of the table or those of the class', 'within the block of an override, the same type of the same owner is neither set nor reset',
                    'fills which are no category of a categorical column may be rejected', 'fills of columns of 32-bit and 16-bit floats are compared in their precision'],
}

import itertools

OPS = ['class int 5', 'class int 6', 'class text x', 'class reset', 'a int 7', 'a text y', 'a reset', 'a col 8', 'a col2 z', 'b int 9', 'b reset', 'b col 3',
       'a with int 11 [', 'class with int 12 [', 'a with text q [', ']', '] fail', 'new', 'copy a', 'n int 13', 'src int 14']
DEFAULT = {'int': 0, 'text': ''}
NAMES = {'int': 'INT_NAME', 'text': 'TEXT_NAME'}


def shards(tier):
    n = 40 if tier == 'quick' else 120
    return [{'part': [i, n], 'depth': 4 if tier == 'quick' else 5} for i in range(n)] + [{'types': i} for i in range(len(TYPES))] + [{'misc': 1}]


def enabled(history, op):
    """Leaves out operations which do nothing new, and those whose meaning is open"""
    stack, new = [], 0
    for h in history:
        if h.endswith('['):
            stack.append(h.split())
        elif h[0] == ']':
            stack.pop()
        elif h in ('new', 'copy a'):
            new += 1
    w = op.split()
    if op[0] == ']':
        return bool(stack)
    if op in ('new', 'copy a'):
        return new < 2
    if w[0] == 'n' and not new:
        return False
    if not op.endswith('['):
        for s in stack:
            if s[0] == w[0] and (w[1] == 'reset' or w[1] == s[2]):
                return False
    if history and history[-1] == op and op not in ('new', ']', '] fail') and not op.endswith('['):
        return False
    return True


def run(shard, ctx):
    if 'misc' in shard:
        for which in ('api', 'chain', 'failing names'):
            ctx.do({'misc': which})
        return
    if 'types' in shard:
        for case in type_cases(TYPES[shard['types']]):
            ctx.do(case)
        return
    k, n = shard['part']
    i = 0
    batch = []

    def walk(history):
        nonlocal i, batch
        if history:
            i += 1
            if i % n == k:
                batch.append(list(history))
                if len(batch) == 25:
                    ctx.do({'histories': batch})
                    batch = []
        if len(history) < shard['depth']:
            for op in OPS:
                if enabled(history, op):
                    history.append(op)
                    walk(history)
                    history.pop()
    walk([])
    if batch:
        ctx.do({'histories': batch})


class Stop(Exception):
    pass


class World:
    def __init__(self):
        from cheval.ldf import LinkedDataFrame as L
        import pandas as pd
        self.L, self.pd = L, pd
        self.cls = dict(DEFAULT)
        L.reset_fill_defaults()
        self.inst, self.cols, self.tables, self.order = {}, {}, {}, []
        self.src = L({'key': [1, 9, 2], 'id': [0, 1, 2]}, index=['p', 'q', 'r'])
        self.inst['src'] = dict(self.cls)
        self.add('a', L(self.data(), index=[1, 2]))
        self.add('b', L(self.data(), index=[1, 2]))
        self.plain = pd.DataFrame(self.data(), index=[1, 2])
        self.src.link_to(self.plain, 'plain', on_self='key')
        self.stack = []
        self.open = {}

    @staticmethod
    def data():
        return {'i': [40, 50], 'j': [60, 70], 't': ['u', 'v'], 't2': ['w', 'xx']}

    def add(self, name, table, inst=None):
        self.tables[name] = table
        self.inst[name] = dict(self.cls) if inst is None else inst
        self.cols[name] = {}
        self.src.link_to(table, name, on_self='key')

    def apply(self, op):
        w = op.split()
        if op == 'new':
            name = f'n{len(self.tables)}'
            self.add(name, self.L(self.data(), index=[1, 2]))
            self.n = name
        elif op == 'copy a':
            name = f'n{len(self.tables)}'
            self.add(name, self.tables['a'].copy(), {})
            got = {t: self.src[name][c].iloc[1] for t, c in (('int', 'i'), ('text', 't'), ('int j', 'j'), ('text t2', 't2'))}
            from mc.lib import Bad
            a, k = self.wanted('a'), self.cls
            for t, c in (('int', 'i'), ('text', 't'), ('int j', 'j'), ('text t2', 't2')):
                if got[t] not in (a[c], k[t.split()[0]], self.inst['a'][t.split()[0]]):
                    raise Bad(f'a copy of a starts with a fill of {got[t]!r} for {c}')
            self.inst[name] = {'int': got['int'] if 'i' not in self.cols['a'] else got['int j'], 'text': got['text']}
            if got['int'] != got['int j']:
                # The fills of columns are copied too
                self.cols[name] = dict(self.cols['a'])
                self.inst[name]['int'] = got['int j']
            elif got['text'] != got['text t2']:
                self.cols[name] = dict(self.cols['a'])
                self.inst[name]['text'] = got['text']
            self.n = name
        elif op[0] == ']':
            ctx, owner, saved = self.stack.pop()
            if len(w) > 1:
                try:
                    if not ctx.__exit__(Stop, Stop('failing'), None):
                        pass
                    else:
                        from mc.lib import Bad
                        raise Bad('the override hides the failure of its block')
                except Stop:
                    pass
            else:
                ctx.__exit__(None, None, None)
            self.owner(owner)[1].update(saved)
        elif w[1] == 'with':
            real, ref = self.owner(w[0])
            v = int(w[3]) if w[2] == 'int' else w[3]
            c = real.temporary_fill_defaults(**{NAMES[w[2]]: v})
            c.__enter__()
            self.stack.append((c, w[0], {w[2]: ref[w[2]]}))
            ref[w[2]] = v
        elif w[1] == 'reset':
            real, ref = self.owner(w[0])
            real.reset_fill_defaults()
            ref.clear()
            ref.update(DEFAULT)
        elif w[1] == 'col':
            self.tables[w[0]].set_column_fill('i', int(w[2]))
            self.cols[w[0]]['i'] = int(w[2])
        elif w[1] == 'col2':
            self.tables[w[0]].set_column_fill('t2', w[2])
            self.cols[w[0]]['t2'] = w[2]
        else:
            real, ref = self.owner(w[0])
            v = int(w[2]) if w[1] == 'int' else w[2]
            real.set_fill_defaults(**{NAMES[w[1]]: v})
            ref[w[1]] = v

    def owner(self, name):
        if name == 'class':
            return self.L, self.cls
        if name == 'src':
            return self.src, self.inst['src']
        if name == 'n':
            name = self.n
        return self.tables[name], self.inst[name]

    def wanted(self, name):
        inst = self.cls if name == 'plain' else self.inst[name]
        out = {'i': inst['int'], 'j': inst['int'], 't': inst['text'], 't2': inst['text']}
        out.update(self.cols.get(name, {}))
        return out

    def check(self, history, names=None):
        from mc.lib import Bad
        data = self.data()
        for name in list(self.tables) + ['plain']:
            want = self.wanted(name)
            node = self.src[name]
            for c, v in want.items():
                got = node[c].tolist()
                if got != [data[c][0], v, data[c][1]]:
                    raise Bad(f'after {history}: {name}.{c} is {got}, expected {[data[c][0], v, data[c][1]]}')

    def key(self):
        return [sorted(self.cls.items()), sorted((k, sorted(v.items())) for k, v in self.inst.items()), sorted((k, sorted(v.items())) for k, v in self.cols.items()),
                [[o, sorted(s.items())] for _, o, s in self.stack]]

    def close(self):
        while self.stack:
            self.stack.pop()[0].__exit__(None, None, None)
        self.L.reset_fill_defaults()


def run_case(case, ctx):
    from mc.lib import Bad
    if 'misc' in case:
        return {'api': api, 'chain': chain, 'failing names': failing_names}[case['misc']](case, ctx)
    if 'types' in case:
        return one_type(case, ctx)
    for history in case['histories']:
        w = World()
        try:
            for op in history:
                ctx.step()
                w.apply(op)
            w.check(history)
            if ctx.state(w.key()):
                ctx.outcome([w.wanted(n) for n in list(w.tables) + ['plain']])
            ctx.trace()
            # Leaving the blocks which are still open
            depth = len(w.stack)
            while w.stack:
                w.apply(']')
            if depth:
                w.check(history + ['left all blocks'])
        finally:
            w.close()


TYPES = ['i1', 'i2', 'i4', 'i8', 'big i8', 'u1', 'u2', 'u4', 'u8', 'big u8', 'f2', 'f4', 'f8', '?', 'text', 'string', 'cat', 'int cat', 'ordered cat', 'date', 'zoned date', 'timedelta', 'mixed', 'lists',
         'text with missing', 'f8 with missing', 'dates with missing']
KINDS = {'i': 'INT_NAME', 'u': 'UINT_NAME', 'f': 'FLOAT_NAME', '?': 'BOOL_NAME'}


def column(kind):
    """Values of the rows 1, 2 and 3, the name of the type, the default and the fills to configure"""
    import numpy as np
    import pandas as pd
    nan = float('nan')
    numbers = [None, 0, -1, 7, 100, 300, 70000, 2 ** 40, 0.5, 0.1, nan, 'text', True, float('inf')]
    if kind in ('i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8'):
        v = [1, 100, 3] if kind[0] == 'u' else [1, -100, 3]
        return pd.Series(np.array(v, dtype=kind)), KINDS[kind[0]], 0, numbers
    if kind == 'big i8':
        return pd.Series(np.array([2 ** 60 + 1, -2 ** 62 - 3, 2 ** 63 - 1])), 'INT_NAME', 0, numbers
    if kind == 'big u8':
        return pd.Series(np.array([2 ** 60 + 1, 2 ** 64 - 1, 3], dtype='u8')), 'UINT_NAME', 0, numbers
    if kind in ('f2', 'f4', 'f8'):
        return pd.Series(np.array([0.5, -2.25, 3.125], dtype=kind)), 'FLOAT_NAME', nan, [None, 0, -1, 7, 300, 0.5, 0.1, nan, float('inf'), 'text', True]
    if kind == '?':
        return pd.Series([True, False, True]), 'BOOL_NAME', False, [None, True, False, 0, 1, -1, 0.5, nan, 'text']
    text = [None, '', 'x', 'a far longer text than the others', 5, nan]
    if kind == 'text':
        return pd.Series(['a', 'bc', '']), 'TEXT_NAME', '', text
    if kind == 'string':
        return pd.Series(['a', 'bc', ''], dtype='string'), 'TEXT_NAME', '', text[:4]
    if kind == 'text with missing':
        return pd.Series(['a', None, '']), 'TEXT_NAME', '', text
    if kind == 'cat':
        return pd.Series(pd.Categorical(['a', 'bc', 'a'], categories=['unused', 'bc', 'a'])), 'CAT_NAME', nan, [None, 'unused', 'a', 'bc', nan, 'no category']
    if kind == 'ordered cat':
        return pd.Series(pd.Categorical(['a', 'bc', None], categories=['bc', 'a', 'd'], ordered=True)), 'CAT_NAME', nan, [None, 'd', 'bc', nan, 'no category']
    if kind == 'int cat':
        return pd.Series(pd.Categorical([3, 1, 3], categories=[3, 1, 8])), 'CAT_NAME', nan, [None, 8, 3, nan, 5]
    dates = pd.Series(pd.to_datetime(['2020-01-01 12:00', '1999-12-31', '2020-01-01']))
    if kind == 'date':
        return dates, 'TIME_NAME', None, [None, pd.Timestamp('2001-02-03'), np.datetime64('2001-02-03'), pd.NaT]
    if kind == 'dates with missing':
        return dates.where([True, False, True]), 'TIME_NAME', None, [None, pd.Timestamp('2001-02-03'), pd.NaT]
    if kind == 'zoned date':
        return dates.dt.tz_localize('America/Toronto'), 'TIME_NAME', None, [None, pd.Timestamp('2001-02-03', tz='America/Toronto')]
    if kind == 'timedelta':
        return dates - dates[1], 'TIME_NAME', None, [None, pd.Timedelta('3 days')]
    if kind == 'mixed':
        return pd.Series([1, 'x', 2.5], dtype=object), 'OBJ_NAME', None, [None, 0, 'fill', -1.5, nan]
    if kind == 'lists':
        return pd.Series([{1}, {2}, {3}], dtype=object), 'OBJ_NAME', None, [None, 0, 'fill', -1.5]
    if kind == 'f8 with missing':
        return pd.Series([nan, 1.5, -1.0]), 'FLOAT_NAME', nan, [None, 0, -1, 0.5, 'text']
    raise AssertionError(kind)


WAYS = ['column', 'table', 'class', 'override', 'class override', 'column over table', 'class for plain', 'class override for plain', 'table over class', 'column over override']
ROWS = [[1, 9, 2, 3, 9], [3, 2, 1], [9, 8], [1, 2, 3, 9], []]


def type_cases(kind):
    n = len(column(kind)[3])
    for way in WAYS:
        for hops in (1, 2):
            for row in range(len(ROWS)):
                yield {'types': kind, 'way': way, 'hops': hops, 'row': row, 'fills': n}


def null(x):
    import pandas as pd
    return x is None or x is pd.NaT or x is pd.NA or (isinstance(x, float) and x != x) or (not isinstance(x, (set, list)) and pd.isna(x))


def one_type(case, ctx):
    from mc.lib import Bad
    import contextlib
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame as L
    kind, way, hops, keys = case['types'], case['way'], case['hops'], ROWS[case['row']]
    series, name, default, fills = column(kind)
    for f, fill in enumerate(fills):
        for empty in (False, True):
            L.reset_fill_defaults()
            values = series.iloc[:0] if empty else series
            col = pd.Series(values.array, index=[1, 2, 3][:len(values)])
            if f == 0:
                fill = default       # Nothing configured
            other = {'x': np.arange(len(values))}
            plain = 'plain' in way
            if way in ('class', 'table over class') and f:
                L.set_fill_defaults(**{name: fill if way == 'class' else 'wrong' if kind not in ('cat', 'int cat', 'ordered cat') else default})
            target = pd.DataFrame({**other, 'v': col.array}, index=col.index) if plain else L({**other, 'v': col.array}, index=col.index)
            src = L({'key': np.array(keys, dtype='i8')}, index=pd.Index(np.arange(len(keys)) * 2 + 1, name='ix'))
            if hops == 1:
                src.link_to(target, 'to', on_self='key', precompute=f % 2 == 0)
            else:
                # The middle table misses key 8, and sends 9 to nowhere
                mid = L({'k2': [3, 2, 1, 9]}, index=[3, 2, 1, 9])
                mid.set_fill_defaults(**{name: 'wrong'})
                src.link_to(mid, 'mid', on_self='key', precompute=f % 2 == 0)
                mid.link_to(target, 'to', on_self='k2', precompute=f % 3 == 0)
            src.set_fill_defaults(**{name: 'wrong'})
            before = col.copy()
            block = contextlib.nullcontext()
            if f:
                if 'column' in way:
                    target.set_column_fill('v', fill)
                if way == 'column over table':
                    target.set_fill_defaults(**{name: 'wrong'})
                if way in ('table', 'table over class'):
                    target.set_fill_defaults(**{name: fill})
                if way == 'override':
                    block = target.temporary_fill_defaults(**{name: fill})
                if way == 'column over override':
                    block = target.temporary_fill_defaults(**{name: 'wrong'})
                if way == 'class for plain':
                    L.set_fill_defaults(**{name: fill})
                if way in ('class override for plain', 'class override'):
                    block = L.temporary_fill_defaults(**{name: fill})
            try:
                with block:
                    if way == 'class override' and f:
                        # Seen by tables made inside of the block only
                        want_old = default
                        for t, want in ((target, want_old), (L({**other, 'v': col.array}, index=col.index), fill)):
                            s = L({'key': np.array(keys, dtype='i8')})
                            s.link_to(t, 'to', on_self='key')
                            verify(case, ctx, lambda: s.to.v, keys, values, want, kind, s.index)
                        continue
                    ctx.step()
                    verify(case, ctx, (lambda: src.to.v) if hops == 1 else (lambda: src.mid.to.v), keys, values, fill, kind, src.index)
                    # Other columns have their own fills
                    x = (src.to if hops == 1 else src.mid.to)['x'].tolist()
                    want = [default_int(way, name, fill, f) if k not in (1, 2, 3)[:len(values)] else k - 1 for k in keys]
                    if not all(u == v or null(u) and null(v) for u, v in zip(x, want)):
                        raise Bad(f'{case}: an integer column besides is {x}, expected {want}')
                if not target['v'].equals(before.set_axis(target.index)):
                    raise Bad(f'{case}: the look-up changed its target')
                if 'override' in way and f and way != 'column over override':
                    verify(case, ctx, (lambda: src.to.v) if hops == 1 else (lambda: src.mid.to.v), keys, values, default, kind, src.index)
            finally:
                L.reset_fill_defaults()


def default_int(way, name, fill, f):
    """What unmatched rows of an integer column are, besides the column of the case"""
    if not f or name != 'INT_NAME' or way == 'column':
        return 0
    return 'wrong' if way in ('column over table', 'column over override') else fill


def verify(case, ctx, read, keys, values, fill, kind, index):
    from mc.lib import Bad
    import numpy as np
    n = len(values)
    unmatched = any(k > 3 or n == 0 for k in keys)
    try:
        got = read()
    except (TypeError, ValueError) as e:
        if 'cat' in kind and (unmatched or case['hops'] == 2) and fill not in list(values.cat.categories) and not null(fill):
            ctx.count('fills which are no category')
            return
        raise Bad(f'{case}, fill {fill!r}: {type(e).__name__}: {e}')
    if not got.index.equals(index) or got.index.name != index.name:
        raise Bad(f'{case}: labelled {list(got.index)}')
    rows, data = got.tolist(), list(values)
    lossy = {'f2': 1e-3, 'f4': 1e-7}.get(kind, 0)
    for i, k in enumerate(keys):
        if k <= 3 and n:
            want, what = data[k - 1], 'matched'
            if isinstance(want, np.generic):
                want = want.item()
        else:
            want, what = fill, 'unmatched'
        x = rows[i]
        if n == 0 and kind in ('mixed', 'lists'):
            continue     # A column of no objects is taken for text
        ok = null(x) and null(want)
        if not ok and not null(x) and not null(want):
            ok = bool(x == want)
            if ok and what == 'matched' and kind != 'mixed' and kind[0] != '?' and isinstance(want, int) and isinstance(x, float):
                ok = int(x) == want
            if not ok and lossy and what == 'unmatched' and isinstance(want, float) and not isinstance(x, str):
                ok = abs(x - want) <= lossy * abs(want)
        if not ok:
            raise Bad(f'{case}, fill {fill!r}: row {i} ({what}) is {x!r}, expected {want!r}; all {rows} of {got.dtype}')
    if ctx.state([kind, case['way'], repr(fill), keys, n]):
        ctx.outcome([kind, repr(rows)])
    ctx.trace()


def chain(case, ctx):
    """The fill belongs to the table at the end of the chain, whichever hop is unmatched; also inside of formulas"""
    from mc.lib import Bad
    from cheval.ldf import LinkedDataFrame as L
    L.reset_fill_defaults()
    for where in itertools.product((None, 'col', 'table'), repeat=3):
        src = L({'k': [1, 9, 2, 3], 'v': [0, 0, 0, 0]})
        mid = L({'k': [5, 9, 6], 'v': [10, 20, 30]}, index=[1, 2, 3])
        end = L({'v': [100, 200]}, index=[5, 6])
        src.link_to(mid, 'mid', on_self='k')
        mid.link_to(end, 'end', on_self='k')
        want = []
        for t, (table, w) in enumerate(zip((src, mid, end), where)):
            if w == 'col':
                table.set_column_fill('v', -10 - t)
            elif w == 'table':
                table.set_fill_defaults(INT_NAME=-20 - t)
            want.append({None: 0, 'col': -10 - t, 'table': -20 - t}[w])
        ctx.step()
        ctx.state(where)
        for got, exp in ((src.mid.v, [10, want[1], 20, 30]), (src.mid.end.v, [100, want[2], want[2], 200]), (src.evaluate('mid.v + mid.end.v'), [110, want[1] + want[2], 20 + want[2], 230]),
                         (src.evaluate('where(mid.end.v < 100, -mid.end.v, 1)'), [1, -want[2], -want[2], 1]), (mid.end.v, [100, want[2], 200])):
            if got.tolist() != exp:
                raise Bad(f'{where}: {got.tolist()}, expected {exp}')
        ctx.outcome([want])


def api(case, ctx):
    """Wrong columns and names; fills of new columns; removed columns"""
    from mc.lib import Bad, expect_raise
    from cheval.ldf import LinkedDataFrame as L
    L.reset_fill_defaults()
    t = L({'x': [1, 2], 'y': [3, 4]}, index=[1, 2])
    s = L({'k': [2, 7]})
    s.link_to(t, 't', on_self='k')
    for bad in ('z', 'k', '', 'X', 0, 't'):
        expect_raise(f'set_column_fill({bad!r})', lambda: t.set_column_fill(bad, 1), {'KeyError'})
        ctx.step()
    t['z'] = [7, 8]
    t.set_column_fill('z', -5)
    t['w'] = [0.5, 1.5]
    t.set_column_fill('w', 4)
    t.set_column_fill('x', 1)
    t.set_column_fill('x', 2)
    t['x'] = t['x'] * 10
    for c, want in (('z', [8, -5]), ('w', [1.5, 4.0]), ('x', [20, 2]), ('y', [4, 0])):
        if s.t[c].tolist() != want:
            raise Bad(f'{c}: {s.t[c].tolist()}, expected {want}')
        ctx.state([c, want])
        ctx.outcome(want)
    t.reset_fill_defaults()
    if s.t.z.tolist() != [8, -5]:
        raise Bad('resetting the defaults of a table removed the fill of a column')
    L.reset_fill_defaults()
    if s.t.z.tolist() != [8, -5]:
        raise Bad('resetting the class-wide defaults removed the fill of a column')


def failing_names(case, ctx):
    """An override which fails itself has no effect"""
    from mc.lib import Bad, expect_raise
    from cheval.ldf import LinkedDataFrame as L
    L.reset_fill_defaults()
    t = L({'x': [1, 2], 'f': [0.5, 1.5]}, index=[1, 2])
    s = L({'k': [2, 7]})
    s.link_to(t, 't', on_self='k')

    def enter(owner, **kw):
        with owner.temporary_fill_defaults(**kw):
            raise Bad(f'{kw} was accepted')
    for owner in (t, L):
        for kw in ({'INT_NAME': 5, 'NOPE': 1}, {'NOPE': 1}, {'INT_NAME': 5, 'FLOAT_NAME': 2.5, 'int': 3}):
            ctx.step()
            ctx.state([owner is t, kw])
            expect_raise(str(kw), lambda: enter(owner, **kw), {'KeyError'})
            n = L({'x': [1, 2], 'f': [0.5, 1.5]}, index=[1, 2])
            s.link_to(n, 'n', on_self='k')
            for link in ('t', 'n'):
                got = [s[link].x.tolist(), s[link].f.iloc[1]]
                if got[0] != [2, 0] or got[1] == got[1]:
                    raise Bad(f'after a rejected override {kw}: {got}')
                ctx.outcome([str(got)])
    # Overrides of several types, and nested ones of the same type
    with t.temporary_fill_defaults(INT_NAME=5, FLOAT_NAME=2.5):
        with t.temporary_fill_defaults(INT_NAME=6):
            inner = s.t.x.tolist() + s.t.f.tolist()
        outer = s.t.x.tolist() + s.t.f.tolist()
    after = s.t.x.tolist()
    if (inner, outer, after) != ([2, 6, 1.5, 2.5], [2, 5, 1.5, 2.5], [2, 0]):
        raise Bad(f'nested overrides: {inner}, {outer}, {after}')
