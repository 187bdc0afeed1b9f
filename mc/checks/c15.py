"""C15: a linked attribute is the join by key, with fill for unmatched rows."""
META = {
    'jit': False,
    'rule': 'Every pair of small tables (all lists of source keys, all orders of unique target keys), linked in every supported way, with keys of '
            'every kind, eagerly and lazily, to plain and linked tables; every attribute of the target is looked up and compared with a nested-loop '
            'join. Every pair with repeated keys on either side: the report of aggregation and the rejection. Chains of links over '
            'every combination of keys of up to 4 tables, self links and cycles. Non-trivial: distinct pairs of keys and ways.',
    'bounds': {
        'quick': 'sources of up to 4 rows over 3 keys and targets of up to 3 rows, by column (int), up to 3 rows over 3 keys for 17 ways of '
                 'naming the keys x 9 kinds of keys (every 2nd pair); 10 types of attributes; chains of 3 tables of 3 rows; 12000-row tables; 12 ways of naming and ordering the parts of '
                 'keys of 2 or 3 parts x every pair of tables of up to 2 rows over 6 keys which only differ in splits and orders',
        'thorough': 'sources of up to 5 rows over 4 keys and targets of up to 4 rows by column, every pair for every way and kind; chains of 4 tables',
    },
    'assumptions': ['keys missing on both sides are not compared', 'an alias of a link is not also the name of a column'],
}

import itertools

KINDS = ['int', 'str', 'float', 'date', 'cat', 'bool', 'mixed', 'i4', 'u1']
WAYS = ['on', 'cols', 'col-level', 'level-col', 'levels', 'level-int', 'index', 'col-index', 'index-col', 'self-level', 'col-list',
        'on2', 'cols2', 'col2-levels2', 'levels2', 'index2', 'level1of2']


def label(kind, k):
    """The k-th key"""
    import numpy as np
    import pandas as pd
    if kind in ('int', 'i4', 'u1'):
        return [30, 10, 20, 40, 50][k]
    if kind in ('str', 'cat'):
        return ['b', 'aa', 'a', '', 'B'][k]
    if kind == 'float':
        return [1.5, -2.0, 0.25, 1e300, 7.0][k]
    if kind == 'date':
        return pd.Timestamp('2020-03-01') + pd.Timedelta(days=[5, 0, 31, 2, 9][k])
    if kind == 'bool':
        return [True, False, True, False, True][k]
    return [3, 'three', 2.5, (1, 2), None and 0 or 'x'][k]


def column(kind, keys):
    import numpy as np
    import pandas as pd
    values = [label(kind, k) for k in keys]
    if kind == 'cat':
        return pd.Categorical(values, categories=['zz', 'B', 'b', 'a', 'aa', ''])
    dtype = {'int': 'i8', 'str': object, 'float': 'f8', 'date': 'M8[ns]', 'bool': '?', 'mixed': object, 'i4': 'i4', 'u1': 'u1'}[kind]
    out = np.empty(len(values), dtype=dtype)
    for i, v in enumerate(values):
        out[i] = v
    return out


ATTRIBUTES = ['i', 'i4', 'u', 'f', 'f4', 'b', 's', 'c', 'd', 'o']


def attributes(n):
    import numpy as np
    import pandas as pd
    r = np.arange(n)
    return {'i': r * 7 - 3, 'i4': (r + 1).astype('i4'), 'u': (r * 40 + 200 - 200 * (r > 1)).astype('u1'), 'f': r / 4 + 0.5, 'f4': (r / 2).astype('f4'), 'b': r % 2 == 0,
            's': pd.Series([f'text{x}' * (x % 3 + 1) for x in r], dtype=object).to_numpy(), 'c': pd.Categorical([['q', 'p', 'rr'][x % 3] for x in r], categories=['rr', 'q', 'unused', 'p']),
            'd': pd.to_datetime([f'2001-01-{x % 28 + 1:02d}' for x in r]), 'o': pd.Series([[2.5, 7][x % 2] for x in r], dtype=object).to_numpy()}


def shards(tier):
    big = tier == 'thorough'
    out = []
    src, tgt = (5, 4) if big else (4, 3)
    n_keys = 4 if big else 3
    for i in range(16):
        out.append({'kind': 'pairs', 'way': 'on', 'keys': 'int', 'src': src, 'tgt': tgt, 'n': n_keys, 'part': [i, 16]})
    for w in WAYS:
        for k in KINDS:
            if k == 'bool' and ('2' in w or 'of' in w):
                continue
            out.append({'kind': 'pairs', 'way': w, 'keys': k, 'src': 3, 'tgt': 3, 'n': 2 if k == 'bool' else 3, 'part': [0, 1 if big else 2]})
    out += [{'kind': 'dups', 'way': w, 'keys': k} for w in WAYS for k in ('int', 'str')]
    out += [{'kind': 'composite', 'pool': p, 'way': w, 'src': 2, 'tgt': 3 if big else 2} for p in POOLS for w in COMPOSITE]
    out += [{'kind': 'chains', 'hops': 4 if big else 3, 'part': [i, 24]} for i in range(24)]
    out += [{'kind': 'misc'}, {'kind': 'big'}]
    return out


def lists(n_keys, most, unique=False):
    for n in range(most + 1):
        yield from (itertools.permutations(range(n_keys), n) if unique else itertools.product(range(n_keys), repeat=n))


def run(shard, ctx):
    kind = shard['kind']
    if kind == 'pairs':
        i = 0
        for src in lists(shard['n'], shard['src']):
            for tgt in lists(shard['n'], shard['tgt'], unique=True):
                i += 1
                if i % shard['part'][1] == shard['part'][0]:
                    ctx.do({'kind': 'pair', 'way': shard['way'], 'keys': shard['keys'], 'src': list(src), 'tgt': list(tgt), 'eager': i % 3 != 0, 'linked': i % 2 == 0})
    elif kind == 'dups':
        for src in lists(2, 3):
            for tgt in lists(2, 3):
                for eager in (True, False):
                    ctx.do({'kind': 'dup', 'way': shard['way'], 'keys': shard['keys'], 'src': list(src), 'tgt': list(tgt), 'eager': eager})
    elif kind == 'composite':
        pool = POOLS[shard['pool']]
        for src in itertools.product(range(len(pool)), repeat=shard['src']):
            for n in range(1, shard['tgt'] + 1):
                for tgt in itertools.permutations(range(len(pool)), n):
                    ctx.do({'kind': 'composite', 'pool': shard['pool'], 'way': shard['way'], 'src': list(src), 'tgt': list(tgt), 'eager': sum(src) % 2 == 0})
    elif kind == 'chains':
        hops = shard['hops']
        i = 0
        firsts = [list(x) for x in itertools.product(range(4), repeat=2)]
        mids = [[list(k), list(p)] for p in itertools.permutations(range(3)) for k in itertools.product(range(4), repeat=3)]
        lasts = [list(p) for n in range(4) for p in itertools.permutations(range(3), n)]
        pool = [firsts] + [mids] * (hops - 2) + [lasts]
        if hops == 4:
            pool[1], pool[2] = mids[::7], mids[::11]
        for combo in itertools.product(*pool):
            i += 1
            if i % shard['part'][1] == shard['part'][0]:
                ctx.do({'kind': 'chain', 'tables': list(combo), 'variant': (i // shard['part'][1]) % 8})
    elif kind == 'misc':
        for which in MISC:
            ctx.do({'kind': 'misc', 'which': which})
    else:
        for w in ('on', 'col-index', 'on2', 'index2', 'level-col'):
            for k in ('int', 'str'):
                ctx.do({'kind': 'big', 'way': w, 'keys': k})


def make(way, kind, keys, side):
    """A frame without attributes: the keys as columns or levels, as the way needs them, and the arguments of link_to()"""
    import numpy as np
    import pandas as pd
    n = len(keys)
    col = column(kind, keys)
    two = '2' in way
    second = np.array([[5, 6, 5, 7, 6][k] for k in keys], dtype='i8')   # The second key is a function of the first one
    where = {'on': ('c', 'c'), 'cols': ('c', 'c'), 'col-level': ('c', 'l'), 'level-col': ('l', 'c'), 'levels': ('l', 'l'), 'level-int': ('l', 'l'), 'index': ('l', 'l'),
             'col-index': ('c', 'l'), 'index-col': ('l', 'c'), 'self-level': ('l', 'c'), 'col-list': ('c', 'c'), 'on2': ('c', 'c'), 'cols2': ('c', 'c'),
             'col2-levels2': ('c', 'l'), 'levels2': ('l', 'l'), 'index2': ('l', 'l'), 'level1of2': ('l', 'l')}[way][side]
    names = ('k', 'k2') if way in ('on', 'on2', 'levels', 'levels2', 'level1of2') else (('sk', 'sk2'), ('ok', 'ok2'))[side]
    if where == 'c':
        data = {'noise': np.arange(n), names[0]: col}
        if two:
            data = {names[1]: second, **data}
        frame = pd.DataFrame(data, index=pd.Index([f'r{(i * 7) % (n + 3)}' for i in range(n)], name='rows'))
    else:
        if way == 'level1of2':
            index = pd.MultiIndex.from_arrays([np.arange(n)[::-1] * 2, col], names=['zz', names[0]])
        elif two:
            index = pd.MultiIndex.from_arrays([col, second], names=names)
        else:
            index = pd.Index(col, name=names[0])
        frame = pd.DataFrame({'noise': np.arange(n)}, index=index)
    return frame


ARGS = {'on': {'on': 'k'}, 'cols': {'on_self': 'sk', 'on_other': 'ok'}, 'col-level': {'on_self': 'sk', 'other_levels': 'ok'}, 'level-col': {'self_levels': 'sk', 'on_other': 'ok'},
        'levels': {'levels': 'k'}, 'level-int': {'self_levels': [0], 'other_levels': [0]}, 'index': {}, 'col-index': {'on_self': 'sk'}, 'index-col': {'on_other': 'ok'},
        'self-level': {'self_levels': ['sk'], 'on_other': ['ok']}, 'col-list': {'on_self': ['sk'], 'on_other': ['ok']}, 'on2': {'on': ['k', 'k2']},
        'cols2': {'on_self': ['sk', 'sk2'], 'on_other': ['ok', 'ok2']}, 'col2-levels2': {'on_self': ['sk', 'sk2'], 'other_levels': ['ok', 'ok2']},
        'levels2': {'levels': ['k', 'k2']}, 'index2': {}, 'level1of2': {'levels': 'k'}}

FILLS = {'i': 0, 'i4': 0, 'u': 0, 'f': None, 'f4': None, 'b': False, 's': '', 'c': None, 'd': None, 'o': None}


def same(got, want):
    import pandas as pd
    if want is None or (not isinstance(want, (str, tuple)) and pd.isna(want)):
        return got is None or (not isinstance(got, (str, tuple)) and bool(pd.isna(got)))
    if isinstance(got, str) != isinstance(want, str) or (not isinstance(got, str) and pd.isna(got)):
        return False
    return bool(got == want)


def check(what, got, want, index):
    from mc.lib import Bad
    import pandas as pd
    if not isinstance(got, pd.Series):
        raise Bad(f'{what}: got a {type(got).__name__}')
    if not got.index.equals(index):
        raise Bad(f'{what}: index {list(got.index)}, expected {list(index)}')
    got = list(got)
    if len(got) != len(want) or not all(same(g, w) for g, w in zip(got, want)):
        raise Bad(f'{what}: got {got}, expected {want}')


def run_case(case, ctx):
    import cheval
    from cheval.ldf import LinkedDataFrame
    from cheval.ldf.constants import LinkAggregationRequired
    from mc.lib import Bad, expect_raise
    kind = case['kind']
    ctx.trace()
    if kind == 'misc':
        ctx.state(case)
        return MISC[case['which']](ctx)
    if kind == 'chain':
        return chain(case, ctx)
    if kind == 'composite':
        return composite(case, ctx)
    way, keys = case['way'], case['keys']
    if kind == 'big':
        return big(case, ctx)
    src, tgt = case['src'], case['tgt']
    what = f'{case}'
    if keys == 'mixed' and ('2' in way):
        ctx.count('skipped mixed')
        return
    a, b = make(way, keys, src, 0), make(way, keys, tgt, 1)
    self_unique, other_unique = len(set(src)) == len(src), len(set(tgt)) == len(tgt)
    if keys == 'bool':
        pass
    left = LinkedDataFrame(a)
    b = b.assign(**attributes(len(tgt)))
    right = LinkedDataFrame(b) if case.get('linked', True) else b
    link = lambda: left.link_to(right, 'lk', precompute=case['eager'], **ARGS[way])
    ctx.step()
    ctx.state([way, keys, src, tgt])
    if not self_unique and not other_unique:
        expect_raise(f'{what}: many-to-many link', link)
        ctx.outcome('many-to-many')
        expect_raise(f'{what}: the rejected link', lambda: left.lk.i)
        return
    r = link()
    needed = self_unique and not other_unique
    if bool(r.value if hasattr(r, 'value') else r) != needed or r != (LinkAggregationRequired.YES if needed else LinkAggregationRequired.NO):
        raise Bad(f'{what}: link_to() reports {r}, but aggregation is {"" if needed else "not "}required')
    if bool(left.link_summary().aggregation['lk']) != needed:
        raise Bad(f'{what}: link_summary() reports the contrary')
    ctx.outcome([needed, src, tgt])
    if needed:
        n = list(left.lk.count('i'))
        want = [sum(t == s for t in tgt) or -1 for s in src]
        if n != want:
            raise Bad(f'{what}: counts {n}, expected {want}')
        return
    if kind == 'dup':
        names = ['i', 's']
    else:
        names = ATTRIBUTES + ['noise']
    match = [next((j for j, t in enumerate(tgt) if t == s), None) for s in src]
    for name in names:
        if name == 'o' and not tgt:
            continue    # An empty column of objects is taken for text
        values = list(b[name])
        want = [FILLS.get(name, 0) if m is None else values[m] for m in match]
        got = left.lk[name] if name in 'isf' else getattr(left['lk'], name)
        check(f'{what}: lk.{name}', got, want, a.index)
        ctx.step()
    again = left.lk.i
    check(f'{what}: lk.i again', again, [0 if m is None else int(b.i.iloc[m]) for m in match], a.index)


def chain(case, ctx):
    """tables[0]: keys of the first table; tables[i]: (keys to the next one, own labels); tables[-1]: labels. Key 3 matches nothing."""
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame
    v = case['variant']
    tables = case['tables']
    labels = [[10, 20, 30, 99], ['b', 'a', 'ab', '-']][v % 2]
    eager, by_index, first_last = v % 4 < 2, v & 4, v >= 4
    frames = []
    for i, t in enumerate(tables):
        last, first = i == len(tables) - 1, i == 0
        own = None if first else t if last else t[1]
        out = None if last else t if first else t[0]
        n = len(own if own is not None else out)
        data = {'v': np.arange(n) * 10 + i + 1, 's': np.array([f'{i}:{x}' for x in range(n)], dtype=object), 'f': np.arange(n) / 2 + i}
        if out is not None:
            data['to'] = np.array([labels[k] for k in out], dtype=object if v % 2 else 'i8')
        index = None
        if own is not None:
            me = np.array([labels[k] for k in own], dtype=object if v % 2 else 'i8')
            if by_index:
                index = pd.Index(me, name='me')
            else:
                data['me'] = me
        f = pd.DataFrame(data, index=index)
        frames.append(f if last and first_last else LinkedDataFrame(f))
    order = range(len(frames) - 1) if v % 3 else range(len(frames) - 2, -1, -1)
    for i in order:
        frames[i].link_to(frames[i + 1], f'nx{i}', on_self='to', **({} if by_index else {'on_other': 'me'}), precompute=eager if i % 2 == 0 else not eager)
    rows = list(range(len(tables[0])))
    here = rows
    node = frames[0]
    kept = []
    for hop in range(1, len(frames)):
        out = tables[hop - 1] if hop == 1 else tables[hop - 1][0]
        own = tables[hop] if hop == len(frames) - 1 else tables[hop][1]
        here = [None if r is None or out[r] not in own else own.index(out[r]) for r in here]
        node = getattr(node, f'nx{hop - 1}') if v % 2 else node[f'nx{hop - 1}']
        for name, fill in (('v', 0), ('s', ''), ('f', None)):
            values = list(frames[hop][name])
            check(f'{case}: hop {hop}, {name}', node[name] if name == 'v' else getattr(node, name), [fill if r is None else values[r] for r in here], frames[0].index)
            ctx.step()
        kept.append((hop, node, here))
    # References which were kept can be used again, in any order, whatever has been followed from them in between
    for hop, node, rows in kept + kept[::-1]:
        values = list(frames[hop].v)
        check(f'{case}: kept reference of hop {hop}', node.v, [0 if r is None else values[r] for r in rows], frames[0].index)
        if hop < len(frames) - 1:
            _, _, beyond = kept[hop]
            values = list(frames[hop + 1].f)
            check(f'{case}: beyond the kept reference of hop {hop}', node[f'nx{hop}'].f, [None if r is None else values[r] for r in beyond], frames[0].index)
        ctx.step()
    ctx.state(tables)
    ctx.outcome(here)


# Keys of several parts which only differ in how the parts are split or ordered, and the ways of naming the parts:
# (where the source's are, their order; where the target's are, their order; how they are named)
POOLS = {
    'text': [('a', 'bc'), ('ab', 'c'), ('abc', ''), ('bc', 'a'), ('a_', 'b'), ('a', '_b')],
    'swapped': [(1, 2), (2, 1), (1, 1), (2, 2), (12, 1), (1, 21)],
    'types': [(1, '1'), (1, '2'), (2, '1'), (11, '1'), (1, '11'), (12, '')],
    'float': [(0.5, 1), (1.0, 0), (0.5, 0), (1.5, 1), (1.0, 1), (0.0, 5)],
    'three': [(1, 2, 1), (1, 1, 2), (2, 1, 1), (1, 1, 1), (2, 2, 1), (1, 2, 2)],
    'three text': [('a', 'b', 'c'), ('ab', '', 'c'), ('a', 'bc', ''), ('c', 'b', 'a'), ('b', 'a', 'c'), ('a', 'c', 'b')],
}
COMPOSITE = ['cols', 'on', 'cols-levels', 'levels-cols', 'levels', 'levels-reversed', 'both-reversed', 'numbers-reversed', 'index', 'some-levels', 'cols-rotated', 'mixed-dtypes']


def composite(case, ctx):
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame
    from mc.lib import Bad
    pool, way = POOLS[case['pool']], case['way']
    parts = len(pool[0])
    order = list(range(parts))[::-1]
    rotated = order[1:] + order[:1]

    def table(rows, where, names, order, extra):
        arrays = [pd.Series([pool[k][p] for k in rows], dtype=object if isinstance(pool[0][p], str) else type(pool[0][p])).to_numpy() for p in range(parts)]
        if way == 'mixed-dtypes' and where == 'c':
            # The same numbers in another type
            arrays = [a if a.dtype == object else a.astype('f4' if a.dtype.kind == 'f' else 'i2') for a in arrays]
        data = dict(extra)
        index = None
        if where == 'c':
            data.update({names[p]: arrays[p] for p in order})
        else:
            levels, level_names = [arrays[p] for p in order], [names[p] for p in order]
            if where == 'some':
                levels, level_names = [np.arange(len(rows))] + levels, ['extra'] + level_names
            index = pd.MultiIndex.from_arrays(levels, names=level_names)
        return pd.DataFrame(data, index=index)

    a_names, b_names = [f'a{p}' for p in range(parts)], [f'b{p}' for p in range(parts)]
    straight = list(range(parts))
    where_a, where_b, order_a, order_b = 'c', 'c', straight, straight
    if way == 'cols':
        args = {'on_self': a_names, 'on_other': b_names}
        order_b = order
    elif way == 'on':
        b_names, args = a_names, {'on': a_names}
        order_a = order
    elif way == 'cols-levels':
        where_b, args = 'l', {'on_self': a_names, 'other_levels': b_names}
        order_b = order
    elif way == 'levels-cols':
        where_a, args = 'l', {'self_levels': a_names, 'on_other': b_names}
        order_a = rotated
    elif way == 'levels':
        where_a, where_b, b_names, args = 'l', 'l', a_names, {'levels': a_names}
        order_b = order
    elif way == 'levels-reversed':
        where_a, where_b, args = 'l', 'l', {'self_levels': a_names, 'other_levels': b_names}
        order_b = order
    elif way == 'both-reversed':
        where_a, where_b, args = 'l', 'l', {'self_levels': a_names[::-1], 'other_levels': b_names[::-1]}
        order_a = order
    elif way == 'numbers-reversed':
        where_a, where_b, args = 'l', 'l', {'self_levels': straight, 'other_levels': order}
        order_b = order
    elif way == 'index':
        where_a, where_b, args = 'l', 'l', {}
        a_names = a_names[::-1]     # The parts are paired by position, whatever they are called
    elif way == 'some-levels':
        where_a, where_b, args = 'some', 'some', {'self_levels': a_names, 'other_levels': b_names}
        order_b = order
    elif way == 'cols-rotated':
        b_names = a_names[1:] + a_names[:1]     # Columns of the same names hold other parts
        args = {'on_self': a_names, 'on_other': b_names}
    else:
        where_b, args = 'l', {'on_self': a_names, 'other_levels': b_names}
    src, tgt = case['src'], case['tgt']
    a = LinkedDataFrame(table(src, where_a, a_names, order_a, {'x': np.arange(len(src))}))
    b = table(tgt, where_b, b_names, order_b, {'v': np.arange(len(tgt)) + 1, 's': np.array([f'row {i}' for i in range(len(tgt))], dtype=object)})
    if len(tgt) % 2:
        b = LinkedDataFrame(b)
    r = a.link_to(b, 'lk', precompute=case['eager'], **args)
    if r.value:
        raise Bad(f'{case}: aggregation required')
    check(f'{case}: lk.v', a.lk.v, [tgt.index(k) + 1 if k in tgt else 0 for k in src], a.index)
    check(f'{case}: lk.s', a.lk.s, [f'row {tgt.index(k)}' if k in tgt else '' for k in src], a.index)
    ctx.state([case['pool'], way, src, tgt])
    ctx.outcome([src, tgt])
    ctx.step(2)


def big(case, ctx):
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame
    from mc.lib import Bad
    n, m = 12000, 5003
    way, kind = case['way'], case['keys']
    s = (np.arange(n) * 7919) % 6007
    t = (np.arange(m) * 4001) % m
    if way in ('index2', 'level-col'):
        s = (np.arange(n) * 7919) % 13001
        t = (np.arange(m) * 4001 * 2) % 13001
    key = (lambda x: x.astype('i8')) if kind == 'int' else (lambda x: np.array([f'k{i}' for i in x], dtype=object))
    two = '2' in way
    left_cols = way in ('on', 'col-index', 'on2')
    right_cols = way in ('on', 'on2', 'level-col')
    names = ('k', 'k2') if way in ('on', 'on2') else ('sk', 'sk2')
    def frame(x, cols, names, extra):
        arrays = [key(x)] + ([x % 17] if two else [])
        if cols:
            return LinkedDataFrame({**extra, **dict(zip(names, arrays))})
        index = pd.MultiIndex.from_arrays(arrays, names=names[:2]) if two else pd.Index(arrays[0], name=names[0])
        return LinkedDataFrame(extra, index=index)
    left = frame(s, left_cols, names, {'x': np.arange(n)})
    right = frame(t, right_cols, names if way in ('on', 'on2') else ('ok', 'ok2'), {'v': np.arange(m) + 1, 'f': np.arange(m) / 8})
    left.link_to(right, 'lk', **ARGS[way], precompute=way != 'on2')
    where = {int(k): j for j, k in enumerate(t)}
    pos = np.array([where.get(int(k), -1) for k in s])
    want = np.where(pos >= 0, pos + 1, 0)
    got = left.lk.v
    if not got.index.equals(left.index) or not np.array_equal(got.to_numpy(), want):
        raise Bad(f'{case}: {int((got.to_numpy() != want).sum())} of {n} rows differ')
    got = left.lk.f.to_numpy()
    if not np.array_equal(np.isnan(got), pos < 0) or not np.array_equal(got[pos >= 0], pos[pos >= 0] / 8):
        raise Bad(f'{case}: float attribute differs')
    ctx.state(case)
    ctx.step(2)


# Mis-specifications, self links, cycles, names

def misspecified(ctx):
    import pandas as pd
    from cheval.ldf import LinkedDataFrame
    from mc.lib import Bad, expect_raise
    index = pd.MultiIndex.from_tuples([(1, 2), (3, 4)], names=['l1', 'l2'])
    flat = lambda: LinkedDataFrame({'k': [1, 3], 'j': [2, 4], 'z': [5, 6]})
    deep = lambda: LinkedDataFrame({'k': [1, 3], 'j': [2, 4], 'z': [5, 6]}, index=index)
    bad = [dict(on='k', levels='l1'), dict(on_self='k', self_levels='l1'), dict(on_other='k', other_levels='l1'), dict(on='nope'), dict(on_self='k', on_other='nope'),
           dict(on_self='nope', on_other='k'), dict(levels='nope'), dict(self_levels='l1', on_other=['k', 'j']), dict(on_self=['k', 'j'], on_other='k'),
           dict(on_self='k', on_other=['k', 'j']), dict(self_levels=['l1', 'l2'], other_levels='l1'), dict(on_self='k'), dict(on_other='k'),
           dict(self_levels=['l1', 'l2', 'l1'], other_levels=['l1', 'l2', 'l1', 'l2']), dict(levels=7), dict(self_levels='l1', other_levels='nope'),
           dict(on=['k', 'nope']), dict(self_levels='k', on_other='k'), dict(on_self='k', other_levels='z')]
    for eager in (True, False):
        for args in bad:
            for other in (deep(), pd.DataFrame(deep())):
                f = deep()
                expect_raise(f'link_to({args}, precompute={eager})', lambda: f.link_to(other, 'lk', precompute=eager, **args))
                expect_raise(f'the rejected link {args}', lambda: f['lk'])
                ctx.step()
    f = flat()
    expect_raise('flat to two levels', lambda: f.link_to(deep(), 'lk'), {'LinkageSpecificationError', 'KeyError'})
    expect_raise('two levels to flat', lambda: deep().link_to(flat(), 'lk'), {'LinkageSpecificationError', 'KeyError'})
    expect_raise('a column to two levels', lambda: f.link_to(deep(), 'lk', on_self=f.columns[0]), {'LinkageSpecificationError', 'KeyError'})
    expect_raise('multi-level columns', lambda: f.link_to(pd.DataFrame([[1, 2]], columns=pd.MultiIndex.from_tuples([('a', 'b'), ('c', 'd')])), 'lk'))
    expect_raise('unknown link', lambda: f.lk)
    expect_raise('unknown link', lambda: f['lk'])
    expect_raise('unknown link target', lambda: f.get_link_target('lk'))


def overriding(ctx):
    """`on` and `levels` override the other arguments"""
    import pandas as pd
    from cheval.ldf import LinkedDataFrame
    for other in (LinkedDataFrame, pd.DataFrame):
        a = LinkedDataFrame({'k': [2, 1], 'z': [1, 2]}, index=pd.Index([1, 2], name='l'))
        b = other({'k': [1, 2], 'z': [1, 2], 'v': [7, 8]}, index=pd.Index([2, 1], name='l'))
        a.link_to(b, 'lk', on='k', on_self='z', on_other='z')
        check('on overrides', a.lk.v, [8, 7], a.index)
        a.link_to(b, 'lk', levels='l')
        check('linking again replaces the link', a.lk.v, [8, 7], a.index)
        a.link_to(b, 'lk', on='z')
        check('linking again replaces the link', a.lk.v, [7, 8], a.index)
        ctx.step(3)


def selflink(ctx):
    """Every parent relation of up to 4 rows, links to the table itself, and a cycle of two tables"""
    import numpy as np
    from cheval.ldf import LinkedDataFrame
    for n in range(1, 5):
        for parents in itertools.product(range(-1, n), repeat=n):
            f = LinkedDataFrame({'id': np.arange(n) * 3, 'up': np.array(parents) * 3, 'v': np.arange(n) + 100})
            f.link_to(f, 'pa', on_self='up', on_other='id', precompute=n % 2 == 0)
            one = [p if p >= 0 else None for p in parents]
            two = [None if p is None else one[p] for p in one]
            three = [None if p is None else one[p] for p in two]
            for node, at in ((f.pa, one), (f.pa.pa, two), (f.pa.pa.pa, three)):
                check(f'parents {parents}', node.v, [0 if p is None else p + 100 for p in at], f.index)
                ctx.step()
            ctx.state(parents)
    for ab in itertools.product(range(4), repeat=3):
        for ba in itertools.product(range(4), repeat=3):
            a = LinkedDataFrame({'id': [0, 1, 2], 'to': list(ab), 'v': [1, 2, 3]})
            b = LinkedDataFrame({'id': [2, 0, 1], 'to': list(ba), 'v': [30, 10, 20]})
            a.link_to(b, 'b', on_self='to', on_other='id')
            b.link_to(a, 'a', on_self='to', on_other='id', precompute=False)
            at_b = [[1, 2, 0][k] if k < 3 else None for k in ab]
            at_a = [None if p is None or ba[p] > 2 else ba[p] for p in at_b]
            at_b2 = [None if p is None else at_b[p] for p in at_a]
            check(f'{ab} {ba}', a.b.a.v, [0 if p is None else p + 1 for p in at_a], a.index)
            check(f'{ab} {ba}', a.b.a.b.v, [0 if p is None else [30, 10, 20][p] for p in at_b2], a.index)
            ctx.step(2)
            ctx.state([ab, ba])


def names(ctx):
    """Aliases which are not identifiers, several links, links of the same keys to several tables, missing keys in the source"""
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame
    a = LinkedDataFrame({'k': [2.0, np.nan, 1.0, 5.0], 's': ['x', None, 'y', 'z']}, index=list('dabc'))
    b = LinkedDataFrame({'k': [1.0, 2.0], 'v': [7, 8], 'w w': [True, True]})
    c = pd.DataFrame({'s': ['y', 'x'], 'v': [0.5, 1.5]})
    for eager in (True, False):
        a.link_to(b, 'my link', on='k', precompute=eager)
        a.link_to(c, 'text', on='s', precompute=eager)
        a.link_to(c.assign(v=[1, 2]), 'other', on='s', precompute=not eager)
        check('my link', a['my link'].v, [8, 0, 7, 0], a.index)
        check('my link', a['my link']['w w'], [True, False, True, False], a.index)
        check('text', a.text.v, [1.5, None, 0.5, None], a.index)
        check('other', a.other.v, [2, 0, 1, 0], a.index)
        if a.get_link_target('my link') is not b or a.get_link_target('text') is not c:
            from mc.lib import Bad
            raise Bad('get_link_target() returns another table')
        ctx.step(5)
    from mc.lib import expect_raise
    expect_raise('unknown attribute', lambda: a.text.nope)
    expect_raise('unknown attribute', lambda: a['my link']['nope'])
    expect_raise('unknown attribute', lambda: getattr(a['my link'], 'nope'))


MISC = {'misspecified': misspecified, 'overriding': overriding, 'selflink': selflink, 'names': names}
