"""C16: aggregating through a link reduces exactly the matching target rows."""
META = {
    'jit': False,
    'rule': 'For every assignment of target rows to keys (matched, unmatched, missing) and several orders of source keys, every reduction of every '
            'kind of attribute and expression, given as a column, an expression, a linked expression or nothing, is compared with the same '
            'reduction over a nested-loop selection of rows, written in plain Python. Also at the end of multi-hop paths. Non-trivial: '
            'distinct (source keys, target keys) pairs.',
    'bounds': {
        'quick': 'targets of up to 4 rows over 4 keys (2 or 3 of them in the source, one missing), 4 sources (one with a missing key), 13 reductions of 15 evaluations, '
                 '6 ways of naming the keys; paths of 2 and 3 hops over every pair of keys; 9000 target rows of 700 groups',
        'thorough': 'targets of up to 5 rows over 5 keys, 8 sources, all ways',
    },
    'assumptions': ['where the reduction of integers or booleans is a fraction (mean, std, ...), unmatched rows are -1 or null: the text is not specific',
                    'the count of a boolean expression is a known finding: it counts all rows, not those for which it is true'],
}

import itertools

SOURCES = [[0, 1], [1, 9, 0], [2, 1, 0], [1, None, 0], [0], [9, 8], [1, 0, 2, 9], [None, 8, 2]]
FUNCS = ['sum', 'max', 'min', 'mean', 'median', 'prod', 'std', 'var', 'quantile', 'count', 'first', 'last', 'nth']
WAYS = ['cols', 'on', 'index-col', 'col-index', 'index', 'two']


def shards(tier):
    big = tier == 'thorough'
    out = []
    n_src = 8 if big else 4
    rows = 5 if big else 4
    for way in WAYS:
        for s in range(n_src):
            if way == 'cols' or big:
                parts = 8 if big else 3
                for i in range(parts):
                    out.append({'kind': 'targets', 'src': s, 'rows': rows, 'way': way, 'part': [i, parts]})
            else:
                out.append({'kind': 'targets', 'src': s, 'rows': 3, 'way': way, 'part': [0, 1]})
    out += [{'kind': 'hops', 'part': [i, 8]} for i in range(8)]
    out += [{'kind': 'misc'}]
    return out


def run(shard, ctx):
    if shard['kind'] == 'targets':
        i = 0
        for n in range(shard['rows'] + 1):
            for keys in itertools.product([0, 1, 2, None], repeat=n):
                if len(set(keys)) == len(keys):
                    continue     # No aggregation required
                i += 1
                if i % shard['part'][1] == shard['part'][0]:
                    ctx.do({'kind': 'targets', 'src': SOURCES[shard['src']], 'tgt': list(keys), 'way': shard['way'], 'eager': i % 2 == 0})
    elif shard['kind'] == 'hops':
        i = 0
        for to in itertools.product(range(3), repeat=3):
            for keys in itertools.product([0, 1, 2], repeat=3):
                i += 1
                if i % shard['part'][1] == shard['part'][0] and len(set(keys)) < 3:
                    ctx.do({'kind': 'hops', 'to': list(to), 'tgt': list(keys)})
    else:
        for which in MISC:
            ctx.do({'kind': 'misc', 'which': which})


def evaluations(n):
    """Columns of the target, and expressions with their values by row; kinds i f b s c d"""
    import numpy as np
    import pandas as pd
    r = range(n)
    cols = {'i': [[3, -2, 3, 7, 0][k % 5] for k in r], 'f': [[0.5, float('nan'), -1.25, 2.0, 4.0][k % 5] for k in r], 'b': [k % 3 != 1 for k in r],
            's': ['t%d' % (k * 7 % 5) for k in r], 'u': [[200, 1, 0, 250, 9][k % 5] for k in r], 'c': [['q', 'p', 'q', 'r', 'p'][k % 5] for k in r],
            'lkkey': [[1, 0, 9, 1, 0][k % 5] for k in r], 'f4': [[1.5, 2.5, -0.5, 0.25, 8][k % 5] for k in r]}
    frame = {'i': np.array(cols['i'], dtype='i8'), 'f': np.array(cols['f'], dtype='f8'), 'b': np.array(cols['b'], dtype='?'), 's': np.array(cols['s'], dtype=object),
             'u': np.array(cols['u'], dtype='u1'), 'c': pd.Categorical(cols['c'], categories=['r', 'q', 'p']), 'lkkey': np.array(cols['lkkey'], dtype='i8'),
             'f4': np.array(cols['f4'], dtype='f4')}
    linked = [[2.5, -1.5][k] if k < 2 else float('nan') for k in cols['lkkey']]
    evals = [('i', 'i', cols['i']), ('f', 'f', cols['f']), ('b', 'b', cols['b']), ('s', 's', cols['s']), ('u', 'i', cols['u']), ('c', 'c', cols['c']), ('f4', 'f', cols['f4']),
             ('i * 2 + 1', 'i', [x * 2 + 1 for x in cols['i']]), ('i / 2', 'f', [x / 2 for x in cols['i']]), ('i > 0', 'b', [x > 0 for x in cols['i']]),
             ('where(b, f, 0)', 'f', [f if b else 0.0 for b, f in zip(cols['b'], cols['f'])]), ('-i', 'i', [-x for x in cols['i']]),
             ('to.y', 'f', linked), ('to.y * i - f4', 'f', [a * b - c for a, b, c in zip(linked, cols['i'], cols['f4'])]), (None, '1', [1] * n),
             ('to.t', 's', [['one', 'further'][k] if k < 2 else '' for k in cols['lkkey']])]
    return frame, evals


def is_null(x):
    return x is None or (isinstance(x, float) and x != x)


def reduce_(func, kind, values, kw):
    """The reduction over the values of one group, in plain Python. Null is None."""
    import math
    import statistics
    some = [v for v in values if not is_null(v)]
    if func == 'count':
        return len(some)
    if func == 'first':
        return some[0] if some else None
    if func == 'last':
        return some[-1] if some else None
    if func == 'nth':
        n = kw.get('n', 1)
        v = values[n] if -len(values) <= n < len(values) else None
        return None if is_null(v) else v
    if func == 'sum':
        return sum(some)
    if func == 'prod':
        return math.prod(some)
    if not some:
        return None
    if func in ('max', 'min'):
        return max(some) if func == 'max' else min(some)
    if func == 'mean':
        return sum(some) / len(some)
    if func == 'median':
        return statistics.median([float(x) for x in some])
    if func in ('std', 'var'):
        if len(some) < 2:
            return None
        v = statistics.variance([float(x) for x in some])
        return math.sqrt(v) if func == 'std' else v
    q, some = kw.get('q', 0.5), sorted(float(x) for x in some)
    at = q * (len(some) - 1)
    lo = int(at)
    hi = min(lo + 1, len(some) - 1)
    return some[lo] + (some[hi] - some[lo]) * (at - lo)


def compare(what, got, want, index, kind, func, int_fill, key=None):
    """want: per row, the reduction, or Ellipsis for rows without matches"""
    import numpy as np
    import pandas as pd
    from mc.lib import Bad
    if not isinstance(got, pd.Series) or not got.index.equals(index):
        raise Bad(f'{what}: index {list(getattr(got, "index", []))}, expected {list(index)}')
    values = [None if not isinstance(x, str) and pd.isna(x) else x for x in got]
    reduced_type = 'fraction' if func in ('mean', 'median', 'std', 'var', 'quantile') else 'i' if func == 'count' else {'1': 'i'}.get(kind, kind)
    if func in ('sum', 'prod') and kind == 'b':
        reduced_type = 'i'
    for i, (g, w) in enumerate(zip(values, want)):
        if w is ...:
            if reduced_type == 'i':
                # With a null among the reductions, or an evaluation which is a fraction, the fill is still that of integers
                ok = g is not None and g == int_fill and not isinstance(g, (bool, np.bool_)) or (g is None and any(x is None for x in want))
            elif reduced_type == 'fraction' and kind in 'ib1':
                ok = g is None or g == int_fill
            elif reduced_type == 'b':
                ok = g is not None and not isinstance(g, str) and g == False or (g is None and any(x is None for x in want))  # noqa
            else:
                ok = g is None
        elif w is None:
            ok = g is None
        elif isinstance(w, str) or isinstance(g, str):
            ok = isinstance(g, str) and g == w
        else:
            ok = g is not None and abs(float(g) - float(w)) <= 1e-9 * max(1.0, abs(float(w))) * (1e3 if kind == 'f' else 1)
        if not ok:
            if func == 'count' and kind == 'b' and key and key[i] is not None and g == key[i]:
                raise Bad(f'{what}: got {values}, expected {want}', key='count-of-boolean-expression')
            shown = ['<no match>' if x is ... else x for x in want]
            raise Bad(f'{what}: got {values}, expected {shown}')


def build(case):
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame
    way, src, tgt = case['way'], case['src'], case['tgt']
    missing = None in tgt or None in src
    key = lambda k: (np.nan if k is None else float([20, 10, 30][k] if k < 3 else k * 100)) if missing else ([20, 10, 30][k] if k < 3 else k * 100)
    cols, evals = evaluations(len(tgt))
    sk = np.array([key(k) for k in src], dtype='f8' if missing else 'i8')
    tk = np.array([key(k) for k in tgt], dtype='f8' if missing else 'i8')
    left = {'x': np.arange(len(src))}
    li, ti, args = pd.Index([f's{5 - i}' for i in range(len(src))], name='src'), pd.Index([(i * 3) % 7 for i in range(len(tgt))]), {}
    if way in ('cols', 'on', 'col-index', 'two'):
        left['k' if way == 'on' else 'sk'] = sk
        args = {'on': 'k'} if way == 'on' else {'on_self': 'sk'}
    else:
        li = pd.Index(sk, name='lev')
    if way in ('cols', 'on', 'index-col', 'two'):
        cols = {**cols, 'k' if way == 'on' else 'ok': tk}
        if way != 'on':
            args['on_other'] = 'ok'
    else:
        ti = pd.Index(tk, name='other')
    if way == 'two':
        left['s2'] = np.array(['p', 'q', 'r', 'z'])[[3 if k is None else min(k, 3) for k in src]].astype(object)
        cols['o2'] = np.array([['p', 'q', 'r'][k] if k is not None else 'none' for k in tgt], dtype=object)
        args = {'on_self': ['sk', 's2'], 'on_other': ['ok', 'o2']}
    left = LinkedDataFrame(left, index=li)
    right = LinkedDataFrame(cols, index=ti)
    right.link_to(pd.DataFrame({'kk': [0, 1], 'y': [2.5, -1.5], 't': ['one', 'further']}), 'to', on_self='lkkey', on_other='kk', precompute=case.get('eager', True))
    left.link_to(right, 'ag', precompute=case.get('eager', True), **args)
    return left, right, evals


def calls(func, i):
    """Variations of the keyword arguments"""
    if func == 'nth':
        return [{}, {'n': 0}, {'n': -1}] if i % 3 else [{}, {'n': 2}, {'n': -2}]
    if func == 'quantile':
        return [{}, {'q': 0.25}] if i % 2 else [{'q': 1.0}]
    return [{}]


def run_case(case, ctx):
    from mc.lib import expect_raise
    ctx.trace()
    ctx.state(case)
    if case['kind'] == 'misc':
        return MISC[case['which']](ctx)
    if case['kind'] == 'hops':
        return hops(case, ctx)
    left, right, evals = build(case)
    src, tgt = case['src'], case['tgt']
    index = left.index
    groups = [[j for j, t in enumerate(tgt) if t is not None and t == s] for s in src]
    for i, (text, kind, values) in enumerate(evals):
        for j, func in enumerate(FUNCS):
            # sums of text etc. are rejected
            if kind in 'sc' and func not in ('count', 'first', 'last', 'nth'):
                if case['way'] == 'cols' and len(tgt) < 4:
                    expect_raise(f'{case}: {func}({text})', lambda: getattr(left.ag, func)(text))
                continue
            if case['way'] != 'cols' and (i + j) % 4 != 0:
                continue
            for kw in calls(func, i):
                fill = -1 if (i + j) % 2 or func == 'count' and i % 2 else [-99, 0, 5][j % 3]
                if (i + j) % 2 == 0:
                    kw = {**kw, 'int_fill': fill}
                fill = kw.get('int_fill', -1)
                args = () if text is None else (text,)
                got = getattr(left.ag, func)(*args, **kw)
                plain = {k: v for k, v in kw.items() if k != 'int_fill'}
                want = [... if not g else reduce_(func, kind, [values[t] for t in g], plain) for g in groups]
                key = None
                if func == 'count' and kind == 'b':
                    key = [None if not g else len(g) for g in groups]
                    want = [... if not g else sum(bool(values[t]) for t in g) for g in groups] if text not in right.columns else want
                    if text not in right.columns:
                        ctx_try(ctx, case, lambda: compare(f'{case}: {func}({text!r}, {kw})', got, want, index, kind, func, fill, key))
                        continue
                compare(f'{case}: {func}({text!r}, {kw})', got, want, index, kind, func, fill)
                ctx.step()
    ctx.outcome(groups)


def ctx_try(ctx, case, fn):
    """The rest of the case is checked even if this is a known finding"""
    from mc.lib import Bad
    try:
        fn()
    except Bad as e:
        if e.key not in ctx.known:
            raise
        ctx.fail(case, e, e.key)


def hops(case, ctx):
    """a -> b -> many, a -> b -> c -> many, with unmatched rows at every hop"""
    import numpy as np
    from cheval.ldf import LinkedDataFrame
    to, tgt = case['to'], case['tgt']
    values = [1.5, 4.0, -2.0]
    a = LinkedDataFrame({'to': to}, index=list('zxy'))
    z = LinkedDataFrame({'to': to[::-1]}, index=list('zxy'))
    b = LinkedDataFrame({'id': [1, 0], 'cc': [5, 6]})
    c = LinkedDataFrame({'me': [6, 7], 'k': [0, 1]})
    many = LinkedDataFrame({'k': tgt, 'f': values, 'i': [3, 5, 9], 's': ['u', 'v', 'w'], 'b': [True, False, True]}, index=[4, 2, 8])
    for eager in (True, False):
        a.link_to(b, 'b', on_self='to', on_other='id', precompute=eager)
        z.link_to(a, 'a', precompute=not eager)
        b.link_to(many, 'ag', on_self='id', on_other='k', precompute=eager)
        b.link_to(c, 'c', on_self='cc', on_other='me', precompute=eager)
        c.link_to(many, 'ag', on_self='k', on_other='k', precompute=not eager)
        direct = [[j for j, t in enumerate(tgt) if t == k and k < 2] for k in to]
        # b 0 (id 1, c 5) has no c; b 1 (id 0, c 6) has c 0 (me 6, k 0)
        through = [[j for j, t in enumerate(tgt) if t == 0] if k == 0 else [] for k in to]
        for what, node, groups, index in [('a.b.ag', a.b.ag, direct, a.index), ('a.b.c.ag', a.b.c.ag, through, a.index),
                                          ('z.a.b.ag', z.a.b.ag, direct, a.index), ('z.a.b.c.ag', z['a']['b']['c'].ag, through, a.index)]:
            for text, kind, vs in [('f', 'f', values), ('i', 'i', [3, 5, 9]), ('i > 4', 'b', [False, True, True]), ('i + f', 'f', [4.5, 9.0, 7.0]), (None, '1', [1, 1, 1])]:
                for func in FUNCS:
                    if kind == 'b' and func == 'count':
                        continue
                    args = () if text is None else (text,)
                    want = [... if not g else reduce_(func, kind, [vs[j] for j in g], {}) for g in groups]
                    compare(f'{case}: {what}.{func}({text})', getattr(node, func)(*args), want, index, kind, func, -1)
                    ctx.step()
            for func in ('first', 'last', 'count'):
                want = [... if not g else reduce_(func, 's', [['u', 'v', 'w'][j] for j in g], {}) for g in groups]
                compare(f'{case}: {what}.{func}(s)', getattr(node, func)('s'), want, index, 's', func, -1)
    ctx.outcome([direct, through])


def many(ctx):
    """Thousands of rows and hundreds of groups, in several orders"""
    import numpy as np
    from cheval.ldf import LinkedDataFrame
    from mc.lib import check_close
    n, g = 9000, 700
    k = (np.arange(n) * 7919) % g
    k[::13] = 5000
    v = ((np.arange(n) * 31) % 101) / 8
    src = (np.arange(g + 40)[::-1] * 11) % (g + 40)
    a = LinkedDataFrame({'id': src})
    m = LinkedDataFrame({'k': k, 'v': v, 'w': (v * 8).astype('i8')})
    for eager in (True, False):
        a.link_to(m, 'ag', on_self='id', on_other='k', precompute=eager)
        rows = [np.nonzero(k == s)[0] for s in src]
        for func, f, expr, fill in [('sum', np.sum, 'v', np.nan), ('max', np.max, 'w', -1), ('mean', np.mean, 'v * w', np.nan), ('count', len, 'v', -1), ('last', lambda x: x[-1], 'v', np.nan),
                                    ('sum', np.sum, 'w', -1), ('std', lambda x: np.std(x, ddof=1), 'v', np.nan), ('nth', lambda x: x[1], 'v', np.nan)]:
            data = {'v': v, 'w': m.w.to_numpy(), 'v * w': v * m.w.to_numpy()}[expr]
            want = [f(data[r]) if len(r) else fill for r in rows]
            check_close(f'{func}({expr})', getattr(a.ag, func)(expr), want, 1e-9)
            ctx.step()


def errors(ctx):
    import pandas as pd
    from cheval.ldf import LinkedDataFrame
    from mc.lib import Bad, expect_raise
    a = LinkedDataFrame({'id': [1, 2]})
    for other in (pd.DataFrame, LinkedDataFrame):
        m = other({'k': [1, 1, 2], 'v': [1.0, 2.0, 4.0], 's': list('abc'), 'd': pd.to_datetime(['2020-01-01'] * 3)})
        a.link_to(m, 'ag', on_self='id', on_other='k')
        expect_raise('unknown reduction', lambda: a.ag.nope('v'))
        expect_raise('unknown reduction', lambda: a.ag.cumsum('v'))
        expect_raise('attribute without reduction', lambda: a.ag.v)
        expect_raise('unknown name', lambda: a.ag.sum('nope'))
        expect_raise('unknown name', lambda: a.ag.sum('v * nope'))
        expect_raise('sum of text', lambda: a.ag.sum('s'))
        expect_raise('mean of dates', lambda: a.ag.mean('d'))
        if list(a.ag.sum('v')) != [3.0, 4.0] or list(a.ag.sum('v * 2')) != [6.0, 8.0] or list(a.ag.count()) != [2, 1]:
            raise Bad(f'wrong sums for a {other.__name__}')
        for func in [f for f in FUNCS if f not in ('quantile', 'nth')]:   # Not supported within expressions
            for e in ('', 'v', 'v * 2', 'v + k'):
                direct, within = getattr(a.ag, func)(*[e] * bool(e)), a.evaluate(f'ag.{func}({e})')
                if not all(x == y or (x != x and y != y) for x, y in zip(direct, within)) or len(within) != 2:
                    raise Bad(f'ag.{func}({e}) gives {list(direct)}, but {list(within)} within an expression')
                ctx.step()
        if sorted(dir(a.ag)) != sorted(FUNCS):
            raise Bad(f'reductions offered: {dir(a.ag)}')
        ctx.step(8)


MISC = {'many': many, 'errors': errors}
