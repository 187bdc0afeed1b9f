"""C19: evaluating an expression on a linked table is row-wise arithmetic."""
META = {
    'jit': False,
    'rule': 'A case is a batch of expression texts, evaluated on a linked table over columns, supplied values, linked attributes and aggregations of any '
            'number of hops, and compared, row by row, with an independent evaluator of the text; after the batch the tables and the supplied '
            'values have to be what they were. Every text is evaluated on tables of several sizes, kinds of row labels and types of columns. '
            'Non-trivial: distinct (text, table) pairs with their results.',
    'bounds': {
        'quick': 'every leaf (32: columns and supplied values of every type, links of 1 to 3 hops, aggregations at the end of 1 to 3 hops, special values) '
                 'with every unary operator and function, every pair with every operator, every formula of 3 operands and of 4 operands, comparison '
                 'chains, nested functions (40000 texts), on 3 tables of 4 and 5 rows, every 5th of them on tables of 0, 1 or 9000 rows; every pair of paths of up to 5 links; 8 kinds of output columns; 70 rejected texts',
        'thorough': 'also unary operators in formulas of 4 operands, and 5 operands; every text on every table',
    },
    'assumptions': ['constructs which the expression engine defines differently from Python on purpose are not generated (see C07)',
                    'expressions of nothing but literals are not evaluated into an output column, which the engine rejects',
                    'the reserved names NAN and NEG_INF, and those of functions of the engine, are not names of columns or supplied values'],
}

import functools
import re

MAP = {'n': 'ln', 'v0': 'f', 'v1': 'la', 'i0': 'i', 'i1': 'li', 'b0': 'b', 'b1': 'lb', 't0.f': 'h', 't1.f': 'lk.f', 't0.i': 'out', 't1.i': 'u', 't0.b': 'expr', 't1.b': 'mb',
       's0': 's', 'c0': 'c', 't0.s': 's2', 't0.c': 'c2', 't1.s': 'lk.nx.t', 'm': 'm', 'mr': 'lk.nx.y', 'mi': 'nul', 'v0f4': 'f4', 'vb0': 'i4', 'i0u1': 'lu'}
TABLES = ['four', 'dup', 'multi', 'one', 'none', 'many']


@functools.lru_cache(None)
def texts(tier):
    from mc.checks.c07 import exprs
    out, seen = [], set()
    for e in exprs(tier):
        if '{' in e:
            continue
        # Literals of text stay as they are
        parts = re.split('("[^"]*"|\'[^\']*\')', e)
        for i in range(0, len(parts), 2):
            parts[i] = re.sub(r'[A-Za-z_][\w.]*', name, parts[i])
        e = ''.join(parts)
        if e not in seen:
            seen.add(e)
            out.append(e)
    return out


def name(match):
    x = match.group()
    if x.startswith('t0.ag.'):
        # Aggregations at the end of one, two and three hops
        return {1: 'ag.', 2: 'lk.ag.', 0: 'lk.nx.ag.'}[len(match.string) % 3] + x[6:]
    if x.startswith('t0.'):
        return MAP.get(x, x[3:])
    return MAP.get(x, x)


# Rejected on this table
REJECT = ['nope', 'f + nope', 'lk.nope', 'nope.x', 'nope.x + f', 'ag.sum(nope)', 'ag.sum(x + nope)', 'ag.x', 'ag', 'ag + 1', 'lk', 'lk + 1', 'lk.nx', 'lk.nx + 1', 'lk.nx.nope', 'lk.nx.ag',
          'lk.nx.ag.x', 'lk.nope.y', 'nope.sum(x)', 'lk.sum(x)', 'lk.nope.sum(x)', 'lk.nx.nope.sum(x)', 'f.x', 'f.sum(x)', 'lk.f + lk', 'np', 'self', 'ld', 'ne', 'local_dict', 'new_expr', 'to',
          'Series', '__class__', 'len', 'where', 'index', 'd', 'ag.sum', 'lk.f.x', 'la.x', 'ln.real', 'lk.ag', 'ag.nope(x)', 'ag.apply(x)', 'where(nope, f, 1)', 'abs(nope)', 'nope == "a"',
          '1 if b else 2', 'f[0]', 'lk["f"]', '[f, 1]', '{A: 1}', '{A: 1} + f', 'lambda: 1', 'unknown(f)', 'f is la', 'f in la', '(f, la)', '', 'f <', 'f = 1', 'f la', 'ag.sum(x, axis=1)',
          'ag.sum(*x)', '(f + 1).sum(x)', 'lk.f + lk.f.sum(x)', 'f + f.x', 'dates', 'dates + 1', 'abs(f)(1)']


def shards(tier):
    n = 48 if tier == 'quick' else 96
    out = [{'part': [i, n], 'tier': tier} for i in range(n)]
    return out + [{'misc': x} for x in ('reject', 'out', 'series', 'names', 'alike')] + [{'paths': [i, 6], 'most': 5 if tier == 'quick' else 6} for i in range(6)]


def run(shard, ctx):
    if 'paths' in shard:
        from mc.paths import all_paths
        some = [(p, g) for p in all_paths(shard['most']) for g in (False, True)]
        for i, one in enumerate(some):
            if i % shard['paths'][1] == shard['paths'][0]:
                ctx.do({'paths': [[one, other] for other in some if len(one[0]) + len(other[0]) <= shard['most'] + 2], 'eager': i % 4 < 2})
        return
    if 'misc' in shard:
        for table in TABLES:
            ctx.do({'misc': shard['misc'], 'table': table})
        return
    es = texts(shard['tier'])[shard['part'][0]::shard['part'][1]]
    for i in range(0, len(es), 40):
        batch = es[i:i + 40]
        if shard['tier'] == 'quick':
            # Every text on the small tables, some of them on the large one and on those without rows
            at = i // 40 + shard['part'][0]
            for table in TABLES[:3]:
                ctx.do({'texts': batch, 'table': table})
            ctx.do({'texts': batch[at % 5::5], 'table': TABLES[3 + at % 3]})
        else:
            for table in TABLES:
                ctx.do({'texts': batch, 'table': table})


class World:
    def __init__(self, table):
        import numpy as np
        import pandas as pd
        from cheval.ldf import LinkedDataFrame as L
        N = self.N = {'four': 4, 'dup': 5, 'multi': 4, 'one': 1, 'none': 0, 'many': 9000}[table]
        r = np.arange(N)
        other = table in ('dup', 'multi', 'many')      # Other types for the same names

        def pick(vals, k=1, size=N, dtype=None):
            return np.array(vals)[(np.arange(size) * k) % len(vals)].astype(dtype or np.array(vals).dtype)
        index = {'four': pd.Index(['z', 'a', 'm', 'b'], name='ix'), 'dup': pd.Index([7, 7, 3, 7, 3]), 'one': pd.RangeIndex(5, 6), 'none': pd.Index([], dtype=object),
                 'multi': pd.MultiIndex.from_tuples([(1, 'x'), (0, 'y'), (1, 'y'), (0, 'x')], names=['p', None]), 'many': pd.Index((r * 7) % max(N, 1))}[table]
        key = pick([20, 99, 10, 20, 30])
        cols = {'f': pick([1.5, -0.5, 2.0, 0.75, -3.0], dtype='f4' if other else 'f8'), 'h': pick([2.0, -1.0, 0.5]) if not other else pick([2, -1, 4], dtype='i2'),
                'm': pick([1.0, 0.25, -2.5, 0.5]), 'i': pick([2, -1, 3, 1], dtype='i4' if other else 'i8'), 'out': pick([1, 2, 0, 3], dtype='i8'), 'u': pick([3, 1, 2, 0], dtype='u1' if other else 'u4'),
                'b': pick([True, False, True, False]), 'expr': pick([False, True, True]), 'mb': pick([True, True, False]), 'f4': pick([0.5, 1.5, -2.0], dtype='f4'), 'i4': pick([-2, 1, 4], dtype='i4'),
                's': pd.Series(pick(['ab', 'a', 'abc', '', 'b']), dtype=object), 's2': pd.Series(pick(['a', 'ab', 'it is']), dtype=object),
                'c': pd.Categorical(pick(['abc', 'ab', 'zz', 'a']), categories=['unused longer text', 'zz', 'abc', 'ab', 'a']),
                'c2': pd.Series(pick(['ab', 'zz', 'abc']), dtype=object) if other else pd.Categorical(pick(['ab', 'zz', 'abc'])),
                'nul': pd.Series(pick([1, 3, 2], dtype='i8'), dtype='Int64'), 'key': key, 'id': r + 1, 'dates': pd.to_datetime(pick(['2020-01-01', '2020-02-02']))}
        frame = pd.DataFrame({k: (v.array if isinstance(v, pd.Series) else v) for k, v in cols.items()}, index=index)
        self.d = d = L(frame)
        lk = L({'f': [0.25, -1.0, 3.0], 'x': [0.5, -1.5, 2.0], 'k': [4, 1, 2], 'q': [True, False, True], 'w': ['ab', 'abc', 'a'], 'nk': [7, 5, 6], 'id': [1, 2, 3]}, index=[10, 20, 30])
        nx = L({'y': [1.25, -0.75], 't': ['ab', 'it is'], 'id': [2, 3]}, index=[5, 7])
        many = L({'who': np.concatenate([pick([1, 3, 2, 1, 3, 1, 0], size=7), r + 1 if N > 5 else r[:0]]), 'x': pick([1.5, -0.5, 2.0, 0.25, 4.0, -1.0, 9.0], size=7 + (N if N > 5 else 0)),
                  'k': pick([1, 2, 3, 4, 2, 1, 9], size=7 + (N if N > 5 else 0))}, index=None)
        few = L({'who': [1, 3, 2, 1, 3, 1, 0], 'x': [1.5, -0.5, 2.0, 0.25, 4.0, -1.0, 9.0], 'k': [1, 2, 3, 4, 2, 1, 9]}, index=[3, 3, 1, 2, 5, 6, 4])
        lazy = table in ('four', 'many')
        d.link_to(lk, 'lk', on_self='key', precompute=not lazy)
        lk.link_to(nx, 'nx', on_self='nk', precompute=lazy)
        d.link_to(many, 'ag', on_self='id', on_other='who', precompute=lazy)
        lk.link_to(few, 'ag', on_self='id', on_other='who')
        nx.link_to(few, 'ag', on_self='id', on_other='who')
        if N > 3:
            lk.link_to(d, 'back', on_other='key', precompute=lazy)
        self.tables = {'d': d, 'lk': lk, 'nx': nx, 'many': many, 'few': few}
        self.locals = {'ln': 2.5, 'la': pick([0.5, 2.0, -1.5, 3.0]), 'lb': pick([False, True, True]), 'li': pick([1, 3, 2]), 'lu': pick([1, 3, 2], dtype='i4'),
                       # of the same names as columns and links
                       'f': np.full(N, 1e6), 'm': -1e6, 's': 'junk', 'b': np.ones(N, dtype=bool), 'lk': 5.0, 'ag': np.zeros(N)}
        self.expected_locals = {k: v.copy() if hasattr(v, 'copy') else v for k, v in self.locals.items()}
        self.before = {k: pd.DataFrame(v).copy() for k, v in self.tables.items()}

        leaves = {k: v for k, v in self.locals.items() if k.startswith('l') and k != 'lk'}
        for k in frame:
            v = frame[k]
            leaves[k] = np.array(v.tolist(), dtype=object if k in ('s', 's2', 'c', 'c2') else None) if k in ('s', 's2', 'c', 'c2') else v.to_numpy(dtype='i8') if k == 'nul' else v.to_numpy()
            if leaves[k].dtype.kind == 'u':
                leaves[k] = leaves[k].astype('i8')
        hit = [{10: 0, 20: 1, 30: 2}.get(int(k), -1) for k in key]
        for k, fill, v in [('f', np.nan, [0.25, -1.0, 3.0]), ('x', np.nan, [0.5, -1.5, 2.0]), ('k', 0, [4, 1, 2]), ('q', False, [True, False, True]), ('w', '', ['ab', 'abc', 'a'])]:
            leaves['lk.' + k] = np.array([fill if p < 0 else v[p] for p in hit], dtype=object if k == 'w' else {'f': 'f8', 'x': 'f8', 'k': 'i8', 'q': bool}[k])
        far = [-1 if p < 0 else [1, 0, -1][p] for p in hit]
        leaves['lk.nx.y'] = np.array([np.nan if p < 0 else [1.25, -0.75][p] for p in far], dtype='f8')
        leaves['lk.nx.t'] = np.array(['' if p < 0 else ['ab', 'it is'][p] for p in far], dtype=object)
        self.leaves = leaves
        cols = lambda t: {'x': t['x'].to_numpy(), 'k': t['k'].to_numpy()}
        self.aggregations = {
            'ag': (many['who'].tolist(), cols(many), [int(x) for x in r + 1]), 'lk.ag': (few['who'].tolist(), cols(few), [p + 1 if p >= 0 else None for p in hit]),
            'lk.nx.ag': (few['who'].tolist(), cols(few), [p + 2 if p >= 0 else None for p in far]),
            'lk.back': (key.tolist(), {'f': leaves['f'], 'i': leaves['i']}, [k if p >= 0 else None for k, p in zip(key.tolist(), hit)])}

    def leaf(self, node):
        import ast
        import numpy as np
        from mc.checks.c07 import World as W7
        from mc.exprs import Skip, kind_of
        if isinstance(node, ast.Call):
            path, func = ast.unparse(node.func).rsplit('.', 1)
            if path == 'lk.back' and self.N <= 3:
                raise Skip('no such link')
            keys, cols, wanted = self.aggregations[path]
            arg = ast.unparse(node.args[0]) if node.args else '1'
            if func in ('mean', 'median', 'std', 'var') and not re.search(r'\b[xf]\b', arg) or '>' in arg and 'where' not in arg:
                raise Skip('the fill is open, see C16')
            kind, v = W7.aggregate(None, func, arg, keys, cols, wanted)
            return kind, v.ravel()
        text = ast.unparse(node)
        if text not in self.leaves:
            raise Skip(text)
        return kind_of(self.leaves[text]), self.leaves[text]

    def expected(self, text):
        import numpy as np
        from mc.exprs import Evaluator, Skip
        ev = Evaluator(self.leaf)
        kind, v = ev.run(text)
        if kind == 's':
            raise Skip('text')
        return kind, np.broadcast_to(np.asarray(v), (self.N,)), ev.may_reject

    def check_unchanged(self, what):
        import numpy as np
        import pandas as pd
        from mc.lib import Bad
        for k, before in self.before.items():
            now = pd.DataFrame(self.tables[k])
            if not before.equals(now) or list(before.columns) != list(now.columns) or not before.index.equals(now.index) or list(before.dtypes) != list(now.dtypes):
                raise Bad(f'{what}: table {k} was changed to {now}')
        if list(self.locals) != list(self.expected_locals):
            raise Bad(f'{what}: the supplied values are now {list(self.locals)}')
        for k, v in self.expected_locals.items():
            if not np.array_equal(v, self.locals[k]) or type(v) is not type(self.locals[k]):
                raise Bad(f'{what}: the supplied {k} was changed')


def compare(what, got, world, kind, want, low=False):
    import numpy as np
    import pandas as pd
    from mc.lib import Bad, close
    if not isinstance(got, pd.Series) or len(got) != world.N or not got.index.equals(world.d.index) or got.index.names != world.d.index.names:
        raise Bad(f'{what}: index {list(getattr(got, "index", []))[:20]}, expected that of the table')
    if (kind == 'b') != (got.dtype.kind == 'b') or got.dtype.kind not in 'bif':
        raise Bad(f'{what}: of type {got.dtype}, expected that of {kind!r}')
    v, w = got.to_numpy().astype('f8'), want.astype('f8')
    # Single precision of some columns. Differences of nearly equal values are looser
    tol = 2e-5 if low else 1e-11
    with np.errstate(all='ignore'):
        scale = np.max(np.abs(w[np.isfinite(w)]), initial=0)
    ok = close(v, w, rtol=tol * 10 if low else tol, atol=tol * (1 + min(scale, 1e3)) if low else 1e-12)
    if not ok.all():
        i = int(np.argmin(ok))
        raise Bad(f'{what}: row {i} is {v[i]!r}, expected {w[i]!r}; {int((~ok).sum())} of {len(ok)} rows differ; got {v[:12].tolist()}, expected {w[:12].tolist()}')


WORLDS = {}


def run_case(case, ctx):
    import numpy as np
    from mc.exprs import Skip
    from mc.lib import Bad
    if 'paths' in case:
        return paths(case, ctx)
    if 'misc' in case:
        ctx.trace()
        ctx.state(case)
        return MISC[case['misc']](World(case['table']), ctx)
    table = case['table']
    w = WORLDS.get(table) or WORLDS.setdefault(table, World(table))
    ctx.trace()
    single = {'f', 'f4'} if table in ('dup', 'multi', 'many') else {'f4'}
    for text in case['texts']:
        try:
            kind, want, may_reject = w.expected(text)
        except (Skip, KeyError):
            ctx.count('left out')
            continue
        except SyntaxError:
            ctx.count('not Python')
            continue
        ctx.step()
        ctx.state([text, table])
        what = f'{text!r} on {table}'
        low = bool(single & set(re.findall(r'[A-Za-z_]\w*', text)))
        if low and sensitive(w, text):
            ctx.count('left out')
            continue
        try:
            got = w.d.evaluate(text, local_dict=w.locals)
        except Exception as e:
            if may_reject:
                continue
            raise Bad(f'{what}: {type(e).__name__}: {e}')
        compare(what, got, w, kind, want, low)
        ctx.outcome(got.tolist()[:6])
    try:
        w.check_unchanged(case)
    except Bad:
        WORLDS.pop(table)
        raise


def paths(case, ctx):
    """Paths of several links, which all go somewhere in any order"""
    import numpy as np
    import pandas as pd
    from mc.lib import Bad
    from mc.paths import Graph, text
    graph = Graph(case['eager'])
    d = graph.tables['d']
    for one, other in case['paths']:
        e = f'{text(*one)} - 2 * {text(*other)}'
        want = graph.values(*one) - 2 * graph.values(*other)
        got = d.evaluate(e)
        ok = isinstance(got, pd.Series) and got.index.equals(d.index) and np.allclose(got, want, rtol=1e-12, atol=1e-12, equal_nan=True)
        if not ok:
            raise Bad(f'{e}: {list(got)}, expected {want.tolist()}')
        ctx.step()
        ctx.state(e)
        ctx.outcome(want.tolist())
    ctx.trace()


def sensitive(world, text):
    """Whether the rounding of single precision may make a large difference"""
    import numpy as np
    base = world.expected(text)[1].astype('f8')
    leaves = world.leaves
    try:
        for by in (1e-6, -1e-6):
            world.leaves = {k: v * (1 + by) if np.asarray(v).dtype.kind == 'f' else v for k, v in leaves.items()}
            other = world.expected(text)[1].astype('f8')
            with np.errstate(all='ignore'):
                same = (base == other) | (np.isnan(base) & np.isnan(other)) | (np.abs(base - other) <= 1e-4 * (1e-2 + np.abs(base)))
            if not same.all() or (np.abs(base[np.isfinite(base)]) > 1e30).any():
                return True
    finally:
        world.leaves = leaves
    return False


def reject(w, ctx):
    from mc.lib import expect_raise
    for text in REJECT:
        expect_raise(f'evaluate({text!r})', lambda: w.d.evaluate(text, local_dict=w.locals if 'ln' in text or 'la' in text else None))
        ctx.step()
    for text in ('ln', 'la + f', 'la'):
        expect_raise(f'{text} without supplied values', lambda: w.d.evaluate(text))
    w.check_unchanged('rejected texts')


def out(w, ctx):
    """Output columns receive the values"""
    import numpy as np
    import pandas as pd
    from mc.lib import Bad, expect_raise
    for text in ['m * 2', 'h + m', 'i + 1', 'm > 0', 'lk.x', 'ag.sum(x)', 'where(b, m, la)', 'ln', 'lk.nx.y * la', 'm', '-m', 'm + target']:
        kind, want, _ = w.expected(text.replace(' + target', ''))
        if text == 'ln' and w.N == 0:
            continue
        types = {'f': ['f8', 'f4'], 'i': ['i8', 'f8'], 'b': ['?']}[kind]
        for dtype in types:
            target = pd.Series(np.zeros(w.N, dtype=dtype), index=w.d.index)
            if 'target' in text:
                target[:] = 3
                local = {'target': target.to_numpy()}
                want = want + 3
            else:
                local = w.locals
            try:
                got = w.d.evaluate(text, local_dict=local, out=target)
            except Exception as e:
                raise Bad(f'evaluate({text!r}, out={dtype}): {type(e).__name__}: {e}')
            for x in (got, target):
                compare(f'evaluate({text!r}, out={dtype}) on {w.N} rows', x, w, 'f' if dtype[0] == 'f' else kind, want, dtype == 'f4')
            if target.dtype != np.dtype(dtype):
                raise Bad(f'{text}: out is now {target.dtype}')
            ctx.step()
            if 'target' in text:
                break
    whole = pd.Series(np.zeros(w.N, dtype='i8'), index=w.d.index)
    if w.N:
        expect_raise('float values to an integer column', lambda: w.d.evaluate('m * 2', out=whole))
        expect_raise('narrowing without casting', lambda: w.d.evaluate('m * 2', out=pd.Series(np.zeros(w.N, dtype='f4'), index=w.d.index), allow_casting=False))
    got = w.d.evaluate('m * 2', out=pd.Series(np.zeros(w.N), index=w.d.index), allow_casting=False)
    compare('without casting', got, w, 'f', w.expected('m * 2')[1])
    w.check_unchanged('evaluate() with out')


def series(w, ctx):
    """Values change between evaluations of the same text; supplied values of other types and shapes"""
    import numpy as np
    import pandas as pd
    from mc.lib import Bad
    d = w.d.copy(deep=True)
    for dtype in ('f8', 'i8', 'f4', 'i4', 'i2', 'u1', '?'):
        for k in range(3):
            v = ((np.arange(w.N) * 3 + k) % 5).astype(dtype)
            d['v'] = v
            a, b = (x.astype('i8') if x.dtype.kind in 'bu' else x for x in (v, d['m'].to_numpy()))
            got = d.evaluate('v * m + x', local_dict={'x': [1, 0.5, np.full(w.N, 2.0)][k]})
            compare(f'v as {dtype}', got, w, 'f', a * b + [1, 0.5, 2.0][k])
            ctx.step()
    for k, x in enumerate([np.float32(1.5), np.int64(3), 2, 0.5, np.arange(w.N), (np.arange(w.N) % 3).astype('i2'), np.arange(w.N)[::-1], np.arange(2 * w.N)[::2] / 4, np.arange(w.N) % 2 == 0,
                           np.array([2.0]), np.float64('nan')]):
        values = {'x': x}
        got = w.d.evaluate('where(m > 0.3, 1, 0) + x * m', local_dict=values)
        m = w.leaves['m']
        compare(f'supplied {x!r}'[:100], got, w, 'f', np.where(m > 0.3, 1, 0) + x * m)
        if values['x'] is not x:
            raise Bad('the supplied value was replaced')
        ctx.step()
    # numexpr itself can't evaluate bare text of no rows at all
    for text in ('s', 's2', 'c', 'c2', 'lk.w', 'lk.nx.t', '(s)') if w.N else ():
        got = w.d.evaluate(text)
        want = w.leaves[text.strip('()')].tolist()
        if list(got) != want or not all(type(x) is str for x in got) or not got.index.equals(w.d.index):
            raise Bad(f'{text} on {w.N} rows: {list(got)[:20]}, expected {want[:20]}')
        ctx.step()
    # Slices of the table have their own rows
    if w.N >= 4 and w.N < 10:
        part = w.d.iloc[::-2]
        at = list(range(w.N))[::-2]
        for text in ('m + lk.x', 'ag.sum(x) * i', 'lk.nx.y + f', 's == "ab"', 'c == "ab"', 'lk.w == "abc"'):
            kind, want, _ = w.expected(text)
            got = part.evaluate(text)
            half = type('W', (), {'N': len(at), 'd': part})
            compare(f'{text} on a slice', got, half, kind, want[at], True)
            ctx.step()
    w.check_unchanged('evaluations')


def names(w, ctx):
    """Odd names of columns; which of a column, a link and a supplied value is meant; non-text columns besides"""
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame as L
    from mc.lib import Bad, expect_raise
    odd = ['ld', 'self', 'new_expr', 'x', '_', '__', 'a1', 'E', 'e', 'pi', 'np', 'vector', 'column', 'T', 'index', 'values', 'size', 'NaNs', 'expr', 'link_name', 'é', 'OUT', 'local_dict', 'out']
    d = w.d.copy(deep=True)
    for k, x in enumerate(odd):
        d[x] = np.arange(w.N) + k * 1.5
    for k, x in enumerate(odd):
        try:
            got = d.evaluate(f'{x} * 2 + 1', local_dict={x: -1e9})
        except Exception as e:
            raise Bad(f'column {x}: {type(e).__name__}: {e}')
        compare(f'column {x}', got, w, 'f', (np.arange(w.N) + k * 1.5) * 2 + 1)
        ctx.step()
    got = d.evaluate('where(x > ld, self, np) + T', local_dict=None)
    at = {x: np.arange(w.N) + k * 1.5 for k, x in enumerate(odd)}
    compare('odd names', got, w, 'f', np.where(at['x'] > at['ld'], at['self'], at['np']) + at['T'])
    wide = L({f'x{j}': np.arange(w.N) * j for j in range(120)}, index=w.d.index)
    for j in (30, 36, 40):
        text = ' + '.join(f'x{k} * 2' for k in range(0, j)) if j < 32 else ' + '.join(f'x{k}' for k in range(j - 30, j))
        want = sum(np.arange(w.N) * k * 2 for k in range(0, j)) if j < 32 else sum(np.arange(w.N) * k for k in range(j - 30, j))
        compare('many columns', wide.evaluate(text), w, 'i', want)
        ctx.step()


def alike(w, ctx):
    """Any number of look-ups through links of similar names"""
    import numpy as np
    from cheval.ldf import LinkedDataFrame as L
    r = np.arange(w.N)
    if w.N == 0:
        return      # Nothing to aggregate
    for a, b in [('t', 't1'), ('t1', 't'), ('t_', 't'), ('t', 't_1'), ('t1', 't11')]:
        for i in (1, 2, 10, 11, 12):
            for j in (1, 2, 12):
                d = L(index=r)
                one = {f'c{k}': r * 1.5 + k for k in range(i)}
                two = {f'c{k}': r * -0.5 + 10 * k for k in range(j)}
                d.link_to(L(one, index=r), a)
                d.link_to(L({k: np.tile(v, 2) for k, v in two.items()}, index=np.tile(r, 2)), b)
                terms = [f'{k + 1} * {a}.c{k}' for k in range(i)] + [f'{k + 1} * {b}.max(c{k})' for k in range(j)]
                want = sum((k + 1) * v for k, v in enumerate(one.values())) + sum((k + 1) * v for k, v in enumerate(two.values()))
                if j % 2:
                    terms.reverse()
                half = type('W', (), {'N': w.N, 'd': d})
                compare(f'{i} look-ups of {a}, {j} of {b}', d.evaluate(' + '.join(terms)), half, 'f', want * 1.0)
                ctx.step()


MISC = {'reject': reject, 'out': out, 'series': series, 'names': names, 'alike': alike}
