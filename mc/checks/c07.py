"""C07: utility expressions mean what the written formula means."""
META = {
    'jit': False,
    'rule': 'A case is a batch of expression texts, each put alone into a model of 3 units x 3 alternatives and evaluated by a stochastic '
            'run; the per-alternative exponentials are compared with those of an independent evaluator of the text. Non-trivial: distinct '
            'tables of utilities (states are expressions, transitions are runs).',
    'bounds': {
        'quick': 'every leaf (39: numbers, vectors, tables and matrices of every type and orientation, links, aggregations, dictionaries, '
                 'special values), every unary operator and function on each, every pair of leaves with every operator, every '
                 'unparenthesised or parenthesised formula of 3 operands (2 operators of 13, optional unary operators, comparison '
                 'chains), every one of 4 operands, functions nested to depth 2, where() with every kind of condition; 47 kinds of '
                 'rejected syntax; tables of 3000 x 7 with 1, 2 and 8 threads; 1 to 12 look-ups of each of two tables of similar names (8 pairs of '
                 'names) in one expression',
        'thorough': 'as quick, with unary operators in formulas of 4 operands, 5 operands with 4 operators of 9, and every pair of leaves '
                    'in every formula of 3 operands',
    },
    'assumptions': ['constructs which the expression engine defines differently from Python on purpose are not generated: arithmetic '
                    'between two booleans, %, //, integers to negative powers, and/or/not of numbers, ordering of booleans'],
}

import itertools

FLOAT = ['n', 'v0', 'v1', 't0.f', 't1.f', 'm', 'mr', 't0.lk.x', 't0.lk.nx.y', 't0.ag.sum(x)', 't0.ag.max(-x)', 't0.ag.mean(x + 1)',
         't0.lk.back.sum(f)', '{A: 1.5, C: -2}', '{B: 2}', '1.5', '0.25', 'v0f4', 'vb0']
INT = ['i0', 'i1', 't0.i', 't1.i', 'mi', '2', '3', 't0.lk.k', 't0.ag.count(x)', 'i0u1']
BOOL = ['b0', 'b1', 't0.b', 't1.b', 'mb', 't0.lk.q']
TEXT = ['s0', 'c0', 't0.s', 't0.c', 't1.s', 't0.lk.w']
SPECIAL = ['NAN', 'None', 'nan', 'NaN', 'NEG_INF']
ARITH = ['+', '-', '*', '/', '**']
CMP = ['<', '<=', '>', '>=', '==', '!=']
LOGIC = ['and', 'or']
REJECT = ['1 if b0 else 2', 'v0 if b0 else v1', 'v0[0]', 't0["f"]', '[v0, 1]', '[x for x in v0]', '{x: 1 for x in v0}', '{A: v0}', '{A: n}',
          'lambda: 1', 'unknown(v0)', 'len(v0)', 'max(v0)', 'v0 is v1', 'v0 is not v1', 'v0 in v1', 'v0 not in v1',
          'v0 is None', 'i0 in (1, 2)', 'v0 @ v1', 'v0 @ A @ B', 'f"{v0}"', '(v0, v1)', '{1, 2}', '(yield)', '(v0 := 1)', 'v0 <', '',
          'v0 = 1', 't0.ag.sum(x, axis=1)', 't0.ag.sum(*x)', 't0.ag.sum(**x)', 't0.ag.apply(x)', 't0.ag.unknown(x)', 'v0 + {"A"}',
          '{A: "x"}', '{1: 2}', '{v0 + 1: 2}', '(v0).real(1)', 'where(*b0)', '{**n}', 'v0.f', 't0 + 1', 't0', 't0.f.x.y.z',
          'not', 'v0 v1', '{A: -n}', '{A: not 1}', 'v0 <> v1', '(t0.f + 1).sum(x)', 'abs(v0)(1)', '{A: 1, B: v0}', 'await v0', '+v0 if b0 else 1']


def exprs(tier):
    """All families of expressions, as a deterministic list"""
    out = []
    numeric = FLOAT + INT
    # 1. leaves, unary operators and functions
    from mc.exprs import FUNCS1, FUNCS2
    for x in numeric + BOOL + SPECIAL:
        out += [x, f'({x})', f'-{x}', f'- -{x}', f'1 - {x}', f'{x} - 1', f'2 * {x}', f'not {x}', f'not not {x}', f'-({x})', f'-{x} ** 2', f'2 ** -{x}']
        for f in FUNCS1:
            out += [f'{f}({x})', f'-{f}({x})', f'{f}(-{x})', f'1 + {f}({x} / 8) * 2']
        for y in numeric:
            for f in FUNCS2:
                out.append(f'{f}({x}, {y})')
    for x in BOOL + ['v0 > 1', 'not b0', 'v0 < v1 < m', 'b0 and t0.b', 's0 == "ab"']:
        for a, b in itertools.product(['v0', 't1.f', '2', '-m', 'where(b1, 1, v1)', 'i0', 'NEG_INF', '{A: 1}', 'b0', 'mb', '0', 't0.ag.sum(x)'], repeat=2):
            out.append(f'where({x}, {a}, {b})')
    # 2. pairs of leaves with every operator
    for a, b in itertools.product(numeric, repeat=2):
        out += [f'{a} {op} {b}' for op in ARITH + CMP]
    for a, b in itertools.product(numeric, BOOL):
        out += [f'{a} {op} {b}' for op in ARITH[:3]] + [f'{b} {op} {a}' for op in ARITH[:3]]
    for a, b in itertools.product(BOOL + ['v0 > 1', 'True', 'False'], repeat=2):
        out += [f'{a} {op} {b}' for op in LOGIC + ['==', '!=']]
        out += [f'not {a} {op} not {b}' for op in LOGIC] + [f'not ({a} {op} {b})' for op in LOGIC]
    for a, b in itertools.product(numeric[::3], SPECIAL):
        out += [f'{a} {op} {b}' for op in ['+', '-', '*', '<', '>', '==', '!=']] + [f'{b} {op} {a}' for op in ['+', '-', '<', '!=']]
    # 3. text
    for x in TEXT:
        for lit in ['a', 'ab', 'abc', 'b', '', ' ', 'zz', 'it is']:
            for q in '\'"':
                out += [f'{x} == {q}{lit}{q}', f'{x} != {q}{lit}{q}', f'{q}{lit}{q} == {x}', f'not {x} == {q}{lit}{q}',
                        f'({x} == {q}{lit}{q}) * v1', f'where({x} == {q}{lit}{q}, v0, m)', f'({x} == {q}{lit}{q}) and b0 or v0 > 1']
        for y in TEXT:
            out += [f'{x} == {y}', f'{x} != {y}', f'{x} == {y} == "ab"', f'({x} == "ab") == ({y} == "a")']
    # 4. formulas of several operands, with the precedence left to the parser
    num = [['v0', 't1.f', 'm'], ['2', 'i1', 'n'], ['t0.lk.x', 'v1', 'i0'], ['t0.ag.sum(x)', 'mi', '{A: 1.5, C: -2}']]
    boo = ['b0', 't1.b', 'mb']

    def operand(k, i, kind, which):
        base = num[which % len(num)][i % 3] if kind == 'n' else boo[(i + which) % 3]
        return {'': base, '-': f'-{base}', 'not': f'not {base}'}[k]
    ops = ARITH + CMP + LOGIC

    def kinds(combo):
        """Operands next to and/or on both sides are boolean; the others are numbers"""
        n = len(combo) + 1
        ks = []
        for i in range(n):
            left = combo[i - 1] if i > 0 else 'and'
            right = combo[i] if i < n - 1 else 'and'
            ks.append('b' if left in LOGIC and right in LOGIC else 'n')
        return ks
    thorough = tier == 'thorough'
    for combo in itertools.product(ops, repeat=2):
        for u in itertools.product(['', '-', 'not'], repeat=3):
            for which in range(4 if thorough else 2):
                for ks in {tuple(kinds(combo)), ('n', 'n', 'n')}:
                    a, b, c = (operand(u[i], i, ks[i], which) for i in range(3))
                    out += [f'{a} {combo[0]} {b} {combo[1]} {c}', f'({a} {combo[0]} {b}) {combo[1]} {c}', f'{a} {combo[0]} ({b} {combo[1]} {c})']
                    if u == ('', '', ''):
                        out += [f'-({a} {combo[0]} {b}) {combo[1]} {c}', f'not ({a} {combo[0]} {b}) {combo[1]} {c}',
                                f'{a} {combo[0]} -({b} {combo[1]} {c})', f'{a} {combo[0]} (not {b} {combo[1]} {c})',
                                f'not {a} {combo[0]} {b} {combo[1]} {c}', f'-({a} {combo[0]} {b} {combo[1]} {c})']
    for combo in itertools.product(ops, repeat=3):
        ks = kinds(combo)
        unaries = [('', '', '', '')] if not thorough else itertools.product(['', '-', 'not'], repeat=4)
        for u in unaries:
            a, b, c, d = (operand(u[i], i, ks[i], len(out) % 4) for i in range(4))
            o1, o2, o3 = combo
            out.append(f'{a} {o1} {b} {o2} {c} {o3} {d}')
            if u == ('', '', '', ''):
                out += [f'({a} {o1} {b}) {o2} ({c} {o3} {d})', f'{a} {o1} ({b} {o2} {c}) {o3} {d}',
                        f'{a} {o1} {b} {o2} ({c} {o3} {d})', f'{a} {o1} ({b} {o2} ({c} {o3} {d}))', f'where({a} {o1} {b}, {c} {o3} {d}, v0) {o2} 2']
    if thorough:
        small = ['+', '-', '/', '**', '<', '==', '>=', 'and', 'or']
        for combo in itertools.product(small, repeat=4):
            ks = kinds(combo)
            parts = [operand('', i, ks[i], len(out) % 4) for i in range(5)]
            out.append(' '.join(x for pair in itertools.zip_longest(parts, combo, fillvalue='') for x in pair).strip())
    # 5. comparison chains
    for n in (2, 3):
        for combo in itertools.product(CMP, repeat=n):
            for leaves in (['v0', 'v1', 'm', 't0.f'], ['-1', 'i0', '2', 't0.lk.k'], ['t0.ag.sum(x)', 'n', 'v0 + 1', '-m'])[:3 if n == 2 else 2]:
                parts = leaves[:n + 1]
                chain = ' '.join(x for pair in itertools.zip_longest(parts, combo, fillvalue='') for x in pair).strip()
                out += [chain, f'not {chain}', f'({chain}) * 2', f'where({chain}, v1, v0)', f'{chain} and b1', f'b0 or {chain}']
    # 6. nested functions
    fs = list(FUNCS1)
    for f, g in itertools.product(fs, repeat=2):
        out += [f'{f}({g}(v0 / 4))', f'-{f}(abs({g}(m / 4)) / 2) + t1.f']
        if thorough:
            out += [f'{f}(1 - {g}(h))'.replace('h', h) for h in ('v1 / 8', 't0.lk.x / 8', 'i0 * 0.1')]
    # 7. aggregations and links inside formulas
    for func, arg in itertools.product(['sum', 'max', 'min', 'mean', 'median', 'prod', 'first', 'last', 'count', 'std', 'var'],
                                       ['x', 'x * 2', '-x', 'x + k', 'k', 'where(x > 0, x, k)', 'x - 1', '1', 'x if 0 else x', 'k > 1']):
        if ' if ' in arg or (func == 'count' and arg == 'k > 1'):
            continue
        out += [f't0.ag.{func}({arg})', f'1 + t0.ag.{func}({arg}) * v1']
    out += ['t0.ag.sum()', 't0.ag.count()', 't0.ag.sum(x) / t0.ag.count(x)', 't0.ag.sum(x) + t0.ag.sum(k) - t0.ag.sum(x + k)',
            't0.lk.x + t0.lk.x', 't0.lk.x - t0.lk.k + t0.lk.nx.y', 't0.f * t0.i + t1.f * t1.i', '{A: 1} + {B: 2} * {C: 3} - {A: 4}',
            't0.ag.sum("x") * 2' if False else 't0.ag.sum(x) * 2', 't0.ag.max(x) - t0.ag.min(x)', 't0.lk.back.count(f)',
            't0.lk.back.sum(f + i)', 't0.f + t0.lk.x + t0.ag.sum(x) + v0 + v1 + m + n + i0 + {A: 1}']
    seen, uniq = set(), []
    for e in out:
        if e not in seen:
            seen.add(e)
            uniq.append(e)
    return uniq


def shards(tier):
    n = 48 if tier == 'quick' else 400
    return [{'part': i, 'of': n, 'tier': tier} for i in range(n)] + [{'reject': True}] + \
        [{'large': t, 'part': i} for t in (1, 2, 8) for i in range(2)] + [{'lookups': p} for p in range(4)] + [{'paths': [i, 2], 'most': 5} for i in range(2)]


# Tables whose names are alike
ALIKE = [('t', 't1'), ('t1', 't'), ('t', 't_1'), ('t_', 't'), ('t1', 't11'), ('a', 'aa'), ('sub_t', 't'), ('t', 'dict')]


def run(shard, ctx):
    if 'reject' in shard:
        for e in REJECT:
            ctx.do({'reject': e})
        return
    if 'paths' in shard:
        from mc.paths import all_paths
        some = [(p, g) for p in all_paths(shard['most']) for g in (False, True)]
        for i, one in enumerate(some):
            if i % shard['paths'][1] == shard['paths'][0]:
                ctx.do({'paths': [[one, some[(i * 7 + j * 11) % len(some)]] for j in range(3)], 'eager': i % 4 < 2})
        return
    if 'lookups' in shard:
        for pair in ALIKE[shard['lookups']::4]:
            for i in range(1, 13):
                for j in (0, 1, 2, 3, 11, 12):
                    ctx.do({'lookups': [pair[0]] * i + [pair[1]] * j})
                    ctx.do({'lookups': [pair[k % 2] for k in range(2 * min(i, j))] + [pair[0]] * max(i - j, 0)})
        return
    if 'large' in shard:
        es = [e for e in exprs('quick') if sum(map(ord, e)) % 97 == 0]
        for i in range(shard['part'], len(es), 64):
            ctx.do({'exprs': es[i:i + 32], 'size': [3000, 7], 'threads': shard['large']})
        return
    es = exprs(shard['tier'])[shard['part']::shard['of']]
    for i in range(0, len(es), 50):
        ctx.do({'exprs': es[i:i + 50], 'size': [3, 3], 'threads': 1})


class World:
    def __init__(self, n_units=3, n_alts=3):
        import numpy as np
        import pandas as pd
        import cheval
        N, M = n_units, n_alts
        m = cheval.ChoiceModel()
        alts = 'ABCDEFGHIJ'[:M]
        m.add_choices(list(alts))
        units = pd.Index([f'u{(i * 7) % N}' for i in range(N)]) if N <= 7 else pd.Index(range(100, 100 + N))
        m.decision_units = units
        r, c = np.arange(N), np.arange(M)

        def pick(vals, size, k=1):
            return np.array(vals)[(np.arange(size) * k) % len(vals)]
        data = {
            'n': 2.5, 'v0': pick([1.5, -0.5, 2.0, 0.75], N), 'v1': pick([0.5, 2.0, -1.5, 3.0], M), 'i0': pick([2, -1, 3, 1], N), 'i1': pick([1, 3, 2], M),
            'b0': pick([True, False, True, False], N), 'b1': pick([False, True, True], M), 'i0u1': pick([1, 3, 2], N).astype('u1'),
            'v0f4': pick([0.5, 1.5, -2.0], N).astype('f4'), 'vb0': pick([-2.0, 0.5, 1.25], N),
            's0': pick(['ab', 'a', 'abc', '', 'b'], N), 'c0': pick(['abc', 'ab', 'zz', 'a'], N)}
        full = {k: v for k, v in data.items()}
        table0 = pd.DataFrame({'f': pick([2.0, -1.0, 0.5, 1.0], N), 'i': pick([1, 2, 0], N), 'b': pick([False, True, True], N),
                               's': pick(['a', 'ab', 'it is'], N), 'key': pick([20, 99, 20, 30, 10], N), 'id': r + 1}, index=units)
        table0['c'] = pd.Categorical(pick(['ab', 'zz', 'abc'], N))
        table1 = pd.DataFrame({'f': pick([1.0, -2.5, 0.5], M), 'i': pick([3, 1, 2, 0], M), 'b': pick([True, False, True], M),
                               's': pick(['ab', 'b', 'a'], M)}, index=m.choices)
        other = pd.DataFrame({'x': [0.5, -1.5, 2.0], 'k': [4, 1, 2], 'q': [True, False, True], 'w': ['ab', 'abc', 'a'], 'nk': [7, 5, 6]},
                             index=[10, 20, 30])
        third = pd.DataFrame({'y': [1.25, -0.75]}, index=[5, 7])
        many = pd.DataFrame({'who': np.concatenate([pick([1, 3, 2, 1, 3, 1, 0], 7)] + ([r + 1] if N > 3 else [])),
                             'x': pick([1.5, -0.5, 2.0, 0.25, 4.0, -1.0, 9.0], 7 + (N if N > 3 else 0)),
                             'k': pick([1, 2, 3, 4, 2, 1, 9], 7 + (N if N > 3 else 0))})
        L = cheval.LinkedDataFrame
        lt0, lother = L(table0), L(other)
        lother.link_to(third, 'nx', on_self='nk')
        lt0.link_to(lother, 'lk', on_self='key')
        lt0.link_to(L(many), 'ag', on_self='id', on_other='who')
        lother.link_to(lt0, 'back', on_other='key')
        mat = np.outer(pick([1.0, 0.5, -1.0], N), pick([2.0, 1.0, -0.5], M)) + 0.25
        mats = {'m': mat, 'mr': mat + 1.0, 'mi': (np.add.outer(r, c) % 4 + 1), 'mb': (np.add.outer(r, 2 * c) % 3 == 0)}

        m.declare_number('n')
        m['n'].assign(2.5)
        for k, v in data.items():
            if k == 'n':
                continue
            o = 1 if k in ('v1', 'i1', 'b1') else 0
            m.declare_vector(k, o)
            if k == 's0':
                v = pd.Series(v.astype(object), index=units)
            elif k == 'c0':
                v = pd.Series(pd.Categorical(v), index=units)
            elif k in ('v0', 'b1'):
                v = pd.Series(v, index=m.choices if o else units)
            m[k].assign(v)
        m.declare_table('t0', 0)
        m['t0'].assign(lt0)
        m.declare_table('t1', 1)
        m['t1'].assign(table1)
        for k, v in mats.items():
            m.declare_matrix(k, orientation=1 if k == 'mr' else 0)
            df = pd.DataFrame(v, index=units, columns=m.choices)
            m[k].assign(df.T.copy() if k == 'mr' else df)
        self.m, self.alts, self.N, self.M = m, alts, N, M

        # Reference values of the leaves
        col, row = (lambda a: np.asarray(a).reshape(-1, 1)), (lambda a: np.asarray(a).reshape(1, -1))
        leaves = {'n': np.float64(2.5), **mats}
        for k, v in data.items():
            v = v.astype('i8') if k != 'n' and v.dtype.kind == 'u' else v
            if k != 'n':
                leaves[k] = row(v) if k in ('v1', 'i1', 'b1') else col(v)
        for k in table0:
            leaves['t0.' + k] = col(list(table0[k]) if k in ('s', 'c') else table0[k].to_numpy())
        for k in table1:
            leaves['t1.' + k] = row(table1[k].to_numpy())
        for k in ('s0', 'c0', 't0.s', 't0.c', 't1.s'):
            leaves[k] = leaves[k].astype(object)
        pos = {10: 0, 20: 1, 30: 2}
        hit = [pos.get(k, -1) for k in table0['key']]
        fill = {'x': np.nan, 'k': 0, 'q': False, 'w': ''}
        for k in 'xkqw':
            leaves['t0.lk.' + k] = col(np.array([other[k].tolist()[h] if h >= 0 else fill[k] for h in hit], dtype=object if k == 'w' else None))
        leaves['t0.lk.nx.y'] = col([{7: -0.75, 5: 1.25}.get(int(other['nk'].iloc[h]), np.nan) if h >= 0 else np.nan for h in hit])
        self.leaves, self.many, self.ids = leaves, many, list(table0['id'])
        self.backf, self.backi, self.keys, self.hit = list(table0['f']), list(table0['i']), list(table0['key']), hit

    def leaf(self, node):
        import ast
        import numpy as np
        from mc.exprs import Evaluator, Skip, kind_of
        if isinstance(node, ast.Dict):
            out = np.zeros((1, self.M))
            for k, v in zip(node.keys, node.values):
                out[0, self.alts.index(k.id)] = ast.literal_eval(v)
            return 'f', out
        if isinstance(node, ast.Call):
            path = ast.unparse(node.func)
            arg = ast.unparse(node.args[0]) if node.args else '1'
            if path.startswith('t0.ag.'):
                return self.aggregate(path.split('.')[-1], arg, self.many['who'].tolist(),
                                      {'x': self.many['x'].to_numpy(), 'k': self.many['k'].to_numpy()}, self.ids)
            if path.startswith('t0.lk.back.'):
                want = [k if h >= 0 else None for k, h in zip(self.keys, self.hit)]
                return self.aggregate(path.split('.')[-1], arg, self.keys, {'f': np.array(self.backf), 'i': np.array(self.backi)}, want)
            raise Skip(path)
        name = ast.unparse(node)
        if name not in self.leaves:
            raise Skip(name)
        v = self.leaves[name]
        return kind_of(v), v

    def aggregate(self, func, arg, keys, cols, wanted):
        import ast
        import numpy as np
        from mc.exprs import Evaluator, kind_of

        def leaf(node):
            v = cols[ast.unparse(node)]
            return kind_of(v), v
        k, v = Evaluator(leaf).run(arg)
        v = np.broadcast_to(v, (len(keys),))
        rows = {}
        for i, key in enumerate(keys):
            rows.setdefault(key, []).append(i)
        out = []
        fs = {'sum': np.sum, 'max': np.max, 'min': np.min, 'mean': np.mean, 'median': np.median, 'prod': np.prod,
              'first': lambda a: a[0], 'last': lambda a: a[-1], 'count': len, 'std': lambda a: np.std(a, ddof=1) if len(a) > 1 else np.nan,
              'var': lambda a: np.var(a, ddof=1) if len(a) > 1 else np.nan}
        integral = func == 'count' or (k in 'i' and func in ('sum', 'max', 'min', 'prod', 'first', 'last'))
        memo = {}
        for w in wanted:
            if w not in memo:
                if w is None or w not in rows:
                    memo[w] = -1.0 if integral else np.nan
                else:
                    a = v[rows[w]]
                    memo[w] = np.float64(fs[func](a.astype('f8') if func != 'count' else a))
            out.append(memo[w])
        return ('i' if integral else 'f'), np.array(out, dtype='i8' if integral else 'f8').reshape(-1, 1)


def utilities_of(world, text):
    """(ok, table) of the reference; ok is False where the engine has to report unusable utilities"""
    import numpy as np
    from mc.exprs import Evaluator
    ev = Evaluator(world.leaf)
    k, v = ev.run(text)
    if k == 's':
        from mc.exprs import Skip
        raise Skip('text')
    with np.errstate(all='ignore'):
        u = np.broadcast_to(np.asarray(v, dtype='f8'), (world.N, world.M))
        bad = np.isnan(u).any() or not np.isfinite(np.exp(u).sum(axis=1)).all()
    return (not bad), u, ev.may_reject


def lookups(case, ctx):
    """Every look-up of an expression is of its own table and column, no matter how many there are"""
    import numpy as np
    import pandas as pd
    import cheval
    from mc.lib import check_close
    names = case['lookups']
    if not names:
        return
    m = cheval.ChoiceModel()
    m.add_choices('AB')
    m.decision_units = pd.Index([5, 3])
    cols = {name: 0 for name in names}
    terms, want = [], np.zeros(2)
    tables = {name: {} for name in cols}
    for k, name in enumerate(names):
        c, cols[name] = cols[name], cols[name] + 1
        values = np.array([1.0 + k, 0.25 * k - 2.0])
        if c % 3 == 2:
            terms.append(f'{k % 4 - 1.5} * {name}.lk.sum(c{c})')
        else:
            terms.append(f'{k % 4 - 1.5} * {name}.c{c}')
        tables[name][f'c{c}'] = values
        want += (k % 4 - 1.5) * values
    for name, data in tables.items():
        t = cheval.LinkedDataFrame(data, index=m.decision_units)
        t.link_to(pd.concat([pd.DataFrame(data, index=m.decision_units) / 2] * 2), 'lk')
        m.declare_table(name, 0)
        m[name].assign(t)
    m.expressions.append('(' + ' + '.join(terms) + ') / 64')
    got = m.run_stochastic()[2].to_numpy()
    check_close(f'exponentials of {m.expressions.tolist()[0]!r}', got, np.exp(want / 64).reshape(-1, 1).repeat(2, axis=1), rtol=1e-11)
    ctx.step()
    ctx.trace()
    ctx.state(names)
    ctx.outcome(got.tolist())


def paths(case, ctx):
    """Paths of several links, which all go somewhere in any order"""
    import numpy as np
    import cheval
    from mc.lib import check_close
    from mc.paths import Graph, text
    graph = Graph(case['eager'])
    m = cheval.ChoiceModel()
    m.add_choices('AB')
    m.decision_units = graph.tables['d'].index
    m.declare_table('s', 0)
    m['s'].assign(graph.tables['d'])
    for one, other in case['paths']:
        # Unmatched rows are null, which is not equal to itself
        a, b = text(*one, prefix='s'), text(*other, prefix='s')
        e = f'where({a} == {a}, {a}, 3) / 32 - where({b} == {b}, {b}, 5) / 16'
        fill = lambda v, x: np.where(np.isnan(v), x, v)
        want = fill(graph.values(*one), 3) / 32 - fill(graph.values(*other), 5) / 16
        m.expressions.clear()
        m.expressions.append(e)
        got = m.run_stochastic(clear_scope=False, n_threads=1)[2].to_numpy()
        check_close(f'exponentials of {e}', got, np.exp(want).reshape(-1, 1).repeat(2, axis=1), rtol=1e-11)
        ctx.step()
        ctx.state(e)
        ctx.outcome(want.tolist())
    ctx.trace()


def run_case(case, ctx):
    import numpy as np
    if 'paths' in case:
        return paths(case, ctx)
    if 'lookups' in case:
        return lookups(case, ctx)
    from mc.lib import Bad, check_close, expect_raise
    from mc.exprs import Skip
    if 'reject' in case:
        w = World()

        def go():
            w.m.expressions.append(case['reject'])
            return w.m.run_stochastic(check_infeasible=False)[2].to_numpy()
        expect_raise(f"expression {case['reject']!r}", go)
        ctx.state(case['reject'])
        ctx.step()
        return
    w = World(*case['size'])
    ctx.trace()
    for text in case['exprs']:
        try:
            ok, u, may_reject = utilities_of(w, text)
        except Skip:
            ctx.count('left out')
            continue
        except SyntaxError:
            expect_raise(f'append of {text!r}', lambda: w.m.expressions.append(text))
            ctx.count('not Python')
            continue
        if ok and (np.abs(u[np.isfinite(u)]) > 600).any():
            ctx.count('left out')
            continue
        ctx.step()
        ctx.state(text)
        w.m.expressions.clear()
        at = f'expression {text!r}'
        try:
            w.m.expressions.append(text)
        except Exception as e:
            raise Bad(f'{at} was rejected: {type(e).__name__}: {e}')
        try:
            got = w.m.run_stochastic(clear_scope=False, check_infeasible=False, n_threads=case['threads'])[2].to_numpy()
        except Exception as e:
            if may_reject:
                continue
            if ok or type(e).__name__ != 'UtilityBoundsError':
                raise Bad(f'{at}: {type(e).__name__}: {e}' + ('' if ok else ' instead of the utility-bounds error'))
            ctx.outcome('bounds')
            continue
        if not ok:
            raise Bad(f'{at}: has unusable utilities {u.tolist()[:4]}, but the run returned exponentials {got.tolist()[:4]}')
        with np.errstate(all='ignore'):
            want, dev = np.exp(u), (1e-5 if 'v0f4' in text else 1e-11) * (1 + np.max(np.abs(u[np.isfinite(u)]), initial=0))
        check_close(f'exponentials of {at}', got, want, rtol=dev)
        ctx.outcome(got[:4].tolist())
