"""C23: text and category comparisons in expressions are exact."""
META = {
    'jit': False,
    'rule': 'Every column of up to 3 texts out of a vocabulary of prefixes, extensions, case and white space variants, long and missing texts, as text or as categories '
            '(every order of categories, unused ones, longer and shorter, and missing values), is compared for (in)equality with every literal of the vocabulary, in both orders of the operands, '
            'as a vector, as an attribute of a table, through links of 1 and 2 hops with unmatched rows and configured fills, and oriented to the alternatives; in utilities and on linked tables. '
            'The outcome is that of Python\'s == of the values. Numeric, boolean and nullable integer columns of every type keep their values. Non-trivial: distinct (values, representation, literal) triples.',
    'bounds': {
        'quick': '16 texts, every column of up to 2 of them and a quarter of those of 3, 17 literals, up to 14 representations each; 21 numeric types with their extreme values, with and without missing ones; 9000 rows',
        'thorough': 'every column of 3 texts and representation; columns of 4 texts out of 8',
    },
    'assumptions': ['text is ASCII without NUL characters', 'columns of the "string" type and arrays of unicode may be rejected, as are nullable booleans and floats',
                    'unsigned integers of 2**63 and more are not known to the expression engine'],
}

import itertools

TEXTS = ['', 'a', 'b', 'ab', 'aa', 'ba', 'abc', 'abd', 'A', 'a ', ' a', 'ab' * 20, 'ab' * 19 + 'a', "it's", 'say "x"', None]
LITERALS = [t for t in TEXTS if t is not None] + ['none of them', 'nan']
FORMS = ['{v} == {l}', '{l} == {v}', '{v} != {l}', '{l} != {v}']
NUMBERS = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4', 'f8', '?', 'Int8', 'Int16', 'Int32', 'Int64', 'UInt8', 'UInt16', 'UInt32', 'UInt64', 'cat of int', 'cat of float']


def columns(tier):
    out = [list(c) for n in (1, 2) for c in itertools.product(TEXTS, repeat=n)]
    three = [list(c) for c in itertools.permutations(TEXTS, 3)]
    out += three if tier == 'thorough' else three[::4]
    if tier == 'thorough':
        out += [list(c) for c in itertools.permutations(['', 'a', 'ab', 'abc', 'b', 'a ', 'ab' * 20, None], 4)]
    return out


def representations(values, i, tier):
    """Ways to store the same values: text, and categories in every order with unused ones"""
    used = sorted({v for v in values if v is not None})
    out = [['text', None], ['text', 'nan']] if None in values else [['text', None]]
    if i % 5 == 0:
        out.append(['string', None])
    orders = list(itertools.permutations(used))
    if tier == 'quick':
        orders = orders[:2] if len(used) < 3 else orders[i % 3::3]
    for j, order in enumerate(orders):
        spare = [x for x in ('unused, and a far longer text than any of the others', 'z', '', 'ab', 'a') if x not in used]
        for k, extra in enumerate(([], spare[:1], spare[1:2], spare[:3])):
            if tier == 'quick' and (i + j + k) % 2:
                continue
            cats = list(order)
            at = (i + j + k) % (len(cats) + 1)
            cats[at:at] = extra
            out.append(['cat' if (i + j) % 3 else 'ordered', cats])
    return out


def shards(tier):
    n = 48 if tier == 'quick' else 160
    return [{'part': [i, n], 'tier': tier} for i in range(n)] + [{'misc': 'numbers'}, {'misc': 'many'}, {'misc': 'formulas'}, {'misc': 'arrays'}]


def run(shard, ctx):
    if shard.get('misc') == 'numbers':
        for t in NUMBERS:
            ctx.do({'numbers': t})
        return
    if shard.get('misc') in ('many', 'formulas', 'arrays'):
        for i in range(4):
            ctx.do({'misc': shard['misc'], 'i': i})
        return
    k, n = shard['part']
    for i, values in enumerate(columns(shard['tier'])):
        if i % n == k:
            for j, r in enumerate(representations(values, i, shard['tier'])):
                where = [WHERE[(i + j) % 7]] if shard['tier'] == 'quick' else WHERE
                ctx.do({'values': values, 'as': r, 'where': ['table', 'link', *where]})


WHERE = ['vector', 'attribute', 'linked attribute', 'two hops', 'alternatives', 'alternatives table', 'linked attribute']


def series(values, how, index=None):
    import numpy as np
    import pandas as pd
    kind, arg = how
    if kind == 'text':
        return pd.Series(np.array([float('nan') if v is None and arg == 'nan' else v for v in values], dtype=object), index=index)
    if kind == 'string':
        return pd.Series(values, dtype='string', index=index)
    return pd.Series(pd.Categorical(values, categories=arg, ordered=kind == 'ordered'), index=index)


def texts():
    import json
    return [(f, l, json.dumps(l) if "'" in l or i % 2 else repr(l)) for i, l in enumerate(LITERALS) for f in FORMS]


def truth(form, value, literal):
    same = ('' if value is None else value) == literal
    return same if '==' in form else not same


def verify(case, where, got, values, ctx):
    """got: rows of outcomes, for each of the texts()"""
    from mc.lib import Bad
    for k, (form, literal, source) in enumerate(texts()):
        want = [truth(form, v, literal) for v in values]
        if [bool(x) for x in got[k]] != want:
            raise Bad(f'{case} as {where}: {form.format(v="column", l=source)} is {[bool(x) for x in got[k]]} for {values}')
    if ctx.state([values, case['as'], where]):
        ctx.outcome([values, where])
    ctx.step(len(got))
    ctx.trace()


MODELS = {}


def model(where, n):
    """Models of n rows with an alternative for each of the comparisons, which are reused for other columns"""
    import numpy as np
    import pandas as pd
    import cheval
    if (where, n) in MODELS:
        return MODELS[where, n]
    m = cheval.ChoiceModel()
    alts = where.startswith('alternatives')
    all_texts = texts()
    name = {'vector': 'v', 'attribute': 't.s', 'linked attribute': 't.lk.s', 'two hops': 't.mid.lk.s', 'alternatives': 'v', 'alternatives table': 't.s'}[where]
    if alts:
        # One unit per comparison, which is picked by a vector
        rows = [f'r{i}' for i in range(n)]
        m.add_choices(rows + ['base'])
        m.decision_units = pd.RangeIndex(len(all_texts))
    else:
        m.add_choices([f'k{i}' for i in range(len(all_texts))] + ['base'])
        m.decision_units = pd.RangeIndex(n)
    (m.declare_vector('v', 1 if alts else 0) if name == 'v' else m.declare_table('t', 1 if alts else 0))
    if alts:
        m.declare_vector('sel', 0)
        m['sel'].assign(np.arange(len(all_texts)))
    for k, (form, _, source) in enumerate(all_texts):
        e = '(' + form.format(v=name, l=source) + ')'
        m.expressions.append(f'where({e} & (sel == {k}), 1.0, 0.0)' if alts else e + ' * {k%d: 1}' % k)
    MODELS[where, n] = m
    return m


def outcomes(m, alts, n):
    import numpy as np
    p, _, _ = m.run_stochastic(clear_scope=False)
    p = p.to_numpy()
    got = np.log(p[:, :-1] / p[:, -1:])
    if alts:
        # The text of the last alternative is none of the literals
        got = got + np.array([[0.0 if '==' in f else 1.0] for f, _, _ in texts()])
    else:
        got = got.T
    if not (np.abs(got - np.round(got)) < 1e-9).all() or np.round(got).max() > 1 or np.round(got).min() < 0:
        from mc.lib import Bad
        raise Bad(f'comparisons are neither true nor false: {got.tolist()}')
    return np.round(got).astype(bool)


def run_case(case, ctx):
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame as L
    if 'numbers' in case:
        return numbers(case, ctx)
    if 'misc' in case:
        return {'many': many, 'formulas': formulas, 'arrays': arrays}[case['misc']](case, ctx)
    values, how = case['values'], case['as']
    n = len(values)
    for where in case['where']:
        try:
            if where == 'table':
                d = L({'x': series(values, how).array, 'n': np.arange(n)})
                got = [d.evaluate(f.format(v='x', l=s)).tolist() for f, _, s in texts()]
                verify(case, where, got, values, ctx)
            elif where == 'link':
                end = L({'s': series(values, how).array}, index=np.arange(n))
                fill = ''
                if how[1] is not None and how[0] != 'text':
                    fill = None if sum(map(len, how[1])) % 2 else how[1][-1]
                    if fill is not None:
                        end.set_column_fill('s', fill)
                elif n % 2:
                    fill = 'ab'
                    end.set_fill_defaults(TEXT_NAME=fill)
                keys = [n - 1, 99, 0, 99]
                d = L({'k': keys})
                d.link_to(end, 'lk', on_self='k', precompute=n == 2)
                got = [d.evaluate(f.format(v='lk.s', l=s)).tolist() for f, _, s in texts()[::3]]
                want = [fill if k == 99 else values[k] for k in keys]
                full = [[truth(f, v, l) for v in want] for f, l, _ in texts()]
                full[::3] = got
                verify(case, f'{where} filled with {fill!r}', full, want, ctx)
            else:
                alts = where.startswith('alternatives')
                m = model(where, n)
                if alts:
                    data = series([*values, 'other'], [how[0], how[1] + ['other'] if how[1] is not None and 'text' not in how else how[1]], index=m.choices)
                else:
                    data = series(values, how, index=m.decision_units)
                if where in ('vector', 'alternatives'):
                    m['v'].assign(data)
                elif where in ('attribute', 'alternatives table'):
                    m['t'].assign(pd.DataFrame({'s': data}))
                else:
                    end = L({'s': data.array[::-1]}, index=np.arange(n)[::-1] + 5)
                    t = L({'k': np.arange(n) + 5}, index=m.decision_units)
                    if where == 'two hops':
                        mid = L({'k': np.arange(n) + 5}, index=np.arange(n) + 5)
                        mid.link_to(end, 'lk', on_self='k')
                        t.link_to(mid, 'mid', on_self='k')
                    else:
                        t.link_to(end, 'lk', on_self='k')
                    m['t'].assign(t)
                got = outcomes(m, alts, n)
                if alts:
                    got = got[:, :n]
                verify(case, where, got.tolist(), values, ctx)
        except TypeError as e:
            if how[0] == 'string' and "as a data type" in str(e):
                ctx.count('string types')
                continue
            raise


def many(case, ctx):
    """Many rows, of which few or the last one are longer, shorter, missing or in other categories"""
    from mc.lib import Bad
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame as L
    n = 9000
    for base, odd in itertools.product(['ab', 'abc', ''], ['a', 'ab' * 20, 'abcd', None, 'b']):
        for at in ([n - 1], [0], [4096, 8191], list(range(0, n, 977))):
            values = [base] * n
            for k in at:
                values[k] = odd
            hows = [['text', None], ['cat', [base, odd] if odd else [base]], ['cat', [odd, 'unused text', base] if odd else ['unused', base]]]
            s = series(values, hows[case['i'] % 3])
            d = L({'x': s.array})
            for lit in ('ab', 'a', 'abc', 'ab' * 20, ''):
                ctx.step()
                got = d.evaluate(f'x == {lit!r}').to_numpy()
                want = np.array([('' if v is None else v) == lit for v in values])
                if not (got == want).all():
                    raise Bad(f'{base!r} with {odd!r} at {at[:5]} == {lit!r}: wrong at rows {np.nonzero(got != want)[0][:10]}')
                ctx.state([base, odd, at[:3], lit, case['i'] % 3])
                ctx.outcome([int(got.sum())])
            ctx.trace()


def formulas(case, ctx):
    """Comparisons inside of formulas, of several columns of different widths and categories"""
    from mc.lib import Bad
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame as L
    vs = ['a', 'ab', 'abc', '', 'b', 'ab']
    kinds = [['text', None], ['cat', ['abc', 'unused', 'b', 'ab', 'a', '']], ['cat', ['', 'a', 'ab', 'abc', 'b']], ['ordered', ['b', 'abc', 'ab', '', 'a', 'zzzzzz']]]
    for ka, kb, shift in itertools.product(kinds, kinds, range(4)):
        A, B = vs, vs[shift:] + vs[:shift]
        d = L({'x': series(A, ka).array, 'y': series(B, kb).array, 'f': np.arange(6) * 0.5})
        for la, lb in itertools.product(['ab', 'a', 'abc', ''], ['ab', 'b', 'abcd', '']):
            for text, fn in ((f'(x == {la!r}) & (y == {lb!r})', lambda a, b, f: a == la and b == lb), (f'(x == {la!r}) | (y != {lb!r})', lambda a, b, f: a == la or b != lb),
                             (f'where(x == {la!r}, f, -1) + where({lb!r} == y, 1, f)', lambda a, b, f: (f if a == la else -1) + (1 if b == lb else f)),
                             (f'(x != {la!r}) * 2 - f * (y == {lb!r})', lambda a, b, f: (a != la) * 2 - f * (b == lb)), (f'not (x == {la!r})', lambda a, b, f: a != la),
                             (f'(x == {la!r}) == (y == {lb!r})', lambda a, b, f: (a == la) == (b == lb)),
                             ('x == y', lambda a, b, f: a == b), ('x != y', lambda a, b, f: a != b)):
                ctx.step()
                try:
                    got = d.evaluate(text).tolist()
                except NotImplementedError:
                    ctx.count('rejected')      # No comparison of outcomes by the engine
                    continue
                want = [fn(a, b, 0.5 * i) for i, (a, b) in enumerate(zip(A, B))]
                if got != want:
                    raise Bad(f'{text} on {A} as {ka} and {B} as {kb}: {got}, expected {want}')
                ctx.state([text, ka, kb, shift])
                ctx.outcome(got)


def arrays(case, ctx):
    """Arrays of bytes of any width as vectors; of unicode and objects they may be rejected"""
    from mc.lib import Bad
    import numpy as np
    for values in itertools.permutations(['', 'a', 'ab', 'abc', 'ab' * 20], 2):
        for width in (0, 1, 7):
            for dtype in 'SUO':
                x = np.array(values)
                x = np.array(values, dtype=object) if dtype == 'O' else x.astype(f'{dtype}{max(x.dtype.itemsize // 4 + width, 1)}')
                m = model('vector', 2)
                m['v'].assign(x)
                try:
                    got = outcomes(m, False, 2)
                except ValueError as e:
                    if dtype == 'S':
                        raise
                    ctx.count('rejected arrays')
                    continue
                verify({'values': list(values), 'as': [dtype, width]}, 'array', got.tolist(), list(values), ctx)


def numbers(case, ctx):
    from mc.lib import Bad
    import numpy as np
    import pandas as pd
    from cheval.ldf import LinkedDataFrame as L
    t = case['numbers']
    base = t.lower().replace('uint', 'u').replace('int', 'i')
    if t in ('f2', 'f4', 'f8'):
        pool = [0.0, 1.5, -2.25, 0.1, float('inf'), 1e-5, float('nan')]
    elif t == '?':
        pool = [True, False]
    elif t.startswith('cat'):
        pool = [3, -1, 7, 2 ** 40] if 'int' in t else [0.5, -1.25, 3.0]
    else:
        bits = int(t.lower().replace('uint', '').replace('int', '')) if len(t) > 2 else int(t[1]) * 8
        signed = t[0] in 'iI'
        hi = 2 ** (bits - 1) - 1 if signed or bits == 64 else 2 ** bits - 1
        pool = [0, 1, hi, hi // 2 + 1] + ([-1, -hi - 1] if signed else [])
    for n in (1, 2, 3):
        for values in itertools.product(pool, repeat=n):
            for missing in ([None] + list(range(n)) if t[0] in 'IU' else [None]):
                if t.startswith('cat'):
                    s = pd.Series(pd.Categorical(values))
                elif t[0] in 'IU':
                    s = pd.Series([None if i == missing else v for i, v in enumerate(values)], dtype=t)
                else:
                    s = pd.Series(np.array(values, dtype=t))
                data = [float('nan') if i == missing else v.item() if hasattr(v, 'item') else v for i, v in enumerate(np.array(values, dtype=t) if t[0] in 'f' else values)]
                if missing is not None:
                    data = [float(v) for v in data]
                d = L({'x': s.array, 'one': np.ones(n)})
                end = L({'x': s.array}, index=np.arange(n))
                src = L({'k': list(range(n))})
                src.link_to(end, 'lk', on_self='k')
                ctx.step(4)
                for what, got, want in (('x', d.evaluate('x'), data), ('lk.x', src.evaluate('lk.x'), data), ('where(one > 0, x, 0)', d.evaluate('where(one > 0, x, x)'), data),
                                        ('x == x', d.evaluate('x == x'), [v == v for v in data])):
                    got = got.tolist()
                    if not all(a == b and (isinstance(a, bool) == isinstance(b, bool)) or a != a and b != b for a, b in zip(got, want)):
                        raise Bad(f'{what} of {t} {data}: {got}')
                if ctx.state([t, repr(data)]):
                    ctx.outcome(repr(data))
                ctx.trace()
                # As a vector and as an attribute of a model, of the values which can be exponentiated
                if all(v == v and abs(v) < 100 for v in data):
                    for where in ('vector', 'table', 'alternatives'):
                        got = utilities(where, s, n)
                        if not all(abs(a - b) <= 1e-9 * max(1, abs(b)) for a, b in zip(got, data)):
                            raise Bad(f'{t} {data} as {where}: {got}')


def utilities(where, s, n):
    import numpy as np
    import pandas as pd
    import cheval
    m = cheval.ChoiceModel()
    if where == 'alternatives':
        m.add_choices([f'r{i}' for i in range(n)] + ['base'])
        m.decision_units = pd.RangeIndex(1)
        m.declare_vector('v', 1)
        s = pd.Series(pd.concat([s, s.iloc[:1]]).array, index=m.choices)
        m['v'].assign(s)
        m.expressions.append('v - {base: %r}' % float(s.iloc[-1]))
    else:
        m.add_choices(['A', 'base'])
        m.decision_units = pd.RangeIndex(n)
        if where == 'vector':
            m.declare_vector('v', 0)
            m['v'].assign(s)
        else:
            m.declare_table('t', 0)
            m['t'].assign(pd.DataFrame({'v': s.array}))
        m.expressions.append(('v' if where == 'vector' else 't.v') + ' * {A: 1}')
    p = m.run_stochastic()[0].to_numpy()
    got = np.log(p[:, :-1] / p[:, -1:])
    return got.ravel().tolist()
