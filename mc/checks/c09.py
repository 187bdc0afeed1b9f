"""C09: assigned data is matched to units and alternatives by label."""
META = {
    'jit': False,
    'rule': 'A case is a kind of unit labels, a set of alternatives, an orientation, expansion flags, a fill value and a data type; every '
            'ordered subset of row labels with every ordered subset of column labels is assigned (after another, good matrix), and the '
            'utilities are compared with a placement cell by cell. Vectors and tables get every ordered subset too. Histories: every '
            'sequence of good and bad assignments to one variable. Non-trivial: distinct utility tables or rejections.',
    'bounds': {
        'quick': '3 units x 3 alternatives, flat and nested (2 and 3 levels): 15 x 15 ordered label subsets, each also with unknown labels, '
                 'x 2 orientations x 3 fills for 2 kinds of unit labels (a quarter of them for each of 6 other kinds of labels and 3 other settings of '
                 'the flags) x 4 data types; assignment histories of length 3 of 16 '
                 'operations per kind of variable; 1200 x 40 permuted',
        'thorough': 'as quick, with 4 units x 4 alternatives (64 x 64 ordered subsets) and histories of length 4',
    },
    'assumptions': ['matrices with repeated labels are not generated; a permutation of all labels without permission to expand may be '
                    'rejected or placed; with orientation 1 it is open which flag is which if only one is set'],
}

import itertools

INDEXES = ['str', 'int', 'range', 'multi', 'float', 'date', 'intstr', 'cat']


def ordered_subsets(n):
    return [list(p) for k in range(0, n + 1) for p in itertools.permutations(range(n), k)]


def shards(tier):
    cases = []
    for i, index in enumerate(INDEXES):
        for alts in ('flat', 'nest2', 'nest3'):
            for orient in (0, 1):
                for rr, rc in itertools.product((True, False), repeat=2):
                    for j, fill in enumerate((0, 7.5, '-inf')):
                        dtype = ['f8', 'f4', 'i8', '?'][(i + j + orient) % 4]
                        if fill != 0 and dtype in ('i8', '?'):
                            dtype = 'f8'
                        if (not rr or not rc) and (j or (alts != 'flat' and i % 2)):
                            continue
                        cases.append({'kind': 'matrix', 'index': index, 'alts': alts, 'orient': orient, 'rows': rr, 'cols': rc, 'fill': fill,
                                      'dtype': dtype, 'n': 3})
        for alts in ('flat', 'nest2', 'nest3'):
            for orient in (0, 1):
                cases.append({'kind': 'vector', 'index': index, 'alts': alts, 'orient': orient})
                cases.append({'kind': 'table', 'index': index, 'alts': alts, 'orient': orient})
    if tier == 'thorough':
        for index in INDEXES[:5]:
            for orient in (0, 1):
                for rr, rc in itertools.product((True, False), repeat=2):
                    cases.append({'kind': 'matrix', 'index': index, 'alts': 'flat', 'orient': orient, 'rows': rr, 'cols': rc, 'fill': 2.0, 'dtype': 'f8', 'n': 4})
    for kind in ('matrix', 'vector', 'table', 'number'):
        for orient in (0, 1):
            if kind == 'number' and orient:
                continue
            for first in range(16):
                cases.append({'kind': 'history', 'symbol': kind, 'orient': orient, 'first': first, 'depth': 3 if tier == 'quick' else 4})
    for perm in range(6):
        for orient in (0, 1):
            cases.append({'kind': 'large', 'perm': perm, 'orient': orient})
    cases.append({'kind': 'dup'})
    cases.append({'kind': 'declare'})
    n = 48
    return [{'cases': cases[i::n]} for i in range(n)]


def run(shard, ctx):
    for case in shard['cases']:
        ctx.do(case)


def labels(kind, n):
    import pandas as pd
    if kind == 'str':
        return pd.Index([f'h{(i * 5) % 7}' for i in range(n)])
    if kind == 'int':
        return pd.Index([(i * 37 + 5) % 101 for i in range(n)])
    if kind == 'range':
        return pd.RangeIndex(n)
    if kind == 'multi':
        return pd.MultiIndex.from_tuples([(i // 2, 'ba'[i % 2]) for i in range(n)], names=['o', 'd'])
    if kind == 'float':
        return pd.Index([2.5 - i for i in range(n)])
    if kind == 'date':
        return pd.DatetimeIndex(pd.date_range('2021-03-01', periods=n)[::-1])
    if kind == 'intstr':
        return pd.Index([str(10 - i) for i in range(n)], name='unit')
    return pd.CategoricalIndex([f'c{9 - i}' for i in range(n)])


def unknown(kind, i=0):
    import pandas as pd
    return {'str': 'zz', 'int': 9999, 'range': 77, 'multi': (9, 'zz'), 'float': -99.5, 'date': pd.Timestamp('1999-01-01'), 'intstr': '77',
            'cat': 'zz'}[kind]


def make_model(index, alts, n):
    import cheval
    m = cheval.ChoiceModel()
    if alts == 'flat':
        m.add_choices(['walk', 'auto', 'bus', 'cab'][:n])
    elif alts == 'nest2':
        pt = m.add_choice('pt')
        pt.add_choice('bus')
        pt.add_choice('rail')
        m.add_choice('auto')
    else:
        a = m.add_choice('b')
        b = a.add_choice('x')
        b.add_choice('y')
        b.add_choice('a')
        a.add_choice('c')
        m.add_choice('a')
    m.decision_units = index
    return m


def select(index, which):
    """Labels at the given positions; -1 is a label that does not exist"""
    import pandas as pd
    out = index.take([w for w in which if w >= 0])
    return out


def utilities(m, text='m'):
    """Utility of every node, and -inf where the nodes below are not available either"""
    import numpy as np
    m.expressions.clear()
    m.expressions.append(text)
    ls = m.run_stochastic(clear_scope=False, check_infeasible=False)[2].to_numpy().astype('f8')
    # Full names; below the top level, the label of a node itself is padded with '.'
    nodes = ['.'.join(x for x in c if x != '.') if isinstance(c, tuple) else c for c in m.choices]
    with np.errstate(all='ignore'):
        u = np.log(ls)
        for i, p in enumerate(nodes):
            kids = [j for j, q in enumerate(nodes) if q.rsplit('.', 1)[0] == p and '.' in q]
            if kids:
                u[:, i] -= np.log(ls[:, kids].sum(axis=1))
    return u


def same(got, want):
    import numpy as np
    with np.errstate(all='ignore'):
        return (got == want) | (np.abs(got - want) < 1e-5) | np.isnan(got)   # a nest above unavailable nodes cannot be observed


def compare(what, got, want):
    import numpy as np
    from mc.lib import Bad
    ok = same(got, want)
    if not ok.all():
        r, c = (int(i) for i in np.argwhere(~ok)[0])
        raise Bad(f'{what}: utility of unit {r}, alternative {c} is {got[r, c]!r}, expected {want[r, c]!r}\n got {got.tolist()}\nwant {want.tolist()}'[:1500])


def rejected(fn):
    try:
        fn()
    except Exception as e:
        return e
    return None


def run_case(case, ctx):
    return globals()['case_' + case['kind']](case, ctx)


def case_matrix(case, ctx):
    import numpy as np
    import pandas as pd
    from mc.lib import Bad
    n = case['n']
    units = labels(case['index'], n)
    m = make_model(units, case['alts'], n)
    alts = m.choices
    M = len(alts)
    fill = float(case['fill'])
    base_r, base_c = np.arange(n), np.arange(M)
    cells = np.add.outer(base_r * 10.0 + 1, base_c) / 8
    if case['dtype'] == 'i8':
        cells = np.add.outer(base_r * 2, base_c) + 1.0
    if case['dtype'] == '?':
        cells = (np.add.outer(base_r * 3, base_c * 5) % 4 < 2).astype('f8')
    rows = ordered_subsets(n)
    cols = ordered_subsets(M) if M <= n else [list(s) for s in ordered_subsets(M) if len(s) in (0, 1, M) or (len(s) == 2 and M < 5)][:60] + \
        [list(p) for p in itertools.islice(itertools.permutations(range(M)), 0, None, 7)] + [list(range(M))]
    cols = [c for i, c in enumerate(cols) if c not in cols[:i]]
    full_r, full_c = list(range(n)), list(range(M))
    for ri, rs in enumerate(rows):
        for ci, cs in enumerate(cols):
            if len(rs) == 0 or len(cs) == 0:
                continue
            if n == 3 and (case['index'] not in ('str', 'multi') or not (case['rows'] and case['cols'])) and (ri + 2 * ci) % 4:
                continue    # The other kinds of labels share the work
            for bad in ((None,) if (ri + ci) % 11 else (None, 'row', 'col')):
                values = cells[np.ix_(rs, cs)].astype(case['dtype'])
                index, columns = units.take(rs), alts.take(cs)
                if case['index'] == 'cat':
                    index = pd.Index(list(index)) if (ri + ci) % 2 else index
                if bad == 'row':
                    at = (ri + ci) % len(rs)
                    index = list(index)
                    index[at] = unknown(case['index'])
                    index = pd.MultiIndex.from_tuples(index) if case['index'] == 'multi' else pd.Index(index)
                elif bad == 'col':
                    at = (ri + ci) % len(cs)
                    columns = list(columns)
                    columns[at] = 'zz' if case['alts'] == 'flat' else tuple(['zz'] + ['.'] * (alts.nlevels - 1))
                    columns = pd.MultiIndex.from_tuples(columns) if alts.nlevels > 1 else pd.Index(columns)
                order = 'F' if (ri + ci) % 2 else 'C'
                frame = pd.DataFrame(np.array(values, order=order), index=index, columns=columns)
                if (ri + ci) % 3 == 0:      # several blocks
                    frame = pd.concat([frame.iloc[:, :1], frame.iloc[:, 1:]], axis=1)
                if case['orient']:
                    frame = frame.T
                m.declare_matrix('m', orientation=case['orient'], reindex_cols=case['cols'], reindex_rows=case['rows'], fill_value=fill if case['fill'] != 0 else 0)
                good = pd.DataFrame(cells[::-1, ::-1].copy() + 3, index=units, columns=alts)
                m['m'].assign(good.T.copy() if case['orient'] else good)
                problem = rejected(lambda: m['m'].assign(frame))
                ctx.step()
                ctx.state([case['index'], case['alts'], case['orient'], rs, cs, bad])
                what = f"{case} rows {rs} columns {cs} unknown {bad}"
                r_exact, c_exact = rs == full_r, cs == full_c
                r_need, c_need = len(rs) < n, len(cs) < M
                if bad:
                    must = False
                else:
                    flags = {(case['rows'], case['cols'])}
                    if case['orient']:
                        flags.add((case['cols'], case['rows']))
                    verdict = set()
                    for fr, fc in flags:
                        if (r_need and not fr) or (c_need and not fc):
                            verdict.add(False)
                        elif (not r_exact and not fr) or (not c_exact and not fc):
                            verdict |= {False, True}
                        else:
                            verdict.add(True)
                    must = verdict.pop() if len(verdict) == 1 else None
                if must is True and problem is not None:
                    raise Bad(f'{what}: rejected with {type(problem).__name__}: {problem}')
                if must is False and problem is None:
                    raise Bad(f'{what}: accepted, utilities are {utilities(m).tolist()}')
                want = cells[::-1, ::-1] + 3
                if problem is None:
                    want = np.full((n, M), fill)
                    want[np.ix_(rs, cs)] = cells[np.ix_(rs, cs)]
                got = utilities(m)
                ctx.outcome(str(np.round(got, 3).tolist()) + str(problem is None))
                compare(what + ('' if problem is None else ' (rejected, so the former matrix stays)'), got, want)
    ctx.trace()


def wrong_indexes(index, kind):
    """Every other order and subset of the labels, and supersets"""
    import pandas as pd
    n = len(index)
    out = [index.take(s) for s in ordered_subsets(min(n, 4)) if s != list(range(n))]
    if n > 4:
        out += [index[::-1], index[1:], index[:-1], index.take([1, 0] + list(range(2, n)))]
    try:
        out.append(index.append(index[:1]))
    except Exception:
        pass
    if index.nlevels == 1:
        out += [pd.Index(['zz'] * n), pd.RangeIndex(1000, 1000 + n)]
    return out


def case_vector(case, ctx):
    import numpy as np
    import pandas as pd
    from mc.lib import Bad
    units = labels(case['index'], 3)
    m = make_model(units, case['alts'], 3)
    o = case['orient']
    index = m.choices if o else units
    n, N, M = len(index), len(units), len(m.choices)
    vals = np.arange(n) * 1.5 - 1

    def want(v):
        v = np.asarray(v, dtype='f8')
        return np.broadcast_to(v[None, :] if o else v[:, None], (N, M))
    datas = [pd.Series(vals, index=index), vals.copy(), vals.astype('f4'), (np.arange(n) + 2), (np.arange(n) + 2).astype('i4'), np.arange(n) % 2 == 0,
             np.arange(2 * n, dtype='f8')[::2], np.arange(n, dtype='f8')[::-1], np.asfortranarray(np.outer(vals, [1.0, 2.0]))[:, 1],
             pd.Series(vals.astype('f4'), index=index.copy()), pd.Series(np.arange(n) + 1, index=index, name='q'),
             pd.Series([True, False, True, True, False, True][:n], index=index), pd.Series(pd.array(np.arange(n), dtype='Int64'), index=index)]
    ro = vals.copy()
    ro.flags.writeable = False
    datas.append(ro)
    bads = [pd.Series(np.arange(len(w)) * 1.0, index=w) for w in wrong_indexes(index, case['index'])]
    bads += [vals[:-1], vals[1:].copy(), np.append(vals, 1.0), np.array([]), vals.reshape(-1, 1), vals.reshape(1, -1), list(vals), 3.0, 'x', None,
             pd.DataFrame({'a': vals}, index=index), dict(zip(range(n), vals))]
    if N != M:
        bads.append(pd.Series(np.zeros(N if o else M), index=units if o else m.choices))
    for i, d in enumerate(datas):
        m.declare_vector('m', o)
        for j, b in enumerate(bads):
            if isinstance(b, pd.Series) and b.index.equals(index):
                continue
            if i and (i + j) % 5:
                continue
            if i == 0 or j == 0:
                m.declare_vector('m', o)
                if rejected(lambda: m['m'].assign(b)) is None:
                    raise Bad(f'{case}: vector {b!r} was accepted for {list(index)}')
                if rejected(lambda: utilities(m)) is None:
                    raise Bad(f'{case}: runs although only {b!r} was assigned')
            m['m'].assign(d)
            if rejected(lambda: m['m'].assign(b)) is None:
                raise Bad(f'{case}: vector {b!r} was accepted for {list(index)}')
            compare(f'{case} vector {d!r}, after {b!r} was rejected', utilities(m), want(d))
            ctx.step(2)
            ctx.state([i, j])
        m['m'].assign(d)
        got = utilities(m)
        compare(f'{case} vector {d!r}', got, want(d))
        ctx.outcome(got.tolist())
    ctx.trace()


def case_table(case, ctx):
    import numpy as np
    import pandas as pd
    import cheval
    from mc.lib import Bad
    units = labels(case['index'], 3)
    m = make_model(units, case['alts'], 3)
    o = case['orient']
    index = m.choices if o else units
    n, N, M = len(index), len(units), len(m.choices)
    cols = {'f': np.arange(n) * 0.5 - 1, 'g': np.arange(n) + 1, 'h': np.arange(n) % 2 == 0}
    L = cheval.LinkedDataFrame

    def frame(names, index=index, cls=pd.DataFrame):
        return cls({k: cols[k][:len(index)] if len(index) <= n else np.resize(cols[k], len(index)) for k in names}, index=index)
    want = np.asarray(cols['f'][None, :] if o else cols['f'][:, None], dtype='f8') + (cols['g'][None, :] if o else cols['g'][:, None])
    want = np.broadcast_to(want, (N, M))
    for mandatory in (None, set(), {'f'}, {'f', 'g'}, {'g', 'h'}, {'zz'}, ['f', 'zz']):
        for allow in (True, False):
            for cls in (pd.DataFrame, L):
                for names in ('fg', 'fgh', 'gf', 'hgf', 'f', 'h'):
                    m.declare_table('m', o, mandatory, allow)
                    ok = set(mandatory or ()) <= set(names) and (allow or cls is pd.DataFrame)
                    problem = rejected(lambda: m['m'].assign(frame(names, cls=cls)))
                    what = f'{case} mandatory {mandatory} allow_links {allow} {cls.__name__} of {names}'
                    ctx.step()
                    ctx.state([str(mandatory), allow, cls.__name__, names])
                    if ok != (problem is None):
                        raise Bad(f'{what}: ' + (f'rejected with {problem!r}' if ok else 'accepted'))
                    if ok and {'f', 'g'} <= set(names):
                        compare(what, utilities(m, 'm.f + m.g'), want)
                    elif not ok and rejected(lambda: utilities(m, 'm.f + m.g')) is None:
                        raise Bad(f'{what}: rejected, but the model runs')
    for cls in (pd.DataFrame, L):
        m.declare_table('m', o)
        m['m'].assign(frame('fg', cls=cls))
        bads = [frame('fg', w, cls) for w in wrong_indexes(index, case['index'])]
        bads += [pd.Series(cols['f'], index=index), np.zeros((n, 2)), None, {'f': 1}, 'x', 3]
        for b in bads:
            if isinstance(b, pd.DataFrame) and b.index.equals(index):
                continue
            if rejected(lambda: m['m'].assign(b)) is None:
                raise Bad(f'{case}: table {b!r} was accepted for {list(index)}')
            got = utilities(m, 'm.f + m.g')
            compare(f'{case} after {b!r} was rejected', got, want)
            ctx.step()
            ctx.outcome(got.tolist())
    ctx.trace()


def case_history(case, ctx):
    """Every sequence of assignments to one variable"""
    import numpy as np
    import pandas as pd
    import cheval
    from mc.lib import Bad
    kind, o = case['symbol'], case['orient']
    units = pd.Index(['p', 'q', 'r'])

    def fresh():
        m = make_model(units, 'flat', 3)
        {'matrix': lambda: m.declare_matrix('m', orientation=o, fill_value=0.5), 'vector': lambda: m.declare_vector('m', o),
         'table': lambda: m.declare_table('m', o, {'f'}), 'number': lambda: m.declare_number('m')}[kind]()
        return m
    alts = ['walk', 'auto', 'bus']
    N = M = 3
    text = 'm.f' if kind == 'table' else 'm'
    index = pd.Index(alts if o else units)
    vec = lambda v: np.broadcast_to(np.asarray(v, 'f8')[None, :] if o else np.asarray(v, 'f8')[:, None], (N, M))
    v1, v2 = [1.0, 2.0, 3.0], [-1.5, 0.25, 0.75]
    if kind == 'vector':
        ops = [(np.array(v1), vec(v1)), (pd.Series(v2, index=index), vec(v2)), (pd.Series([2, 1, 3], index=index), vec([2, 1, 3])),
               (pd.Series(v1, index=index[::-1]), None), (np.array(v1[:2]), None), (np.zeros((3, 1)), None), (pd.Series(v1), None), ([1, 2, 3], None),
               (pd.Series(['a', 'b', None], index=pd.Index(['x', 'y', 'z'])), None), (None, None), ('run', None), ('run', None),
               (pd.Series(pd.date_range('2020', periods=3), index=index), None), (pd.Series([1.0, 2.0], index=index[:2]), None),
               (pd.Series(v1 + [4.0], index=list(index) + ['s']), None), (np.array([True, False, True]), vec([1, 0, 1]))]
    elif kind == 'table':
        L = cheval.LinkedDataFrame
        ops = [(pd.DataFrame({'f': v1}, index=index), vec(v1)), (L({'f': v2, 'g': v1}, index=index), vec(v2)), (pd.DataFrame({'g': v1}, index=index), None),
               (pd.DataFrame({'f': v1}), None), (pd.DataFrame({'f': v1}, index=index[::-1]), None), (L({'f': v1[:2]}, index=index[:2]), None), (None, None),
               (pd.Series(v1, index=index), None), ('run', None), (pd.DataFrame({'f': [2, 1, 3]}, index=index), vec([2, 1, 3])), ('run', None),
               (np.zeros((3, 1)), None), (pd.DataFrame({'f': v1 + v1}, index=list(index) * 2), None), (pd.DataFrame(index=index), None), ({'f': v1}, None),
               (L({'g': v1}, index=index), None)]
    elif kind == 'number':
        ops = [(1.5, vec([1.5] * 3)), (2, vec([2] * 3)), (True, vec([1] * 3)), ('x', None), (None, None), ([1, 2], None), (np.array([1.0, 2.0]), None),
               (np.float32(0.25), vec([0.25] * 3)), ({}, None), ('run', None), ('run', None), (np.int64(3), vec([3] * 3)), (object(), None), (pd.Series(v1), None),
               (1 + 2j, None), (-0.5, vec([-0.5] * 3))]
    else:
        full = np.add.outer(np.arange(3) * 4.0, np.arange(3)) / 8
        fr = lambda a, r, c: (lambda d: d.T if o else d)(pd.DataFrame(a, index=r, columns=c))
        half = np.full((3, 3), 0.5)
        half[np.ix_([2, 0], [1, 2])] = [[1, 2], [3, 4]]
        ops = [(fr(full, units, alts), full), (fr(full[::-1], units, alts), full[::-1]), (fr(full[[2, 0, 1]], ['r', 'p', 'q'], alts), full),
               (fr(np.array([[1.0, 2], [3, 4]]), ['r', 'p'], ['auto', 'bus']), half), (fr(full, ['p', 'q', 'x'], alts), None), (fr(full, units, ['walk', 'auto', 'x']), None),
               (fr(full[:2], ['p', 'x'], alts), None), (full, None), (None, None), (pd.Series(v1, index=units), None), ('run', None), ('run', None),
               (fr(full[:, :1], units, ['x']), None), (fr(full.astype('i8'), units, alts), full.astype('i8')), (fr(full, [0, 1, 2], alts), None),
               (fr(full, units, [0, 1, 2]), None)]
    for seq in itertools.product(range(len(ops)), repeat=case['depth'] - 1):
        seq = (case['first'],) + seq
        if len(set(seq)) < len(seq) and seq[0] > 3:
            continue
        m, state = fresh(), None
        for i in seq:
            data, want = ops[i]
            ctx.step()
            if isinstance(data, str) and data == 'run':
                problem = rejected(lambda: utilities(m, text))
                if (problem is None) != (state is not None):
                    raise Bad(f'{case} history {seq}: run gives {problem!r} with {state} assigned')
                continue
            problem = rejected(lambda: m['m'].assign(data))
            if (want is None) != (problem is not None):
                raise Bad(f'{case} history {seq}: assigning {data!r} ' + ('was accepted' if problem is None else f'raised {problem!r}'))
            if want is not None:
                state = want
        what = f'{case} history {seq}'
        if state is None:
            if rejected(lambda: utilities(m, text)) is None:
                raise Bad(f'{what}: runs although nothing was assigned')
            ctx.outcome('none')
        else:
            got = utilities(m, text)
            compare(what, got, state)
            ctx.outcome(got.tolist())
        ctx.state([kind, o, seq])
    ctx.trace()


def case_large(case, ctx):
    import numpy as np
    import pandas as pd
    import cheval
    N, M = 1200, 40
    m = cheval.ChoiceModel()
    alts = [f'a{(i * 7) % M}' for i in range(M)]
    m.add_choices(alts)
    units = pd.Index([(i * 11) % N for i in range(N)])
    m.decision_units = units
    cells = np.add.outer(np.arange(N) / 1024.0, np.arange(M) / 8)
    k = case['perm']
    rs = [np.arange(N), np.arange(N)[::-1], np.arange(0, N, 3), np.roll(np.arange(N), 17), np.argsort(np.arange(N) % 7, kind='stable'), np.arange(600)][k]
    cs = [np.arange(M)[::-1], np.arange(M), np.roll(np.arange(M), 3), np.arange(0, M, 2), np.arange(M)[5:30][::-1], np.arange(M)][k]
    m.declare_matrix('m', orientation=case['orient'], fill_value=-2.0)
    f = pd.DataFrame(cells[np.ix_(rs, cs)], index=units[rs], columns=[alts[c] for c in cs])
    m['m'].assign(f.T if case['orient'] else f)
    want = np.full((N, M), -2.0)
    want[np.ix_(rs, cs)] = cells[np.ix_(rs, cs)]
    got = utilities(m)
    compare(f'{case}', got, want)
    ctx.step()
    ctx.state(case)
    ctx.outcome(case)


def case_dup(case, ctx):
    """Repeated unit labels: only exactly matching data can be placed"""
    import numpy as np
    import pandas as pd
    from mc.lib import Bad
    units = pd.Index(['p', 'q', 'p'])
    m = make_model(units, 'flat', 3)
    cells = np.arange(9.0).reshape(3, 3)
    for o in (0, 1):
        m.declare_matrix('m', orientation=o)
        f = pd.DataFrame(cells, index=units, columns=m.choices)
        m['m'].assign(f.T if o else f)
        compare(f'repeated labels, orientation {o}', utilities(m), cells)
        f = pd.DataFrame(cells[:, ::-1], index=units, columns=m.choices[::-1])
        m['m'].assign(f.T if o else f)
        compare(f'repeated labels, reversed columns, orientation {o}', utilities(m), cells)
        for rows in (['p', 'p', 'q'], ['p', 'q'], ['q', 'p', 'p'], ['q']):
            f = pd.DataFrame(cells[:len(rows)] + 1, index=rows, columns=m.choices)
            if rejected(lambda: m['m'].assign(f.T if o else f)) is None:
                got = utilities(m)
                if 'p' in rows or (got[1] != 1).any():
                    raise Bad(f'repeated labels: rows {rows} accepted, giving {got.tolist()}')
            ctx.step()
    m.declare_vector('v', 0)
    m['v'].assign(pd.Series([1.0, 2, 3], index=units))
    compare('repeated labels, vector', utilities(m, 'v'), np.array([[1.0] * 3, [2] * 3, [3] * 3]))
    for rows in (['p', 'p', 'q'], ['q', 'p', 'p'], ['p', 'q']):
        if rejected(lambda: m['v'].assign(pd.Series(np.ones(len(rows)), index=rows))) is None:
            raise Bad(f'repeated labels: vector for {rows} accepted')
    ctx.state('dup')
    ctx.outcome('dup')


def case_declare(case, ctx):
    """Orientations other than 0 and 1 do not exist"""
    import pandas as pd
    from mc.lib import expect_raise
    m = make_model(pd.Index(['p', 'q', 'r']), 'flat', 3)
    for o in (2, -1, 'rows', None):
        expect_raise(f'vector of orientation {o!r}', lambda: m.declare_vector('a', o))
        expect_raise(f'table of orientation {o!r}', lambda: m.declare_table('a', o))
        expect_raise(f'matrix of orientation {o!r}', lambda: m.declare_matrix('a', o))
        ctx.step(3)
    ctx.state('declare')
    ctx.outcome('declare')
