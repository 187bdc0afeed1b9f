"""C01: flat logit results are the exact multinomial-logit distribution."""
META = {
    'jit': True,
    'rule': 'A case is one table of utilities (every row of it is one decision unit, rows being all k-tuples over a value '
            'alphabet) run through the compiled implementation; every cell of the three results is compared with the '
            'closed formula. A case is non-trivial if its results differ from those of all other cases.',
    'bounds': {
        'quick': 'all k-tuples of an 11-value alphabet for k=2,3, 7 values for k=4, 5 values for k=5, 4 values for k=6; 1..8 threads; '
                 'both precisions; expressions and partial utilities; single-peak rows at every position for k in '
                 '{2..12,31..33,63..65,100,128,257,600}; 1..20001 units',
        'thorough': 'all k-tuples of a 16-value alphabet for k=2,3,4, 9 values for k=5, 6 values for k=6, 5 values for k=7; 1..8 threads; both precisions; '
                    'single-peak rows for every k <= 300 and k in {511..513,1000,2000}; every number of units <= 200 and up to 200001',
    },
    'assumptions': ['the exponential function of the platform is accurate to 1e-9 (relative)',
                    'utilities between the overflow thresholds of single and double precision are not explored with precision=4'],
}

import itertools

A64 = ['-inf', -700.0, -40.0, -1.5, -0.25, 0.0, 1e-9, 0.75, 3.0, 60.0, 700.0]
A32 = ['-inf', -80.0, -20.0, -1.5, -0.25, 0.0, 1e-4, 0.75, 3.0, 40.0, 80.0]
SMALL = {4: [0, 1, 3, 5, 7, 9, 10], 5: [0, 3, 5, 8, 10], 6: [0, 3, 7, 9]}
THOROUGH64 = A64 + [-300.0, -5.0, -1e-9, 1.0, 10.0]
THOROUGH32 = A32 + [-60.0, -5.0, -1e-4, 1.0, 10.0]
INDEXES = ['range', 'int', 'str', 'multi', 'float', 'date']


def shards(tier):
    cases = []
    for prec in (8, 4):
        for k in (2, 3, 4, 5, 6):
            for threads in ((1, 2, 8) if tier == 'quick' else range(1, 9)):
                for via in ('expr', 'partial'):
                    cases.append(['tuples', k, prec, threads, via, tier])
        if tier == 'thorough':
            cases.append(['tuples', 7, prec, 4, 'expr', tier])
        sizes = list(range(2, 13)) + [31, 32, 33, 63, 64, 65, 100, 128, 257, 600]
        if tier == 'thorough':
            sizes = list(range(2, 301)) + [511, 512, 513, 1000, 2000]
        for k in sizes:
            cases.append(['peak', k, prec, 1 + k % 8, ('expr', 'partial')[k % 2], tier])
        units = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 129, 1000, 1025, 4097, 10001, 20001]
        if tier == 'thorough':
            units = list(range(1, 201)) + units[-6:] + [50001, 200001]
        for i, n in enumerate(units):
            for threads in (1, 3, 8) if tier == 'quick' else (1, 2, 3, 5, 8):
                cases.append(['units', n, prec, threads, INDEXES[i % 6], tier])
        cases.append(['kernel', 3, prec, 1, '', tier])
        cases.append(['solo', 3, prec, 2, '', tier])
        for name in INDEXES:
            cases.append(['index', 3, prec, 1, name, tier])
    n = 24 if tier == 'quick' else 64
    return [{'cases': cases[i::n]} for i in range(n)]


def run(shard, ctx):
    for case in shard['cases']:
        ctx.do(case)


def alphabet(prec, k, tier):
    a = A64 if prec == 8 else A32
    if tier == 'thorough':
        t = THOROUGH64 if prec == 8 else THOROUGH32
        a = t if k <= 4 else ([a[i] for i in (0, 2, 3, 4, 5, 7, 8, 9, 10)] if k == 5 else
                              [a[i] for i in (0, 3, 5, 7, 9, 10)] if k == 6 else [a[i] for i in (0, 3, 5, 8, 10)])
    elif k in SMALL:
        a = [a[i] for i in SMALL[k]]
    return [float(x) for x in a]


def reference(table, prec):
    import numpy as np
    u = np.asarray(table, dtype='f8') if prec == 8 else np.asarray(table, dtype='f4').astype('f8')
    with np.errstate(all='ignore'):
        e = np.exp(u)
    total = e.sum(axis=1)
    return u, e, total


def make_index(kind, n):
    import pandas as pd
    if kind == 'range':
        return pd.RangeIndex(n)
    if kind == 'int':
        return pd.Index([(i * 7919) % (n + 13) + 1000 * (i % 3) for i in range(n)], name='hh')
    if kind == 'str':
        return pd.Index([f'u{(n - i)}' for i in range(n)])
    if kind == 'multi':
        return pd.MultiIndex.from_arrays([[i // 3 for i in range(n)], [f'p{i % 3}' for i in range(n)]], names=['hh', 'p'])
    if kind == 'float':
        return pd.Index([i / 2 for i in range(n, 0, -1)])
    return pd.date_range('2020-01-01', periods=n, freq='H')


def model(table, prec, via, index=None):
    import numpy as np
    import pandas as pd
    import cheval
    n, k = table.shape
    m = cheval.ChoiceModel(precision=prec)
    m.add_choices([f'c{(i * 37) % 101}_{i}' for i in range(k)])
    m.decision_units = pd.RangeIndex(n) if index is None else index
    frame = pd.DataFrame(table, index=m.decision_units, columns=m.choices)
    if via == 'expr':
        m.declare_matrix('U')
        m.expressions.append('U')
        m['U'].assign(frame)
    else:
        m.add_partial_utilities(frame)
    return m


def compare(ctx, what, result, table, prec, index, columns):
    import numpy as np
    from mc.lib import Bad, check_close
    p, top, terms = result
    u, e, total = reference(table, prec)
    rtol = 1e-9 if prec == 8 else 2e-5
    if not p.index.equals(index) or list(p.columns) != list(columns):
        raise Bad(f'{what}: probabilities are labelled {p.index[:5]} x {list(p.columns)[:5]}')
    p, top, terms = p.to_numpy(), top.to_numpy(), terms.to_numpy()
    show = lambda at: f'utilities {u[at[0]][:12].tolist()}'
    check_close(what + ' logsum terms', terms, e, rtol, show=show)
    check_close(what + ' total', top, total, rtol, show=show)
    check_close(what + ' probabilities', p, e / total[:, None], rtol, show=show)
    if not ((p >= 0).all() and (p <= 1 + 1e-12).all()):
        raise Bad(f'{what}: probability outside of [0, 1]')
    if not (p[np.isneginf(u)] == 0).all():
        raise Bad(f'{what}: alternative with a utility of minus infinity got a positive probability')
    ctx.outcome(p.round(9).tobytes().hex())
    check_close(what + ' sum of probabilities', p.sum(axis=1), np.ones(len(p)), 1e-9)


def run_case(case, ctx):
    import numpy as np
    from mc.lib import Bad, check_close
    kind, size, prec, threads, via, tier = case
    ctx.state(case)
    if kind == 'tuples':
        a = alphabet(prec, size, tier)
        table = np.array(list(itertools.product(a, repeat=size)))
        table = table[~np.isneginf(table).all(axis=1)]
        m = model(table, prec, via)
        index, columns = m.decision_units, m.choices
        r = m.run_stochastic(n_threads=threads)
        compare(ctx, f'{case}', r, table, prec, index, columns)
        ctx.count('decision_units', len(table))
        for row in table:
            ctx.state(row.tobytes().hex())
    elif kind == 'peak':
        a = 30.0 if prec == 4 else 300.0
        rows = [np.where(np.arange(size) == i, hi, lo) for i in range(size)
                for hi, lo in ((a, 0.0), (0.0, -a), (0.0, -np.inf), (-a, -np.inf), (1.0, 0.5))]
        rows += [np.zeros(size), np.linspace(-a / 10, a / 10, size), np.linspace(a / 10, -a / 10, size)]
        table = np.array(rows)
        m = model(table, prec, via)
        index, columns = m.decision_units, m.choices
        compare(ctx, f'{case}', m.run_stochastic(n_threads=threads), table, prec, index, columns)
        ctx.count('decision_units', len(table))
    elif kind == 'units':
        a = np.array(alphabet(prec, 3, 'quick'))
        i = np.arange(size)
        table = np.stack([a[1:][i % 10], a[(i // 3) % 11], a[(i * 7 + 3) % 11], np.cos(i)], axis=1)
        m = model(table, prec, 'expr', make_index(via, size))
        index, columns = m.decision_units, m.choices
        compare(ctx, f'{case}', m.run_stochastic(n_threads=threads), table, prec, index, columns)
        ctx.count('decision_units', len(table))
    elif kind == 'index':
        table = np.array(list(itertools.product([0.0, 1.0, -2.0], repeat=3)))
        index = make_index(via, len(table))
        m = model(table, prec, 'expr', index)
        columns = m.choices
        compare(ctx, f'{case}', m.run_stochastic(), table, prec, index, columns)
    elif kind == 'kernel':
        from cheval import core
        a = alphabet(prec, size, tier)
        for row in itertools.product(a, repeat=size):
            if all(x == -np.inf for x in row):
                continue
            arr = np.array(row, dtype=f'f{prec}')
            keep = arr.copy()
            for flag in (True, False):
                p, total, terms = core.multinomial_probabilities(arr, flag)
                u, e, t = reference(arr[None, :], prec)
                rtol = 1e-9 if prec == 8 else 2e-5
                check_close(f'multinomial_probabilities({row})', np.concatenate([p, [total], terms]),
                            np.concatenate([e[0] / t[0], t, e[0]]), rtol)
                ctx.step()
            if not (arr == keep).all():
                raise Bad(f'multinomial_probabilities changed its argument {row}')
        w = np.array([[0.0, 1, 2], [3, 0, 0], [0.5, 0.25, 0.25]])
        for row in w:
            check_close('simple_probabilities', core.simple_probabilities(row), row / row.sum())
    elif kind == 'solo':
        a = alphabet(prec, size, 'quick')[::2]
        table = np.array([r for r in itertools.product(a, repeat=size) if max(r) > -np.inf])
        whole = [x.to_numpy() for x in model(table, prec, 'expr').run_stochastic(n_threads=threads)]
        back = [x.to_numpy()[::-1] for x in model(table[::-1].copy(), prec, 'expr').run_stochastic(n_threads=threads)]
        for x, y in zip(whole, back):
            check_close('units in reverse order', y, x, 1e-12)
        for i, row in enumerate(table):
            one = [x.to_numpy() for x in model(row[None, :], prec, 'expr').run_stochastic(n_threads=threads)]
            for x, y in zip(whole, one):
                check_close(f'unit {row.tolist()} on its own', y[0], x[i], 1e-12)
            ctx.step()
    ctx.step()
    ctx.trace()
