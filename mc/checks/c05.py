"""C05: unusable utilities are always reported, never turned into results."""
META = {
    'jit': True,
    'rule': 'A case is a model (flat or nested, single or double precision) whose utility table has unusable units at an enumerated set '
            'of positions, of an enumerated kind, brought in by an enumerated route; every run mode, number of threads and infeasibility '
            'flag is run. Non-trivial: the outcome (error or the table of probabilities) is distinct.',
    'bounds': {
        'quick': 'every single position and every subset of positions for 1..5 units, all single positions for 8, 17 and 65 units, 9 positions in '
                 '1000 and 5000 units; 9 kinds (NaN, +inf, overflow of one, overflow of the sum, all -inf, below underflow, nest overflow, '
                 'infeasible nests, NaN in a nest); 4 routes (for 1..2 units); 1..8 threads',
        'thorough': 'every subset of positions for 1..8 units, all single positions for 2..65 units, 20 positions in 1000, 5000 and 50000 units',
    },
    'assumptions': ['single precision utilities between 88.7 and 709 (which overflow in single precision only) are not explored'],
}

import itertools

KINDS = ['nan', 'posinf', 'over', 'oversum', 'neginf', 'under']
NESTED = KINDS + ['nestover', 'nestinf', 'nannest', 'halfinf']


def shards(tier):
    cases = []
    top = 5 if tier == 'quick' else 8
    for nested in (False, True):
        for kind in (NESTED if nested else KINDS):
            for prec in (8, 4):
                for n in range(1, top + 1):
                    subsets = [list(s) for r in range(1, n + 1) for s in itertools.combinations(range(n), r)]
                    cases.append({'nested': nested, 'kind': kind, 'prec': prec, 'n': n, 'bad': subsets,
                                  'routes': ['matrix', 'partial', 'expr', 'table'] if n <= (2 if tier == 'quick' else 4) else ['matrix']})
                for n in ((8, 17, 65) if tier == 'quick' else range(9, 66, 4)):
                    cases.append({'nested': nested, 'kind': kind, 'prec': prec, 'n': n, 'bad': [[i] for i in range(n)], 'routes': ['matrix']})
                for n in ((1000, 5000) if tier == 'quick' else (1000, 5000, 50000)):
                    spots = sorted({0, 1, n // 8 - 1, n // 8, n // 3, n // 2, n - n // 8, n - 2, n - 1})
                    cases.append({'nested': nested, 'kind': kind, 'prec': prec, 'n': n, 'bad': [[i] for i in spots] + [spots], 'routes': ['matrix', 'partial']})
    out = 32 if tier == 'quick' else 64
    return [{'cases': cases[i::out]} for i in range(out)]


def run(shard, ctx):
    for case in shard['cases']:
        for bad in case['bad']:
            for route in case['routes']:
                for col in range(3 if case['n'] <= 2 else 1):
                    ctx.do(dict(case, bad=bad, routes=route, col=col))


def spoil(table, kind, bad, col, nested):
    """Columns of a nested table: A, A.a, A.b, B, B.c, B.d"""
    import numpy as np
    leaf = ([1, 2, 5] if nested else [0, 1, 2])[col]
    for i in bad:
        if kind == 'nan':
            table[i, leaf] = np.nan
        elif kind == 'nannest':
            table[i, 3 * (col % 2)] = np.nan
        elif kind == 'posinf':
            table[i, leaf] = np.inf
        elif kind == 'over':
            table[i, leaf] = 1000.0
        elif kind == 'oversum':
            table[i, [1, 2] if nested else [0, 1]] = 709.6
        elif kind == 'neginf':
            table[i, :] = -np.inf
        elif kind == 'under':
            table[i, :] = -1200.0 if not nested else -4000.0
        elif kind == 'nestover':      # The nest overflows, although it is not available itself
            table[i, 1] = 1500.0
            table[i, 0] = (-np.inf, 0.0, -1500.0)[col]
        elif kind == 'nestinf':       # Both nests are not available
            table[i, [0, 3]] = -np.inf
        elif kind == 'halfinf':       # All alternatives within the nests are not available
            table[i, [1, 2, 4, 5]] = -np.inf
    return table


INFEASIBLE = {'neginf', 'under', 'nestinf', 'halfinf'}


def run_case(case, ctx):
    import numpy as np
    import pandas as pd
    import cheval
    from cheval.core import UtilityBoundsError
    from mc.lib import Bad, check_close, close
    nested, kind, prec, n, bad, route, col = [case[k] for k in ('nested', 'kind', 'prec', 'n', 'bad', 'routes', 'col')]
    if kind == 'oversum' and prec == 4:
        return   # In between the limits of the precisions
    width = 6 if nested else 3
    good = np.cos(np.arange(n * width)).reshape(n, width)
    table = spoil(good.copy(), kind, bad, col, nested)
    ctx.state({k: case[k] for k in ('nested', 'kind', 'prec', 'n', 'bad', 'routes', 'col')})

    def model(data):
        m = cheval.ChoiceModel(precision=prec)
        if nested:
            for top, names in (('A', 'ab'), ('B', 'cd')):
                node = m.add_choice(top, logsum_scale=0.7)
                for name in names:
                    node.add_choice(name)
        else:
            m.add_choices(['x', 'y', 'z'])
        m.decision_units = pd.Index([10 * i for i in range(len(data))])
        frame = pd.DataFrame(data, index=m.decision_units, columns=m.choices)
        if route == 'matrix':
            m.declare_matrix('U')
            m.expressions.append('U')
            m['U'].assign(frame)
        elif route == 'partial':
            m.add_partial_utilities(frame)
        elif route == 'expr':      # Comes in through two expressions, one of them restricted to an alternative
            m.declare_matrix('U')
            m.expressions.append('U + 0')
            first = 'A.a' if nested else 'x'
            rest = frame.copy()
            at = ('A', 'a') if nested else 'x'
            m.declare_vector('v', 0)
            m.expressions.append(f'v @ {first}')
            extra = rest[at].to_numpy().copy()
            rest[at] = 0.0
            m['U'].assign(rest)
            m['v'].assign(extra)
        else:
            m.declare_table('t', 0)
            m.declare_matrix('I')
            eye = pd.DataFrame(0.0, index=m.decision_units, columns=m.choices)
            m['I'].assign(eye)
            m.expressions.append('I')
            names = [f'c{j}' for j in range(width)]
            t = pd.DataFrame(data, index=m.decision_units, columns=names)
            m['t'].assign(t)
            for name, c in zip(names, m.choices):
                path = c if isinstance(c, str) else '.'.join(x for x in c if x != '.')
                m.expressions.append(f't.{name} @ {path}')
        return m

    at = f'{case}'
    threads = (1, 2, 8) if n <= 2 else (1, 2 + n % 7)
    for t in threads:
        ctx.step(5)
        for draws in (1, 2):
            try:
                r, _ = model(table).run_discrete(random_seed=5, n_draws=draws, n_threads=t, astype='index')
            except UtilityBoundsError:
                pass
            else:
                raise Bad(f'{at}: a discrete run of {draws} draws on {t} threads returned {r.to_numpy().ravel()[:10].tolist()}')
        try:
            r = model(table).run_stochastic(n_threads=t)
        except UtilityBoundsError:
            pass
        else:
            raise Bad(f'{at}: a stochastic run on {t} threads returned {r[0].to_numpy()[bad[0]].tolist()}')
        if kind in INFEASIBLE:
            p, top, terms = model(table).run_stochastic(n_threads=t, check_infeasible=False)
            p = p.to_numpy()
            if (p[bad] != 0).any():
                raise Bad(f'{at}: probabilities of an infeasible unit are {p[bad].tolist()}')
            rest = [i for i in range(n) if i not in set(bad)]
            if rest:
                want, wtop, wterms = model(good).run_stochastic(n_threads=1)
                check_close(f'{at}: other units', p[rest], want.to_numpy()[rest], 1e-12)
                check_close(f'{at}: logsums of other units', top.to_numpy()[rest], wtop.to_numpy()[rest], 1e-12)
                check_close(f'{at}: terms of other units', terms.to_numpy()[rest], wterms.to_numpy()[rest], 1e-12)
            ctx.outcome(p.tobytes().hex())
        else:
            try:
                r = model(table).run_stochastic(n_threads=t, check_infeasible=False)
            except UtilityBoundsError:
                pass
            else:
                raise Bad(f'{at}: a stochastic run without infeasibility check on {t} threads returned {r[0].to_numpy()[bad[0]].tolist()}')
            ctx.outcome([kind, nested])
    ctx.trace()
