"""C04: results are reproducible and independent of threads and schedules."""
META = {
    'jit': True,
    'rule': 'Schedules: the interpreted source of the kernels under a controlled scheduler, every assignment of iterations to worker '
            'threads and every inequivalent interleaving of their accesses to shared arrays (partial-order reduction; up to 2 preemptions '
            'where iterations conflict). Compiled code: every number of threads and chunk size, compared with one thread and with the '
            'interpreted outcome. Non-trivial: distinct outcomes over configurations.',
    'bounds': {
        'quick': 'scheduler: 1..4 units (2..6 iterations for additions), 2 and 3 threads, all flat/nested x discrete/stochastic x 1/3 draws x both '
                 'precisions, weighted sampling, 9 forms of indexed addition; compiled: 1..9, 16, 33, 257, 1000 and 5003 units, 1..8 threads, 4 chunk sizes, 2 seeds; all draws of 3000 units compared for 5 seeds',
        'thorough': 'scheduler: up to 6 units with 2 and 5 units with 3 threads, 4 seeds; compiled: 1..40 units and up to 50021, 6 chunk sizes, 6 seeds',
    },
    'assumptions': ['each Numba worker thread has its own random generator and runs an iteration to completion before its next one',
                    'memory accesses of one array element are atomic (schedules interleave at single element accesses)',
                    'free-running compiled executions sample the real thread timing; the schedule space itself is decided on the interpreted source'],
}

import json


def shards(tier):
    t = tier == 'thorough'
    out = []
    seeds = [4, 11, 2 ** 31 - 1, 0] if t else [4]
    cfgs = []
    for seed in seeds:
        for kind in ('flat', 'nested'):
            for prec in (8, 4):
                for mode, draws in (('discrete', 1), ('discrete', 3), ('stochastic', 1)):
                    for n in range(1, 7 if t else 5):
                        for threads in (2, 3):
                            if n == 6 and threads == 3 or (n >= 4 and threads == 3 and prec == 4):
                                continue
                            cfgs.append({'kind': kind, 'prec': prec, 'mode': mode, 'draws': draws, 'n': n, 'threads': threads, 'seed': seed})
        for draws in (1, 3):
            for n in (1, 2, 3, 4):
                for threads in (2, 3):
                    cfgs.append({'kind': 'weighted', 'draws': draws, 'n': n, 'threads': threads, 'seed': seed})
    for prec in (8, 4):
        for rows, cols in ((None, None), ([1, 0], None), ([1], None), (None, [2, 0]), (None, [1]), ([1, 0], [2, 0, 1]), ([0], [2, 1]),
                           ([1, 0], [1]), ([1], [0])):
            for threads in (2, 3):
                if len(rows or [0, 1]) * len(cols or [0, 1, 2]) == 6 and threads == 3 and not t:
                    continue
                cfgs.append({'kind': 'add', 'rows': rows, 'cols': cols, 'n': 2, 'prec': prec, 'threads': threads, 'seed': 0})
    n = 10 if not t else 40
    out += [{'kind': 'sched', 'cfgs': cfgs[i::n]} for i in range(n)]
    sizes = list(range(1, 10)) + [16, 33, 257, 1000, 5003]
    if t:
        sizes = list(range(1, 41)) + [64, 65, 257, 1000, 5003, 50021]
    for size in sizes:
        out.append({'kind': 'compiled', 'n': size, 'seeds': [0, 1, 4, 2 ** 31 - 1, 12345, 987654321] if t else [0, 12345],
                    'chunks': [0, 1, 2, 3, 7, 64] if t else [0, 1, 3, 64]})
    out.append({'kind': 'draws'})
    for seed in (0, 1, 2, 3, 12345) + (tuple(range(100, 120)) if t else ()):
        out.append({'kind': 'spread', 'seed': seed})
    out.append({'kind': 'generator'})
    out.append({'kind': 'additions', 'tier': tier})
    return out


def run(shard, ctx):
    if shard['kind'] == 'sched':
        answers = run_sched(shard['cfgs'])
        for cfg, answer in zip(shard['cfgs'], answers):
            ctx.do({'kind': 'sched', 'cfg': cfg}, lambda case, c: judge(case, c, answer))
    elif shard['kind'] == 'compiled':
        for nested in (False, True):
            for prec in (8, 4):
                for seed in shard['seeds']:
                    ctx.do(dict(shard, nested=nested, prec=prec, seed=seed))
    else:
        ctx.do(shard)


def run_sched(cfgs):
    import os
    import subprocess
    import sys
    env = dict(os.environ, NUMBA_DISABLE_JIT='1')
    r = subprocess.run([sys.executable, '-m', 'mc.sched', json.dumps(cfgs)], env=env, capture_output=True, text=True, timeout=3000)
    if '@@' not in r.stdout:
        raise RuntimeError(r.stderr[-2000:])
    return json.loads(r.stdout.split('@@')[1])


def judge(case, ctx, answer):
    """The outcomes of all explored schedules of one configuration, and its compiled outcome"""
    from mc import sched
    from mc.lib import Bad
    cfg = case['cfg']
    ctx.state(cfg)
    if 'unsupported' in answer or answer['base'] is None:
        ctx.count('configurations_without_schedulable_loop')
        return
    if any(str(o[0]).startswith(('UnboundLocalError', 'NameError', 'AttributeError', 'TypeError')) for o in answer['outcomes']):
        # The transformation into a schedulable loop does not fit this source; the compiled runs below still decide
        ctx.count('configurations_without_schedulable_loop')
        return
    c = answer['counts']
    for k in c:
        ctx.count('sched_' + k, c[k])
    ctx.step(c['schedules'])
    ctx.trace(c['schedules'])
    outcomes = answer['outcomes']
    if len(outcomes) > 1:
        raise Bad(f'{cfg}: the result depends on the schedule: {outcomes[0][0]} when run serially, but {outcomes[1][0]} under {outcomes[1][1]}')
    ctx.outcome(outcomes[0][0])
    # Conformance: the compiled code gives the outcome of the explored one
    if cfg['kind'] in ('add',) or cfg.get('draws', 1) == 1:
        fn, _ = sched.scenario(cfg)
        got = fn()
        ctx.count('conformance_runs')
        if not same(got, answer['base']):
            raise Bad(f'{cfg}: compiled code gives {got}, interpreted code {answer["base"]}')


def same(a, b):
    import numpy as np
    if a == b:
        return True
    try:
        fa, fb = flatten(json.loads(a)), flatten(json.loads(b))
    except ValueError:
        return False
    return len(fa) == len(fb) and np.allclose(fa, fb, rtol=1e-5, atol=1e-7, equal_nan=True)


def flatten(x):
    return [z for y in x for z in flatten(y)] if isinstance(x, list) else [float(x)]


def table_for(n, k, salt=0.0):
    import numpy as np
    t = np.cos((np.arange(n * k) + salt) * 1.37).reshape(n, k) * 2
    t[::5, 0] = -np.inf
    return t


def make(table, nested, prec=8):
    import pandas as pd
    import cheval
    m = cheval.ChoiceModel(precision=prec)
    if nested:
        for top in 'AB':
            node = m.add_choice(top, logsum_scale=0.6)
            node.add_choice('a'), node.add_choice('b')
    else:
        m.add_choices([f'c{i}' for i in range(table.shape[1])])
    m.decision_units = pd.RangeIndex(len(table))
    m.declare_matrix('U')
    m.expressions.append('U')
    m['U'].assign(pd.DataFrame(table, columns=m.choices))
    return m


def run_case(case, ctx):
    import numpy as np
    import numba as nb
    from mc.lib import Bad
    kind = case['kind']
    if kind == 'sched':
        return judge(case, ctx, run_sched([case['cfg']])[0])
    if kind == 'compiled':
        n, nested, prec, seed = case['n'], case['nested'], case['prec'], case['seed']
        table = table_for(n, 6 if nested else 5)

        def discrete(threads, draws, s=seed):
            r, ls = make(table, nested, prec).run_discrete(random_seed=s, n_draws=draws, n_threads=threads, astype='index', squeeze=False)
            return r.to_numpy().copy(), ls.to_numpy().copy()

        def stochastic(threads):
            return [x.to_numpy().copy() for x in make(table, nested, prec).run_stochastic(n_threads=threads)]
        for draws in (1, 2, 5):
            base = discrete(1, draws)
            ctx.outcome(base[0].tobytes().hex()[:2000])
            for chunk in case['chunks'] if n <= 1000 else case['chunks'][:2]:
                for threads in range(1, 9):
                    old = nb.set_parallel_chunksize(chunk)
                    try:
                        got = discrete(threads, draws)
                    finally:
                        nb.set_parallel_chunksize(old)
                    ctx.step()
                    if not (got[0] == base[0]).all() or not np.allclose(got[1], base[1], rtol=1e-12, atol=0):
                        i = int(np.argmax((got[0] != base[0]).any(axis=1)))
                        raise Bad(f'{case}: {draws} draws on {threads} threads, chunks of {chunk}: unit {i} got {got[0][i].tolist()}, '
                                  f'{base[0][i].tolist()} on one thread')
            discrete(2, draws, s=seed // 2 + 17)      # Leaves other states in the generators
            again = discrete(1, draws)
            if not (again[0] == base[0]).all():
                raise Bad(f'{case}: {draws} draws: not reproducible')
            ctx.trace()
        base = stochastic(1)
        for chunk in case['chunks'][:3]:
            for threads in range(1, 9):
                old = nb.set_parallel_chunksize(chunk)
                try:
                    got = stochastic(threads)
                finally:
                    nb.set_parallel_chunksize(old)
                ctx.step()
                for g, b in zip(got, base):
                    if not np.allclose(g, b, rtol=1e-12, atol=0):
                        raise Bad(f'{case}: stochastic run on {threads} threads, chunks of {chunk} differs')
        from cheval import core
        for draws in (1, 2, 5):
            w = np.exp(table)
            nb.set_num_threads(1)
            base = core.worker_weighted_sample(w, draws, seed)
            for threads in range(1, 9):
                nb.set_num_threads(threads)
                if not (core.worker_weighted_sample(w, draws, seed) == base).all():
                    raise Bad(f'{case}: weighted sample of {draws} draws on {threads} threads differs')
                ctx.step()
        ctx.state(case)
        ctx.trace(2)
    elif kind == 'draws':
        draws_case(case, ctx)
    elif kind == 'generator':
        from numpy.random import RandomState
        for nested in (False, True):
            table = table_for(40, 6 if nested else 8)
            for draws in (1, 3):
                def go(rs, threads=2):
                    r, _ = make(table, nested).run_discrete(random_seed=rs, n_draws=draws, n_threads=threads, astype='index', squeeze=False)
                    return r.to_numpy().tolist()
                results = []
                for s in (1, 5, 77):
                    a, b = RandomState(s), RandomState(s)
                    seq_a = [go(a), go(a, 5)]
                    np.random.seed(12)
                    seq_b = [go(b, 7), go(b, 1)]
                    if seq_a != seq_b:
                        raise Bad(f'two generators in the same state gave different results (state {s}, nested {nested}, {draws} draws)')
                    results += seq_a
                    ctx.step(4)
                    for seed in (np.int64(s), np.int32(s), float(s)):
                        if go(seed) != go(s):
                            raise Bad(f'seed {seed!r} of type {type(seed)} differs from {s}')
                    ctx.state([nested, draws, s])
                if len({json.dumps(r) for r in results}) < len(results):
                    raise Bad(f'generators in different states gave the same choices (nested {nested}, {draws} draws)')
                ctx.outcome(results)
                ctx.trace(3)
    elif kind == 'spread':
        spread(case, ctx)
    elif kind == 'additions':
        additions(case, ctx)


def spread(case, ctx):
    """Thousands of units don't share draws, whose numbers are spread over the unit interval"""
    import numpy as np
    import numba as nb
    from cheval import core
    from mc.lib import Bad
    seed, n, k, draws = case['seed'], 3000, 64, 24
    nb.set_num_threads(2)
    u = np.zeros((n, k))
    tree = np.full(k, -1), np.zeros(k, dtype='i8'), np.ones(k), np.ones(k, dtype=bool)
    runs = {'flat': lambda d: core.worker_multinomial_sample(u, d, seed)[0],
            'nested': lambda d: core.worker_nested_sample(u, *tree, d, seed, True)[0],
            'weighted': lambda d: core.worker_weighted_sample(u + 1, d, seed)}
    for name, fn in runs.items():
        many = fn(draws)
        rows = {r.tobytes() for r in many}
        if len(rows) < n:
            raise Bad(f'{name}, seed {seed}: {n - len(rows)} of {n} units have all of their {draws} draws in common with another unit')
        if len({c.tobytes() for c in many.T}) < draws:
            raise Bad(f'{name}, seed {seed}: two of {draws} draws are the same for all units')
        ctx.outcome(many[:50].tolist())
        for what, cells in (('single draws', fn(1)[:, 0]), ('first draws', many[:, 0]), ('second draws', many[:, 1]),
                            ('last draws', many[:, -1]), ('all draws', many.ravel())):
            counts = np.bincount(cells, minlength=k) / len(cells)
            gap = np.abs(np.cumsum(counts) - np.arange(1, k + 1) / k).max()
            if gap > 0.06:
                raise Bad(f'{name}, seed {seed}: the {what} of {n} units are not spread evenly, by {gap:.3f}')
            if len(cells) == n and abs(np.corrcoef(cells[:-1], cells[1:])[0, 1]) > 0.12:
                raise Bad(f'{name}, seed {seed}: the {what} of neighbouring units are correlated')
        for i, j in ((0, 1), (0, 2), (1, 2), (0, draws - 1)):
            if abs(np.corrcoef(many[:, i], many[:, j])[0, 1]) > 0.12:
                raise Bad(f'{name}, seed {seed}: draws {i} and {j} of the units are correlated')
        ctx.state([name, seed])
        ctx.step(n * (draws + 1))
        ctx.trace()


def draws_case(case, ctx):
    """Brackets the draw of each unit with a 4096-cell uniform distribution"""
    import numpy as np
    import pandas as pd
    from cheval import core
    from mc.lib import Bad
    fine = 4096

    def cells(n, draws, seed, threads=3):
        r, _ = make(np.zeros((n, fine)), False).run_discrete(random_seed=seed, n_draws=draws, n_threads=threads, astype='index', squeeze=False)
        return r.to_numpy()
    for seed in (1, 2, 3, 500, 2 ** 31 - 1):
        base = {d: cells(48, d, seed) for d in (1, 2, 6)}
        ctx.outcome(base[6].tolist())
        for d in (1, 2, 6):
            flat = base[d].ravel()
            if len(np.unique(flat)) < 0.9 * len(flat) - 2:
                raise Bad(f'seed {seed}, {d} draws: only {len(np.unique(flat))} different numbers among {len(flat)} draws')
            if len({tuple(r) for r in base[d].tolist()}) < (48 if d > 1 else 44):
                raise Bad(f'seed {seed}, {d} draws: several units have the same draws')
            if d > 1 and len({tuple(c) for c in base[d].T.tolist()}) < d:
                raise Bad(f'seed {seed}, {d} draws: several draws are the same for all units')
            for n in (1, 2, 7, 47):
                if not (cells(n, d, seed) == base[d][:n]).all():
                    raise Bad(f'seed {seed}, {d} draws: the draws of the first {n} of 48 units depend on the number of units')
                ctx.step()
            ctx.state([seed, d])
        if not (base[2] == base[6][:, :2]).all():
            raise Bad(f'seed {seed}: the first two of six draws are not the two draws')
        # The utilities of other units don't matter
        table = table_for(30, 64)
        for d in (1, 3):
            def go(t):
                r, _ = make(t, False).run_discrete(random_seed=seed, n_draws=d, n_threads=4, astype='index', squeeze=False)
                return r.to_numpy()
            want = go(table)
            for i in (0, 1, 7, 28, 29):
                other = table_for(30, 64, salt=i + 0.5)
                other[i] = table[i]
                got = go(other)
                ctx.step()
                if not (got[i] == want[i]).all():
                    raise Bad(f'seed {seed}, {d} draws: unit {i} got {got[i].tolist()} instead of {want[i].tolist()} after the other units changed')
        ctx.trace(6)
    a, b = cells(48, 2, 1), cells(48, 2, 2)
    if (a == b).mean() > 0.2:
        raise Bad('two seeds give mostly the same draws')
    for d in (1, 4):
        w = np.ones((40, fine))
        c = core.worker_weighted_sample(w, d, 9)
        if len(np.unique(c)) < 0.9 * c.size - 2:
            raise Bad(f'weighted sampling of {d} draws: only {len(np.unique(c))} different numbers among {c.size} draws')
        ctx.step()


def additions(case, ctx):
    import itertools
    import numpy as np
    import numba as nb
    import pandas as pd
    import cheval
    from cheval import core
    from mc.lib import Bad
    sizes = [(1, 1), (1, 5), (3, 2), (7, 3), (40, 6), (513, 4), (5003, 3)]
    for rows, cols in sizes:
        for prec, aprec in itertools.product((8, 4), repeat=2):
            add = (np.arange(rows * cols) % 97).reshape(rows, cols).astype(f'f{aprec}') + 1
            start = (np.arange((rows + 2) * (cols + 1)) % 13).reshape(rows + 2, cols + 1).astype(f'f{prec}')
            ri = (np.arange(rows) * 7 + 3) % (rows + 2) if (rows + 2) % 7 else np.arange(rows)[::-1] + 1
            ci = np.arange(cols)[::-1] + (rows % 2)
            forms = {'nn': (None, None), 'ni': (None, ci), 'in': (ri, None), 'ii': (ri, ci)}
            for name, (r, c) in forms.items():
                for threads in range(1, 9):
                    nb.set_num_threads(threads)
                    out = start[:rows if r is None else rows + 2, :cols if c is None else cols + 1].copy()
                    want = out.copy()
                    for i in range(rows):
                        ti = i if r is None else r[i]
                        want[ti, np.arange(cols) if c is None else c] += add[i]
                    core.fast_indexed_add(out, add, r, c)
                    ctx.step()
                    if not np.allclose(out, want, rtol=1e-6):
                        raise Bad(f'fast_indexed_add {name} of {rows}x{cols} on {threads} threads: {np.argwhere(out != want)[:3].tolist()}')
                ctx.state([rows, cols, prec, aprec, name])
                ctx.trace()
    # Through the model
    for n in (3, 200, 3001):
        base = None
        for threads in range(1, 9):
            nb.set_num_threads(threads)
            m = cheval.ChoiceModel()
            m.add_choices(['a', 'b', 'c'])
            m.decision_units = pd.RangeIndex(n)
            t = pd.DataFrame(table_for(n, 3), columns=list('cab'))
            m.add_partial_utilities(t)
            m.add_partial_utilities(t.iloc[::-2][['b']] * 0.5, reindex_rows=True)
            m.add_partial_utilities(t[['a', 'c']].iloc[1:] * 0.25, reindex_rows=True)
            got = m.run_stochastic(n_threads=threads)[2].to_numpy()
            base = got if base is None else base
            ctx.step()
            if not np.allclose(got, base, rtol=1e-12):
                raise Bad(f'partial utilities of {n} units added on {threads} threads differ')
        ctx.outcome(base.tobytes().hex()[:1000])
        ctx.trace()
