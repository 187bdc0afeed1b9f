"""C03: sampling inverts the cumulative distribution and never picks the impossible."""
META = {
    'jit': True,
    'rule': 'A case is one family of probability vectors. Every vector is sampled with every draw of a list that has all breakpoints '
            'of the cumulative distribution with their floating-point neighbours, the middle of every cell, and the values at and '
            'next to 0 and 1; the answer has to be a possible alternative whose cell contains the draw, and must not decrease with '
            'the draw. Seeded runs are decided by first bracketing their (unknown) draws with a 4096-cell uniform distribution, and their interpreted source runs with a generator that '
            'returns every draw of the list.',
    'bounds': {
        'quick': 'all weight vectors over {0,1,2,5} for k=1..5, over {0,1,3} for k=6, {0,1} for k<=9, non-dyadic tenths; vectors with every '
                 'leading/trailing/interior run of zeros for k in {7,8,9,15,16,17,31,33,64,127,256}; totals above and below 1 by rounding; seeded functions with chosen draws: {0,1,3}^k for k<=4 and rounding totals; '
                 'flat and nested models over all compositions of 16 into 3 and 4 parts, 64 units x 1..3 draws x 4 seeds',
        'thorough': 'weights {0,1,2,5,9} for k=1..6, {0,1,3} for k=7..8, {0,1} for k<=12; zero runs for every k<=130; 16 seeds, 1..6 draws',
    },
    'assumptions': ['draws are uniform numbers in [0, 1]; at a breakpoint (within 8 ulps of the accumulated total) both neighbouring cells are accepted, if possible'],
}

import itertools


def shards(tier):
    t = tier == 'thorough'
    out = []
    for k in range(1, 7 if t else 6):
        parts = {1: 1, 2: 1, 3: 1, 4: 2, 5: 6}.get(k, 24)
        for part in range(parts):
            out.append({'kind': 'vectors', 'weights': [0, 1, 2, 5, 9] if t else [0, 1, 2, 5], 'k': k, 'part': part, 'parts': parts})
    for k in ((6, 7, 8) if t else (6,)):
        for part in range(8 if t else 2):
            out.append({'kind': 'vectors', 'weights': [0, 1, 3], 'k': k, 'part': part, 'parts': 8 if t else 2})
    for k in range(7, 13 if t else 10):
        out.append({'kind': 'vectors', 'weights': [0, 1], 'k': k, 'part': 0, 'parts': 1})
    for k in (range(7, 131) if t else (7, 8, 9, 15, 16, 17, 31, 33, 64, 127, 256)):
        out.append({'kind': 'runs', 'k': k})
    out.append({'kind': 'rounding'})
    for part in range(4):
        out.append({'kind': 'scheduled', 'part': part, 'parts': 4, 'tier': tier})
    out.append({'kind': 'utilities', 'k': 3})
    out.append({'kind': 'utilities', 'k': 4})
    out.append({'kind': 'nested'})
    seeds = [1, 2, 12345, 2 ** 31 - 2] + ([7 * i + 3 for i in range(12)] if t else [])
    for seed in seeds:
        for parts in (3, 4):
            for draws in range(1, 7 if t else 4):
                out.append({'kind': 'model', 'parts': parts, 'seed': seed, 'draws': draws})
        out.append({'kind': 'multi', 'seed': seed})
    return out


def run(shard, ctx):
    kind = shard['kind']
    if kind == 'vectors':
        for i, w in enumerate(itertools.product(shard['weights'], repeat=shard['k'])):
            if i % shard['parts'] == shard['part'] and any(w):
                ctx.do({'kind': 'vector', 'w': list(w)})
    elif kind == 'runs':
        for w in zero_runs(shard['k']):
            ctx.do({'kind': 'vector', 'w': w})
    elif kind == 'rounding':
        for w in rounding():
            ctx.do({'kind': 'vector', 'w': w})
    elif kind == 'scheduled':
        cases = [w for i, w in enumerate(scheduled_vectors(shard['tier'])) if i % shard['parts'] == shard['part']]
        for w, answer in zip(cases, run_scheduled(cases)):
            ctx.do({'kind': 'scheduled', 'w': w}, lambda case, c: judge(case, c, answer))
    else:
        ctx.do(shard)


def scheduled_vectors(tier):
    """Vectors sampled by seeded functions with a random generator that returns a chosen number"""
    for k in range(1, 5 if tier == 'quick' else 6):
        yield from (list(w) for w in itertools.product([0, 1, 3], repeat=k) if any(w))
    for n, tails in ((3, (0, 1, 3)), (6, (0, 1, 2)), (10, (0, 1, 3)), (23, (0, 2)), (49, (0, 1, 3))):
        for tail in tails:
            for head in (0, 2):
                for inner in ([0.1] * n, [1 / 3] * n, [1.0 + 1 / (i + 1) for i in range(n)], [1e-17, 1.0] * (n // 2), [0.7] + [0.1] * n):
                    yield [0] * head + inner + [0] * tail


def run_scheduled(vectors):
    import json
    import os
    import subprocess
    import sys
    env = dict(os.environ, NUMBA_DISABLE_JIT='1')
    code = 'import sys, json; from mc.checks.c03 import scheduled; print("@@" + json.dumps(scheduled(json.load(sys.stdin))))'
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, input=json.dumps(vectors), capture_output=True, text=True, timeout=3000)
    if '@@' not in r.stdout:
        raise RuntimeError(r.stderr[-2000:])
    return json.loads(r.stdout.split('@@')[1])


def scheduled(vectors):
    """Runs the interpreted source of the seeded functions once per draw, with that draw as the answer of the generator"""
    from unittest import mock
    import numpy as np
    from cheval import core
    now, calls = [0.5], [0]

    def uniform(low=0.0, high=1.0, size=None):
        calls[0] += 1
        x = low + (high - low) * now[0]
        return x if size is None else np.full(size, x)

    def unit(size=None):
        return uniform(0.0, 1.0, size)

    def rand(*shape):
        return uniform(0.0, 1.0, shape or None)
    flat_tree = lambda k: (np.full(k, -1), np.zeros(k, dtype='i8'), np.ones(k), np.ones(k, dtype=bool))
    out = []
    with mock.patch('numpy.random.uniform', uniform), mock.patch('numpy.random.rand', rand), \
            mock.patch('numpy.random.random', unit), mock.patch('numpy.random.random_sample', unit), np.errstate(all='ignore'):
        for weights in vectors:
            w = np.array(weights, dtype='f8')
            k, p = len(w), w / w.sum()
            u = np.log(p)
            e = np.exp(u)
            pu = e / e.sum()
            runs = {'sample_multi': (p, lambda: core.sample_multi(p.copy(), 2, 3, None)),
                    'simple_multisample': (p, lambda: core.simple_multisample(w.copy(), 2, 3, None)),
                    'worker_weighted_sample': (p, lambda: core.worker_weighted_sample(np.array([w]), 1, 3)[0]),
                    'worker_weighted_sample of 2 draws': (p, lambda: core.worker_weighted_sample(np.array([w]), 2, 3)[0]),
                    'worker_multinomial_sample': (pu, lambda: core.worker_multinomial_sample(np.array([u]), 1, 3)[0][0]),
                    'worker_multinomial_sample of 2 draws': (pu, lambda: core.worker_multinomial_sample(np.array([u]), 2, 3)[0][0]),
                    'worker_nested_sample': (pu, lambda: core.worker_nested_sample(np.array([u]), *flat_tree(k), 1, 3, True)[0][0]),
                    'worker_nested_sample of 2 draws': (pu, lambda: core.worker_nested_sample(np.array([u]), *flat_tree(k), 2, 3, True)[0][0])}
            answer = {'steps': 0, 'unused': 0, 'bad': None, 'seen': []}
            for name, (probabilities, fn) in runs.items():
                pl = probabilities.tolist()
                slack = 8 * k * 2.3e-16 if k > 1 else 0
                last = -1
                for r in draws_for(probabilities):
                    now[0], calls[0] = r, 0
                    got = [int(g) for g in np.ravel(fn())]
                    answer['steps'] += 1
                    if not calls[0]:
                        answer['unused'] += 1
                        continue
                    for g in got:
                        if not 0 <= g < k or g not in allowed(pl, r, slack):
                            answer['bad'] = f'{name}: draw {r!r} from {pl} gave {g}, allowed are {allowed(pl, r, slack)}'
                        elif g < last:
                            answer['bad'] = f'{name}: raising the draw to {r!r} moved the result from {last} back to {g}, from {pl}'
                        last = g
                    if last not in answer['seen']:
                        answer['seen'].append(last)
            out.append(answer)
    return out


def judge(case, ctx, answer):
    from mc.lib import Bad
    ctx.state(case['w'])
    ctx.step(answer['steps'])
    ctx.count('draws_from_another_generator', answer['unused'])
    ctx.outcome(answer['seen'])
    ctx.trace()
    if answer['bad']:
        raise Bad(answer['bad'])


def zero_runs(k):
    for lead in sorted({0, 1, 2, k // 2, k - 2, k - 1}):
        for trail in sorted({0, 1, 2, 3, k // 2, k - 2, k - 1}):
            if 0 <= lead and lead + trail < k:
                n = k - lead - trail
                for pattern in (lambda i: 1, lambda i: 1 + i % 3, lambda i: i % 2, lambda i: int(i in (0, n - 1)), lambda i: 0.1):
                    w = [0] * lead + [pattern(i) for i in range(n)] + [0] * trail
                    if any(w):
                        yield w


def rounding():
    """Weights whose normalised values add up to slightly less or more than 1"""
    for n in range(2, 60):
        for tail in ([], [0], [0, 0, 0]):
            for head in ([], [0, 0]):
                yield head + [0.1] * n + tail
                yield head + [1 / 3] * n + tail
                yield head + [1.0 + 1 / (i + 1) for i in range(n)] + tail
                yield head + [1e-17, 1.0] * (n // 2) + [1e-300] + tail


def draws_for(p):
    import numpy as np
    cum = np.cumsum(p)
    r = [0.0, 5e-324, 2.2250738585072014e-308, 1e-300, 1e-17, 1e-16, 0.5, 1 - 2 ** -52, 1 - 2 ** -53, 1.0]
    for c in cum:
        r += [c, np.nextafter(c, 0), np.nextafter(c, 2)]
    lo = 0.0
    for c in cum:
        r += [(lo + c) / 2, lo + (c - lo) * 0.999, lo + (c - lo) * 0.001]
        lo = c
    return sorted({float(min(max(x, 0.0), 1.0)) for x in r})


def allowed(p, r, slack):
    """Alternatives which may be sampled: possible ones whose cell contains the draw"""
    import math
    ok, acc = [], 0.0
    total = math.fsum(p)
    last = max(i for i, x in enumerate(p) if x > 0)
    first = min(i for i, x in enumerate(p) if x > 0)
    for i, x in enumerate(p):
        lo, hi = acc, acc + x
        acc = hi
        if x > 0 and ((lo - slack <= r <= hi + slack) or (i == last and r >= hi) or (i == first and r <= lo)):
            ok.append(i)
    return ok


def decide(ctx, name, p, r, got, last):
    from mc.lib import Bad
    slack = 8 * len(p) * 2.3e-16
    if not (0 <= got < len(p)) or got not in allowed(p, r, slack if len(p) > 1 else 0):
        raise Bad(f'{name}: draw {r!r} from {p} gave {got}, allowed are {allowed(p, r, slack)}')
    if got < last:
        raise Bad(f'{name}: raising the draw to {r!r} moved the result from {last} back to {got}, from {p}')
    return got


def run_case(case, ctx):
    import numpy as np
    from cheval import core
    from mc.lib import Bad
    kind = case['kind']
    if kind == 'scheduled':
        return judge(case, ctx, run_scheduled([case['w']])[0])
    if kind == 'vector':
        w = np.array(case['w'], dtype='f8')
        p = w / w.sum()
        pl = p.tolist()
        cps = np.cumsum(p)
        ctx.state(case['w'])
        draws = draws_for(p)
        fns = [('sample_once', lambda r: core.sample_once(p, r)), ('logarithmic_search', lambda r: core.logarithmic_search(r, cps)),
               ('simple_sample', lambda r: core.simple_sample(w, r))]
        for name, fn in fns:
            last, seen = -1, []
            for r in draws:
                last = decide(ctx, name, pl, r, int(fn(r)), last)
                seen.append(last)
            ctx.step(len(draws))
            ctx.outcome(sorted(set(seen)))
        if not (w == np.array(case['w'])).all():
            raise Bad('the weights were changed by sampling')
        ctx.trace(3)
        # Repeated draws never pick the impossible
        for seed in (1, 99):
            for name, got in (('sample_multi', core.sample_multi(p.copy(), 40, seed, None)),
                              ('simple_multisample', core.simple_multisample(w.copy(), 40, seed, None))):
                bad = [int(g) for g in got if not (0 <= g < len(p)) or p[g] <= 0]
                if bad:
                    raise Bad(f'{name} drew {bad} from {pl}')
                ctx.step(40)
    elif kind == 'utilities':
        k = case['k']
        for row in itertools.product([-np.inf, -800.0, -2.0, 0.0, 1.0], repeat=k):
            u = np.array(row)
            e = np.exp(u)
            if e.sum() <= 0:
                continue
            p = e / e.sum()
            ctx.state(list(row))
            for dtype in ('f8', 'f4'):
                uu = u.astype(dtype)
                last = -1
                for r in draws_for(p):
                    slack = 1e-6 if dtype == 'f4' else 1e-13
                    got = int(core.multinomial_sample(uu, r)[0])
                    if got not in allowed(p.tolist(), r, slack) or p[got] <= 0:
                        raise Bad(f'multinomial_sample({row}, {r!r}) gave {got}; probabilities {p.tolist()}')
                    if got < last:
                        raise Bad(f'multinomial_sample({row}) is not monotonic at {r!r}')
                    last = got
                    ctx.step()
                got, _ = core.multinomial_multisample(uu, 50, 7, None)
                if (p[got] <= 0).any():
                    raise Bad(f'multinomial_multisample({row}) drew {got[p[got] <= 0].tolist()} with a probability of 0')
            ctx.trace()
    elif kind == 'nested':
        from mc.trees import reference, sequences
        for seq in sequences(4, 3) + sequences(5, 3):
            if min(seq) == max(seq):
                continue
            n = len(seq)
            depth = []
            for q in seq:
                depth.append(0 if q < 0 else depth[q] + 1)
            hierarchy, levels = np.array(seq), np.array(depth)
            scales = np.where([i in seq for i in range(n)], 0.6, 1.0)
            bottom = np.array([i not in seq for i in range(n)])
            rows = np.array(list(itertools.product([-np.inf, 0.0, 1.0], repeat=n)))
            p, top, _ = reference(rows, seq, scales.tolist(), True)
            for row, pr, t in zip(rows, p, top):
                if t <= 0:
                    continue
                pr = pr / pr.sum()
                last = -1
                for r in draws_for(pr):
                    got = int(core.nested_sample(row, r, hierarchy, levels, scales, bottom, True)[0])
                    if pr[got] <= 0 or got not in allowed(pr.tolist(), r, 1e-12):
                        raise Bad(f'nested_sample({row.tolist()}, {r!r}) on {seq} gave {got}; probabilities {pr.tolist()}')
                    if got < last:
                        raise Bad(f'nested_sample({row.tolist()}) on {seq} is not monotonic at {r!r}')
                    last = got
                    ctx.step()
                got, _ = core.nested_multisample(row, hierarchy, levels, scales, bottom, 20, 3, True, None)
                if (pr[got] <= 0).any():
                    raise Bad(f'nested_multisample({row.tolist()}) on {seq} drew an impossible node')
                ctx.state([seq, row.tolist()])
                ctx.trace()
    elif kind == 'multi':
        # The draws of sample_multi() are the same for every distribution, so they can be bracketed
        seed, n, fine = case['seed'], 200, 4096
        cell = core.sample_multi(np.full(fine, 1 / fine), n, seed, None)
        for w in compositions(16, 4):
            w = np.array(w, dtype='f8')
            for name, got in (('sample_multi', core.sample_multi(w / 16, n, seed, None)),
                              ('simple_multisample', core.simple_multisample(w * 3, n, seed, None))):
                want = np.searchsorted(np.cumsum(w / 16), (cell + 0.5) / fine)
                compare_draws(ctx, f'{name} seed {seed} weights {w.tolist()}', got, want)
            ctx.state(w.tolist())
    elif kind == 'model':
        discrete(case, ctx)


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for i in range(total + 1):
        for rest in compositions(total - i, parts - 1):
            yield (i,) + rest


def compare_draws(ctx, what, got, want):
    import numpy as np
    from mc.lib import Bad
    got, want = np.asarray(got), np.asarray(want)
    ctx.step(want.size)
    ctx.trace()
    ctx.outcome(got.tobytes().hex())
    if got.shape != want.shape or not (got == want).all():
        raise Bad(f'{what}: got {got.tolist()[:40]}, expected {want.tolist()[:40]}')


def discrete(case, ctx):
    """Runs of whole models, whose draws are bracketed by a model with 4096 equal alternatives"""
    import numpy as np
    import pandas as pd
    import cheval
    from cheval import core
    from mc.lib import Bad
    n, fine, seed, draws = 64, 4096, case['seed'], case['draws']

    def run_model(table, build, threads):
        m = cheval.ChoiceModel()
        build(m)
        m.decision_units = pd.RangeIndex(len(table))
        m.add_partial_utilities(pd.DataFrame(table, columns=m.choices))
        r, _ = m.run_discrete(random_seed=seed, n_draws=draws, astype='index', squeeze=False, n_threads=threads)
        return r.to_numpy()

    def flat(k):
        return lambda m: m.add_choices([f'c{i}' for i in range(k)])
    cell = run_model(np.zeros((n, fine)), flat(fine), 2)
    wcell = core.worker_weighted_sample(np.ones((n, fine)), draws, seed)

    def two_nests(m):          # positions: A=0, a=1, b=2, B=3, c=4, d=5
        a = m.add_choice('A', logsum_scale=0.5)
        a.add_choice('a'), a.add_choice('b')
        b = m.add_choice('B')
        b.add_choice('c'), b.add_choice('d')
    for w in compositions(16, case['parts']):
        p = np.array(w) / 16
        want = np.searchsorted(np.cumsum(p), (cell + 0.5) / fine)
        with np.errstate(all='ignore'):
            table = np.tile(np.log(p), (n, 1))
        got = run_model(table, flat(len(w)), 1 + sum(w[:2]) % 4)
        compare_draws(ctx, f'run_discrete seed {seed} draws {draws} probabilities {p.tolist()}', got, want)
        got = core.worker_weighted_sample(np.tile(p * 5, (n, 1)), draws, seed)
        compare_draws(ctx, f'worker_weighted_sample seed {seed} draws {draws} probabilities {p.tolist()}', got,
                      np.searchsorted(np.cumsum(p), (wcell + 0.5) / fine))
        ctx.state(list(w))
        if len(w) == 4:
            # P(a) = P(A) P(a|A), so nests with utilities which cancel their logsums have these exact probabilities
            with np.errstate(all='ignore'):
                pa, pb = p[0] + p[1], p[2] + p[3]
                ua = np.log(p[:2] / pa) * 0.5 if pa > 0 else np.array([0.0, 0.0])
                ub = np.log(p[2:] / pb) if pb > 0 else np.array([0.0, 0.0])
                row = np.array([np.log(pa), ua[0], ua[1], np.log(pb), ub[0], ub[1]])
            got = run_model(np.tile(row, (n, 1)), two_nests, 3)
            compare_draws(ctx, f'nested run_discrete seed {seed} draws {draws} probabilities {p.tolist()}', got,
                          np.array([1, 2, 4, 5])[want])
