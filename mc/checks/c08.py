"""C08: alternative-specific terms touch exactly the alternatives they name."""
META = {
    'jit': False,
    'rule': 'A case is a tree in one construction order with one set of names, precision and number of units. Every node, every nest '
            'with an underscore, every disjoint pair of such keys in both orders, whole dictionaries in several orders, and every '
            '"@" path with every operand kind is evaluated; the utility of every node is recovered from the logsum terms. '
            'Non-trivial: distinct tables of utilities (states are tree x expression).',
    'bounds': {
        'quick': 'every construction order of every tree of 2..6 nodes (99), 3 sets of names, both precisions, 1, 2 and 4 units; a '
                 'flat model of 40 and nested ones of 64 nodes and of 7 levels; 20 kinds of operands; unknown names of 12 kinds',
        'thorough': 'as quick, with every 7-node construction order (393), all triples of keys, and every order of whole dictionaries of '
                    'up to 5 keys',
    },
    'assumptions': ['overlapping keys in one dictionary (A._ together with A.B) are not generated: the last one is to win, by insertion'],
}

import itertools

NAMES = ['plain', 'same', 'prefix']


def names_for(kind, seq):
    out = []
    for i, p in enumerate(seq):
        k = sum(q == p for q in seq[:i])
        if kind == 'plain':
            out.append(f'{"zqmxbkd"[i % 7]}{i}')
        elif kind == 'same':      # siblings differ, but every nest uses the same names as the top level
            out.append(f'{"ba"[k % 2]}{k // 2 or ""}')
        else:
            out.append('a' + 'b_'[i % 2] * (k + 1) + ('' if k else 'c'))
    return out


def shards(tier):
    from mc.trees import sequences
    seqs = [s for n in range(2, 7) for s in sequences(n)] + (sequences(7) if tier == 'thorough' else [])
    seqs += [[-1] * 40, [-1, -1] + [i % 5 - 0 for i in range(0)] + [0, 0, 1, 1] + [2 + i % 4 for i in range(58)],
             [-1, -1, 0, 0, 2, 2, 4, 4, 6, 6, 8, 8, 10, 10], [-1, 0, 0, -1, 1, 1, 3, 3, 5, 5, 2, 2]]
    cases = []
    for i, seq in enumerate(seqs):
        kinds = NAMES if len(seq) <= 5 else [NAMES[i % 3], NAMES[(i + 1) % 3]] if len(seq) <= 7 else ['plain']
        for j, nm in enumerate(kinds):
            cases.append({'seq': seq, 'names': nm, 'units': [1, 2, 4][(i + j) % 3], 'precision': 4 if (i + j) % 4 == 3 else 8, 'tier': tier})
    cases.sort(key=lambda c: -len(c['seq']))
    n = 40 if tier == 'quick' else 160
    return [{'cases': cases[i::n]} for i in range(n)]


def run(shard, ctx):
    for case in shard['cases']:
        ctx.do(case)


class World:
    def __init__(self, case):
        import numpy as np
        import pandas as pd
        import cheval
        from mc.trees import build, depth_of
        seq = self.seq = case['seq']
        self.n, N = len(seq), case['units']
        self.N = N
        names = names_for(case['names'], seq)
        m = cheval.ChoiceModel(precision=case['precision'])
        build(m, seq, names=names)
        self.paths = []
        for i, p in enumerate(seq):
            self.paths.append((self.paths[p] + '.' if p >= 0 else '') + names[i])
        self.kids = [[j for j in range(self.n) if seq[j] == i] for i in range(self.n)]
        self.depth = max(depth_of(seq))
        units = pd.Index([f'u{9 - i}' for i in range(N)])
        m.decision_units = units
        col, row = (lambda a: np.asarray(a, dtype='f8').reshape(-1, 1)), (lambda a: np.asarray(a, dtype='f8').reshape(1, -1))
        v0, v1 = np.array([0.5, -1.25, 2.0, 0.75])[:N], (np.arange(self.n) % 5 - 1.5) / 2
        b0, b1 = np.array([True, False, True, True])[:N], np.arange(self.n) % 2 == 0
        mat = np.outer(v0, v1) + np.arange(self.n) / 16
        m.declare_number('num')
        m['num'].assign(1.75)
        m.declare_vector('v0', 0)
        m['v0'].assign(v0.copy())
        m.declare_vector('v1', 1)
        m['v1'].assign(v1.copy())
        m.declare_vector('b0', 0)
        m['b0'].assign(pd.Series(b0, index=units))
        m.declare_vector('b1', 1)
        m['b1'].assign(b1)
        m.declare_vector('s0', 0)
        m['s0'].assign(pd.Series(['ab', 'a', 'ab', 'b'][:N], index=units))
        m.declare_matrix('mat')
        m['mat'].assign(pd.DataFrame(mat.copy(), index=units, columns=m.choices))
        m.declare_matrix('tam', orientation=1)
        m['tam'].assign(pd.DataFrame(mat.T + 1, columns=units, index=m.choices))
        t0 = cheval.LinkedDataFrame({'f': v0 + 1, 'key': [7, 9, 8, 7][:N], 'id': range(N)}, index=units)
        other = pd.DataFrame({'x': [1.5, -0.5, 0.25]}, index=[7, 8, 9])
        t0.link_to(other, 'lk', on_self='key')
        t0.link_to(cheval.LinkedDataFrame({'who': [0, 1, 2, 3, 0, 1, 0], 'y': [1.0, 0.5, 0.25, 2, 0.5, 1, 1]}), 'ag', on_self='id', on_other='who')
        m.declare_table('t0', 0)
        m['t0'].assign(t0)
        m.declare_table('t1', 1)
        m['t1'].assign(pd.DataFrame({'g': v1[::-1].copy()}, index=m.choices))
        lk, ag = np.array([1.5, 0.25, -0.5, 1.5])[:N], np.array([2.5, 1.5, 0.25, 2.0])[:N]
        full = lambda a: np.broadcast_to(np.asarray(a, dtype='f8'), (N, self.n))
        is_ab = np.array([True, False, True, False])[:N]
        self.operands = {
            '2': full(2), '-1.5': full(-1.5), 'num': full(1.75), 'v0': full(col(v0)), 'v1': full(row(v1)), 'b0': full(col(b0)), 'b1': full(row(b1)),
            'mat': full(mat), 'tam': full(mat + 1), 't0.f': full(col(v0 + 1)), 't1.g': full(row(v1[::-1])), 't0.lk.x': full(col(lk)),
            't0.ag.sum(y)': full(col(ag)), 's0 == "ab"': full(col(is_ab)), '-v0 * v1 + num': full(-col(v0) * row(v1) + 1.75),
            'where(b0 and b1, mat, v0)': full(np.where(col(b0).astype(bool) & row(b1).astype(bool), mat, col(v0))),
            't0.lk.x * t1.g - mat': full(col(lk) * row(v1[::-1]) - mat), 'v0 > v1': full(col(v0) > row(v1)),
            't0.ag.count(y) * mat + tam': full(col([3, 2, 1, 1][:N]) * mat + mat + 1), 'not b1': full(row(~b1))}
        self.m = m
        self.rtol = 2e-6 if case['precision'] == 4 else 1e-10

    def terms(self):
        """The utility of every node"""
        import numpy as np
        ls = self.m.run_stochastic(clear_scope=False, check_infeasible=False)[2].to_numpy().astype('f8')
        u = np.log(ls)
        for i in range(self.n):
            if self.kids[i]:
                u[:, i] -= np.log(ls[:, self.kids[i]].sum(axis=1))
        return u

    def check(self, texts, want, ctx, what):
        import numpy as np
        from mc.lib import Bad, check_close
        m = self.m
        m.expressions.clear()
        for t in texts:
            m.expressions.append(t)
        got = self.terms()
        ctx.step()
        ctx.outcome(np.round(got, 5).tolist())
        ok = np.abs(got - want) <= self.rtol * (2 + np.abs(want))
        if not ok.all():
            r, c = (int(i) for i in np.argwhere(~ok)[0])
            raise Bad(f'{what}: {texts} with alternatives {self.paths}: utility of unit {r} for {self.paths[c]!r} is {got[r, c]!r}, '
                      f'expected {want[r, c]!r}')


def run_case(case, ctx):
    import numpy as np
    from mc.lib import expect_raise
    w = World(case)
    n, N = w.n, w.N
    small, tiny = n <= 7, n <= 5
    at = f"tree {case['seq']} names {case['names']}"
    below = lambda i: [x for k in w.kids[i] for x in [k] + below(k)]
    keys = [(p, [i]) for i, p in enumerate(w.paths)]
    keys += [(w.paths[i] + '._', below(i)) for i in range(n) if w.kids[i]]
    top = [(f"'{p}'", nodes) for p, nodes in keys if '.' not in p]

    def value(pairs):
        u = np.zeros((N, n))
        for (_, nodes), v in pairs:
            u[:, nodes] = v
        return u

    def text(pairs):
        return '{' + ', '.join(f'{k}: {v}' for (k, _), v in pairs) + '}'

    def disjoint(*ks):
        nodes = [i for _, ns in ks for i in ns]
        return len(nodes) == len(set(nodes))
    consts = ['1', '-2.5', '0.1', '1e-3', '3', '-0.7', '5', '0.3']
    vals = [float(c) for c in consts]

    def dict_case(ks, shift=0):
        c = [consts[(i + shift) % len(consts)] for i in range(len(ks))]
        return text(list(zip(ks, c))), value(list(zip(ks, map(float, c))))

    for i, k in enumerate(keys):                    # every key alone
        t, u = dict_case([k], i)
        w.check([t], u, ctx, at)
        if small or i % 7 == 0:
            w.check([f'-{t} * v0 + num'], -u * w.operands['v0'] + 1.75, ctx, at)
            w.check([t, t, f'2 * {t}'], 4 * u, ctx, at)
            w.check([f'where({t} > 0, v1, 0)'], np.where(u > 0, w.operands['v1'], 0), ctx, at)
    for k in top:
        t, u = dict_case([k])
        w.check([t], u, ctx, at)
    pairs = [(a, b) for a, b in itertools.permutations(keys, 2) if disjoint(a, b)]
    for i, ks in enumerate(pairs if small else pairs[::len(pairs) // 200]):     # every pair, in both orders
        t, u = dict_case(list(ks), i)
        w.check([t], u, ctx, at)
        if tiny:
            t1, u1 = dict_case([ks[0]], i + 3)
            t2, u2 = dict_case([ks[1]], i + 4)
            w.check([f'{t1} + {t2}'], u1 + u2, ctx, at)
            w.check([f'{t} + {t1} * v0 - {t2}'], u + u1 * w.operands['v0'] - u2, ctx, at)
            w.check([t, t2], u + u2, ctx, at)
    triples = [ks for ks in itertools.permutations(keys, 3) if disjoint(*ks)] if small else []
    for ks in (triples if case['tier'] == 'thorough' else triples[::max(1, len(triples) // 60)]):
        t, u = dict_case(list(ks), 2)
        w.check([t], u, ctx, at)
    whole = keys[:n]
    orders = [whole, whole[::-1], whole[1::2] + whole[0::2]]
    if case['tier'] == 'thorough' and n <= 5:
        orders = [list(o) for o in itertools.permutations(whole)]
    for i, o in enumerate(orders):
        t, u = dict_case(o, i)
        w.check([t], u, ctx, at)
    ctx.state([case['seq'], case['names'], 'dict'])
    ctx.trace()

    base = {'v1': w.operands['v1'], 'mat': w.operands['mat']}
    for i, p in enumerate(w.paths):                 # filters
        if not small and i % 9:
            continue
        only = np.zeros((N, n))
        only[:, i] = 1
        for j, (op, v) in enumerate(w.operands.items()):
            sep = [' @ ', '@', ' @', '@ '][(i + j) % 4]
            w.check([f'{op}{sep}{p}'], only * v, ctx, at)
            if tiny:
                other = (i + 1) % n
                two = np.zeros((N, n))
                two[:, other] = 1
                w.check(['v1', f'{op}{sep}{p}', 'mat', f'num @ {w.paths[other]}'], only * v + base['v1'] + base['mat'] + 1.75 * two, ctx, at)
        for k in keys[:12]:
            t, u = dict_case([k], i)
            w.check([f'{t} @ {p}'], only * u, ctx, at)
            w.check([f'{t} * mat + v0 @ {p}'], only * (u * base['mat'] + w.operands['v0']), ctx, at)
        ctx.state([case['seq'], case['names'], 'filter', i])
    ctx.trace()

    # Names which match no alternative
    first, nested = w.paths[0], next((p for p in w.paths if '.' in p), None)
    bad = ['nope', first + 'x', first[:-1] + 'Q', first.upper() + '_', first + '.nope', 'nope.' + first, first + '.' + first + '.' + first + '.q.q.q.q.q']
    if nested:
        head, tail = nested.rsplit('.', 1)
        names = {p.split('.')[0] for p in w.paths}
        bad += [head + '.nope', nested + '.nope']
        if tail not in names:
            bad.append(tail)
    for b in bad:
        if b in w.paths:
            continue
        for t in ('{%s: 1}' % b, '{%s: 1, %s: 2}' % (first, b), 'v0 @ ' + b, '2 * mat @ ' + b, '{nope._: 1}'):
            def go():
                w.m.expressions.clear()
                w.m.expressions.append(t)
                return w.terms().tolist()
            expect_raise(f'{at}: {t!r} with alternatives {w.paths}', go)
            ctx.step()
    ctx.count('trees')
