"""C10: utilities add up however the specification is organised."""
META = {
    'jit': False,
    'rule': 'Three families. (a) organisation: a list of expressions in every order and with every assignment of the expressions to the '
            'ungrouped list and two groups is run as a whole, group by group, after pre-evaluating every sequence of groups, and in copies. '
            '(b) histories: every sequence of operations (append to a group, drop a group, add partial utilities of every shape, '
            'pre-evaluate, run, run a group, copy) up to a depth is applied to the model and to a reference which keeps the sum; every '
            'intermediate run and a final one are compared. (c) combining: two specifications are added up, one of the three is edited, and '
            'all three are compared with what was appended. Non-trivial: distinct states of the reference after an operation.',
    'bounds': {
        'quick': '(a) two sets of 5 expressions: every order of 4 of them (one set flat, one nested; every 11th order otherwise) x every '
                 'assignment to 3 places x every sequence of pre-evaluated groups; (b) every history of depth 2 over 46 operations (flat, '
                 'nested, two nests, both precisions), depth 3 over 24 (flat) and 9 (nested), depth 4 over 8 (flat); 50 alternatives x 3000 '
                 'units and 3 x 20000, every order of two partial tables and two pre-evaluations; (c) every deal of up to 4 '
                 'expressions to two specifications and 3 places x 8 edits of either or of the sum',
        'thorough': '(a) every order of 5 expressions, flat and nested; (b) depth 3 over 46 operations, depth 4 over 16, depth 5 over 8',
    },
    'assumptions': ['preval(drop_group=False) followed by a run of everything counts the group twice: only runs of other groups follow it',
                    'a table of partial utilities in another order without the permission to re-index may be rejected or placed by label',
                    'which variables are dropped by preval() is open, except that every variable of a remaining expression stays'],
}

import itertools

TREES = {'flat': ([-1, -1, -1], ['A', 'B', 'C']), 'nest': ([-1, -1, 0, 0], ['A', 'B', 'C', 'D']), 'deep': ([-1, 0, 0, -1, 2, 2], ['A', 'B', 'C', 'D', 'E', 'F'])}


def texts(tree):
    nested = tree != 'flat'
    f = 'A.C' if nested else 'C'
    return {'one': ['v', f'n * w @ {f}', 'M + x', '{A: 1, %s: 0.5} * t.f' % f, 't.lk.y - y'],
            'two': ['where(M > v, x, -t.f)', 't.ag.sum(q) / 2', f'2 @ {f}', 'z * v', 'w']}


OPS_PARTIAL = [['partial', list(p)] for p in [
    ('all', 'all', False, False, 'f8'), ('rev', 'rev', True, True, 'f8'), ('part', 'all', True, False, 'f8'), ('all', 'part', False, True, 'f4'),
    ('odd', 'two', True, True, 'f8'), ('rev', 'all', False, True, 'f8'), ('all', 'rev', False, False, 'f8'), ('part', 'part', False, True, 'f8'),
    ('part', 'part', True, False, 'f8'), ('unknown', 'all', True, True, 'f8'), ('all', 'unknown', True, True, 'f8'), ('unknown', 'unknown', False, False, 'f8'),
    ('rev', 'part', True, True, 'f4')]]


def operations(tree):
    f = 'A.C' if tree != 'flat' else 'C'
    core = [['expr', 'v'], ['expr', f'n * w @ {f}', 'g1'], ['expr', 'M + t.f', 'g1'], ['expr', 'v * x', 'g2'], ['preval', 'g1'], ['preval', 'g2'],
            OPS_PARTIAL[0], OPS_PARTIAL[4], ['copy']]
    mid = core + [['expr', '{A: 1, %s: -0.5} - w' % f, 'g2'], ['expr', 't.lk.y + n', 'g3'], ['preval', 'g1', True, False], ['preval', 'g3'], ['drop', 'g1'],
                  ['drop', 'g2'], ['run'], ['run', 'g1'], ['run', 'g2'], OPS_PARTIAL[1], OPS_PARTIAL[2], OPS_PARTIAL[3], OPS_PARTIAL[9], OPS_PARTIAL[10],
                  ['expr_bad', 'v +* n', 'g1']]
    full = mid + OPS_PARTIAL[5:9] + OPS_PARTIAL[11:] + [
        ['drop', 'g3'], ['run', 'g3'], ['run', None, False, 'discrete'], ['expr', 't.ag.sum(q)', 'g2'], ['expr', 'y', 'g1'], ['expr', '-v @ A'],
        ['expr', 'where(v > w, M, 1)', 'g3'], ['preval', 'nothing'], ['run', 'nothing'], ['expr_bad', 'v is n', 'g2'],
        ['expr_bad', 'v @ A @ B', None], ['expr', 'z', 1], ['run', 1], ['preval', 1], ['copy', 'low'], ['clear_exprs']]
    return core, mid, full


def shards(tier):
    out = []
    for tree in TREES:
        for which, es in texts(tree).items():
            k = 5 if tier == 'thorough' else 4
            if tree == 'deep' and tier == 'quick':
                k = 3
            perms = list(itertools.permutations(range(5), k))
            if tier == 'quick' and (tree, which) not in (('flat', 'one'), ('nest', 'two')):
                perms = perms[::11]
            elif k < 5:
                perms = [p for p in perms if set(p) == set(range(k)) or set(p) == set(range(5 - k, 5))]
            for i in range(8 if k > 3 else 2):
                out.append({'kind': 'org', 'tree': tree, 'which': which, 'perms': perms[i::8 if k > 3 else 2]})
    depths = {'quick': [(2, 'full', 'flat', 8), (2, 'full', 'nest', 4), (2, 'full', 'deep', 8), (3, 'mid', 'flat', 8), (3, 'core', 'nest', 8), (4, 'core8', 'flat', 8), (3, 'core', 'deep', 4)],
              'thorough': [(3, 'full', 'flat', 8), (3, 'full', 'nest', 8), (4, 'mid16', 'flat', 8), (4, 'core', 'deep', 8), (5, 'core8', 'flat', 8), (3, 'mid', 'deep', 4)]}[tier]
    for depth, alpha, tree, precision in depths:
        n = len(alphabet(alpha, tree))
        for i in range(n):
            out.append({'kind': 'hist', 'tree': tree, 'alpha': alpha, 'depth': depth, 'first': i, 'precision': precision})
    out.append({'kind': 'big'})
    out.append({'kind': 'sum'})
    out.sort(key=lambda s: (s['kind'] != 'big', s['kind'] != 'org', -s.get('depth', 0)))
    return out


def alphabet(name, tree):
    core, mid, full = operations(tree)
    return {'core': core, 'core8': core[:8], 'mid': mid, 'mid16': mid[:16], 'full': full}[name]


def run(shard, ctx):
    if shard['kind'] == 'org':
        for p in shard['perms']:
            for places in itertools.product(range(3), repeat=len(p)):
                if next((x for x in places if x), 1) != 1:
                    continue   # The names of the groups are interchangeable
                ctx.do({'kind': 'org', 'tree': shard['tree'], 'which': shard['which'], 'order': list(p), 'places': list(places)})
    elif shard['kind'] == 'sum':
        for n in range(5):
            for k in range(n + 1):
                for places in itertools.product(range(3), repeat=n):
                    for edit in EDITS:
                        for at in 'abc':
                            ctx.do({'kind': 'sum', 'places': list(places), 'left': k, 'edit': edit, 'at': at})
    elif shard['kind'] == 'big':
        for n_alts, n_units in [(50, 3000), (3, 20000)]:
            ctx.do({'kind': 'big', 'alts': n_alts, 'units': n_units})
    else:
        from mc.refmodel import sequences
        ops = alphabet(shard['alpha'], shard['tree'])
        for seq in sequences(ops, shard['depth'], [shard['first']]):
            ctx.do({'kind': 'hist', 'tree': shard['tree'], 'precision': shard['precision'], 'ops': seq})


def fresh(tree, precision=8, units=0, expressions=()):
    from mc.refmodel import Rig, used
    seq, names = TREES[tree]
    rig = Rig(seq, names, precision=precision)
    rig.op_units(units)
    rig.op_scope(sorted(set().union(*[set.union(*used(e)) for e in expressions])))
    return rig


def run_case(case, ctx):
    if case['kind'] == 'big':
        return big(case, ctx)
    if case['kind'] == 'org':
        return organisation(case, ctx)
    if case['kind'] == 'sum':
        return added(case, ctx)
    rig = fresh(case['tree'], case['precision'], 0, [op[1] for op in case['ops'] if op[0] == 'expr'])
    rig.log = [case['tree'], f'precision {case["precision"]}']
    for op in case['ops']:
        rig.apply(op)
        ctx.step()
        ctx.state(rig.summary())
    rig.log.append('final runs')
    for g in list(rig.spec.groups):
        if g is not None:
            rig.observe(g)
    r = rig.observe()
    ctx.outcome(None if r is None else r[2].to_numpy().round(6).tolist())
    ctx.trace()


EDITS = [['append', 'z'], ['append', 'z', 'g1'], ['append', 'n * z', 'g3'], ['drop', 'g1'], ['drop', 'g2'], ['clear'], ['bad', 'v +* 1', 'g1'], ['more', 'g2']]


def added(case, ctx):
    """Two specifications combined by +, and then one of the three edited"""
    import cheval
    from mc.lib import Bad
    texts = ['v', 'n * w', 'where(M > v, x, -t.f)', 't.lk.y - y']
    models = [cheval.ChoiceModel(), cheval.ChoiceModel()]
    want = {'a': {}, 'b': {}}
    for i, p in enumerate(case['places']):
        side, group = 'b' if i >= case['left'] else 'a', [None, 'g1', 'g2'][p]
        target = models['ab'.index(side)].expressions
        target.append(texts[i]) if group is None else target.append(texts[i], group)
        want[side].setdefault(group, []).append(texts[i])
    have = {'a': models[0].expressions, 'b': models[1].expressions}
    have['c'] = have['a'] + have['b']
    want['c'] = {g: want['a'].get(g, []) + want['b'].get(g, []) for g in {**want['a'], **want['b']}}
    ctx.step()

    def judge(when):
        for side in 'abc':
            got = {None: have[side].tolist()}
            for g in ('g1', 'g2', 'g3'):
                try:
                    got[g] = [e.raw for e in have[side].get_group(g)]
                except KeyError:
                    pass
            exp = {None: [], **want[side]}
            if got != exp or sorted(e.raw for e in have[side]) != sorted(e for es in exp.values() for e in es):
                raise Bad(f'{case}: {when}: {side} consists of {got}, expected {exp}')
            from mc.refmodel import used
            for i, names in enumerate((set(have[side].itersimple()), set(have[side].iterchained()))):
                needed = set().union(*[used(e)[i] for es in exp.values() for e in es])
                if not needed <= names:
                    raise Bad(f'{case}: {when}: {side} uses {needed}, but only {names} are listed')
    judge('after adding')
    target, mine = have[case['at']], want[case['at']]
    op, *args = case['edit']
    if op == 'append':
        target.append(args[0]) if len(args) == 1 else target.append(args[0], args[1])
        mine.setdefault(args[1] if len(args) > 1 else None, []).append(args[0])
    elif op == 'more' and args[0] in mine:
        target.append('z + z', args[0])
        mine[args[0]].append('z + z')
    elif op == 'drop' and args[0] in mine:
        target.drop_group(args[0])
        del mine[args[0]]
    elif op == 'clear':
        target.clear()
        mine.clear()
    elif op == 'bad':
        from mc.lib import expect_raise
        expect_raise(str(case), lambda: target.append(args[0], args[1]))
    ctx.step()
    ctx.state([str(want), case['edit'][0], case['at']])
    judge(f'after {op} of {case["at"]}')
    ctx.trace()


def organisation(case, ctx):
    tree = case['tree']
    es = [texts(tree)[case['which']][i] for i in case['order']]
    groups = [[None, 'g1', 'g2'][p] for p in case['places']]

    def start():
        rig = fresh(tree, 8, 0, es)
        rig.log = [tree, list(zip(es, groups))]
        for e, g in zip(es, groups):
            rig.op_expr(e, g)
        return rig
    present = [g for g in ('g1', 'g2') if g in groups]
    plans = [p for k in range(len(present) + 1) for p in itertools.permutations(present, k)]
    rig = start()
    rig.observe()
    for g in present:
        rig.observe(g)
    rig.apply(['run', None, False, 'discrete'])
    ctx.state(rig.summary())
    ctx.step(2 + len(present))
    for plan in plans[1:]:
        rig = start()
        if len(plan) == 1:
            rig.apply(OPS_PARTIAL[4])
        for g in plan:
            rig.apply(['preval', g])
        ctx.state(rig.summary())
        rig.observe()
        for g in present:
            if g not in plan:
                rig.observe(g)
        rig.apply(['copy'])
        rig.observe()
        ctx.step(3 + len(plan))
    if len(present) == 2:        # keep the pre-evaluated group, and only run the other one
        rig = start()
        rig.apply(['preval', 'g1', False, len(es) % 2 == 0])
        rig.observe('g2')
        ctx.step(2)
    for g in present:
        rig = start()
        rig.apply(['drop', g])
        rig.observe()
        ctx.step(2)
    ctx.trace()


def big(case, ctx):
    """Many alternatives and units: the parallel kernels and their index arithmetic"""
    import numpy as np
    import pandas as pd
    import cheval
    from mc.lib import check_close
    M, N = case['alts'], case['units']
    alts = [f'a{i}' for i in range(M)]
    units = pd.Index(np.arange(N)[::-1] * 3 + 1)
    v = (np.arange(N) % 11) / 8
    mat = np.add.outer(np.arange(N) % 7, np.arange(M) % 5) / 8

    def make():
        m = cheval.ChoiceModel()
        m.add_choices(alts)
        m.decision_units = units
        m.declare_vector('v', 0)
        m['v'].assign(v)
        m.declare_matrix('M')
        m['M'].assign(pd.DataFrame(mat, index=units, columns=alts))
        m.expressions.append('v', group='a')
        m.expressions.append('M', group='b')
        m.expressions.append('v * M')
        return m
    p1 = np.add.outer(np.arange(N) % 3, np.arange(M) % 2) / 4
    rows, cols = np.arange(N)[::-2], np.arange(M)[::-2]
    p2 = np.add.outer(rows % 5, cols % 3) / 8
    want = v[:, None] + mat + v[:, None] * mat + p1
    want[np.ix_(rows, cols)] += p2
    for order in itertools.permutations(['p1', 'p2', 'a', 'b'], 4):
        m = make()
        for step in order:
            if step == 'p1':
                m.add_partial_utilities(pd.DataFrame(p1[::-1, ::-1], index=units[::-1], columns=alts[::-1]), reindex_rows=True)
            elif step == 'p2':
                m.add_partial_utilities(pd.DataFrame(p2, index=units[rows], columns=[alts[c] for c in cols]), reindex_rows=True, reindex_columns=True)
            else:
                m.preval(step, n_threads=2)
            ctx.step()
        p, top, terms = m.run_stochastic(n_threads=2)
        check_close(f'{case} order {order}: terms', np.log(terms), want, 1e-9, 1e-9)
        check_close(f'{case} order {order}: probabilities', p, np.exp(want) / np.exp(want).sum(axis=1, keepdims=True), 1e-9)
        ctx.state([case, order])
    ctx.trace()
