"""C11: the results of a model depend only on its current specification, not on its past."""
META = {
    'jit': False,
    'rule': 'Every history of operations (assign good, other, not-a-number, infeasible, overflowing and misfit data; set decision units; run in '
            'every mode with and without the release of data, succeeding or failing; run and pre-evaluate groups; add partial utilities; append, '
            'reject and drop expressions; declare anew) up to a depth is applied to a ready model and to a reference which derives the utilities '
            'from the current specification only. Every run of the history is compared, then two final runs, then two more after assigning '
            'everything again. Non-trivial: distinct states of the reference after an operation.',
    'bounds': {
        'quick': 'every history of depth 2 over 54 operations (flat, nested, precision 4), depth 3 over 21 (flat), depth 4 over 8 (flat), depth 3 over 12 (nested)',
        'thorough': 'depth 3 over 54 operations (flat), depth 4 over 16 (flat, nested), depth 5 over 9 (flat), depth 6 over 5',
    },
    'assumptions': ['a variable of the alternatives may or may not keep its data when the decision units change',
                    'after a failing run with the release of data switched on the data may or may not have been released',
                    'the precision is not changed after construction'],
}

TREES = {'flat': ([-1, -1, -1], ['A', 'B', 'C']), 'nest': ([-1, -1, 0, 0], ['A', 'B', 'C', 'D'])}

CORE = [['run'], ['run', None, True], ['units', 1], ['refill', 'b'], ['assign', 'v', 'nan'], ['preval', 'g1'],
        ['partial', ['odd', 'two', True, True, 'f8']], ['scope', 'nvwtMx', 'a'], ['assign', 'n', 'b']]
MID = CORE + [['refill', 'a'], ['assign', 'M', 'b'], ['assign', 'v', 'low'], ['run', None, False, 'discrete'], ['units', 3], ['assign', 'v', 'b'], ['run', 'g1'],
              ['run', 'g2', True], ['assign', 't', 'b'], ['expr', 'x'], ['assign_bad', 'v'], ['drop', 'g1']]
FULL = MID + [['units', 0], ['units', 4], ['units', 5], ['units', 2], ['assign', 'v', 'a'], ['assign', 'v', 'high'], ['assign', 'n', 'a'], ['assign', 'n', 'nan'],
              ['assign', 'w', 'b'], ['assign', 'w', 'a'], ['assign', 't', 'a'], ['assign', 't', 'nan'], ['assign', 'M', 'nan'], ['assign', 'M', 'part'],
              ['assign_bad', 'M'], ['assign_bad', 't'], ['assign_bad', 'n'], ['assign_bad', 'w'], ['run', None, True, 'discrete'],
              ['run', None, False, 'stochastic', False], ['run', 'g1', True], ['run', 'g2'], ['preval', 'g2'], ['preval', 'g1', True, False],
              ['partial', ['all', 'all', False, False, 'f8']], ['partial', ['rev', 'part', True, True, 'f4']], ['partial', ['unknown', 'all', True, True, 'f8']],
              ['expr', 'v * n', 'g1'], ['expr', 'w - y', 'g2'], ['expr_bad', 'v is n'], ['drop', 'g2'], ['declare', 'v'], ['declare', 'n']]
ALPHABETS = {'core': CORE, 'core5': CORE[:3] + CORE[3:7:2], 'core8': CORE[:8], 'mid': MID, 'mid12': MID[:12], 'mid16': MID[:16], 'full': FULL}


def shards(tier):
    plan = {'quick': [(2, 'full', 'flat', 8), (2, 'full', 'nest', 8), (2, 'full', 'nest', 4), (3, 'mid', 'flat', 8), (4, 'core8', 'flat', 8), (3, 'mid12', 'nest', 8)],
            'thorough': [(3, 'full', 'flat', 8), (4, 'mid16', 'flat', 8), (4, 'mid16', 'nest', 8), (5, 'core', 'flat', 8), (6, 'core5', 'flat', 4), (3, 'mid', 'nest', 4)]}[tier]
    out = [{'alpha': a, 'tree': t, 'depth': d, 'first': i, 'precision': p} for d, a, t, p in plan for i in range(len(ALPHABETS[a]))]
    return sorted(out, key=lambda s: -s['depth'])


def run(shard, ctx):
    from mc.refmodel import sequences
    for seq in sequences(ALPHABETS[shard['alpha']], shard['depth'], [shard['first']]):
        ctx.do({'tree': shard['tree'], 'precision': shard['precision'], 'ops': seq})


def run_case(case, ctx):
    from mc.refmodel import Rig
    tree = case['tree']
    seq, names = TREES[tree]
    rig = Rig(seq, names, precision=case['precision'])
    rig.log = [tree, f'precision {case["precision"]}']
    rig.op_units(0)
    rig.op_scope('nvwtMx', 'a')
    f = 'A.C' if tree == 'nest' else 'C'
    for text, group in [('v', None), ('n * w', None), ('M', 'g1'), ('t.f', 'g2'), (f'v + t.lk.y @ {f}', 'g2')]:
        rig.op_expr(text, group)
    for op in case['ops']:
        rig.apply(op)
        ctx.step()
        ctx.state(rig.summary())
    rig.log.append('final runs')
    r = rig.observe()
    rig.observe(None, False, 'discrete')
    rig.log.append('assign everything')
    rig.op_scope('nvwtMxy', 'a')
    first = rig.observe()
    again = rig.observe()
    if first is not None and not all(a.equals(b) for a, b in zip(first, again)):
        rig.fail('two runs in a row differ')
    for g in [g for g in rig.spec.groups if g is not None]:
        rig.observe(g)
    ctx.outcome([None if x is None else x[2].to_numpy().round(6).tolist() for x in (r, first)])
    ctx.trace()
