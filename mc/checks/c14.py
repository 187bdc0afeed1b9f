"""C14: a model runs if and only if what it uses is declared and assigned."""
META = {
    'jit': False,
    'rule': 'Every history of operations (declare, assign, misfit assignment; append to the ungrouped expressions and to groups: accepted, rejected '
            'for syntax, rejected or accepted depending on how names have been used before; drop, clear, release, copy, run, pre-evaluate, '
            'set decision units) up to a depth is applied to a model and to a reference, which says of every run whether it has to be refused. '
            'At the end the model and every group are run, then the missing variables are declared and assigned one at a time. '
            'A second family enumerates all subsets of what is missing. Non-trivial: distinct states of the reference.',
    'bounds': {
        'quick': 'every history of depth 2 over 67 operations (flat, nested), depth 3 over 25, depth 4 over 11, depth 5 over 7; every subset of 6 missing pieces x '
                 '5 specifications x 6 modes',
        'thorough': 'depth 3 over 67 operations, depth 4 over 25, depth 5 over 11, depth 6 over 7',
    },
    'assumptions': ['a variable is only used in the way it is declared', 'after release, a variable is undeclared; after a failed run with release, it may be'],
}

import itertools

TREES = {'flat': ([-1, -1, -1], ['A', 'B', 'C']), 'nest': ([-1, -1, 0, 0], ['A', 'B', 'C', 'D'])}

SEVEN = [['expr', 'v'], ['expr', 'n * x', 'g1'], ['expr_bad', 'zz +* v'], ['drop', 'g1'], ['scope', 'nv', 'a'], ['run', None, True], ['expr_if', 'q', 'g2']]
ELEVEN = SEVEN + [['expr_if', 'q.f', 'g3'], ['expr', 't.f', 'g2'], ['units', 1], ['drop', 'g2']]
MID = ELEVEN + [['expr_bad', 'zz is v', 'g1'], ['expr_if', 'q.f'], ['drop', 'g3'], ['clear_exprs'], ['declare', 'x'], ['assign', 'x', 'a'], ['scope', 't', 'a'],
                ['expr_conflict', 't + 1'], ['preval', 'g2'], ['run', 'g1'], ['copy'], ['expr', 'where(v > NEG_INF, 1, NAN) + NEG_INF', 'g2'], ['clear_scope'], ['expr', 'v * n', 'g1']]
FULL = MID + [['expr_bad', '[zz]'], ['expr_bad', 'zz @ A @ B', 'g2'], ['expr_bad', 'zz.f.g if v else 2'], ['expr_bad', 't.f + t'], ['expr_bad', 'zz + zz.f', 'g1'],
              ['expr_bad', '2 + lambda: zz', 'g3'], ['expr_bad', 'v in (zz, 1)'], ['expr_conflict', 'v.f', 'g1'], ['expr_conflict', 'v.f.g'], ['expr_conflict', 't', 'g3'],
              ['expr_conflict', 'v + t * 2', 'g4'], ['expr_if', 'q.f.g + v', 'g1'], ['expr_if', 'n + q', ''], ['expr', 't.lk.y - n', 'g1'], ['expr', 'M @ A', 0], ['expr', 'w', ''],
              ['expr', 'M + w'], ['drop', 0], ['drop', ''], ['run', 0], ['run', ''], ['preval', 0], ['preval', 'g1'], ['preval', 'g1', True, False], ['run', 'g2'],
              ['run', 'g3'], ['run', None, False], ['run', None, False, 'discrete'], ['run', None, True, 'discrete'], ['run', 'g1', True], ['declare', 'v'], ['declare', 'n'],
              ['declare', 't'], ['declare', 'M'], ['assign', 'v', 'b'], ['assign', 'n', 'b'], ['assign', 'M', 'a'], ['assign_bad', 'v'], ['assign_bad', 'M'], ['scope', 'wM', 'a'],
              ['declare_bad', 'NAN'], ['declare_bad', 'OUT'], ['declare_bad', 'NEG_INF']]
ALPHABETS = {'six': SEVEN[:6], 'seven': SEVEN, 'eleven': ELEVEN, 'mid': MID, 'full': FULL}


def shards(tier):
    plan = {'quick': [(2, 'full', 'flat'), (2, 'full', 'nest'), (3, 'mid', 'flat'), (4, 'eleven', 'flat'), (5, 'seven', 'flat')],
            'thorough': [(3, 'full', 'flat'), (4, 'mid', 'flat'), (5, 'eleven', 'flat'), (6, 'seven', 'flat'), (3, 'mid', 'nest')]}[tier]
    out = [{'kind': 'hist', 'alpha': a, 'tree': t, 'depth': d, 'first': i} for d, a, t in plan for i in range(len(ALPHABETS[a]))]
    out += [{'kind': 'subsets', 'spec': i} for i in range(5)]
    return sorted(out, key=lambda s: -s.get('depth', 9))


def run(shard, ctx):
    from mc.refmodel import sequences
    if shard['kind'] == 'subsets':
        for missing in itertools.product([0, 1], repeat=6):
            for order in range(2):
                ctx.do({'kind': 'subsets', 'spec': shard['spec'], 'missing': list(missing), 'order': order})
        return
    for seq in sequences(ALPHABETS[shard['alpha']], shard['depth'], [shard['first']]):
        ctx.do({'kind': 'hist', 'tree': shard['tree'], 'ops': seq})


def run_case(case, ctx):
    from mc.refmodel import Rig, used
    if case['kind'] == 'subsets':
        return subsets(case, ctx)
    seq, names = TREES[case['tree']]
    rig = Rig(seq, names)
    rig.log = [case['tree']]
    rig.op_units(0)
    texts = [op[1] for op in case['ops'] if op[0].startswith('expr')]
    rig.op_declare('n')
    rig.op_declare('v')
    rig.op_assign('v', 'a')
    for op in case['ops']:
        rig.apply(op)
        ctx.step()
        ctx.state(rig.summary())
    rig.log.append('final runs')
    rig.observe()
    for g in ('g1', 'g2', 'g3', 0, ''):
        rig.observe(g)
    # Declare and assign what is missing, piece by piece
    for name in 'nvxtwM':
        if name in rig.spec.scope and rig.spec.scope[name]['values'] is not None and not rig.spec.scope[name]['maybe']:
            continue
        if not any(name in set.union(*used(e)) for e in rig.spec.expressions()):
            continue
        rig.apply(['declare', name])
        rig.observe()
        rig.apply(['assign', name, 'b'])
        rig.observe()
    for g in list(rig.spec.groups):
        if g is not None:
            rig.observe(g)
    r = rig.observe()
    ctx.outcome([rig.spec.status(), None if r is None else r[2].to_numpy().round(6).tolist()])
    ctx.trace()


SPECS = [[('v', None)], [('v', None), ('t.f', 'g')], [('n', 'g'), ('M', None)], [('w @ A', 'g'), ('t.lk.y + v', 'g')], [('{A: 1}', None), ('NEG_INF @ A', 'g')]]


def subsets(case, ctx):
    """All combinations of what may be missing: decision units, a complete tree, declarations, assignments"""
    import pandas as pd
    import cheval
    from mc.lib import Bad
    from mc.refmodel import Data, used
    spec, (no_units, no_tree, no_top, undeclared, unassigned, other) = SPECS[case['spec']], case['missing']
    names = sorted(set().union(*[set.union(*used(e)) for e, _ in spec]))
    victim = None if not names else names[0] if other else names[-1]
    m = cheval.ChoiceModel()
    a = m.add_choice('A')
    if not no_top:
        m.add_choice('B')
    c, d = a.add_choice('C'), a.add_choice('D')
    alts = pd.MultiIndex.from_tuples([('A', '.'), ('B', '.'), ('A', 'C'), ('A', 'D')])
    units = ['u2', 'u0', 'u1']
    if not no_units:
        m.decision_units = units
    data = {n: Data.make(n, 'a', units, alts)[0] for n in names}

    def fill():
        for n in names:
            if n == victim and undeclared:
                continue
            Data.declare(m, n)
            if n != victim or not unassigned:
                try:
                    m[n].assign(data[n])
                except Exception:
                    if not (no_units or no_top):
                        raise

    def append():
        for e, g in spec:
            m.expressions.append(e, g) if g is not None else m.expressions.append(e)
    for f in ([fill, append] if case['order'] else [append, fill]):
        f()
    if no_tree:
        c.add_choice('E')      # A nest with one child
    groups = {g for _, g in spec if g is not None}
    for g in [None, 'g']:
        if g is not None and g not in groups:
            continue
        relevant = set().union(*[set.union(*used(e)) for e, q in spec if g is None or q == g])
        ready = not (no_units or no_tree or no_top or (victim in relevant and (undeclared or unassigned)))
        modes = [('stochastic', lambda: m.run_stochastic(group=g, clear_scope=False, check_infeasible=False))]
        if g is None:
            modes += [('discrete', lambda: m.run_discrete(clear_scope=False, random_seed=1)), ('validate', lambda: m.validate())]
        else:
            modes += [('validate', lambda: m.validate(group=g)), ('preval', lambda: m.copy().preval(g, n_threads=1))]
        for what, call in modes:
            try:
                call()
                got = 'ran'
            except Exception as e:
                got = type(e).__name__
            if ready and got not in ('ran', 'UtilityBoundsError') or not ready and got != 'ModelNotReadyError':
                raise Bad(f'{spec}, order {case["order"]}, units {not no_units}, tree {not no_tree} {not no_top}, {victim} undeclared {undeclared} unassigned {unassigned}: '
                          f'{what} of group {g}: {got}, expected {"a run" if ready else "ModelNotReadyError"}')
            ctx.step()
    ctx.state(case)
    ctx.trace()
