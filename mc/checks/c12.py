"""C12: copies and subsets are independent of the original, and equivalent to it."""
META = {
    'jit': False,
    'rule': 'A model in one of several states is copied with every combination of the options of copy(), or restricted by every mask. The '
            'result and the original are compared with the reference, part by part; then every sequence of operations on either side '
            'is applied, and both sides are compared with their own references again. Non-trivial: distinct pairs of reference states.',
    'bounds': {
        'quick': '12 states (flat, nested, both precisions, four kinds of decision units) x 32 combinations of options and 32 masks; after a '
                 'full copy, a subset and a copy of a copy: every sequence of 2 out of 40 (side, operation), every sequence of 3 out of 14; every '
                 'sequence of 3 (run: 2) out of 14 (side, way of adding alternatives), for flat and nested models',
        'thorough': 'every sequence of 3 out of 40 (side, operation) for flat and nested models, every sequence of 4 out of 14, also of the ways of '
                    'adding alternatives',
    },
    'assumptions': ['alternatives which were there before copying are not changed by adding alternatives below them: their nodes are shared by design'],
}

import itertools

TREES = {'flat': ([-1, -1, -1], ['A', 'B', 'C']), 'nest': ([-1, 0, 0, -1], ['A', 'B', 'C', 'D'])}

STATES = {
    'ready': [],
    'partial': [['partial', ['odd', 'two', True, True, 'f8']]],
    'preval': [['preval', 'g1']],
    'unassigned': [['declare', 'v'], ['declare', 't']],
    'released': [['run', None, True]],
    'other': [['units', 1], ['assign', 'v', 'b']],
    'grown': [['expr', 'x @ A', 'g3'], ['expr', 's.g + y'], ['partial', ['all', 'all', False, False, 'f8']], ['preval', 'g2', True, False]],
    'nounits': None,
}

OPS = [['assign', 'v', 'b'], ['assign', 'n', 'b'], ['preval', 'g1'], ['partial', ['odd', 'two', True, True, 'f8']], ['units', 1], ['drop', 'g1'], ['expr', 'x', 'g1'],
       ['assign', 'M', 'b'], ['assign', 't', 'b'], ['assign', 'w', 'b'], ['expr', '2 * x'], ['expr', 'y * v', 'g3'], ['preval', 'g2'], ['clear_exprs'],
       ['clear_scope'], ['run', None, True], ['run', 'g2', True], ['declare', 'v'], ['refill', 'b'], ['copy']]


def shards(tier):
    out = []
    for tree in TREES:
        for state in STATES:
            for precision, units in ([(8, 4)] if tree == 'flat' else [(8, 6)]) + ([(4, 7)] if state in ('ready', 'preval') else []):
                base = {'tree': tree, 'state': state, 'precision': precision, 'units': units}
                out.append({'kind': 'options', 'base': base})
                if STATES[state] is not None:
                    out.append({'kind': 'masks', 'base': base})
    deep = {'quick': [('full', 20, 2, 'flat', 'partial', 'copy'), ('full', 20, 2, 'nest', 'ready', 'subset'), ('full', 20, 2, 'flat', 'ready', 'twice'),
                      ('small', 7, 3, 'flat', 'ready', 'copy'), ('small', 7, 3, 'flat', 'partial', 'subset')],
            'thorough': [('full', 20, 3, 'flat', 'partial', 'copy'), ('full', 20, 3, 'nest', 'ready', 'subset'), ('small', 7, 4, 'flat', 'ready', 'copy'),
                         ('small', 7, 4, 'nest', 'partial', 'subset'), ('small', 7, 4, 'flat', 'ready', 'twice')]}[tier]
    for _, n, depth, tree, state, how in deep:
        for side in (0, 1):
            for first in range(n):
                out.append({'kind': 'ops', 'n': n, 'depth': depth, 'first': [side, first], 'how': how,
                            'base': {'tree': tree, 'state': state, 'precision': 8, 'units': 4}})
    for tree in TREES:
        for how in ('copy', 'subset', 'twice', 'subset of copy'):
            for first in itertools.product((0, 1), range(len(GROW))):
                out.append({'kind': 'tree', 'tree': tree, 'how': how, 'first': list(first), 'depth': 4 if tier == 'thorough' else 3})
    return sorted(out, key=lambda s: -s.get('depth', 9))


def run(shard, ctx):
    if shard['kind'] == 'tree':
        every = [[side, i] for side in (0, 1) for i in range(len(GROW))]
        for depth in range(1, shard['depth'] + 1):
            for seq in itertools.product(every, repeat=depth):
                if seq[0] == shard['first']:
                    ctx.do({'kind': 'tree', 'tree': shard['tree'], 'how': shard['how'], 'ops': list(seq), 'runs': depth < shard['depth']})
        return
    base = shard['base']
    if shard['kind'] == 'options':
        for flags in itertools.product([True, False], repeat=5):
            ctx.do({**base, 'how': 'options', 'flags': list(flags), 'ops': []})
    elif shard['kind'] == 'masks':
        for mask in itertools.product([True, False], repeat=2 if base['state'] == 'other' else 5):
            ctx.do({**base, 'how': 'mask', 'mask': list(mask), 'ops': []})
    else:
        actions = [[side, op] for side in (0, 1) for op in OPS[:shard['n']]]
        first = [shard['first'][0], OPS[shard['first'][1]]]
        for rest in itertools.product(actions, repeat=shard['depth'] - 1):
            ctx.do({**base, 'how': shard['how'], 'ops': [first, *rest]})


# Alternatives added at the top level, by name, with their own alternatives below: new ones, and ones which replace others
GROW = [[('E', 1.0, [])], [('A', 0.5, [])], [('B', 1.0, ['P', 'Q'])], [('F', 1.0, []), ('G', 1.0, [])], [('E', 0.25, ['P', 'Q', 'R'])], [('D', 1.0, [])],
        [('D', 0.5, ['A', 'B'])]]


def grown(case, ctx):
    import pandas as pd
    import cheval
    from mc.lib import Bad
    seq, names = TREES[case['tree']]
    units = ['u2', 'u0', 'u1', 'u4', 'u3']

    def model(tree, units):
        m, nodes = cheval.ChoiceModel(), {}
        for path, scale in tree.items():
            parent, _, name = path.rpartition('.')
            nodes[path] = nodes[parent].add_choice(name, logsum_scale=scale) if parent else m.add_choice(name, logsum_scale=scale)
        m.decision_units = pd.Index(units)
        m.declare_vector('v', 0)
        m.expressions.append('v * 2 @ A'), m.expressions.append('-v @ B' if case['tree'] == 'flat' else '-v @ D'), m.expressions.append('v - 1')
        m['v'].assign(pd.Series([V[u] for u in units], index=units))
        return m
    V = {'u0': 0.5, 'u1': -1.0, 'u2': 0.25, 'u3': 2.0, 'u4': 0.0}
    tree = {}
    for i, parent in enumerate(seq):
        path = names[i] if parent < 0 else names[parent] + '.' + names[i]
        tree[path] = 0.5 if i in seq else 1.0
    first = model(tree, units)
    second, theirs = first, units
    if case['how'] != 'subset':
        second = second.copy()
    if case['how'] == 'twice':
        second = second.copy()
    if 'subset' in case['how']:
        mask = [True, False, True, False, True]
        second, theirs = second.copy_subset(pd.Series(mask, index=units)), [u for u, x in zip(units, mask) if x]
    sides, log = [[first, dict(tree), units], [second, dict(tree), theirs]], []

    def compare():
        for who, (m, mine, rows) in zip(('original', 'copy'), sides):
            fresh = model(mine, rows)
            what = f'{case["tree"]}, {case["how"]}, {log}: {who}'
            if list(m.choices) != list(fresh.choices) or list(m.elemental_choices) != list(fresh.elemental_choices) or m.depth != fresh.depth:
                raise Bad(f'{what} has the alternatives {list(m.choices)}, expected {list(fresh.choices)}')
            results = zip(m.run_stochastic(clear_scope=False), fresh.run_stochastic(clear_scope=False)) if case['runs'] else []
            for got, want in results:
                if not got.equals(want):
                    raise Bad(f'{what} gives\n{got}\nexpected\n{want}')
            ctx.step()
    compare()
    for side, i in case['ops']:
        m, mine, _ = sides[side]
        log.append(('copy' if side else 'original', GROW[i]))
        batch = [(name, scale) for name, scale, below in GROW[i] if not below]
        if len(batch) > 1:
            m.add_choices([n for n, _ in batch], [s for _, s in batch])
        for name, scale, below in GROW[i]:
            for path in [p for p in mine if p == name or p.startswith(name + '.')]:
                del mine[path]
            mine[name] = scale
            if len(batch) > 1:
                continue
            node = m.add_choice(name, logsum_scale=scale)
            for b in below:
                node.add_choice(b)
                mine[f'{name}.{b}'] = 1.0
        ctx.state([list(s[1]) for s in sides])
    compare()
    ctx.outcome([list(s[1].items()) for s in sides])
    ctx.trace()


def original(case):
    from mc.refmodel import Rig
    seq, names = TREES[case['tree']]
    rig = Rig(seq, names, precision=case['precision'])
    rig.log = [[case[k] for k in ('tree', 'state', 'precision', 'units', 'how')] + [case.get('flags') or case.get('mask')]]
    f = 'A.C' if case['tree'] == 'nest' else 'C'
    for text, group in [('v + w', None), ('n * w', None), ('M', 'g1'), ('t.f', 'g2'), (f'v + t.lk.y @ {f}', 'g2')]:
        rig.op_expr(text, group)
    if STATES[case['state']] is None:
        rig.op_scope('n', 'a')
        for name in 'vwtM':
            rig.op_declare(name)
        return rig
    rig.op_units(case['units'])
    rig.op_scope('nvwtMxy' + ('s' if case['state'] == 'grown' else ''), 'a')
    for op in STATES[case['state']]:
        rig.apply(op)
    return rig


def copied(rig, case):
    """The copy, with its own reference"""
    import pandas as pd
    from mc.refmodel import Rig
    how, spec = case['how'], rig.spec
    if how in ('mask', 'subset'):
        mask = case['mask'] if how == 'mask' else [True, False, True, True, False]
        series = pd.Series(mask, index=rig.m.decision_units, dtype=bool)
        if len(set(mask)) == 2 and len(mask) == 5:
            other = series.iloc[::-1]
            rig.must_not(lambda: rig.m.copy_subset(other), 'copy_subset() by a mask in another order')
        keep = series.copy()
        new = Rig(model=rig.must(lambda: rig.m.copy_subset(series), 'copy_subset()'), spec=spec.subset(mask))
        if not keep.equals(series):
            rig.fail('copy_subset() changed the mask')
    else:
        flags = case.get('flags', [True] * 5)
        options = dict(zip(('decision_units', 'scope_declared', 'scope_assigned', 'expressions', 'utilities'), flags))
        s = spec.clone()
        if not (options['decision_units'] or options['scope_assigned']):
            s.units = None
        if not options['scope_assigned']:
            for entry in s.scope.values():
                entry['values'] = None
        if not (options['scope_assigned'] or options['scope_declared']):
            s.scope = {}
        if not options['expressions']:
            s.groups = {None: []}
        if not options['utilities']:
            s.partial = None
        new = Rig(model=rig.must(lambda: rig.m.copy(**options), 'copy()'), spec=s)
        if how == 'twice':
            new = Rig(model=new.m.copy(), spec=s.clone())
    new.log = ['copy of'] + list(rig.log)
    return new


def look(rig):
    """Everything observable, without changing anything"""
    s = rig.spec
    for name in s.scope:
        if not s.scope[name]['maybe']:
            rig.must(lambda: rig.m[name], f'variable {name}')
    for name in 'nvwtMxyzs':
        if name not in s.scope:
            rig.must_not(lambda: rig.m[name], f'variable {name}', ['KeyError'])
    if s.units is None:
        rig.must_not(lambda: rig.m.decision_units, 'decision units', ['ModelNotReadyError'])
    elif list(rig.m.decision_units) != s.units:
        rig.fail(f'decision units are {list(rig.m.decision_units)}, expected {s.units}')
    if list(rig.m.choices) != list(rig.alts) or rig.m.precision not in (4, 8):
        rig.fail(f'alternatives are {list(rig.m.choices)}')
    out = [rig.observe()]
    for g in ('g1', 'g2', 'g3'):
        out.append(rig.observe(g))
    return out


def run_case(case, ctx):
    if case.get('kind') == 'tree':
        return grown(case, ctx)
    rig = original(case)
    new = copied(rig, case)
    if new.m.precision != rig.m.precision:
        new.fail(f'precision {new.m.precision}')
    sides = [rig, new]
    if case['how'] in ('options', 'mask'):
        a, b, c = look(new), look(rig), look(new)
        if case['how'] == 'mask':
            for x, y in zip(a, b):
                if x is not None and y is not None:
                    for got, want in zip(x, y):
                        if not got.equals(want[case['mask']]):
                            new.fail(f'the results of the subset are not those of the original for its units:\n{got}\n{want}')
        new.observe(None, False, 'discrete')
        new.observe(None, True)
        look(rig)
        if rig.spec.units is None:
            rig.op_units(case['units'])
        if new.spec.units is None:
            new.op_units(case['units'])
        rig.op_refill('a')
        if new.spec.units:
            new.op_refill('b')
        look(new)
        look(rig)
        for i, me in enumerate([new, rig] if sum(case.get('flags') or [0]) % 2 else [rig, new]):
            # Partial utilities and expressions given to one of them
            for op in (['partial', ['all', 'all', False, False, 'f8']], ['expr', 'x'], ['preval', 'g2']):
                me.apply(op)
            look(rig)
            look(new)
        ctx.step(14)
    for i, (side, op) in enumerate(case['ops']):
        me, other = sides[side], sides[1 - side]
        me.log = me.log + [] + [f'{"copy" if side else "original"}:']
        other.log = other.log + [f'{"copy" if side else "original"}: {op}']
        me.apply(op)
        ctx.step()
        ctx.state([rig.summary(), new.summary()])
    if case['ops']:
        for s in (sides if case['ops'][-1][0] else sides[::-1]):
            s.observe()
            for g in list(s.spec.groups):
                if g is not None:
                    s.observe(g)
            s.op_refill('a')
            s.observe()
        sides[0].observe()
    ctx.state([case['base'] if 'base' in case else case['state'], rig.summary(), new.summary()])
    ctx.outcome([x.summary() for x in sides])
    ctx.trace()
