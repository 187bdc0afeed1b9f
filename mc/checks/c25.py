"""C25: tracing a decision unit shows how its utilities add up, and changes nothing else."""
META = {
    'jit': False,
    'rule': 'Every sequence of expressions and groups, kind of run, label of a unit and way of setting the label is run with and without tracing. The trace is '
            'compared with the running sums of the reference model, and the results with those of the run without tracing, bit by bit. Loggers have to be told of the same expressions. Histories: every '
            'sequence of runs, pre-evaluations, changes of the traced unit, edits and copies up to a depth. Non-trivial: distinct (units, label, expressions, '
            'kind of run) states.',
    'bounds': {
        'quick': 'every ordered choice of up to 3 of 7 expressions x 2 groupings, on 3 trees; 8 sets of units x every label x both precisions x 5 kinds of runs x '
                 'partial utilities or none; every history of depth 3 over 17 operations (flat), 11 (nested)',
        'thorough': 'every ordered choice of up to 4 of 7 expressions; every history of depth 4 over 17 operations',
    },
    'assumptions': ['the order of evaluation of groups is open; the trace has to be consistent with itself',
                    'a label which is not a decision unit may be rejected, or not be traced'],
}

import itertools

TREES = {'flat': ([-1, -1, -1], ['A', 'B', 'C']), 'nest': ([-1, -1, 0, 0], ['A', 'B', 'C', 'D']), 'deep': ([-1, 0, 0, -1, 2, 2], ['A', 'B', 'C', 'D', 'E', 'F'])}
PARTIAL = ['partial', ['all', 'all', False, False, 'f8']]
RUNS = ['stochastic', 'discrete', 'group', 'prevaluated', 'copied']
UNIT_SETS = [0, 1, 4, 5, 6, 7, 8, 9, 10]


def texts(tree):
    f = 'A.C' if tree != 'flat' else 'C'
    return ['v', f'n * w @ {f}', 'M + x', '{A: 1, %s: 0.5} * t.f' % f, 't.lk.y - y', 'where(M > v, x, -t.f)', 'v']


def operations(tree):
    e = texts(tree)
    core = [['run'], ['run', 'g1'], ['expr', e[0]], ['expr', e[1], 'g1'], ['expr', e[2], 'g2'], ['trace', 0], ['trace', 1], ['trace', None], ['preval', 'g1'], ['copy'], PARTIAL]
    full = core + [['drop', 'g1'], ['run', None, False, 'discrete'], ['expr', e[3]], ['copy', 'low'], ['copy', 'without'], ['spoil']]
    return core, full


def shards(tier):
    out = []
    for tree in TREES:
        for first in range(7):
            out.append({'kind': 'order', 'tree': tree, 'first': first, 'depth': 4 if tier == 'thorough' else 3})
        for units in UNIT_SETS:
            out.append({'kind': 'units', 'tree': tree, 'units': units})
        alpha = operations(tree)[1 if tree == 'flat' or tier == 'thorough' else 0]
        for i in range(len(alpha)):
            out.append({'kind': 'hist', 'tree': tree, 'first': i, 'n': len(alpha), 'depth': 4 if tier == 'thorough' else 3})
    return out


def run(shard, ctx):
    from mc.refmodel import UNITS, sequences
    tree = shard['tree']
    if shard['kind'] == 'order':
        rest = [i for i in range(7) if i != shard['first']]
        for k in range(shard['depth']):
            for seq in itertools.permutations(rest, k):
                for places in ([None] * 9, ['g1', None, 'g2', 'g1']):
                    ctx.do({'kind': 'one', 'tree': tree, 'units': 0, 'at': (k + shard['first']) % 3, 'which': [shard['first'], *seq], 'places': places[:k + 1], 'run': 'stochastic', 'precision': 8, 'partial': k == 1})
    elif shard['kind'] == 'units':
        for at in range(len(UNITS[shard['units']])):
            for kind in RUNS:
                for precision in (8, 4):
                    for partial in (False, True):
                        for init in (False, True):
                            ctx.do({'kind': 'one', 'tree': tree, 'units': shard['units'], 'at': at, 'which': [2, 0, 1, 3], 'places': [None, 'g1', 'g1', None], 'run': kind, 'precision': precision, 'partial': partial, 'init': init})
    else:
        alpha = operations(tree)[0 if shard['n'] == 11 else 1]
        for seq in sequences(alpha, shard['depth'], [shard['first']]):
            ctx.do({'kind': 'hist', 'tree': tree, 'ops': seq})


def rig_of(case, expressions, label=None):
    import cheval
    from mc.refmodel import Rig, used
    from mc.trees import build
    seq, names = TREES[case['tree']]
    rig = Rig(seq, names, precision=case.get('precision', 8))
    if label is not None and case.get('init'):
        rig.m = cheval.ChoiceModel(precision=case.get('precision', 8), debug_id=label)
        build(rig.m, list(seq), names=list(names))
    rig.op_units(case.get('units', 0))
    rig.op_scope(sorted(set().union(*[set.union(*used(e)) for e in expressions])))
    return rig


def judge(rig, label, group, before, what, ctx):
    """The trace of a run of a group, or of everything, which started with the partial utilities `before`"""
    import numpy as np
    import pandas as pd
    s, trace = rig.spec, rig.m.debug_results
    if not isinstance(trace, pd.DataFrame):
        rig.fail(f'{what}: no trace of {label!r}: {trace!r}')
    i = s.units.index(label)
    es = list(trace.index)
    if sorted(es) != sorted(s.expressions(group)):
        rig.fail(f'{what}: trace of {es}, the expressions are {s.expressions(group)}')
    for g in ([group] if group is not None else list(s.groups)):
        mine = list(s.groups[g])
        if not is_subsequence(mine, es):
            rig.fail(f'{what}: trace of {es}, the expressions of group {g} are {mine}')
    if not trace.columns.equals(rig.m.choices):
        rig.fail(f'{what}: columns of the trace are {list(trace.columns)}')
    u = np.zeros(s.n) if before is None else before[i].copy()
    got = trace.to_numpy()
    tol = 1e-9 if rig.m.precision == 8 else 3e-5
    for k, e in enumerate(es):
        u = u + s.value(e)[i]
        ok = (got[k] == u) | (np.isnan(got[k]) & np.isnan(u)) | (np.abs(got[k] - u) <= tol * (1 + np.abs(u)))
        if not ok.all():
            rig.fail(f'{what}: trace of {label!r} after {e!r} is {got[k].tolist()}, expected {u.tolist()}')
    ctx.outcome([str(label), es, np.round(got, 4).tolist()])
    return trace


def is_subsequence(part, whole):
    it = iter(whole)
    return all(x in it for x in part)


def listener():
    import logging
    messages = []

    class Listener(logging.Handler):
        def emit(self, record):
            messages.append(record.getMessage())
    logger = logging.Logger('cheval', logging.DEBUG)
    logger.addHandler(Listener())
    return logger, messages


def is_subsequence_of_texts(texts, messages):
    it = iter(messages)
    return all(any(e in m for m in it) for e in texts)


def results(m, kind, logger=None):
    more = {} if logger is None else {'logger': logger}
    if kind == 'discrete':
        r = m.run_discrete(random_seed=5, astype='index', clear_scope=False, n_draws=2, **more)
    else:
        r = m.run_stochastic(group='g1' if kind == 'group' else None, clear_scope=False, check_infeasible=False, **more)
    return [x.to_numpy().tolist() for x in r]


def run_case(case, ctx):
    if case['kind'] == 'hist':
        return history(case, ctx)
    from mc.refmodel import UNITS
    tree, kind = case['tree'], case['run']
    es = [texts(tree)[i] for i in case['which']]
    label = UNITS[case['units']][case['at']]
    found = []
    for traced in (False, True):
        rig = rig_of(case, es, label if traced else None)
        rig.log = [str(case)]
        for e, g in zip(es, case['places']):
            rig.op_expr(e, g)
        if case['partial']:
            rig.apply(PARTIAL)
        if traced and not case.get('init'):
            rig.m.debug_id = label
        before, group = rig.spec.partial, None
        if kind == 'prevaluated':
            if traced:
                whole = rig.spec.clone()
                rig.must(lambda: rig.m.copy().preval('g1'), 'preval of a copy')
            rig.op_preval('g1')
            before = rig.spec.partial
        elif kind == 'copied':
            source = rig.m
            rig.m = rig.m.copy()
            if source.debug_results is not None or rig.m.debug_results is not None:
                rig.fail('there is a trace before a run')
        elif kind == 'group':
            group = 'g1'
        found.append(rig.must(lambda: results(rig.m, kind), f'a {kind} run'))
        ctx.step()
        if not traced and rig.m.debug_results is not None:
            rig.fail('there is a trace although none was asked for')
        if kind == 'copied' and traced and source.debug_results is not None:
            rig.fail('running a copy traced the original')
    trace = judge(rig, label, group, before, f'{kind} run', ctx)
    if found[0] != found[1]:
        rig.fail(f'the results are {found[1]}, but {found[0]} without tracing')
    # The trace belongs to the user
    keep = trace.copy(deep=True)
    trace.iloc[:, :] = 99.0
    logger, messages = listener()
    again = rig.must(lambda: results(rig.m, kind, logger), 'another run, with a logger')
    if again != found[0] or not rig.m.debug_results.equals(keep):
        rig.fail(f'another run after changing the trace gives {again} and {rig.m.debug_results}, instead of {found[0]} and {keep}')
    if not is_subsequence_of_texts(list(keep.index), messages):
        rig.fail(f'the logger was told {messages}, the expressions are {list(keep.index)}')
    rig.m.debug_id = None
    logger, messages = listener()
    again = rig.must(lambda: results(rig.m, kind, logger), 'another run, with a logger but no trace')
    if again != found[0] or not is_subsequence_of_texts(list(keep.index), messages):
        rig.fail(f'without trace, the logger was told {messages}, the expressions are {list(keep.index)}; results {again} instead of {found[0]}')
    ctx.step(2)
    ctx.state([tree, case['units'], case['at'], case['which'], kind, case['precision']])
    ctx.trace()


def history(case, ctx):
    from mc.refmodel import used
    tree = case['tree']
    rig = rig_of(case, texts(tree))
    rig.log = [tree]
    label = None
    for op in case['ops']:
        before = rig.spec.partial
        rig.log.append(op)
        if op[0] == 'trace':
            label = None if op[1] is None else rig.spec.units[op[1] % len(rig.spec.units)]
            rig.m.debug_id = label
        elif op[0] == 'spoil':   # Not-a-number utilities are refused, but traced
            rig.op_assign('v', 'nan')
        elif op[0] == 'copy' and len(op) > 1:
            import pandas as pd
            mask = [(u == label) == (op[1] == 'low') or i == 2 for i, u in enumerate(rig.spec.units)] if len(rig.spec.units) == 3 else [True] * len(rig.spec.units)
            rig.m = rig.must(lambda: rig.m.copy_subset(pd.Series(mask, index=rig.m.decision_units)), 'copy_subset()')
            rig.spec = rig.spec.subset(mask)
            if label not in rig.spec.units:
                label = None
        elif op[0] == 'run':
            group = op[1] if len(op) > 1 else None
            ran = group is None or group in rig.spec.groups
            rig.observe(*op[1:])
            if ran and label is not None and rig.spec.status(group) == 'ready' and len(rig.spec.expressions(group)) > 0:
                judge(rig, label, group, before, f'run of {group or "everything"}', ctx)
        else:
            getattr(rig, 'op_' + op[0])(*op[1:])
        ctx.step()
        ctx.state([rig.summary(), label])
    if rig.spec.expressions() and rig.spec.status() == 'ready':
        for label in list(rig.spec.units)[:2]:
            rig.m.debug_id = label
            rig.log.append(['trace', label])
            rig.observe()
            judge(rig, label, None, rig.spec.partial, 'the last run', ctx)
    ctx.trace()
