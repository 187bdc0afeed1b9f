"""C02: nested logit results equal the recursive nested-logit formula."""
META = {
    'jit': True,
    'rule': 'A case is one tree (in one order of construction), one assignment of logsum scales and one utility scaling flag, run '
            'over a table whose rows are all tuples of a value alphabet over all of the nodes (nests included); every probability, '
            'total and node term is compared with a recursive evaluation of the formula. Non-trivial: distinct results.',
    'bounds': {
        'quick': 'every tree of 4..6 nodes in every order of construction (97 sequences) x scales {1, 0.5, 0.15}^nests x both scaling flags x '
                 'all 4^n utility rows, and rows in which the children of any set of nests are 40 or 90 off and the nest makes up for it; every 7-node sequence (393) with 2 scale vectors and all 3^7 rows; caterpillars up to depth 9, '
                 'complete trees and wide nests up to 121 nodes; both precisions, 1..8 threads',
        'thorough': 'as quick, with scales {1, 0.6, 0.3, 0.15} up to 6 nodes, {1, 0.4}^nests for 7 nodes and every 8-node sequence (2338)',
    },
    'assumptions': ['exp and log of the platform are accurate to 1e-9 (relative)'],
}

import itertools


def shards(tier):
    from mc.trees import sequences
    cases = []
    for n in (4, 5, 6):
        for seq in sequences(n):
            for prec in ((8,) if n == 6 and tier == 'quick' else (8, 4)):
                cases.append(['seq', seq, prec, 'all'])
    for i, seq in enumerate(sequences(7)):
        cases.append(['seq', seq, 4 if i % 5 == 0 else 8, 'two'])
    if tier == 'thorough':
        for i, seq in enumerate(sequences(8)):
            cases.append(['seq', seq, 4 if i % 5 == 0 else 8, 'two'])
    shapes = []
    for depth in range(2, 10):
        left = []          # caterpillar: every nest has one leaf and one further nest
        parent = -1
        for d in range(depth):
            left += [parent, parent]
            parent = len(left) - 1
        shapes.append(left)
        right, parent = [], -1
        for d in range(depth):
            right += [parent, parent]
            parent = len(right) - 2
        shapes.append(right)
    for fan, depth in ((2, 3), (2, 4), (2, 5), (3, 3), (3, 4)):
        seq, level = [], [-1]
        for d in range(depth):
            nxt = []
            for p in level:
                for _ in range(fan):
                    seq.append(p)
                    nxt.append(len(seq) - 1)
            level = nxt
        shapes.append(seq)
    for roots, kids in ((2, 40), (10, 10), (11, 3), (30, 2)):
        shapes.append([-1] * roots + [r for r in range(roots) for _ in range(kids)])           # breadth first
        shapes.append([x for r in range(roots) for x in [-1] + [r * (kids + 1)] * kids])       # depth first
    for i, seq in enumerate(shapes):
        for prec in (8, 4):
            cases.append(['big', seq, prec, 'all'])
    for c in cases:
        c.append(tier)
    n = 32 if tier == 'quick' else 96
    return [{'cases': cases[i::n]} for i in range(n)]


def run(shard, ctx):
    for case in shard['cases']:
        ctx.do(case)


def rows_for(n, kind):
    import numpy as np
    if kind == 'all':
        a = [-np.inf, -2.0, 0.5, 3.0]
    else:
        a = [-np.inf, -1.0, 2.0]
    return np.array(list(itertools.product(a, repeat=n)))


def big_rows(n):
    import numpy as np
    base = np.cos(np.arange(n) * 1.7) * 2
    rows = [np.zeros(n), base, base[::-1]]
    for i in range(n):
        for v in (-np.inf, 4.0, -30.0):
            r = base.copy()
            r[i] = v
            rows.append(r)
    for i in range(min(n, 12)):
        for j in range(min(n, 12)):
            r = base.copy()
            r[i], r[j] = -np.inf, 3.0
            r[(i + j) % n] = -np.inf
            rows.append(r)
    return np.array(rows)


def balanced_rows(seq, scales, scaling):
    """Utilities of nests whose children are far from 0, made up for by the utility of the nest itself"""
    import numpy as np
    nests = sorted({p for p in seq if p >= 0})[-6:]
    base = np.cos(np.arange(len(seq)) * 1.7)
    rows = []
    for c in (40.0, 90.0, -40.0, -90.0):
        for k in range(1, len(nests) + 1):
            for subset in itertools.combinations(nests, k):
                r = base.copy()
                for i, p in enumerate(seq):
                    if i in subset:
                        r[i] += c if scaling else c * scales[i]
                    if p in subset:
                        r[i] -= c
                rows.append(r)
    return np.array(rows)


def scale_vectors(seq, kind, tier):
    nests = sorted({p for p in seq if p >= 0})
    n = len(seq)
    if kind == 'all' and n <= 6:
        options = (1.0, 0.5, 0.15) if tier == 'quick' else (1.0, 0.6, 0.3, 0.15)
        for combo in itertools.product(options, repeat=len(nests)):
            s = [1.0] * n
            for i, v in zip(nests, combo):
                s[i] = v
            yield s
        # The scale of an alternative without children has no meaning
        yield [0.3 + 0.1 * (i % 4) for i in range(n)]
    elif n <= 8 and tier == 'thorough':
        for combo in itertools.product((1.0, 0.4), repeat=len(nests)):
            s = [1.0] * n
            for i, v in zip(nests, combo):
                s[i] = v
            yield s
    else:
        yield [(0.9, 0.35, 0.6, 0.2)[i % 4] for i in range(n)]
        yield [1.0] * n


def run_case(case, ctx):
    import numpy as np
    import pandas as pd
    import cheval
    from mc.lib import Bad, check_close
    from mc.trees import build, depth_of, reference
    what, seq, prec, kind, tier = case
    n = len(seq)
    rows = big_rows(n) if what == 'big' else rows_for(n, kind)
    if prec == 4:
        rows = rows.astype('f4').astype('f8')
    depth = max(depth_of(seq))
    rtol = 1e-9 if prec == 8 else 1e-5
    for v, scales in enumerate(scale_vectors(seq, kind, tier)):
        for scaling in (True, False):
            m = cheval.ChoiceModel(precision=prec)
            if v % 2:
                # The same names are used within every nest
                nodes = build(m, seq, names=['x' * (1 + sum(q == r for q in seq[:i])) for i, r in enumerate(seq)])
                for node, s in zip(nodes, scales):
                    node.logsum_scale = s
            else:
                nodes = build(m, seq, scales)
            used = rows
            if prec == 8:
                used = np.concatenate([rows, balanced_rows(seq, scales, scaling).reshape(-1, n)])
            p, top, terms = reference(used, seq, scales, scaling)
            ok = top > 0
            used, p, top, terms = used[ok], p[ok], top[ok], terms[ok]
            m.decision_units = pd.RangeIndex(len(used))
            m.add_partial_utilities(pd.DataFrame(used, columns=m.choices))
            threads = 1 + (v + n) % 8
            got_p, got_top, got_terms = m.run_stochastic(n_threads=threads, scale_utilities=scaling)
            names = [nd.name for nd in nodes]
            paths = []
            for i, parent in enumerate(seq):
                paths.append((paths[parent] if parent >= 0 else ()) + (names[i],))
            label = [q + ('.',) * (depth - len(q)) for q in paths] if depth > 1 else names
            at = f'tree {seq} scales {scales} scaling={scaling} precision={prec}'
            show = lambda pos: f'utilities {used[pos[0]].tolist()}'
            leaves = [i for i in range(n) if i not in set(seq)]
            if set(got_p.columns) != {label[i] for i in leaves} or len(got_p.columns) != len(leaves):
                raise Bad(f'{at}: probabilities for {list(got_p.columns)}, expected {[label[i] for i in leaves]}')
            where = {c: j for j, c in enumerate(got_p.columns)}
            gp = got_p.to_numpy()[:, [where[label[i]] for i in leaves]]
            check_close(at + ': probabilities', gp, p[:, leaves], rtol, 1e-14, show=show)
            if not ((gp >= 0).all() and (gp <= 1 + 1e-12).all()):
                raise Bad(at + ': probability outside of [0, 1]')
            if (gp[p[:, leaves] == 0] != 0).any():
                raise Bad(at + ': positive probability below an infeasible nest or for an infeasible alternative')
            check_close(at + ': sum of probabilities', gp.sum(axis=1), np.ones(len(gp)), 1e-9, show=show)
            check_close(at + ': total', got_top.to_numpy(), top, rtol, show=show)
            where = {c: j for j, c in enumerate(got_terms.columns)}
            gt = got_terms.to_numpy()[:, [where[x] for x in label]]
            check_close(at + ': node terms', gt, terms, rtol, show=show)
            ctx.state([seq, scales, scaling, prec])
            ctx.step(len(used))
            ctx.trace()
            ctx.outcome(gp.round(8).tobytes().hex())
            ctx.count('decision_units', len(used))
    ctx.sample({'sequence_of_parents': seq, 'precision': prec})
