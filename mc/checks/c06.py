"""C06: run outputs are labelled with the right units and alternatives."""
META = {
    'jit': False,
    'rule': 'A case is a tree in one construction order with one set of names, one kind of unit labels, and one combination of run '
            'options. Units have one possible alternative each (so the reported label is known) or several (so it is decided by the '
            'positional result for the same seed). Non-trivial: distinct labelled outputs.',
    'bounds': {
        'quick': 'every tree of 2..6 nodes in every construction order (99 sequences) x 12 kinds of unit labels x all result types x '
                 '1..3 draws x squeeze x name; 4 trees of 4 to 6 levels; 9..101 draws of 3 trees; flat models of 2..40, 127..129, 255..257 and 300 alternatives; 5 sets of names',
        'thorough': 'as quick, with every 7-node sequence (393), flat models of 2..300 alternatives, 1..6 draws',
    },
    'assumptions': ['the interpreted (uncompiled) bodies of the numeric kernels are run; compiled code is decided by C01-C05'],
}

import itertools

INDEXES = ['range', 'int', 'str', 'multi', 'float', 'date', 'named', 'dup', 'cat', 'bool', 'tuple3', 'neg']
NAMES = ['plain', 'reverse', 'digits', 'spaces', 'same']


# Nests within nests within nests
DEEP = [[-1, 0, 1, 2, 2, 1, 0, -1], [-1, -1, 1, 1, 2, 2, 5, 5], [-1, 0, 0, 1, 1, 4, 4, 5, 5, 8, 8, -1], [-1, -1, 0, 0, 2, 2, 4, 4, 1, 1, 9, 9, 11, 11, 13, 13]]


def shards(tier):
    from mc.trees import sequences
    cases = []
    seqs = [s for n in range(2, 7) for s in sequences(n)] + (sequences(7) if tier == 'thorough' else [])
    for i, seq in enumerate(seqs):
        names = NAMES if len(seq) <= 4 else [NAMES[i % 5], NAMES[(i + 2) % 5]]
        for j, nm in enumerate(names):
            cases.append({'seq': seq, 'names': nm, 'index': INDEXES[(i + j) % 12], 'full': len(seq) <= 5})
    for index in INDEXES:
        for seq in ([-1, -1, -1], [-1, 0, 0, -1], [-1, -1, 1, 1]):
            cases.append({'seq': seq, 'names': 'reverse', 'index': index, 'full': True})
    for n in (list(range(7, 41)) + [127, 128, 129, 255, 256, 257, 300] if tier == 'quick' else range(7, 301)):
        cases.append({'seq': [-1] * n, 'names': NAMES[n % 3], 'index': INDEXES[n % 12], 'full': False})
    for seq in ([-1, -1, -1], [-1, 0, 0, -1], [-1] * 12):
        for index in INDEXES[:4] if tier == 'quick' else INDEXES:
            cases.append({'seq': seq, 'names': 'plain', 'index': index, 'full': False, 'draws': [9, 10, 11, 12, 25, 101] + ([300, 1001] if tier != 'quick' else [])})
    for i, seq in enumerate(DEEP):
        for j, nm in enumerate(NAMES):
            cases.append({'seq': seq, 'names': nm, 'index': INDEXES[(i + j) % 12], 'full': i < 2})
    for n in (20, 60):
        cases.append({'seq': [-1, -1] + [i % 2 for i in range(n * 2)], 'names': 'plain', 'index': 'int', 'full': False})
    for c in cases:
        c['tier'] = tier
    n = 24 if tier == 'quick' else 64
    return [{'cases': cases[i::n]} for i in range(n)]


def run(shard, ctx):
    for case in shard['cases']:
        ctx.do(case)


def make_index(kind, n):
    import pandas as pd
    if kind == 'range':
        return pd.RangeIndex(3, 3 + n)
    if kind == 'int':
        return pd.Index([(i * 37 + 11) % 997 for i in range(n)])
    if kind == 'neg':
        return pd.Index([-i for i in range(n)])
    if kind == 'str':
        return pd.Index([f'unit {n - i}' for i in range(n)])
    if kind == 'multi':
        return pd.MultiIndex.from_tuples([(100 - i // 3, 'xyz'[i % 3]) for i in range(n)], names=['hh', 'p'])
    if kind == 'tuple3':
        return pd.MultiIndex.from_tuples([(i % 2, 5 - i % 5, i) for i in range(n)])
    if kind == 'float':
        return pd.Index([i * 0.5 for i in range(n, 0, -1)])
    if kind == 'date':
        return pd.date_range('2020-01-31', periods=n, freq='D')[::-1]
    if kind == 'named':
        return pd.Index([i * 10 for i in range(n)], name='0')
    if kind == 'dup':
        return pd.Index([i // 2 for i in range(n)], name='zone')
    if kind == 'cat':
        return pd.CategoricalIndex([f'k{i}' for i in range(n)][::-1])
    return pd.Index([i % 2 == 0 for i in range(n)])


def make_names(kind, seq):
    out = []
    for i, parent in enumerate(seq):
        if kind == 'plain':
            out.append(f'c{i}')
        elif kind == 'reverse':
            out.append(f'{chr(122 - i % 26)}{i}')
        elif kind == 'digits':
            out.append(str(900 - 7 * i))
        elif kind == 'spaces':
            out.append(f'the {"é" if i % 2 else "_"} {i}')
        else:
            k = sum(p == parent for p in seq[:i])
            out.append('ab'[k % 2] * (k // 2 + 1))
    return out


def run_case(case, ctx):
    import numpy as np
    import pandas as pd
    import cheval
    from mc.lib import Bad
    from mc.trees import build, depth_of
    seq, names = case['seq'], make_names(case['names'], case['seq'])
    depth, n = max(depth_of(seq)), len(seq)
    paths = []
    for i, p in enumerate(seq):
        paths.append((paths[p] if p >= 0 else ()) + (names[i],))
    labels = [q + ('.',) * (depth - len(q)) for q in paths] if depth > 1 else names
    kids = set(seq)
    leaves = [i for i in range(n) if i not in kids]

    def ancestors(i):
        while i >= 0:
            yield i
            i = seq[i]

    # One unit for every leaf, in an order unlike the one of the leaves, and a few units with two possible leaves
    only = leaves[1::2] + leaves[0::2][::-1]
    table = np.full((len(only) + 3, n), -np.inf)
    for r, leaf in enumerate(only):
        table[r, list(ancestors(leaf))] = 0.25 * (r % 5)
    for r in range(3):
        for leaf in (leaves[r % len(leaves)], leaves[(r * 2 + 1) % len(leaves)]):
            table[len(only) + r, list(ancestors(leaf))] = 0.0
    index = make_index(case['index'], len(table))
    at = f'{case}'

    def model():
        m = cheval.ChoiceModel()
        build(m, seq, names=names)
        m.decision_units = index
        m.add_partial_utilities(pd.DataFrame(table, index=index, columns=m.choices))
        return m

    m = model()
    if list(m.choices) != labels:
        raise Bad(f'{at}: choices are {list(m.choices)}, expected {labels}')
    if list(m.elemental_choices) != [labels[i] for i in leaves]:
        raise Bad(f'{at}: elemental choices are {list(m.elemental_choices)}, expected {[labels[i] for i in leaves]}')

    p, top, terms = m.run_stochastic(n_threads=1)
    for what, obj in (('probabilities', p), ('total', top), ('terms', terms)):
        if not obj.index.equals(index) or list(obj.index.names) != list(index.names):
            raise Bad(f'{at}: index of {what} is {obj.index}')
    if list(p.columns) != [labels[i] for i in leaves]:
        raise Bad(f'{at}: columns of probabilities are {list(p.columns)}')
    if list(terms.columns) != labels:
        raise Bad(f'{at}: columns of terms are {list(terms.columns)}')
    pv = p.to_numpy()
    for r, leaf in enumerate(only):
        got = [labels[leaves[j]] for j in np.nonzero(pv[r] > 0)[0]]
        if got != [labels[leaf]]:
            raise Bad(f'{at}: unit {r} can only choose {labels[leaf]}, but {got} have a probability')
    ctx.step()
    ctx.trace()

    types = ['category', 'index', object]
    if depth == 1:
        types += [str, 'object']
        if case['names'] == 'digits':
            types += [int, 'int64', float]
    draws = range(1, 4 if case['tier'] == 'quick' else 7) if case['full'] else (1, 2)
    draws = case.get('draws') or draws
    for seed in (3, 77):
        for k in draws:
            base, base_ls = model().run_discrete(random_seed=seed, n_draws=k, astype='index', squeeze=False)
            if not isinstance(base, pd.DataFrame) or base.shape != (len(table), k):
                raise Bad(f'{at}: positional result has shape {getattr(base, "shape", None)}')
            pos = base.to_numpy()
            for r, leaf in enumerate(only):
                if (pos[r] != leaf).any():
                    raise Bad(f'{at}: unit {r} can only choose position {leaf}, got {pos[r].tolist()}')
            for a in types:
                for squeeze in ((True, False) if case['full'] else (True,)):
                    for name in ((None, 'mode', 'x y') if case['full'] else ('mode',)):
                        r, ls = model().run_discrete(random_seed=seed, n_draws=k, astype=a, squeeze=squeeze, result_name=name)
                        ctx.step()
                        opt = f'{at} seed {seed} draws {k} astype {a} squeeze {squeeze} name {name}'
                        if not isinstance(ls, pd.Series) or not ls.index.equals(index) or not np.allclose(ls, base_ls, rtol=1e-12):
                            raise Bad(f'{opt}: logsum is {ls}')
                        if not r.index.equals(index) or list(r.index.names) != list(index.names):
                            raise Bad(f'{opt}: index is {r.index}')
                        if k == 1 and squeeze:
                            if not isinstance(r, pd.Series) or r.name != name:
                                raise Bad(f'{opt}: returned {type(r)} named {getattr(r, "name", None)}')
                            cols = [r]
                        else:
                            if not isinstance(r, pd.DataFrame) or r.shape[1] != k or list(r.columns) != list(range(k)) or r.columns.name != name:
                                raise Bad(f'{opt}: returned {type(r)} with columns {getattr(r, "columns", None)}')
                            cols = [r.iloc[:, j] for j in range(k)]
                        for j, col in enumerate(cols):
                            got = list(col)
                            if a == 'index':
                                want = pos[:, j].tolist()
                            elif a in (int, 'int64', float):
                                want = [int(labels[i]) for i in pos[:, j]]
                                if col.dtype.kind != ('f' if a is float else 'i'):
                                    raise Bad(f'{opt}: dtype is {col.dtype}')
                            else:
                                want = [labels[i] for i in pos[:, j]]
                            if a == 'category' and not isinstance(col.dtype, pd.CategoricalDtype):
                                raise Bad(f'{opt}: dtype is {col.dtype}')
                            if got != want:
                                raise Bad(f'{opt}: draw {j} is {got[:12]}, expected {want[:12]}')
            ctx.state([case['seq'], case['names'], case['index'], seed, k])
            ctx.outcome([labels, pos.tolist()])
            ctx.trace()
    if depth > 1:     # Text results of nested models have to be path tuples or a rejection
        for a in (str, 'U10'):
            try:
                r, _ = model().run_discrete(random_seed=3, astype=a)
            except Exception:
                continue
            if not all(v == labels[leaf] or v == str(labels[leaf]) for v, leaf in zip(list(r), only)):
                raise Bad(f'{at}: astype {a} returned {list(r)[:10]}')
