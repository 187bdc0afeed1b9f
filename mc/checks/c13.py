"""C13: the choice tree stays consistent under every construction history."""
META = {
    'jit': False,
    'rule': 'Every sequence of construction operations (one or several top-level choices, nested choices at every node that exists, names '
            'which exist already, illegal names and scales alone and within batches, single-use iterables, changes of scales) up to a depth '
            'is applied to a model and to a reference tree, with and without looking at the model, running it and giving it partial '
            'utilities in between. Afterwards everything observable is compared, and the model is run if the tree is valid and has to '
            'refuse otherwise. Non-trivial: distinct trees (nodes, order, scales, partial utilities).',
    'bounds': {
        'quick': 'every sequence of up to 3 out of 42 operations, up to 4 out of 21, up to 5 out of 11, up to 7 out of 6; up to 4 out of 14 on a tree of four levels',
        'thorough': 'every sequence of up to 4 out of 42 operations, 5 out of 21, 6 out of 11, 8 out of 6; 5 out of 14 on a tree of four levels',
    },
    'assumptions': ['nodes which have been replaced are not used anymore', 'data assigned before the tree changes is not used afterwards'],
}

SIX = [['top', 'a'], ['top', 'b'], ['sub', 'a', 'c'], ['sub', 'a', 'b'], ['sub', 'a.b', 'a'], ['partial']]
TEN = SIX + [['sub', 'a.b', 'b'], ['sub', 'b', 'a'], ['batch', ['b', 'a'], None, 'list'], ['bad', 'top', 'a', 0.0], ['batch', ['b'], None, 'generator']]
TWENTY = TEN + [['look'], ['top', 'c', 0.5], ['top', 'a', 0.25], ['sub', 'a', 'c', 0.5], ['sub', 'b', 'b'], ['batch', ['c', 'b'], [0.5, 1.0], 'iter'],
                ['badbatch', ['a', '_'], None], ['badbatch', ['c', 'a'], [1.0, 1.5]], ['bad', 'a', 'b', 1.5], ['scale', 'a', 0.75]]
ALL = TWENTY + [['batch', ['a', 'a', 'd'], None, 'tuple'], ['batch', ['d', 'c'], [0.5, 0.25], 'dict'], ['batch', [], None, 'list'],
                ['batch', ['ab', 'a'], None, 'index'], ['bad', 'top', 'a.b', 1.0], ['bad', 'top', '_', 1.0], ['bad', 'top', 'b', -0.5], ['bad', 'top', 'b', float('nan')],
                ['bad', 'a', '_', 1.0], ['bad', 'a', 'c.d', 1.0], ['bad', 'b', 'a', 0.0], ['bad', 'a.b', 'a', 2.0], ['badbatch', ['b', 'x.y', 'a'], None],
                ['badscale', 'a', 0.0], ['badscale', 'b', 1.25], ['scale', 'b', 0.5], ['top', 'ab'], ['sub', 'ab', 'a'], ['top', 'a_'], ['sub', 'a.b.a', 'c'], ['run']]
# Further operations on a tree of four levels
START = [['top', 'a'], ['top', 'b'], ['sub', 'a', 'b'], ['sub', 'a', 'a', 0.5], ['sub', 'a.a', 'a'], ['sub', 'a.a', 'b'], ['sub', 'a.a.a', 'a'], ['sub', 'a.a.a', 'b']]
DEEP = [['top', 'a'], ['top', 'c'], ['sub', 'a', 'a'], ['sub', 'a', 'c'], ['sub', 'a.a', 'a', 0.5], ['sub', 'a.a.a', 'b'], ['sub', 'a.a.a.a', 'a'], ['sub', 'a.a.a.a', 'b'], ['sub', 'a.b', 'a'],
        ['sub', 'a.b', 'b'], ['bad', 'a.a.a', 'a', 0.0], ['scale', 'a.a.a', 0.25], ['partial'], ['run']]
ALPHABETS = {'six': SIX, 'ten': TEN, 'twenty': TWENTY, 'all': ALL, 'deep': DEEP}


def shards(tier):
    plan = {'quick': [('all', 3), ('twenty', 4), ('ten', 5), ('six', 7), ('deep', 4)], 'thorough': [('all', 4), ('twenty', 5), ('ten', 6), ('six', 8), ('deep', 5)]}[tier]
    out = []
    for name, depth in plan:
        n = len(ALPHABETS[name])
        out += [{'alphabet': name, 'depth': depth, 'first': [i, j]} for i in range(n) for j in range(n)]
    return [{'parts': out[i::64 if tier == 'quick' else 640]} for i in range(64 if tier == 'quick' else 640)]


def run(shard, ctx):
    for part in shard['parts']:
        ops = ALPHABETS[part['alphabet']]
        first = [ops[i] for i in part['first']]
        start = START if part['alphabet'] == 'deep' else []
        if not applicable(start + first):
            continue
        ctx.do({'ops': start + first})
        explore(ops, start + first, len(start) + part['depth'], ctx)


def explore(ops, prefix, depth, ctx):
    if len(prefix) == depth:
        return
    for op in ops:
        seq = prefix + [op]
        if applicable(seq):
            ctx.do({'ops': seq})
            explore(ops, seq, depth, ctx)


def applicable(seq):
    """Whether the nodes which the last operations refer to exist"""
    ref = Reference()
    for op in seq:
        if op[0] in ('sub', 'scale', 'badscale') and op[1] not in ref.nodes:
            return False
        if op[0] == 'bad' and op[1] != 'top' and op[1] not in ref.nodes:
            return False
        if op[0] in ('partial', 'run') and not ref.valid():
            return False
        ref.apply(op)
    return True


class Reference:
    def __init__(self):
        self.nodes = {}        # path -> scale, in the order of insertion
        self.partial = None

    def add(self, path, scale):
        for p in list(self.nodes):
            if p == path or p.startswith(path + '.'):
                del self.nodes[p]
        self.nodes[path] = scale
        self.partial = None

    def apply(self, op):
        kind = op[0]
        if kind == 'top':
            self.add(op[1], op[2] if len(op) > 2 else 1.0)
        elif kind == 'sub':
            self.add(op[1] + '.' + op[2], op[3] if len(op) > 3 else 1.0)
        elif kind == 'batch':
            for i, name in enumerate(op[1]):
                self.add(name, op[2][i] if op[2] else 1.0)
        elif kind == 'scale':
            self.nodes[op[1]] = op[2]
        elif kind == 'partial':
            self.partial = self.given() if self.partial is None else self.partial + self.given()

    def given(self):
        import numpy as np
        return np.add.outer(np.arange(2), np.arange(len(self.nodes))) / 4 + 0.5

    def kids(self, path):
        return [p for p in self.nodes if p.rpartition('.')[0] == path]

    def valid(self):
        return len(self.kids('')) >= 2 and all(len(self.kids(p)) != 1 for p in self.nodes)

    def depth(self):
        return max(p.count('.') + 1 for p in self.nodes)

    def ids(self, leaves=False):
        d = self.depth()
        paths = [p for p in self.nodes if not (leaves and self.kids(p))]
        return paths if d == 1 else [tuple(p.split('.') + ['.'] * (d - p.count('.') - 1)) for p in paths]


def run_case(case, ctx):
    import numpy as np
    import pandas as pd
    import cheval
    from mc.lib import Bad, check_close, expect_raise
    m, ref, nodes, log = cheval.ChoiceModel(), Reference(), {}, []
    m.decision_units = ['u1', 'u0']

    def fail(message):
        raise Bad(f'after {log}: {message}')

    def keep(path, node):
        for p in list(nodes):
            if p == path or p.startswith(path + '.'):
                del nodes[p]
        nodes[path] = node

    def look():
        valid = ref.valid()
        check = lambda: m.validate(decision_units=False, expressions=False, assignment=False)
        if not valid:
            e = expect_raise(f'after {log}: validate() of {list(ref.nodes)}', check, ['ModelNotReadyError'])
            expect_raise(f'after {log}: choices of {list(ref.nodes)}', lambda: m.choices, ['ModelNotReadyError'])
            expect_raise(f'after {log}: run of {list(ref.nodes)}', lambda: m.run_stochastic(clear_scope=False), ['ModelNotReadyError'])
            expect_raise(f'after {log}: run of {list(ref.nodes)}', lambda: m.run_discrete(clear_scope=False), ['ModelNotReadyError'])
        else:
            check()
            if list(m.choices) != ref.ids():
                fail(f'alternatives are {list(m.choices)}, expected {ref.ids()}')
        if ref.nodes:
            if m.depth != ref.depth():
                fail(f'depth is {m.depth}, expected {ref.depth()}')
            if valid or ref.depth() > 1:
                if list(m.elemental_choices) != ref.ids(leaves=True):
                    fail(f'elemental alternatives are {list(m.elemental_choices)}, expected {ref.ids(leaves=True)}')
        for p, node in nodes.items():
            kids = ref.kids(p)
            got = (node.full_name, node.name, node.level, node.is_parent, node.n_children, sorted(c.full_name for c in node.children()), node.logsum_scale,
                   node.parent.full_name if node.parent is not None else '', node.max_level())
            want = (p, p.split('.')[-1], p.count('.') + 1, bool(kids), len(kids), sorted(kids), ref.nodes[p], p.rpartition('.')[0],
                    max(q.count('.') + 1 for q in ref.nodes if q == p or q.startswith(p + '.')))
            if got != want:
                fail(f'node {p}: {got}, expected {want}')
        return valid

    def run_model():
        from mc.trees import reference
        paths = list(ref.nodes)
        seq = [paths.index(p.rpartition('.')[0]) if '.' in p else -1 for p in paths]
        literal = '{' + ', '.join(f'{p}: {0.25 * ((i * 3) % 5)}' for i, p in enumerate(paths)) + '}'
        m.expressions.clear()
        m.expressions.append(literal)
        u = np.zeros((2, len(paths))) + [0.25 * ((i * 3) % 5) for i in range(len(paths))]
        if ref.partial is not None:
            u = u + ref.partial
        p, top, terms = m.run_stochastic(clear_scope=False)
        m.expressions.clear()
        if ref.depth() == 1:
            want_terms = np.exp(u)
            want_top = want_terms.sum(axis=1)
            want_p = want_terms / want_top[:, None]
        else:
            want_p, want_top, want_terms = reference(u, seq, list(ref.nodes.values()), True)
        at = f'after {log}: tree {ref.nodes}, utilities {u.tolist()}: '
        leaves = [i for i, q in enumerate(paths) if not ref.kids(q)]
        if list(p.columns) != ref.ids(leaves=True) or list(terms.columns) != ref.ids():
            fail(f'columns {list(p.columns)}, {list(terms.columns)}, expected {ref.ids(leaves=True)}, {ref.ids()}')
        check_close(at + 'terms', terms, want_terms, 1e-9, 1e-12)
        check_close(at + 'total', top, want_top, 1e-9, 1e-12)
        check_close(at + 'probabilities', p, want_p[:, leaves], 1e-9, 1e-12)

    for op in case['ops']:
        kind = op[0]
        log.append(op)
        if kind == 'top':
            node = m.add_choice(op[1], *op[2:])
            keep(op[1], node)
        elif kind == 'sub':
            node = nodes[op[1]].add_choice(op[2], *op[3:])
            keep(op[1] + '.' + op[2], node)
        elif kind in ('batch', 'badbatch'):
            how = op[3] if kind == 'batch' else ('iter' if len(op[1]) == 3 else 'list')
            wrap = {'list': list, 'iter': iter, 'tuple': tuple, 'dict': lambda x: dict.fromkeys(x), 'generator': lambda x: (y for y in x), 'index': pd.Index}[how]
            args = (wrap(op[1]),) if op[2] is None else (wrap(op[1]), op[2] if how == 'list' else iter(op[2]))
            if kind == 'badbatch':
                expect_raise(f'{log}', lambda: m.add_choices(*args))
            else:
                r = m.add_choices(*args)
                if list(r) != list(dict.fromkeys(op[1])):
                    fail(f'add_choices() returned {r}')
                for name in r:
                    keep(name, r[name])
        elif kind == 'bad':
            target = m if op[1] == 'top' else nodes[op[1]]
            expect_raise(f'{log}', lambda: target.add_choice(op[2], op[3]))
        elif kind == 'scale':
            nodes[op[1]].logsum_scale = op[2]
        elif kind == 'badscale':
            def assign():
                nodes[op[1]].logsum_scale = op[2]
            expect_raise(f'{log}', assign)
        elif kind == 'look':
            look()
        elif kind == 'partial':
            m.add_partial_utilities(pd.DataFrame(ref.given(), index=m.decision_units, columns=m.choices))
        elif kind == 'run':
            run_model()
        ref.apply(op)
        ctx.step()
    if look():
        run_model()
        ctx.count('runs')
    ctx.state([ref.nodes, list(ref.nodes), None if ref.partial is None else ref.partial.tolist()])
    ctx.outcome([list(ref.nodes.items()), ref.valid()])
    ctx.trace()
