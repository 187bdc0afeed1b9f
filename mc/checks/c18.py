"""C18: eager, deferred and refreshed link indexes agree and track the tables."""
META = {
    'jit': False,
    'rule': 'Every history of linking (eagerly or not), looking up, changing keys, values and columns on either side, requesting and refreshing indexes and '
            'copying, compared with a reference which keeps the keys as of the last time the link was indexed, and nested loops. '
            'Non-trivial: distinct (keys, keys when indexed, columns) states.',
    'bounds': {
        'quick': 'every history of up to 4 of 13 operations for links by one column, and of 3 for 6 kinds of links (by index, by two columns, aggregated, '
                 'of chains) to linked and plain tables; 11000-row tables',
        'thorough': 'every history of up to 5 operations for links by one column and aggregations, of 4 for the other kinds',
    },
    'assumptions': ['keys do not change such that a link without aggregation needs one, or the other way around; the number of rows of the target stays'],
}

import itertools

OPS = ['lazy', 'look', 'src', 'src1', 'tgt', 'val', 'val1', 'add', 'index', 'refresh', 'copy', 'eager', 'tgt1']
WAYS = ['col', 'agg', 'index', 'two', 'chain', 'toindex']


def shards(tier):
    big = tier == 'thorough'
    out = []
    for way in WAYS:
        deep = (5 if way in ('col', 'agg') else 4) if big else (4 if way in ('col',) else 3)
        for linked in (True, False):
            if way == 'chain' and not linked:
                continue
            for first in ('eager', 'lazy'):
                if deep >= 4:
                    out += [{'way': way, 'linked': linked, 'first': first, 'second': op, 'depth': deep} for op in OPS]
                else:
                    out.append({'way': way, 'linked': linked, 'first': first, 'second': None, 'depth': deep})
    out.append({'way': 'big', 'linked': True, 'first': 'lazy', 'second': None, 'depth': 0})
    return out


def run(shard, ctx):
    if shard['way'] == 'big':
        for ops in (['look', 'src', 'refresh'], ['src', 'look', 'tgt', 'index'], ['index', 'tgt1', 'val1', 'refresh'], ['look', 'src1', 'refresh', 'add']):
            for first in ('eager', 'lazy'):
                for way in ('col', 'agg', 'index', 'two'):
                    ctx.do({'way': way, 'linked': True, 'ops': [first] + ops, 'n': 11000})
        return
    for n in range(shard['depth']):
        for rest in itertools.product(OPS, repeat=n):
            if shard['second'] is None:
                ops = [shard['first'], *rest]
            else:
                ops = [shard['first'], shard['second'], *rest]
            ctx.do({'way': shard['way'], 'linked': shard['linked'], 'ops': ops})


# Keys of the source and of the target; None is missing
SRC = {'col': [[1, 2, 9, 2], [2, None, 3, 1], [3, 1, 2, None], [9, 9, 1, 3]], 'agg': [[1, 2, 9, 0], [2, 9, 3, 1], [3, 8, 7, 9], [0, 3, 2, 1]]}
TGT = {'col': [[3, 1, 2, 7, 6], [1, 2, 9, 2.5, 8], [2, None, 3, 1, 9]], 'agg': [[1, 3, 1, 5, 1, 0], [2, 1, 1, 3, 9, 9], [5, 5, 0, 3, 2, 2]]}


class Rig:
    def __init__(self, way, linked, n=None):
        import numpy as np
        import pandas as pd
        from cheval.ldf import LinkedDataFrame as L
        self.way, self.np, self.pd, self.L, self.n = way, np, pd, L, n
        self.kind = 'agg' if way == 'agg' else 'col'
        self.src, self.tgt = self.keys(SRC, 0), self.keys(TGT, 0)
        self.rows, self.others = len(self.src), len(self.tgt)
        self.at = {'src': 0, 'tgt': 0, 'val': 0, 'cell': 0}
        self.val = [10 * (i + 1) for i in range(self.others)]
        self.extra = None
        self.snaps = [None]       # Keys of both sides when the link was indexed; several if it is open whether it was
        self.linked, self.old = False, []
        self.d = L({'z': list(range(self.rows)), **self.columns('s', self.src)}, index=self.index('s', self.src))
        kind = L if linked else pd.DataFrame
        self.t = kind({**self.columns('t', self.tgt), 'v': self.val, 'f': [v / 4 for v in self.val]}, index=self.index('t', self.tgt))
        self.before = None
        if way == 'chain':
            self.before = L({'to': [3, 0, 9, 1], 'x': 0})
            self.d['id'] = range(self.rows)

    def keys(self, which, i):
        one = which[self.kind][i % len(which[self.kind])]
        if self.n is None:
            return list(one)
        if self.kind == 'agg' and which is TGT:
            return [(j * (i + 3)) % 4001 for j in range(self.n)]
        if which is TGT or self.kind == 'agg':
            return [(j * (7 + 4 * i)) % self.n + (0 if which is SRC else 500) for j in range(self.n)]
        return [(j * (7 + 4 * i)) % (self.n + 3) for j in range(self.n)]

    def number(self, keys):
        return self.np.array([float('nan') if k is None else k for k in keys])

    def columns(self, side, keys):
        if self.way == 'index' or (self.way == 'toindex' and side == 't'):
            return {}
        out = {'k': self.number(keys)}
        if self.way == 'two':
            out['k2'] = self.np.array([str(k)[:1] for k in keys], dtype=object)
        return out

    def index(self, side, keys):
        if self.way == 'index' or (self.way == 'toindex' and side == 't'):
            return self.pd.Index(self.number(keys), name='lev')
        return self.pd.Index([f'{side}{(i * 5) % 7 if self.n is None else i}' for i in range(len(keys))])

    def link(self, eager):
        self.linked = True
        args = {'index': {}, 'two': {'on': ['k', 'k2']}, 'toindex': {'on_self': 'k'}}.get(self.way, {'on': 'k'})
        self.d.link_to(self.t, 'lk', precompute=eager, **args)
        if self.before is not None:
            self.before.link_to(self.d, 'd', on_self='to', on_other='id', precompute=not eager)
        self.snaps = [self.now() if eager else None]

    def now(self):
        return list(self.src), list(self.tgt)

    def set_keys(self, side, keys):
        frame = self.d if side == 's' else self.t
        index = self.index(side, keys)
        for name, values in self.columns(side, keys).items():
            frame[name] = values
        if index.name is not None:
            frame.index = index

    def op(self, op):
        from mc.lib import Bad
        if op in ('eager', 'lazy'):
            self.link(op == 'eager')
        elif op == 'look':
            self.check('a look-up')
        elif op in ('src', 'tgt'):
            self.at[op] += 1
            keys = self.keys(SRC if op == 'src' else TGT, self.at[op])
            setattr(self, op, keys)
            self.set_keys(op[0], keys)
        elif op in ('src1', 'tgt1'):
            # One cell; indexes have to be replaced
            frame, keys = (self.d, self.src) if op == 'src1' else (self.t, self.tgt)
            self.at['cell'] += 1
            i = self.at['cell'] % len(keys)
            keys = list(keys)
            keys[i] = 100 + self.at['cell'] if op == 'tgt1' or self.kind == 'agg' or self.at['cell'] % 2 else 3
            if self.n is not None and keys[i] < 1000:
                keys[i] += 100000
            if op == 'src1' and self.kind == 'agg':
                # A key of its own, which the target has
                free = [k for k in self.tgt if k not in keys]
                keys[i] = free[0] if free else keys[i]
            setattr(self, op[:3], keys)
            names = self.columns(op[0], keys)
            if not names:
                self.set_keys(op[0], keys)
            for name, values in names.items():
                frame.loc[frame.index[i], name] = values[i]
        elif op == 'val':
            self.at['val'] += 1
            self.val = [(v * 3) % 101 + self.at['val'] for v in self.val]
            self.t['v'] = self.val
        elif op == 'val1':
            self.at['val'] += 1
            i = self.at['val'] % self.others
            self.val = list(self.val)
            self.val[i] = 1000 + self.at['val']
            self.t.iloc[i, list(self.t.columns).index('v')] = self.val[i]
        elif op == 'add':
            self.extra = [v * 2 + 0.5 for v in self.val]
            self.t['extra'] = self.extra
        elif op in ('index', 'refresh'):
            self.d.compute_indexers(**([{'refresh': True}, {}][self.at['val'] % 2] if op == 'refresh' else {'refresh': False}))
            self.snaps = [self.now() if op == 'refresh' or s is None else s for s in self.snaps]
            if self.before is not None:
                self.before.compute_indexers(refresh=op == 'refresh')
            if not bool(self.d.link_summary().preindexed['lk']):
                raise Bad('link_summary() says that the link is not indexed after a request to')
        elif op == 'copy':
            if self.before is None:
                self.maybe_indexed()
                deep = self.at['val'] % 2 == 0
                if deep:
                    self.old.append((self.d, list(self.src), list(self.snaps)))
                self.d = self.d.copy(deep=deep)

    def maybe_indexed(self):
        """Copied links may have been indexed on the way, it is not specified"""
        if None in self.snaps:
            self.snaps.append(self.now())

    def groups(self, src, tgt):
        at = {}
        for j, t in enumerate(tgt):
            if t is not None:
                at.setdefault(t, []).append(j)
        return [at.get(s, []) if s is not None else [None] if None in tgt else [] for s in src]

    def value(self, group, values, fill):
        if group == [None]:
            return ...      # Missing on both sides
        if not group:
            return -1 if self.kind == 'agg' and fill == 0 else fill
        return sum(values[j] for j in group) if self.kind == 'agg' else values[group[0]]

    def expected(self, values, fill):
        """Possible results"""
        return [[self.value(g, values, fill) for g in self.groups(*(s or self.now()))] for s in self.snaps]

    def look(self, name, node=None):
        node = self.d.lk if node is None else node
        return node.sum(name) if self.kind == 'agg' else node[name]

    def check(self, what):
        from mc.lib import Bad
        if not self.linked:
            return
        items = [('v', self.val, 0), ('f', [v / 4 for v in self.start], None)]
        if self.extra is not None:
            items.append(('extra', self.extra, None))
        for name, values, fill in items:
            wants = self.expected(values, fill)
            got = self.look(name)
            if not got.index.equals(self.d.index):
                raise Bad(f'{what}: wrong index')
            got = [None if g != g else g for g in got]
            fits = [len(got) == self.rows and all(w is ... or g == w for g, w in zip(got, want)) for want in wants]
            if not any(fits):
                raise Bad(f'{what}: {name} is {got[:20]}, expected {wants[0][:20]}; keys {self.src[:20]} to {self.tgt[:20]}, indexed {str(self.snaps)[:200]}')
            self.snaps = [s or self.now() for s, f in zip(self.snaps, fits) if f]
            if self.before is not None:
                far = [None if g != g else g for g in self.look(name, self.before.d.lk)]
                want = wants[fits.index(True)]
                want = [want[3], want[0], fill, want[1]]
                if not all(w is ... or g == w for g, w in zip(far, want)):
                    raise Bad(f'{what}: {name} through a chain is {far}, expected {want}')

    def check_originals(self):
        """Frames which were copied, the copies of which had their keys changed or their links refreshed"""
        from mc.lib import Bad
        for d, src, snaps in self.old:
            got = [None if g != g else g for g in self.look('v', d.lk)]
            wants = [[self.value(g, self.val, 0) for g in self.groups(*(s or (src, self.tgt)))] for s in snaps]
            if not any(all(w is ... or g == w for g, w in zip(got, want)) for want in wants):
                raise Bad(f'the original of a copy: v is {got[:20]}, expected {wants[0][:20]}')

    def state(self):
        return [self.way, self.src[:20], self.tgt[:20], str(self.snaps)[:200], self.val[:20], self.extra is not None]


def run_case(case, ctx):
    import warnings
    from mc.lib import Bad, expect_raise
    warnings.simplefilter('ignore')
    rig = Rig(case['way'], case['linked'], case.get('n'))
    rig.start = list(rig.val)
    ctx.trace()
    for i, op in enumerate(case['ops']):
        if rig.extra is None and rig.linked and i == len(case['ops']) - 1 and op == 'add':
            expect_raise(f'{case}: a column which is not there yet', lambda: rig.look('extra'))
            # (which is a look-up of the link too, whether it indexes it or not)
            rig.maybe_indexed()
        try:
            rig.op(op)
        except Bad as e:
            raise Bad(f'{case}: at step {i}: {e}')
        ctx.step()
        ctx.state(rig.state())
    summary = rig.d.link_summary().loc['lk']
    if summary.target_shape != str(rig.t.shape) or bool(summary.aggregation) != (rig.kind == 'agg') or bool(summary.chained) != case['linked']:
        raise Bad(f'{case}: link_summary() is {dict(summary)} for {rig.t.shape}')
    if rig.snaps == [None] and bool(summary.preindexed):
        raise Bad(f'{case}: link_summary() says that the link is indexed, which was not asked for')
    for what in ('the end', 'the end, again'):
        try:
            rig.check(what)
        except Bad as e:
            raise Bad(f'{case}: {e}')
    try:
        rig.check_originals()
    except Bad as e:
        raise Bad(f'{case}: {e}')
    ctx.outcome(rig.expected(rig.val, 0))
