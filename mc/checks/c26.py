"""C26: reading linked tables and running models in several threads at once gives what it gives one after the other."""
META = {
    'jit': False,
    'rule': 'Two threads use the same freshly built linked tables (or a model, or copies of it, which use them): look-ups, aggregations, evaluations, pivots, row '
            'selections, copies and model runs. A controlled scheduler runs the first thread up to a line which accesses something that the operations change, then the '
            'second one up to such a line, and so on, for every choice of these lines. Both results, and those of a third look afterwards, have to be those of '
            'running alone. Non-trivial: distinct schedules which were carried out.',
    'bounds': {
        'quick': '2 threads, 18 pairs out of 10 operations on tables of 3 to 4 rows and 6 pairs out of 5 operations on models (both orders), with eager and deferred links; '
                 'threads are stopped at every line which accesses an attribute that either operation changes: all schedules with up to 4 stops if there are at most 9000 '
                 'of them (3000 for models), otherwise up to 3, 2 or 1 (the evidence counts them)',
        'thorough': 'all ordered pairs of the operations on tables; up to 150000 schedules per pair',
    },
    'assumptions': ['the threads only read: no table is modified, no link refreshed and nothing assigned meanwhile, and models are run with clear_scope=False',
                    'a switch takes place between lines of cheval outside of the kernels (see C04 for those), and only where something is accessed that the operations change; '
                    'NumPy, pandas and NumExpr are taken to be safe for reading'],
}

import itertools

TABLE_OPS = ['lookup', 'lookup other', 'hops', 'sum', 'count hops', 'evaluate', 'pivot', 'mask', 'slice', 'copy']
PAIRS = [('lookup', 'lookup other'), ('lookup', 'lookup'), ('lookup', 'hops'), ('hops', 'hops'), ('sum', 'sum'), ('sum', 'count hops'), ('count hops', 'hops'), ('lookup', 'mask'),
         ('mask', 'mask'), ('sum', 'mask'), ('copy', 'lookup'), ('slice', 'sum'), ('evaluate', 'lookup'), ('evaluate', 'evaluate'), ('pivot', 'evaluate'), ('slice', 'hops'),
         ('copy', 'sum'), ('copy', 'mask')]
MODEL_PAIRS = [('run', 'run'), ('run', 'run copy'), ('run copy', 'run copy'), ('run subset', 'run'), ('run group', 'run'), ('copy model', 'run')]


PARTS = 4
LIMIT = {'quick': 9000, 'thorough': 150000}


def shards(tier):
    pairs = PAIRS if tier == 'quick' else list(itertools.product(TABLE_OPS, repeat=2))
    out = []
    for ops in MODEL_PAIRS:
        for side in ((0, 1) if ops[0] != ops[1] else (0,)):
            out += [{'kind': 'models', 'ops': list(ops[::-1] if side else ops), 'lazy': lazy} for lazy in (True, False)]
    out += [{'kind': 'tables', 'ops': list(ops), 'lazy': lazy} for ops in pairs for lazy in (True, False)]
    return [{**shard, 'part': part, 'limit': LIMIT[tier]} for shard in out for part in range(PARTS)]


def schedules(lengths, limit):
    """Where the two threads are stopped in turn, the first one first: all of the ways with up to 4, 3, 2 or 1 stops, whichever is the first to keep the limit"""
    n, m = lengths
    first = [(i, k) for i in range(n + 1) for k in range(1, n + 1 - i)]
    second = [(j, k) for j in range(1, m + 1) for k in range(1, m + 1 - j)]
    once = [(i, j) for i in range(n + 1) for j in range(1, m + 1)]
    if len(first) * len(second) <= limit:
        return once + [(i, j, k) for i, k in first for j in range(1, m + 1)] + [(i, j, k, r) for i, k in first for j, r in second]
    if len(first) * m <= limit:
        return once + [(i, j, k) for i, k in first for j in range(1, m + 1)]
    return once if len(once) <= limit // 3 else [(i,) for i in range(n + 1)]


def run(shard, ctx):
    base = {k: shard[k] for k in ('kind', 'ops', 'lazy')}
    lengths = names_and_lengths(base)[1]
    for x in schedules(lengths, shard['limit'] // (3 if shard['kind'] == 'models' else 1)):
        if x[0] % PARTS == shard['part']:
            ctx.do({**base, 'stops': list(x)})


class World:
    def __init__(self, case):
        import numpy as np
        import pandas as pd
        from cheval import LinkedDataFrame
        eager = not case['lazy']
        end = pd.DataFrame({'z': [1.5, 2.5, 3.5]}, index=['p', 'q', 'r'])
        self.mid = LinkedDataFrame({'y': [10, 20, 30], 's': ['a', 'b', 'c'], 'e': ['q', 'zz', 'p']}, index=[7, 8, 9])
        self.mid.link_to(end, 'end', on_self='e', precompute=eager)
        trips = pd.DataFrame({'who': [7, 7, 9, 5], 'w': [1, 2, 4, 8]})
        self.mid.link_to(trips, 'trips', on_other='who', precompute=eager)
        self.d = LinkedDataFrame({'k': [9, 5, 7, 9], 'x': [1.0, 2.0, 4.0, 8.0]}, index=list('abcd'))
        self.d.link_to(self.mid, 'lk', on_self='k', precompute=eager)
        self.mask = np.array([True, False, True, True])
        self.model = None
        if case['kind'] == 'models':
            import cheval
            m = self.model = cheval.ChoiceModel()
            m.add_choices(['A', 'B'])
            m.decision_units = self.d.index
            m.declare_table('t', 0), m.declare_number('n')
            m.expressions.append('t.lk.y / 10 @ A'), m.expressions.append('{B: 0.5} * n')
            m.expressions.append('t.lk.y * n / 20 + where(t.x > 2, 1, 0)', group='g')
            m['t'].assign(self.d), m['n'].assign(0.25)

    def do(self, op):
        import pandas as pd
        d, m = self.d, self.model
        if op == 'lookup':
            return d.lk.y
        if op == 'lookup other':
            return d['lk']['s']
        if op == 'hops':
            return d.lk.end.z
        if op == 'sum':
            return self.mid.trips.sum('w')
        if op == 'count hops':
            return d.lk.trips.count('w')
        if op == 'evaluate':
            return d.evaluate('lk.y + x * lk.trips.max(w)')
        if op == 'pivot':
            return pd.DataFrame(d.pivot_table(values='x', index='lk.s', aggfunc='sum'))
        if op == 'mask':
            return d[self.mask].lk.y
        if op == 'slice':
            return self.mid.iloc[::-1].trips.sum('w')
        if op == 'copy':
            return d.copy(deep=True).lk.y
        if op == 'run':
            return m.run_stochastic(clear_scope=False, n_threads=1)
        if op == 'run copy':
            return m.copy().run_stochastic(n_threads=1)
        if op == 'run subset':
            return m.copy_subset(pd.Series(self.mask, index=m.decision_units)).run_stochastic(n_threads=1)
        if op == 'run group':
            return m.run_stochastic(group='g', clear_scope=False, n_threads=1)
        if op == 'copy model':
            return m.copy(scope_assigned=False).choices.to_series()
        raise AssertionError(op)


def plain(result):
    """A result as plain values, to be compared"""
    import numpy as np
    if isinstance(result, tuple):
        return [plain(x) for x in result]
    values = [['NaN' if isinstance(x, float) and x != x else x.item() if isinstance(x, np.generic) else x for x in row] if isinstance(row, np.ndarray) else
              'NaN' if isinstance(row, float) and row != row else row for row in (result.to_numpy() if result.ndim > 1 else result.tolist())]
    return [[str(x) for x in result.index], repr(values), str(getattr(result, 'dtype', None) or [str(x) for x in result.dtypes])]


class Runner:
    """One thread, which can be stopped before its n-th line in the code under test"""

    def __init__(self, fn, names=None):
        import threading
        self.names, self.assigned = names, set()  # What is shared and changes: None if not known yet
        self.fn, self.left, self.lines = fn, None, 0
        self.go, self.idle = threading.Event(), threading.Event()
        self.result = self.error = None
        self.finished = False
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.started = False

    def _main(self):
        import sys
        self.go.wait()
        sys.settrace(self._trace)
        try:
            self.result = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
        self.finished = True
        self.idle.set()

    def _trace(self, frame, event, arg):
        if not watched(frame.f_code.co_filename):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event != 'line':
            return self._line
        used, assigned = by_line(frame.f_code).get(frame.f_lineno, (set(), set()))
        if self.names is None:
            if frame.f_code.co_name != '__init__':
                self.assigned |= assigned
        elif used & self.names:
            if self.left is not None:
                if self.left == 0:
                    self.left = None
                    self.go.clear()
                    self.idle.set()
                    self.go.wait()
                else:
                    self.left -= 1
            self.lines += 1
        return self._line

    def run(self, lines, patience=600):
        """Goes on for a number of lines (None: to the end). False if the thread waits for something else"""
        if self.finished:
            return True
        self.left = lines
        self.idle.clear()
        self.go.set()
        if not self.started:
            self.started = True
            self.thread.start()
        return self.idle.wait(patience)


_watched = {}


_by_line = {}


def by_line(code):
    """Per line of a code object: the names of attributes and global variables it accesses, and of those it assigns"""
    if code not in _by_line:
        import dis
        lines, line = {}, None
        for ins in dis.get_instructions(code):
            line = ins.positions.lineno or line
            used, assigned = lines.setdefault(line, (set(), set()))
            if ins.opname.split('_')[-1] in ('ATTR', 'GLOBAL', 'METHOD', 'DEREF'):
                used.add(ins.argval)
                if ins.opname.startswith(('STORE', 'DELETE')):
                    assigned.add(ins.argval)
        _by_line[code] = lines
    return _by_line[code]


def heap(world):
    """What can be reached from a world through objects of the code under test and plain containers: what each attribute holds, by name"""
    out, todo, seen = {}, [('', x) for x in vars(world).values()], set()
    while todo:
        name, x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, dict):
            out[id(x), name] = [(id(k), id(v)) for k, v in x.items()]
            todo += [(name, v) for v in x.values()]
        elif isinstance(x, (list, tuple, set)):
            out[id(x), name] = [id(v) for v in x]
            todo += [(name, v) for v in x]
        elif type(x).__module__.split('.')[0] == 'cheval':
            inside = getattr(x, '__dict__', {})
            todo += [(str(k), v) for k, v in inside.items()]
            out.update({(id(x), str(k)): id(v) for k, v in inside.items()})
            for cls in type(x).__mro__:
                for k in getattr(cls, '__slots__', ()):
                    if isinstance(k, str) and hasattr(x, k):
                        out[id(x), k] = id(getattr(x, k))
                        todo.append((k, getattr(x, k)))
    return out


def watched(path):
    import os
    if path not in _watched:
        root = os.path.realpath(os.environ.get('MC_REPO', '/repo')) + '/cheval/'
        real = os.path.realpath(path)
        _watched[path] = real.startswith(root) and not real.endswith('/core.py')
    return _watched[path]


_alone = {}


def alone(case, op):
    """What an operation gives when nothing else runs, and the names of what it changes, shared or not"""
    key = (case['kind'], case['lazy'], op)
    if key not in _alone:
        world = World(case)
        before = heap(world)
        r = Runner(lambda: world.do(op))
        r.run(None)
        if r.error is not None:
            raise r.error
        changed = {name for (x, name), value in heap(world).items() if before.get((x, name), value) != value}
        _alone[key] = plain(r.result), r.assigned | changed
    return _alone[key]


_lengths = {}


def names_and_lengths(case):
    """The names of what a pair of operations changes, and how many lines of each operation access any of it"""
    key = repr([case['kind'], case['ops'], case['lazy']])
    if key in _lengths:
        return _lengths[key]
    names = set().union(*[alone(case, op)[1] for op in case['ops']])
    lengths = []
    for op in case['ops']:
        world = World(case)
        r = Runner(lambda: world.do(op), names)
        r.run(None)
        lengths.append(r.lines)
    _lengths[key] = names, lengths
    return names, lengths


def run_case(case, ctx):
    from mc.lib import Bad
    world = World(case)
    names = names_and_lengths(case)[0]
    wanted = [alone(case, op)[0] for op in case['ops']]
    threads = [Runner(lambda op=op: world.do(op), names) for op in case['ops']]
    for n, lines in enumerate(case['stops']):
        if not threads[n % 2].run(lines, 3):
            ctx.count('waited for a lock')
            break
    for n in range(2):
        threads[(n + len(case['stops'])) % 2].run(None, 3)
    for r in threads:
        if not r.idle.wait(60) or not r.finished:
            raise Bad(f'{case}: the threads wait for each other')
    for who, r, op, want in zip('first second'.split(), threads, case['ops'], wanted):
        if r.error is not None:
            raise Bad(f'{case}: {op} in the {who} thread: {type(r.error).__name__}: {r.error}')
        if plain(r.result) != want:
            raise Bad(f'{case}: {op} in the {who} thread gives {plain(r.result)}, alone {want}')
    for op, want in zip(case['ops'], wanted):
        got = plain(world.do(op))
        if got != want:
            raise Bad(f'{case}: afterwards {op} gives {got}, expected {want}')
    ctx.state(case)
    ctx.outcome([case['ops'], case['lazy'], len(case['stops'])])
    ctx.step(sum(r.lines for r in threads))
    ctx.trace()
