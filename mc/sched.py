"""Runs the real (interpreted) source of the parallel kernels under a controlled scheduler.

Every `for i in prange(...)` loop of the cheval modules is turned, on import, into a call of `_parallel_for(body, ...)`.
The scheduler then decides (a) which worker thread gets which iteration, (b) in which order the threads access shared
arrays. Worker threads have their own random generator, as they have in Numba. Accesses to arrays which live outside of
the loop are recorded element by element; if no two iterations conflict (same element, at least one write), then all
interleavings of an assignment are equivalent and one of them is run (partial-order reduction); if there are conflicts,
the interleavings at the granularity of single shared accesses are explored, up to a bound on preemptions.

    python -m mc.sched '{"n": 3, ...}'   prints one JSON line of results
"""
import ast
import importlib.abc
import importlib.util
import itertools
import json
import os
import sys
import threading

REPO = os.environ.get('MC_REPO', '/repo')


# ------------------------------------------------------------------------------------------------ source transformation
def is_prange(node):
    return isinstance(node, ast.For) and isinstance(node.iter, ast.Call) and (
        getattr(node.iter.func, 'id', None) == 'prange' or getattr(node.iter.func, 'attr', None) == 'prange')


class ContinueToReturn(ast.NodeTransformer):
    def visit_Continue(self, node):
        return ast.Return(value=None)

    def visit_For(self, node):
        return node

    visit_While = visit_FunctionDef = visit_For


class Transformer(ast.NodeTransformer):
    def __init__(self):
        self.loops = 0
        self.locals = [set()]

    def visit_FunctionDef(self, node):
        names = {a.arg for a in node.args.args + node.args.kwonlyargs}
        for sub in ast.walk(node):
            if isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Store):
                names.add(sub.id)
        self.locals.append(names)
        self.generic_visit(node)
        self.locals.pop()
        return node

    def visit_For(self, node):
        inner = is_prange(node)
        if not inner:
            self.generic_visit(node)
            return node
        self.loops += 1
        body = [ContinueToReturn().visit(s) for s in node.body]
        assigned, augmented, loaded = set(), set(), set()
        for s in body:
            for sub in ast.walk(s):
                if isinstance(sub, ast.AugAssign) and isinstance(sub.target, ast.Name):
                    augmented.add(sub.target.id)
                elif isinstance(sub, ast.Name):
                    (assigned if isinstance(sub.ctx, ast.Store) else loaded).add(sub.id)
        plain = set()
        for s in body:
            for sub in ast.walk(s):
                if isinstance(sub, (ast.Assign, ast.AnnAssign, ast.For)):
                    targets = sub.targets if isinstance(sub, ast.Assign) else [sub.target]
                    for t in targets:
                        plain |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        reductions = sorted(augmented - plain)
        shared = sorted((loaded & self.locals[-1]) - plain - set(reductions) - {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)})
        name = f'_mc_body_{self.loops}'
        if reductions:
            body = [ast.Nonlocal(names=reductions)] + body
        fn = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=node.target.id)], kwonlyargs=[],
                             kw_defaults=[], defaults=[]), body=body, decorator_list=[], returns=None, type_comment=None,
                             type_params=[])
        wrap = [ast.parse(f'{v} = _mc_wrap({v})').body[0] for v in shared]
        unwrap = [ast.parse(f'{v} = _mc_unwrap({v})').body[0] for v in shared]
        call = ast.Expr(ast.Call(func=ast.Name('_mc_parallel_for', ast.Load()),
                                 args=[ast.Name(name, ast.Load())] + node.iter.args, keywords=[]))
        return wrap + [fn, call] + unwrap


LOOPS = [0]


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        source = open(self.path).read()
        tree = ast.parse(source)
        if 'prange' in source:
            t = Transformer()
            tree = ast.fix_missing_locations(t.visit(tree))
            LOOPS[0] += t.loops
        module.__dict__.update(_mc_wrap=wrap, _mc_unwrap=unwrap, _mc_parallel_for=parallel_for)
        exec(compile(tree, self.path, 'exec'), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if not fullname.startswith('cheval'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f), submodule_search_locations=[base])
        f = base + '.py'
        return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f)) if os.path.exists(f) else None


# ------------------------------------------------------------------------------------------------------ shared memory
import numpy as np  # noqa: E402

NEXT_ID = [0]
ACTIVE = [None]     # the running execution of a loop


class Shared(np.ndarray):
    """An array whose elements are visible to several iterations. Carries the identity of each of its elements"""
    _addr = None

    def __array_finalize__(self, obj):
        self._addr = None

    def __getitem__(self, key):
        plain = self.view(np.ndarray)[plain_key(key)]
        if self._addr is None:
            return plain
        addr = self._addr[plain_key(key)]
        if isinstance(plain, np.ndarray) and plain.base is not None and np.shares_memory(plain, self):
            out = plain.view(Shared)
            out._addr = addr
            return out
        access(addr, False)
        return plain

    def __setitem__(self, key, value):
        if isinstance(value, Shared):
            if value._addr is not None:
                access(value._addr, False)
            value = value.view(np.ndarray)
        if self._addr is not None:
            access(self._addr[plain_key(key)], True)
        self.view(np.ndarray)[plain_key(key)] = value

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        def plain(x, write=False):
            if isinstance(x, Shared):
                if x._addr is not None:
                    access(x._addr, write)
                return x.view(np.ndarray)
            return x
        inputs = [plain(x) for x in inputs]
        if out is not None:
            kw['out'] = tuple(plain(x, True) for x in out)
        return getattr(ufunc, method)(*inputs, **kw)

    def astype(self, *a, **k):
        if self._addr is not None:
            access(self._addr, False)
        return self.view(np.ndarray).astype(*a, **k)

    def copy(self, *a, **k):
        if self._addr is not None:
            access(self._addr, False)
        return self.view(np.ndarray).copy(*a, **k)


def plain_key(key):
    if isinstance(key, Shared):
        return key.view(np.ndarray)
    if isinstance(key, tuple):
        return tuple(plain_key(k) for k in key)
    return key


REGISTRY = []


def wrap(x):
    if isinstance(x, np.ndarray) and not isinstance(x, Shared):
        s = x.view(Shared)
        for root, addr in REGISTRY:     # The same memory has the same identity within one call
            if root is x:
                s._addr = addr
                return s
        s._addr = np.arange(NEXT_ID[0], NEXT_ID[0] + x.size).reshape(x.shape)
        NEXT_ID[0] += x.size
        REGISTRY.append((x, s._addr))
        return s
    return x


def unwrap(x):
    return x.view(np.ndarray) if isinstance(x, Shared) else x


def access(addr, write):
    ex = ACTIVE[0]
    if ex is not None:
        ex.access(np.atleast_1d(addr).ravel(), write)


# ---------------------------------------------------------------------------------------------------------- execution
class Execution:
    """One execution of a loop: `owner[i]` is the thread of iteration i; `choices` are the scheduling decisions"""

    def __init__(self, plan, n):
        self.plan = plan
        self.owner = [plan['assign'][i % len(plan['assign'])] for i in range(n)] if plan['assign'] else [0] * n
        self.log = [[] for _ in range(n)]       # per iteration: (write, element)
        self.current = None

    def access(self, ids, write):
        point = PLAN.get('point')
        if point is not None:
            point()
        log = self.log[self.now()]
        for i in ids:
            log.append((write, int(i)))

    def now(self):
        return self.current if PLAN.get('point') is None else PLAN['running']()


PLAN = {'assign': None}
STATS = {'loops': 0, 'conflicts': 0}
THREAD_STATES = {}


def thread_state(t):
    if t not in THREAD_STATES:
        THREAD_STATES[t] = np.random.RandomState(1000 + t).get_state()
    return THREAD_STATES[t]


def parallel_for(body, *args):
    iterations = list(range(*[int(a) for a in args]))
    STATS['loops'] += 1
    ex = Execution(PLAN, len(iterations))
    ACTIVE[0] = ex
    try:
        if PLAN.get('interleave'):
            interleaved(body, iterations, ex)
        else:
            THREAD_STATES[0] = np.random.get_state()
            order = PLAN.get('order') or sorted(set(ex.owner))
            for t in order:
                np.random.set_state(thread_state(t))
                for pos, i in enumerate(iterations):
                    if ex.owner[pos] == t:
                        ex.current = pos
                        body(i)
                THREAD_STATES[t] = np.random.get_state()
            np.random.set_state(THREAD_STATES[0])
    finally:
        ACTIVE[0] = None
        REGISTRY.clear()
    # Conflicts between iterations
    writers, readers, conflict = {}, {}, False
    for pos, log in enumerate(ex.log):
        for write, i in log:
            (writers if write else readers).setdefault(i, set()).add(pos)
    for i, w in writers.items():
        if len(w) > 1 or (readers.get(i, set()) - w):
            conflict = True
    STATS['conflicts'] += conflict
    STATS['accesses'] = STATS.get('accesses', 0) + sum(map(len, ex.log))


class Cancelled(BaseException):
    pass


def interleaved(body, iterations, ex):
    """Runs the iterations on real threads, one at a time; control changes hands before accesses to shared elements"""
    threads = sorted(set(ex.owner))
    turn = {t: threading.Semaphore(0) for t in threads}
    back = threading.Semaphore(0)
    done, errors, where = set(), [], {}
    me = threading.local()

    def point():
        back.release()
        turn[me.t].acquire()

    def work(t):
        me.t = t
        turn[t].acquire()
        try:
            for pos, i in enumerate(iterations):
                if ex.owner[pos] == t:
                    where[t] = pos
                    body(i)
        except BaseException as e:
            errors.append(e)
        done.add(t)
        back.release()

    THREAD_STATES[0] = np.random.get_state()
    PLAN['point'], PLAN['running'] = point, lambda: where[me.t]
    workers = [threading.Thread(target=work, args=(t,), daemon=True) for t in threads]
    for w in workers:
        w.start()
    running, choices, points = threads[0], PLAN['choices'], PLAN['points']
    try:
        while len(done) < len(threads):
            enabled = [t for t in threads if t not in done]
            if running in enabled:
                enabled.remove(running)
                enabled.insert(0, running)
                can_continue = True
            else:
                can_continue = False
            k = len(points)
            pick = choices[k] if k < len(choices) else 0
            points.append((len(enabled), can_continue, pick))
            running = enabled[pick]
            np.random.set_state(thread_state(running))
            turn[running].release()
            back.acquire()
            THREAD_STATES[running] = np.random.get_state()
    finally:
        PLAN['point'] = None
    np.random.set_state(THREAD_STATES[0])
    if errors:
        raise errors[0]


# -------------------------------------------------------------------------------------------------------- exploration
def fresh(assign, order=None):
    THREAD_STATES.clear()
    PLAN.clear()
    PLAN.update(assign=assign, order=order)
    STATS.update(loops=0, conflicts=0)
    NEXT_ID[0] = 0


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return f'{type(e).__name__}: {e}'


def explore(fn, n_iter, n_threads, preemptions=2, limit=4000):
    """All assignments of iterations to threads, and all inequivalent interleavings of each. Returns outcomes and counts"""
    counts = {'assignments': 0, 'schedules': 0, 'conflicting': 0, 'capped': 0, 'accesses': 0}
    fresh([0])
    STATS['accesses'] = 0
    base = outcome(fn)
    outcomes = {base: ['serial']}
    if STATS['loops'] == 0:
        return None, outcomes, counts
    for assign in itertools.product(range(n_threads), repeat=n_iter):
        counts['assignments'] += 1
        for order in ([list(range(n_threads)), list(range(n_threads))[::-1]]):
            fresh(list(assign), order)
            r = outcome(fn)
            counts['schedules'] += 1
            outcomes.setdefault(r, ['assignment', list(assign), order])
        if STATS['conflicts'] and len(set(assign)) > 1:
            counts['conflicting'] += 1
            stack, runs = [[]], 0
            while stack:
                if runs >= limit:
                    counts['capped'] += 1
                    break
                prefix = stack.pop()
                fresh(list(assign))
                PLAN.update(interleave=True, choices=prefix, points=[])
                r = outcome(fn)
                runs += 1
                counts['schedules'] += 1
                points = PLAN['points']
                outcomes.setdefault(r, ['schedule', list(assign), [p[2] for p in points]])
                used = sum(1 for p in points[:len(prefix)] if p[1] and p[2] > 0)
                for k in range(len(prefix), len(points)):
                    n, cont, _ = points[k]
                    if used + (1 if cont else 0) > preemptions:
                        continue
                    for alt in range(1, n):
                        stack.append([p[2] for p in points[:k]] + [alt])
            if len(outcomes) > 1:
                break
    counts['accesses'] = STATS['accesses']
    return base, outcomes, counts


def scenario(cfg):
    """The closed system: a call of the public API, and the number of iterations of its parallel loop"""
    import pandas as pd
    import cheval
    from cheval import core
    n, kind, prec = cfg['n'], cfg['kind'], cfg.get('prec', 8)

    def table(k):
        t = np.cos(np.arange(n * k) * 1.3).reshape(n, k) * 2
        t[0, 0] = -np.inf
        return t

    def build(nested):
        m = cheval.ChoiceModel(precision=prec)
        if nested:
            for top in 'AB':
                node = m.add_choice(top, logsum_scale=0.6)
                node.add_choice('a'), node.add_choice('b')
        else:
            m.add_choices(['x', 'y', 'z'])
        m.decision_units = pd.RangeIndex(n)
        m.declare_matrix('U')
        m.expressions.append('U')
        m['U'].assign(pd.DataFrame(table(6 if nested else 3), columns=m.choices))
        return m
    if kind in ('flat', 'nested'):
        m = build(kind == 'nested')
        mode, draws = cfg['mode'], cfg.get('draws', 1)
        if mode == 'discrete':
            def fn():
                r, ls = m.run_discrete(random_seed=cfg['seed'], n_draws=draws, astype='index', squeeze=False, clear_scope=False)
                return json.dumps([r.to_numpy().tolist(), [round(x, 9) for x in ls]])
        else:
            def fn():
                r = m.run_stochastic(clear_scope=False)
                return json.dumps([np.round(x.to_numpy(), 9).tolist() for x in r])
        return fn, n
    if kind == 'weighted':
        w = np.exp(table(4))
        return (lambda: json.dumps(core.worker_weighted_sample(w, cfg['draws'], cfg['seed']).tolist())), n
    if kind == 'add':
        rows, cols = cfg['rows'], cfg['cols']

        def fn():
            out = np.arange(n * 3, dtype=f'f{prec}').reshape(n, 3)
            add = 1 + np.arange(len(rows or range(n)) * len(cols or range(3)), dtype='f8').reshape(len(rows or range(n)), -1) * 10
            core.fast_indexed_add(out, add, None if rows is None else np.array(rows), None if cols is None else np.array(cols))
            return json.dumps(out.tolist())
        return fn, len(rows or range(n)) * len(cols or range(3))
    raise ValueError(kind)


def main():
    import warnings
    warnings.filterwarnings('ignore')
    sys.meta_path.insert(0, Finder())
    answers = []
    for cfg in json.loads(sys.argv[1]):
        try:
            fn, n = scenario(cfg)
            base, outcomes, counts = explore(fn, n, cfg['threads'])
        except Exception as e:
            import traceback
            answers.append({'cfg': cfg, 'unsupported': traceback.format_exc()[-1500:] + str(e)})
            continue
        answers.append({'cfg': cfg, 'base': base, 'outcomes': [[k, v] for k, v in outcomes.items()], 'counts': counts, 'loops': LOOPS[0]})
    print('\n@@' + json.dumps(answers))


if __name__ == '__main__':
    main()
