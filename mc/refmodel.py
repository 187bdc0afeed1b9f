"""Reference model of ChoiceModel for the exploration of operation histories (C10-C12, C14), and the rig that drives both.

The reference keeps what was declared, assigned, appended and added, and derives utilities from it anew each time. An entry
of the scope which may or may not have been released (the property leaves it open) is a `maybe`: a run which needs it either
refuses or gives the right answer.
"""
import ast
import itertools

import numpy as np

from mc.exprs import Evaluator, kind_of
from mc.lib import Bad

RESERVED = {'NAN', 'OUT', 'NEG_INF'}
UNITS = {0: ['u2', 'u0', 'u1'], 1: ['k1', 'k0'], 2: ['u0', 'u1', 'u2'], 3: ['u2', 'u0', 'u1'], 4: ['u2', 'u0', 'u1', 'u3', 'u4'], 5: ['only'],
         6: [7, 3, 11, 5, 2], 7: [('h1', 2), ('h1', 1), ('h0', 2), ('h2', 1), ('h0', 1)],
         8: [5, 0, -1], 9: ['b', '', 'a'], 10: [0.5, 0.0, 2.0]}


def used(text):
    """Plain names and names of tables in an expression"""
    body = text.split('@')[0].strip()
    simple, chained = set(), set()

    def walk(node):
        if isinstance(node, ast.Dict):
            return
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            for a in node.args:
                walk(a)
            return
        if isinstance(node, (ast.Attribute, ast.Call)):
            while not isinstance(node, ast.Name):
                node = node.func if isinstance(node, ast.Call) else node.value
            chained.add(node.id)
            return
        if isinstance(node, ast.Name):
            if node.id not in RESERVED and node.id.lower() not in ('nan', 'none'):
                simple.add(node.id)
            return
        for c in ast.iter_child_nodes(node):
            walk(c)
    walk(ast.parse(body, mode='eval').body)
    return simple, chained


class Spec:
    def __init__(self, seq, paths):
        self.seq, self.paths = seq, paths
        self.n = len(seq)
        self.kids = [[j for j in range(self.n) if seq[j] == i] for i in range(self.n)]
        self.units = None
        self.scope = {}       # name -> {'kind', 'values': {attribute: full array} or None, 'maybe': bool}
        self.groups = {None: []}
        self.partial = None

    def clone(self):
        new = Spec(self.seq, self.paths)
        new.units = self.units
        new.scope = {k: dict(v) for k, v in self.scope.items()}
        new.groups = {k: list(v) for k, v in self.groups.items()}
        new.partial = None if self.partial is None else self.partial.copy()
        return new

    def subset(self, mask):
        new = self.clone()
        mask = np.asarray(mask, dtype=bool)
        new.units = [u for u, keep in zip(self.units, mask) if keep]
        for entry in new.scope.values():
            if entry['values'] is not None:
                entry['values'] = {k: v[mask] for k, v in entry['values'].items()}
        if new.partial is not None:
            new.partial = new.partial[mask]
        return new

    def expressions(self, group=None):
        if group is not None:
            return self.groups[group]
        return [e for g in self.groups.values() for e in g]

    def status(self, group=None):
        """'ready', 'not' or 'maybe'"""
        if group is not None and group not in self.groups:
            return 'nogroup'
        if self.units is None:
            return 'not'
        out = 'ready'
        for e in self.expressions(group):
            for name in set.union(*used(e)):
                entry = self.scope.get(name)
                if entry is None or entry['values'] is None:
                    return 'not'
                if entry['maybe']:
                    out = 'maybe'
        return out

    def leaf(self, node):
        shape = (len(self.units), self.n)
        if isinstance(node, ast.Dict):
            out = np.zeros(shape)
            for k, v in zip(node.keys, node.values):
                out[:, self.paths.index(ast.unparse(k))] = ast.literal_eval(v)
            return 'f', out
        text = ast.unparse(node)
        name, _, attribute = text.partition('.')
        v = self.scope[name]['values'][attribute]
        return kind_of(v), v

    def value(self, text):
        body, _, path = text.partition('@')
        _, v = Evaluator(self.leaf).run(body.strip())
        v = np.broadcast_to(np.asarray(v, dtype='f8'), (len(self.units), self.n))
        if path.strip():
            only = np.zeros(v.shape)
            i = self.paths.index(path.strip())
            only[:, i] = v[:, i]
            return only
        return v

    def utilities(self, group=None):
        u = np.zeros((len(self.units), self.n)) if self.partial is None else self.partial.copy()
        for e in self.expressions(group):
            with np.errstate(all='ignore'):
                u = u + self.value(e)
        return u

    def set_units(self, units):
        self.units, self.partial = list(units), None
        for entry in self.scope.values():
            if entry['kind'] == 'number' and entry['values'] is not None:
                entry['values'] = {k: np.broadcast_to(v[:1], (len(units), self.n)) for k, v in entry['values'].items()}
            elif entry['kind'] != 'number':
                if entry['kind'] in ('vector1', 'table1') and entry['values'] is not None:
                    # Data of the alternatives only: whether it is kept is open, its values are not
                    entry.update(values={k: np.broadcast_to(v[:1], (len(units), self.n)) for k, v in entry['values'].items()}, maybe=True)
                else:
                    entry.update(values=None)

    def release(self, sure=True):
        if sure:
            self.scope.clear()
        for entry in self.scope.values():
            entry['maybe'] = True


class Data:
    """Data of every declared variable, in two good and several bad variants, for a list of units"""
    KINDS = {'n': 'number', 'v': 'vector0', 'w': 'vector1', 't': 'table', 'M': 'matrix', 'x': 'vector0', 'y': 'vector0', 'z': 'number', 's': 'table1'}

    @staticmethod
    def declare(m, name):
        kind = Data.KINDS[name]
        if kind == 'number':
            m.declare_number(name)
        elif kind.startswith('vector'):
            m.declare_vector(name, int(kind[-1]))
        elif kind == 'table':
            m.declare_table(name, 0)
        elif kind == 'table1':
            m.declare_table(name, 1)
        else:
            m.declare_matrix(name)

    @staticmethod
    def make(name, variant, units, alts):
        """(what to assign, values by attribute); alts is the model's index of alternatives"""
        import cheval
        import pandas as pd
        kind, N, M = Data.KINDS[name], len(units), len(alts)
        k = {'a': 0, 'b': 1}.get(variant, 2)
        shift = 'nvwtMxyzs'.index(name) / 8 + k / 2
        index = pd.Index(units)
        r, c = np.arange(N), np.arange(M)
        full = lambda a: np.broadcast_to(a, (N, M))
        if kind == 'number':
            v = 0.75 + shift if variant != 'nan' else float('nan')
            return v, {'': full(np.float64(v))}
        if kind == 'vector0':
            v = ((r * 3 + k) % 4) / 2 - shift
            if variant == 'nan':
                v[-1] = np.nan
            if variant == 'low':
                v[:] = -np.inf
            if variant == 'high':
                v[0] = 1e4
            return (pd.Series(v, index=index) if k % 2 == 0 else v.copy()), {'': full(v[:, None])}
        if kind == 'vector1':
            v = ((c * 2 + k) % 3) / 2 - shift
            return (v.copy() if k % 2 == 0 else pd.Series(v, index=alts)), {'': full(v[None, :])}
        if kind == 'matrix':
            v = np.add.outer(r / 2, c / 4) - shift
            if variant == 'nan':
                v[0, -1] = np.nan
            frame = pd.DataFrame(v.copy(), index=index, columns=alts)
            if k == 1:
                frame = frame.iloc[::-1, ::-1]
            if variant == 'part':
                frame = frame.iloc[:1, 1:]
                v = np.where((r[:, None] < 1) & (c[None, :] >= 1), v, 0.0)
            return frame, {'': v}
        if kind == 'table1':
            v = (c % 2) - shift
            return pd.DataFrame({'g': v}, index=alts), {'g': full(v[None, :])}
        f, i = (r % 3) / 4 - shift, (r + k) % 3
        if variant == 'nan':
            f[0] = np.nan
        frame = cheval.LinkedDataFrame({'f': f, 'key': i * 10, 'id': r}, index=index)
        other = pd.DataFrame({'y': [0.5, -1.0, 1.5]}, index=[0, 10, 20])
        frame.link_to(other, 'lk', on_self='key', precompute=k == 0)
        many = cheval.LinkedDataFrame({'who': np.concatenate([r, r, r[:1]]), 'q': np.arange(2 * N + 1) / 4})
        frame.link_to(many, 'ag', on_self='id', on_other='who', precompute=k == 0)
        lk = np.array([0.5, -1.0, 1.5])[i]
        ag = (np.arange(N) + np.arange(N, 2 * N)) / 4 + np.where(r == 0, 2 * N / 4, 0)
        return frame, {'f': full(f[:, None]), 'lk.y': full(lk[:, None]), 'ag.sum(q)': full(ag[:, None])}


class Rig:
    """The model under test next to its reference"""

    def __init__(self, seq=(-1, -1, -1), names=('A', 'B', 'C'), model=None, spec=None, precision=8):
        import cheval
        from mc.trees import build
        if model is not None:
            self.m, self.spec = model, spec
        else:
            self.m = cheval.ChoiceModel(precision=precision)
            build(self.m, list(seq), names=list(names))
            paths = []
            for i, p in enumerate(seq):
                paths.append((paths[p] + '.' if p >= 0 else '') + names[i])
            self.spec = Spec(list(seq), paths)
        self.log = []
        self.alts = self.m.choices

    def fail(self, message):
        raise Bad(f'history {self.log}: {message}')

    def attempt(self, fn):
        try:
            return fn(), None
        except Exception as e:
            return None, e

    def must(self, fn, what):
        r, e = self.attempt(fn)
        if e is not None:
            self.fail(f'{what} raised {type(e).__name__}: {e}')
        return r

    def must_not(self, fn, what, names=None):
        r, e = self.attempt(fn)
        if e is None:
            self.fail(f'{what} was accepted')
        if names and not any(c.__name__ in names for c in type(e).__mro__):
            self.fail(f'{what} raised {type(e).__name__}: {e}, expected {sorted(names)}')

    # Operations. Each applies itself to the model and to the reference, and judges whether it was rightly accepted.

    def apply(self, op):
        self.log.append(op if len(op) > 1 else op[0])
        getattr(self, 'op_' + op[0])(*op[1:])

    def op_units(self, k):
        import pandas as pd
        units = UNITS[k]
        self.m.decision_units = units if k % 2 else pd.Index(units)
        self.spec.set_units(units)

    def op_declare(self, name):
        self.must(lambda: Data.declare(self.m, name), f'declaring {name}')
        self.spec.scope[name] = {'kind': Data.KINDS[name], 'values': None, 'maybe': False}

    def op_assign(self, name, variant):
        s = self.spec
        entry = s.scope.get(name)
        if s.units is None and Data.KINDS[name] not in ('number', 'vector1', 'table1'):
            self.must_not(lambda: self.m[name].assign(Data.make(name, variant, ['u0', 'u1', 'u2'], self.m.choices)[0]), f'assigning {name} without units')
            return
        units = s.units if s.units is not None else ['u0']
        data, values = Data.make(name, variant, units, self.alts)
        if entry is None:
            self.must_not(lambda: self.m[name].assign(data), f'assigning undeclared {name}', ['KeyError'])
            return
        _, e = self.attempt(lambda: self.m[name].assign(data))
        if e is not None:
            if entry['maybe'] and isinstance(e, KeyError):
                del s.scope[name]
                return
            self.fail(f'assigning {name} raised {type(e).__name__}: {e}')
        entry.update(values=values, maybe=False)

    def op_assign_bad(self, name):
        """Data that does not fit"""
        if name not in self.spec.scope or self.spec.units is None:
            return
        kind = Data.KINDS[name]
        if kind == 'number':
            bad = 'text'
        else:
            bad = Data.make(name, 'b', ['a', 'b', 'c', 'd'], self.m.choices[:2] if kind.endswith('1') else self.m.choices)[0]
        self.must_not(lambda: self.m[name].assign(bad), f'assigning misfit data to {name}')

    def op_scope(self, names='nvwtM', variant='a'):
        """Declares and assigns everything anew"""
        for name in names:
            self.op_declare(name)
            self.op_assign(name, variant)

    def op_refill(self, variant='a'):
        """Assigns everything that is declared"""
        for name in list(self.spec.scope):
            self.op_assign(name, variant)

    def op_expr(self, text, group=None):
        self.must(lambda: self.m.expressions.append(text, group), f'appending {text!r}') if group is not None else \
            self.must(lambda: self.m.expressions.append(text), f'appending {text!r}')
        self.spec.groups.setdefault(group, []).append(text)

    def conflicts(self, text):
        simple, chained = used(text)
        for e in self.spec.expressions():
            s, c = used(e)
            simple, chained = simple | s, chained | c
        return simple & chained

    def op_expr_if(self, text, group=None):
        """Appends an expression unless it uses a name in another way than the present ones"""
        if self.conflicts(text):
            self.op_expr_bad(text, group)
        else:
            self.op_expr(text, group)

    def op_expr_conflict(self, text, group=None):
        if self.conflicts(text):
            self.op_expr_bad(text, group)

    def op_declare_bad(self, name):
        for what, call in [('number', lambda: self.m.declare_number(name)), ('vector', lambda: self.m.declare_vector(name, 0)),
                           ('table', lambda: self.m.declare_table(name, 1)), ('matrix', lambda: self.m.declare_matrix(name))]:
            self.must_not(call, f'declaring {what} {name}')
            self.must_not(lambda: self.m[name], f'variable {name}', ['KeyError'])

    def op_expr_bad(self, text, group=None):
        call = (lambda: self.m.expressions.append(text)) if group is None else (lambda: self.m.expressions.append(text, group))
        self.must_not(call, f'appending {text!r}')

    def op_clear_exprs(self):
        self.m.expressions.clear()
        self.spec.groups = {None: []}

    def op_clear_scope(self):
        self.m.clear_scope()
        self.spec.release()

    def op_drop(self, group):
        if group in self.spec.groups:
            self.must(lambda: self.m.expressions.drop_group(group), f'dropping group {group}')
            del self.spec.groups[group]
        else:
            self.must_not(lambda: self.m.expressions.drop_group(group), f'dropping group {group}', ['KeyError'])

    def op_partial(self, variant):
        """Partial utilities: (rows, columns, may expand rows, may expand columns, dtype)"""
        import pandas as pd
        s = self.spec
        rows, cols, rr, rc, dtype = variant
        N = 3 if s.units is None else len(s.units)
        rsel = {'all': list(range(N)), 'rev': list(range(N))[::-1], 'part': list(range(N))[-1:], 'odd': list(range(N))[1::2] or [0], 'unknown': list(range(N))}[rows]
        csel = {'all': list(range(s.n)), 'rev': list(range(s.n))[::-1], 'part': list(range(s.n))[-1:], 'two': [s.n - 1, 0], 'unknown': list(range(s.n))}[cols]
        values = (np.add.outer(np.array(rsel) * 2.0, np.array(csel)) / 8 + 0.25).astype(dtype)
        units = list(s.units) if s.units is not None else ['u0', 'u1', 'u2']
        index = [units[r] for r in rsel]
        if rows == 'unknown':
            index[0] = 'nobody'
        labels = self.m.choices.take(csel)
        if cols == 'unknown':
            labels = pd.Index(['nothing'] + list(labels[1:])) if labels.nlevels == 1 else pd.MultiIndex.from_tuples([('nothing', '.')[:labels.nlevels]] + list(labels[1:]))
        table = pd.DataFrame(values, index=index, columns=labels)
        keep = table.copy()
        call = lambda: self.m.add_partial_utilities(table, reindex_rows=rr, reindex_columns=rc)
        what = f'adding partial utilities {variant}'
        if s.units is None:
            self.must_not(call, what)
            return
        r_exact, c_exact = rsel == list(range(N)) and rows != 'unknown', csel == list(range(s.n)) and cols != 'unknown'
        if rows == 'unknown' or cols == 'unknown' or (not r_exact and not rr and len(rsel) < N) or (not c_exact and not rc and len(csel) < s.n):
            self.must_not(call, what)
            return
        _, e = self.attempt(call)
        if e is not None:
            if (not r_exact and not rr) or (not c_exact and not rc):
                return   # Another order, without permission to re-index: open
            self.fail(f'{what} raised {type(e).__name__}: {e}')
        if not table.equals(keep):
            self.fail(f'{what} changed the table')
        if s.partial is None:
            s.partial = np.zeros((N, s.n))
        s.partial[np.ix_(rsel, csel)] += values.astype('f8')

    def op_preval(self, group, drop=True, cleanup=True):
        s = self.spec
        call = lambda: self.m.preval(group, n_threads=1, drop_group=drop, cleanup_scope=cleanup)
        status, what = s.status(group), f'preval({group})'
        if status in ('nogroup', 'not'):
            self.must_not(call, what, {'nogroup': ['KeyError'] + ['ModelNotReadyError'] * (s.units is None)}.get(status) or ['ModelNotReadyError'])
            return
        u = s.utilities(group)
        _, e = self.attempt(call)
        if e is not None:
            if status == 'maybe' and type(e).__name__ == 'ModelNotReadyError':
                return
            if np.isnan(u).any() and type(e).__name__ == 'UtilityBoundsError':
                return
            self.fail(f'{what} raised {type(e).__name__}: {e}')
        if np.isnan(u).any():
            self.fail(f'{what} accepted utilities with NaN')
        mine = set().union(*[set.union(*used(x)) for x in s.groups[group]])
        s.partial = u
        if drop:
            del s.groups[group]
        if cleanup:
            left = set().union(*[set.union(*used(x)) for x in s.expressions()]) if s.expressions() else set()
            for name in mine - left:
                if name in s.scope:
                    s.scope[name]['maybe'] = True
        left = set().union(*[set.union(*used(x)) for x in s.expressions()]) if s.expressions() else set()
        for name in s.scope:
            if (name in left or not cleanup or name not in mine) and not s.scope[name]['maybe']:
                self.must(lambda: self.m[name], f'after {what}: variable {name}')

    def op_copy(self, which='full'):
        """Goes on with a copy"""
        if which == 'full' or self.spec.units is None:
            self.m = self.must(lambda: self.m.copy(), 'copy()')
        else:
            import pandas as pd
            everyone = pd.Series([True] * len(self.spec.units), index=self.m.decision_units)
            self.m = self.must(lambda: self.m.copy_subset(everyone), 'copy_subset()')

    def op_run(self, group=None, clear=False, kind='stochastic', infeasible_ok=True):
        self.observe(group, clear, kind, infeasible_ok)

    def observe(self, group=None, clear=False, kind='stochastic', infeasible_ok=True, threads=1):
        s, m = self.spec, self.m
        status = s.status(group)
        what = f'{kind} run of {group if group is not None else "everything"}'
        if kind == 'discrete':
            call = lambda: m.run_discrete(random_seed=11, clear_scope=clear, astype='index', n_threads=threads)
        else:
            call = lambda: m.run_stochastic(group=group, clear_scope=clear, check_infeasible=not infeasible_ok, n_threads=threads)
        r, e = self.attempt(call)
        name = type(e).__name__ if e is not None else None
        if status in ('nogroup', 'not'):
            if e is None:
                self.fail(f'{what}: ran although ' + ('there is no such group' if status == 'nogroup' else 'it is not ready'))
            if name not in ({'nogroup': ['KeyError'] + ['ModelNotReadyError'] * (s.units is None)}.get(status) or ['ModelNotReadyError']):
                self.fail(f'{what}: raised {name}: {e}')
            return None
        if status == 'maybe' and name == 'ModelNotReadyError':
            return None
        u = s.utilities(group)
        with np.errstate(all='ignore'):
            terms, total = self.logit(u)
            bad = np.isnan(u).any() or not np.isfinite(total).all() or ((total == 0).any() and (kind == 'discrete' or not infeasible_ok))
        if bad:
            if name != 'UtilityBoundsError':
                self.fail(f'{what}: unusable utilities {u.tolist()}, ' + (f'raised {name}: {e}' if e is not None else 'but it returned results'))
            if clear:
                s.release(sure=False)
            return None
        if e is not None:
            self.fail(f'{what}: raised {name}: {e}')
        tol = 1e-9 * (1 + np.max(np.abs(u[np.isfinite(u)]), initial=0)) if m.precision == 8 else 3e-5
        if kind == 'discrete':
            self.near(what + ': logsums', r[1].to_numpy(), total, tol)
            if list(r[0].index) != s.units:
                self.fail(f'{what}: index {list(r[0].index)}, expected {s.units}')
            feasible = terms > 0
            pos = r[0].to_numpy()
            if not all(feasible[i, p] for i, p in enumerate(pos)):
                self.fail(f'{what}: sampled an unavailable alternative {pos.tolist()}')
        else:
            p, top, ls = r
            if list(p.index) != s.units or list(ls.index) != s.units or list(top.index) != s.units:
                self.fail(f'{what}: index {list(p.index)}, expected {s.units}')
            self.near(what + ': terms', ls.to_numpy(), terms, tol)
            self.near(what + ': total', top.to_numpy(), total, tol)
            if not any(s.kids):
                with np.errstate(all='ignore'):
                    self.near(what + ': probabilities', p.to_numpy(), np.where(total[:, None] > 0, terms / total[:, None], 0), tol)
        if clear:
            s.release()
        return r

    def logit(self, u):
        s = self.spec
        if not any(s.kids):
            t = np.exp(u)
            return t, t.sum(axis=1)
        from mc.trees import reference
        p, top, terms = reference(u, s.seq, [1.0] * s.n, True)
        return terms, top

    def near(self, what, got, want, tol):
        got, want = np.asarray(got, dtype='f8'), np.asarray(want, dtype='f8')
        if got.shape != want.shape:
            self.fail(f'{what}: shape {got.shape}, expected {want.shape}')
        with np.errstate(all='ignore'):
            ok = (got == want) | (np.abs(got - want) <= tol * (np.abs(want) + 1e-12))
        if not ok.all():
            at = tuple(int(i) for i in np.argwhere(~ok)[0])
            self.fail(f'{what}: got {got[at]!r}, expected {want[at]!r} at {at}\n got {got.tolist()}\nwant {want.tolist()}')

    def summary(self):
        """Canonical description of the state of the reference"""
        s = self.spec
        return [s.units, sorted((k, v['maybe'], None if v['values'] is None else {a: np.asarray(x).tolist() for a, x in v['values'].items()}) for k, v in s.scope.items()),
                {str(k): v for k, v in s.groups.items()}, None if s.partial is None else s.partial.tolist()]


def sequences(alphabet, depth, first):
    """All sequences of the given length which start with the given operations"""
    for rest in itertools.product(range(len(alphabet)), repeat=depth - len(first)):
        yield [alphabet[i] for i in tuple(first) + rest]
