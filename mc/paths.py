"""Tables which are all linked to each other under the same names, and the values at the end of every path, by walking from row to row."""
import itertools

N = 5


class Graph:
    def __init__(self, eager=True):
        import numpy as np
        from cheval.ldf import LinkedDataFrame as L
        # Rows 0-2; 9 is matched by nothing
        self.go = {'d': {'p': ('t0', [0, 2, 1, 9, 2]), 'q': ('t1', [1, 1, 0, 2, 9])},
                   't0': {'p': ('t1', [2, 0, 1]), 'q': ('t2', [0, 0, 9])}, 't1': {'p': ('t2', [1, 2, 0]), 'q': ('t0', [2, 9, 1])}, 't2': {'p': ('t0', [1, 1, 2]), 'q': ('t1', [0, 2, 1])}}
        self.x = {'d': [0.5, -1.5, 2.25, 4.0, -0.75], 't0': [1.0, 2.0, 3.5], 't1': [-4.0, 0.25, 7.0], 't2': [11.0, -13.0, 0.125]}
        self.many = {t: ([0, 2, 0, 1, 0, 5], [j * 0.5 + 17 * i for j in range(6)]) for i, t in enumerate(self.go)}
        self.tables = {}
        for t, links in self.go.items():
            n = len(self.x[t])
            self.tables[t] = L({'x': self.x[t], 'kp': np.array(links['p'][1]) * 10, 'kq': np.array(links['q'][1]) * 10, 'id': np.arange(n)}, index=[f'{t}.{i}' for i in range(n)] if t == 'd' else np.arange(n) * 10)
        for i, (t, links) in enumerate(self.go.items()):
            for name, (other, _) in links.items():
                self.tables[t].link_to(self.tables[other], name, on_self='k' + name, precompute=eager)
            who, y = self.many[t]
            self.tables[t].link_to(L({'who': who, 'y': y}), 'g', on_self='id', on_other='who', precompute=not eager)

    def rows(self, path):
        t, at = 'd', list(range(N))
        for name in path:
            other, to = self.go[t][name]
            at = [None if i is None or to[i] == 9 else to[i] for i in at]
            t = other
        return t, at

    def values(self, path, aggregated):
        import numpy as np
        t, at = self.rows(path)
        if not aggregated:
            return np.array([np.nan if i is None else self.x[t][i] for i in at])
        who, y = self.many[t]
        return np.array([np.nan if i is None or i not in who else sum(v for w, v in zip(who, y) if w == i) for i in at])


def text(path, aggregated, prefix=''):
    return '.'.join([*([prefix] if prefix else []), *path, 'g.sum(y)' if aggregated else 'x'])


def all_paths(most):
    for n in range(most + 1):
        yield from (list(p) for p in itertools.product('pq', repeat=n))
